// Standard trace header layout, the reference's own copy (SEG-Y rev 2.0, main
// header and first extension header).
#pragma once
#include "codec.hpp"
struct StdField { uint32_t off; char const* name; VT type; };
static StdField const std_main[] = {
    { 0, "TRC_SEQ_LINE", VT::int32 },
    { 4, "TRC_SEQ_SGY", VT::int32 },
    { 8, "FFID", VT::int32 },
    { 12, "CHAN", VT::int32 },
    { 16, "ESP", VT::int32 },
    { 20, "ENS_NO", VT::int32 },
    { 24, "SEQ_NO", VT::int32 },
    { 28, "TRACE_ID", VT::int16 },
    { 30, "VERT_SUM", VT::int16 },
    { 32, "HOR_SUM", VT::int16 },
    { 34, "DATA_USE", VT::int16 },
    { 36, "OFFSET", VT::int32 },
    { 40, "R_ELEV", VT::int32 },
    { 44, "S_ELEV", VT::int32 },
    { 48, "S_DEPTH", VT::int32 },
    { 52, "R_DATUM", VT::int32 },
    { 56, "S_DATUM", VT::int32 },
    { 60, "S_WATER", VT::int32 },
    { 64, "R_WATER", VT::int32 },
    { 68, "ELEV_SCALAR", VT::int16 },
    { 70, "COORD_SCALAR", VT::int16 },
    { 72, "SOU_X", VT::int32 },
    { 76, "SOU_Y", VT::int32 },
    { 80, "REC_X", VT::int32 },
    { 84, "REC_Y", VT::int32 },
    { 88, "COORD_UNITS", VT::int16 },
    { 90, "WEATH_VEL", VT::int16 },
    { 92, "SUBWEATH_VEL", VT::int16 },
    { 94, "S_UPHOLE", VT::int16 },
    { 96, "R_UPHOLE", VT::int16 },
    { 98, "S_STAT", VT::int16 },
    { 100, "R_STAT", VT::int16 },
    { 102, "TOT_STAT", VT::int16 },
    { 104, "LAG_A", VT::int16 },
    { 106, "LAG_B", VT::int16 },
    { 108, "DELAY_TIME", VT::int16 },
    { 110, "MUTE_START", VT::int16 },
    { 112, "MUTE_END", VT::int16 },
    { 114, "SAMP_NUM", VT::int16 },
    { 116, "SAMP_INT", VT::int16 },
    { 118, "GAIN_TYPE", VT::int16 },
    { 120, "GAIN_CONST", VT::int16 },
    { 122, "INIT_GAIN", VT::int16 },
    { 124, "CORRELATED", VT::int16 },
    { 126, "SW_START", VT::int16 },
    { 128, "SW_END", VT::int16 },
    { 130, "SW_LENGTH", VT::int16 },
    { 132, "SW_TYPE", VT::int16 },
    { 134, "SW_TAPER_START", VT::int16 },
    { 136, "SW_TAPER_END", VT::int16 },
    { 138, "TAPER_TYPE", VT::int16 },
    { 140, "ALIAS_FILT_FREQ", VT::int16 },
    { 142, "ALIAS_FILT_SLOPE", VT::int16 },
    { 144, "NOTCH_FILT_FREQ", VT::int16 },
    { 146, "NOTCH_FILT_SLOPE", VT::int16 },
    { 148, "LOW_CUT_FREQ", VT::int16 },
    { 150, "HIGH_CUT_FREQ", VT::int16 },
    { 152, "LOW_CUT_SLOPE", VT::int16 },
    { 154, "HIGH_CUT_SLOPE", VT::int16 },
    { 156, "YEAR", VT::int16 },
    { 158, "DAY", VT::int16 },
    { 160, "HOUR", VT::int16 },
    { 162, "MINUTE", VT::int16 },
    { 164, "SECOND", VT::int16 },
    { 166, "TIME_BASIS_CODE", VT::int16 },
    { 168, "TRACE_WEIGHT", VT::int16 },
    { 170, "GROUP_NUM_ROLL", VT::int16 },
    { 172, "GROUP_NUM_FIRST", VT::int16 },
    { 174, "GROUP_NUM_LAST", VT::int16 },
    { 176, "GAP_SIZE", VT::int16 },
    { 178, "OVER_TRAVEL", VT::int16 },
    { 180, "CDP_X", VT::int32 },
    { 184, "CDP_Y", VT::int32 },
    { 188, "INLINE", VT::int32 },
    { 192, "XLINE", VT::int32 },
    { 196, "SP_NUM", VT::int32 },
    { 200, "SP_NUM_SCALAR", VT::int16 },
    { 202, "TR_VAL_UNIT", VT::int16 },
    { 204, "TRANS_CONST_MANT", VT::int32 },
    { 208, "TRANS_CONST_EXP", VT::int16 },
    { 210, "TRANS_UNITS", VT::int16 },
    { 212, "DEVICE_ID", VT::int16 },
    { 214, "TIME_SCALAR", VT::int16 },
    { 216, "SOURCE_TYPE", VT::int16 },
    { 218, "SOU_V_DIR", VT::int16 },
    { 220, "SOU_X_DIR", VT::int16 },
    { 222, "SOU_I_DIR", VT::int16 },
    { 224, "SOURCE_MEASUREMENT_MANT", VT::int32 },
    { 228, "SOURCE_MEASUREMENT_EXP", VT::int16 },
    { 230, "SOU_MEAS_UNIT", VT::int16 },
};
static StdField const std_ext1[] = {
    { 0, "TRC_SEQ_LINE", VT::uint64 },
    { 8, "TRC_SEQ_SGY", VT::uint64 },
    { 16, "FFID", VT::uint64 },
    { 24, "ENS_NO", VT::uint64 },
    { 32, "R_ELEV", VT::ieee_double },
    { 40, "R_DEPTH", VT::ieee_double },
    { 48, "S_ELEV", VT::ieee_double },
    { 56, "S_DEPTH", VT::ieee_double },
    { 64, "R_DATUM", VT::ieee_double },
    { 72, "S_DATUM", VT::ieee_double },
    { 80, "S_WATER", VT::ieee_double },
    { 88, "R_WATER", VT::ieee_double },
    { 96, "SOU_X", VT::ieee_double },
    { 104, "SOU_Y", VT::ieee_double },
    { 112, "REC_X", VT::ieee_double },
    { 120, "REC_Y", VT::ieee_double },
    { 128, "OFFSET", VT::ieee_double },
    { 136, "SAMP_NUM", VT::int32 },
    { 140, "NANOSECOND", VT::int32 },
    { 144, "SAMP_INT", VT::ieee_double },
    { 152, "CABLE_NUM", VT::int32 },
    { 156, "ADD_TRC_HDR_NUM", VT::int16 },
    { 158, "LAST_TRC_FLAG", VT::int16 },
    { 160, "CDP_X", VT::ieee_double },
    { 168, "CDP_Y", VT::ieee_double },
};
