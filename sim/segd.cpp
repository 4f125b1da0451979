#include "segd.hpp"
#include "scenario.hpp"
#include "segd_layout.hpp"
#include <algorithm>
#include <cmath>
#include <numeric>
using namespace sedaman;

// ------------------------------------------------------------------ blocks
namespace {
struct B {
    std::string s, mask;
    bool bad = false, half = false; // bad: a value does not fit its field
    B& u(uint64_t v, int n)
    {
        if (n < 8 && v >> (8 * n)) bad = true;
        app_uint(s, v, n);
        mask.append(n, '\xff');
        return *this;
    }
    B& i(int64_t v, int n)
    {
        if (sext(static_cast<uint64_t>(v), n) != v) bad = true;
        app_uint(s, static_cast<uint64_t>(v), n);
        mask.append(n, '\xff');
        return *this;
    }
    B& nib(int64_t v)
    {
        if (v < 0 || v > 15) { bad = true; v = 0; }
        if (half) s.back() = static_cast<char>(s.back() | v);
        else { s.push_back(static_cast<char>(v << 4)); mask.push_back('\xff'); }
        half = !half;
        return *this;
    }
    B& bcd(int64_t v, int n)
    {
        int64_t all = 0, p = 1;
        for (int k = 0; k < n; ++k) { all = all * 10 + 15; p *= 10; }
        if (v == all) {
            for (int k = 0; k < n; ++k) nib(15);
            return *this;
        }
        if (v < 0 || v >= p) { bad = true; v = 0; }
        for (int k = 0; k < n; ++k) { p /= 10; nib(v / p % 10); }
        return *this;
    }
    // a multiple of 1/scale as an n-byte unsigned integer
    B& scaled(double v, double scale, int n)
    {
        double x = v * scale;
        if (!(x >= 0) || x != std::floor(x) || x >= std::ldexp(1.0, 8 * n)) { bad = true; x = 0; }
        return u(static_cast<uint64_t>(x), n);
    }
    // whole part in three bytes (two's complement), 16 bit fraction
    B& line(double v)
    {
        double w = std::floor(v), f = (v - w) * 65536;
        if (!(v > -8388609 && v < 8388608) || f != std::floor(f)) { bad = true; w = f = 0; }
        return i(static_cast<int64_t>(w), 3).u(static_cast<uint64_t>(f), 2);
    }
    B& chars(char const* p, int n) { s.append(p, n); mask.append(n, '\xff'); return *this; }
    B& skip(int n) { s.append(n, '\0'); mask.append(n, '\0'); return *this; }
    B& pad(size_t n) { if (s.size() < n) skip(static_cast<int>(n - s.size())); return *this; }
    std::string done(uint32_t fill) const
    {
        std::string r = s, f = rand_bytes(fill, s.size());
        for (size_t k = 0; k < r.size(); ++k)
            if (!mask[k]) r[k] = f[k];
        return r;
    }
    bool same(std::string const& stored) const
    {
        if (bad || stored.size() != s.size()) return false;
        for (size_t k = 0; k < s.size(); ++k)
            if (mask[k] && s[k] != stored[k]) return false;
        return true;
    }
};

B blk(SGD::GeneralHeader const& g, uint8_t scan_exp, uint8_t scan_mant)
{
    B b;
    b.bcd(g.file_number, 4).bcd(g.format_code, 4).bcd(g.gen_const, 12).bcd(g.year, 2).nib(g.add_gen_hdr_blocks).bcd(g.day, 3);
    b.bcd(g.hour, 2).bcd(g.minute, 2).bcd(g.second, 2).bcd(g.manufac_code, 2).bcd(g.manufac_num, 4).bcd(g.bytes_per_scan, 6);
    b.scaled(g.base_scan_int, 16, 1).nib(g.polarity).nib(scan_exp).u(scan_mant, 1).nib(g.record_type).bcd(g.record_length, 3);
    b.bcd(g.scan_types_per_record, 2).bcd(g.channel_sets_per_scan_type, 2).bcd(g.skew_blocks, 2);
    b.bcd(g.extended_hdr_blocks, 2).bcd(g.external_hdr_blocks, 2);
    return b;
}
B blk(SGD::GeneralHeader2 const& g, int rev)
{
    B b;
    b.u(g.expanded_file_num, 3).u(g.ext_ch_sets_per_scan_type, 2);
    if (rev < 3) {
        b.u(g.extended_hdr_blocks, 2).u(g.external_hdr_blocks, 2).skip(1).u(g.segd_rev_major, 1).u(g.segd_rev_minor, 1);
        b.u(g.gen_trailer_num_of_blocks, 2).u(g.ext_record_len, 3).skip(1).u(g.gen_hdr_block_num, 1).skip(1).u(g.sequence_number, 2);
    } else {
        b.u(g.extended_hdr_blocks, 3).u(g.extended_skew_blocks, 2).u(g.segd_rev_major, 1).u(g.segd_rev_minor, 1);
        b.u(g.gen_trailer_num_of_blocks, 4).u(g.ext_record_len, 4).u(g.record_set_number, 2).u(g.ext_num_add_blks_in_gen_hdr, 2);
        b.u(g.dominant_sampling_int, 3).u(g.external_hdr_blocks, 3).skip(1).u(g.gen_hdr_block_num, 1);
    }
    return b.pad(32);
}
B blk(SGD::GeneralHeader3 const& g)
{
    B b;
    return b.u(g.time_zero, 8).u(g.record_size, 8).u(g.data_size, 8).u(g.header_size, 4).u(g.extd_rec_mode, 1).u(g.rel_time_mode, 1).skip(1).u(g.gen_hdr_block_num, 1);
}
B blk(SGD::GeneralHeaderN const& g)
{
    B b;
    b.u(g.expanded_file_number, 3).line(g.sou_line_num).line(g.sou_point_num).u(g.sou_point_index, 1).u(g.phase_control, 1);
    b.u(g.type_vibrator, 1).i(g.phase_angle, 2).u(g.gen_hdr_block_num, 1).u(g.sou_set_num, 1);
    return b.pad(32);
}
template <class T> B source_head(T const& g)
{
    B b;
    return b.u(g.expanded_file_number, 3).line(g.sou_line_num).line(g.sou_point_num).u(g.sou_point_index, 1);
}
template <class T> B& source_tail(B& b, T const& g)
{
    return b.u(g.source_id, 1).u(g.source_set_num, 1).u(g.reshoot_idx, 1).u(g.group_idx, 1).u(g.depth_idx, 1)
        .u(g.offset_crossline, 2).u(g.offset_inline, 2).u(g.size, 2).u(g.offset_depth, 2).u(g.gen_hdr_block_type, 1);
}
B blk(SGD::GeneralHeaderVes const& g) { return B().chars(g.abbr_vessel_crew_name, 3).chars(g.vessel_crew_name, 28).u(g.gen_hdr_block_type, 1); }
B blk(SGD::GeneralHeaderSur const& g) { return B().chars(g.survey_area_name, 31).u(g.gen_hdr_block_type, 1); }
B blk(SGD::GeneralHeaderCli const& g) { return B().chars(g.client_name, 31).u(g.gen_hdr_block_type, 1); }
B blk(SGD::GeneralHeaderJob const& g) { return B().chars(g.abbr_job_id, 5).chars(g.job_id, 26).u(g.gen_hdr_block_type, 1); }
B blk(SGD::GeneralHeaderLin const& g) { return B().chars(g.line_abbr, 7).chars(g.line_id, 24).u(g.gen_hdr_block_type, 1); }
B blk(SGD::GeneralHeaderVib const& g)
{
    B b = source_head(g);
    b.u(g.phase_control, 1).u(g.type_vibrator, 1).i(g.phase_angle, 2);
    return source_tail(b, g);
}
B blk(SGD::GeneralHeaderExp const& g)
{
    B b = source_head(g);
    b.u(g.depth, 2).u(g.charge_length, 1).u(g.soil_type, 1);
    return source_tail(b, g);
}
B blk(SGD::GeneralHeaderAir const& g)
{
    B b = source_head(g);
    b.u(g.depth, 2).u(g.air_pressure, 2);
    return source_tail(b, g);
}
B blk(SGD::GeneralHeaderWat const& g)
{
    B b = source_head(g);
    b.u(g.depth, 2).u(g.air_pressure, 2);
    return source_tail(b, g);
}
B blk(SGD::GeneralHeaderEle const& g)
{
    B b = source_head(g);
    b.u(g.source_type, 1).u(g.moment, 3);
    return source_tail(b, g);
}
B blk(SGD::GeneralHeaderOth const& g)
{
    B b = source_head(g);
    b.skip(4);
    return source_tail(b, g);
}
B blk(SGD::GeneralHeaderAdd const& g)
{
    return B().u(g.time, 8).u(g.source_status, 1).u(g.source_id, 1).u(g.source_moving, 1).chars(g.error_description, 20).u(g.gen_hdr_block_type, 1);
}
B blk(SGD::GeneralHeaderSaux const& g)
{
    return B().u(g.source_id, 1).bcd(g.scan_type_num_1, 2).u(g.ch_set_num_1, 2).u(g.trace_num_1, 3).bcd(g.scan_type_num_2, 2).u(g.ch_set_num_2, 2)
        .u(g.trace_num_2, 3).bcd(g.scan_type_num_3, 2).u(g.ch_set_num_3, 2).u(g.trace_num_3, 3).bcd(g.scan_type_num_4, 2).u(g.ch_set_num_4, 2)
        .u(g.trace_num_4, 3).bcd(g.scan_type_num_5, 2).u(g.ch_set_num_5, 2).u(g.trace_num_5, 3).u(g.gen_hdr_block_type, 1);
}
B blk(SGD::GeneralHeaderCoord const& g) { return B().chars(g.crs, 31).u(g.gen_hdr_block_type, 1); }
B blk(SGD::GeneralHeaderPos1 const& g)
{
    return B().u(g.time_of_position, 8).u(g.time_of_measurement, 8).u(g.vert_error, 4).u(g.hor_error_semi_major, 4).u(g.hor_error_semi_minor, 4)
        .u(g.hor_error_orientation, 2).u(g.position_type, 1).u(g.gen_hdr_block_type, 1);
}
B blk(SGD::GeneralHeaderPos2 const& g)
{
    return B().u(g.crs_a_coord1, 8).u(g.crs_a_coord2, 8).u(g.crs_a_coord3, 8).u(g.crs_a_crsref, 2).u(g.pos1_valid, 1).u(g.pos1_quality, 1).skip(3).u(g.gen_hdr_block_type, 1);
}
B blk(SGD::GeneralHeaderPos3 const& g)
{
    return B().u(g.crs_b_coord1, 8).u(g.crs_b_coord2, 8).u(g.crs_b_coord3, 8).u(g.crs_b_crsref, 2).u(g.pos2_valid, 1).u(g.pos2_quality, 1).skip(3).u(g.gen_hdr_block_type, 1);
}
B blk(SGD::GeneralHeaderRel const& g) { return B().u(g.offset_east, 4).u(g.offset_north, 4).u(g.offset_vert, 4).chars(g.description, 19).u(g.gen_hdr_block_type, 1); }
B blk(SGD::GeneralHeaderSen const& g)
{
    return B().u(g.instrument_test_time, 8).u(g.sensor_sensitivity, 4).u(g.instr_test_result, 1).chars(g.serial_number, 18).u(g.gen_hdr_block_type, 1);
}
B blk(SGD::GeneralHeaderSCa const& g)
{
    return B().u(g.freq1, 4).u(g.amp1, 4).u(g.phase1, 4).u(g.freq2, 4).u(g.amp2, 4).u(g.phase2, 4).u(g.calib_applied, 1).skip(6).u(g.gen_hdr_block_type, 1);
}
B blk(SGD::GeneralHeaderTim const& g)
{
    return B().u(g.time_of_depl, 8).u(g.time_of_retr, 8).u(g.timer_offset_depl, 4).u(g.time_offset_retr, 4).u(g.timedrift_corr, 1).u(g.corr_method, 1).skip(5).u(g.gen_hdr_block_type, 1);
}
B blk(SGD::GeneralHeaderElSR const& g)
{
    return B().u(g.equip_dim_x, 3).u(g.equip_dim_y, 3).u(g.equip_dim_z, 3).u(g.pos_term, 1).u(g.equip_offset_x, 3).u(g.equip_offset_y, 3).u(g.equip_offset_z, 3).skip(12).u(g.gen_hdr_block_type, 1);
}
B blk(SGD::GeneralHeaderOri const& g)
{
    return B().u(g.rot_x, 4).u(g.rot_y, 4).u(g.rot_z, 4).u(g.ref_orientation, 4).u(g.time_stamp, 8).u(g.ori_type, 1).u(g.ref_orient_valid, 1)
        .u(g.rot_applied, 1).u(g.rot_north_applied, 1).skip(3).u(g.gen_hdr_block_type, 1);
}
B blk(SGD::GeneralHeaderMeas const& g)
{
    return B().u(g.timestamp, 8).u(g.measurement_value, 4).u(g.maximum_value, 4).u(g.minimum_value, 4).u(g.quantity_class, 2).u(g.unit_of_measure, 2)
        .u(g.measurement_description, 2).skip(5).u(g.gen_hdr_block_type, 1);
}
B blk(SGD::ChannelSetHeader c, int rev)
{
    B b;
    b.bcd(c.scan_type_number, 2);
    if (rev < 3) {
        b.bcd(c.channel_set_number, 2).u(c.channel_set_start_time / 2, 2).u(c.channel_set_end_time / 2, 2);
        b.u(static_cast<uint64_t>(std::fabs(c.descale_multiplier) * 1024) | (c.descale_multiplier < 0 ? 0x8000 : 0), 2);
        b.bcd(c.number_of_channels, 4).nib(c.channel_type).nib(0);
        int e = 0;
        while ((1 << e) < c.subscans_per_ch_set) ++e;
        b.nib(e).nib(c.channel_gain).bcd(c.alias_filter_freq, 4).bcd(c.alias_filter_slope, 4).bcd(c.low_cut_filter_freq, 4).bcd(c.low_cut_filter_slope, 4);
        b.bcd(c.first_notch_filter, 4).bcd(c.second_notch_filter, 4).bcd(c.third_notch_filter, 4).u(c.ext_ch_set_num, 2);
        b.nib(c.ext_hdr_flag).nib(c.trc_hdr_ext).u(c.vert_stack, 1).u(c.streamer_no, 1).u(c.array_forming, 1);
    } else {
        b.u(c.channel_set_number, 2).u(c.channel_type, 1).u(c.channel_set_start_time, 4).u(c.channel_set_end_time, 4).u(*c.number_of_samples(), 4).u(0, 4);
        b.u(c.number_of_channels, 3).u(*c.samp_int(), 3).u(c.array_forming, 1).u(c.trc_hdr_ext, 1).nib(c.ext_hdr_flag).nib(c.channel_gain);
        b.u(c.vert_stack, 1).u(c.streamer_no, 1).skip(1).u(c.alias_filter_freq, 4).u(c.low_cut_filter_freq, 4).u(c.alias_filter_slope, 4).u(c.low_cut_filter_slope, 4);
        b.u(c.first_notch_filter, 4).u(c.second_notch_filter, 4).u(c.third_notch_filter, 4).u(*c.filter_phase(), 1).u(*c.physical_unit(), 1).skip(2);
        auto d = *c.description();
        b.u(*c.filter_delay(), 4).chars(d.data(), 27).pad(96);
    }
    return b;
}
}

std::string diff_ch_set(SGD::ChannelSetHeader g, SGD::ChannelSetHeader w)
{
#define F(x) if (g.x != w.x) return #x;
    F(scan_type_number) F(channel_set_number) F(channel_type) F(channel_set_start_time) F(channel_set_end_time) F(descale_multiplier)
    F(number_of_channels) F(subscans_per_ch_set) F(channel_gain) F(alias_filter_freq) F(alias_filter_slope) F(low_cut_filter_freq)
    F(low_cut_filter_slope) F(first_notch_filter) F(second_notch_filter) F(third_notch_filter) F(ext_ch_set_num) F(ext_hdr_flag)
    F(trc_hdr_ext) F(vert_stack) F(streamer_no) F(array_forming) F(number_of_samples()) F(samp_int()) F(filter_phase()) F(physical_unit())
    F(filter_delay()) F(description())
#undef F
    return "";
}

// ------------------------------------------------------------------ samples
std::vector<int> const segd_formats = { 8058, 8015, 8022, 8024, 8036, 8038, 8042, 8044, 8048, 8080, 9036, 9038, 9058, 9080 };
int segd_bits(int fmt)
{
    switch (fmt) {
    case 8015: return 20;
    case 8022: case 8042: return 8;
    case 8024: case 8044: return 16;
    case 8036: case 9036: return 24;
    case 8080: case 9080: return 64;
    default: return 32;
    }
}
static double decode1(int fmt, char const* p)
{
    auto u = [&](int n, bool le) { return get_uint(p, n, le); };
    switch (fmt) {
    case 8022: { // sign, 3 bits exponent of 4, 4 bits, negative numbers as one's complement of the fraction
        uint64_t v = u(1, false);
        int e = v >> 4 & 7, m = v & 15;
        return v >> 7 ? -(15 - m) * std::ldexp(1, 2 * e - 4) : m * std::ldexp(1, 2 * e - 4);
    }
    case 8024: {
        uint64_t v = u(2, false);
        int e = v >> 12 & 7, m = v & 4095;
        return v >> 15 ? -(4095 - m) * std::ldexp(1, 2 * e - 12) : m * std::ldexp(1, 2 * e - 12);
    }
    case 8042: {
        uint64_t v = u(1, false);
        int m = v & 31;
        return (v >> 7 ? -m : m) * std::ldexp(1, 4 * static_cast<int>(v >> 5 & 3) - 5);
    }
    case 8044: {
        uint64_t v = u(2, false);
        int m = v & 8191;
        return (v >> 15 ? -m : m) * std::ldexp(1, 4 * static_cast<int>(v >> 13 & 3) - 13);
    }
    case 8036: return static_cast<double>(sext(u(3, false), 3));
    case 8038: return static_cast<double>(sext(u(4, false), 4));
    case 8048: return ibm_value(static_cast<uint32_t>(u(4, false)));
    case 8058: return f32(static_cast<uint32_t>(u(4, false)));
    case 8080: return f64(u(8, false));
    case 9036: return static_cast<double>(sext(u(3, true), 3));
    case 9038: return static_cast<double>(sext(u(4, true), 4));
    case 9058: return f32(static_cast<uint32_t>(u(4, true)));
    case 9080: return f64(u(8, true));
    }
    return 0;
}
std::vector<double> segd_decode(int fmt, std::string const& raw, uint32_t n)
{
    std::vector<double> r(n);
    if (fmt == 8015) {
        for (uint32_t i = 0; i < n; ++i) {
            char const* q = raw.data() + i / 4 * 10;
            int e = get_uint(q, 2, false) >> (12 - 4 * (i % 4)) & 15;
            uint32_t f = static_cast<uint32_t>(get_uint(q + 2 + 2 * (i % 4), 2, false));
            r[i] = f >> 15 ? -static_cast<double>((0xffff - f) >> 1) * std::ldexp(1, e - 14) : (f >> 1) * std::ldexp(1, e - 14);
        }
        return r;
    }
    int b = segd_bits(fmt) / 8;
    for (uint32_t i = 0; i < n; ++i) r[i] = decode1(fmt, raw.data() + static_cast<size_t>(i) * b);
    return r;
}
double segd_quantum(int fmt, double v)
{
    v = std::fabs(v);
    auto expo = [&](int base, int lo, int hi, int frac) {
        for (int e = lo; e <= hi; ++e)
            if (v < std::ldexp(1 - std::ldexp(1, -frac), base * e)) return std::ldexp(1, base * e - frac);
        return 0.0;
    };
    switch (fmt) {
    case 8015: return expo(1, 0, 15, 14);
    case 8022: return expo(2, 0, 7, 4);
    case 8024: return expo(2, 0, 7, 12);
    case 8042: return expo(4, 0, 3, 5);
    case 8044: return expo(4, 0, 3, 13);
    case 8048: return expo(4, -64, 63, 24);
    case 8036: case 9036: return v < 8388607 ? 1 : 0;
    case 8038: case 9038: return v < 2147483647.0 ? 1 : 0;
    case 8058: case 9058: {
        int e;
        std::frexp(v, &e);
        return v < 3e38 ? std::ldexp(1, std::max(e - 24, -149)) : 0;
    }
    default: return v * 1e-15;
    }
}
static std::string gen_raw(int fmt, uint32_t seed, uint32_t n)
{
    std::string r = rand_bytes(seed, (static_cast<size_t>(n) * segd_bits(fmt) + 7) / 8);
    if (fmt == 8015)
        for (size_t g = 0; g + 10 <= r.size(); g += 10)
            for (int k = 0; k < 4; ++k) r[g + 3 + 2 * k] = static_cast<char>(r[g + 3 + 2 * k] & ~1);
    return r;
}

// ------------------------------------------------------------------ file
std::string DTrace::bytes() const
{
    std::string r = hdr;
    for (auto& e : ext) r += e;
    return r + raw;
}
std::string DRecord::head() const
{
    uint32_t k = fill;
    auto nf = [&] { return fill ? ++k : 0; };
    std::string r = blk(gh, scan_exp, scan_mant).done(0);
    if (rev > 0) r += blk(gh2, rev).done(nf());
    if (rev == 3) {
        r += blk(gh3).done(nf());
        for (auto& a : add) r += a.second;
    } else {
        for (auto& g : ghn) r += blk(g).done(nf());
    }
    for (auto& st : sets) {
        for (auto& c : st) r += blk(c, rev).done(nf());
        r += rand_bytes(nf(), 32 * skew);
    }
    for (auto& e : extended) r += e;
    for (auto& e : external) r += e;
    return r;
}
size_t SegdFile::size() const
{
    size_t n = 0;
    for (auto& r : rec) n += r.tr.size();
    return n;
}
std::pair<size_t, size_t> SegdFile::locate(size_t i) const
{
    size_t r = 0;
    while (r < rec.size() && i >= rec[r].tr.size()) i -= rec[r++].tr.size();
    return { r, i };
}
std::string SegdFile::encode()
{
    std::string r;
    tr_start.clear();
    rec_start.clear();
    hole = hole_at = 0;
    for (auto& d : rec) {
        rec_start.push_back(r.size());
        r += d.head();
        for (auto& t : d.tr) {
            tr_start.push_back(r.size());
            r += t.bytes();
        }
        for (auto& t : d.trailers) r += t;
        if (d.trailer_hole) {
            hole_at = r.size();
            hole = d.trailer_hole;
        }
    }
    return r;
}
LibExt to_lib(SegdFile const& f)
{
    switch (f.map_kind) {
    case 1: return SGD::sercel_428xl;
    case 2: return SGD::sercel_428;
    case 3: return SGD::sercel_408;
    }
    Layout l;
    for (auto& b : f.map) {
        l.push_back({});
        for (auto& x : b) l.back().f.push_back({ x.off, x.name, x.type });
    }
    LibExt r;
    for (auto& p : to_lib(l)) r.push_back(p.second);
    return r;
}

// ------------------------------------------------------------------ generation
static int64_t digits(Choices& ch, int n)
{
    uint32_t p = 1;
    for (int i = 0; i < n; ++i) p *= 10;
    return ch.one_in(8) ? p - 1 : ch.draw(p);
}
static SGD::ChannelSetHeader gen_set(Choices& ch, int rev, int scan, int pos, uint32_t nch, uint32_t ns)
{
    Rng g(ch.seed32());
    auto bcd4 = [&] { return static_cast<uint32_t>(g.below(4) ? g.below(10000) : g.below(2) ? 9999 : 0); };
    auto u4 = [&] { return static_cast<uint32_t>(rand_int(g, 4, false)); };
    auto u1 = [&] { return static_cast<uint8_t>(g.next()); };
    auto nb = [&] { return static_cast<uint8_t>(g.below(16)); };
    if (rev < 3) {
        double d = 0;
        switch (ch.draw(4)) {
        case 1: d = static_cast<int>(ch.draw(41)) - 20; break;
        case 2: d = (static_cast<int>(ch.draw(40001)) - 20000) / 1024.0; break;
        }
        uint16_t t0 = static_cast<uint16_t>(rand_int(g, 2, false)), t1 = static_cast<uint16_t>(rand_int(g, 2, false));
        return SGD::ChannelSetHeader(scan, static_cast<uint16_t>(pos > 99 ? 165 : pos), nb(), t0 * 2, t1 * 2, d, nch, 1 << g.below(16), nb(),
            bcd4(), bcd4(), bcd4(), bcd4(), bcd4(), bcd4(), bcd4(), static_cast<uint16_t>(pos > 99 || g.below(2) ? pos : 0), nb(), nb(), u1(), u1(), u1());
    }
    std::array<char, 27> d;
    std::string t = rand_bytes(static_cast<uint32_t>(g.next()), 27);
    std::copy(t.begin(), t.end(), d.begin());
    return SGD::ChannelSetHeader(scan, static_cast<uint16_t>(pos), u1(), u4(), u4(), 0.0, nch, 0, nb(), u4(), u4(), u4(), u4(), u4(), u4(), u4(), 0, nb(), u1(),
        u1(), u1(), u1(), ns, u4() & 0xffffff, u1(), u1(), u4(), d);
}

static uint32_t gen_samples(Choices& ch, bool small, int fmt)
{
    uint32_t n = ch.one_in(8) ? 0 : !small && ch.one_in(60) ? 2000 + ch.draw(ch.one_in(8) ? 40000 : 5000) : !small && ch.one_in(8) ? ch.draw(1500) : ch.draw(24);
    if (fmt == 8015) n = (n + 3) / 4 * 4;
    return n;
}

static void decode_vals(SegdFile const& f, DRecord const& d, DTrace& t)
{
    auto& v = t.v.vals;
    v.clear();
    auto I = [&](char const* n, int64_t x) { v[n] = Scalar { false, x, 0 }; };
    auto D = [&](char const* n, double x) { v[n] = Scalar { true, 0, x }; };
    auto u = [&](std::string const& s, int off, int n) { return get_uint(s.data() + off, n, false); };
    auto bcd = [&](int off, int n) {
        int64_t r = 0;
        for (int i = 0; i < n; ++i) r = r * 10 + (static_cast<uint8_t>(t.hdr[off + i / 2]) >> (i % 2 ? 0 : 4) & 15);
        return r;
    };
    I("FFID", u(t.hdr, 17, 3) ? static_cast<int64_t>(u(t.hdr, 17, 3)) : bcd(0, 4));
    I("SCAN_TYPE_NUM", bcd(2, 2));
    I("CH_SET_NUM", u(t.hdr, 15, 2) ? static_cast<int64_t>(u(t.hdr, 15, 2)) : bcd(3, 2));
    I("CHAN", bcd(4, 4));
    D("FIRST_TIMING_WORD", u(t.hdr, 6, 3) / 256.0);
    I("TR_HDR_EXT", static_cast<int64_t>(u(t.hdr, 9, 1)));
    D("SAMPLE_SKEW", u(t.hdr, 10, 1) / 256.0);
    I("TRACE_EDIT", static_cast<int64_t>(u(t.hdr, 11, 1)));
    D("TIME_BREAK_WIN", u(t.hdr, 12, 3) / 256.0);
    if (!f.map.empty()) {
        for (size_t b = 0; b < t.ext.size() && b < f.map.size(); ++b)
            for (auto& x : f.map[b]) v[x.name] = vt_decode(t.ext[b].data() + x.off, x.type, false);
    } else if (!t.ext.empty()) {
        std::string const& e = t.ext[0];
        I("R_LINE", static_cast<int64_t>(u(e, 0, 3)));
        I("R_POINT", static_cast<int64_t>(u(e, 3, 3)));
        I("R_POINT_IDX", static_cast<int64_t>(u(e, 6, 1)));
        if (d.rev < 3) I("SAMP_NUM", static_cast<int64_t>(u(e, 7, 3)));
        else {
            I("RESHOOT_IDX", static_cast<int64_t>(u(e, 7, 1)));
            I("GROUP_IDX", static_cast<int64_t>(u(e, 8, 1)));
            I("DEPTH_IDX", static_cast<int64_t>(u(e, 9, 1)));
        }
        if (d.rev > 1) {
            if (u(e, 10, 5)) D("R_LINE", u(e, 10, 3) + u(e, 13, 2) / 65536.0);
            if (u(e, 15, 5)) D("R_POINT", u(e, 15, 3) + u(e, 18, 2) / 65536.0);
            I("SENSOR_TYPE", static_cast<int64_t>(u(e, 20, 1)));
        }
        if (d.rev > 2) {
            if (bcd(4, 4) == 16665) I("CHAN", static_cast<int64_t>(u(e, 21, 3)));
            I("SAMP_NUM", static_cast<int64_t>(u(e, 24, 4)));
            I("SENSOR_MOVING", static_cast<int64_t>(u(e, 28, 1)));
            I("PHYSICAL_UNIT", static_cast<int64_t>(u(e, 30, 1)));
        }
    }
}

// index of the block that holds SAMP_NUM, -1 if none
static int samp_block(SegdFile const& f)
{
    for (size_t b = 0; b < f.map.size(); ++b)
        for (auto& x : f.map[b])
            if (x.name == "SAMP_NUM") return static_cast<int>(b);
    return -1;
}

static void gen_map(Choices& ch, SegdFile& f)
{
    f.map.clear();
    f.map_kind = ch.draw(3) ? static_cast<int>(ch.draw(5)) : 0;
    auto copy = [&](std::vector<std::vector<SegdField>> const& m) {
        for (auto& b : m) {
            f.map.push_back({});
            for (auto& x : b) f.map.back().push_back({ x.off, x.name, x.type });
        }
    };
    switch (f.map_kind) {
    case 1: copy(ref_sercel_428xl); return;
    case 2: copy(ref_sercel_428); return;
    case 3: copy(ref_sercel_408); return;
    case 0: return;
    }
    static VT const types[] = { VT::int8, VT::uint8, VT::int16, VT::uint16, VT::int24, VT::uint24, VT::int32, VT::uint32, VT::int64, VT::uint64, VT::ibm, VT::ieee_single, VT::ieee_double };
    static VT const st[] = { VT::uint24, VT::int32, VT::int24, VT::uint16, VT::uint32, VT::int64, VT::uint64 };
    int nb = 1 + static_cast<int>(ch.draw(4)), at = static_cast<int>(ch.draw(nb)), id = 0;
    for (int b = 0; b < nb; ++b) {
        f.map.push_back({});
        uint32_t off = 0;
        int n = static_cast<int>(ch.draw(6)), samp = b == at ? static_cast<int>(ch.draw(n + 1)) : -1;
        bool dense = ch.one_in(2), last = ch.one_in(3);
        for (int k = 0; k < n + (b == at); ++k) {
            VT t = k == samp ? st[ch.draw(7)] : types[ch.draw(13)];
            if (!dense) off += ch.draw(5);
            if (last && k == n + (b == at) - 1 && off + vt_size(t) <= 32) off = 32 - vt_size(t);
            if (off + vt_size(t) > 32) {
                if (k <= samp) { // always room for the number of samples
                    f.map.back().clear();
                    f.map.back().push_back({ 28, "SAMP_NUM", VT::uint32 });
                }
                break;
            }
            static char const* const names[] = { "R_LINE", "R_POINT", "X", "Y", "ELEV", "A" };
            f.map.back().push_back({ off, k == samp ? "SAMP_NUM" : id < 6 && ch.draw(2) ? std::string(names[id]) : "F" + std::to_string(id), t });
            ++id;
            off += vt_size(t);
        }
    }
}

static void descale(DTrace& t)
{
    for (auto& x : t.v.smp) x = t.descale == std::floor(t.descale) ? std::ldexp(x, static_cast<int>(t.descale)) : x * std::exp2(t.descale);
}
static DTrace gen_dtrace(Choices& ch, SegdFile const& f, DRecord const& d, SegdGen const& o, int scan, int set, uint32_t idx)
{
    DTrace t;
    t.scan = scan;
    t.set = set;
    SGD::ChannelSetHeader c = d.sets[scan - 1][set - 1];
    t.descale = c.descale_multiplier;
    uint32_t seed = ch.seed32();
    Rng g(seed + 1);
    int sb = f.map.empty() ? 0 : samp_block(f);
    // how many header extension blocks; before revision 3 one of them tells the number of samples
    int lo = d.rev < 3 ? sb + 1 : 0, hi = (f.map.empty() ? 1 : static_cast<int>(f.map.size())) + 1;
    int next = lo + static_cast<int>(ch.draw(hi - lo + 1));
    bool told = next > sb;
    t.ns = told ? gen_samples(ch, o.small, d.fmt()) : *c.number_of_samples();
    B h;
    uint32_t ffid = g.below(4) ? static_cast<uint32_t>(g.below(10000)) : static_cast<uint32_t>(g.below(1u << 24));
    if (o.for_write) h.bcd(ffid > 9999 ? 16665 : ffid, 4);
    else if (ffid > 9999 || g.below(3) == 0) h.bcd(g.below(2) ? 16665 : static_cast<int64_t>(g.below(10000)), 4);
    else h.bcd(ffid, 4);
    bool plain_ffid = !o.for_write && get_uint(h.s.data(), 2, false) != 0xffff && ffid <= 9999 && h.s == B().bcd(ffid, 4).s;
    h.bcd(scan, 2).bcd(set > 99 ? 165 : set, 2);
    bool ext_chan = d.rev == 3 && told && f.map.empty() && g.below(3) == 0;
    h.bcd(ext_chan ? 16665 : static_cast<int64_t>(g.below(3) ? idx + 1 : g.below(10000)), 4);
    h.u(static_cast<uint64_t>(rand_int(g, 3, false)), 3).u(static_cast<uint64_t>(next), 1).u(static_cast<uint64_t>(rand_int(g, 1, false)), 1);
    h.u(static_cast<uint64_t>(rand_int(g, 1, false)), 1).u(static_cast<uint64_t>(rand_int(g, 3, false)), 3);
    h.u(set > 99 || (!o.for_write && g.below(4) == 0) ? set : 0, 2);
    h.u(plain_ffid && g.below(2) ? 0 : ffid, 3);
    t.hdr = h.s;
    for (int b = 0; b < next; ++b) {
        std::string e = o.for_write ? std::string(32, '\0') : rand_bytes(seed ? seed + 31 * (b + 1) : 0, 32);
        if (f.map.empty() && b == 0) {
            auto coord = [&] { return static_cast<uint64_t>(rand_int(g, 3, false)) >> 1; };
            uint64_t line = coord(), point = coord();
            put_uint(&e[0], line, 3, false);
            put_uint(&e[3], point, 3, false);
            if (o.for_write) put_uint(&e[6], g.below(256), 1, false);
            if (d.rev < 3) put_uint(&e[7], t.ns, 3, false);
            if (d.rev > 1) {
                bool z1 = !o.for_write && g.below(2), z2 = !o.for_write && g.below(2);
                uint64_t fr1 = g.below(2) ? g.below(65536) : 0, fr2 = g.below(2) ? g.below(65536) : 0;
                put_uint(&e[10], z1 ? 0 : o.for_write ? line : coord(), 3, false);
                put_uint(&e[13], z1 ? 0 : fr1, 2, false);
                put_uint(&e[15], z2 ? 0 : o.for_write ? point : coord(), 3, false);
                put_uint(&e[18], z2 ? 0 : fr2, 2, false);
                if (o.for_write) put_uint(&e[20], g.below(256), 1, false);
            }
            if (d.rev > 2) {
                put_uint(&e[24], t.ns, 4, false);
                if (o.for_write) {
                    for (int k : { 7, 8, 9, 28, 30 }) put_uint(&e[k], g.below(256), 1, false);
                    if (ext_chan) put_uint(&e[21], g.below(2) ? 10000 + g.below(60000) : 10000 + g.below((1u << 24) - 10000), 3, false);
                }
            }
        } else if (b < static_cast<int>(f.map.size())) {
            for (auto& x : f.map[b]) {
                Scalar v;
                if (x.name == "SAMP_NUM") v.i = t.ns;
                else if (!o.for_write) continue;
                else if (vt_float(x.type)) {
                    v.is_double = true;
                    v.d = rand_exact(g, float_bits({ x.type }));
                } else {
                    bool sg = x.type == VT::int8 || x.type == VT::int16 || x.type == VT::int24 || x.type == VT::int32 || x.type == VT::int64;
                    v.i = rand_int(g, vt_size(x.type), sg);
                }
                put_scalar(&e[x.off], x.type, false, v);
            }
        }
        t.ext.push_back(e);
    }
    t.raw = gen_raw(d.fmt(), seed, t.ns);
    t.v.ns = t.ns;
    t.v.smp = segd_decode(d.fmt(), t.raw, t.ns);
    if (o.for_write && ch.one_in(5)) {
        // values between the representable ones
        t.loose = true;
        for (auto& x : t.v.smp) {
            double q = segd_quantum(d.fmt(), x);
            if (q <= 0 || x != x || std::fabs(x) > 1e300) { x = 0; continue; }
            double y = x + q * (static_cast<double>(g.below(1001)) / 1000 - 0.5);
            x = segd_quantum(d.fmt(), y) > 0 ? y : 0;
        }
    }
    descale(t);
    decode_vals(f, d, t);
    return t;
}

static int const add_types[] = { 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1f, 0x20, 0x21, 0x41, 0x43, 0x44, 0x45, 0x50, 0x51, 0x52, 0x55, 0x56, 0x60, 0x61 };

static DRecord gen_record(Choices& ch, SegdFile const& f, SegdGen const& o, bool last)
{
    DRecord d;
    d.rev = o.for_write && o.rev3 ? 3 : o.for_write ? 1 + static_cast<int>(ch.draw(2)) : static_cast<int>(ch.pick(std::vector<int> { 2, 1, 3, 0, 2, 3 }));
    d.fill = o.for_write ? 0 : ch.seed32();
    auto& gh = d.gh;
    auto& g2 = d.gh2;
    uint32_t seed = ch.seed32();
    Rng g(seed);
    auto dig = [&](int n) { uint64_t p = 1; for (int i = 0; i < n; ++i) p *= 10; return static_cast<int64_t>(g.below(5) ? g.below(p) : g.below(2) ? p - 1 : 0); };
    gh.format_code = ch.pick(segd_formats);
    gh.file_number = d.rev > 0 && g.below(3) == 0 ? 16665 : static_cast<int>(dig(4));
    gh.gen_const = dig(12);
    gh.year = static_cast<int>(dig(2));
    gh.day = static_cast<int>(dig(3));
    gh.hour = static_cast<int>(dig(2));
    gh.minute = static_cast<int>(dig(2));
    gh.second = static_cast<int>(dig(2));
    gh.manufac_code = static_cast<int>(dig(2));
    gh.manufac_num = static_cast<int>(dig(4));
    gh.bytes_per_scan = static_cast<long>(dig(6));
    gh.base_scan_int = static_cast<double>(g.below(256)) / 16;
    gh.polarity = static_cast<int>(g.below(16));
    d.scan_exp = static_cast<uint8_t>(g.below(16));
    d.scan_mant = static_cast<uint8_t>(g.below(256));
    gh.scans_per_block = static_cast<long>(d.scan_mant) << d.scan_exp;
    gh.record_type = static_cast<int>(g.below(16));
    gh.record_length = static_cast<int>(dig(3));
    // second general header
    g2.expanded_file_num = static_cast<uint32_t>(rand_int(g, 3, false));
    g2.segd_rev_major = static_cast<uint8_t>(d.rev);
    g2.segd_rev_minor = static_cast<uint8_t>(g.below(4));
    g2.gen_hdr_block_num = static_cast<uint8_t>(g.below(4) ? 2 : g.next());
    if (d.rev > 0 && g.below(2)) {
        g2.ext_record_len = static_cast<uint32_t>(1 + g.below(d.rev < 3 ? 0xffffff : 0xffffffffu));
        gh.record_length = 1665;
    }
    if (d.rev < 3) g2.sequence_number = static_cast<uint16_t>(g.next());
    else {
        g2.record_set_number = static_cast<uint16_t>(g.next());
        g2.dominant_sampling_int = static_cast<uint32_t>(rand_int(g, 3, false));
        auto& g3 = d.gh3;
        g3.time_zero = g.next();
        g3.record_size = g.next();
        g3.data_size = g.next();
        g3.header_size = static_cast<uint32_t>(g.next());
        g3.extd_rec_mode = static_cast<uint8_t>(g.next());
        g3.rel_time_mode = static_cast<uint8_t>(g.next());
        g3.gen_hdr_block_num = static_cast<uint8_t>(g.below(4) ? 3 : g.next());
    }
    // further general headers
    if (d.rev == 1 || d.rev == 2) {
        int n = ch.one_in(10) ? static_cast<int>(ch.draw(15)) : static_cast<int>(ch.draw(4));
        std::vector<int> nums;
        for (int i = 0; i < n; ++i) {
            int k = 3 + i;
            if (g.below(4) == 0) k = static_cast<int>(g.below(256));
            if (std::count(nums.begin(), nums.end(), k)) continue;
            nums.push_back(k);
        }
        if (o.for_write) std::sort(nums.begin(), nums.end());
        for (int k : nums) {
            SGD::GeneralHeaderN h;
            h.expanded_file_number = static_cast<uint32_t>(rand_int(g, 3, false));
            h.sou_line_num = static_cast<double>(rand_int(g, 3, true)) + static_cast<double>(rand_int(g, 2, false)) / 65536;
            h.sou_point_num = static_cast<double>(rand_int(g, 3, true)) + static_cast<double>(rand_int(g, 2, false)) / 65536;
            h.sou_point_index = static_cast<uint8_t>(g.next());
            h.phase_control = static_cast<uint8_t>(g.next());
            h.type_vibrator = static_cast<uint8_t>(g.next());
            h.phase_angle = static_cast<int16_t>(rand_int(g, 2, true));
            h.gen_hdr_block_num = static_cast<uint8_t>(k);
            h.sou_set_num = static_cast<uint8_t>(g.next());
            d.ghn.push_back(h);
        }
        gh.add_gen_hdr_blocks = 1 + static_cast<int>(d.ghn.size());
    } else if (d.rev == 3) {
        uint32_t n = ch.one_in(8) ? 24 : ch.draw(6);
        std::vector<int> ty(std::begin(add_types), std::end(add_types));
        for (uint32_t i = 0; i < n; ++i) {
            size_t k = g.below(ty.size());
            std::string b = rand_bytes(static_cast<uint32_t>(g.next()) | 1, 32);
            b[31] = static_cast<char>(ty[k]);
            if (o.for_write) { // bytes that no field covers
                static std::map<int, std::pair<int, int>> const gap = { { 0x1f, { 14, 18 } }, { 0x51, { 28, 31 } }, { 0x52, { 28, 31 } }, { 0x43, { 25, 31 } },
                    { 0x44, { 26, 31 } }, { 0x45, { 19, 31 } }, { 0x60, { 28, 31 } }, { 0x61, { 26, 31 } } };
                auto it = gap.find(ty[k]);
                if (it != gap.end()) std::fill(b.begin() + it->second.first, b.begin() + it->second.second, '\0');
            }
            if (ty[k] == 0x21)
                for (int j = 0; j < 5; ++j) b[1 + 6 * j] = static_cast<char>(g.below(10) << 4 | g.below(10));
            d.add.push_back({ ty[k], b });
            ty.erase(ty.begin() + static_cast<long>(k));
            if (ty.empty()) break;
        }
        if (o.for_write) std::sort(d.add.begin(), d.add.end());
        else if (g.below(4) == 0) { // a block of a type the library does not report
            static int const other[] = { 0x70, 0x00, 0x30, 0x40, 0x42, 0x7f };
            std::string b = rand_bytes(static_cast<uint32_t>(g.next()), 32);
            b[31] = static_cast<char>(other[g.below(6)]);
            d.add.insert(d.add.begin() + static_cast<long>(g.below(d.add.size() + 1)), { static_cast<uint8_t>(b[31]), b });
        }
        size_t blocks = 2 + d.add.size();
        bool marker = blocks > 14 || g.below(4) == 0;
        gh.add_gen_hdr_blocks = marker ? 15 : static_cast<int>(blocks);
        g2.ext_num_add_blks_in_gen_hdr = static_cast<uint16_t>(marker ? blocks : g.next());
    }
    // channel sets
    int scans = 1 + static_cast<int>(ch.one_in(3) ? ch.draw(3) : 0);
    bool many = d.rev > 0 && ch.one_in(25);
    int nsets = many ? (ch.one_in(4) ? 250 + static_cast<int>(ch.draw(60)) : 98 + static_cast<int>(ch.draw(8))) : 1 + static_cast<int>(ch.draw(4));
    if (!many && !o.small && ch.one_in(40)) { // many scan types
        scans = ch.range(4, ch.one_in(3) ? 99 : 15);
        nsets = 1 + static_cast<int>(ch.draw(2));
    }
    std::vector<std::pair<int, int>> where;
    int crowd = !o.small && !many && ch.one_in(60) ? ch.one_in(25) ? d.rev == 3 && o.allow_hole && ch.one_in(3) ? ch.range(65530, 65560) : ch.range(d.rev < 3 ? 999 : 9990, d.rev < 3 ? 1200 : 10050) : ch.range(10, ch.one_in(3) ? 300 : 60) : 0, crowd_at = static_cast<int>(crowd ? ch.draw(static_cast<uint32_t>(nsets)) : 0);
    for (int i = 0; i < scans; ++i) {
        d.sets.push_back({});
        for (int j = 1; j <= nsets; ++j) {
            uint32_t nch = many ? (j > 97 || j < 3) && ch.draw(2) : ch.draw(4);
            if (i == scans - 1 && j == nsets && where.empty() && nch == 0) nch = 1;
            if (i == scans - 1 && j == nsets && static_cast<int>(where.size() + nch) < o.min_tr) nch = o.min_tr - static_cast<int>(where.size());
            if (static_cast<int>(where.size() + nch) > o.max_tr) nch = static_cast<uint32_t>(std::max<int>(0, o.max_tr - static_cast<int>(where.size())));
            if (crowd && i == scans - 1 && j == 1 + crowd_at) nch = static_cast<uint32_t>(crowd);
            d.sets[i].push_back(gen_set(ch, d.rev, 1 + i, j, nch, d.rev == 3 ? gen_samples(ch, o.small || nch > 60000, gh.format_code) : 0));
            for (uint32_t k = 0; k < nch; ++k) where.push_back({ 1 + i, j });
        }
    }
    gh.scan_types_per_record = scans;
    bool m1 = d.rev > 0 && (nsets > 99 || ch.one_in(6));
    gh.channel_sets_per_scan_type = m1 ? 165 : nsets;
    g2.ext_ch_sets_per_scan_type = static_cast<uint16_t>(m1 ? nsets : g.next());
    d.skew = ch.one_in(4) ? !o.small && ch.one_in(8) ? 1 + ch.draw(d.rev == 3 ? 300 : 99) : 1 + ch.draw(3) : 0;
    bool m2 = d.rev == 3 && (d.skew > 99 || ch.one_in(3));
    gh.skew_blocks = m2 ? 165 : static_cast<int>(d.skew);
    if (d.rev == 3) g2.extended_skew_blocks = static_cast<uint16_t>(m2 ? d.skew : g.next());
    auto blocks = [&](std::vector<std::string>& v) {
        uint32_t n = ch.one_in(3) ? (d.rev > 0 && ch.one_in(10) ? (ch.one_in(4) ? 250 + ch.draw(20) : 95 + ch.draw(12)) : 1 + ch.draw(4)) : 0;
        if (n > 99 && d.rev == 3 && !o.small && ch.one_in(40)) n = 65533 + ch.draw(6);
        for (uint32_t i = 0; i < n; ++i) v.push_back(rand_bytes(static_cast<uint32_t>(g.next()), 32));
        return n > 99 || (d.rev > 0 && ch.one_in(6));
    };
    bool m3 = blocks(d.extended), m4 = blocks(d.external);
    gh.extended_hdr_blocks = m3 ? 165 : static_cast<int>(d.extended.size());
    gh.external_hdr_blocks = m4 ? 165 : static_cast<int>(d.external.size());
    uint32_t lim = d.rev == 3 ? 0xffffff : 0xffff;
    g2.extended_hdr_blocks = m3 ? static_cast<uint32_t>(d.extended.size()) : static_cast<uint32_t>(g.below(lim));
    g2.external_hdr_blocks = m4 ? static_cast<uint32_t>(d.external.size()) : static_cast<uint32_t>(g.below(lim));
    // traces of the sets, not necessarily in the order of the sets
    if (ch.one_in(4))
        for (size_t i = where.size(); i > 1; --i) std::swap(where[i - 1], where[g.below(i)]);
    for (size_t i = 0; i < where.size(); ++i)
        d.tr.push_back(gen_dtrace(ch, f, d, o, where[i].first, where[i].second, static_cast<uint32_t>(i)));
    if (d.rev > 0 && !o.for_write && ch.one_in(3)) {
        uint32_t n = 1 + ch.draw(3);
        for (uint32_t i = 0; i < n; ++i) d.trailers.push_back(rand_bytes(static_cast<uint32_t>(g.next()), 32));
        if (o.allow_hole && d.rev == 3 && !last && ch.one_in(3)) {
            static uint32_t const big[] = { 1u << 26, (1u << 27) - 3, (1u << 27) + 1, 0x7fffffff, 0x80000000u, 0xf0000001u };
            uint32_t k = big[ch.draw(6)];
            d.trailer_hole = static_cast<uint64_t>(k) * 32;
            n += k;
        }
        g2.gen_trailer_num_of_blocks = n;
    }
    if (d.rev == 0) g2 = {};
    return d;
}

SegdFile gen_segd(Choices& ch, SegdGen const& o)
{
    SegdFile f;
    gen_map(ch, f);
    int n = o.for_write ? 1 : 1 + static_cast<int>(ch.draw(o.max_rec));
    if (n == 3 && !o.small && ch.one_in(20)) n = ch.range(4, 12);
    bool hole = false;
    for (int i = 0; i < n; ++i) {
        SegdGen q = o;
        q.allow_hole = o.allow_hole && !hole;
        f.rec.push_back(gen_record(ch, f, q, i == n - 1));
        hole |= f.rec.back().trailer_hole != 0 || f.rec.back().tr.size() > 60000;
    }
    return f;
}

SegdFile gen_segd_like(Choices& ch, SegdFile const& f, SegdGen const& o)
{
    SegdFile r;
    r.map_kind = f.map_kind;
    r.map = f.map;
    r.rec.push_back(gen_record(ch, r, o, true));
    return r;
}
void make_exact(DRecord const& d, DTrace& t)
{
    t.loose = false;
    t.v.smp = segd_decode(d.fmt(), t.raw, t.ns);
    descale(t);
}

// ------------------------------------------------------------------ reading
static bool near(double a, double b, bool exact)
{
    if (same_double(a, b)) return true;
    return !exact && std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)) + 1e-310;
}
std::string diff_dtrace(Trace const& g, DTrace const& t)
{
    std::string d = diff_header(g.header_const(), t.v);
    if (!d.empty()) return d;
    auto const& s = g.samples();
    if (s.size() != t.v.smp.size()) return "trace has " + std::to_string(s.size()) + " samples, expected " + std::to_string(t.v.smp.size());
    bool exact = t.descale == std::floor(t.descale);
    for (size_t i = 0; i < s.size(); ++i)
        if (!near(s[i], t.v.smp[i], exact)) {
            char b[160];
            snprintf(b, sizeof b, "sample %zu is %.17g, expected %.17g", i, s[i], t.v.smp[i]);
            return b;
        }
    return "";
}

std::string diff_record(ISEGD& r, DRecord const& d)
{
    auto gh = lib([&] { return r.general_header(); });
    if (gh.scans_per_block != d.gh.scans_per_block) return "general header: scans per block";
    if (!blk(gh, d.scan_exp, d.scan_mant).same(blk(d.gh, d.scan_exp, d.scan_mant).s)) return "general header";
    auto g2 = lib([&] { return r.general_header2(); });
    if (g2.has_value() != (d.rev > 0)) return "presence of general header 2";
    if (g2 && !blk(*g2, d.rev).same(blk(d.gh2, d.rev).s)) return "general header 2";
    auto g3 = lib([&] { return r.general_header3(); });
    if (g3.has_value() != (d.rev == 3)) return "presence of general header 3";
    if (g3 && !blk(*g3).same(blk(d.gh3).s)) return "general header 3";
    auto gn = lib([&] { return r.general_headerN(); });
    auto wn = d.ghn;
    std::sort(wn.begin(), wn.end(), [](auto const& a, auto const& b) { return a.gen_hdr_block_num < b.gen_hdr_block_num; });
    if (gn.size() != wn.size()) return "number of general headers N";
    std::sort(gn.begin(), gn.end(), [](auto const& a, auto const& b) { return a.gen_hdr_block_num < b.gen_hdr_block_num; });
    for (size_t i = 0; i < wn.size(); ++i)
        if (!blk(gn[i]).same(blk(wn[i]).s)) return "general header N";
    std::map<int, std::string> add;
    for (auto& a : d.add) add[a.first] = a.second;
#define A(type, fn) { auto x = lib([&] { return r.fn(); }); auto it = add.find(type); \
        if (x.has_value() != (it != add.end())) return "presence of additional block " #fn; \
        if (x && !blk(*x).same(it->second)) return "additional block " #fn; }
    A(0x10, general_header_vessel_crew_id) A(0x11, general_header_survey_name) A(0x12, general_header_client_name) A(0x13, general_header_job_id)
    A(0x14, general_header_line_id) A(0x15, general_header_vibrator_info) A(0x16, general_header_explosive_info) A(0x17, general_header_airgun_info)
    A(0x18, general_header_watergun_info) A(0x19, general_header_electromagnetic_info) A(0x1f, general_header_other_source_info)
    A(0x20, general_header_add_source_info) A(0x21, general_header_sou_aux_chan_ref) A(0x41, general_header_sen_info_hdr_ext_blk)
    A(0x43, general_header_sen_calib_blk) A(0x44, general_header_time_drift_blk) A(0x45, general_header_elemag_src_rec_desc_blk)
    A(0x50, general_header_position_blk_1) A(0x51, general_header_position_blk_2) A(0x52, general_header_position_blk_3)
    A(0x55, general_header_coord_ref_blk) A(0x56, general_header_relative_pos_blk) A(0x60, general_header_orient_hdr_blk)
    A(0x61, general_header_measurement_blk)
#undef A
    auto blocks = [](std::vector<std::vector<char>> const& g, std::vector<std::string> const& w) {
        if (g.size() != w.size()) return false;
        for (size_t i = 0; i < g.size(); ++i)
            if (std::string(g[i].begin(), g[i].end()) != w[i]) return false;
        return true;
    };
    if (!blocks(lib([&] { return r.extended_headers(); }), d.extended)) return "extended headers";
    if (!blocks(lib([&] { return r.external_headers(); }), d.external)) return "external headers";
    auto cs = lib([&] { return r.channel_set_headers(); });
    if (cs.size() != d.sets.size()) return "number of scan types";
    for (size_t i = 0; i < cs.size(); ++i) {
        if (cs[i].size() != d.sets[i].size()) return "number of channel sets";
        for (size_t j = 0; j < cs[i].size(); ++j) {
            std::string x = diff_ch_set(cs[i][j], d.sets[i][j]);
            if (!x.empty()) return "channel set header: " + x;
        }
    }
    return "";
}

std::unique_ptr<ISEGD> open_segd(SegdFile const& f, std::string const& path)
{
    if (f.map_kind == 0) return lib([&] { return std::make_unique<ISEGD>(path); });
    LibExt l = to_lib(f);
    return lib([&] { return std::make_unique<ISEGD>(path, l); });
}

void session_read_segd(Sim& s, SegdFile const& f, std::string const& path)
{
    auto r = open_segd(f, path);
    size_t n = f.size(), i = 0;
    uint32_t nosy = s.ch.draw(3); // how often the headers are looked at
    auto look = [&](char const* when) {
        size_t k = i < n ? f.locate(i).first : f.rec.size() - 1;
        if (i >= n) return;
        std::string d = diff_record(*r, f.rec[k]);
        if (!d.empty()) violate("record-header: %s of record %zu (revision %d), %s", d.c_str(), k, f.rec[k].rev, when);
    };
    if (nosy) look("after opening");
    while (true) {
        auto has = [&] {
            bool ht = lib([&] { return r->has_trace(); }), hr = lib([&] { return r->has_record(); });
            if (ht != (i < n)) violate("has-trace: has_trace() is %d after %zu of %zu traces", ht, i, n);
            if (hr != (i < n)) violate("has-record: has_record() is %d after %zu of %zu traces", hr, i, n);
        };
        if (i >= n || s.ch.draw(2)) has();
        if (i >= n) break;
        if (nosy == 2 && s.ch.one_in(3)) look("between traces");
        size_t k = f.locate(i).first;
        Trace t = lib([&] { return r->read_trace(); });
        std::string d = diff_dtrace(t, f.trace(i));
        if (!d.empty()) violate("trace: trace %zu (record %zu, revision %d, format %d, map %d): %s", i, k, f.rec[k].rev, f.rec[k].fmt(), f.map_kind, d.c_str());
        ++i;
        s.mix(t.samples().size());
        if (nosy && i < n && f.locate(i).first != k) look("at its beginning");
    }
    for (uint32_t k = s.ch.draw(3); k; --k) {
        bool threw = false;
        try {
            lib([&] { return r->read_trace(); });
        } catch (std::exception&) {
            threw = true;
        }
        if (!threw) violate("past-end: a trace was returned after the last");
        if (lib([&] { return r->has_trace(); }) || lib([&] { return r->has_record(); })) violate("past-end: a trace or record is announced after the last");
    }
    lib([&] { r.reset(); });
}

// ------------------------------------------------------------------ writing
void leave_out(Choices& ch, SegdFile const& f, DTrace& t)
{
    struct Part { char const* name; int off, n; };
    static Part const hdr[] = { { "CHAN", 4, 2 }, { "FIRST_TIMING_WORD", 6, 3 }, { "SAMPLE_SKEW", 10, 1 }, { "TRACE_EDIT", 11, 1 }, { "TIME_BREAK_WIN", 12, 3 } };
    static Part const ext[] = { { "R_LINE", 0, 3 }, { "R_POINT", 3, 3 }, { "R_POINT_IDX", 6, 1 }, { "SENSOR_TYPE", 20, 1 } };
    static Part const ext3[] = { { "RESHOOT_IDX", 7, 1 }, { "GROUP_IDX", 8, 1 }, { "DEPTH_IDX", 9, 1 }, { "SENSOR_MOVING", 28, 1 }, { "PHYSICAL_UNIT", 30, 1 } };
    auto zero = [](std::string& s, int off, int n) { std::fill(s.begin() + off, s.begin() + off + n, '\0'); };
    for (uint32_t k = 1 + ch.draw(3); k; --k) {
        bool r3 = f.rec[0].rev > 2 && f.map.empty() && !t.ext.empty();
        uint32_t w = ch.draw(r3 ? 17 : 12);
        if (w >= 12) {
            zero(t.ext[0], ext3[w - 12].off, ext3[w - 12].n);
            t.absent.push_back(ext3[w - 12].name);
        } else if (w < 5) {
            if (w == 0 && r3) zero(t.ext[0], 21, 3);
            zero(t.hdr, hdr[w].off, hdr[w].n);
            t.absent.push_back(hdr[w].name);
        } else if (w == 5) {
            zero(t.hdr, 0, 2);
            zero(t.hdr, 17, 3);
            t.absent.push_back("FFID");
        } else if (w < 10 && f.map.empty() && !t.ext.empty()) {
            Part const& p = ext[w - 6];
            zero(t.ext[0], p.off, p.n);
            if (w == 6) zero(t.ext[0], 10, 5);
            if (w == 7) zero(t.ext[0], 15, 5);
            t.absent.push_back(p.name);
        } else if (w == 10 && t.scan == 1) {
            t.absent.push_back("SCAN_TYPE_NUM");
        } else if (w == 11 && t.set == 1) {
            t.absent.push_back("CH_SET_NUM");
        }
    }
    decode_vals(f, f.rec[0], t);
}
Trace to_trace(DTrace const& t)
{
    std::unordered_map<std::string, Val> m;
    for (auto& v : t.v.vals)
        if (!std::count(t.absent.begin(), t.absent.end(), v.first)) m[v.first] = to_val(v.second);
    return Trace(std::move(m), t.v.smp);
}
Rev3Writer::Rev3Writer(std::string path, SGD::GeneralHeader gh, SGD::GeneralHeader2 gh2, SGD::GeneralHeader3 gh3, std::vector<std::vector<SGD::ChannelSetHeader>> sets,
    std::vector<std::shared_ptr<SGD::AdditionalGeneralHeader>> add, std::vector<std::vector<char>> extended, std::vector<std::vector<char>> external, LibExt map)
    : OSEGD(std::move(path), gh, gh2, gh3, std::move(sets), std::move(add), std::move(extended), std::move(external), std::move(map))
{
    assign_raw_writers();
    assign_sample_writers();
    write_general_header1();
    write_general_header2_and_3();
    write_rev3_add_gen_hdrs();
    auto& c = common();
    c.ch_set_hdr_buf.resize(SGD::CH_SET_HDR_R3_SIZE);
    std::vector<char> zero(32);
    for (auto& st : c.channel_sets) {
        for (auto& h : st) write_ch_set_hdr(h);
        for (int i = 0, n = gh.skew_blocks == 165 ? gh2.extended_skew_blocks : gh.skew_blocks; i < n; ++i) c.file.write(zero.data(), 32);
    }
    for (auto& b : c.extended_headers) c.file.write(b.data(), static_cast<std::streamsize>(b.size()));
    for (auto& b : c.external_headers) c.file.write(b.data(), static_cast<std::streamsize>(b.size()));
}
void Rev3Writer::write_trace(Trace& t)
{
    if (written == chans_in_record()) throw Exception(__FILE__, __LINE__, "no more traces in this record");
    write_trace_header(t.header());
    write_ext_trace_headers(t.header());
    write_trace_samples(t);
    ++written;
}
std::unique_ptr<OSEGD> copy_rev3(ISEGD& r, SegdFile const& f, std::string const& path, uint32_t order_seed)
{
    std::vector<std::shared_ptr<SGD::AdditionalGeneralHeader>> add;
    auto take = [&](auto const& o) {
        if (o) add.push_back(std::make_shared<std::decay_t<decltype(*o)>>(*o));
    };
    return lib([&]() -> std::unique_ptr<OSEGD> {
        take(r.general_header_vessel_crew_id());
        take(r.general_header_survey_name());
        take(r.general_header_client_name());
        take(r.general_header_job_id());
        take(r.general_header_line_id());
        take(r.general_header_vibrator_info());
        take(r.general_header_explosive_info());
        take(r.general_header_airgun_info());
        take(r.general_header_watergun_info());
        take(r.general_header_electromagnetic_info());
        take(r.general_header_other_source_info());
        take(r.general_header_add_source_info());
        take(r.general_header_sou_aux_chan_ref());
        take(r.general_header_sen_info_hdr_ext_blk());
        take(r.general_header_sen_calib_blk());
        take(r.general_header_time_drift_blk());
        take(r.general_header_elemag_src_rec_desc_blk());
        take(r.general_header_position_blk_1());
        take(r.general_header_position_blk_2());
        take(r.general_header_position_blk_3());
        take(r.general_header_coord_ref_blk());
        take(r.general_header_relative_pos_blk());
        take(r.general_header_orient_hdr_blk());
        take(r.general_header_measurement_blk());
        Rng g(order_seed);
        if (order_seed)
            for (size_t i = add.size(); i > 1; --i) std::swap(add[i - 1], add[g.below(i)]);
        return std::make_unique<Rev3Writer>(path, r.general_header(), *r.general_header2(), *r.general_header3(), r.channel_set_headers(), add, r.extended_headers(),
            r.external_headers(), to_lib(f));
    });
}
std::unique_ptr<OSEGD> open_segd_writer(SegdFile const& f, std::string const& path, uint32_t order_seed)
{
    DRecord const& d = f.rec[0];
    std::vector<std::shared_ptr<SGD::AdditionalGeneralHeader>> add;
    for (auto& h : d.ghn) add.push_back(std::make_shared<SGD::GeneralHeaderN>(h));
    Rng g(order_seed);
    if (order_seed)
        for (size_t i = add.size(); i > 1; --i) std::swap(add[i - 1], add[g.below(i)]);
    auto vec = [](std::vector<std::string> const& v) {
        std::vector<std::vector<char>> r;
        for (auto& s : v) r.emplace_back(s.begin(), s.end());
        return r;
    };
    auto e1 = vec(d.extended), e2 = vec(d.external);
    LibExt l = to_lib(f);
    return lib([&]() -> std::unique_ptr<OSEGD> { return std::make_unique<OSEGDRev2_1>(path, d.gh, d.gh2, d.sets, add, e1, e2, l); });
}

void compare_segd(SegdFile& f, std::string const& got, char const* what)
{
    std::string want = f.encode();
    if (got.size() != want.size()) violate("file-size: %s: file has %zu bytes, expected %zu", what, got.size(), want.size());
    DRecord const& d = f.rec[0];
    size_t pos = 0;
    auto section = [&](std::string const& name, std::string const& w) {
        if (got.compare(pos, w.size(), w)) {
            size_t k = 0;
            while (got[pos + k] == w[k]) ++k;
            violate("file-bytes: %s: %s, byte %zu is 0x%02x, expected 0x%02x", what, name.c_str(), k,
                static_cast<uint8_t>(got[pos + k]), static_cast<uint8_t>(w[k]));
        }
        pos += w.size();
    };
    std::string head = d.head();
    if (got.size() >= 32) {
        // the same number may be stored with another exponent
        long scans = static_cast<long>(static_cast<uint8_t>(got[24])) << (got[23] & 15);
        if (scans != d.gh.scans_per_block) violate("file-bytes: %s: scans per block stored as %ld, expected %ld", what, scans, d.gh.scans_per_block);
        head[23] = static_cast<char>((head[23] & 0xf0) | (got[23] & 0x0f));
        head[24] = got[24];
    }
    section("headers of the record", head);
    for (size_t i = 0; i < d.tr.size(); ++i) {
        DTrace const& t = d.tr[i];
        std::string n = "trace " + std::to_string(i);
        section(n + " header", t.hdr);
        for (size_t b = 0; b < t.ext.size(); ++b) section(n + " header extension " + std::to_string(b), t.ext[b]);
        std::vector<double> g = segd_decode(d.fmt(), got.substr(pos, t.raw.size()), t.ns), w = segd_decode(d.fmt(), t.raw, t.ns);
        bool exact = !((d.fmt() == 8080 || d.fmt() == 9080) && t.descale != std::floor(t.descale));
        for (uint32_t k = 0; k < t.ns; ++k) {
            bool ok;
            if (t.loose) {
                double v = t.v.smp[k] / std::exp2(t.descale);
                ok = near(g[k], v, false) || std::fabs(g[k] - v) <= segd_quantum(d.fmt(), v) * (1 + 1e-9);
            } else {
                // values at the very edge of doubles lose bits when scaled
                bool edge = exact && (d.fmt() == 8080 || d.fmt() == 9080) && !same_double(std::ldexp(t.v.smp[k], -static_cast<int>(t.descale)), w[k]);
                ok = edge || near(g[k], w[k], exact);
            }
            if (!ok) violate("file-samples: %s: %s sample %u (format %d) is stored as %.17g, expected %.17g", what, n.c_str(), k, d.fmt(), g[k],
                t.loose ? t.v.smp[k] / std::exp2(t.descale) : w[k]);
        }
        pos += t.raw.size();
    }
}
