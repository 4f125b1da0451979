// Reference model of SEG-Y files and client sessions over the library's SEG-Y
// readers and writers.
#pragma once
#include "codec.hpp"
#include "simos.hpp"
#include "CommonSEGY.hpp"
#include "ISEGY.hpp"
#include "OSEGY.hpp"
#include "Trace.hpp"
#include <map>
#include <string>
#include <vector>

using BinHdr = sedaman::CommonSEGY::BinaryHeader;
using LibLayout = std::vector<std::pair<std::string, std::map<uint32_t, std::pair<std::string, sedaman::Trace::Header::ValueType>>>>;

struct SField { uint32_t off; std::string name; VT type; };
struct SHdr { std::string name; std::vector<SField> f; };
using Layout = std::vector<SHdr>;

struct STrace {
    std::vector<std::string> hdr; // 240-byte blocks as stored
    std::string raw;              // samples as stored
    uint32_t ns = 0;
    std::map<std::string, Scalar> vals; // what a reader reports under the layout
    std::vector<double> smp;
    bool loose = false;           // samples not exactly representable in the format
    std::vector<std::string> absent; // values the writing client does not give
    std::vector<std::string> extra; // values without a place in the layout
};

struct SegyFile {
    int rev = 0;
    bool le = false;
    int marker = 0; // 0: zero bytes, 1: explicit
    BinHdr bh {};
    std::vector<std::string> text, stanzas;
    Layout layout;
    bool default_layout = true;
    int nadd = 0;
    bool fixed = true;
    uint32_t ns = 0;
    std::string gap;        // bytes between headers and first trace
    uint64_t hole = 0;      // further zero bytes there
    std::vector<STrace> tr;
    std::vector<uint64_t> tr_hole; // zero bytes after the stored samples of each trace, if any
    std::string tail;       // bytes after the last trace that are no stanza (never in valid files)

    int bps() const;
    std::string head() const;           // everything before gap/hole
    std::string encode() const;         // everything except the hole
    Holes holes() const;                // where encode() leaves out zero bytes
    std::string trace_bytes(size_t i) const;
};

int fmt_bytes(int fmt);
VT fmt_type(int fmt);
double decode_sample(int fmt, char const* p, bool le);
extern std::vector<int> const all_formats;

LibLayout to_lib(Layout const&);
Layout std_layout();
std::string enc_bin_header(BinHdr const&, bool le);
void compare_bin_header(BinHdr const& got, BinHdr const& want, char const* what);

struct SegyGen {
    bool for_write = false;  // canonical contents only: what a writer can reproduce
    bool small = false;      // keep files small
    bool allow_hole = true;
    bool allow_term = true;  // counts given as -1
    int min_tr = 0, max_tr = 8;
    int force_rev = -1, force_fixed = -1;
    bool sort_friendly = false;
    uint32_t crowd = 0;      // one file in so many has many traces
    bool match_layout = false; // as many header blocks as the layout describes
};
SegyFile gen_segy(Choices& ch, SegyGen const& o);
bool make_huge(Choices& ch, SegyFile& f); // traces of up to 2^31 samples, all zero
Layout gen_layout(Choices& ch, int blocks, bool need_samp_num, bool for_write);
STrace gen_trace(Choices& ch, SegyFile const& f, uint32_t ns, bool for_write);
void decode_vals(SegyFile const& f, STrace& t);
void put_field(SegyFile const& f, STrace& t, std::string const& name, int64_t v);
void put_field(SegyFile const& f, STrace& t, std::string const& name, Scalar const& v);
void put_scalar(char* p, VT t, bool le, Scalar const& v);
int64_t rand_int(Rng& g, int bytes, bool sign);
int float_bits(std::vector<VT> const& l);
double rand_exact(Rng& g, int bits);
std::string rand_bytes(uint32_t seed, size_t n);
std::string gen_text(Choices& ch);

using Val = sedaman::Trace::Header::Value;
Val to_val(Scalar const& s);
void compare_header(sedaman::Trace::Header const& h, STrace const& t, char const* what);
void compare_trace(sedaman::Trace const& g, STrace const& t, char const* what);
std::string diff_header(sedaman::Trace::Header const& h, STrace const& t);
std::string diff_trace(sedaman::Trace const& g, STrace const& t);
bool header_equal(sedaman::Trace::Header const& h, STrace const& t);
bool trace_equal(sedaman::Trace const& g, STrace const& t);
sedaman::Trace to_trace(SegyFile const& f, STrace const& t);

// open the file with one of the public constructors
std::unique_ptr<sedaman::ISEGY> open_segy(SegyFile const& f, std::string const& path, Choices& ch, bool may_override = true);
// full fault-free read with drawn operations, checking everything
void client_text(std::vector<std::string> const& ebcdic); // converts them
void session_read_segy(Sim& s, SegyFile const& f, std::string const& path);

// writers
struct WritePlan {
    SegyFile f;              // the file the writer must produce
    BinHdr given {};         // binary header handed to the writer
    std::vector<std::string> given_text; // text headers handed to the writer
    bool empty_bh = false;
};
WritePlan gen_write_plan(Choices& ch, bool small, int min_tr = 0, int max_tr = 8);
std::unique_ptr<sedaman::OSEGY> open_writer(WritePlan const& p, std::string const& path);
void compare_file(SegyFile const& f, std::string const& got, char const* what);
void session_write_segy(Sim& s, WritePlan const& p, std::string const& path);
std::string default_text(int rev);
