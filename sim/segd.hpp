// Reference model of SEG-D files and client sessions over the library's SEG-D
// reader and writer.
#pragma once
#include "codec.hpp"
#include "segy.hpp"
#include "simos.hpp"
#include "CommonSEGD.hpp"
#include "ISEGD.hpp"
#include "OSEGDRev2_1.hpp"
#include <map>
#include <memory>
#include <string>
#include <vector>

using SGD = sedaman::CommonSEGD;
using LibExt = std::vector<std::map<uint32_t, std::pair<std::string, sedaman::Trace::Header::ValueType>>>;

struct DField { uint32_t off; std::string name; VT type; };
using ExtMap = std::vector<std::vector<DField>>;

struct DTrace {
    std::string hdr;                    // 20 bytes
    std::vector<std::string> ext;       // 32-byte blocks
    std::string raw;
    uint32_t ns = 0;
    int scan = 1, set = 1;              // 1-based
    double descale = 0;
    std::vector<std::string> absent;    // header values that the client does not give to the writer
    bool loose = false;                 // samples between representable values
    STrace v;                           // header values and samples as a reader reports them
    std::string bytes() const;
};

struct DRecord {
    int rev = 1;                        // 0..3
    SGD::GeneralHeader gh {};
    SGD::GeneralHeader2 gh2 {};
    SGD::GeneralHeader3 gh3 {};
    std::vector<SGD::GeneralHeaderN> ghn;          // as stored
    std::vector<std::pair<int, std::string>> add;  // revision 3: block type and 32 bytes
    std::vector<std::vector<SGD::ChannelSetHeader>> sets; // per scan type
    uint32_t skew = 0;
    uint32_t fill = 0;                  // seed of the bytes no field covers; 0: zeros
    uint8_t scan_exp = 0, scan_mant = 0;
    std::vector<std::string> extended, external, trailers;
    uint64_t trailer_hole = 0;          // further zero bytes of trailers (multiple of 32)
    std::vector<DTrace> tr;
    int fmt() const { return gh.format_code; }
    std::string head() const;
};

struct SegdFile {
    std::vector<DRecord> rec;
    int map_kind = 0;                   // 0 none, 1..3 vendor maps of the library, 4 drawn
    ExtMap map;
    std::vector<size_t> tr_start;       // filled by encode(): offset of each trace, in file order
    std::vector<size_t> rec_start;
    uint64_t hole_at = 0, hole = 0;
    size_t size() const;                // number of traces
    std::string encode();
    std::pair<size_t, size_t> locate(size_t i) const; // record and trace in it
    DTrace const& trace(size_t i) const { auto p = locate(i); return rec[p.first].tr[p.second]; }
};

struct SegdGen {
    bool for_write = false;  // one record that the writer can produce
    bool rev3 = false;       // with for_write: of revision 3
    bool small = false;
    bool allow_hole = false;
    int max_rec = 3;
    int max_tr = 8;
    int min_tr = 1;
};
SegdFile gen_segd(Choices& ch, SegdGen const& o);
SegdFile gen_segd_like(Choices& ch, SegdFile const& f, SegdGen const& o); // one more record for the same reader
void make_exact(DRecord const& d, DTrace& t); // samples as a reader reports those stored
LibExt to_lib(SegdFile const& f);
extern std::vector<int> const segd_formats;
int segd_bits(int fmt);
std::vector<double> segd_decode(int fmt, std::string const& raw, uint32_t n);
double segd_quantum(int fmt, double v); // resolution of the format at v, 0 if v lies out of its range

std::string diff_dtrace(sedaman::Trace const& g, DTrace const& t);
// compares everything the accessors report; "" if all is as stored
std::string diff_record(sedaman::ISEGD& r, DRecord const& d);
std::unique_ptr<sedaman::ISEGD> open_segd(SegdFile const& f, std::string const& path);
void session_read_segd(Sim& s, SegdFile const& f, std::string const& path);

// the client leaves out some header values, which are stored as zero then
void leave_out(Choices& ch, SegdFile const& f, DTrace& t);
sedaman::Trace to_trace(DTrace const& t);
// what a class for revision 3 puts together from the building blocks of OSEGD
class Rev3Writer : public sedaman::OSEGD {
public:
    Rev3Writer(std::string path, SGD::GeneralHeader gh, SGD::GeneralHeader2 gh2, SGD::GeneralHeader3 gh3, std::vector<std::vector<SGD::ChannelSetHeader>> sets,
        std::vector<std::shared_ptr<SGD::AdditionalGeneralHeader>> add, std::vector<std::vector<char>> extended, std::vector<std::vector<char>> external, LibExt map);
    void write_trace(sedaman::Trace& t) override;

private:
    uint64_t written = 0;
};
// writer of revision 3 for the headers that a reader reports
std::unique_ptr<sedaman::OSEGD> copy_rev3(sedaman::ISEGD& r, SegdFile const& f, std::string const& path, uint32_t order_seed = 0);
std::unique_ptr<sedaman::OSEGD> open_segd_writer(SegdFile const& f, std::string const& path, uint32_t order_seed = 0);
void compare_segd(SegdFile& f, std::string const& got, char const* what);
std::string diff_ch_set(SGD::ChannelSetHeader g, SGD::ChannelSetHeader w);
