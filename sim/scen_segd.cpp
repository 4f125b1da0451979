// SEG-D: reading (C04), writing and copying (C05).
#include "scenario.hpp"
#include "segd.hpp"
#include <cmath>
using namespace sedaman;

// a client that lists the fields of a kind of header: each has a description
template <class H> static void list_fields(char const* kind, typename H::Name last)
{
    for (int i = 0; i <= static_cast<int>(last); ++i) {
        char const* d = lib([&] { return H::name_as_string(static_cast<typename H::Name>(i)); });
        if (!d || !*d) violate("description: field %d of %s has no description", i, kind);
    }
}
static void list_header_fields(uint32_t pick)
{
    switch (pick) {
#define L(n, k, last) case n: list_fields<SGD::k>(#k, SGD::k::Name::last); break;
        L(0, GeneralHeader, EXTERNAL_HEADER_BLOCKS) L(1, GeneralHeader2, GEN_HEADER_BLOCK_NUM) L(2, GeneralHeaderN, SOURCE_SET_NUMBER)
        L(3, GeneralHeader3, GEN_HEADER_BLOCK_NUM) L(4, GeneralHeaderVes, GEN_HEADER_TYPE) L(5, GeneralHeaderSur, GEN_HEADER_TYPE)
        L(6, GeneralHeaderCli, GEN_HEADER_TYPE) L(7, GeneralHeaderJob, GEN_HEADER_TYPE) L(8, GeneralHeaderLin, GEN_HEADER_TYPE)
        L(9, GeneralHeaderVib, GEN_HEADER_TYPE) L(10, GeneralHeaderExp, GEN_HEADER_TYPE) L(11, GeneralHeaderAir, GEN_HEADER_TYPE)
        L(12, GeneralHeaderWat, GEN_HEADER_TYPE) L(13, GeneralHeaderEle, GEN_HEADER_TYPE) L(14, GeneralHeaderOth, GEN_HEADER_TYPE)
        L(15, GeneralHeaderAdd, GEN_HEADER_TYPE) L(16, GeneralHeaderSaux, GEN_HEADER_TYPE) L(17, GeneralHeaderCoord, GEN_HEADER_TYPE)
        L(18, GeneralHeaderPos1, GEN_HEADER_TYPE) L(19, GeneralHeaderPos2, GEN_HEADER_TYPE) L(20, GeneralHeaderPos3, GEN_HEADER_TYPE)
        L(21, GeneralHeaderRel, GEN_HEADER_TYPE) L(22, GeneralHeaderSen, GEN_HEADER_TYPE) L(23, GeneralHeaderSCa, GEN_HEADER_TYPE)
        L(24, GeneralHeaderTim, GEN_HEADER_TYPE) L(25, GeneralHeaderElSR, GEN_HEADER_TYPE) L(26, GeneralHeaderOri, GEN_HEADER_TYPE)
        L(27, GeneralHeaderMeas, GEN_HEADER_TYPE) L(28, ChannelSetHeader, DESCRIPTION)
#undef L
    }
}

static void c04_read(Sim& s)
{
    SegdGen o;
    o.allow_hole = true;
    SegdFile f = gen_segd(s.ch, o);
    std::string b = f.encode();
    s.put("/sim/a.sgd", b, Holes { { f.hole_at, f.hole } });
    if (f.hole) count("workload.sparse_file");
    if (f.rec.size() > 1) count("workload.several_records");
    count("workload.segd_rev" + std::to_string(f.rec[0].rev));
    draw_benign(s);
    run1(s, [&] {
        if (s.ch.one_in(10)) list_header_fields(s.ch.draw(29));
        session_read_segd(s, f, "/sim/a.sgd");
        if (!s.ch.one_in(12)) return;
        // another file takes its place
        count("workload.file_replaced");
        SegdFile g = gen_segd(s.ch, o);
        b = g.encode(); // sets the place of the hole
        s.put("/sim/a.sgd", b, Holes { { g.hole_at, g.hole } });
        session_read_segd(s, g, "/sim/a.sgd");
    });
}
static Register r04("C04", "read-segd", 1, c04_read);

static void c05_write(Sim& s)
{
    SegdGen o;
    o.for_write = true;
    SegdFile f = gen_segd(s.ch, o);
    if (s.ch.one_in(3))
        for (auto& t : f.rec[0].tr)
            if (s.ch.draw(2)) leave_out(s.ch, f, t);
    draw_benign(s);
    run1(s, [&] {
        auto w = open_segd_writer(f, "/sim/out.sgd", s.ch.seed32());
        for (auto& t : f.rec[0].tr) {
            Trace x = to_trace(t);
            if (f.map.empty() && s.ch.one_in(3)) // whole positions may be given as integers
                for (char const* k : { "R_LINE", "R_POINT" }) {
                    auto& v = t.v.vals.at(k);
                    if (x.header().get(k) && v.is_double && v.d == std::floor(v.d)) x.header().set(k, static_cast<int64_t>(v.d));
                }
            lib([&] { w->write_trace(x); });
            s.mix(t.ns);
        }
        lib([&] { w.reset(); });
        compare_segd(f, s.get("/sim/out.sgd"), "written file");
        // and it reads back
        bool loose = false;
        for (auto& t : f.rec[0].tr) loose |= t.loose;
        if (!loose && !(f.rec[0].fmt() % 1000 == 80)) session_read_segd(s, f, "/sim/out.sgd");
    });
}
static Register r05("C05", "write-segd", 2, c05_write);

// every record of a file is copied to a file of its own
static void c05_copy(Sim& s)
{
    SegdGen o;
    o.for_write = true;
    o.max_tr = 5;
    SegdFile f = gen_segd(s.ch, o);
    // further records for the same trace header extensions
    uint32_t more = s.ch.draw(3);
    std::vector<SegdFile> parts { f };
    for (uint32_t i = 0; i < more; ++i) parts.push_back(gen_segd_like(s.ch, f, o));
    SegdFile all = f;
    for (uint32_t i = 0; i < more; ++i) all.rec.push_back(parts[i + 1].rec[0]);
    for (auto& p : all.rec)
        for (auto& t : p.tr) make_exact(p, t);
    for (size_t i = 0; i < parts.size(); ++i) parts[i].rec[0] = all.rec[i];
    s.put("/sim/a.sgd", all.encode());
    draw_benign(s);
    run1(s, [&] {
        auto r = open_segd(all, "/sim/a.sgd");
        LibExt l = to_lib(all);
        size_t k = 0;
        while (lib([&] { return r->has_record(); })) {
            if (k >= parts.size()) violate("has-record: a record is announced after the last of %zu", parts.size());
            std::string out = "/sim/b" + std::to_string(k);
            auto w = lib([&] {
                std::vector<std::shared_ptr<SGD::AdditionalGeneralHeader>> add;
                for (auto& h : r->general_headerN()) add.push_back(std::make_shared<SGD::GeneralHeaderN>(h));
                return std::make_unique<OSEGDRev2_1>(out, r->general_header(), *r->general_header2(), r->channel_set_headers(), add,
                    r->extended_headers(), r->external_headers(), l);
            });
            size_t n = 0;
            for (auto& st : lib([&] { return r->channel_set_headers(); }))
                for (auto& c : st) n += c.number_of_channels;
            for (size_t i = 0; i < n; ++i) {
                if (!lib([&] { return r->has_trace(); })) violate("truncated: record %zu ended after %zu of %zu traces", k, i, n);
                Trace t = lib([&] { return r->read_trace(); });
                lib([&] { w->write_trace(t); });
            }
            lib([&] { w.reset(); });
            compare_segd(parts[k], s.get(out), "copied record");
            ++k;
        }
        if (k != parts.size()) violate("truncated: %zu of %zu records copied", k, parts.size());
    });
}
static Register r05b("C05", "copy-segd", 1, c05_copy);

// C14: a record of revision 3 is written from the building blocks of OSEGD, with
// the headers that the reader reports for the same record
static void c14_rev3(Sim& s)
{
    SegdGen o;
    o.for_write = o.rev3 = true;
    SegdFile f = gen_segd(s.ch, o), src = f;
    for (auto& t : src.rec[0].tr) make_exact(src.rec[0], t);
    bool copy = s.ch.one_in(3); // the traces are copied too
    if (copy) f = src;
    if (!copy && s.ch.one_in(3))
        for (auto& t : f.rec[0].tr)
            if (s.ch.draw(2)) leave_out(s.ch, f, t);
    s.put("/sim/in.sgd", src.encode());
    draw_benign(s);
    run1(s, [&] {
        auto r = open_segd(src, "/sim/in.sgd");
        std::string d = diff_record(*r, src.rec[0]);
        if (!d.empty()) violate("record-header: %s of the record to be written", d.c_str());
        auto w = copy_rev3(*r, f, "/sim/out.sgd", s.ch.seed32());
        for (auto& t : f.rec[0].tr) {
            Trace x = copy ? lib([&] { return r->read_trace(); }) : to_trace(t);
            if (!copy && f.map.empty() && !t.ext.empty() && s.ch.one_in(3)) // whole positions may be given as integers
                for (char const* k : { "R_LINE", "R_POINT" }) {
                    auto& v = t.v.vals.at(k);
                    if (x.header().get(k) && v.is_double && v.d == std::floor(v.d)) x.header().set(k, static_cast<int64_t>(v.d));
                }
            lib([&] { w->write_trace(x); });
            s.mix(t.ns);
        }
        lib([&] { w.reset(); });
        compare_segd(f, s.get("/sim/out.sgd"), copy ? "copied record" : "written record");
        bool loose = false;
        for (auto& t : f.rec[0].tr) loose |= t.loose;
        if (!loose && !(f.rec[0].fmt() % 1000 == 80)) session_read_segd(s, f, "/sim/out.sgd");
    });
}
static Register r14("C14", "write-segd-rev3", 1, c14_rev3);
