#include <cmath>
#include "scenario.hpp"
#include "segy.hpp"
#include "ISEGYSorted1D.hpp"
#include "OSEGYRev0.hpp"
#include "OSEGYRev1.hpp"
#include "OSEGYRev2.hpp"
#include <algorithm>
using namespace sedaman;

// ---------------------------------------------------------------- C01
static void c01_read(Sim& s)
{
    SegyGen o;
    o.crowd = 40;
    SegyFile f = gen_segy(s.ch, o);
    s.put("/sim/a.sgy", f.encode(), f.holes());
    if (f.hole) count("workload.sparse_file");
    draw_benign(s);
    run1(s, [&] {
        session_read_segy(s, f, "/sim/a.sgy");
        if (!s.ch.one_in(12)) return;
        // another file takes its place
        count("workload.file_replaced");
        SegyFile g = gen_segy(s.ch, o);
        s.put("/sim/a.sgy", g.encode(), g.holes());
        session_read_segy(s, g, "/sim/a.sgy");
    });
}
static Register r01("C01", "read-segy", 12, c01_read);

static Trace read_any(ISEGY& r) { return lib([&] { return r.read_trace(); }); }

// traces of gigabytes: their headers, the stanzas behind them
static void c01_huge(Sim& s)
{
    SegyGen o;
    o.min_tr = 1;
    o.small = true;
    SegyFile f = gen_segy(s.ch, o);
    if (!make_huge(s.ch, f)) return;
    count("workload.huge_traces");
    s.put("/sim/a.sgy", f.encode(), f.holes());
    draw_benign(s);
    run1(s, [&] { session_read_segy(s, f, "/sim/a.sgy"); });
}
static Register r01b("C01", "huge-traces", 1, c01_huge);

// more traces than 16 bits count: a few traces over and over
struct LongFile {
    SegyFile f;
    size_t n = 0;
    std::string data;
};
static LongFile gen_long(Choices& ch, bool sorted)
{
    SegyGen o;
    o.min_tr = 1;
    o.max_tr = 4;
    o.small = true;
    o.allow_hole = false;
    LongFile l;
    // mostly few header fields, which read faster; often a trailer that is found by walking over the traces
    bool few = !ch.one_in(4), walk = !sorted && ch.draw(2);
    if (walk) {
        o.force_rev = 2;
        o.force_fixed = 0;
    }
    do {
        l.f = gen_segy(ch, o);
    } while (l.f.ns > (few ? 8 : 64) || (few && !sorted && l.f.default_layout) || (walk && l.f.bh.num_of_trailer_stanza != -1) || l.f.nadd > 2 || (sorted && !l.f.tr[0].vals.count("FFID")));
    SegyFile& f = l.f;
    l.n = 65536 + ch.draw(8);
    if (f.bh.num_of_tr_in_file) f.bh.num_of_tr_in_file = l.n;
    std::string all = f.encode(), cycle;
    size_t head = f.head().size() + f.gap.size();
    for (auto& t : f.tr) {
        for (auto& b : t.hdr) cycle += b;
        cycle += t.raw;
    }
    l.data = all.substr(0, head);
    l.data.reserve(head + cycle.size() * (l.n / f.tr.size() + 1) + all.size());
    for (size_t i = 0; i < l.n / f.tr.size(); ++i) l.data += cycle;
    for (size_t i = 0; i < l.n % f.tr.size(); ++i) {
        for (auto& b : f.tr[i].hdr) l.data += b;
        l.data += f.tr[i].raw;
    }
    l.data += all.substr(head + cycle.size());
    count("workload.more_than_65535_traces");
    return l;
}
static void c01_long(Sim& s)
{
    if (!s.ch.one_in(400)) return c01_huge(s); // takes long
    LongFile l = gen_long(s.ch, false);
    SegyFile const& f = l.f;
    s.put("/sim/a.sgy", l.data);
    run1(s, [&] {
        auto r = open_segy(f, "/sim/a.sgy", s.ch);
        if (lib([&] { return r->text_headers(); }) != f.text) violate("text-header: text headers of a file of %zu traces", l.n);
        if (lib([&] { return r->trailer_stanzas(); }) != f.stanzas) violate("trailer-stanza: trailer stanzas of a file of %zu traces", l.n);
        bool hdrs = s.ch.draw(2);
        for (size_t i = 0; i < l.n; ++i) {
            if (!lib([&] { return r->has_trace(); })) violate("has-trace: no trace is reported after %zu of %zu", i, l.n);
            STrace const& t = f.tr[i % f.tr.size()];
            char w[64];
            snprintf(w, sizeof w, "trace %zu of %zu", i, l.n);
            bool look = i < 3 || i % 1021 == 0 || i > 65530;
            if (hdrs && i % 3) {
                Trace::Header h = lib([&] { return r->read_header(); });
                if (look) compare_header(h, t, w);
            } else {
                Trace x = read_any(*r);
                if (look) compare_trace(x, t, w);
            }
        }
        if (lib([&] { return r->has_trace(); })) violate("has-trace: a trace is reported after the last of %zu", l.n);
    });
}
static Register r01c("C01", "many-traces", 1, c01_long);

// ---------------------------------------------------------------- C02
static void c02_write(Sim& s)
{
    WritePlan p = gen_write_plan(s.ch, false);
    draw_benign(s);
    run1(s, [&] {
        session_write_segy(s, p, "/sim/out.sgy");
        if (!s.ch.one_in(12)) return;
        count("workload.file_replaced");
        WritePlan q = gen_write_plan(s.ch, false);
        session_write_segy(s, q, "/sim/out.sgy");
    });
}
static Register r02("C02", "write-segy", 40, c02_write);

static void c02_long(Sim& s)
{
    if (!s.ch.one_in(300)) return c02_write(s);
    WritePlan p;
    do {
        p = gen_write_plan(s.ch, true, 1, 4);
    } while (p.f.tr.empty() || p.f.nadd > 2 || p.f.ns > 64);
    size_t n = 65536 + s.ch.draw(8), m = p.f.tr.size();
    count("workload.more_than_65535_traces");
    run1(s, [&] {
        auto w = open_writer(p, "/sim/out.sgy");
        std::vector<Trace> t;
        for (auto& x : p.f.tr) t.push_back(to_trace(p.f, x));
        for (size_t i = 0; i < m; ++i) lib([&] { w->write_trace(t[i]); });
        std::string one;
        {
            // the same few traces in a file of their own
            auto v = open_writer(p, "/sim/one.sgy");
            for (size_t i = 0; i < m; ++i) {
                Trace x = to_trace(p.f, p.f.tr[i]);
                lib([&] { v->write_trace(x); });
            }
            lib([&] { v.reset(); });
            one = s.get("/sim/one.sgy");
            compare_file(p.f, one, "file of a few traces");
        }
        for (size_t i = m; i < n; ++i) lib([&] { w->write_trace(t[i % m]); });
        lib([&] { w.reset(); });
        std::string got = s.get("/sim/out.sgy");
        size_t tail = 0, head = p.f.head().size() + p.f.gap.size();
        for (auto& x : p.f.stanzas) tail += x.size();
        size_t cycle = one.size() - head - tail;
        std::vector<size_t> at { 0 };
        for (auto& x : p.f.tr) at.push_back(at.back() + 240 * x.hdr.size() + x.raw.size());
        if (at.back() != cycle) return; // stored in another length
        size_t want = head + n / m * cycle + at[n % m] + tail;
        if (got.size() != want) violate("file-size: a file of %zu traces has %zu bytes, expected %zu", n, got.size(), want);
        if (got.compare(0, head, one, 0, head)) violate("file-bytes: the headers of a file of %zu traces differ from those of a shorter one", n);
        if (got.compare(want - tail, tail, one, one.size() - tail, tail)) violate("file-bytes: the stanzas of a file of %zu traces differ from those of a shorter one", n);
        for (size_t i = 0, pos = head; i < n; ++i) {
            size_t k = i % m, sz = at[k + 1] - at[k];
            if (got.compare(pos, sz, one, head + at[k], sz)) violate("file-bytes: trace %zu of %zu differs from the same trace in a shorter file", i, n);
            pos += sz;
        }
    });
}
static Register r02b("C02", "many-traces", 1, c02_long);

// ---------------------------------------------------------------- C03
// the copying client of the README: open, take the headers over, pass every trace on
static void copy_segy(Sim& s, SegyFile const& f, std::string const& from, std::string const& to, BinHdr bh, int rev, Layout const& lay, bool def)
{
    LibLayout l = to_lib(lay);
    auto r = def ? lib([&] { return std::make_unique<ISEGY>(from); }) : lib([&] { return std::make_unique<ISEGY>(from, l); });
    auto txt = lib([&] { return r->text_headers(); });
    auto st = lib([&] { return r->trailer_stanzas(); });
    auto w = lib([&]() -> std::unique_ptr<OSEGY> {
        if (rev == 0) return def ? std::make_unique<OSEGYRev0>(to, txt[0], bh) : std::make_unique<OSEGYRev0>(to, txt[0], bh, l);
        if (rev == 1) return def ? std::make_unique<OSEGYRev1>(to, txt, bh) : std::make_unique<OSEGYRev1>(to, txt, bh, l);
        return def ? std::make_unique<OSEGYRev2>(to, txt, bh, st) : std::make_unique<OSEGYRev2>(to, txt, bh, st, l);
    });
    size_t n = 0;
    while (lib([&] { return r->has_trace(); })) {
        if (n >= f.tr.size()) violate("has-trace: a trace is reported after the last of %zu", f.tr.size());
        Trace t = read_any(*r);
        if (s.ch.one_in(4)) {
            Trace u = t; // a copy is as good
            lib([&] { w->write_trace(u); });
        } else {
            lib([&] { w->write_trace(t); });
        }
        ++n;
    }
    if (n != f.tr.size()) violate("truncated: %zu traces copied of %zu", n, f.tr.size());
    lib([&] { w.reset(); });
    lib([&] { r.reset(); });
}

static void c03_copy(Sim& s)
{
    SegyGen o;
    o.for_write = true;
    o.match_layout = true;
    o.crowd = 40;
    SegyFile f = gen_segy(s.ch, o);
    for (auto& t : f.tr)
        if (t.loose) {
            t.loose = false;
            for (size_t i = 0; i < t.smp.size(); ++i) t.smp[i] = decode_sample(f.bh.format_code, &t.raw[i * f.bps()], f.le);
        }
    if (f.bh.samp_int == 0) f.bh.samp_int = 2000; // an all-zero header asks the writer to fill it in
    s.put("/sim/a.sgy", f.encode(), f.holes());
    draw_benign(s);
    run1(s, [&] {
        BinHdr bh = lib([&] { return ISEGY(std::string("/sim/a.sgy"), to_lib(f.layout)).binary_header(); });
        // what the copy has to be: the same file, with the counts in plain form and without a gap
        SegyFile g = f;
        g.gap.clear();
        g.hole = 0;
        g.bh.ext_text_headers_num = static_cast<int16_t>(f.text.size() - 1);
        g.bh.num_of_trailer_stanza = static_cast<int32_t>(f.stanzas.size());
        if (g.bh.byte_off_of_first_tr) g.bh.byte_off_of_first_tr = 3600 + 3200 * static_cast<uint64_t>(f.text.size() - 1);
        int rev = f.rev;
        if (f.rev < 2 && s.ch.one_in(3)) {
            // into a later revision
            rev = f.rev + 1 + static_cast<int>(s.ch.draw(2 - f.rev));
            bh.SEGY_rev_major_ver = static_cast<uint8_t>(rev);
            if (f.fixed) bh.fixed_tr_length = 1;
            g.rev = rev;
            g.bh.SEGY_rev_major_ver = static_cast<uint8_t>(rev);
            if (f.fixed) g.bh.fixed_tr_length = 1;
            count("workload.copy_to_later_revision");
        }
        copy_segy(s, f, "/sim/a.sgy", "/sim/b.sgy", bh, rev, f.layout, f.default_layout);
        compare_file(g, s.get("/sim/b.sgy"), "copy");
        // and the copy of the copy is the copy
        BinHdr bh2 = lib([&] { return ISEGY(std::string("/sim/b.sgy"), to_lib(f.layout)).binary_header(); });
        compare_bin_header(bh2, g.bh, "binary header of the copy");
        copy_segy(s, g, "/sim/b.sgy", "/sim/c.sgy", bh2, rev, f.layout, f.default_layout);
        if (s.get("/sim/c.sgy") != s.get("/sim/b.sgy")) violate("copy-of-copy: copying the copy gives another file");
    });
}
static Register r03("C03", "copy-segy", 3, c03_copy);

// other byte order or sample format: the values survive
static void c03_convert(Sim& s)
{
    SegyGen o;
    o.for_write = true;
    o.match_layout = true;
    o.allow_hole = false;
    o.allow_term = false;
    SegyFile f = gen_segy(s.ch, o);
    if (f.bh.samp_int == 0) f.bh.samp_int = 2000;
    // formats that hold every value of the source format
    std::vector<int> wide;
    switch (f.bh.format_code) {
    case 1: wide = { 1, 6 }; break;
    case 5: wide = { 5, 6 }; break;
    case 2: wide = { 2, 6, 9 }; break;
    case 3: wide = { 3, 2, 5, 6, 7, 9, 1 }; break;
    case 7: wide = { 7, 2, 5, 6, 9 }; break;
    case 8: wide = { 8, 3, 7, 2, 5, 6, 9, 1 }; break;
    case 10: wide = { 10, 6, 9, 12 }; break;
    case 11: wide = { 11, 10, 15, 2, 5, 6, 9, 12, 7, 1 }; break;
    case 15: wide = { 15, 10, 2, 5, 6, 9, 12, 1 }; break;
    case 16: wide = { 16, 11, 15, 10, 3, 2, 5, 6, 1 }; break;
    default: wide = { f.bh.format_code }; break;
    }
    for (auto& t : f.tr)
        if (t.loose) {
            t.loose = false;
            for (size_t i = 0; i < t.smp.size(); ++i) t.smp[i] = decode_sample(f.bh.format_code, &t.raw[i * f.bps()], f.le);
        }
    int fmt = wide[s.ch.draw(static_cast<uint32_t>(wide.size()))];
    static int32_t const ends[] = { 0, 0x01020304, 0x04030201 };
    int32_t end = ends[s.ch.draw(3)];
    s.put("/sim/a.sgy", f.encode());
    draw_benign(s);
    run1(s, [&] {
        BinHdr bh = lib([&] { return ISEGY(std::string("/sim/a.sgy"), to_lib(f.layout)).binary_header(); });
        bh.format_code = static_cast<int16_t>(fmt);
        bh.endianness = end;
        copy_segy(s, f, "/sim/a.sgy", "/sim/b.sgy", bh, f.rev, f.layout, f.default_layout);
        LibLayout l = to_lib(f.layout);
        auto r = lib([&] { return std::make_unique<ISEGY>(std::string("/sim/b.sgy"), l); });
        if (lib([&] { return r->text_headers(); }) != f.text) violate("text-header: text headers changed by a conversion");
        if (lib([&] { return r->trailer_stanzas(); }) != f.stanzas) violate("trailer-stanza: trailer stanzas changed by a conversion");
        BinHdr want = f.bh;
        want.format_code = static_cast<int16_t>(fmt);
        want.endianness = end;
        compare_bin_header(lib([&] { return r->binary_header(); }), want, "binary header of the converted file");
        for (size_t i = 0; i < f.tr.size(); ++i) {
            if (!lib([&] { return r->has_trace(); })) violate("truncated: converted file ends after %zu of %zu traces", i, f.tr.size());
            char w[64];
            snprintf(w, sizeof w, "converted trace %zu (format %d to %d)", i, f.bh.format_code, fmt);
            compare_trace(read_any(*r), f.tr[i], w);
        }
        if (lib([&] { return r->has_trace(); })) violate("has-trace: a trace is reported after the last of %zu", f.tr.size());
    });
}
static Register r03b("C03", "convert-segy", 1, c03_convert);

// ---------------------------------------------------------------- C06
std::string sort_key(Choices& ch, SegyFile& f);
std::vector<size_t> sorted_order(SegyFile const& f, std::string const& key);
static bool val_is(Val const& v, Scalar const& s)
{
    return s.is_double ? std::holds_alternative<double>(v) && std::get<double>(v) == s.d
                       : std::holds_alternative<int64_t>(v) && std::get<int64_t>(v) == s.i;
}

static void sorted_session(Sim& s, SegyFile const& f, std::string const& key);
static SegyFile gen_sorted(Sim& s, std::string& key)
{
    SegyGen o;
    o.max_tr = 14;
    o.crowd = 8;
    o.small = !s.ch.one_in(4);
    o.sort_friendly = true;
    SegyFile f = gen_segy(s.ch, o);
    key = sort_key(s.ch, f);
    if (key.empty()) key = "NO_SUCH";
    if (key != "SAMP_NUM" && !f.tr.empty() && s.ch.one_in(25) && make_huge(s.ch, f)) count("workload.huge_traces");
    for (auto& t : f.tr)
        if (t.vals.count(key) && t.vals[key].is_double && t.vals[key].d != t.vals[key].d) put_field(f, t, key, 3);
    return f;
}

static void c06_sorted(Sim& s)
{
    std::string key;
    SegyFile f = gen_sorted(s, key);
    s.put("/sim/a.sgy", f.encode(), f.holes());
    draw_benign(s);
    run1(s, [&] {
        sorted_session(s, f, key);
        if (!s.ch.one_in(12)) return;
        count("workload.file_replaced");
        SegyFile g = gen_sorted(s, key);
        s.put("/sim/a.sgy", g.encode(), g.holes());
        sorted_session(s, g, key);
    });
}

static void sorted_session(Sim& s, SegyFile const& f, std::string const& key)
{
    Choices& ch = s.ch;
    LibLayout l = to_lib(f.layout);
    std::string path = "/sim/a.sgy";
    if (key == "NO_SUCH" || ch.one_in(20)) {
        bool threw = false;
        try {
            auto r = lib([&] { return std::make_unique<ISEGYSorted1D>(path, std::string("NO_SUCH"), l); });
        } catch (std::exception&) {
            threw = true;
        }
        if (threw == f.tr.empty()) violate("missing-key: sorting %zu traces by a header they do not have %s", f.tr.size(), threw ? "failed" : "succeeded");
        return;
    }
    bool over = ch.one_in(4) && (f.rev < 2 || !f.nadd || f.layout.size() == static_cast<size_t>(f.nadd) + 1);
    BinHdr b = f.bh;
    b.endianness = 0;
    auto r = lib([&] {
        if (over) return f.default_layout ? std::make_unique<ISEGYSorted1D>(path, key, b) : std::make_unique<ISEGYSorted1D>(path, key, b, l);
        return f.default_layout ? std::make_unique<ISEGYSorted1D>(path, key) : std::make_unique<ISEGYSorted1D>(path, key, l);
    });
    std::vector<size_t> order = sorted_order(f, key);
    std::vector<Scalar> keys;
    for (size_t i : order) {
        Scalar const& v = f.tr[i].vals.at(key);
        if (keys.empty() || (v.is_double ? keys.back().d != v.d : keys.back().i != v.i)) keys.push_back(v);
    }
    size_t at = 0, ops = 0;
    auto group = [&](Scalar const& v) {
        std::vector<size_t> g;
        for (size_t i : order) {
            Scalar const& x = f.tr[i].vals.at(key);
            if (x.is_double ? x.d == v.d : x.i == v.i) g.push_back(i);
        }
        return g;
    };
    while (at < order.size() || ops == 0) {
        ++ops;
        uint32_t op = ch.draw(8);
        if (order.size() > 30 && op >= 4 && !ch.one_in(20)) op = ch.draw(4);
        if (at >= order.size() && op < 4) op = 5;
        if (op < 2) {
            if (!lib([&] { return r->has_trace(); })) violate("has-trace: sorted reader reports no trace after %zu of %zu", at, order.size());
        }
        if (!f.tr_hole.empty() && op < 3) op = 3; // no room for such samples
        if (!f.tr_hole.empty() && op > 5) op = 5;
        if (op < 3) {
            Trace t = lib([&] { return r->read_trace(); });
            char w[80];
            snprintf(w, sizeof w, "position %zu of %zu in sorted order", at, order.size());
            compare_trace(t, f.tr[order[at]], w);
            ++at;
        } else if (op == 3) {
            Trace::Header h = lib([&] { return r->read_header(); });
            compare_header(h, f.tr[order[at]], "header in sorted order");
            ++at;
        } else if (op == 4) {
            auto k = lib([&] { return r->get_keys(); });
            if (k.size() != keys.size()) violate("keys: %zu keys returned, expected %zu", k.size(), keys.size());
            for (size_t i = 0; i < k.size(); ++i)
                if (!val_is(k[i], keys[i])) violate("keys: key %zu is wrong", i);
        } else {
            // a group of traces by key; must not disturb the iteration
            Scalar v;
            if (!keys.empty() && !ch.one_in(6)) v = keys[ch.draw(static_cast<uint32_t>(keys.size()))];
            else {
                v.i = 777777 + static_cast<int64_t>(ch.draw(3));
                v.is_double = !keys.empty() && keys[0].is_double;
                if (v.is_double) v.d = static_cast<double>(v.i);
                if (!keys.empty() && ch.draw(2)) { // next to one that is there
                    v = keys[ch.draw(static_cast<uint32_t>(keys.size()))];
                    if (v.is_double) v.d = std::nextafter(v.d, ch.draw(2) ? 1e300 : -1e300);
                    else v.i = static_cast<int64_t>(static_cast<uint64_t>(v.i) + (ch.draw(2) ? 1 : -1ULL));
                }
            }
            auto g = group(v);
            static uint64_t const many[] = { 100000, UINT64_MAX, 1ULL << 32, (1ULL << 32) + 1, 1ULL << 63, 1ULL << 31, 65536, 256 };
            uint64_t max = ch.one_in(2) ? ch.draw(5) : many[ch.one_in(2) ? 0 : ch.draw(8)];
            size_t want = std::min<uint64_t>(g.size(), max);
            if (op == 5) {
                auto hs = lib([&] { return r->get_headers(to_val(v), max); });
                if (hs.size() != want) violate("group: %zu headers returned, expected %zu", hs.size(), want);
                for (size_t i = 0; i < want; ++i) compare_header(hs[i], f.tr[g[i]], "header of a group");
            } else {
                auto ts = lib([&] { return r->get_traces(to_val(v), max); });
                if (ts.size() != want) violate("group: %zu traces returned, expected %zu", ts.size(), want);
                for (size_t i = 0; i < want; ++i) compare_trace(ts[i], f.tr[g[i]], "trace of a group");
            }
        }
        if (ops > 1500) break;
    }
    if (at == order.size()) {
        if (lib([&] { return r->has_trace(); })) violate("has-trace: sorted reader reports a trace after the last of %zu", order.size());
        bool threw = false;
        try {
            if (ch.draw(2)) lib([&] { return r->read_trace(); });
            else lib([&] { return r->read_header(); });
        } catch (std::exception&) {
            threw = true;
        }
        if (!threw) violate("past-end: sorted reader returned a trace past the end");
    }
    lib([&] { r.reset(); });
}
static Register r06("C06", "sorted-read", 40, c06_sorted);

static void c06_long(Sim& s)
{
    if (!s.ch.one_in(400)) return c06_sorted(s);
    LongFile l = gen_long(s.ch, true);
    SegyFile const& f = l.f;
    s.put("/sim/a.sgy", l.data);
    run1(s, [&] {
        LibLayout lay = to_lib(f.layout);
        auto r = lib([&] { return std::make_unique<ISEGYSorted1D>(std::string("/sim/a.sgy"), std::string("FFID"), lay); });
        std::vector<size_t> order = sorted_order(f, "FFID");
        size_t m = f.tr.size(), done = 0;
        auto same = [&](size_t a, size_t b) {
            Scalar const &x = f.tr[a].vals.at("FFID"), &y = f.tr[b].vals.at("FFID");
            return x.is_double ? x.d == y.d : x.i == y.i;
        };
        for (size_t a = 0, b; a < m; a = b) {
            for (b = a; b < m && same(order[a], order[b]);) ++b;
            // traces of this key, in the order of the file
            std::vector<size_t> in(order.begin() + static_cast<long>(a), order.begin() + static_cast<long>(b));
            size_t total = 0;
            for (size_t k : in) total += l.n / m + (k < l.n % m);
            for (size_t i = 0; i < total; ++i, ++done) {
                if (!lib([&] { return r->has_trace(); })) violate("has-trace: sorted reader reports no trace after %zu of %zu", done, l.n);
                STrace const& t = f.tr[in[i % in.size()]];
                if (i < 3 || done % 1021 == 0 || i + 10 > total || (i > 65530 && i < 65540)) {
                    char w[80];
                    snprintf(w, sizeof w, "position %zu of %zu in sorted order", done, l.n);
                    compare_trace(lib([&] { return r->read_trace(); }), t, w);
                } else {
                    lib([&] { return r->read_header(); });
                }
            }
        }
        if (lib([&] { return r->has_trace(); })) violate("has-trace: sorted reader reports a trace after the last of %zu", l.n);
    });
}
static Register r06b("C06", "many-traces", 1, c06_long);
