// Input that must be refused: corrupt files (C11) and invalid requests to writers (C12).
#include "cases.hpp"
#include "segy.hpp"
#include "ISEGYSorted1D.hpp"
#include "OSEGYRev0.hpp"
#include "OSEGYRev1.hpp"
#include "OSEGYRev2.hpp"
#include <algorithm>
using namespace sedaman;

// ---------------------------------------------------------------- C12
namespace {
// a trace that this writer cannot store; nullopt if none of the drawn kind applies
std::optional<Trace> bad_trace(Choices& ch, WritePlan const& p, bool first, std::string& why)
{
    SegyFile const& f = p.f;
    if (f.tr.empty()) return std::nullopt;
    STrace const& t = f.tr[ch.draw(static_cast<uint32_t>(f.tr.size()))];
    std::unordered_map<std::string, Val> m;
    for (auto& v : t.vals) m[v.first] = to_val(v.second);
    std::vector<double> s = t.smp;
    s.resize(t.ns, 0.0);
    bool var = !f.fixed, zero_first = p.empty_bh && first;
    switch (ch.draw(6)) {
    case 0: // more samples than its record
        if (p.empty_bh && f.fixed) {
            s.resize(first ? static_cast<size_t>(std::get<int64_t>(m["SAMP_NUM"])) + 1 + ch.draw(3) : f.tr[0].ns + 1 + ch.draw(300));
        } else {
            s.resize((f.fixed ? f.ns : t.ns) + 1 + ch.draw(300));
        }
        why = "more samples than the record";
        break;
    case 1:
        if (!var && !zero_first) return std::nullopt;
        m.erase("SAMP_NUM");
        why = "no number of samples";
        break;
    case 2:
        if (!var && !zero_first) return std::nullopt;
        m["SAMP_NUM"] = -1 - static_cast<int64_t>(ch.draw(1000));
        why = "negative number of samples";
        break;
    case 3:
        if (!zero_first) return std::nullopt;
        m.erase("SAMP_INT");
        why = "no sample interval";
        break;
    case 4:
        if (!zero_first) return std::nullopt;
        switch (ch.draw(8)) {
        case 0: m["SAMP_INT"] = static_cast<int64_t>(0); break;
        case 1: m["SAMP_INT"] = static_cast<int64_t>(32768); break;
        case 2: m["SAMP_INT"] = static_cast<int64_t>(32768 + ch.draw(100000)); break;
        case 3: m["SAMP_INT"] = static_cast<int64_t>(-32769 - static_cast<int64_t>(ch.draw(100000))); break;
        case 4: { // the lower half of the value would fit
            int64_t top = 1 + ch.draw(0x7fff);
            m["SAMP_INT"] = (ch.draw(2) ? top : -1 - top) * (ch.draw(2) ? 0x10000ll : 0x100000000ll) + 1 + ch.draw(32767);
            break;
        }
        case 5: m["SAMP_INT"] = ch.draw(2) ? 0.5 : 0.0; break;
        case 6: m["SAMP_INT"] = 32768.0 + ch.draw(2) * 0.25; break;
        case 7: m["SAMP_INT"] = ch.draw(2) ? 1e30 : -1e30; break;
        }
        why = "sample interval that the file header cannot hold";
        break;
    case 5:
        if (!zero_first) return std::nullopt;
        switch (ch.draw(3)) {
        case 0: m["SAMP_NUM"] = static_cast<int64_t>(32768); break;
        case 1: m["SAMP_NUM"] = static_cast<int64_t>(32768 + ch.draw(100000)); break;
        case 2: // the lower half of the value would do
            m["SAMP_NUM"] = static_cast<int64_t>(t.ns) + (1 + static_cast<int64_t>(ch.draw(0x7fff))) * (ch.draw(2) ? 0x10000ll : 0x100000000ll);
            break;
        }
        why = "more samples than the file header can hold";
        break;
    }
    return Trace(std::move(m), std::move(s));
}

void c12_traces(Sim& s)
{
    WritePlan p = gen_write_plan(s.ch, !s.ch.one_in(4), 0, 7);
    WritePlan q = p; // what refused traces are made from
    if (s.ch.one_in(8)) { // no trace is acceptable
        p.f.tr.clear();
        if (p.empty_bh) p.f.bh.samp_per_tr = p.f.bh.samp_int = 0;
    }
    draw_benign(s);
    run1(s, [&] {
        auto w = open_writer(p, "/sim/out.sgy");
        size_t i = 0;
        uint32_t bad = 0;
        while (i < p.f.tr.size() || (bad < 3 && s.ch.draw(2))) {
            if (i == p.f.tr.size() || s.ch.one_in(3)) {
                std::string why;
                auto t = bad_trace(s.ch, q, i == 0, why);
                ++bad;
                if (!t) continue;
                bool threw = false;
                try {
                    lib([&] { w->write_trace(*t); });
                } catch (std::exception& e) {
                    threw = true;
                    s.note("  refused: %s", e.what());
                }
                count("workload.refused_trace");
                if (!threw) violate("accepted-invalid: a trace with %s was accepted", why.c_str());
                continue;
            }
            Trace x = to_trace(p.f, p.f.tr[i]);
            lib([&] { w->write_trace(x); });
            ++i;
        }
        lib([&] { w.reset(); });
        compare_file(p.f, s.get("/sim/out.sgy"), "file after refused traces");
    });
}
Register r12("C12", "refused-traces", 3, c12_traces);

void c12_ctor(Sim& s)
{
    Choices& ch = s.ch;
    WritePlan p = gen_write_plan(ch, true, 0, 3);
    bool was_empty = p.given_text.empty();
    std::string why;
    LibLayout l = to_lib(p.f.layout);
    auto st = p.f.stanzas;
    BinHdr bh = p.given;
    auto txt = p.given_text;
    (void)was_empty;
    using VTy = Trace::Header::ValueType;
    static std::pair<uint32_t, VTy> const kinds[] = { { 1, VTy::int8_t }, { 1, VTy::uint8_t }, { 2, VTy::int16_t }, { 2, VTy::uint16_t }, { 3, VTy::int24_t },
        { 3, VTy::uint24_t }, { 4, VTy::int32_t }, { 4, VTy::uint32_t }, { 8, VTy::int64_t }, { 8, VTy::uint64_t }, { 4, VTy::ibm }, { 4, VTy::ieee_single },
        { 8, VTy::ieee_double } };
    switch (ch.draw(8)) {
    case 0:
        if (txt.empty()) txt.push_back(std::string(3200, ' '));
        {
            static int const d[] = { -1, 1, -3199, 80, 3200 };
            auto& q = txt[ch.draw(static_cast<uint32_t>(txt.size()))];
            q.resize(3200 + d[ch.draw(5)], 'x');
            if (p.f.rev == 0) txt[0] = q;
        }
        why = "text header of a wrong size";
        break;
    case 1:
        if (p.f.rev != 2) return;
        st.push_back(std::string(3200, ' '));
        st[ch.draw(static_cast<uint32_t>(st.size()))].resize(ch.draw(2) ? 3199 : 3201, 'x');
        why = "trailer stanza of a wrong size";
        break;
    case 2: {
        static int const bad[] = { 4, 13, 14, 17, 99, -1 };
        bh.format_code = static_cast<int16_t>(bad[ch.draw(6)]);
        why = "unknown sample format";
        break;
    }
    case 3: {
        static int const bad[] = { 1, 0x02010403, 0x04030200, -1 };
        bh.endianness = bad[ch.draw(4)];
        why = "unknown byte order";
        break;
    }
    case 4: {
        size_t k = ch.draw(static_cast<uint32_t>(l.size()));
        l[k].first = ch.draw(2) ? "SEG000000" : "SEG";
        why = "layout name of a wrong length";
        break;
    }
    case 5: {
        size_t k = ch.draw(static_cast<uint32_t>(l.size()));
        if (ch.draw(2)) l[k].second.clear();
        auto ty = kinds[ch.draw(13)];
        uint32_t first_bad = 241 - ty.first, off;
        switch (ch.draw(4)) {
        case 0: off = first_bad + ch.draw(ty.first); break;
        case 1: off = 240 + ch.draw(1000); break;
        case 2: off = 0xffffffffu - ch.draw(300); break;
        default: off = first_bad; break;
        }
        l[k].second[off] = { "OUTSIDE", ty.second };
        for (auto i = l[k].second.begin(); i != l[k].second.end();) // the one thing that is wrong with it
            i = i->first < off && i->first + 8 > off ? l[k].second.erase(i) : std::next(i);
        why = "layout field outside the header";
        break;
    }
    case 6: {
        size_t k = ch.draw(static_cast<uint32_t>(l.size()));
        l[k].second.clear();
        uint32_t off = ch.draw(8); // fields around those that overlap
        uint32_t before = ch.draw(6), after = ch.draw(4);
        for (uint32_t i = 0; i < before; ++i) {
            auto ty = kinds[ch.draw(13)];
            l[k].second[off] = { "B" + std::to_string(i), ty.second };
            off += ty.first + ch.draw(3);
        }
        auto a = kinds[2 + ch.draw(11)], b = kinds[ch.draw(13)];
        l[k].second[off] = { "FIRST", a.second };
        off += ch.draw(2) ? a.first - 1 : 1 + ch.draw(a.first - 1);
        l[k].second[off] = { "SECOND", b.second };
        off += b.first;
        for (uint32_t i = 0; i < after; ++i) {
            auto ty = kinds[ch.draw(13)];
            l[k].second[off] = { "A" + std::to_string(i), ty.second };
            off += ty.first + ch.draw(3);
        }
        why = "overlapping layout fields";
        break;
    }
    case 7: {
        if (p.f.rev != 2) return;
        bh.SEGY_rev_major_ver = 2;
        int32_t n = static_cast<int32_t>(l.size()) - 1;
        switch (ch.draw(3)) {
        case 0: n += 1 + static_cast<int32_t>(ch.draw(300)); break;
        case 1: n -= 1 + static_cast<int32_t>(ch.draw(3)); break;
        case 2: n += static_cast<int32_t>(1 + ch.draw(100)) << (ch.draw(2) ? 16 : 8); break;
        }
        if (n <= 0) return;
        bh.max_num_add_tr_headers = n;
        why = "number of additional headers other than that of the layout";
        break;
    }
    }
    bool reader_too = why.rfind("layout", 0) == 0 || why.rfind("overlapping", 0) == 0;
    s.put("/sim/a.sgy", p.f.encode());
    run1(s, [&] {
        auto expect = [&](char const* who, auto&& fn) {
            bool threw = false;
            try {
                lib(fn);
            } catch (std::exception& e) {
                threw = true;
                s.note("  refused: %s", e.what());
            }
            count("workload.refused_construction");
            if (!threw) violate("accepted-invalid: %s accepted: %s", who, why.c_str());
        };
        expect("writer", [&] {
            if (p.f.rev == 0) OSEGYRev0("/sim/out", txt.empty() ? std::string() : txt[0], bh, l);
            else if (p.f.rev == 1) OSEGYRev1("/sim/out", txt, bh, l);
            else OSEGYRev2("/sim/out", txt, bh, st, l);
        });
        if (reader_too) {
            expect("reader", [&] { ISEGY("/sim/a.sgy", l); });
            expect("sorted reader", [&] { ISEGYSorted1D("/sim/a.sgy", "FFID", l); });
        }
        // nothing of it sticks
        auto w = open_writer(p, "/sim/out");
        for (auto& t : p.f.tr) {
            Trace x = to_trace(p.f, t);
            lib([&] { w->write_trace(x); });
        }
        lib([&] { w.reset(); });
        compare_file(p.f, s.get("/sim/out"), "file written after a refused construction");
    });
}
Register r12b("C12", "refused-construction", 1, c12_ctor);

// ---------------------------------------------------------------- C11
// any bytes at all: results or exceptions, nothing else
void drain(Sim& s, ISEGY& r, size_t size, uint32_t mask)
{
    size_t n = 0, failures = 0;
    while (failures < 3) {
        try {
            if (!lib([&] { return r.has_trace(); })) break;
            if (mask >> (n & 31) & 1) {
                Trace::Header h = lib([&] { return r.read_header(); });
                s.mix(h.keys().size());
            } else {
                Trace t = lib([&] { return r.read_trace(); });
                if (t.samples().size() > size) violate("more-than-file: a trace of %zu samples from a file of %zu bytes", t.samples().size(), size);
            }
            if (++n > size / 240 + 1) violate("no-progress: %zu traces from a file of %zu bytes", n, size);
        } catch (std::exception& e) {
            ++failures;
            s.note("  trace %zu: %s", n, e.what());
        }
    }
    count(failures ? "outcome.refused" : "outcome.read");
    s.mix(n);
}

std::string mutate(Choices& ch, std::string b, std::string const& other)
{
    for (uint32_t k = 1 + ch.draw(4); k && !b.empty(); --k) {
        size_t pos;
        if (ch.one_in(10) && b.size() > 3226) { // samples said to be in another format
            static char const c[] = { 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 4, 0, 13 };
            b[3225] = c[ch.draw(16)];
            continue;
        }
        switch (ch.draw(4)) {
        case 0: pos = 3200 + ch.draw(400); break;
        case 1: pos = 3600 + ch.draw(480); break;
        case 2: { // the fields that control the shape of the file
            static int const at[] = { 3220, 3221, 3224, 3225, 3268, 3271, 3296, 3299, 3500, 3501, 3502, 3503, 3504, 3505, 3506, 3509, 3512, 3519, 3520, 3527, 3528, 3531 };
            pos = at[ch.draw(22)];
            break;
        }
        default: pos = ch.draw(static_cast<uint32_t>(b.size())); break;
        }
        pos %= b.size();
        switch (ch.draw(8)) {
        case 6: b[pos] = static_cast<char>(b[pos] + (ch.draw(2) ? 1 : -1) * static_cast<int>(1 + ch.draw(3))); break; // a count a little off
        case 7: { // the smallest and largest numbers, in either byte order
            bool neg = ch.draw(2), little = ch.draw(2);
            size_t n = static_cast<size_t>(2) << ch.draw(3);
            std::string v(n, neg ? 0 : -1);
            v[little ? n - 1 : 0] = static_cast<char>(neg ? 0x80 : 0x7f);
            for (size_t i = 0; i < n && pos + i < b.size(); ++i) b[pos + i] = v[i];
            break;
        }
        case 0: b[pos] = static_cast<char>(b[pos] ^ (1 << ch.draw(8))); break;
        case 1: b[pos] = static_cast<char>(ch.draw(256)); break;
        case 2: {
            static char const v[] = { 0, -1, 127, -128, 1 };
            char c = v[ch.draw(5)];
            for (size_t i = pos, e = std::min(b.size(), pos + 1 + ch.draw(8)); i < e; ++i) b[i] = c;
            break;
        }
        case 3: b.resize(ch.draw(static_cast<uint32_t>(b.size()))); break;
        case 4: b.erase(pos, 1 + ch.draw(5000)); break;
        case 5: b.insert(pos, other, ch.draw(static_cast<uint32_t>(other.size())), 1 + ch.draw(4000)); break;
        }
    }
    return b;
}

void c11_garbage(Sim& s)
{
    SegyGen o;
    o.small = true;
    o.allow_hole = false;
    o.max_tr = 5;
    SegyFile f = gen_segy(s.ch, o);
    std::string b = f.encode();
    if (s.ch.one_in(8)) b = rand_bytes(s.ch.seed32(), s.ch.draw(20000));
    else b = mutate(s.ch, b, f.encode());
    s.put("/sim/a", b);
    draw_benign(s);
    s.max_lib_steps = 50000;
    s.faults.alloc_cap = (1u << 20) + 64 * b.size();
    run1(s, [&] {
        uint32_t mask = s.ch.one_in(2) ? s.ch.seed32() : 0;
        LibLayout l = to_lib(f.layout);
        try {
            std::unique_ptr<ISEGY> r;
            switch (s.ch.draw(5)) {
            case 0: r = lib([&] { return std::make_unique<ISEGY>("/sim/a"); }); break;
            case 1:
            case 2: r = lib([&] { return std::make_unique<ISEGY>("/sim/a", l); }); break;
            case 3: r = lib([&] { return std::make_unique<ISEGYSorted1D>("/sim/a", l[0].second.empty() ? "X" : l[0].second.begin()->second.first, l); }); break;
            default: {
                BinHdr bh = lib([&] { return ISEGY::read_binary_header("/sim/a"); });
                s.mix(static_cast<uint64_t>(bh.format_code));
                r = lib([&] { return std::make_unique<ISEGY>("/sim/a", bh, l); });
                break;
            }
            }
            drain(s, *r, b.size(), mask);
            lib([&] { r.reset(); });
        } catch (std::exception& e) {
            count("outcome.not_opened");
            s.note("  not opened: %s", e.what());
        }
        if (s.alloc_refused) violate("memory: %lu bytes requested at once to read a file of %zu bytes", (unsigned long)s.alloc_refused, b.size());
    });
}
Register r11("C11", "corrupt-segy", 3, c11_garbage);

// damage in one place leaves the rest of the file alone
void c11_local(Sim& s)
{
    SegyGen o;
    o.small = true;
    o.allow_hole = false;
    o.allow_term = false;
    o.min_tr = 1;
    o.max_tr = 6;
    SegyFile f = gen_segy(s.ch, o);
    std::string b = f.encode();
    std::vector<size_t> start;
    size_t pos = f.head().size() + f.gap.size();
    for (size_t i = 0; i < f.tr.size(); ++i) {
        start.push_back(pos);
        pos += f.trace_bytes(i).size();
    }
    start.push_back(pos);
    draw_benign(s);
    LibLayout l = to_lib(f.layout);
    if (s.ch.draw(2)) {
        // cut off
        if (!f.stanzas.empty()) return;
        size_t cut = s.ch.draw(static_cast<uint32_t>(b.size()));
        b.resize(cut);
        s.put("/sim/a", b);
        count("fault.truncated_file");
        run1(s, [&] {
            size_t n = 0, whole = 0;
            while (whole < f.tr.size() && start[whole + 1] <= cut) ++whole;
            bool ended = false;
            try {
                auto r = lib([&] { return std::make_unique<ISEGY>("/sim/a", l); });
                while (true) {
                    if (!lib([&] { return r->has_trace(); })) { ended = true; break; }
                    Trace t = lib([&] { return r->read_trace(); });
                    if (n >= whole) violate("wrong-trace: trace %zu returned from a file cut off before its end", n);
                    std::string d = diff_trace(t, f.tr[n]);
                    if (!d.empty()) violate("wrong-trace: trace %zu of a cut off file: %s", n, d.c_str());
                    ++n;
                }
            } catch (std::exception& e) {
                s.note("  %s", e.what());
                if (start[0] <= cut && n < whole) violate("lost-trace: trace %zu lies wholly in the cut off file but reading it failed: %s", n, e.what());
            }
            if (ended && !(start[0] <= cut && start[n] == cut)) violate("truncated: reading of a cut off file ended normally after %zu traces", n);
        });
        return;
    }
    size_t k = s.ch.draw(static_cast<uint32_t>(f.tr.size()));
    size_t hdr = f.tr[k].hdr.size() * 240, len = start[k + 1] - start[k];
    size_t lo = f.fixed ? 0 : hdr;
    if (lo >= len) return;
    for (uint32_t i = 1 + s.ch.draw(5); i; --i) {
        size_t q = start[k] + lo + s.ch.draw(static_cast<uint32_t>(len - lo));
        b[q] = static_cast<char>(b[q] ^ (1 + s.ch.draw(255)));
    }
    s.put("/sim/a", b);
    count("fault.corrupt_trace");
    run1(s, [&] {
        auto r = lib([&] { return std::make_unique<ISEGY>("/sim/a", l); });
        for (size_t i = 0; i < f.tr.size(); ++i) {
            if (!lib([&] { return r->has_trace(); })) violate("truncated: corrupt samples end the file after %zu traces", i);
            Trace t = lib([&] { return r->read_trace(); });
            if (i != k) compare_trace(t, f.tr[i], "trace next to a corrupt one");
            else if (t.samples().size() != f.tr[i].ns) violate("trace-samples: a corrupt trace has %zu samples instead of %u", t.samples().size(), f.tr[i].ns);
        }
        if (lib([&] { return r->has_trace(); })) violate("has-trace: a trace is reported after the last");
    });
}
Register r11b("C11", "local-damage-segy", 1, c11_local);
}
