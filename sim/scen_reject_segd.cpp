// SEG-D input that must be refused: corrupt files (C11), invalid requests to the writer (C12).
#include "scenario.hpp"
#include "segd.hpp"
#include <algorithm>
using namespace sedaman;

namespace {
// ---------------------------------------------------------------- C12
// a number that is none of 1..n
int64_t outside(Choices& ch, int64_t n)
{
    switch (ch.draw(5)) {
    case 0: return 0;
    case 1: return n + 1;
    case 2: return n + 1 + static_cast<int64_t>(ch.draw(300));
    case 3: return -1 - static_cast<int64_t>(ch.draw(300));
    default: { // its lower part is
        static int const shift[] = { 8, 16, 32 };
        int64_t k = 1 + static_cast<int64_t>(ch.draw(100)), one = 1ll << shift[ch.draw(3)];
        int64_t v = 1 + static_cast<int64_t>(ch.draw(static_cast<uint32_t>(n)));
        v += (ch.draw(2) ? k : -k) * one;
        return v >= 1 && v <= n ? n + 1 : v;
    }
    }
}
// a trace that the writer of this record cannot store
std::optional<Trace> bad_trace(Choices& ch, SegdFile const& f, std::string& why)
{
    DRecord const& d = f.rec[0];
    DTrace const& t = d.tr[ch.draw(static_cast<uint32_t>(d.tr.size()))];
    std::unordered_map<std::string, Val> m;
    for (auto& v : t.v.vals) m[v.first] = to_val(v.second);
    std::vector<double> s = t.v.smp;
    int scans = static_cast<int>(d.sets.size()), sets = static_cast<int>(d.sets[0].size());
    switch (ch.draw(6)) {
    case 0:
        m["SCAN_TYPE_NUM"] = outside(ch, scans);
        why = "an undeclared scan type";
        break;
    case 1:
        m["CH_SET_NUM"] = outside(ch, sets);
        why = "an undeclared channel set";
        break;
    case 2: {
        std::vector<std::string> names;
        for (size_t b = 0; b < t.ext.size() && b < f.map.size(); ++b)
            for (auto& x : f.map[b]) names.push_back(x.name);
        if (names.empty()) return std::nullopt;
        m.erase(names[ch.draw(static_cast<uint32_t>(names.size()))]);
        why = "a missing header of the extension map";
        break;
    }
    case 3:
        if (d.fmt() != 8015) return std::nullopt;
        s.resize(s.size() + 1 + ch.draw(3), 0.0);
        why = "an incomplete group of four samples";
        break;
    case 4: {
        std::vector<std::string> names;
        for (size_t b = 0; b < t.ext.size() && b < f.map.size(); ++b)
            for (auto& x : f.map[b])
                if (!vt_float(x.type)) names.push_back(x.name);
        if (names.empty()) return std::nullopt;
        m[names[ch.draw(static_cast<uint32_t>(names.size()))]] = 1.5;
        why = "a fractional value for an integer field";
        break;
    }
    case 5: {
        static char const* const n[] = { "FFID", "SCAN_TYPE_NUM", "CH_SET_NUM", "CHAN" };
        m[n[ch.draw(4)]] = 1.0;
        why = "a floating point number for an integer header";
        break;
    }
    }
    return Trace(std::move(m), std::move(s));
}

void c12_segd(Sim& s)
{
    SegdGen o;
    o.for_write = true;
    o.small = !s.ch.one_in(4);
    SegdFile f = gen_segd(s.ch, o);
    draw_benign(s);
    run1(s, [&] {
        auto w = open_segd_writer(f, "/sim/out.sgd", s.ch.seed32());
        auto& tr = f.rec[0].tr;
        size_t i = 0;
        uint32_t bad = 0;
        while (i < tr.size() || (bad < 4 && s.ch.draw(3))) {
            if (i == tr.size() || s.ch.one_in(3)) {
                std::string why;
                auto t = bad_trace(s.ch, f, why);
                if (i == tr.size() && s.ch.draw(2)) {
                    t = to_trace(tr[s.ch.draw(static_cast<uint32_t>(i))]);
                    why = "no place left in the record";
                }
                ++bad;
                if (!t) continue;
                bool threw = false;
                try {
                    lib([&] { w->write_trace(*t); });
                } catch (std::exception& e) {
                    threw = true;
                    s.note("  refused: %s", e.what());
                }
                count("workload.refused_trace");
                if (!threw) violate("accepted-invalid: a trace with %s was accepted", why.c_str());
                continue;
            }
            Trace x = to_trace(tr[i]);
            lib([&] { w->write_trace(x); });
            ++i;
        }
        lib([&] { w.reset(); });
        compare_segd(f, s.get("/sim/out.sgd"), "file after refused traces");
    });
}
Register r12("C12", "refused-traces-segd", 2, c12_segd);

void c12_segd_ctor(Sim& s)
{
    Choices& ch = s.ch;
    SegdGen o;
    o.for_write = true;
    o.small = true;
    o.max_tr = 3;
    SegdFile f = gen_segd(ch, o), q = f;
    DRecord& d = q.rec[0];
    LibExt l = to_lib(f);
    std::shared_ptr<SGD::AdditionalGeneralHeader> extra;
    std::string why;
    bool reader_too = false;
    auto cut = [&](std::vector<std::string>& v, char const* what) {
        if (v.empty()) return false;
        if (ch.draw(2)) v.resize(ch.draw(static_cast<uint32_t>(v.size())));
        else v[ch.draw(static_cast<uint32_t>(v.size()))].resize(ch.draw(2) ? 31 : 33);
        why = what;
        return true;
    };
    switch (ch.draw(10)) {
    case 0:
        d.gh2.segd_rev_major = static_cast<uint8_t>(3 + ch.draw(4));
        why = "a revision that this writer does not write";
        break;
    case 1: {
        int n = d.gh.add_gen_hdr_blocks, k = static_cast<int>(ch.draw(15)) + 1;
        d.gh.add_gen_hdr_blocks = k == n ? 0 : k;
        why = "a number of general headers other than given";
        break;
    }
    case 2: {
        auto h = std::make_shared<SGD::GeneralHeaderSur>();
        std::fill(std::begin(h->survey_area_name), std::end(h->survey_area_name), 'a');
        h->gen_hdr_block_type = 0x11;
        extra = h;
        if (d.gh.add_gen_hdr_blocks < 15) d.gh.add_gen_hdr_blocks++;
        why = "a general header of a later revision";
        break;
    }
    case 3: if (!cut(d.extended, "missing or short extended headers")) return; break;
    case 4: if (!cut(d.external, "missing or short external headers")) return; break;
    case 5:
        if (ch.draw(2)) d.sets.push_back(d.sets[0]);
        else d.sets.pop_back();
        why = "a number of scan types other than declared";
        break;
    case 6: {
        auto& st = d.sets[ch.draw(static_cast<uint32_t>(d.sets.size()))];
        if (ch.draw(2)) st.push_back(st[0]);
        else st.pop_back();
        why = "a number of channel sets other than declared";
        break;
    }
    case 7: {
        static int const bad[] = { 0, 1, 8016, 8057, 8888, 9015, 58, 9048, 9999 };
        d.gh.format_code = bad[ch.draw(9)];
        why = "an unknown sample format";
        break;
    }
    case 8: {
        using VTy = Trace::Header::ValueType;
        static std::pair<uint32_t, VTy> const kinds[] = { { 1, VTy::int8_t }, { 1, VTy::uint8_t }, { 2, VTy::int16_t }, { 2, VTy::uint16_t }, { 3, VTy::int24_t },
            { 3, VTy::uint24_t }, { 4, VTy::int32_t }, { 4, VTy::uint32_t }, { 8, VTy::int64_t }, { 8, VTy::uint64_t }, { 4, VTy::ibm }, { 4, VTy::ieee_single },
            { 8, VTy::ieee_double } };
        auto ty = kinds[ch.draw(13)];
        std::pair<uint32_t, VTy> b { 33 - ty.first, ty.second };
        switch (ch.draw(4)) {
        case 0: b.first += ch.draw(ty.first); break;
        case 1: b.first = 32 + ch.draw(1000); break;
        case 2: b.first = 0xffffffffu - ch.draw(300); break;
        default: break;
        }
        if (l.empty()) l.push_back({});
        auto& m = l[ch.draw(static_cast<uint32_t>(l.size()))];
        if (ch.draw(2)) m.clear();
        m[b.first] = { "OUTSIDE", b.second };
        why = "an extension map with a field outside the block";
        reader_too = true;
        break;
    }
    case 9: {
        int n = 16 + static_cast<int>(ch.draw(ch.draw(2) ? 2 : 300));
        d.ghn.resize(static_cast<size_t>(n) - 1);
        for (size_t i = 0; i < d.ghn.size(); ++i) {
            d.ghn[i].gen_hdr_block_num = static_cast<uint8_t>(i + 3);
        }
        d.gh.add_gen_hdr_blocks = n;
        why = "more general headers than the count can hold";
        break;
    }
    }
    s.put("/sim/a.sgd", f.encode());
    run1(s, [&] {
        auto expect = [&](char const* who, auto&& fn) {
            bool threw = false;
            try {
                lib(fn);
            } catch (std::exception& e) {
                threw = true;
                s.note("  refused: %s", e.what());
            }
            count("workload.refused_construction");
            if (!threw) violate("accepted-invalid: %s accepted %s", who, why.c_str());
        };
        auto vec = [](std::vector<std::string> const& v) {
            std::vector<std::vector<char>> r;
            for (auto& x : v) r.emplace_back(x.begin(), x.end());
            return r;
        };
        expect("writer", [&] {
            std::vector<std::shared_ptr<SGD::AdditionalGeneralHeader>> add;
            for (auto& h : d.ghn) add.push_back(std::make_shared<SGD::GeneralHeaderN>(h));
            if (extra) add.push_back(extra);
            OSEGDRev2_1("/sim/out.sgd", d.gh, d.gh2, d.sets, add, vec(d.extended), vec(d.external), l);
        });
        if (reader_too) expect("reader", [&] { ISEGD("/sim/a.sgd", l); });
        auto w = open_segd_writer(f, "/sim/out.sgd");
        for (auto& t : f.rec[0].tr) {
            Trace x = to_trace(t);
            lib([&] { w->write_trace(x); });
        }
        lib([&] { w.reset(); });
        compare_segd(f, s.get("/sim/out.sgd"), "file written after a refused construction");
    });
}
Register r12b("C12", "refused-construction-segd", 1, c12_segd_ctor);

// ---------------------------------------------------------------- C11
// everything the accessors offer
void look(Sim& s, ISEGD& r)
{
    uint64_t h = lib([&] {
        uint64_t k = static_cast<uint64_t>(r.general_header().format_code);
        if (auto g = r.general_header2()) k += g->segd_rev_major;
        if (auto g = r.general_header3()) k += g->record_size;
        k = k * 31 + r.general_headerN().size();
        k += r.general_header_vessel_crew_id().has_value() + r.general_header_survey_name().has_value() + r.general_header_client_name().has_value();
        k += r.general_header_job_id().has_value() + r.general_header_line_id().has_value() + r.general_header_vibrator_info().has_value();
        k += r.general_header_explosive_info().has_value() + r.general_header_airgun_info().has_value() + r.general_header_watergun_info().has_value();
        k += r.general_header_electromagnetic_info().has_value() + r.general_header_other_source_info().has_value() + r.general_header_add_source_info().has_value();
        k += r.general_header_sou_aux_chan_ref().has_value() + r.general_header_sen_info_hdr_ext_blk().has_value() + r.general_header_sen_calib_blk().has_value();
        k += r.general_header_time_drift_blk().has_value() + r.general_header_elemag_src_rec_desc_blk().has_value() + r.general_header_position_blk_1().has_value();
        k += r.general_header_position_blk_2().has_value() + r.general_header_position_blk_3().has_value() + r.general_header_coord_ref_blk().has_value();
        k += r.general_header_relative_pos_blk().has_value() + r.general_header_orient_hdr_blk().has_value() + r.general_header_measurement_blk().has_value();
        for (auto& st : r.channel_set_headers()) k = k * 31 + st.size();
        return k * 31 + r.extended_headers().size() * 3 + r.external_headers().size();
    });
    s.mix(h);
}

std::string mutate(Choices& ch, SegdFile const& f, std::string b, std::string const& other)
{
    for (uint32_t k = 1 + ch.draw(4); k && !b.empty(); --k) {
        size_t pos;
        size_t rs = f.rec_start[ch.draw(static_cast<uint32_t>(f.rec_start.size()))];
        if (ch.one_in(6) && rs + 4 <= b.size()) { // samples said to be in another format
            int c = segd_formats[ch.draw(static_cast<uint32_t>(segd_formats.size()))];
            b[rs + 2] = static_cast<char>(c / 1000 << 4 | c / 100 % 10);
            b[rs + 3] = static_cast<char>(c / 10 % 10 << 4 | c % 10);
            continue;
        }
        switch (ch.draw(6)) {
        case 0: pos = rs + ch.draw(32); break;
        case 1: pos = rs + 32 + ch.draw(64); break;
        case 2: pos = rs + ch.draw(400); break;
        case 3: { // the fields that control the shape of the record
            static int const at[] = { 2, 3, 11, 27, 28, 29, 30, 31, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 54, 55, 59, 60, 61, 63 };
            pos = rs + at[ch.draw(28)];
            break;
        }
        case 4: { // trace headers
            pos = f.tr_start[ch.draw(static_cast<uint32_t>(f.tr_start.size()))] + ch.draw(52);
            break;
        }
        default: pos = ch.draw(static_cast<uint32_t>(b.size())); break;
        }
        pos %= b.size();
        switch (ch.draw(8)) {
        case 6: b[pos] = static_cast<char>(b[pos] + (ch.draw(2) ? 1 : -1) * static_cast<int>(1 + ch.draw(3))); break; // a count a little off
        case 7: { // the smallest and largest numbers, in either byte order
            bool neg = ch.draw(2), little = ch.draw(2);
            size_t n = static_cast<size_t>(2) << ch.draw(3);
            std::string v(n, neg ? 0 : -1);
            v[little ? n - 1 : 0] = static_cast<char>(neg ? 0x80 : 0x7f);
            for (size_t i = 0; i < n && pos + i < b.size(); ++i) b[pos + i] = v[i];
            break;
        }
        case 0: b[pos] = static_cast<char>(b[pos] ^ (1 << ch.draw(8))); break;
        case 1: b[pos] = static_cast<char>(ch.draw(256)); break;
        case 2: {
            static char const v[] = { 0, -1, 127, -128, 1 };
            char c = v[ch.draw(5)];
            for (size_t i = pos, e = std::min(b.size(), pos + 1 + ch.draw(8)); i < e; ++i) b[i] = c;
            break;
        }
        case 3: b.resize(ch.draw(static_cast<uint32_t>(b.size()))); break;
        case 4: b.erase(pos, 1 + ch.draw(600)); break;
        case 5: b.insert(pos, other, ch.draw(static_cast<uint32_t>(other.size())), 1 + ch.draw(600)); break;
        }
    }
    return b;
}

void c11_segd(Sim& s)
{
    SegdGen o;
    o.small = true;
    o.max_tr = 5;
    SegdFile f = gen_segd(s.ch, o);
    std::string b = f.encode();
    if (s.ch.one_in(8)) b = rand_bytes(s.ch.seed32(), s.ch.draw(20000));
    else b = mutate(s.ch, f, b, std::string(b));
    s.put("/sim/a", b);
    draw_benign(s);
    s.max_lib_steps = 50000;
    s.faults.alloc_cap = (1u << 20) + 64 * b.size();
    run1(s, [&] {
        bool std_map = s.ch.draw(2);
        uint32_t nosy = s.ch.draw(3);
        LibExt l = to_lib(f);
        try {
            auto r = lib([&] { return std_map ? std::make_unique<ISEGD>("/sim/a") : std::make_unique<ISEGD>("/sim/a", l); });
            look(s, *r);
            size_t n = 0, failures = 0;
            while (failures < 3) {
                try {
                    if (!lib([&] { return r->has_record(); }) && !lib([&] { return r->has_trace(); })) break;
                    Trace t = lib([&] { return r->read_trace(); });
                    if (t.samples().size() > b.size()) violate("more-than-file: a trace of %zu samples from a file of %zu bytes", t.samples().size(), b.size());
                    if (++n > b.size() / 20 + 1) violate("no-progress: %zu traces from a file of %zu bytes", n, b.size());
                } catch (std::exception& e) {
                    ++failures;
                    s.note("  trace %zu: %s", n, e.what());
                }
                if (nosy == 2 || (nosy && s.ch.one_in(4))) look(s, *r);
            }
            count(failures ? "outcome.refused" : "outcome.read");
            s.mix(n);
            lib([&] { r.reset(); });
        } catch (std::exception& e) {
            count("outcome.not_opened");
            s.note("  not opened: %s", e.what());
        }
        if (s.alloc_refused) violate("memory: %lu bytes requested at once to read a file of %zu bytes", (unsigned long)s.alloc_refused, b.size());
    });
}
Register r11("C11", "corrupt-segd", 3, c11_segd);

void c11_segd_local(Sim& s)
{
    SegdGen o;
    o.small = true;
    o.max_tr = 5;
    SegdFile f = gen_segd(s.ch, o);
    std::string b = f.encode();
    draw_benign(s);
    size_t total = f.size();
    auto end_of = [&](size_t i) { return f.tr_start[i] + f.trace(i).bytes().size(); };
    if (s.ch.draw(2)) {
        size_t cut = s.ch.draw(static_cast<uint32_t>(b.size()));
        b.resize(cut);
        s.put("/sim/a", b);
        count("fault.truncated_file");
        run1(s, [&] {
            size_t n = 0, whole = 0;
            while (whole < total && end_of(whole) <= cut) ++whole;
            bool ended = false;
            auto last_of_record = [&](size_t i) { return i + 1 == total || f.locate(i).first != f.locate(i + 1).first; };
            try {
                auto r = open_segd(f, "/sim/a");
                while (true) {
                    if (!lib([&] { return r->has_record(); }) && !lib([&] { return r->has_trace(); })) { ended = true; break; }
                    Trace t = lib([&] { return r->read_trace(); });
                    if (n >= whole) violate("wrong-trace: trace %zu returned from a file cut off before its end", n);
                    std::string d = diff_dtrace(t, f.trace(n));
                    if (!d.empty()) violate("wrong-trace: trace %zu of a cut off file: %s", n, d.c_str());
                    ++n;
                }
            } catch (std::exception& e) {
                s.note("  %s", e.what());
                // the headers of the next record are read together with the last trace of a record
                if (n < whole && !last_of_record(n)) violate("lost-trace: trace %zu lies wholly in the cut off file but reading it failed: %s", n, e.what());
            }
            if (ended) {
                size_t rec = n ? f.locate(n - 1).first : 0;
                size_t next = n && rec + 1 < f.rec.size() ? f.rec_start[rec + 1] : f.encode().size();
                if (!n || !last_of_record(n - 1) || cut > next)
                    violate("truncated: reading of a cut off file ended normally after %zu traces", n);
            }
        });
        return;
    }
    // damaged samples
    size_t k = s.ch.draw(static_cast<uint32_t>(total));
    size_t len = f.trace(k).raw.size(), at = end_of(k) - len;
    if (!len) return;
    for (uint32_t i = 1 + s.ch.draw(5); i; --i) {
        size_t q = at + s.ch.draw(static_cast<uint32_t>(len));
        b[q] = static_cast<char>(b[q] ^ (1 + s.ch.draw(255)));
    }
    s.put("/sim/a", b);
    count("fault.corrupt_trace");
    run1(s, [&] {
        auto r = open_segd(f, "/sim/a");
        for (size_t i = 0; i < total; ++i) {
            if (!lib([&] { return r->has_trace(); })) violate("truncated: corrupt samples end the file after %zu traces", i);
            Trace t = lib([&] { return r->read_trace(); });
            std::string d = i != k ? diff_dtrace(t, f.trace(i)) : "";
            if (!d.empty()) violate("wrong-trace: trace %zu next to a corrupt one: %s", i, d.c_str());
            if (t.samples().size() != f.trace(i).ns) violate("trace-samples: a corrupt trace has %zu samples instead of %u", t.samples().size(), f.trace(i).ns);
        }
        if (lib([&] { return r->has_trace(); }) || lib([&] { return r->has_record(); })) violate("has-trace: a trace or record is reported after the last");
    });
}
Register r11b("C11", "local-damage-segd", 1, c11_segd_local);
}
