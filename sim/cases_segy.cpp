#include "cases.hpp"
#include "segy.hpp"
#include "ISEGYSorted1D.hpp"
#include <algorithm>
using namespace sedaman;

namespace {
struct SegyR : IReader {
    std::shared_ptr<SegyFile const> f;
    std::vector<size_t> order;
    std::unique_ptr<ISEGY> r;
    ISEGYSorted1D* sorted = nullptr;
    std::string key, path;
    bool whole = false; // the file is known to be complete
    bool has() override { return lib([&] { return r->has_trace(); }); }
    std::string read(size_t i, bool header_only) override
    {
        if (header_only) {
            Trace::Header h = lib([&] { return r->read_header(); });
            return i < order.size() ? diff_header(h, f->tr[order[i]]) : "a header past the last trace";
        }
        Trace t = lib([&] { return r->read_trace(); });
        return i < order.size() ? diff_trace(t, f->tr[order[i]]) : "a trace past the last one";
    }
    std::string aside(uint32_t pick) override
    {
        if (!whole) return "";
        if (sorted && pick % 4 < 3 && !order.empty()) {
            Scalar const& v = f->tr[order[pick / 4 % order.size()]].vals.at(key);
            auto same = [&](size_t i) { Scalar const& x = f->tr[i].vals.at(key); return x.is_double ? x.d == v.d : x.i == v.i; };
            std::vector<size_t> g;
            for (size_t i : order)
                if (same(i)) g.push_back(i);
            if (pick % 4 == 0) {
                auto h = lib([&] { return sorted->get_headers(to_val(v)); });
                if (h.size() != g.size()) return "number of headers of a key";
                for (size_t i = 0; i < g.size(); ++i) {
                    std::string d = diff_header(h[i], f->tr[g[i]]);
                    if (!d.empty()) return "headers of a key: " + d;
                }
            } else if (pick % 4 == 1) {
                auto t = lib([&] { return sorted->get_traces(to_val(v)); });
                if (t.size() != g.size()) return "number of traces of a key";
                for (size_t i = 0; i < g.size(); ++i) {
                    std::string d = diff_trace(t[i], f->tr[g[i]]);
                    if (!d.empty()) return "traces of a key: " + d;
                }
            } else {
                auto k = lib([&] { return sorted->get_keys(); });
                size_t at = 0;
                for (size_t i = 0; i < order.size(); ++i) {
                    Scalar const& x = f->tr[order[i]].vals.at(key);
                    if (i) {
                        Scalar const& y = f->tr[order[i - 1]].vals.at(key);
                        if (x.is_double ? x.d == y.d : x.i == y.i) continue;
                    }
                    if (at >= k.size() || !(k[at] == to_val(x))) return "list of keys";
                    ++at;
                }
                if (at != k.size()) return "list of keys";
            }
            return "";
        }
        switch (pick / 4 % (f->default_layout ? 4 : 3)) {
        case 0: compare_bin_header(lib([&] { return r->binary_header(); }), f->bh, "binary header"); break;
        case 1: if (lib([&] { return r->text_headers(); }) != f->text) return "text headers"; if (pick & 64) client_text(f->text); break;
        case 2: if (lib([&] { return r->trailer_stanzas(); }) != f->stanzas) return "trailer stanzas"; break;
        default: compare_bin_header(lib([&] { return ISEGY::read_binary_header(path); }), f->bh, "binary header read by itself");
        }
        return "";
    }
    bool late = false; // number and interval of samples are filled in with the first trace
    std::string headers(size_t seen) override
    {
        if (lib([&] { return r->text_headers(); }) != f->text) return "text headers";
        BinHdr b = lib([&] { return r->binary_header(); });
        if (late && !seen) { // perhaps just being filled in
            b.samp_per_tr = f->bh.samp_per_tr;
            b.samp_int = f->bh.samp_int;
        }
        compare_bin_header(b, f->bh, "binary header left by a writer");
        return "";
    }
    ~SegyR() override { lib([&] { r.reset(); }); }
};
struct SegyW : IWriter {
    std::shared_ptr<WritePlan const> p;
    std::unique_ptr<OSEGY> w;
    void write(size_t i) override
    {
        Trace t = to_trace(p->f, p->f.tr[i]);
        lib([&] { w->write_trace(t); });
    }
    ~SegyW() override { lib([&] { w.reset(); }); }
};
}

std::string sort_key(Choices& ch, SegyFile& f)
{
    // the field to sort by: any field a reader reports and that is not needed otherwise
    std::vector<std::pair<std::string, VT>> names;
    for (size_t b = 0; b < f.layout.size() && b <= static_cast<size_t>(f.nadd); ++b)
        for (auto& x : f.layout[b].f) names.push_back({ x.name, x.type });
    if (names.empty()) return "";
    std::string key = names[ch.draw(names.size())].first;
    if (key == "SAMP_NUM" && !f.fixed) return key;
    uint32_t distinct = 1 + (ch.one_in(4) ? ch.draw(f.tr.size() > 60 && ch.one_in(2) ? 400 : 60) : ch.draw(5));
    bool neg = ch.one_in(2);
    if (ch.one_in(2)) {
        // far apart, next to each other, fractions
        std::vector<Scalar> pal;
        Rng g(ch.seed32());
        for (uint32_t i = 0; i < distinct; ++i) {
            Scalar v;
            static int const at[] = { 7, 8, 15, 16, 23, 24, 31, 32, 53, 62 };
            switch (g.below(4)) {
            case 0: v.i = rand_int(g, 1 << g.below(4), true); break;
            case 1: v.i = (int64_t(1) << at[g.below(10)]) + static_cast<int64_t>(g.below(5)) - 2; break;
            case 2: v.i = -(int64_t(1) << at[g.below(10)]) + static_cast<int64_t>(g.below(5)) - 2; break;
            default:
                v.is_double = true;
                v.d = (static_cast<double>(g.below(4001)) - 2000) / 1024;
            }
            pal.push_back(v);
        }
        for (auto& t : f.tr) put_field(f, t, key, pal[ch.draw(distinct)]);
        return key;
    }
    for (auto& t : f.tr) put_field(f, t, key, static_cast<int64_t>(ch.draw(distinct)) - (neg ? 2 : 0));
    return key;
}
std::vector<size_t> sorted_order(SegyFile const& f, std::string const& key)
{
    std::vector<size_t> o(f.tr.size());
    for (size_t i = 0; i < o.size(); ++i) o[i] = i;
    std::stable_sort(o.begin(), o.end(), [&](size_t a, size_t b) {
        Scalar const &x = f.tr[a].vals.at(key), &y = f.tr[b].vals.at(key);
        return x.is_double ? x.d < y.d : x.i < y.i;
    });
    return o;
}

static ReaderCase make_reader(std::shared_ptr<SegyFile const> f, std::string key)
{
    ReaderCase c;
    c.kind = key.empty() ? "segy" : "segy-sorted";
    c.n = f->tr.size();
    c.open = [f, key](std::string const& path) -> std::unique_ptr<IReader> {
        auto r = std::make_unique<SegyR>();
        r->f = f;
        r->key = key;
        r->path = path;
        LibLayout l = to_lib(f->layout);
        if (key.empty()) {
            for (size_t i = 0; i < f->tr.size(); ++i) r->order.push_back(i);
            r->r = f->default_layout ? lib([&] { return std::make_unique<ISEGY>(path); })
                                     : lib([&] { return std::make_unique<ISEGY>(path, l); });
        } else {
            r->order = sorted_order(*f, key);
            r->r = f->default_layout ? lib([&] { return std::make_unique<ISEGYSorted1D>(path, key); })
                                     : lib([&] { return std::make_unique<ISEGYSorted1D>(path, key, l); });
            r->sorted = static_cast<ISEGYSorted1D*>(r->r.get());
        }
        return r;
    };
    return c;
}

ReaderCase segy_reader_case(Choices& ch, bool small)
{
    SegyGen o;
    o.small = small;
    o.allow_hole = false;
    o.max_tr = 6;
    auto f = std::make_shared<SegyFile>(gen_segy(ch, o));
    std::string key;
    if (!f->tr.empty() && ch.one_in(4)) key = sort_key(ch, *f);
    ReaderCase c = make_reader(f, key);
    c.bytes = f->encode();
    auto inner = c.open;
    c.open = [f, inner](std::string const& path) {
        auto r = inner(path);
        static_cast<SegyR&>(*r).whole = true;
        ISEGY& g = *static_cast<SegyR&>(*r).r;
        compare_bin_header(lib([&] { return g.binary_header(); }), f->bh, "binary header");
        if (lib([&] { return g.text_headers(); }) != f->text) violate("text-header: text headers differ from those stored");
        if (lib([&] { return g.trailer_stanzas(); }) != f->stanzas) violate("trailer-stanza: trailer stanzas differ from those stored");
        return r;
    };
    return c;
}

WriterCase segy_writer_case(Choices& ch, bool small, int min_tr, int max_tr)
{
    auto p = std::make_shared<WritePlan>(gen_write_plan(ch, small, min_tr, max_tr));
    for (auto& t : p->f.tr)
        if (t.loose) { // only exactly representable values here
            t.loose = false;
            for (size_t i = 0; i < t.smp.size(); ++i) t.smp[i] = decode_sample(p->f.bh.format_code, &t.raw[i * p->f.bps()], p->f.le);
        }
    // readers see the zeros that complete a short trace
    auto seen = std::make_shared<SegyFile>(p->f);
    for (auto& t : seen->tr) t.smp.resize(t.ns);
    WriterCase c;
    c.kind = "segy-rev" + std::to_string(p->f.rev);
    c.n = p->f.tr.size();
    c.header_end = 3600;
    c.open = [p](std::string const& path) -> std::unique_ptr<IWriter> {
        auto w = std::make_unique<SegyW>();
        w->p = p;
        w->w = open_writer(*p, path);
        return w;
    };
    c.check = [p](std::string const& got, char const* what) { compare_file(p->f, got, what); };
    c.prefix = [p](size_t k) {
        SegyFile f = p->f;
        if (!f.stanzas.empty()) return std::string(); // announced from the start, and what is there is taken for them
        f.tr.resize(k);
        return f.encode();
    };
    bool late = p->empty_bh;
    c.reader = [seen, late] {
        ReaderCase r = make_reader(seen, "");
        auto inner = r.open;
        r.open = [inner, late](std::string const& path) {
            auto x = inner(path);
            static_cast<SegyR&>(*x).late = late;
            return x;
        };
        return r;
    };
    return c;
}
