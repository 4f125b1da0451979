#include "cases.hpp"
#include "segd.hpp"
using namespace sedaman;

namespace {
struct SegdR : IReader {
    std::shared_ptr<SegdFile const> f;
    std::unique_ptr<ISEGD> r;
    bool ok = true;
    bool nosy = true; // compare the headers of the records, too
    bool has() override { return lib([&] { return r->has_record(); }) || lib([&] { return r->has_trace(); }); }
    std::string read(size_t i, bool look) override
    {
        // after a failed call the headers may be those of a record that could not be read
        if (look && nosy && ok && i < f->size() && lib([&] { return r->has_trace(); })) {
            std::string d = diff_record(*r, f->rec[f->locate(i).first]);
            if (!d.empty()) return "headers of the record: " + d;
        }
        ok = false;
        Trace t = lib([&] { return r->read_trace(); });
        ok = true;
        return i < f->size() ? diff_dtrace(t, f->trace(i)) : "a trace past the last one";
    }
    std::string headers(size_t seen) override { return seen ? "" : diff_record(*r, f->rec[0]); } // they make way for the next record
    ~SegdR() override { lib([&] { r.reset(); }); }
};
struct SegdW : IWriter {
    std::shared_ptr<SegdFile const> f;
    std::unique_ptr<OSEGD> w;
    void write(size_t i) override
    {
        Trace t = to_trace(f->rec[0].tr[i]);
        lib([&] { w->write_trace(t); });
    }
    ~SegdW() override { lib([&] { w.reset(); }); }
};
ReaderCase make_reader(std::shared_ptr<SegdFile const> f, bool headers)
{
    ReaderCase c;
    c.kind = "segd";
    c.n = f->size();
    c.open = [f, headers](std::string const& path) -> std::unique_ptr<IReader> {
        auto r = std::make_unique<SegdR>();
        r->f = f;
        r->nosy = headers;
        r->r = open_segd(*f, path);
        if (headers) {
            std::string d = diff_record(*r->r, f->rec[0]);
            if (!d.empty()) violate("record-header: %s of the first record differs from that stored", d.c_str());
        }
        return r;
    };
    return c;
}
}

ReaderCase segd_reader_case(Choices& ch, bool small)
{
    SegdGen o;
    o.small = small;
    o.max_tr = 5;
    o.max_rec = 3;
    auto f = std::make_shared<SegdFile>(gen_segd(ch, o));
    ReaderCase c = make_reader(f, true);
    c.bytes = f->encode();
    return c;
}

WriterCase segd_writer_case(Choices& ch, bool small, int min_tr, int max_tr)
{
    SegdGen o;
    o.small = small;
    o.for_write = true;
    o.min_tr = std::max(1, min_tr);
    o.max_tr = max_tr;
    auto f = std::make_shared<SegdFile>(gen_segd(ch, o));
    for (auto& t : f->rec[0].tr) make_exact(f->rec[0], t);
    WriterCase c;
    c.kind = "segd-rev" + std::to_string(f->rec[0].rev);
    c.n = f->size();
    uint32_t order = ch.seed32();
    c.open = [f, order](std::string const& path) -> std::unique_ptr<IWriter> {
        auto w = std::make_unique<SegdW>();
        w->f = f;
        w->w = open_segd_writer(*f, path, order);
        return w;
    };
    c.check = [f](std::string const& got, char const* what) { SegdFile g = *f; compare_segd(g, got, what); };
    c.prefix = [f](size_t k) {
        SegdFile g = *f;
        g.rec[0].tr.resize(k);
        return g.encode();
    };
    c.reader = [f] {
        ReaderCase r = make_reader(f, false);
        return r;
    };
    return c;
}
