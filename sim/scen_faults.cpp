// Faults, crashes and interleavings over every reader and writer.
#include "cases.hpp"
#include <algorithm>
#include <cerrno>

ReaderCase any_reader(Choices& ch, bool small) { return ch.draw(5) < 3 ? segy_reader_case(ch, small) : segd_reader_case(ch, small); }
WriterCase any_writer(Choices& ch, bool small, int min_tr, int max_tr) 
{
    return ch.draw(5) < 3 ? segy_writer_case(ch, small, min_tr, max_tr) : segd_writer_case(ch, small, min_tr, max_tr);
}

static bool is_alloc(Op o) { return o == Op::ALLOC || o == Op::ANY_ALLOC; }
struct OpCounts {
    uint64_t n[static_cast<int>(Op::COUNT)];
    uint64_t operator[](Op o) const { return n[static_cast<int>(o)]; }
};
static OpCounts counts(Sim& s)
{
    OpCounts c;
    for (int i = 0; i < static_cast<int>(Op::COUNT); ++i) c.n[i] = s.op_count[i];
    return c;
}

// lseek is not among the failing calls: on an open regular file it has no way to fail.

// ---------------------------------------------------------------- C07
// read to the end; every trace that is returned must be the right one
static void read_all(Sim& s, ReaderCase const& c, std::string const& path, uint32_t hdr_mask, bool faulty, bool& ended, size_t& got, uint32_t asides = 0)
{
    ended = false;
    got = 0;
    std::unique_ptr<IReader> r;
    int failures = 0;
    try {
        r = c.open(path);
    } catch (std::exception& e) {
        if (!faulty) violate("unexpected-exception: opening failed without a fault: %s", e.what());
        s.note("  open failed: %s", e.what());
        return;
    }
    size_t i = 0;
    while (true) {
        try {
            if (!r->has()) { ended = true; break; }
            if (asides && failures * 40 + i < 120 && Rng(asides + i * 31 + static_cast<size_t>(failures)).one_in(3)) {
                std::string d = r->aside(static_cast<uint32_t>(Rng(asides ^ (i * 77 + 5)).next()));
                if (!d.empty()) violate("wrong-value: %s: before trace %zu of %zu%s: %s differ from those stored", c.kind.c_str(), i, c.n,
                    failures ? " and after a failed call" : "", d.c_str());
            }
            if (i >= c.n && !faulty) violate("has-trace: a trace is reported after the last of %zu", c.n);
            std::string d = r->read(i, hdr_mask >> (i & 31) & 1);
            if (!d.empty()) violate("wrong-trace: %s: read of trace %zu of %zu%s returned wrong data: %s", c.kind.c_str(), i, c.n,
                failures ? " after a failed attempt" : "", d.c_str());
            ++i;
        } catch (std::exception& e) {
            if (!faulty) violate("unexpected-exception: reading trace %zu failed without a fault: %s", i, e.what());
            s.note("  trace %zu failed: %s", i, e.what());
            if (++failures > 3) break;
        }
    }
    got = i;
    if (ended && i != c.n) violate("truncated: %s: reading ended normally after %zu of %zu traces", c.kind.c_str(), i, c.n);
    try {
        r.reset();
    } catch (std::exception& e) {
        violate("unexpected-exception: closing a reader threw %s", e.what());
    }
}

static void c07_read_faults(Sim& s)
{
    ReaderCase c = any_reader(s.ch, s.ch.one_in(2));
    s.put("/sim/a", c.bytes);
    uint32_t mask = s.ch.one_in(2) ? s.ch.seed32() : 0;
    uint32_t asides = s.ch.one_in(2) ? s.ch.seed32() : 0;
    bool ended;
    size_t got;
    draw_benign(s);
    OpCounts k {};
    run1(s, [&] {
        s.reset_counts();
        read_all(s, c, "/sim/a", mask, false, ended, got, asides);
        k = counts(s);
        if (!ended) violate("truncated: fault-free reading did not finish");
        s.reset_counts();
        int nf = s.ch.range(1, 2);
        for (int i = 0; i < nf; ++i) {
            static Op const ops[] = { Op::READ, Op::READ, Op::READ, Op::ALLOC, Op::OPEN, Op::CLOSE, Op::ANY_ALLOC, Op::ANY_ALLOC };
            HardFault h;
            h.op = ops[s.ch.draw(8)];
            h.at = s.ch.draw(static_cast<uint32_t>(std::max<uint64_t>(1, k[h.op])));
            static int const errs[] = { EIO, ENOMEM, EBADF, ESTALE };
            h.err = is_alloc(h.op) ? 0 : h.op == Op::OPEN ? (s.ch.draw(2) ? EMFILE : EACCES) : errs[s.ch.draw(4)];
            h.sticky = s.ch.one_in(3);
            s.faults.hard.push_back(h);
        }
        read_all(s, c, "/sim/a", mask, true, ended, got, asides);
        s.mix(got * 2 + ended);
        count(ended ? "outcome.complete" : got ? "outcome.partial" : "outcome.nothing");
        s.faults.hard.clear();
        // with the fault gone, a new reader sees everything again
        read_all(s, c, "/sim/a", mask, false, ended, got, asides);
        if (!ended) violate("truncated: reading after the fault did not finish");
    });
}
static Register r07("C07", "read-faults", 1, c07_read_faults);

// ---------------------------------------------------------------- C08
static void c08_write_faults(Sim& s)
{
    WriterCase c = any_writer(s.ch, !s.ch.one_in(3), 0, 6);
    draw_benign(s);
    run1(s, [&] {
        s.reset_counts();
        {
            auto w = c.open("/sim/dry");
            for (size_t i = 0; i < c.n; ++i) w->write(i);
        }
        OpCounts k = counts(s);
        std::string full = s.get("/sim/dry");
        c.check(full, "file written without faults");
        s.reset_counts();
        bool sticky_only = true;
        if (s.ch.one_in(3)) {
            s.faults.capacity = s.ch.draw(static_cast<uint32_t>(full.size() + 1));
        } else {
            int nf = s.ch.range(1, 2);
            for (int i = 0; i < nf; ++i) {
                static Op const ops[] = { Op::WRITE, Op::WRITE, Op::WRITE, Op::ALLOC, Op::OPEN, Op::CLOSE, Op::ANY_ALLOC, Op::ANY_ALLOC };
                HardFault h;
                h.op = ops[s.ch.draw(8)];
                h.at = s.ch.draw(static_cast<uint32_t>(std::max<uint64_t>(1, k[h.op])));
                static int const errs[] = { EIO, ENOSPC, EDQUOT, EFBIG };
                h.err = is_alloc(h.op) ? 0 : h.op == Op::OPEN ? (s.ch.draw(2) ? EMFILE : EACCES) : errs[s.ch.draw(4)];
                h.sticky = !s.ch.one_in(3);
                if (h.op == Op::WRITE && s.ch.one_in(2)) h.partial = s.ch.range(1, 4000);
                if (h.op == Op::WRITE) sticky_only &= h.sticky;
                s.faults.hard.push_back(h);
            }
        }
        bool reported = false; // some call told the client
        bool stream_dead = false; // a call failed because of an I/O error
        std::string kept;         // what was stored when the first failure was reported
        bool have_kept = false;
        auto keep = [&] { if (!have_kept) { have_kept = true; kept = s.exists("/sim/out") ? s.get("/sim/out") : std::string(); } };
        size_t accepted = 0;
        std::vector<size_t> acc;
        std::unique_ptr<IWriter> w;
        uint64_t before = s.hard_fired, io_before = s.io_fired;
        auto io_fault = [&] { return s.io_fired != io_before; };
        try {
            w = c.open("/sim/out");
            if (io_fault()) violate("silent-error: %s: opening returned normally although the operating system reported an error on %s", c.kind.c_str(), op_name(s.last_hard));
        } catch (std::exception& e) {
            if (s.hard_fired == before) violate("unexpected-exception: opening failed without a fault: %s", e.what());
            s.note("  open failed: %s", e.what());
            reported = true;
        }
        if (w) {
            for (size_t i = 0; i < c.n; ++i) {
                before = s.hard_fired;
                io_before = s.io_fired;
                try {
                    w->write(i);
                    if (stream_dead) violate("write-after-error: %s: write of trace %zu returned normally after an earlier write failed with an I/O error", c.kind.c_str(), i);
                    if (io_fault()) violate("silent-error: %s: write of trace %zu returned normally although the operating system reported an error on %s", c.kind.c_str(), i, op_name(s.last_hard));
                    ++accepted;
                    acc.push_back(i);
                } catch (std::exception& e) {
                    s.note("  write of trace %zu failed: %s", i, e.what());
                    if (s.hard_fired == before && !stream_dead) violate("unexpected-exception: writing trace %zu failed without a fault: %s", i, e.what());
                    if (io_fault()) { stream_dead = true; keep(); }
                    reported = true;
                    if (!stream_dead) { // only memory ran out: the same trace can be written again
                        s.faults.hard.erase(std::remove_if(s.faults.hard.begin(), s.faults.hard.end(), [](HardFault const& h) { return is_alloc(h.op); }), s.faults.hard.end());
                        --i;
                    }
                }
            }
            before = s.hard_fired;
            io_before = s.io_fired;
            try {
                w.reset();
            } catch (std::exception& e) {
                violate("destructor-threw: %s", e.what());
            }
            if (io_fault() && !stream_dead) {
                reported = true;
                std::string now = s.get("/sim/out");
                if (now != full) violate_or_known(s, "lost-at-close", c.kind + ": an I/O error while the writer is being destroyed loses data that write calls had accepted, and nothing reports it");
            }
        }
        s.mix(accepted);
        count(reported ? "outcome.reported" : "outcome.unaffected");
        std::string now = s.get("/sim/out");
        if (!reported && now != full) violate("silent-loss: %s: every call returned normally, no error was seen, and the file differs from the complete one", c.kind.c_str());
        // what was stored when a failure was reported stays stored (counts in the file header may be brought up to date)
        size_t from = std::min<size_t>(c.header_end, full.size());
        if (have_kept && (now.size() < kept.size() || (kept.size() > from && now.compare(from, kept.size() - from, kept, from, std::string::npos))))
            violate("undone: %s: bytes that were stored before a write failed are gone or changed after the writer was destroyed", c.kind.c_str());
        if (sticky_only && (now.size() > full.size() || (now.size() > from && now.compare(from, std::string::npos, full, from, now.size() - from))))
            violate("not-a-prefix: %s: after a persistent failure the file is not the beginning of the complete one", c.kind.c_str());
        // what reached the disk never reads back as something that was not written
        if (sticky_only && reported) {
            s.faults = FaultConfig {};
            s.reset_counts();
            ReaderCase r = c.reader();
            r.n = c.n;
            try {
                auto rd = r.open("/sim/out");
                std::string h = rd->headers(0);
                if (!h.empty()) violate("wrong-header: %s: after a failed write the file reads back with other headers: %s", c.kind.c_str(), h.c_str());
                for (size_t i = 0;; ++i) {
                    if (!rd->has()) break;
                    std::string d = rd->read(i, false);
                    if (!d.empty()) violate("wrong-trace: %s: after a failed write the file reads back trace %zu with wrong data: %s", c.kind.c_str(), i, d.c_str());
                }
            } catch (std::exception& e) {
                s.note("  reading back: %s", e.what());
            }
        }
        // a fresh writer over the failed file is not affected by it
        s.faults = FaultConfig {};
        s.reset_counts();
        {
            auto w2 = c.open("/sim/out");
            for (size_t i = 0; i < c.n; ++i) w2->write(i);
        }
        if (s.get("/sim/out") != full) violate("restart: %s: rewriting the file after a failed attempt gives another file", c.kind.c_str());
    });
}
static Register r08("C08", "write-faults", 1, c08_write_faults);

// ---------------------------------------------------------------- C09
static void c09_crash(Sim& s)
{
    WriterCase c = any_writer(s.ch, !s.ch.one_in(3), 1, 8);
    draw_benign(s);
    run1(s, [&] {
        if (s.ch.one_in(3)) s.put("/sim/out", std::string(s.ch.draw(30000), 'x')); // an older file
        s.journaling = true;
        {
            auto w = c.open("/sim/out");
            for (size_t i = 0; i < c.n; ++i) {
                s.client_mark = i + 1;
                w->write(i);
            }
            s.client_mark = c.n + 1;
        }
        s.journaling = false;
        std::string full = s.get("/sim/out");
        c.check(full, "file written without a crash");
        s.faults = FaultConfig {};
        int points = s.ch.range(1, 6);
        std::set<size_t> whole; // sizes of files that end with a whole trace
        auto sizes = [&](size_t from, size_t to) {
            for (size_t i = from; i <= to && i <= c.n; ++i) {
                std::string b = c.prefix(i);
                if (!b.empty()) whole.insert(b.size());
            }
        };
        if (c.n <= 64) sizes(0, c.n);
        for (int p = 0; p < points; ++p) {
            size_t at = s.ch.draw(static_cast<uint32_t>(s.journal.size() + 1));
            size_t torn = at < s.journal.size() && !s.journal[at].data.empty() && s.ch.one_in(2) ? s.ch.draw(static_cast<uint32_t>(s.journal[at].data.size())) : 0;
            bool created = false;
            std::string img = Sim::image(s.journal, at, torn, "/sim/out", &created);
            if (!created) continue;
            count(torn ? "fault.crash.torn_write" : "fault.crash");
            s.note("crash before system call %zu of %zu (%zu bytes of it kept): %zu bytes on disk", at, s.journal.size(), torn, img.size());
            s.mix(at * 4099 + torn);
            s.put("/sim/crash", img);
            uint64_t mark = at < s.journal.size() ? s.journal[at].client_mark : c.n + 1;
            ReaderCase r = c.reader();
            size_t got = 0;
            bool told = false;
            uint32_t headers_only = s.ch.one_in(3) ? s.ch.seed32() : 0;
            try {
                auto rd = r.open("/sim/crash");
                std::string h = rd->headers(0);
                if (!h.empty()) violate("wrong-header: %s: after a crash the file reads back with other headers: %s", c.kind.c_str(), h.c_str());
                for (;; ++got) {
                    if (!rd->has()) break;
                    std::string d = rd->read(got, headers_only >> (got & 31) & 1);
                    if (!d.empty()) violate("wrong-trace: %s: after a crash the file reads back trace %zu with wrong data: %s", c.kind.c_str(), got, d.c_str());
                    if (got == 0 && !(h = rd->headers(1)).empty()) violate("wrong-header: %s: after a crash the file reads back a trace under other headers: %s", c.kind.c_str(), h.c_str());
                }
            } catch (std::exception& e) {
                s.note("  reading back: %s", e.what());
                told = true;
            }
            if (!told && c.n > 64) sizes(got ? got - 1 : 0, got + 1);
            if (!told && !whole.empty() && !whole.count(img.size()))
                violate("partial-trace: %s: a crash left part of a trace at the end of the file, and reading it ends without an error", c.kind.c_str());
            if (got > mark) violate("future-trace: %s: %zu traces read back, but the crash came while trace %zu was written", c.kind.c_str(), got, static_cast<size_t>(mark));
            count("recovered.traces", got);
            // restart: the writer starts over on the file that the crash left
            s.put("/sim/out", img);
            s.reset_counts();
            {
                auto w2 = c.open("/sim/out");
                for (size_t i = 0; i < c.n; ++i) w2->write(i);
            }
            if (s.get("/sim/out") != full) violate("restart: %s: rewriting the file after a crash gives another file", c.kind.c_str());
        }
    });
}
static Register r09("C09", "crash-restart", 1, c09_crash);

// ---------------------------------------------------------------- C10
namespace {
struct Job { bool rd; ReaderCase r; WriterCase w; std::string path; uint32_t mask, asides; };
void write_job(Sim& s, Job const& j)
{
    (void)s;
    {
        auto w = j.w.open(j.path);
        for (size_t i = 0; i < j.w.n; ++i) w->write(i);
    }
    j.w.check(g_sim->get(j.path), "file written next to other clients");
}
std::vector<Job> gen_jobs(Sim& s, size_t n)
{
    std::vector<Job> jobs;
    for (size_t i = 0; i < n; ++i) {
        Job j;
        j.rd = s.ch.draw(2) == 0;
        j.mask = s.ch.one_in(2) ? s.ch.seed32() : 0;
        j.asides = s.ch.one_in(3) ? s.ch.seed32() : 0;
        if (i && jobs[i - 1].rd && j.rd && s.ch.one_in(3)) {
            j.r = jobs[i - 1].r; // another reader of the same file
            j.path = jobs[i - 1].path;
        } else if (j.rd) {
            j.r = any_reader(s.ch, true);
            j.path = "/sim/r" + std::to_string(i);
            s.put(j.path, j.r.bytes);
        } else {
            j.w = any_writer(s.ch, true, 0, 5);
            j.path = "/sim/w" + std::to_string(i);
        }
        jobs.push_back(std::move(j));
    }
    return jobs;
}
// a writer that meets errors: what it leaves is its own business here
void failing_write_job(Sim& s, Job const& j)
{
    try {
        auto w = j.w.open(j.path);
        for (size_t i = 0; i < j.w.n; ++i) w->write(i);
    } catch (std::exception& e) {
        s.note("  %s: %s", j.path.c_str(), e.what());
    }
}
// clients with objects of their own, preempted anywhere
void c10_clients(Sim& s)
{
    draw_benign(s);
    auto jobs = gen_jobs(s, 2 + s.ch.draw(3));
    static uint32_t const sw[] = { 0, 2, 8 };
    static uint32_t const gaps[] = { 20000, 3000, 500, 60 };
    s.switch_in = sw[s.ch.draw(3)];
    s.func_gap = gaps[s.ch.draw(4)];
    s.func_countdown = s.ch.range(1, s.func_gap);
    // one of them may meet errors, the others go on as ever
    size_t victim = s.ch.one_in(3) ? s.ch.draw(static_cast<uint32_t>(jobs.size())) : jobs.size();
    if (victim < jobs.size()) {
        static Op const ops[] = { Op::READ, Op::WRITE, Op::ANY_ALLOC, Op::OPEN };
        HardFault h;
        h.fiber = static_cast<int>(victim);
        h.op = ops[s.ch.draw(4)];
        h.at = h.op == Op::OPEN ? 0 : s.ch.draw(h.op == Op::ANY_ALLOC ? 300 : 6);
        h.err = is_alloc(h.op) ? 0 : h.op == Op::OPEN ? EMFILE : EIO;
        h.sticky = s.ch.one_in(2);
        s.faults.hard.push_back(h);
    }
    std::vector<std::pair<std::string, std::function<void()>>> cl;
    for (size_t i = 0; i < jobs.size(); ++i)
        cl.push_back({ "client" + std::to_string(i), [&s, &jobs, i, victim] {
            bool ended;
            size_t got;
            Job const& j = jobs[i];
            if (i == victim) {
                if (j.rd) read_all(s, j.r, j.path, j.mask, true, ended, got, j.asides);
                else failing_write_job(s, j);
                return;
            }
            if (j.rd) read_all(s, j.r, j.path, j.mask, false, ended, got, j.asides);
            else write_job(s, j);
        } });
    s.run(cl);
}
Register r10("C10", "independent-clients", 3, c10_clients);

// one client that uses several objects in turns
void c10_turns(Sim& s)
{
    draw_benign(s);
    auto jobs = gen_jobs(s, 2 + s.ch.draw(3));
    run1(s, [&] {
        struct St { std::unique_ptr<IReader> r; std::unique_ptr<IWriter> w; size_t i = 0; bool done = false; };
        std::vector<St> st(jobs.size());
        size_t left = jobs.size();
        size_t victim = s.ch.one_in(3) ? s.ch.draw(static_cast<uint32_t>(jobs.size())) : jobs.size();
        while (left) {
            size_t k = s.ch.draw(static_cast<uint32_t>(jobs.size()));
            while (st[k].done) k = (k + 1) % jobs.size();
            Job& j = jobs[k];
            St& t = st[k];
            if (k == victim && s.ch.one_in(3)) {
                // this object meets an error and is left alone from then on; the others go on as ever
                HardFault h;
                h.op = s.ch.draw(2) ? Op::ANY_ALLOC : j.rd ? Op::READ : Op::WRITE;
                h.at = s.op_count[static_cast<int>(h.op)] + (h.op == Op::ANY_ALLOC ? s.ch.draw(40) : 0);
                h.err = h.op == Op::ANY_ALLOC ? 0 : EIO;
                h.sticky = true;
                s.faults.hard.push_back(h);
                try {
                    if (j.rd && !t.r) t.r = j.r.open(j.path);
                    else if (j.rd && t.r->has()) t.r->read(t.i++, false);
                    else if (!j.rd && !t.w) t.w = j.w.open(j.path);
                    else if (!j.rd && t.i < j.w.n) t.w->write(t.i++);
                } catch (std::exception& e) {
                    s.note("  %s: %s", j.path.c_str(), e.what());
                    t.done = true;
                    --left;
                }
                s.faults.hard.clear();
                continue;
            }
            if (j.rd) {
                if (!t.r) { t.r = j.r.open(j.path); continue; }
                if (!t.r->has()) {
                    if (t.i != j.r.n) violate("truncated: reading ended after %zu of %zu traces", t.i, j.r.n);
                    t.r.reset();
                    t.done = true;
                    --left;
                    continue;
                }
                if (j.asides && Rng(j.asides + t.i * 31).one_in(3)) {
                    std::string d = t.r->aside(static_cast<uint32_t>(Rng(j.asides ^ (t.i * 77 + 5)).next()));
                    if (!d.empty()) violate("wrong-value: %s: before trace %zu: %s differ from those stored", j.r.kind.c_str(), t.i, d.c_str());
                }
                std::string d = t.r->read(t.i, j.mask >> (t.i & 31) & 1);
                if (!d.empty()) violate("wrong-trace: %s: trace %zu read in turns with other objects: %s", j.r.kind.c_str(), t.i, d.c_str());
                ++t.i;
            } else {
                if (!t.w) { t.w = j.w.open(j.path); continue; }
                if (t.i == j.w.n) {
                    t.w.reset();
                    t.done = true;
                    --left;
                    j.w.check(s.get(j.path), "file written in turns with others");
                    continue;
                }
                t.w->write(t.i++);
            }
        }
    });
}
Register r10b("C10", "objects-in-turns", 1, c10_turns);
}
