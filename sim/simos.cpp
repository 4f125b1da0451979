#include "simos.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <exception>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <new>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
Sim* g_sim = nullptr;
std::map<std::string, uint64_t> g_count;

static constexpr int FD_BASE = 1 << 20;

void violate(char const* fmt, ...)
{
    char b[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    throw Violation { b };
}

char const* op_name(Op o)
{
    static char const* n[] = { "read", "write", "lseek", "open", "close", "stat", "alloc", "small_alloc" };
    return n[static_cast<int>(o)];
}

// ------------------------------------------------------------------ Sim
Sim::Sim(Choices& c) : ch(c)
{
    sem_init(&back, 0, 0);
    g_sim = this;
}
Sim::~Sim() { g_sim = nullptr; }

void Inode::read(char* buf, uint64_t off, size_t n) const
{
    // the file is data[0, h0), hole, data[h0, h1), hole, ...
    uint64_t pos = 0, from = 0; // of the current piece: in the file, in data
    auto take = [&](uint64_t len, char const* src) {
        if (n && off < pos + len) {
            uint64_t skip = off - pos;
            size_t k = std::min<uint64_t>(n, len - skip);
            if (src) memcpy(buf, src + skip, k);
            else memset(buf, 0, k);
            buf += k;
            off += k;
            n -= k;
        }
        pos += len;
    };
    for (auto& h : holes) {
        take(h.first - from, data.data() + from);
        from = h.first;
        take(h.second, nullptr);
    }
    take(data.size() - from, data.data() + from);
}
void Sim::put(std::string const& p, std::string const& b, Holes holes)
{
    auto i = std::make_shared<Inode>();
    i->holes = std::move(holes);
    i->data.assign(b.begin(), b.end());
    files[p] = i;
}
std::string Sim::get(std::string const& p) const
{
    auto it = files.find(p);
    return it == files.end() ? std::string() : std::string(it->second->data.begin(), it->second->data.end());
}
std::string Sim::image(std::vector<JournalEntry> const& j, size_t upto, size_t torn,
                       std::string const& path, bool* created)
{
    std::string r;
    if (created) *created = false;
    for (size_t i = 0; i < j.size() && i <= upto; ++i) {
        if (j[i].path != path) continue;
        size_t n = i < upto ? j[i].data.size() : std::min(torn, j[i].data.size());
        if (j[i].kind == JournalEntry::CREATE) {
            if (i == upto) continue;
            r.clear();
            if (created) *created = true;
            continue;
        }
        if (!n) continue;
        if (r.size() < j[i].off + n) r.resize(j[i].off + n, '\0');
        r.replace(j[i].off, n, j[i].data, 0, n);
    }
    return r;
}
void Sim::reset_counts()
{
    for (auto& c : op_count) c = 0;
    for (auto& f : fibers)
        for (auto& c : f->op_count) c = 0;
    hard_fired = io_fired = 0;
    write_failed = false;
    last_hard = Op::COUNT;
}
void Sim::note(char const* fmt, ...)
{
    if (!verbose || log.size() > (256u << 10)) return;
    char b[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    log += b;
    log += '\n';
}

thread_local Fiber* t_self = nullptr;
static void* fiber_main(void* p)
{
    Fiber* f = static_cast<Fiber*>(p);
    t_self = f;
    while (sem_wait(&f->go)) { }
    try {
        f->fn();
    } catch (Violation& v) {
        if (g_sim->failure.empty()) g_sim->failure = v.what;
    } catch (std::exception& e) {
        if (g_sim->failure.empty())
            g_sim->failure = "unexpected-exception: client " + f->name + ": " + e.what();
    } catch (...) {
        if (g_sim->failure.empty())
            g_sim->failure = "unexpected-exception: client " + f->name + ": not derived from std::exception";
    }
    f->fn = nullptr;
    f->done = true;
    g_sim->cur = nullptr;
    t_self = nullptr; // what runs while the thread ends is not preempted
    sem_post(&g_sim->back);
    return nullptr;
}

// called by the running client: hand the baton back and wait to be scheduled again
void Sim::to_main()
{
    Fiber* f = cur;
    cur = nullptr;
    sem_post(&back);
    while (sem_wait(&f->go)) { }
}

// called by the scheduler: let a client run until it hands the baton back
void Sim::switch_to(Fiber* f)
{
    cur = f;
    sem_post(&f->go);
    while (sem_wait(&back)) { }
    if (f->done) { // its thread-local objects are gone before anyone else runs
        pthread_join(f->th, nullptr);
        f->joined = true;
    }
}

// the running client cannot go on: record why and park it for good
void Sim::abandon(std::string why)
{
    if (failure.empty()) failure = std::move(why);
    abandoned = true;
    cur->stuck = true;
    to_main();
    _exit(3);
}

static void on_terminate()
{
    std::string what = "terminate: std::terminate called inside a library call";
    try {
        if (auto e = std::current_exception()) std::rethrow_exception(e);
    } catch (std::exception& e) {
        what += std::string(" with ") + e.what();
    } catch (...) {
    }
    if (g_sim && g_sim->cur && g_sim->cur == t_self) g_sim->abandon(what);
    fprintf(stderr, "%s\n", what.c_str());
    _exit(3);
}

void Sim::run(std::vector<std::pair<std::string, std::function<void()>>> clients)
{
    std::set_terminate(on_terminate);
    fibers.clear();
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    for (auto& c : clients) {
        auto f = std::make_unique<Fiber>();
        f->name = c.first;
        f->index = static_cast<int>(fibers.size());
        f->fn = std::move(c.second);
        sem_init(&f->go, 0, 0);
        if (pthread_create(&f->th, &at, fiber_main, f.get())) { perror("pthread_create"); _exit(3); }
        f->started = true;
        fibers.push_back(std::move(f));
    }
    pthread_attr_destroy(&at);
    for (;;) {
        std::vector<Fiber*> ready;
        for (auto& f : fibers)
            if (!f->done) ready.push_back(f.get());
        if (ready.empty()) break;
        Fiber* f = ready[ch.draw(ready.size())];
        ++switches;
        sched_hash = (sched_hash ^ static_cast<uint64_t>(f->index + 1) ^ (steps << 8)) * 1099511628211ULL;
        if (fibers.size() > 1) note("schedule -> %s", f->name.c_str());
        switch_to(f);
        if (!failure.empty()) break;
    }
    if (!failure.empty()) throw Violation { failure }; // parked clients stay parked; the process ends soon
    for (auto& f : fibers)
        if (!f->joined) pthread_join(f->th, nullptr);
    fibers.clear();
}

void Sim::yield_point()
{
    if (!in_lib() || !switch_in || cur->locked) return;
    if (fibers.size() < 2) return;
    {
        Internal g;
        if (!ch.one_in(switch_in)) return;
    }
    size_t ready = 0;
    for (auto& f : fibers) ready += !f->done;
    if (ready > 1) to_main();
}

void Sim::func_hook()
{
    if (func_countdown < 0 || internal || !in_lib() || cur->locked) return;
    if (func_countdown-- > 0) return;
    {
        Internal g;
        func_countdown = ch.range(1, func_gap);
    }
    size_t ready = 0;
    for (auto& f : fibers) ready += !f->done;
    if (ready > 1) to_main();
}

HardFault* Sim::peek(Op op)
{
    if (!in_lib()) return nullptr;
    auto idx = [&](HardFault const& h) { return h.fiber < 0 ? op_count[static_cast<int>(op)] : h.fiber == cur->index ? cur->op_count[static_cast<int>(op)] : UINT64_MAX; };
    for (auto& h : faults.hard)
        if (h.op == op && h.sticky && idx(h) != UINT64_MAX && idx(h) > h.at) return &h; // a lasting fault leaves no room for another
    for (auto& h : faults.hard)
        if (h.op == op && h.at == idx(h)) return &h;
    return nullptr;
}
HardFault* Sim::hard_due(Op op)
{
    if (!in_lib()) return nullptr;
    uint64_t all = op_count[static_cast<int>(op)]++, own = cur->op_count[static_cast<int>(op)]++;
    for (auto& h : faults.hard) {
        if (h.fiber >= 0 && h.fiber != cur->index) continue;
        uint64_t idx = h.fiber < 0 ? all : own;
        if (h.op == op && (h.at == idx || (h.sticky && idx > h.at))) {
            ++hard_fired;
            if (op != Op::ALLOC && op != Op::ANY_ALLOC) ++io_fired;
            last_hard = op;
            if (op == Op::WRITE) write_failed = true;
            count(std::string("fault.") + op_name(op) + (h.err ? std::string(".") + strerrorname_np(h.err) : std::string(".nomem")) + (h.sticky ? ".sticky" : ""));
            note("  FAULT %s #%lu -> %s%s", op_name(op), (unsigned long)idx, h.err ? strerrorname_np(h.err) : "bad_alloc", h.sticky ? " (sticky)" : "");
            mix(0xfa017 + static_cast<int>(op) * 131 + h.err);
            return &h;
        }
    }
    return nullptr;
}

static void enter(Sim& s, Op op)
{
    ++s.steps;
    if (s.in_lib()) {
        if (++s.cur->lib_steps > s.max_lib_steps)
            s.abandon("no-progress: a library call did not finish within " + std::to_string(s.max_lib_steps) + " simulated I/O steps");
        (void)op;
        s.yield_point();
    }
}

static OpenFile* sim_fd(int fd)
{
    if (fd < FD_BASE || !g_sim) return nullptr;
    auto it = g_sim->fds.find(fd);
    return it == g_sim->fds.end() ? nullptr : &it->second;
}
static bool sim_path(char const* p) { return g_sim && p && !strncmp(p, "/sim/", 5); }

static ssize_t sim_read_at(OpenFile* of, void* buf, size_t n, int64_t* off)
{
    Sim& s = *g_sim;
    enter(s, Op::READ);
    Internal guard;
    if (!of->rd) { errno = EBADF; return -1; }
    if (auto* h = s.hard_due(Op::READ)) { errno = h->err; return -1; }
    if (s.faults.eintr && s.in_lib() && s.ch.one_in(s.faults.eintr)) {
        count("fault.read.EINTR"); s.mix(4); s.note("  read EINTR"); errno = EINTR; return -1;
    }
    size_t total = of->ino->size();
    size_t avail = *off < static_cast<int64_t>(total) ? total - *off : 0;
    size_t m = std::min(n, avail);
    if (m > 1 && s.faults.short_read && s.in_lib() && s.ch.one_in(s.faults.short_read)) {
        m = 1 + s.ch.draw(std::min<size_t>(m - 1, 4096));
        count("fault.read.short");
    }
    if (m) of->ino->read(static_cast<char*>(buf), *off, m);
    *off += m;
    s.mix(m * 7 + 1);
    s.note("  [%s] read(%s, %zu) @%ld = %zu", s.cur ? s.cur->name.c_str() : "-", of->path.c_str(), n, (long)(*off - (int64_t)m), m);
    return m;
}
static ssize_t sim_write_at(OpenFile* of, void const* buf, size_t n, int64_t* off)
{
    Sim& s = *g_sim;
    enter(s, Op::WRITE);
    Internal guard;
    if (!of->wr) { errno = EBADF; return -1; }
    if (!n) return 0;
    auto* pk = s.peek(Op::WRITE);
    if (pk && pk->partial && pk->partial < n && !s.write_failed) {
        // a short transfer first, the error on the next attempt
        n = pk->partial;
        pk->partial = 0;
        pk->at += 1;
        ++s.op_count[static_cast<int>(Op::WRITE)];
        if (s.cur) ++s.cur->op_count[static_cast<int>(Op::WRITE)];
        count("fault.write.torn");
    } else if (auto* h = s.hard_due(Op::WRITE)) { errno = h->err; return -1; }
    if (s.faults.eintr && s.in_lib() && s.ch.one_in(s.faults.eintr)) {
        count("fault.write.EINTR"); s.mix(5); s.note("  write EINTR"); errno = EINTR; return -1;
    }
    if (n > 1 && s.faults.short_write && s.in_lib() && s.ch.one_in(s.faults.short_write)) {
        n = 1 + s.ch.draw(std::min<size_t>(n - 1, 4096));
        count("fault.write.short");
    }
    if (s.faults.capacity >= 0 && s.in_lib()) {
        int64_t grow = *off + static_cast<int64_t>(n) - static_cast<int64_t>(of->ino->data.size());
        if (grow > 0 && grow > s.faults.capacity) {
            int64_t fit = static_cast<int64_t>(n) - (grow - s.faults.capacity);
            if (fit <= 0) {
                ++s.hard_fired; ++s.io_fired; s.last_hard = Op::WRITE;
                count("fault.write.ENOSPC"); s.mix(28); s.note("  FAULT write -> ENOSPC"); errno = ENOSPC; return -1;
            }
            n = fit;
            grow = s.faults.capacity;
        }
        if (grow > 0) s.faults.capacity -= grow;
    }
    auto& d = of->ino->data;
    if (of->append) *off = d.size();
    if (d.size() < *off + n) d.resize(*off + n, 0);
    memcpy(d.data() + *off, buf, n);
    if (s.journaling)
        s.journal.push_back({ JournalEntry::WRITE, of->path, static_cast<size_t>(*off), std::string(static_cast<char const*>(buf), n), s.client_mark });
    *off += n;
    s.mix(n * 7 + 2);
    s.note("  [%s] write(%s, %zu) @%ld", s.cur ? s.cur->name.c_str() : "-", of->path.c_str(), n, (long)(*off - (int64_t)n));
    return n;
}
static int64_t sim_seek(OpenFile* of, int64_t off, int wh)
{
    Sim& s = *g_sim;
    enter(s, Op::LSEEK);
    Internal guard;
    if (auto* h = s.hard_due(Op::LSEEK)) { errno = h->err; return -1; }
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? of->off : static_cast<int64_t>(of->ino->size());
    int64_t t;
    if (__builtin_add_overflow(base, off, &t) || t < 0) { errno = EINVAL; return -1; }
    of->off = t;
    s.mix(t * 7 + 3);
    s.note("  [%s] lseek(%s, %ld, %d) = %ld", s.cur ? s.cur->name.c_str() : "-", of->path.c_str(), (long)off, wh, (long)t);
    return t;
}
static int sim_open(char const* path, bool rd, bool wr, bool creat, bool trunc, bool append)
{
    Sim& s = *g_sim;
    enter(s, Op::OPEN);
    Internal guard;
    if (auto* h = s.hard_due(Op::OPEN)) { errno = h->err; return -1; }
    auto it = s.files.find(path);
    if (it == s.files.end()) {
        if (!creat) { errno = ENOENT; return -1; }
        s.files[path] = std::make_shared<Inode>();
        it = s.files.find(path);
        if (s.journaling) s.journal.push_back({ JournalEntry::CREATE, path, 0, "", s.client_mark });
    } else if (trunc) {
        it->second->data.clear();
        if (s.journaling) s.journal.push_back({ JournalEntry::CREATE, path, 0, "", s.client_mark });
    }
    int fd = FD_BASE;
    while (s.fds.count(fd)) ++fd;
    OpenFile of;
    of.ino = it->second;
    of.path = path;
    of.rd = rd; of.wr = wr; of.append = append;
    s.fds.emplace(fd, std::move(of));
    s.mix(0x0f3e);
    s.note("  [%s] open(%s) %s%s", s.cur ? s.cur->name.c_str() : "-", path, rd ? "r" : "", wr ? "w" : "");
    return fd;
}
static int sim_close(int fd)
{
    Sim& s = *g_sim;
    enter(s, Op::CLOSE);
    Internal guard;
    int rc = 0;
    if (auto* h = s.hard_due(Op::CLOSE)) { errno = h->err; rc = -1; }
    s.note("  [%s] close(%s)", s.cur ? s.cur->name.c_str() : "-", s.fds[fd].path.c_str());
    s.fds.erase(fd);
    return rc;
}
static void sim_stat(Inode const& i, struct stat* st)
{
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644;
    st->st_nlink = 1;
    st->st_size = i.size();
    st->st_blksize = 4096;
    st->st_blocks = (i.size() + 511) / 512;
}

// ------------------------------------------------------------------ libc seam
template <class F> static F real(char const* n)
{
    void* p = dlsym(RTLD_NEXT, n);
    if (!p) { fprintf(stderr, "no symbol %s\n", n); _exit(3); }
    return reinterpret_cast<F>(p);
}
#define REAL(n) static auto r = real<decltype(&::n)>(#n)

static std::map<FILE*, int>& fps() { static std::map<FILE*, int> m; return m; }
static ssize_t ck_read(void* c, char* b, size_t n)
{
    auto* of = sim_fd(static_cast<int>(reinterpret_cast<intptr_t>(c)));
    return of ? sim_read_at(of, b, n, &of->off) : -1;
}
static ssize_t ck_write(void* c, char const* b, size_t n)
{
    auto* of = sim_fd(static_cast<int>(reinterpret_cast<intptr_t>(c)));
    ssize_t k = of ? sim_write_at(of, b, n, &of->off) : -1;
    return k < 0 ? 0 : k;
}
static int ck_seek(void* c, off64_t* o, int w)
{
    auto* of = sim_fd(static_cast<int>(reinterpret_cast<intptr_t>(c)));
    if (!of) return -1;
    int64_t t = sim_seek(of, *o, w);
    if (t < 0) return -1;
    *o = t;
    return 0;
}
static FILE* sim_fopen(char const* path, char const* m)
{
    bool plus = strchr(m, '+');
    bool rd = m[0] == 'r' || plus, wr = m[0] != 'r' || plus;
    int fd = sim_open(path, rd, wr, m[0] != 'r', m[0] == 'w', m[0] == 'a');
    if (fd < 0) return nullptr;
    Internal guard;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, nullptr };
    FILE* f = fopencookie(reinterpret_cast<void*>(static_cast<intptr_t>(fd)), m, io);
    g_sim->fds[fd].fp = f;
    fps()[f] = fd;
    return f;
}

extern "C" {
FILE* fopen(char const* p, char const* m)
{
    REAL(fopen);
    return sim_path(p) ? sim_fopen(p, m) : r(p, m);
}
FILE* fopen64(char const* p, char const* m)
{
    REAL(fopen64);
    return sim_path(p) ? sim_fopen(p, m) : r(p, m);
}
int fileno(FILE* f)
{
    REAL(fileno);
    if (!fps().empty()) {
        auto it = fps().find(f);
        if (it != fps().end()) return it->second;
    }
    return r(f);
}
int fclose(FILE* f)
{
    REAL(fclose);
    auto it = fps().find(f);
    if (it == fps().end()) return r(f);
    int fd = it->second, rc = r(f);
    fps().erase(f);
    if (sim_fd(fd) && sim_close(fd)) rc = EOF;
    return rc;
}
int open(char const* p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (sim_path(p)) {
        int acc = fl & O_ACCMODE;
        return sim_open(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND);
    }
    static auto r = real<int (*)(char const*, int, ...)>("open");
    return r(p, fl, mode);
}
int open64(char const* p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    return open(p, fl, mode);
}
int close(int fd)
{
    REAL(close);
    return sim_fd(fd) ? sim_close(fd) : r(fd);
}
ssize_t read(int fd, void* b, size_t n)
{
    REAL(read);
    if (auto* of = sim_fd(fd)) return sim_read_at(of, b, n, &of->off);
    return r(fd, b, n);
}
ssize_t write(int fd, void const* b, size_t n)
{
    REAL(write);
    if (auto* of = sim_fd(fd)) return sim_write_at(of, b, n, &of->off);
    return r(fd, b, n);
}
ssize_t pread(int fd, void* b, size_t n, off_t o)
{
    REAL(pread);
    if (auto* of = sim_fd(fd)) { int64_t off = o; return sim_read_at(of, b, n, &off); }
    return r(fd, b, n, o);
}
ssize_t pwrite(int fd, void const* b, size_t n, off_t o)
{
    REAL(pwrite);
    if (auto* of = sim_fd(fd)) { int64_t off = o; return sim_write_at(of, b, n, &off); }
    return r(fd, b, n, o);
}
ssize_t readv(int fd, struct iovec const* v, int c)
{
    REAL(readv);
    auto* of = sim_fd(fd);
    if (!of) return r(fd, v, c);
    struct Save { bool o = g_sim->internal; ~Save() { g_sim->internal = o; } } save;
    g_sim->internal = true;
    std::string tmp;
    size_t n = 0;
    for (int i = 0; i < c; ++i) n += v[i].iov_len;
    tmp.resize(n);
    g_sim->internal = save.o;
    ssize_t k = sim_read_at(of, &tmp[0], n, &of->off);
    size_t done = 0;
    for (int i = 0; i < c && k > 0 && done < static_cast<size_t>(k); ++i) {
        size_t m = std::min(v[i].iov_len, k - done);
        memcpy(v[i].iov_base, tmp.data() + done, m);
        done += m;
    }
    g_sim->internal = true;
    return k;
}
ssize_t writev(int fd, struct iovec const* v, int c)
{
    REAL(writev);
    auto* of = sim_fd(fd);
    if (!of) return r(fd, v, c);
    struct Save { bool o = g_sim->internal; ~Save() { g_sim->internal = o; } } save;
    g_sim->internal = true;
    std::string tmp;
    for (int i = 0; i < c; ++i) tmp.append(static_cast<char const*>(v[i].iov_base), v[i].iov_len);
    g_sim->internal = save.o;
    ssize_t k = sim_write_at(of, tmp.data(), tmp.size(), &of->off);
    g_sim->internal = true;
    return k;
}
off_t lseek(int fd, off_t o, int w)
{
    REAL(lseek);
    if (auto* of = sim_fd(fd)) return sim_seek(of, o, w);
    return r(fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int ftruncate(int fd, off_t n)
{
    REAL(ftruncate);
    if (auto* of = sim_fd(fd)) { of->ino->data.resize(n); return 0; }
    return r(fd, n);
}
int fsync(int fd)
{
    REAL(fsync);
    return sim_fd(fd) ? 0 : r(fd);
}
int fdatasync(int fd)
{
    REAL(fdatasync);
    return sim_fd(fd) ? 0 : r(fd);
}
int fstat(int fd, struct stat* st)
{
    REAL(fstat);
    if (auto* of = sim_fd(fd)) { sim_stat(*of->ino, st); return 0; }
    return r(fd, st);
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
int stat(char const* p, struct stat* st)
{
    REAL(stat);
    if (!sim_path(p)) return r(p, st);
    auto it = g_sim->files.find(p);
    if (it == g_sim->files.end()) { errno = ENOENT; return -1; }
    sim_stat(*it->second, st);
    return 0;
}
int stat64(char const* p, struct stat64* st) { return stat(p, reinterpret_cast<struct stat*>(st)); }
int lstat(char const* p, struct stat* st)
{
    REAL(lstat);
    return sim_path(p) ? stat(p, st) : r(p, st);
}
int access(char const* p, int m)
{
    REAL(access);
    if (!sim_path(p)) return r(p, m);
    if (g_sim->files.count(p)) return 0;
    errno = ENOENT;
    return -1;
}
int ioctl(int fd, unsigned long req, ...) noexcept
{
    va_list ap;
    va_start(ap, req);
    void* a = va_arg(ap, void*);
    va_end(ap);
    if (auto* of = sim_fd(fd)) {
        if (req == FIONREAD) {
            *static_cast<int*>(a) = static_cast<int>(std::min<int64_t>(INT32_MAX, std::max<int64_t>(0, static_cast<int64_t>(of->ino->size()) - of->off)));
            return 0;
        }
        errno = ENOTTY;
        return -1;
    }
    static auto r = real<int (*)(int, unsigned long, ...)>("ioctl");
    return r(fd, req, a);
}
int poll(struct pollfd* f, nfds_t n, int t)
{
    REAL(poll);
    if (n == 1 && sim_fd(f->fd)) { f->revents = f->events; return 1; }
    return r(f, n, t);
}
// preemption points inside library code: every basic block (-fsanitize-coverage=trace-pc)
void __sanitizer_cov_trace_pc() __attribute__((no_sanitize_address));
void __sanitizer_cov_trace_pc() { if (g_sim) g_sim->func_hook(); }

// A client that holds a lock or initialises a static is not preempted: another
// client running into it could not make progress anyway.
static inline void lock_note(int d)
{
    if (g_sim && g_sim->cur && g_sim->cur == t_self) g_sim->cur->locked += d;
}
#define LOCKFN(name, d, arg)                                                        \
    int name(arg m) noexcept                                                        \
    {                                                                               \
        static int (*volatile r)(arg) = nullptr;                                    \
        if (!r) r = reinterpret_cast<int (*)(arg)>(dlsym(RTLD_NEXT, #name));        \
        int rc = r(m);                                                              \
        if (!rc) lock_note(d);                                                      \
        return rc;                                                                  \
    }
LOCKFN(pthread_mutex_lock, 1, pthread_mutex_t*)
LOCKFN(pthread_mutex_trylock, 1, pthread_mutex_t*)
LOCKFN(pthread_mutex_unlock, -1, pthread_mutex_t*)
LOCKFN(pthread_rwlock_rdlock, 1, pthread_rwlock_t*)
LOCKFN(pthread_rwlock_wrlock, 1, pthread_rwlock_t*)
LOCKFN(pthread_rwlock_tryrdlock, 1, pthread_rwlock_t*)
LOCKFN(pthread_rwlock_trywrlock, 1, pthread_rwlock_t*)
LOCKFN(pthread_rwlock_unlock, -1, pthread_rwlock_t*)
int pthread_once(pthread_once_t* o, void (*f)())
{
    static int (*volatile r)(pthread_once_t*, void (*)()) = nullptr;
    if (!r) r = reinterpret_cast<int (*)(pthread_once_t*, void (*)())>(dlsym(RTLD_NEXT, "pthread_once"));
    lock_note(1);
    struct Off { ~Off() { lock_note(-1); } } off;
    return r(o, f);
}
int __cxa_guard_acquire(long long* g)
{
    static int (*volatile r)(long long*) = nullptr;
    if (!r) r = reinterpret_cast<int (*)(long long*)>(dlsym(RTLD_NEXT, "__cxa_guard_acquire"));
    int rc = r(g);
    if (rc) lock_note(1);
    return rc;
}
void __cxa_guard_release(long long* g)
{
    static void (*volatile r)(long long*) = nullptr;
    if (!r) r = reinterpret_cast<void (*)(long long*)>(dlsym(RTLD_NEXT, "__cxa_guard_release"));
    lock_note(-1);
    r(g);
}
void __cxa_guard_abort(long long* g)
{
    static void (*volatile r)(long long*) = nullptr;
    if (!r) r = reinterpret_cast<void (*)(long long*)>(dlsym(RTLD_NEXT, "__cxa_guard_abort"));
    lock_note(-1);
    r(g);
}
}

// ------------------------------------------------------------------ allocation seam
// Moving a trace allocates a small block and is declared not to throw; an
// exhausted memory there ends the process, which no property is about. The same
// goes for destructors.
static bool must_not_throw()
{
    void* at[64];
    int n = backtrace(at, 64);
    for (int i = 0; i < n; ++i) {
        Dl_info d;
        if (!dladdr(static_cast<char*>(at[i]) - 1, &d) || !d.dli_sname) continue;
        std::string s = d.dli_sname;
        if (s.find("7sedaman5Trace") != std::string::npos && (s.find("C1EO") != std::string::npos || s.find("C2EO") != std::string::npos || s.find("aSEO") != std::string::npos)) return true;
        if (s.size() > 4 && s[s.size() - 4] == 'D' && !s.compare(s.size() - 2, 2, "Ev")) return true;
    }
    return false;
}
static void* alloc(size_t n)
{
    if (g_sim && !g_sim->internal && g_sim->in_lib()) {
        Internal guard;
        if (n > g_sim->faults.alloc_cap) {
            count("fault.alloc.too_big");
            g_sim->alloc_refused = n;
            g_sim->note("  FAULT allocation of %zu bytes refused", n);
            throw std::bad_alloc();
        }
        if (n >= 256 && g_sim->hard_due(Op::ALLOC)) throw std::bad_alloc();
        if (g_sim->peek(Op::ANY_ALLOC) && must_not_throw()) {
            // the next one instead
            auto* h = g_sim->peek(Op::ANY_ALLOC);
            if (!h->sticky) ++h->at;
            ++g_sim->op_count[static_cast<int>(Op::ANY_ALLOC)];
            ++g_sim->cur->op_count[static_cast<int>(Op::ANY_ALLOC)];
        } else if (g_sim->hard_due(Op::ANY_ALLOC)) throw std::bad_alloc();
    }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { try { return alloc(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { try { return alloc(n); } catch (...) { return nullptr; } }
void operator delete(void* p, std::nothrow_t const&) noexcept { free(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { free(p); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// an error tells what is wrong, also when it is handed on
void check_error(sedaman::Exception const& e)
{
    std::string w = e.what();
    if (w.find_first_not_of(" 0123456789") == std::string::npos) violate("bad-error: an error without a message");
    if (w.size() > 200) return;
    sedaman::Exception c(e);
    if (c.what() != w) violate("bad-error: the copy of an error has another message");
    sedaman::Exception m(std::move(c));
    if (m.what() != w) violate("bad-error: a moved error has another message");
    if (e.what() != w) violate("bad-error: copying an error changed it");
}
