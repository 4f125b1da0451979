// Simulated operating system: in-memory file system behind the libc calls that
// libstdc++'s file streams make, a cooperative scheduler for client tasks, an
// allocation seam, and seeded fault injection.
#pragma once
#include "Exception.hpp"
#include "choice.hpp"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <cstdio>
#include <pthread.h>
#include <semaphore.h>

struct Violation { std::string what; };
[[noreturn]] void violate(char const* fmt, ...) __attribute__((format(printf, 1, 2)));

// Zero bytes inserted in a file: place in `data` and number, in order of place.
using Holes = std::vector<std::pair<uint64_t, uint64_t>>;
// Contents of a file: `data` with holes (read-only sparse files, for offsets
// beyond 2 and 4 GiB).
struct Inode {
    std::vector<char> data;
    Holes holes;
    uint64_t size() const
    {
        uint64_t n = data.size();
        for (auto& h : holes) n += h.second;
        return n;
    }
    void read(char* buf, uint64_t off, size_t n) const;
};

struct JournalEntry {
    enum Kind { CREATE, WRITE } kind; // CREATE also truncates
    std::string path;
    size_t off;
    std::string data;
    uint64_t client_mark; // value of Sim::client_mark when the call was made
};

enum class Op { READ, WRITE, LSEEK, OPEN, CLOSE, STAT, ALLOC, ANY_ALLOC, COUNT }; // ALLOC: buffers, ANY_ALLOC: requests of any size
char const* op_name(Op);

struct HardFault {
    Op op = Op::COUNT;
    uint64_t at = 0;      // index of the operation (of that kind, in library code) to fail
    int err = 0;
    bool sticky = false;  // every later operation of that kind fails too
    int fiber = -1;       // only in this client, counting its own operations
    uint32_t partial = 0; // bytes transferred by the preceding (short) transfer, writes only
};

struct FaultConfig {
    // legal behaviour of an OS, probability 1/n per call, 0 = never
    uint32_t short_read = 0, eintr = 0, short_write = 0;
    std::vector<HardFault> hard;
    int64_t capacity = -1;       // bytes the disk can still take, -1 = unlimited
    uint64_t alloc_cap = 64u << 20; // larger single allocations fail
};

struct OpenFile {
    std::shared_ptr<Inode> ino;
    std::string path;
    int64_t off = 0;
    bool rd = false, wr = false, append = false;
    FILE* fp = nullptr;
};

// A client task: a thread of its own (so that thread-local state behaves as in
// a real deployment) which runs only while it holds the baton.
struct Fiber {
    std::function<void()> fn;
    pthread_t th {};
    bool started = false;
    sem_t go;
    bool done = false;
    bool stuck = false;
    bool joined = false;
    int lib_depth = 0;
    int locked = 0;          // locks held and static initialisations under way: no preemption
    uint64_t op_count[static_cast<int>(Op::COUNT)] = {};
    uint64_t lib_steps = 0;  // simulated I/O steps in the current library call
    std::string name;
    int index = 0;
};

extern thread_local Fiber* t_self; // the client whose thread this is, until it is done

struct Sim {
    explicit Sim(Choices& c);
    ~Sim();
    Choices& ch;

    // ---- file system
    std::map<std::string, std::shared_ptr<Inode>> files;
    std::map<int, OpenFile> fds;
    std::vector<JournalEntry> journal;
    bool journaling = false;
    uint64_t client_mark = 0;
    void put(std::string const& path, std::string const& bytes, Holes holes = {});
    std::string get(std::string const& path) const;
    bool exists(std::string const& path) const { return files.count(path); }
    static std::string image(std::vector<JournalEntry> const& j, size_t upto, size_t torn,
                             std::string const& path, bool* created = nullptr);

    // ---- faults
    FaultConfig faults;
    uint64_t op_count[static_cast<int>(Op::COUNT)] = {};
    uint64_t hard_fired = 0;       // hard faults that fired so far
    uint64_t io_fired = 0;         // those of them that are no exhausted memory
    Op last_hard = Op::COUNT;
    bool write_failed = false;
    uint64_t alloc_refused = 0;    // size of a refused oversized allocation
    void reset_counts();

    // ---- scheduling
    std::vector<std::unique_ptr<Fiber>> fibers;
    Fiber* cur = nullptr;
    sem_t back;                    // baton handed back to the scheduler
    bool abandoned = false;
    std::string failure;           // violation recorded by a fiber
    uint32_t switch_in = 0;        // probability of considering a switch: 1/n per yield point
    int64_t func_countdown = -1;   // <0: no preemption at function granularity
    uint32_t func_gap = 0;
    uint64_t switches = 0;
    uint64_t max_lib_steps = 2000000;
    void run(std::vector<std::pair<std::string, std::function<void()>>> clients);
    void yield_point();
    void switch_to(Fiber* f);
    void to_main();
    void func_hook();
    [[noreturn]] void abandon(std::string why);
    bool internal = false;         // the simulator's own code is running
    bool in_lib() const { return cur && cur == t_self && cur->lib_depth > 0; }
    HardFault* peek(Op op);

    // ---- records
    uint64_t steps = 0;
    uint64_t hash = 1469598103934665603ULL;       // history: operations and results
    uint64_t sched_hash = 1469598103934665603ULL; // interleaving only
    bool verbose = false;
    std::string log;
    void note(char const* fmt, ...) __attribute__((format(printf, 2, 3)));
    void mix(uint64_t v) { hash = (hash ^ v) * 1099511628211ULL; }
    HardFault* hard_due(Op op);
};

extern Sim* g_sim;
struct Internal {
    bool old;
    Internal() : old(g_sim->internal) { g_sim->internal = true; }
    ~Internal() { g_sim->internal = old; }
};
extern std::map<std::string, uint64_t> g_count; // statistics over all runs of the process
inline void count(std::string const& k, uint64_t n = 1) { g_count[k] += n; }

extern volatile unsigned long g_lib_calls; // progress that the watchdog looks at
struct LibScope {
    Fiber* f;
    LibScope() : f(g_sim ? g_sim->cur : nullptr)
    {
        if (!f || f->lib_depth == 0) g_lib_calls = g_lib_calls + 1;
        if (f && f->lib_depth++ == 0) f->lib_steps = 0;
    }
    ~LibScope() { if (f) --f->lib_depth; }
};
void check_error(sedaman::Exception const& e);
template <class F> auto lib(F&& f) -> decltype(f())
{
    try {
        LibScope s;
        return f();
    } catch (sedaman::Exception const& e) {
        check_error(e);
        throw;
    }
}
