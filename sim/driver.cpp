// Simulator driver: seeded search, exact replay, minimisation.
#include "scenario.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

[[noreturn]] static void quit(int rc)
{
    std::cout.flush();
    fflush(nullptr);
    _exit(rc);
}

std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
std::vector<Known> g_known;
std::map<std::string, uint64_t> g_known_seen;
static std::string g_property;

void draw_benign(Sim& s)
{
    if (s.ch.one_in(2)) {
        static uint32_t const p[] = { 0, 40, 8, 2 };
        s.faults.short_read = p[s.ch.draw(4)];
        s.faults.short_write = p[s.ch.draw(4)];
        s.faults.eintr = s.ch.one_in(3) ? 10 : 0;
    }
}
void violate_or_known(Sim& s, std::string const& kind, std::string const& detail)
{
    for (auto& k : g_known)
        if (k.property == g_property && k.kind == kind) {
            ++g_known_seen[kind];
            s.note("  known finding: %s: %s", kind.c_str(), detail.c_str());
            return;
        }
    violate("%s: %s", kind.c_str(), detail.c_str());
}

extern "C" char const* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=66:handle_abort=1:allocator_may_return_null=1:"
           "malloc_context_size=8:max_malloc_fill_size=1048576:malloc_fill_byte=203:quarantine_size_mb=16:detect_stack_use_after_return=0:max_allocation_size_mb=4096";
}
extern "C" void __asan_set_error_report_callback(void (*)(char const*)) __attribute__((weak));

struct Result { bool violated = false; std::string what, kind, log, scenario; uint64_t hash = 0, sched = 0, steps = 0, switches = 0, decisions = 0; };

static uint64_t seed_of(uint64_t base, std::string const& prop, uint64_t i)
{
    uint64_t h = 1469598103934665603ULL;
    for (char c : prop) h = (h ^ static_cast<uint8_t>(c)) * 1099511628211ULL;
    uint64_t x = base * 0x9e3779b97f4a7c15ULL ^ h ^ (i * 0xd1342543de82ef95ULL + 1);
    return Rng::splitmix(x);
}
static std::string kind_of(std::string const& what) { return what.substr(0, what.find(':')); }

static Result execute(std::string const& prop, Choices& ch, bool verbose)
{
    g_property = prop;
    Result r;
    std::vector<Scenario*> sc;
    uint32_t total = 0;
    for (auto& s : scenarios())
        if (s.property == prop) { sc.push_back(&s); total += s.weight; }
    if (sc.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); quit(3); }
    uint32_t k = ch.draw(total);
    Scenario* pick = nullptr;
    for (auto* s : sc) {
        if (k < s->weight) { pick = s; break; }
        k -= s->weight;
    }
    r.scenario = pick->name;
    Sim sim(ch);
    sim.verbose = verbose;
    try {
        pick->fn(sim);
    } catch (Violation& v) {
        r.violated = true;
        r.what = v.what;
        r.kind = kind_of(v.what);
    }
    r.hash = sim.hash;
    r.sched = sim.sched_hash;
    r.steps = sim.steps;
    r.switches = sim.switches;
    r.decisions = ch.out.size();
    r.log = std::move(sim.log);
    for (auto c : ch.out) r.hash = (r.hash ^ c) * 1099511628211ULL;
    return r;
}

volatile unsigned long g_lib_calls;
static volatile unsigned long g_calls_then;
static int g_seconds;
static double cpu_seconds()
{
    struct timespec t;
    return clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t) ? 0 : static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}
static void arm(int seconds);
static void on_cpu_limit(int)
{
    if (g_lib_calls != g_calls_then) { // long run, but it gets on
        arm(g_seconds);
        return;
    }
    static char const m[] = "SIM-HANG: a library call used its CPU time without finishing\n";
    ssize_t k = write(2, m, sizeof m - 1);
    (void)k;
    _exit(67);
}
static void arm(int seconds)
{
    g_seconds = seconds;
    g_calls_then = g_lib_calls;
    signal(SIGPROF, on_cpu_limit);
    struct itimerval t { { 0, 0 }, { seconds, 0 } };
    setitimer(ITIMER_PROF, &t, nullptr);
    // a run that waits for ever uses no CPU time
    signal(SIGALRM, on_cpu_limit);
    struct itimerval w { { 0, 0 }, { seconds * 3, 0 } };
    setitimer(ITIMER_REAL, &w, nullptr);
}

struct ReplayFile { std::string property, kind, what, seed, scenario, sequence; std::vector<uint32_t> tape; };
static bool load(std::string const& path, ReplayFile& f)
{
    std::ifstream in(path);
    if (!in) return false;
    std::string line;
    while (std::getline(in, line)) {
        auto c = line.find(": ");
        if (c == std::string::npos) { if (line == "trace:") break; continue; }
        std::string k = line.substr(0, c), v = line.substr(c + 2);
        if (k == "property") f.property = v;
        else if (k == "kind") f.kind = v;
        else if (k == "violation") f.what = v;
        else if (k == "seed") f.seed = v;
        else if (k == "scenario") f.scenario = v;
        else if (k == "sequence") f.sequence = v;
        else if (k == "tape") {
            std::istringstream s(v);
            uint64_t x;
            while (s >> x) f.tape.push_back(static_cast<uint32_t>(x));
        }
    }
    return !f.property.empty();
}
static void save(std::string const& path, ReplayFile const& f, std::string const& log)
{
    std::ofstream o(path);
    o << "property: " << f.property << "\nkind: " << f.kind << "\nviolation: " << f.what << "\nseed: " << f.seed
      << "\nscenario: " << f.scenario << "\ndecisions: " << f.tape.size() << "\ntape:";
    for (auto v : f.tape) o << ' ' << v;
    if (f.tape.empty()) o << ' ';
    o << "\ntrace:\n" << log;
}

// ---- child evaluation for replay and minimisation
struct Shared { volatile int state; char kind[128]; char what[4096]; char scenario[64]; uint32_t used; uint32_t logn; uint32_t tape[1 << 20]; char log[1 << 20]; };
static Shared* g_sh;
static void asan_report(char const* text)
{
    if (!g_sh || g_sh->state == 2) return;
    char const* p = strstr(text, "AddressSanitizer: ");
    std::string k = p ? std::string(p + 18, strcspn(p + 18, " \n")) : "unknown";
    snprintf(g_sh->kind, sizeof g_sh->kind, "memory-error-%s", k.c_str());
    snprintf(g_sh->what, sizeof g_sh->what, "memory-error-%s: %.3500s", k.c_str(), text);
    for (char* c = g_sh->what; *c; ++c) if (*c == '\n') *c = ' ';
    g_sh->state = 2;
}
static bool eval(std::string const& prop, std::vector<uint32_t> const& tape, int cpu, bool verbose, ReplayFile& out, std::string* log)
{
    memset(g_sh, 0, offsetof(Shared, tape));
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        int n = open("/dev/null", O_WRONLY);
        if (!verbose) dup2(n, 2);
        if (__asan_set_error_report_callback) __asan_set_error_report_callback(asan_report);
        arm(cpu);
        static SharedTape st; // large, static
        Choices ch(tape, &st);
        (void)st;
        struct OnExit { } oe; (void)oe;
        // publish the tape length even if the run kills the process
        Result r = execute(prop, ch, verbose);
        g_sh->used = std::min<size_t>(ch.out.size(), 1 << 20);
        memcpy(g_sh->tape, ch.out.data(), g_sh->used * 4);
        snprintf(g_sh->scenario, sizeof g_sh->scenario, "%s", r.scenario.c_str());
        g_sh->logn = std::min<size_t>(r.log.size(), sizeof g_sh->log);
        memcpy(g_sh->log, r.log.data(), g_sh->logn);
        if (r.violated) {
            snprintf(g_sh->kind, sizeof g_sh->kind, "%s", r.kind.c_str());
            snprintf(g_sh->what, sizeof g_sh->what, "%s", r.what.c_str());
            g_sh->state = 2;
        } else {
            g_sh->state = 1;
        }
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) { }
    if (g_sh->state == 1) return false;
    out.property = prop;
    if (g_sh->state == 2) {
        out.kind = g_sh->kind;
        out.what = g_sh->what;
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 67) {
        out.kind = "hang";
        out.what = "hang: a library call used its CPU time without finishing";
    } else {
        out.kind = "crash";
        out.what = "crash: the process died, status " + std::to_string(st);
    }
    out.scenario = g_sh->scenario;
    out.tape = tape;
    if (g_sh->used && g_sh->used < tape.size()) out.tape.resize(g_sh->used);
    if (log) log->assign(g_sh->log, g_sh->logn);
    return true;
}

static void cmd_shrink(ReplayFile f, std::string const& outp, double budget)
{
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget; };
    ReplayFile best;
    int cpu = 40;
    if (!eval(f.property, f.tape, cpu, false, best, nullptr)) { std::cout << "NOREPRO\n"; quit(2); }
    std::string kind = best.kind;
    std::string seed = f.seed;
    if (kind == "hang") cpu = 12;
    uint64_t tried = 1;
    auto attempt = [&](std::vector<uint32_t> const& t) {
        ++tried;
        ReplayFile r;
        if (eval(f.property, t, cpu, false, r, nullptr) && r.kind == kind) { best = r; return true; }
        return false;
    };
    bool progress = true;
    while (progress && left()) {
        progress = false;
        // drop or zero blocks
        for (size_t n = std::max<size_t>(1, best.tape.size() / 2); n >= 1 && left(); n /= 2) {
            for (size_t i = 0; i < best.tape.size() && left();) {
                auto t = best.tape;
                t.erase(t.begin() + i, t.begin() + std::min(t.size(), i + n));
                if (attempt(t)) { progress = true; continue; }
                t = best.tape;
                bool nz = false;
                for (size_t k = i; k < std::min(t.size(), i + n); ++k) { nz |= t[k] != 0; t[k] = 0; }
                if (nz && attempt(t)) progress = true;
                i += n;
            }
            if (n == 1) break;
        }
        // smaller values
        for (size_t i = 0; i < best.tape.size() && left(); ++i) {
            uint32_t lo = 0, hi = best.tape[i];
            while (lo < hi && left()) {
                uint32_t mid = lo + (hi - lo) / 2;
                auto t = best.tape;
                t[i] = mid;
                if (attempt(t)) { hi = mid; progress = true; if (i >= best.tape.size()) break; }
                else lo = mid + 1;
                if (i >= best.tape.size()) break;
            }
        }
    }
    while (!best.tape.empty() && best.tape.back() == 0) best.tape.pop_back();
    // final: twice, identical
    ReplayFile a, b;
    std::string la, lb;
    bool va = eval(f.property, best.tape, 20, true, a, &la), vb = eval(f.property, best.tape, 20, true, b, &lb);
    if (!va || !vb || a.kind != kind || b.kind != kind || la != lb) { std::cout << "NOREPRO\n"; quit(2); }
    a.seed = seed;
    a.tape = best.tape;
    save(outp, a, la);
    std::cout << "SHRUNK from=" << f.tape.size() << " to=" << best.tape.size() << " tried=" << tried << "\n";
}

int main(int argc, char** argv)
{
    std::vector<std::string> a(argv + 1, argv + argc);
    if (a.empty()) return 3;
    struct rlimit rl { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    auto load_known = [&](std::string const& path) {
        std::ifstream in(path);
        std::string line;
        while (std::getline(in, line)) {
            // known: property=<id> kind=<kind> <what>
            if (line.rfind("known: property=", 0)) continue;
            std::istringstream s(line.substr(16));
            Known k;
            std::string kind;
            s >> k.property >> kind;
            if (kind.rfind("kind=", 0)) continue;
            k.kind = kind.substr(5);
            std::getline(s, k.what);
            g_known.push_back(k);
        }
    };
    if (a[0] == "run" && a.size() >= 9) {
        // run PROP SEED START STRIDE COUNT WALL TAPEFILE OUTFILE [KNOWN]
        std::string prop = a[1];
        uint64_t base = std::stoull(a[2]), start = std::stoull(a[3]), stride = std::stoull(a[4]), count_ = std::stoull(a[5]);
        double wall = std::stod(a[6]);
        if (a.size() > 9) load_known(a[9]);
        int fd = open(a[7].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(SharedTape))) { perror("tape"); return 3; }
        auto* sh = static_cast<SharedTape*>(mmap(nullptr, sizeof(SharedTape), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        auto t0 = std::chrono::steady_clock::now();
        std::vector<uint64_t> hashes, scheds;
        std::map<std::string, uint64_t> per;
        uint64_t runs = 0, steps = 0, switches = 0, decisions = 0, rechecked = 0, mismatched = 0;
        double slowest = 0;
        uint64_t slowest_at = 0;
        Result bad;
        bool failed = false;
        // cold runs: each in a process of its own that has not used the library before
        uint64_t every = getenv("VERIF_COLD") ? strtoull(getenv("VERIF_COLD"), nullptr, 10) : 0;
        struct ColdShared { uint64_t hash, sched, steps, switches, decisions; int done; char scenario[64]; char counts[1 << 16]; };
        uint64_t cold = 0;
        if (every) {
            auto* cs = static_cast<ColdShared*>(mmap(nullptr, sizeof(ColdShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
            for (uint64_t i = start; i < count_; i += stride * every) {
                if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > wall / 2) break;
                sh->run_index = i;
                cs->done = 0;
                pid_t pid = fork();
                if (pid == 0) {
                    prctl(PR_SET_PDEATHSIG, SIGKILL);
                    Choices ch(seed_of(base, prop, i), sh);
                    arm(60);
                    Result r = execute(prop, ch, false);
                    if (r.violated) {
                        std::ofstream o(a[8]);
                        o << "violation " << r.what << "\n";
                        o.close();
                        quit(1);
                    }
                    cs->hash = r.hash;
                    cs->sched = r.sched;
                    cs->steps = r.steps;
                    cs->switches = r.switches;
                    cs->decisions = r.decisions;
                    snprintf(cs->scenario, sizeof cs->scenario, "%s", r.scenario.c_str());
                    std::ostringstream o;
                    for (auto& c : g_count) o << "c " << c.first << ' ' << c.second << "\n";
                    for (auto& k : g_known_seen) o << "k " << k.first << ' ' << k.second << "\n";
                    snprintf(cs->counts, sizeof cs->counts, "%s", o.str().c_str());
                    cs->done = 1;
                    quit(0);
                }
                int st = 0;
                if (pid < 0) { perror("fork"); return 3; }
                while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
                if (!cs->done) quit(WIFEXITED(st) && WEXITSTATUS(st) ? WEXITSTATUS(st) : 68);
                ++runs;
                ++cold;
                steps += cs->steps;
                switches += cs->switches;
                decisions += cs->decisions;
                ++per[cs->scenario];
                hashes.push_back(cs->hash);
                if (cs->switches > 1) scheds.push_back(cs->sched);
                std::istringstream in(cs->counts);
                std::string l;
                while (std::getline(in, l)) (l[0] == 'c' ? g_count : g_known_seen)[l.substr(2, l.rfind(' ') - 2)] += strtoull(l.c_str() + l.rfind(' '), nullptr, 10);
            }
        }
        for (uint64_t i = start; i < count_; i += stride) {
            if (every && (i - start) / stride % every == 0) continue; // was a cold one
            if ((runs & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > wall) break;
            sh->run_index = i;
            uint64_t sd = seed_of(base, prop, i);
            Choices ch(sd, sh);
            arm(60);
            double c0 = cpu_seconds();
            Result r = execute(prop, ch, false);
            double c1 = cpu_seconds() - c0;
            if (c1 > slowest) { slowest = c1; slowest_at = i; }
            ++runs;
            steps += r.steps;
            switches += r.switches;
            decisions += r.decisions;
            ++per[r.scenario];
            hashes.push_back(r.hash);
            if (r.switches > 1) scheds.push_back(r.sched);
            if (r.violated) { bad = r; failed = true; break; }
            if (runs % 101 == 0) {
                auto save_count = g_count;
                auto save_known = g_known_seen;
                Choices c2(ch.out);
                Result r2 = execute(prop, c2, false);
                g_count = save_count;
                g_known_seen = save_known;
                ++rechecked;
                if (r2.violated) { bad = r2; failed = true; break; }
                // possible only if earlier runs left state behind in the process
                if (r2.hash != r.hash || r2.sched != r.sched) ++mismatched;
            }
        }
        arm(0);
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        std::ofstream o(a[8]);
        o << "runs " << runs << "\nsteps " << steps << "\nswitches " << switches << "\ndecisions " << decisions << "\nrechecked " << rechecked << "\nmismatched " << mismatched
          << "\ncold " << cold << "\nseconds " << el << "\nslowest " << slowest << ' ' << slowest_at << "\n";
        for (auto& p : per) o << "scenario " << p.first << ' ' << p.second << "\n";
        for (auto& c : g_count) o << "count " << c.first << ' ' << c.second << "\n";
        for (auto& k : g_known_seen) o << "known " << k.first << ' ' << k.second << "\n";
        if (failed) o << "violation " << bad.what << "\n";
        o.close();
        std::ofstream h(a[8] + ".hash", std::ios::binary);
        h.write(reinterpret_cast<char*>(hashes.data()), hashes.size() * 8);
        h.close();
        std::ofstream h2(a[8] + ".sched", std::ios::binary);
        h2.write(reinterpret_cast<char*>(scheds.data()), scheds.size() * 8);
        h2.close();
        quit(failed ? 1 : 0);
    }
    if (a[0] == "show" && a.size() >= 4) {
        // show PROP SEED INDEX [KNOWN]: one run, written out
        if (a.size() > 4) load_known(a[4]);
        Choices ch(seed_of(std::stoull(a[2]), a[1], std::stoull(a[3])));
        Result r = execute(a[1], ch, true);
        std::cout << "seed " << seed_of(std::stoull(a[2]), a[1], std::stoull(a[3])) << " scenario " << r.scenario << " decisions " << r.decisions
                  << " steps " << r.steps << (r.violated ? " VIOLATED " + r.what : "") << "\n" << r.log;
        std::cout.flush();
        quit(0);
    }
    if (a[0] == "from-tape" && a.size() >= 4) {
        // from-tape PROP TAPEFILE OUT: replay file from the decisions a worker left behind
        int fd = open(a[2].c_str(), O_RDONLY);
        auto* sh = static_cast<SharedTape*>(mmap(nullptr, sizeof(SharedTape), PROT_READ, MAP_SHARED, fd, 0));
        ReplayFile f;
        f.property = a[1];
        f.seed = std::to_string(sh->seed) + " run " + std::to_string(sh->run_index);
        f.tape.assign(sh->v, sh->v + sh->len);
        save(a[3], f, "");
        quit(0);
    }
    if ((a[0] == "replay" || a[0] == "shrink") && a.size() >= 2) {
        g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        ReplayFile f;
        if (!load(a[1], f)) { std::cerr << "cannot read " << a[1] << "\n"; return 3; }
        if (a[0] == "shrink") {
            if (a.size() > 4) load_known(a[4]);
            cmd_shrink(f, a[2], std::stod(a[3]));
            quit(0);
        }
        if (a.size() > 2) load_known(a[2]);
        if (!f.sequence.empty()) {
            // earlier runs of the same process matter
            std::istringstream q(f.sequence);
            uint64_t base, start, stride, end;
            q >> base >> start >> stride >> end;
            for (uint64_t i = start; i < end; i += stride) {
                Choices ch(seed_of(base, f.property, i));
                Result r = execute(f.property, ch, false);
                if (r.violated) {
                    std::cout << "REPLAYED " << r.kind << " | " << r.what << std::endl;
                    quit(1);
                }
            }
            std::cout << "NO VIOLATION" << std::endl;
            quit(0);
        }
        ReplayFile r;
        std::string log;
        bool v = eval(f.property, f.tape, 20, true, r, &log);
        std::cout << log;
        if (v) std::cout << "REPLAYED " << r.kind << " | " << r.what << "\n";
        else std::cout << "NO VIOLATION\n";
        std::cout.flush();
        quit(v ? 1 : 0);
    }
    return 3;
}
