// Traces and headers as values: any history of copies, moves, assignments and
// changes, from several clients, against plain maps and vectors.
#include "scenario.hpp"
#include "Trace.hpp"
#include <cmath>
#include <cstring>
#include <map>
#include <optional>
#include <unordered_map>
using namespace sedaman;

namespace {
using Val = Trace::Header::Value;
struct MH { std::map<std::string, Val> m; };
struct MT { MH h; std::vector<double> s; };
struct Slot { std::optional<Trace> t; MT m; bool moved = false; };
struct HSlot { std::optional<Trace::Header> h; MH m; bool moved = false; };

// by bits: what is not a number is a value, too, and so is the sign of zero
bool same(double a, double b) { return !memcmp(&a, &b, sizeof a); }
bool same(Val const& a, Val const& b)
{
    if (a.index() != b.index()) return false;
    if (auto d = std::get_if<double>(&a)) return same(*d, std::get<double>(b));
    return a == b;
}
double rand_double(Choices& ch)
{
    static double const special[] = { 0.0, -0.0, HUGE_VAL, -HUGE_VAL, 4.9e-324, -4.9e-324, 1.7976931348623157e308, 9007199254740993.0, -1e-300, 0.1 };
    uint32_t k = ch.draw(14);
    if (k < 10) return special[k];
    uint64_t u = k == 10 ? 0x7ff8000000000000ull : k == 11 ? 0xfff8000000001234ull : static_cast<uint64_t>(ch.seed32()) * 0x9e3779b97f4a7c15ull;
    double d;
    memcpy(&d, &u, sizeof d);
    if (d != d && k > 11) d = 1.5; // signalling ones may lose their mark in a register
    return d;
}
std::string rand_key(Choices& ch)
{
    if (!ch.one_in(8)) return "K" + std::to_string(ch.draw(8));
    switch (ch.draw(4)) {
    case 0: return "";
    case 1: return std::string("K1\0x", 4);
    case 2: return std::string(1 + ch.draw(80), 'k');
    default: return "K" + std::to_string(ch.draw(100));
    }
}
void check_header(Trace::Header const& h, MH const& m, char const* after)
{
    for (auto& kv : m.m) {
        auto g = h.get(kv.first);
        if (!g) violate("value-missing: header value %s is gone after %s", kv.first.c_str(), after);
        if (!same(*g, kv.second)) violate("value-changed: header value %s changed after %s", kv.first.c_str(), after);
    }
    auto k = h.keys();
    std::map<std::string, int> seen;
    for (auto& s : k) ++seen[s];
    if (k.size() != m.m.size() || seen.size() != k.size()) violate("value-keys: %zu keys instead of %zu after %s", k.size(), m.m.size(), after);
    for (auto& s : k)
        if (!m.m.count(s)) violate("value-keys: unexpected key after %s", after);
    if (h.get("no such key")) violate("value-missing: a key that was never set has a value after %s", after);
}
void check_trace(Slot const& s, char const* after)
{
    check_header(s.t->header_const(), s.m.h, after);
    auto& v = s.t->samples();
    if (v.size() != s.m.s.size() || (!v.empty() && memcmp(v.data(), s.m.s.data(), v.size() * sizeof(double)))) violate("samples-changed: samples changed after %s", after);
}
Val rand_val(Choices& ch)
{
    switch (ch.draw(6)) {
    case 4: return Val(rand_double(ch));
    case 5: return Val(INT64_MAX - static_cast<int64_t>(ch.draw(3)));
    case 0: return Val(static_cast<int64_t>(ch.draw(1000)) - 500);
    case 1: return Val(static_cast<int64_t>(ch.seed32()) << 31);
    case 2: return Val(static_cast<double>(ch.draw(1000)) / 7);
    default: return Val(INT64_MIN + static_cast<int64_t>(ch.draw(3)));
    }
}
MT rand_trace(Choices& ch)
{
    MT m;
    for (uint32_t i = ch.draw(5); i; --i) m.h.m[rand_key(ch)] = rand_val(ch);
    if (ch.one_in(20))
        for (uint32_t i = ch.draw(120); i; --i) m.h.m["L" + std::to_string(i)] = Val(static_cast<int64_t>(i));
    m.s.resize(ch.one_in(4) ? ch.draw(400) : ch.draw(6));
    for (size_t i = 0; i < m.s.size(); ++i) m.s[i] = static_cast<double>(i) + ch.draw(3);
    if (!m.s.empty() && ch.one_in(4)) m.s[ch.draw(static_cast<uint32_t>(m.s.size()))] = rand_double(ch);
    return m;
}
Trace make(MT const& m)
{
    std::unordered_map<std::string, Val> u(m.h.m.begin(), m.h.m.end());
    return lib([&] { return Trace(u, m.s); });
}

void client(Sim& s, std::vector<MT> const* shared_models, std::vector<Trace>* shared, size_t ops)
{
    Choices& ch = s.ch;
    std::vector<Slot> t(4);
    std::vector<HSlot> h(3);
    for (size_t k = 0; k < ops; ++k) {
        size_t a = ch.draw(4), b = ch.draw(4), x = ch.draw(3), y = ch.draw(3);
        auto live = [&](size_t i) { return t[i].t && !t[i].moved; };
        auto hlive = [&](size_t i) { return h[i].h && !h[i].moved; };
        char const* what = "";
        try {
            switch (ch.draw(18)) {
            case 0:
            case 1:
                t[a].m = rand_trace(ch);
                t[a].t.reset();
                t[a].t.emplace(make(t[a].m));
                t[a].moved = false;
                what = "construction";
                break;
            case 2: // copy
                if (live(b) && a != b) {
                    what = "copy construction";
                    t[a].t.reset();
                    t[a].moved = false;
                    lib([&] { t[a].t.emplace(*t[b].t); });
                    t[a].m = t[b].m;
                }
                break;
            case 3: // move
                if (live(b) && a != b) {
                    what = "move construction";
                    t[a].t.reset();
                    lib([&] { t[a].t.emplace(std::move(*t[b].t)); });
                    t[a].m = t[b].m;
                    t[a].moved = false;
                    t[b].moved = true;
                }
                break;
            case 4: // copy assignment, also to itself and to a moved-from object
                if (t[a].t && live(b)) {
                    what = a == b ? "self assignment" : "copy assignment";
                    t[a].moved = t[a].moved || a != b;
                    lib([&] { *t[a].t = *t[b].t; });
                    t[a].m = MT(t[b].m);
                    t[a].moved = false;
                }
                break;
            case 5:
                if (t[a].t && live(b)) {
                    what = a == b ? "self move assignment" : "move assignment";
                    lib([&] { *t[a].t = std::move(*t[b].t); });
                    if (a == b) break; // keeps its value
                    t[a].m = MT(t[b].m);
                    t[a].moved = false;
                    t[b].moved = true;
                }
                break;
            case 6:
            case 7:
                if (live(a)) {
                    std::string key = rand_key(ch);
                    Val v = rand_val(ch);
                    what = "setting a header value";
                    lib([&] { t[a].t->header().set(key, v); });
                    t[a].m.h.m[key] = v;
                }
                break;
            case 8: // header copied out
                if (live(b)) {
                    what = "copying a header out of a trace";
                    h[x].h.reset();
                    h[x].moved = false;
                    lib([&] { h[x].h.emplace(t[b].t->header_const()); });
                    h[x].m = t[b].m.h;
                }
                break;
            case 9: // header assigned into a trace
                if (live(a) && hlive(x)) {
                    what = "assigning a header to a trace";
                    lib([&] { t[a].t->header() = *h[x].h; });
                    t[a].m.h = h[x].m;
                }
                break;
            case 10:
                if (hlive(x)) {
                    std::string key = rand_key(ch);
                    Val v = rand_val(ch);
                    what = "setting a value of a free header";
                    lib([&] { h[x].h->set(key, v); });
                    h[x].m.m[key] = v;
                }
                break;
            case 11:
                if (h[x].h && hlive(y)) {
                    bool copy = ch.one_in(2);
                    what = copy ? "header copy assignment" : x == y ? "header self move assignment" : "header move assignment";
                    if (copy) {
                        h[x].moved = h[x].moved || x != y;
                        lib([&] { *h[x].h = *h[y].h; });
                    } else {
                        lib([&] { *h[x].h = std::move(*h[y].h); });
                    }
                    if (x == y) break; // keeps its value
                    h[x].m = h[y].m;
                    h[x].moved = false;
                    if (!copy) h[y].moved = true;
                }
                break;
            case 12:
                if (hlive(y) && x != y) {
                    what = "header move construction";
                    h[x].h.reset();
                    lib([&] { h[x].h.emplace(std::move(*h[y].h)); });
                    h[x].m = h[y].m;
                    h[x].moved = false;
                    h[y].moved = true;
                }
                break;
            case 13: // copies of traces that all clients read
                if (shared && !shared->empty()) {
                    size_t i = ch.draw(static_cast<uint32_t>(shared->size()));
                    what = "copying a trace shared by the clients";
                    t[a].t.reset();
                    t[a].moved = false;
                    lib([&] { t[a].t.emplace((*shared)[i]); });
                    t[a].m = (*shared_models)[i];
                }
                break;
            case 15:
                if (live(a) && live(b)) {
                    what = "swapping";
                    lib([&] { std::swap(*t[a].t, *t[b].t); });
                    std::swap(t[a].m, t[b].m);
                }
                break;
            case 16: // in a container that grows
                if (live(a)) {
                    what = "moving a growing container";
                    std::vector<Trace> v;
                    lib([&] {
                        v.push_back(*t[a].t);
                        v.push_back(*t[a].t);
                        v.insert(v.begin(), *t[a].t);
                        v.erase(v.begin() + 1);
                        v.push_back(*t[a].t);
                    });
                    for (auto& e : v) {
                        check_header(e.header_const(), t[a].m.h, what);
                        auto& q = e.samples();
                        if (q.size() != t[a].m.s.size() || (!q.empty() && memcmp(q.data(), t[a].m.s.data(), q.size() * sizeof(double)))) violate("samples-changed: samples changed after %s", what);
                    }
                    lib([&] { v.clear(); });
                }
                break;
            case 17: // looking for what is not there
                if (live(a)) {
                    std::string key = rand_key(ch);
                    what = "looking up a header value";
                    auto g = lib([&] { return t[a].t->header_const().get(key); });
                    auto g2 = lib([&] { return t[a].t->header().get(key); });
                    if (g.has_value() != (t[a].m.h.m.count(key) != 0) || g.has_value() != g2.has_value()) violate("value-missing: the answer whether there is a value is wrong");
                }
                break;
            case 14:
                what = "destruction";
                lib([&] { t[a].t.reset(); });
                break;
            }
        } catch (std::bad_alloc&) {
            // the target of a failed assignment is only destructible; everything else is untouched
            s.note("  %s: out of memory", what);
            bool source = !strcmp(what, "moving a growing container") || !strcmp(what, "looking up a header value");
            if (t[a].t && !source) t[a].moved = true;
            if (h[x].h) h[x].moved = true;
        }
        s.mix(k);
        for (auto& q : t)
            if (q.t && !q.moved) check_trace(q, what);
        for (auto& q : h)
            if (q.h && !q.moved) check_header(*q.h, q.m, what);
    }
    lib([&] { t.clear(); h.clear(); });
}

void c13_values(Sim& s)
{
    Choices& ch = s.ch;
    size_t n = 1 + ch.draw(3), ops = 5 + ch.draw(60);
    if (n > 1) {
        s.switch_in = 0;
        s.func_gap = ch.one_in(2) ? 1 + ch.draw(20) : 1 + ch.draw(300);
        s.func_countdown = ch.range(1, s.func_gap);
    }
    if (ch.one_in(3)) {
        HardFault f;
        f.op = s.ch.one_in(2) ? Op::ANY_ALLOC : Op::ALLOC;
        f.at = ch.draw(60);
        s.faults.hard.push_back(f);
    }
    std::vector<MT> models;
    std::vector<Trace> shared;
    if (n > 1)
        for (uint32_t i = 1 + ch.draw(3); i; --i) {
            models.push_back(rand_trace(ch));
            shared.push_back(make(models.back()));
        }
    std::vector<std::pair<std::string, std::function<void()>>> cl;
    for (size_t i = 0; i < n; ++i) cl.push_back({ "client" + std::to_string(i), [&] { client(s, &models, &shared, ops); } });
    s.run(cl);
    for (size_t i = 0; i < shared.size(); ++i) {
        Slot q;
        q.t.emplace(shared[i]);
        q.m = models[i];
        check_trace(q, "use by several clients");
    }
}
Register r13("C13", "trace-values", 1, c13_values);
}
