// Scenarios: one simulated run each, registered per property.
#pragma once
#include "simos.hpp"
#include <functional>
#include <string>
#include <vector>

struct Scenario {
    std::string property, name;
    uint32_t weight;
    std::function<void(Sim&)> fn;
};
std::vector<Scenario>& scenarios();
struct Register {
    Register(char const* prop, char const* name, uint32_t weight, void (*fn)(Sim&)) { scenarios().push_back({ prop, name, weight, fn }); }
};
// run one client to completion
inline void run1(Sim& s, std::function<void()> f) { s.run({ { "client", std::move(f) } }); }

// legal, non-failing behaviour of an operating system: short transfers and interrupts
void draw_benign(Sim& s);

// genuine defects that are recorded rather than repaired: reported, not violations
struct Known { std::string property, kind, what; };
extern std::vector<Known> g_known;
extern std::map<std::string, uint64_t> g_known_seen;
// a violation of kind `kind`; returns if that kind is a listed finding
void violate_or_known(Sim& s, std::string const& kind, std::string const& detail);
