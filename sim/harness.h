// Registration of scenarios and properties.
#pragma once
#include "core.h"
#include <string>
#include <vector>

struct Scenario {
    const char* name;
    void (*fn)();
};
std::vector<Scenario>& scenarios();
struct RegScenario {
    RegScenario(const char* n, void (*f)()) { scenarios().push_back({ n, f }); }
};
#define SCENARIO(name)                                  \
    static void scen_##name();                          \
    static RegScenario reg_##name(#name, scen_##name);  \
    static void scen_##name()

struct Part {
    const char* scenario;
    int quick;    // runs
    int thorough; // runs
};
struct Prop {
    const char* id;
    bool asan;
    std::vector<Part> parts;
    const char* rule;
    const char* stubs; // what is simulated for this property
};
const std::vector<Prop>& props();
