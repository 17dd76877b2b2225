#pragma once
#include "core.h"
struct Scenario {
    const char *prop; const char *name;
    void (*run)();            // executed in the run's child process, from the scheduler context
    double weight;            // share of the runs of this property
    const char *real, *stub;  // components run as real code / stubbed
};
void add_scenario(Scenario s);
#define SCENARIO(prop, name, weight, fn, real, stub) \
    static struct fn##_reg { fn##_reg() { add_scenario({prop, name, fn, weight, real, stub}); } } fn##_reg_;
