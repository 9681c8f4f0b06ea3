// A seeded scheduler for real threads, one of which runs at any time, and a
// happens-before race detector fed by compiler instrumentation.
#ifndef SIM_SCHED_H
#define SIM_SCHED_H
#include <string>
#include <vector>

#include "ops.h"
void sched_child(World* w, const std::vector<OpLine>& ops, void (*emit)(const std::string&), void (*die)());
#endif
