// Shared workload profiles.
#pragma once
#include "mon.hpp"
#include <algorithms/schedulings.h>
#include <algorithms/throughput/kperiodic.h>
#include <models/repetition_vector.h>
#include <models/EventGraph.h>
#include <models/Scheduling.h>

// A live-or-not, consistent, weakly connected graph without auto-concurrency, positive durations.
G thrGraph(Ctx &c, std::string *profile = nullptr);
std::string sig(const G &g);   // behaviour-relevant signature of a graph (for distinct counting)
void printedThroughput(Ctx &c, const G &g, const char *algo, const Period &p, long double tol, parameters_list_t prm = parameters_list_t());
bool replaySchedule(Ctx &c, const G &g, const models::Scheduling &s, const std::string &key, const Period *expect, ll iterations);
// start sequences out of a schedule printed as text
bool parseText(const std::string &out, const G &g, std::vector<StartSeq> &q, std::string &why);
