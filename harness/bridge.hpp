#pragma once
#include "graph.hpp"
#include "oracle.hpp"
#include <models/Dataflow.h>
#include <commons/KiterRegistry.h>
#include <commons/verbose.h>

bool idGaps(const G &g);
models::Dataflow *toKiter(const G &g);
G fromKiter(const models::Dataflow *d);          // reads the graph back through the getters
std::string toXML(const G &g, bool csdfType = true);
// runs a registered algorithm (what `-a name` does) and returns what it printed on stdout
std::string runAlgo(models::Dataflow *d, const std::string &name, parameters_list_t p = parameters_list_t());
bool findNumber(const std::string &out, const std::string &prefix, long double &v);
struct Capture { std::streambuf *old; std::stringstream ss; Capture(); ~Capture(); std::string str(); };
std::string canon(const G &g);  // canonical text used to compare two graphs
