// K20: the workloads of the other monitors under AddressSanitizer, UBSan and checked containers. Their verdicts are
// muted: only what the instrumentation reports (or a crash) counts here.
#include "domain.hpp"
#include <stdexcept>

MONITOR(K20, workloads, 1) {
  static const std::set<std::string> skip = {"K20", "K23"};
  std::vector<const Mon *> pool;
  for (auto &m : mons()) if (!skip.count(m.prop) && m.name != "commandline" && m.name != "reproducible") pool.push_back(&m);
  std::sort(pool.begin(), pool.end(), [](const Mon *a, const Mon *b) { return a->prop != b->prop ? a->prop < b->prop : a->name < b->name; });
  const Mon *m = pool[(c.idx + c.idx / 8 / pool.size()) % pool.size()];   // every monitor in turn, on every worker
  c.mute = true; c.step(m->prop + "/" + m->name);
  try { m->fn(c); }
  catch (std::runtime_error *) { c.inc("refused"); }
  catch (std::exception &) { c.inc("refused"); }
  c.mute = false; c.inc("workload " + m->prop); c.inc("executions watched");
}
