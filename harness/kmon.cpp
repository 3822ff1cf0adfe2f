// kmon: runs cases of one property's monitors. Usage:
//   kmon --prop P --seed S --from A --step K --time SEC [--max N] [--case I] --scratch DIR [--thorough]
// Output: lines  C<TAB>counter<TAB>n | D<TAB>hash | S<TAB>sample | F<TAB>case<TAB>monitor<TAB>key<TAB>message
//                X<TAB>case<TAB>monitor<TAB>kind<TAB>step<TAB>report   (crash / hang of the code under test)
#include "mon.hpp"
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <iostream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <poll.h>

std::vector<Mon> &mons() { static std::vector<Mon> m; return m; }

static int g_fd = -1;
static std::string g_buf;
static void emit(const std::string &tag, std::string a) {
  for (auto &ch : a) if (ch == '\n') ch = ' ';
  g_buf += tag + "\t" + a + "\n";
  if (tag != "K" || true) { size_t o = 0; while (o < g_buf.size()) { ssize_t k = write(g_fd, g_buf.data() + o, g_buf.size() - o); if (k <= 0) break; o += k; } g_buf.clear(); }
}
static std::map<std::string, long> g_cnt;
static uint64_t fnv(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
void Ctx::fail(const std::string &key, const std::string &msg) { if (mute) { inc("muted verdicts"); return; } emit("F", key + "\t" + msg.substr(0, 3000)); }
void Ctx::inc(const std::string &c, long n) { g_cnt[c] += n; }
void Ctx::state(const std::string &w) { char b[32]; snprintf(b, 32, "%016lx", fnv(w)); emit("D", b); }
void Ctx::sample(const std::string &w) { if (idx < 40) emit("S", w.substr(0, 400)); }
void Ctx::step(const std::string &w) { emit("K", w.substr(0, 1500)); }

static uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ b); r.next(); return r.next() ^ (b << 17); }

int main(int argc, char **argv) {
  std::string prop, scratch = "/tmp", only; uint64_t seed = 1; long from = 0, step = 1, maxn = -1, one = -1; double tlim = 10; bool thorough = false, verbose = false, nofork = false; int cpu = 20;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--from") from = atol(nx().c_str()); else if (a == "--step") step = atol(nx().c_str());
    else if (a == "--max") maxn = atol(nx().c_str()); else if (a == "--case") one = atol(nx().c_str());
    else if (a == "--time") tlim = atof(nx().c_str()); else if (a == "--scratch") scratch = nx();
    else if (a == "--thorough") thorough = true; else if (a == "--verbose") verbose = true; else if (a == "--nofork") nofork = true;
    else if (a == "--only") only = nx(); else if (a == "--cpu") cpu = atoi(nx().c_str());
    else if (a == "--list") { for (auto &m : mons()) printf("%s %s %d\n", m.prop.c_str(), m.name.c_str(), m.weight); return 0; }
  }
  std::vector<Mon> ms; std::vector<int> wheel;
  for (auto &m : mons()) if (m.prop == prop && (only.empty() || m.name == only)) ms.push_back(m);
  std::sort(ms.begin(), ms.end(), [](const Mon &a, const Mon &b) { return a.name < b.name; });
  for (size_t i = 0; i < ms.size(); i++) for (int k = 0; k < ms[i].weight; k++) wheel.push_back(i);
  if (ms.empty()) { fprintf(stderr, "no monitor for %s\n", prop.c_str()); return 2; }
  auto t0 = std::chrono::steady_clock::now();
  std::map<std::string, long> cnt;
  std::unordered_set<std::string> dist;
  setvbuf(stdout, nullptr, _IOLBF, 0);
  commons::set_verbose_mode(commons::ERROR_LEVEL);
  long done = 0;
  for (long i = (one >= 0 ? one : from);; i += step) {
    if (one >= 0 && i != one) break;
    if (maxn >= 0 && i >= maxn) break;
    if (one < 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > tlim) break;
    Mon &m = ms[wheel[(size_t)(mix(seed, (uint64_t)i / 1) >> 20) % wheel.size()]];
    // interleave the monitors evenly instead of at random so that each gets its share
    m = m; Mon &mm = ms[wheel[(size_t)i % wheel.size()]];
    uint64_t h = mix(mix(seed, 77), (uint64_t)i);
    int fd[2]; if (pipe(fd)) return 2;
    int efd = open((scratch + "/stderr.txt").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    pid_t pid = nofork ? 0 : fork();
    if (pid == 0) {
      if (!nofork) { close(fd[0]); if (!verbose) dup2(efd, 2); }
      g_fd = nofork ? 1 : fd[1];
      if (!nofork) {
      struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = cpu; setitimer(ITIMER_PROF, &it, nullptr);
      struct itimerval wt; memset(&wt, 0, sizeof wt); wt.it_value.tv_sec = cpu * 8; setitimer(ITIMER_REAL, &wt, nullptr);
#ifndef __DEBUG_MODE__
      struct rlimit rl; rl.rlim_cur = rl.rlim_max = 3500000000ul; setrlimit(RLIMIT_AS, &rl);
#endif
      struct rlimit rc0 = {0, 0}; setrlimit(RLIMIT_CORE, &rc0);
      signal(SIGPROF, SIG_DFL); signal(SIGALRM, SIG_DFL); }
      Ctx c(seed, (uint64_t)i, h); c.thorough = thorough; c.verbose = verbose; c.scratch = scratch;
#ifdef __DEBUG_MODE__
      c.san = "san";
#else
      c.san = "rel";
#endif
      try { mm.fn(c); }
      catch (std::runtime_error *e) { emit("X", std::string("failed\t") + e->what()); }
      catch (std::exception &e) { emit("X", std::string("exception\t") + e.what()); }
      catch (std::runtime_error &e) { emit("X", std::string("exception\t") + e.what()); }
      catch (...) { emit("X", "exception\tunknown"); }
      for (auto &kv : g_cnt) emit("C", kv.first + "\t" + std::to_string(kv.second));
      emit("Z", "done");
      if (nofork) return 0;
      _exit(0);
    }
    close(fd[1]);
    std::string out; char buf[65536]; ssize_t k;
    while ((k = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, k);
    close(fd[0]);
    int st = 0; waitpid(pid, &st, 0);
    done++;
    bool z = false, x = false; std::string laststep;
    size_t p = 0;
    while (p < out.size()) {
      size_t q = out.find('\n', p); if (q == std::string::npos) q = out.size();
      std::string ln = out.substr(p, q - p); p = q + 1;
      if (ln.size() < 2) continue;
      std::string body = ln.substr(2);
      switch (ln[0]) {
        case 'F': printf("F\t%ld\t%s\t%s\n", i, mm.name.c_str(), body.c_str()); break;
        case 'X': printf("X\t%ld\t%s\t%s\t%s\n", i, mm.name.c_str(), body.c_str(), laststep.c_str()); x = true; break;
        case 'C': { size_t t = body.find('\t'); cnt[body.substr(0, t)] += atol(body.c_str() + t + 1); break; }
        case 'D': dist.insert(body); break;
        case 'S': printf("S\t%s\n", body.c_str()); break;
        case 'K': laststep = body; break;
        case 'Z': z = true; break;
      }
    }
    if (!z && !x) {
      std::string kind, rep;
      if (WIFSIGNALED(st)) { int s = WTERMSIG(st); kind = (s == SIGPROF || s == SIGALRM) ? (s == SIGALRM ? "wallclock" : "hang") : "signal" + std::to_string(s); }
      else kind = "exit" + std::to_string(WEXITSTATUS(st));
      lseek(efd, 0, SEEK_SET); k = read(efd, buf, sizeof buf - 1); if (k < 0) k = 0; buf[k] = 0; rep = buf;
      size_t a = rep.find("ERROR: AddressSanitizer"); if (a == std::string::npos) a = rep.find("runtime error"); if (a != std::string::npos) { size_t b = rep.rfind('\n', a); rep = rep.substr(b == std::string::npos ? 0 : b + 1); kind = "sanitizer"; }
      rep = rep.substr(0, 2500); for (auto &ch : rep) if (ch == '\n' || ch == '\t') ch = ' ';
      printf("X\t%ld\t%s\t%s\t%s\t%s\n", i, mm.name.c_str(), kind.c_str(), rep.c_str(), laststep.c_str());
    }
    close(efd);
    cnt["cases." + mm.name]++;
  }
  for (auto &kv : cnt) printf("C\t%s\t%ld\n", kv.first.c_str(), kv.second);
  size_t lim = 0; for (auto &d : dist) { if (lim++ > 400000) break; printf("D\t%s\n", d.c_str()); }
  printf("N\t%ld\n", done);
  printf("END\n");
  return 0;
}
