// Exploration runtime shared by all checks.
//
// A driver defines
//   enumerate(tier, emit)  -- deterministic, calls emit(case_text) for every
//                             member of its bounded space;
//   check(case_text, ctx)  -- runs one case on the real code (exploring all of
//                             its internal schedule / fault points) and throws
//                             mc::Violation if the property is broken.
// The runtime shards the space over processes (by hash of the case), removes
// duplicates, attributes crashes / sanitizer reports / hangs to the case being
// run, re-runs every failing case alone before reporting it and prints the
// counts which were measured.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

struct Violation {
  std::string msg;
};

[[noreturn]] inline void fail(const std::string &m) { throw Violation{m}; }

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *s = (const unsigned char *) p;
  for (size_t i = 0; i < n; i++) h = (h ^ s[i]) * 1099511628211ull;
  return h;
}
inline uint64_t mix(uint64_t h) {
  h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
  h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33; return h;
}
inline uint64_t fnvs(const std::string &s) { return mix(fnv(s.data(), s.size())); }

inline double now() {
  struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Ctx {
  uint64_t transitions = 0;   // operations / opcodes executed on the real code
  uint64_t executions = 0;    // executions of the real code
  uint64_t validated = 0;     // executions compared with the reference model
  bool nontrivial = true;
  std::unordered_set<uint64_t> states;
  std::map<std::string, uint64_t> extra;
  void state(const std::string &s) { states.insert(fnvs(s)); }
  void count(const char *k, uint64_t n = 1) { extra[k] += n; }
};

struct Driver {
  const char *id;
  const char *rule;
  std::function<void(bool thorough, const std::function<void(const std::string &)> &emit)> enumerate;
  std::function<void(const std::string &, Ctx &)> check;
  double case_timeout = 20;
  std::vector<std::string> assumptions;
};

constexpr size_t CASE_MAX = 1 << 20;
struct Shm {
  volatile uint64_t seq;        // number of own cases started
  volatile uint64_t len;
  volatile double started;
  volatile int done;
  volatile int nviol;
  char text[CASE_MAX];
};

inline std::string jesc(const std::string &s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char) c;
  }
  return r + "\"";
}

inline std::string slurp(const std::string &p) {
  std::string r; FILE *f = fopen(p.c_str(), "rb"); if (!f) return r;
  char b[65536]; size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
  fclose(f); return r;
}
inline void spit(const std::string &p, const std::string &s) {
  FILE *f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); exit(3); }
  fwrite(s.data(), 1, s.size(), f); fclose(f);
}

struct Found { std::string text, msg; bool timeout; };

inline void quiet_child(const std::string &log) {
  int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  dup2(fd, 2); dup2(fd, 1); close(fd);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
}

// Runs one case alone. Returns "" if it holds, else a message.
inline std::string run_alone(const Driver &d, const std::string &text, const std::string &tmp, double tmo) {
  std::string log = tmp + "/alone.log", out = tmp + "/alone.out";
  unlink(out.c_str());
  pid_t p = fork();
  if (p == 0) {
    quiet_child(log);
    Ctx c; std::string m = "OK";
    try { d.check(text, c); } catch (Violation &v) { m = "V" + v.msg; }
    spit(out, m); _exit(0);
  }
  double t0 = now(); int st = 0;
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    if (now() - t0 > tmo) { kill(p, SIGKILL); waitpid(p, &st, 0); return "does not terminate within the time limit"; }
    usleep(2000);
  }
  std::string m = slurp(out);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && m == "OK") return "";
  if (!m.empty() && m[0] == 'V') return m.substr(1);
  std::string l = slurp(log);
  size_t e = l.find("ERROR:"); if (e != std::string::npos) l = l.substr(e);
  if (l.size() > 1500) l.resize(1500);
  char b[64]; snprintf(b, sizeof b, "crash (wait status 0x%x): ", st);
  return b + l;
}

inline int run(const Driver &d, int argc, char **argv) {
  bool thorough = false, first_only = false; int shards = 8; std::string tmp = "/tmp", out, replay, listed;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&] { return std::string(argv[++i]); };
    if (a == "--thorough") thorough = true;
    else if (a == "--shards") shards = atoi(nxt().c_str());
    else if (a == "--tmp") tmp = nxt();
    else if (a == "--out") out = nxt();
    else if (a == "--first") first_only = true;       // stop at the first violation
    else if (a == "--replay") replay = nxt();
    else if (a == "--list") {
      d.enumerate(thorough, [&](const std::string &s) { fwrite(s.data(), 1, s.size(), stdout); fputs("\n----\n", stdout); });
      return 0;
    } else if (a == "--count") {
      uint64_t n = 0; std::unordered_set<uint64_t> h;
      d.enumerate(thorough, [&](const std::string &s) { n++; h.insert(fnvs(s)); });
      printf("%llu cases, %llu distinct\n", (unsigned long long) n, (unsigned long long) h.size()); return 0;
    }
  }
  setvbuf(stdout, NULL, _IOLBF, 0);
  if (!replay.empty()) {
    std::string m = run_alone(d, slurp(replay), tmp, d.case_timeout * 10);
    if (m.empty()) { printf("holds\n"); return 0; }
    printf("violated: %s\n", m.c_str()); return 1;
  }
  double t0 = now();
  std::vector<Shm *> shm(shards); std::vector<pid_t> pid(shards, 0);
  std::vector<uint64_t> skip(shards, 0); std::vector<int> part(shards, 0);
  std::vector<Found> found; std::vector<std::string> parts;
  const int MAXV = 6;
  auto start = [&](int w) {
    Shm *s = shm[w]; s->started = now(); s->len = 0;
    std::string pf = tmp + "/part." + std::to_string(w) + "." + std::to_string(part[w]++);
    parts.push_back(pf);
    pid_t p = fork();
    if (p) { pid[w] = p; return; }
    quiet_child(tmp + "/w" + std::to_string(w) + ".log");
    Ctx c; std::unordered_set<uint64_t> seen; uint64_t gen = 0, nontriv = 0, run = 0, seq = 0;
    std::vector<std::string> samples; std::string viol;
    d.enumerate(thorough, [&](const std::string &t) {
      gen++;
      uint64_t h = fnvs(t);
      if ((int) (h % shards) != w) return;
      if (!seen.insert(h).second) return;
      if (seq++ < skip[w]) return;
      s->seq = seq;
      size_t n = t.size() < CASE_MAX ? t.size() : CASE_MAX - 1;
      memcpy(s->text, t.data(), n); s->len = n; s->started = now();
      if (s->nviol >= MAXV) return;
      c.nontrivial = true;
      try { d.check(t, c); } catch (Violation &v) {
        s->nviol = s->nviol + 1;
        viol += std::to_string(t.size()) + " " + std::to_string(v.msg.size()) + "\n" + t + v.msg;
      }
      run++; if (c.nontrivial) nontriv++;
      if (c.nontrivial && t.size() < 600 && (samples.size() < 2 || (run & (run - 1)) == 0) && samples.size() < 12) samples.push_back(t);
      s->started = now();
    });
    std::string r = "G " + std::to_string(gen) + "\nR " + std::to_string(run) + "\nN " + std::to_string(nontriv) +
                    "\nT " + std::to_string(c.transitions) + "\nE " + std::to_string(c.executions) + "\nD " + std::to_string(c.validated) + "\n";
    for (auto &x : c.extra) r += "X " + x.first + " " + std::to_string(x.second) + "\n";
    for (auto &x : samples) r += "S " + std::to_string(x.size()) + "\n" + x + "\n";
    r += "H " + std::to_string(c.states.size()) + "\n";
    for (auto x : c.states) r.append((char *) &x, 8);
    r += "\nV\n" + viol;
    spit(pf, r);
    s->done = 1;
    _exit(0);
  };
  for (int w = 0; w < shards; w++) {
    shm[w] = (Shm *) mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    start(w);
  }
  int alive = shards, ncrash = 0;
  while (alive > 0) {
    bool any = false;
    for (int w = 0; w < shards; w++) {
      if (!pid[w]) continue;
      int st = 0; pid_t r = waitpid(pid[w], &st, WNOHANG);
      bool tmo = false;
      if (r == 0) {
        if (shm[w]->len && now() - shm[w]->started > d.case_timeout) {
          kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); tmo = true;
        } else continue;
      }
      any = true; pid[w] = 0;
      if (shm[w]->done) { alive--; continue; }
      std::string text((char *) shm[w]->text, shm[w]->len);
      std::string log = slurp(tmp + "/w" + std::to_string(w) + ".log");
      size_t e = log.find("ERROR:"); if (e != std::string::npos) log = log.substr(e);
      if (log.size() > 1500) log.resize(1500);
      char b[64]; snprintf(b, sizeof b, "%s (wait status 0x%x): ", tmo ? "timeout" : "crash", st);
      found.push_back({text, b + log, tmo});
      if (++ncrash >= MAXV || first_only) {
        for (int x = 0; x < shards; x++) if (pid[x]) { kill(pid[x], SIGKILL); waitpid(pid[x], &st, 0); pid[x] = 0; }
        alive = 0; break;
      }
      skip[w] = shm[w]->seq; start(w);
    }
    if (first_only && alive > 0) {
      bool v = false; for (int x = 0; x < shards; x++) v |= shm[x]->nviol > 0;
      if (v) {
        int st; for (int x = 0; x < shards; x++) if (pid[x]) { kill(pid[x], SIGKILL); waitpid(pid[x], &st, 0); pid[x] = 0; if (shm[x]->nviol) found.push_back({std::string((char *) shm[x]->text, shm[x]->len), "violation", false}); }
        break;
      }
    }
    if (!any) usleep(5000);
  }
  uint64_t G = 0, R = 0, N = 0, T = 0, E = 0, D = 0; std::map<std::string, uint64_t> X; std::vector<std::string> S;
  std::unordered_set<uint64_t> H;
  for (auto &pf : parts) {
    std::string r = slurp(pf); size_t i = 0;
    auto line = [&] { size_t e = r.find('\n', i); std::string l = r.substr(i, e - i); i = e + 1; return l; };
    while (i < r.size()) {
      std::string l = line();
      if (l.empty()) continue;
      uint64_t v = l.size() > 2 ? strtoull(l.c_str() + 2, 0, 10) : 0;
      switch (l[0]) {
        case 'G': G = std::max(G, v); break;
        case 'R': R += v; break;
        case 'N': N += v; break;
        case 'T': T += v; break;
        case 'E': E += v; break;
        case 'D': D += v; break;
        case 'X': { size_t sp = l.rfind(' '); X[l.substr(2, sp - 2)] += strtoull(l.c_str() + sp, 0, 10); break; }
        case 'S': S.push_back(r.substr(i, v)); i += v + 1; break;
        case 'H': for (uint64_t k = 0; k < v; k++) { uint64_t h; memcpy(&h, &r[i + 8 * k], 8); H.insert(h); } i += 8 * v; break;
        case 'V':
          while (i < r.size()) {
            std::string l2 = line(); size_t a = 0, b2 = 0; sscanf(l2.c_str(), "%zu %zu", &a, &b2);
            found.push_back({r.substr(i, a), r.substr(i + a, b2), false}); i += a + b2;
          }
          break;
      }
    }
  }
  // confirm
  std::sort(found.begin(), found.end(), [](const Found &a, const Found &b) { return a.text.size() < b.text.size(); });
  std::string vj; int nv = 0;
  for (auto &f : found) {
    if (nv >= 8) break;
    std::string m = run_alone(d, f.text, tmp, d.case_timeout * 5);
    if (m.empty()) {
      if (f.timeout) continue;             // a slow machine, not a hang
      m = f.msg + " [seen in a run of many cases; alone it passes]";
    }
    std::string p = tmp + "/viol." + std::to_string(nv++);
    spit(p, f.text);
    vj += std::string(vj.empty() ? "" : ",") + "{\"file\":" + jesc(p) + ",\"msg\":" + jesc(m) + "}";
  }
  std::sort(S.begin(), S.end(), [](const std::string &a, const std::string &b) { return a.size() > b.size(); });
  std::string sj; size_t step = S.size() > 10 ? S.size() / 10 : 1;
  for (size_t i = 0; i < S.size(); i += step) sj += (sj.empty() ? "" : ",") + jesc(S[i]);
  std::string xj; for (auto &x : X) xj += (xj.empty() ? "" : ",") + jesc(x.first) + ":" + std::to_string(x.second);
  std::string aj; for (auto &x : d.assumptions) aj += (aj.empty() ? "" : ",") + jesc(x);
  char b[600];
  snprintf(b, sizeof b, "{\"generated\":%llu,\"run\":%llu,\"nontrivial\":%llu,\"transitions\":%llu,\"executions\":%llu,\"validated\":%llu,\"states\":%llu,\"wall\":%.2f,",
           (unsigned long long) G, (unsigned long long) R, (unsigned long long) N, (unsigned long long) T, (unsigned long long) E,
           (unsigned long long) D, (unsigned long long) H.size(), now() - t0);
  std::string j = std::string(b) + "\"aborted\":" + (ncrash >= MAXV ? "true" : "false") + ",\"rule\":" + jesc(d.rule) + ",\"samples\":[" + sj + "],\"extra\":{" + xj +
                  "},\"assumptions\":[" + aj + "],\"violations\":[" + vj + "]}\n";
  if (out.empty()) fputs(j.c_str(), stdout); else spit(out, j);
  return 0;
}

}  // namespace mc
