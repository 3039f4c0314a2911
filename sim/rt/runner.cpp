// Runs seeds: one forked child per run, so that each run is a pure function of
// its seed. Not instrumented.
#include "runner.h"

#include <cinttypes>
#include <cmath>
#include <cstddef>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sched.h>
#include <unistd.h>

namespace sim::rt {
void init_memory();
}
namespace sim {
static Workload *all = nullptr;
void register_workload(Workload *w) {
  Workload **at = &all;
  while (*at && strcmp((*at)->name, w->name) < 0)
    at = &(*at)->next;
  w->next = *at;
  *at = w;
}
} // namespace sim

using namespace sim;
namespace {

struct Spec {
  std::string workload;
  uint64_t draw_seed = 0;
  bool fixed_draws = false;
  std::vector<uint32_t> draws;
  Config cfg;
};

uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

double now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// Everything about a run follows from its seed.
Spec spec_for(uint64_t seed, const std::vector<Workload *> &ws) {
  uint64_t s = seed;
  auto next = [&] { return s = mix64(s); };
  auto unit = [&] { return (next() >> 11) * 0x1.0p-53; };
  Spec sp;
  int total = 0;
  for (auto *w : ws)
    total += w->weight;
  int k = static_cast<int>(next() % total);
  for (auto *w : ws) {
    if (k < w->weight) {
      sp.workload = w->name;
      break;
    }
    k -= w->weight;
  }
  sp.draw_seed = next();
  auto &c = sp.cfg;
  c.seed = next();
  static const int policies[] = {RandomWalk, RandomWalk, Pct,   Pct, Conflict,
                                 Conflict,   SyncOnly,   Stall, Stall, RunToBlock};
  c.policy = policies[next() % 10];
  static const int workers[] = {1, 2, 3, 3, 4, 5, 7};
  c.workers = workers[next() % 7];
  c.gap = std::exp(1.5 + 7.5 * unit());
  c.pct_depth = 1 + static_cast<int>(next() % 6);
  c.pct_len = static_cast<uint64_t>(std::exp(4 + 9 * unit()));
  static const uint8_t junk[] = {0xCB, 0x00, 0xFF, 0x7F, 0x3F};
  c.junk = junk[next() % 5];
  return sp;
}

struct Outcome {
  int status; // as in Report, 4 = killed from outside
};

Outcome run_spec(const Spec &sp, double wall) {
  auto *r = report;
  memset(static_cast<void *>(r), 0, offsetof(Report, choices));
  Workload *w = all;
  while (w && sp.workload != w->name)
    w = w->next;
  if (!w) {
    fprintf(stderr, "no workload %s\n", sp.workload.c_str());
    exit(64);
  }
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(70);
  }
  if (pid == 0) {
    set_draws(sp.draw_seed, sp.fixed_draws ? &sp.draws : nullptr);
    sim::run(sp.cfg, [w] {
      try {
        w->fn();
      } catch (const std::exception &e) {
        // Documented limit.
        if (strstr(e.what(), "more than 6 dimensions are not supported"))
          sim::skip("more than 6 dimensions");
        sim::violation("exception", "exception out of the workload: %.600s",
                       e.what());
      }
    });
    _exit(0);
  }
  int st = 0;
  const double deadline = now() + wall;
  struct timespec nap{0, 2000000};
  // Fast path: block until the child is done, with an alarm as a fallback.
  (void)nap;
  sigset_t set, old;
  sigemptyset(&set);
  sigaddset(&set, SIGCHLD);
  sigprocmask(SIG_BLOCK, &set, &old);
  bool killed = false;
  for (;;) {
    const pid_t got = waitpid(pid, &st, WNOHANG);
    if (got == pid)
      break;
    const double left = deadline - now();
    if (left <= 0 && !killed) {
      kill(pid, SIGKILL);
      killed = true;
      waitpid(pid, &st, 0);
      break;
    }
    timespec ts{static_cast<time_t>(left), 100000000};
    sigtimedwait(&set, nullptr, &ts);
  }
  sigprocmask(SIG_SETMASK, &old, nullptr);
  if (killed) {
    snprintf(r->cls, sizeof(r->cls), "wall-clock");
    snprintf(r->msg, sizeof(r->msg), "run exceeded %.0f s of real time", wall);
    r->status = 4;
  } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && r->status == 0) {
    snprintf(r->cls, sizeof(r->cls), "killed");
    snprintf(r->msg, sizeof(r->msg), "killed from outside");
    r->status = 4;
  } else if (WIFSIGNALED(st) && r->status != 2) {
    snprintf(r->cls, sizeof(r->cls), "crash");
    snprintf(r->msg, sizeof(r->msg), "killed by signal %d", WTERMSIG(st));
    r->status = 2;
  } else if (r->status == 0) {
    snprintf(r->cls, sizeof(r->cls), "exit");
    snprintf(r->msg, sizeof(r->msg), "the process ended with status %d",
             WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    r->status = WIFEXITED(st) && WEXITSTATUS(st) == 70 ? 3 : 2;
  }
  return {r->status};
}

void json_str(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; ++s) {
    const auto c = static_cast<unsigned char>(*s);
    if (c == '"' || c == '\\')
      fprintf(f, "\\%c", c);
    else if (c < 32)
      fprintf(f, "\\u%04x", c);
    else
      fputc(c, f);
  }
  fputc('"', f);
}

void print_result(FILE *f, const Spec &sp, bool full, bool twice = false) {
  const auto *r = report;
  fprintf(f, "{\"workload\":\"%s\",\"status\":%d,\"cls\":", sp.workload.c_str(),
          r->status);
  json_str(f, r->cls);
  fprintf(f, ",\"msg\":");
  json_str(f, r->msg);
  fprintf(f,
          ",\"hash\":\"%016" PRIx64 "\",\"sched\":\"%016" PRIx64
          "\",\"events\":%" PRIu64 ",\"steps\":%" PRIu64
          ",\"switches\":%" PRIu64 ",\"tasks\":%" PRIu64,
          r->hash, r->sched_hash, r->events, r->steps, r->switches, r->tasks);
  fprintf(f, ",\"faults\":[");
  for (int i = 0; i < NumFaults; ++i)
    fprintf(f, "%s%" PRIu64, i ? "," : "", r->faults[i]);
  fprintf(f, "],\"probes\":[");
  bool first = true;
  for (int i = 0; i < 64; ++i)
    if (r->probes[i]) {
      fprintf(f, "%s[%d,%" PRIu64 "]", first ? "" : ",", i, r->probes[i]);
      first = false;
    }
  fprintf(f, "],\"policy\":%d,\"twice\":%s", sp.cfg.policy,
          twice ? "true" : "false");
  if (full) {
    fprintf(f, ",\"draws\":[");
    for (uint64_t i = 0; i < r->ndraws; ++i)
      fprintf(f, "%s%u", i ? "," : "", r->draws[i]);
    fprintf(f, "],\"choices\":[");
    for (uint64_t i = 0; i < r->nchoices; ++i)
      fprintf(f, "%s[%" PRIu64 ",%u]", i ? "," : "", r->choices[i].event,
              r->choices[i].value);
    const auto &c = sp.cfg;
    fprintf(f,
            "],\"config\":{\"seed\":%" PRIu64
            ",\"policy\":%d,\"workers\":%d,\"gap\":%.17g,\"pct_depth\":%d,"
            "\"pct_len\":%" PRIu64 ",\"junk\":%d}",
            c.seed, c.policy, c.workers, c.gap, c.pct_depth, c.pct_len, c.junk);
  }
  fprintf(f, "}\n");
}

// Spec file: whitespace-separated "key value..." lines.
bool read_spec(FILE *f, Spec &sp) {
  char key[64];
  bool any = false;
  sp = Spec{};
  while (fscanf(f, "%63s", key) == 1) {
    const std::string k = key;
    any = true;
    if (k == "end")
      return true;
    if (k == "workload") {
      char b[128];
      if (fscanf(f, "%127s", b) != 1)
        return false;
      sp.workload = b;
    } else if (k == "seed") {
      if (fscanf(f, "%" SCNu64, &sp.cfg.seed) != 1)
        return false;
    } else if (k == "policy") {
      if (fscanf(f, "%d", &sp.cfg.policy) != 1)
        return false;
    } else if (k == "workers") {
      if (fscanf(f, "%d", &sp.cfg.workers) != 1)
        return false;
    } else if (k == "gap") {
      if (fscanf(f, "%lg", &sp.cfg.gap) != 1)
        return false;
    } else if (k == "pct_depth") {
      if (fscanf(f, "%d", &sp.cfg.pct_depth) != 1)
        return false;
    } else if (k == "pct_len") {
      if (fscanf(f, "%" SCNu64, &sp.cfg.pct_len) != 1)
        return false;
    } else if (k == "junk") {
      int j;
      if (fscanf(f, "%d", &j) != 1)
        return false;
      sp.cfg.junk = static_cast<uint8_t>(j);
    } else if (k == "draws") {
      size_t n;
      if (fscanf(f, "%zu", &n) != 1)
        return false;
      sp.fixed_draws = true;
      sp.draws.resize(n);
      for (auto &d : sp.draws)
        if (fscanf(f, "%u", &d) != 1)
          return false;
    } else if (k == "choices") {
      size_t n;
      if (fscanf(f, "%zu", &n) != 1)
        return false;
      sp.cfg.replay = true;
      sp.cfg.choices.resize(n);
      for (auto &c : sp.cfg.choices)
        if (fscanf(f, "%" SCNu64 ":%u", &c.event, &c.value) != 2)
          return false;
    } else
      return false;
  }
  return any;
}

const char *opt(int argc, char **argv, const char *name, const char *dflt) {
  for (int i = 2; i + 1 < argc; ++i)
    if (!strcmp(argv[i], name))
      return argv[i + 1];
  return dflt;
}
} // namespace

int main(int argc, char **argv) {
  // Fixed addresses: rerun without address space randomisation if possible.
  const int per = personality(0xffffffff);
  if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIMRUN_REEXEC")) {
    setenv("SIMRUN_REEXEC", "1", 1);
    if (personality(per | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  if (argc < 2)
    return 64;
  report = static_cast<Report *>(mmap(nullptr, sizeof(Report),
                                      PROT_READ | PROT_WRITE,
                                      MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  const std::string cmd = argv[1];
  const double wall = atof(opt(argc, argv, "--wall", "120"));
  const int cpu = atoi(opt(argc, argv, "--cpu", "-1"));
  if (cpu >= 0) { // one running thread at a time: keep the hand-off on one core
    cpu_set_t set;
    if (sched_getaffinity(0, sizeof(set), &set) == 0) {
      int n = CPU_COUNT(&set);
      int want = n ? cpu % n : 0;
      for (int i = 0; i < CPU_SETSIZE; ++i)
        if (CPU_ISSET(i, &set) && want-- == 0) {
          CPU_ZERO(&set);
          CPU_SET(i, &set);
          sched_setaffinity(0, sizeof(set), &set);
          break;
        }
    }
  }
  rt::init_memory();
  if (cmd == "list") {
    for (auto *w = all; w; w = w->next)
      printf("%s %d\n", w->name, w->weight);
    return 0;
  }
  if (cmd == "serve") { // specs on stdin, one result line each
    setvbuf(stdin, nullptr, _IONBF, 0);
    Spec sp;
    while (read_spec(stdin, sp)) {
      run_spec(sp, wall);
      print_result(stdout, sp, true);
      fflush(stdout);
    }
    return 0;
  }
  if (cmd != "batch")
    return 64;
  const std::string prefix = opt(argc, argv, "--prefix", "");
  std::vector<Workload *> ws;
  for (auto *w = all; w; w = w->next)
    if (strncmp(w->name, prefix.c_str(), prefix.size()) == 0 && w->weight > 0)
      ws.push_back(w);
  if (ws.empty()) {
    fprintf(stderr, "no workloads match %s\n", prefix.c_str());
    return 64;
  }
  const uint64_t seed = strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10);
  const uint64_t start = strtoull(opt(argc, argv, "--start", "0"), nullptr, 10);
  const uint64_t stride =
      strtoull(opt(argc, argv, "--stride", "1"), nullptr, 10);
  const uint64_t count =
      strtoull(opt(argc, argv, "--count", "100"), nullptr, 10);
  const double seconds = atof(opt(argc, argv, "--seconds", "60"));
  const int max_bad = atoi(opt(argc, argv, "--max-bad", "3"));
  uint64_t every = strtoull(opt(argc, argv, "--twice-every", "0"), nullptr, 10);
  if (atoi(opt(argc, argv, "--twice", "0")))
    every = 1;
  uint64_t base = seed;
  for (const char *c = prefix.c_str(); *c; ++c)
    base = mix64(base ^ static_cast<unsigned char>(*c));
  const double end = now() + seconds;
  int bad = 0;
  uint64_t nth = 0;
  for (uint64_t i = start; i < count && now() < end; i += stride) {
    const bool twice = every && nth++ % every == 0;
    const auto sp = spec_for(mix64(base + i * 0x632be59bd9b4e019ull), ws);
    run_spec(sp, wall);
    const bool v = report->status != 1;
    printf("%" PRIu64 " ", i);
    if (twice) {
      const uint64_t h = report->hash;
      const int st = report->status;
      run_spec(sp, wall);
      if (report->hash != h || report->status != st) {
        printf("{\"nondeterministic\":true,\"workload\":\"%s\"}\n",
               sp.workload.c_str());
        continue;
      }
    }
    print_result(stdout, sp, v, twice);
    fflush(stdout);
    if (report->status == 2 && ++bad >= max_bad)
      break;
  }
  return 0;
}
