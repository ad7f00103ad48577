#include "sim.hpp"
#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <typeinfo>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <chrono>
#include <time.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <boost/assert.hpp>

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_set_error_report_callback(void (*)(const char *));
extern "C" const char * __asan_get_report_description();
#endif

#include <random>
// randomness seam: std::random_device (cobalt::race seeds its shuffle from it)
// draws from the choice stream.
unsigned int std::random_device::_M_getval() { return sim::in_run() ? sim::choose(1u << 16, "random") : 0u; }

namespace sim
{
namespace
{
constexpr std::size_t max_choices = 1u << 17;
constexpr std::size_t log_size = 1u << 19;
constexpr std::size_t state_bits = 1u << 20;
struct counter { char name[56]; std::uint64_t n; };
enum outcome_t : int { running = 0, ok = 1, violated = 2, foreign = 3, herror = 4 };

struct shm_t
{
  // per run
  volatile int outcome;
  char cls[128];
  char msg[4096];
  std::uint64_t hash;
  std::uint64_t steps;
  std::int64_t sim_ns;
  std::uint64_t events;
  std::uint32_t n_choices;
  std::uint32_t n_faults;
  std::size_t log_len;
  // accumulating
  counter faults[64];
  counter probes[192];
  std::uint8_t states[state_bits / 8];
  std::uint32_t choices[max_choices];
  char log[log_size];
};
shm_t * S;

bool active = false;
bool replaying = false;
std::vector<std::uint32_t> replay_choices;
std::uint64_t rng_s[2];
bool verbose = false;
std::uint64_t step_limit = 400000;
std::string prop_;
int tier_ = 0;

std::uint64_t splitmix(std::uint64_t & x)
{
  std::uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
std::uint64_t next_u64()
{
  std::uint64_t s1 = rng_s[0], s0 = rng_s[1], r = s0 + s1;
  rng_s[0] = s0;
  s1 ^= s1 << 23;
  rng_s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return r;
}
void hash_bytes(const char * p, std::size_t n)
{
  std::uint64_t h = S->hash;
  for (std::size_t i = 0; i < n; i++) { h ^= (unsigned char)p[i]; h *= 0x100000001b3ull; }
  S->hash = h;
}
void bump(counter * c, std::size_t cap, const char * name)
{
  for (std::size_t i = 0; i < cap; i++)
  {
    if (c[i].name[0] == 0) { std::strncpy(c[i].name, name, sizeof(c[i].name) - 1); c[i].n = 1; return; }
    if (std::strncmp(c[i].name, name, sizeof(c[i].name) - 1) == 0) { c[i].n++; return; }
  }
}
void log_raw(const char * p, std::size_t n)
{
  if (S->log_len + n + 1 < log_size)
  {
    std::memcpy(S->log + S->log_len, p, n);
    S->log_len += n;
    S->log[S->log_len] = 0;
  }
}
}

std::int64_t steady_ns = 0;
std::int64_t system_off_ns = 0;

const char * prop() { return prop_.c_str(); }
int tier() { return tier_; }
bool in_run() { return active; }

std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}

std::uint32_t choose(std::uint32_t n, const char * label)
{
  if (n <= 1u) return 0u;
  std::uint32_t v, i = S->n_choices;
  if (replaying)
    v = i < replay_choices.size() ? replay_choices[i] % n : 0u;
  else
    v = static_cast<std::uint32_t>((next_u64() >> 11) % n);
  if (i < max_choices) { S->choices[i] = v; S->n_choices = i + 1; }
  else violation("no-progress", "choice budget exhausted");
  (void)label;
  return v;
}

bool chance(std::uint32_t num, std::uint32_t den, const char * label)
{
  if (num == 0) return false;
  // 0 must mean false: invert
  return choose(den, label) >= den - num;
}

int range(int lo, int hi, const char * label) { return lo + static_cast<int>(choose(static_cast<std::uint32_t>(hi - lo + 1), label)); }

void ev(const char * fmt, ...)
{
  char buf[1024];
  va_list ap; va_start(ap, fmt);
  int n = std::vsnprintf(buf, sizeof(buf) - 1, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if (n > (int)sizeof(buf) - 2) n = sizeof(buf) - 2;
  buf[n++] = '\n';
  hash_bytes(buf, n);
  S->events++;
  log_raw(buf, n);
  if (verbose) { [[maybe_unused]] auto r = ::syscall(SYS_write, 2, buf, (std::size_t)n); }
}

static bool owned(const char * cls)
{
  const char * o = !std::strncmp(cls, "cancel:", 7) ? "P12,P13" : sim_class_owner(cls);
  if (o == nullptr || *o == 0) return true;
  return std::strstr(o, prop_.c_str()) != nullptr;
}
bool owns(const char * cls) { return owned(cls); }

[[noreturn]] void violation(const char * cls, const char * fmt, ...)
{
  char buf[2048];
  va_list ap; va_start(ap, fmt);
  std::vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  std::strncpy(S->cls, cls, sizeof(S->cls) - 1);
  std::strncpy(S->msg, buf, sizeof(S->msg) - 1);
  ev("VIOLATION %s: %s", cls, buf);
  S->sim_ns = steady_ns;
  S->outcome = owned(cls) ? violated : foreign;
  ::_exit(0);
}

[[noreturn]] void harness_error(const char * fmt, ...)
{
  char buf[2048];
  va_list ap; va_start(ap, fmt);
  std::vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  std::strncpy(S->cls, "harness-error", sizeof(S->cls) - 1);
  std::strncpy(S->msg, buf, sizeof(S->msg) - 1);
  S->outcome = herror;
  ::_exit(0);
}

[[noreturn]] void finish_run()
{
  S->sim_ns = steady_ns;
  S->outcome = ok;
  ::_exit(0);
}

void fault(const char * kind) { if (!active) return; bump(S->faults, 64, kind); S->n_faults++; ev("fault %s", kind); }
void probe(const char * name) { if (!active) return; bump(S->probes, 192, name); }
void state(std::uint64_t h)
{
  h = mix(h, 0x1234567) % state_bits;
  S->states[h / 8] |= static_cast<std::uint8_t>(1u << (h % 8));
}
void step()
{
  if (++S->steps > step_limit)
    violation("no-progress", "step budget of %llu exhausted", (unsigned long long)step_limit);
}
void set_step_limit(std::uint64_t n) { step_limit = n; }
}

using namespace sim;

// ---- assertion / terminate / sanitizer capture -------------------------------
namespace boost
{
void assertion_failed(char const * expr, char const * function, char const * file, long line)
{
  const char * b = std::strrchr(file, '/');
  violation("crash:assert", "BOOST_ASSERT(%s) failed in %s:%ld", expr, b ? b + 1 : file, line);
}
void assertion_failed_msg(char const * expr, char const * msg, char const * function, char const * file, long line)
{
  const char * b = std::strrchr(file, '/');
  violation("crash:assert", "BOOST_ASSERT(%s) [%s] failed in %s:%ld", expr, msg, b ? b + 1 : file, line);
}
}

namespace std
{
// _GLIBCXX_ASSERTIONS
void __glibcxx_assert_fail(const char * file, int line, const char * function, const char * condition) noexcept
{
  const char * b = file ? std::strrchr(file, '/') : nullptr;
  violation("crash:assert", "libstdc++ precondition %s failed in %s:%d", condition, b ? b + 1 : "?", line);
}
}

namespace
{
void on_terminate()
{
  const char * what = "no exception";
  static char buf[512];
  if (auto e = std::current_exception())
  {
    try { std::rethrow_exception(e); }
    catch (std::exception & ex) { std::snprintf(buf, sizeof(buf), "%s: %s", typeid(ex).name(), ex.what()); what = buf; }
    catch (...) { what = "unknown exception"; }
  }
  violation("crash:terminate", "std::terminate called: %s", what);
}
#if defined(__SANITIZE_ADDRESS__)
void on_asan(const char * report)
{
  char cls[120];
  std::snprintf(cls, sizeof(cls), "crash:asan:%s", __asan_get_report_description());
  std::strncpy(S->cls, cls, sizeof(S->cls) - 1);
  std::strncpy(S->msg, report, sizeof(S->msg) - 1);
  S->outcome = violated;
}
#endif

struct result_t { std::string outcome, cls, msg; };

result_t run_one(std::uint64_t seed, const std::vector<std::uint32_t> * choices)
{
  S->outcome = running;
  S->cls[0] = S->msg[0] = 0;
  S->hash = 0xcbf29ce484222325ull;
  S->steps = 0; S->sim_ns = 0; S->events = 0; S->n_choices = 0; S->n_faults = 0; S->log_len = 0; S->log[0] = 0;
  std::fflush(nullptr);
  pid_t pid = ::fork();
  if (pid == 0)
  {
    struct rlimit rl{10, 10};
    setrlimit(RLIMIT_CPU, &rl); // runaway loops: CPU time, independent of machine load
    ::alarm(25); // a run that blocks for ever
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    if (!verbose)
    {
      int fd = ::open("/dev/null", O_WRONLY);
      ::dup2(fd, 2); ::dup2(fd, 1);
    }
    std::set_terminate(&on_terminate);
#if defined(__SANITIZE_ADDRESS__)
    __asan_set_error_report_callback(&on_asan);
#endif
    if (choices) { replaying = true; replay_choices = *choices; }
    else
    {
      std::uint64_t x = seed;
      rng_s[0] = splitmix(x); rng_s[1] = splitmix(x);
    }
    steady_ns = 0; system_off_ns = 0;
    active = true;
    sim_main();
    finish_run();
  }
  int st = 0;
  while (::waitpid(pid, &st, 0) < 0 && errno == EINTR);
  result_t r;
  if (S->outcome == violated) r = {"violation", S->cls, S->msg};
  else if (S->outcome == foreign) r = {"foreign", S->cls, S->msg};
  else if (S->outcome == herror) r = {"error", S->cls, S->msg};
  else if (S->outcome == ok && WIFEXITED(st)) r = {"ok", "", ""};
  else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM)) r = {"violation", "hang", "run did not finish within its CPU and wall clock budget (endless loop or blocked for ever)"};
  else if (WIFSIGNALED(st)) r = {"violation", std::string("crash:signal:") + std::to_string(WTERMSIG(st)), "run killed by signal"};
  else r = {"violation", std::string("crash:exit:") + std::to_string(WEXITSTATUS(st)), "run exited abnormally"};
  // the message of a crash contains addresses: never part of the hash
  return r;
}

std::string jstr(const char * p)
{
  std::string o = "\"";
  for (; *p; p++)
  {
    unsigned char c = *p;
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

void print_run(FILE * f, const result_t & r, std::uint64_t seed, bool with_choices, bool with_log)
{
  std::fprintf(f, "{\"outcome\":%s,\"cls\":%s,\"msg\":%s,\"hash\":\"%016" PRIx64 "\",\"seed\":%" PRIu64 ",\"steps\":%" PRIu64
               ",\"events\":%" PRIu64 ",\"sim_ns\":%" PRId64 ",\"faults\":%u,\"nchoices\":%u",
               jstr(r.outcome.c_str()).c_str(), jstr(r.cls.c_str()).c_str(), jstr(r.msg.c_str()).c_str(), S->hash, seed, S->steps, S->events,
               S->sim_ns, S->n_faults, S->n_choices);
  if (with_choices)
  {
    std::fprintf(f, ",\"choices\":[");
    for (std::uint32_t i = 0; i < S->n_choices; i++) std::fprintf(f, i ? ",%u" : "%u", S->choices[i]);
    std::fprintf(f, "]");
  }
  if (with_log) std::fprintf(f, ",\"log\":%s", jstr(S->log).c_str());
  std::fprintf(f, "}\n");
}
}

extern "C" const char * __asan_default_options()
{
  return "detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=64:handle_segv=1:malloc_context_size=12:handle_abort=0:check_initialization_order=0:detect_odr_violation=0";
}
extern "C" const char * __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=98"; }

static std::uint64_t derive(std::uint64_t base, std::uint64_t i)
{
  std::uint64_t x = base * 0x9e3779b97f4a7c15ull + i * 0xd1b54a32d192ed03ull + 0x1234;
  return splitmix(x) >> 1;
}

#ifndef SIM_MAIN
#define SIM_MAIN main
#endif
extern "C" int SIM_MAIN(int argc, char ** argv)
{
  // addresses must not depend on the execution
  int pers = personality(0xffffffffu);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !std::getenv("SIM_REEXEC"))
    if (personality((unsigned)pers | ADDR_NO_RANDOMIZE) != -1)
    {
      setenv("SIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }

  // usage: batch PROP TIER BASE START COUNT TIMEBUDGET_S OUT | run PROP TIER SEED [-v] | replay PROP TIER FILE [-v]
  if (argc < 5) return 64;
  S = static_cast<shm_t *>(::mmap(nullptr, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::string mode = argv[1];
  prop_ = argv[2];
  tier_ = std::atoi(argv[3]);
  if (mode == "batch")
  {
    std::uint64_t base = std::strtoull(argv[4], nullptr, 10), start = std::strtoull(argv[5], nullptr, 10),
                  count = std::strtoull(argv[6], nullptr, 10), stride = std::strtoull(argv[7], nullptr, 10);
    double budget = std::atof(argv[8]);
    FILE * out = std::fopen(argv[9], "w");
    struct timespec t0, t1;
    ::clock_gettime(CLOCK_MONOTONIC, &t0);
    std::uint64_t done = 0, steps = 0, events = 0, faulty = 0, foreign_n = 0;
    double simt = 0;
    int reported = 0;
    std::vector<std::string> classes;
    for (std::uint64_t k = 0; k < count; k++)
    {
      ::clock_gettime(CLOCK_MONOTONIC, &t1);
      double el = (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
      if (el > budget) break;
      std::uint64_t idx = start + k * stride;
      std::uint64_t seed = derive(base, idx);
      auto r = run_one(seed, nullptr);
      done++; steps += S->steps; events += S->events; simt += S->sim_ns * 1e-9;
      if (S->n_faults) faulty++;
      if (r.outcome == "foreign") foreign_n++;
      std::fprintf(out, "h %016" PRIx64 " %d %" PRIu64 "\n", S->hash, S->n_faults ? 1 : 0, S->events);
      if (r.outcome == "violation" || r.outcome == "error")
      {
        int n = 0;
        for (auto & c : classes) if (c == r.cls) n++;
        if (n < 2 && reported < 12)
        {
          classes.push_back(r.cls); reported++;
          std::fprintf(out, "v ");
          print_run(out, r, seed, true, false);
        }
        else if (r.cls == "hang") break;
      }
      if (reported >= 12) break;
    }
    std::fprintf(out, "s {\"runs\":%" PRIu64 ",\"steps\":%" PRIu64 ",\"events\":%" PRIu64 ",\"faulty\":%" PRIu64 ",\"foreign\":%" PRIu64 ",\"sim_s\":%.9f,\"faults\":{",
                 done, steps, events, faulty, foreign_n, simt);
    bool first = true;
    for (auto & c : S->faults) if (c.name[0]) { std::fprintf(out, "%s%s:%" PRIu64, first ? "" : ",", jstr(c.name).c_str(), c.n); first = false; }
    std::fprintf(out, "},\"probes\":{");
    first = true;
    for (auto & c : S->probes) if (c.name[0]) { std::fprintf(out, "%s%s:%" PRIu64, first ? "" : ",", jstr(c.name).c_str(), c.n); first = false; }
    std::fprintf(out, "}}\nb ");
    for (std::size_t i = 0; i < state_bits / 8; i++) std::fprintf(out, "%02x", S->states[i]);
    std::fprintf(out, "\n");
    std::fclose(out);
    return 0;
  }
  bool log = false;
  for (int i = 5; i < argc; i++) { if (!std::strcmp(argv[i], "-v")) verbose = true; if (!std::strcmp(argv[i], "-l")) log = true; }
  if (mode == "run" || mode == "index")
  {
    std::uint64_t seed = std::strtoull(argv[4], nullptr, 10);
    if (mode == "index") seed = derive(seed, std::strtoull(argv[5], nullptr, 10));
    auto r = run_one(seed, nullptr);
    print_run(stdout, r, seed, true, log);
    return 0;
  }
  if (mode == "replay") // file: whitespace separated choices per line; one result per line
  {
    FILE * f = !std::strcmp(argv[4], "-") ? stdin : std::fopen(argv[4], "r");
    if (!f) return 65;
    char * line = nullptr; std::size_t cap = 0;
    while (::getline(&line, &cap, f) > 0)
    {
      std::vector<std::uint32_t> c;
      for (char * p = line; *p;)
      {
        char * e; unsigned long v = std::strtoul(p, &e, 10);
        if (e == p) break;
        c.push_back((std::uint32_t)v); p = e;
        while (*p == ' ' || *p == ',') p++;
      }
      auto r = run_one(0, &c);
      print_run(stdout, r, 0, true, log);
      std::fflush(stdout);
    }
    return 0;
  }
  return 64;
}
