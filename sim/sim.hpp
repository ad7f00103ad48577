// Deterministic simulator core: one choice stream decides everything.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>

namespace sim
{
// ---- choices ---------------------------------------------------------------
// Every decision of a run is drawn here.  0 is always the simplest alternative.
std::uint32_t choose(std::uint32_t n, const char * label = "");
// true with probability num/den, 0 = false
bool chance(std::uint32_t num, std::uint32_t den, const char * label = "");
// lo..hi inclusive, lo is simplest
int range(int lo, int hi, const char * label = "");
bool in_run();

// ---- log & outcome ---------------------------------------------------------
void ev(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
// Reports a violation of class `cls` and ends the run; when the class does not
// belong to the property under check the run ends as inconclusive.
[[noreturn]] void violation(const char * cls, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish_run(); // ends the run successfully
[[noreturn]] void harness_error(const char * fmt, ...);
void fault(const char * kind);       // a fault was actually injected
void probe(const char * name);       // a rare condition was reached
void state(std::uint64_t h);         // abstract state reached
void step();                         // counts a step; too many -> violation "no-progress"
void set_step_limit(std::uint64_t n);
const char * prop();
bool owns(const char * cls);         // class belongs to the property under check
int  tier();

// ---- virtual time ----------------------------------------------------------
extern std::int64_t steady_ns;      // since run start
extern std::int64_t system_off_ns;  // system = base + steady + off
constexpr std::int64_t steady_base_ns = 1'000'000'000'000ll;
constexpr std::int64_t system_base_ns = 1'700'000'000'000'000'000ll;

std::uint64_t mix(std::uint64_t h, std::uint64_t v);

// allocation-free counters for instances of harness objects
struct live_counter
{
  const char * name; long n = 0; long total = 0;
};

// classes of other properties are not looked at by this check
#define SIM_CHECK(cond, cls, ...) do { if (!(cond) && ::sim::owns(cls)) ::sim::violation(cls, __VA_ARGS__); } while (0)
}

// provided by each harness
extern const char * const sim_harness_name;
void sim_main();
// maps violation class -> properties ("P01,P02"); "" = all
const char * sim_class_owner(const char * cls);
