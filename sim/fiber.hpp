// With SIM_FIBER the bodies of the coroutine harnesses are stackful contexts (cobalt::experimental::make_context)
// instead of coroutines; everything else, oracles included, stays the same.
#pragma once
#include "coro.hpp"
#ifdef SIM_FIBER
#include <boost/cobalt/experimental/context.hpp>
#define AWAIT(...) c.await(__VA_ARGS__)
#define YIELD(...) c.yield(__VA_ARGS__)
#define RETURN return
// the unwinding of a stack isn't an exception of the body
#define NO_UNWIND catch (boost::context::detail::forced_unwind &) { throw; }
namespace sim
{
struct stacks
{
  static inline long live = 0, made = 0;
  std::size_t size = 32 * 1024;
  boost::context::stack_context allocate()
  {
    boost::context::stack_context s;
    s.size = size;
    s.sp = static_cast<char *>(std::malloc(size)) + size;
    live++; made++;
    return s;
  }
  void deallocate(boost::context::stack_context & s) noexcept
  {
    if (s.size != size) violation("crash:stack", "a stack of %zu bytes is released as one of %zu bytes", size, s.size);
    live--;
    // nothing may use what lived on it any more
    std::memset(static_cast<char *>(s.sp) - s.size, 0xdd, s.size);
    std::free(static_cast<char *>(s.sp) - s.size);
  }
};
inline void check_stacks() { if (stacks::live) violation("memory:stack-leak", "%ld of %ld stacks were not released", stacks::live, stacks::made); }
}
#else
namespace sim { inline void check_stacks() {} }
#define AWAIT(...) co_await __VA_ARGS__
#define YIELD(...) co_yield __VA_ARGS__
#define RETURN co_return
#define NO_UNWIND
#endif
