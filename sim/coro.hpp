// Shared by the coroutine harnesses: outcome values, exceptions, bodies.
#pragma once
#include "world.hpp"
#include <boost/cobalt/error.hpp>
#include <boost/cobalt/noop.hpp>
#include <stdexcept>
namespace sim
{
struct mval // move only, default constructible; -2 = moved from
{
  int id = -1;
  static inline long live = 0;
  mval() { live++; }
  explicit mval(int i) : id(i) { live++; }
  mval(mval && r) noexcept : id(std::exchange(r.id, -2)) { live++; }
  mval & operator=(mval && r) noexcept { id = std::exchange(r.id, -2); return *this; }
  ~mval() { id = -3; live--; }
};
template<typename T> T make_val(int id)
{
  if constexpr (!std::is_void_v<T>) return T(id);
}
template<typename T> int id_of(const T & t) { if constexpr (std::is_same_v<T, int>) return t; else return t.id; }


// outcome of a coroutine: a value, or an exception classified
enum : int { x_abort = -10, x_reset = -11, x_awaited = -12, x_moved = -13, x_unexpected = -14, x_detached = -15, x_badalloc = -16,
             x_alloc_failed = -17, x_wait_not_ready = -18, x_other = -19, x_none = -20, x_broken = -21, x_eof = -22 };
inline int classify_ec(error_code ec)
{
  if (ec == asio::error::operation_aborted) return x_abort;
  if (ec == asio::error::connection_reset) return x_reset;
  if (ec == asio::error::broken_pipe) return x_broken;
  if (ec == asio::error::eof) return x_eof;
  if (ec == make_error_code(cobalt::error::already_awaited)) return x_awaited;
  if (ec == make_error_code(cobalt::error::moved_from)) return x_moved;
  if (ec == make_error_code(cobalt::error::completed_unexpected)) return x_unexpected;
  if (ec == make_error_code(cobalt::error::detached)) return x_detached;
  if (ec == make_error_code(cobalt::error::allocation_failed)) return x_alloc_failed;
  if (ec == make_error_code(cobalt::error::wait_not_ready)) return x_wait_not_ready;
  return x_other;
}
inline int classify(std::exception_ptr e)
{
  if (!e) return x_none;
  try { std::rethrow_exception(e); }
  catch (boom & b) { return b.id; }
  catch (boost::system::system_error & s) { return classify_ec(s.code()); }
  catch (std::bad_alloc &) { return x_badalloc; }
  catch (...) { return x_other; }
}
inline const char * xname(int x)
{
  static char buf[8][24]; static int k = 0;
  switch (x)
  {
    case x_abort: return "operation_aborted"; case x_reset: return "connection_reset"; case x_awaited: return "already_awaited";
    case x_moved: return "moved_from"; case x_unexpected: return "completed_unexpected"; case x_detached: return "detached";
    case x_badalloc: return "bad_alloc"; case x_alloc_failed: return "allocation_failed"; case x_wait_not_ready: return "wait_not_ready";
    case x_other: return "other exception"; case x_none: return "nothing"; case x_broken: return "broken_pipe"; case x_eof: return "eof";
  }
  k = (k + 1) % 8;
  std::snprintf(buf[k], 24, "boom %d", x);
  return buf[k];
}

struct outcome
{
  bool set = false, value = false;
  int code = 0; // value id or exception class
  static outcome ok(int id) { return {true, true, id}; }
  static outcome err(int c) { return {true, false, c}; }
  bool operator==(const outcome & o) const { return set == o.set && value == o.value && code == o.code; }
};
struct oname_
{
  char b[48];
  explicit oname_(const outcome & o)
  {
    if (!o.set) std::snprintf(b, 48, "no outcome");
    else if (o.value) std::snprintf(b, 48, "value %d", o.code);
    else std::snprintf(b, 48, "exception %s", xname(o.code));
  }
};
#define ONAME(o) (::sim::oname_(o).b)

// awaits anything in one of the three forms and classifies what came out
enum class form { plain, result, tuple };
inline form random_form() { return static_cast<form>(choose(3, "form")); }

template<typename T>
outcome from_result(boost::system::result<T, std::exception_ptr> r)
{
  if (r.has_error()) return outcome::err(classify(r.error()));
  if constexpr (std::is_void_v<T>) return outcome::ok(0);
  else return outcome::ok(id_of(*r));
}
template<typename T>
outcome from_tuple(std::tuple<std::exception_ptr, T> t)
{
  if (std::get<0>(t)) return outcome::err(classify(std::get<0>(t)));
  return outcome::ok(id_of(std::get<1>(t)));
}
inline outcome from_tuple(std::exception_ptr e) { return e ? outcome::err(classify(e)) : outcome::ok(0); }

// what a scripted coroutine does and what became of it
struct body
{
  int id = 0;
  int nsteps = 0;
  bool throws = false;
  int started = 0, ended = 0;
  outcome out;
  std::shared_ptr<op_log> cur;
  bool cur_external = false;
  bool cancel_ok = false;  // somebody asked for cancellation
  bool saw_cancel = false;
  bool dropped = false;    // no receiver any more
  bool escaped = false;    // its exception left through the event loop
  long live = 0;           // parameters and locals in existence
  bool suspended() const { return cur && cur->initiated && !cur->completed; }
  bool can_see_cancel() const { return suspended() && cur_external; }
};

// a parameter or local of a coroutine
struct held
{
  body * b;
  unsigned magic = 0x600dcafe;
  explicit held(body & b) : b(&b) { b.live++; }
  held(held && o) noexcept : b(o.b) { b->live++; }
  held(const held & o) noexcept : b(o.b) { b->live++; }
  held & operator=(const held &) = delete;
  ~held()
  {
    if (magic != 0x600dcafe) violation("crash:double-destroy", "coroutine %d state destroyed twice", b->id);
    magic = 0xdeadbeef;
    b->live--;
  }
};

inline void random_body(body & b, int id, int maxsteps = 2)
{
  b.id = id;
  b.nsteps = range(0, maxsteps, "steps");
  b.throws = chance(1, 4, "throws");
}
}
