// P30: name lookups, which asio runs on a background thread, under virtual threads and a scripted getaddrinfo.
#include "../sim/coro.hpp"
#include "../sim/vk.hpp"
#include "../sim/vt.hpp"
#include <boost/cobalt/io/resolver.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/asio/steady_timer.hpp>
#include <chrono>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>

const char * const sim_harness_name = "resolve";
const char * sim_class_owner(const char *) { return "P30"; }
using namespace sim;
namespace io = cobalt::io;

// what the system's resolver says about a name
struct query
{
  int no = 0;
  std::string host, service;
  int flags = 0;
  int eai = 0, sys = 0;
  int ms = 0;
  std::vector<std::string> addrs;
  int completions = 0;
  bool started = false, cancelled = false, must_abort = false;
};
static std::vector<std::unique_ptr<query>> queries;
static int calls[64];         // how often the system was asked
static query * by_no[64]; // for the background thread, which must not look at lookups that aren't its business
static query * asked = nullptr; // what the system is working on
static int quiet = 0; // how often time had to pass since something happened

static std::string random_addr()
{
  if (chance(1, 2, "v6"))
  {
    sockaddr_in6 a{}; a.sin6_family = AF_INET6; a.sin6_port = htons((unsigned short)range(1, 60000, "port"));
    for (auto & b : a.sin6_addr.s6_addr) b = (unsigned char)choose(256, "byte");
    a.sin6_scope_id = choose(3, "scope");
    return {reinterpret_cast<char *>(&a), sizeof a};
  }
  sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons((unsigned short)range(1, 60000, "port"));
  a.sin_addr.s_addr = choose(1u << 30, "address");
  return {reinterpret_cast<char *>(&a), sizeof a};
}
static query & new_query()
{
  static const int eais[] = {EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_SERVICE, EAI_MEMORY, EAI_FAMILY, EAI_SYSTEM};
  auto q = std::make_unique<query>();
  q->no = (int)queries.size() + 1;
  q->host = "host" + std::to_string(q->no) + (chance(1, 4, "long") ? std::string(range(1, 200, "length"), 'x') : "");
  q->service = chance(1, 4, "no-service") ? "" : "svc" + std::to_string(q->no);
  q->ms = range(0, 4, "latency");
  if (chance(1, 3, "fails")) { q->eai = eais[choose(7, "eai")]; if (q->eai == EAI_SYSTEM) q->sys = EIO; }
  else for (int n = range(1, 4, "addresses"); n > 0; n--) q->addrs.push_back(random_addr());
  static const int fl[] = {0, AI_PASSIVE, AI_CANONNAME, AI_NUMERICHOST, AI_NUMERICSERV, AI_V4MAPPED | AI_ALL, AI_ADDRCONFIG};
  q->flags = fl[choose(7, "flags")];
  by_no[q->no] = q.get();
  queries.push_back(std::move(q));
  return *queries.back();
}
static vk::resolution system_resolver(const char * host, const char * service, const void * hints)
{
  SIM_CHECK(host, "resolve:query", "the system was asked for no host");
  query * q = nullptr;
  if (int no = 0; std::sscanf(host, "host%d", &no) == 1 && no > 0 && no < 64) q = by_no[no];
  if (q && q->host != host) q = nullptr;
  SIM_CHECK(q, "resolve:query", "the system was asked for \"%s\", which nobody looked up", host);
  SIM_CHECK(q->service == (service ? service : ""), "resolve:query", "\"%s\" was asked for with service \"%s\" instead of \"%s\"", host, service ? service : "", q->service.c_str());
  auto * h = static_cast<const addrinfo *>(hints);
  SIM_CHECK(h && h->ai_flags == q->flags, "resolve:query", "lookup %d has flags %d instead of %d", q->no, h ? h->ai_flags : -1, q->flags);
  SIM_CHECK(h->ai_family == AF_UNSPEC, "resolve:query", "lookup %d is restricted to family %d", q->no, h->ai_family);
  SIM_CHECK(++calls[q->no] == 1, "resolve:query", "lookup %d was made %d times", q->no, calls[q->no]);
  SIM_CHECK(vt::self() != 0, "resolve:blocking", "lookup %d blocks the event loop", q->no);
  ev("lookup %d on thread %d", q->no, vt::self());
  quiet = 0;
  asked = q;
  if (q->ms) vt::sleep(q->ms * 1'000'000ll);
  vk::resolution r;
  r.eai = q->eai; r.sys = q->sys; r.addrs = q->addrs;
  if (q->eai) fault("getaddrinfo");
  ev("lookup %d answered: %d", q->no, q->eai);
  asked = nullptr;
  return r;
}
static bool error_fits(const query & q, error_code ec)
{
  switch (q.eai)
  {
    case EAI_NONAME: return ec == asio::error::host_not_found;
    case EAI_AGAIN: return ec == asio::error::host_not_found_try_again;
    case EAI_FAIL: return ec == asio::error::no_recovery;
    case EAI_SERVICE: return ec == asio::error::service_not_found;
    case EAI_MEMORY: return ec == asio::error::no_memory;
    case EAI_FAMILY: return ec == asio::error::address_family_not_supported;
    case EAI_SYSTEM: return ec.value() == q.sys;
  }
  return !ec;
}
static void completed(query & q, error_code ec, const io::endpoint_sequence & eps)
{
  ev("lookup %d: %d, %zu endpoints", q.no, ec.value(), eps.size());
  quiet = 0;
  q.completions++;
  SIM_CHECK(q.completions == 1, "resolve:again", "lookup %d completed %d times", q.no, q.completions);
  SIM_CHECK(vt::self() == 0, "resolve:thread", "lookup %d resumed its caller on thread %d", q.no, vt::self());
  SIM_CHECK(W->running == 0, "resolve:inside", "lookup %d resumed its caller outside of the event loop", q.no);
  if (ec == asio::error::operation_aborted)
  {
    SIM_CHECK(q.cancelled, "resolve:aborted", "lookup %d was aborted, nobody cancelled it", q.no);
    SIM_CHECK(eps.empty(), "resolve:result", "an aborted lookup has endpoints");
    return;
  }
  SIM_CHECK(!q.must_abort, "resolve:cancel", "lookup %d was cancelled while it was waiting for the background thread, it completed with %s", q.no, ec.message().c_str());
  SIM_CHECK(calls[q.no] == 1, "resolve:early", "lookup %d completed without the system having been asked", q.no);
  SIM_CHECK(error_fits(q, ec), "resolve:error", "lookup %d failed with %s, the system said %d", q.no, ec.message().c_str(), q.eai);
  if (ec) { SIM_CHECK(eps.empty(), "resolve:result", "a failed lookup has endpoints"); return; }
  SIM_CHECK(eps.size() == q.addrs.size(), "resolve:result", "lookup %d has %zu endpoints instead of %zu", q.no, eps.size(), q.addrs.size());
  for (std::size_t i = 0; i < eps.size(); i++)
    SIM_CHECK(std::string(static_cast<const char *>(eps[i].data()), eps[i].size()) == q.addrs[i], "resolve:result", "endpoint %zu of lookup %d isn't the one the system reported", i, q.no);
}

// asio starts its background thread with the first lookup; when that fails the awaiting coroutine has to get to know
static bool no_thread = false;
static void thrown(query & q, error_code ec)
{
  if (no_thread && ec == error_code(EAGAIN, boost::system::system_category()) && vt::fail_create < 0)
  {
    no_thread = false;
    SIM_CHECK(calls[q.no] == 0, "resolve:error", "lookup %d failed with EAGAIN, the system said %d", q.no, q.eai);
    q.completions++;
    SIM_CHECK(q.completions == 1, "resolve:again", "lookup %d completed %d times", q.no, q.completions);
    ev("lookup %d: no thread", q.no);
    return;
  }
  completed(q, ec, {});
}

static int busy = 0;
static void gone() { if (--busy == 0) W->guard.reset(); }

#define AWAIT(PLAIN, OP) \
  switch (f) \
  { \
    case form::plain: \
      try { auto e = co_await PLAIN; completed(q, {}, e); } \
      catch (boost::system::system_error & e) { thrown(q, e.code()); } \
      break; \
    case form::result: \
    { \
      auto res = co_await cobalt::as_result(OP); \
      if (res.has_error()) completed(q, res.error(), {}); else completed(q, {}, *res); \
      break; \
    } \
    case form::tuple: \
    { \
      auto [ec, e] = co_await cobalt::as_tuple(OP); \
      completed(q, ec, e); \
      break; \
    } \
  }

// several lookups one after another through one resolver
static proc with_resolver(actor & a, int n, std::optional<io::resolver> & r, query *& cur)
{
  for (int i = 0; i < n; i++)
  {
    auto & q = new_query();
    form f = random_form();
    cur = &q;
    q.started = true;
    auto fl = static_cast<io::resolver::flags>(q.flags);
    try { AWAIT(r->resolve(q.host, q.service, fl), r->resolve(q.host, q.service, fl)) }
    catch (boost::system::system_error & e)
    {
      SIM_CHECK(no_thread, "resolve:error", "awaiting lookup %d threw %s", q.no, e.what());
      thrown(q, e.code());
    }
    cur = nullptr;
  }
  gone();
}
static proc with_lookup(actor & a, int n)
{
  for (int i = 0; i < n; i++)
  {
    auto & q = new_query();
    form f = random_form();
    q.started = true;
    auto fl = static_cast<io::resolver::flags>(q.flags);
    io::lookup l(q.host, q.service, W->exec(), fl);
    try { AWAIT(io::lookup(q.host, q.service, W->exec(), fl), l) }
    catch (boost::system::system_error & e)
    {
      SIM_CHECK(no_thread, "resolve:error", "awaiting lookup %d threw %s", q.no, e.what());
      thrown(q, e.code());
    }
  }
  gone();
}

static void idle()
{
  if (++quiet > 60)
    for (auto & q : queries)
      if (q->started && !q->completions) violation("resolve:stuck", "lookup %d never completed", q->no);
}

void sim_main()
{
  vk::enabled = true;
  vk::cfg.time_passes = false;
  vk::cfg.pipe_latency = false;
  vk::on_resolve = system_resolver;
  vt::rate = 4u << choose(4, "rate");
  vt::on_idle = idle;
  static std::optional<world> w; w.emplace(); W = &*w;
  W->running = 0;
  vt::start();
  struct job { actor a{1}; std::optional<io::resolver> r; query * cur = nullptr; std::vector<std::unique_ptr<asio::steady_timer>> tims; };
  std::vector<std::unique_ptr<job>> jobs;
  auto & L = *W->ctx;
  int n = range(1, 3, "actors");
  no_thread = chance(1, 8, "no-thread");
  busy = n;
  bool cut = chance(1, 4, "cut"); // the event loop ends early
  asio::steady_timer end(L);
  for (int i = 0; i < n; i++)
  {
    jobs.push_back(std::make_unique<job>());
    auto & j = *jobs.back();
    int k = range(1, 3, "lookups");
    if (chance(1, 2, "lookup"))
      asio::post(L, [&j, k] { with_lookup(j.a, k); });
    else
    {
      j.r.emplace(W->exec());
      asio::post(L, [&j, k] { with_resolver(j.a, k, j.r, j.cur); });
      for (int c = choose(3, "cancels"); c > 0; c--)
      {
        j.tims.push_back(std::make_unique<asio::steady_timer>(L, std::chrono::milliseconds(range(0, 6, "when"))));
        j.tims.back()->async_wait([&j](error_code ec)
          {
            if (ec || !j.r) return;
            fault("cancel");
            ev("cancel");
            if (j.cur) j.cur->cancelled = true;
            j.r->cancel();
            // still waiting for another one to be done with
            if (j.cur && asked && calls[j.cur->no] == 0) j.cur->must_abort = true;
          });
      }
    }
  }
  if (no_thread)
  {
    vt::fail_create = 0;
    fault("no-thread");
  }
  if (cut)
  {
    end.expires_after(std::chrono::milliseconds(range(0, 5, "cut")));
    end.async_wait([](error_code ec) { if (!ec) { fault("stop"); W->ctx->stop(); } });
  }
  L.run();
  ev("loop ended");
  if (!cut) SIM_CHECK(busy == 0, "resolve:lost", "the event loop ended with lookups pending");
  for (auto & q : queries)
    SIM_CHECK(!q->started || q->completions == 1 || cut, "resolve:lost", "lookup %d completed %d times", q->no, q->completions);
  int before[16]; for (std::size_t i = 0; i < queries.size() && i < 16; i++) before[i] = queries[i]->completions;
  std::size_t nq = queries.size();
  for (auto & j : jobs) { j->tims.clear(); if (!chance(1, 3, "keep")) j->r.reset(); }
  ev("ending");
  end.cancel();
  for (auto & j : jobs) j->r.reset();
  cobalt::this_thread::set_executor(W->exec());
  W->ctx->shut();
  for (std::size_t i = 0; i < nq && i < 16; i++) SIM_CHECK(queries[i]->completions == before[i], "resolve:late", "lookup %d completed when its event loop was destroyed", queries[i]->no);
  for (auto & j : jobs) SIM_CHECK(!j->a.started || j->a.finished || j->a.destroyed, "resolve:leak", "a coroutine waiting for a lookup was neither resumed nor destroyed");
  vt::wait([] { return vt::alive() == 1; }, "end of the threads");
  vt::sync_finished();
  SIM_CHECK(vk::live_addrinfo == 0, "resolve:leak", "%d results of the system's resolver were not freed", vk::live_addrinfo);
  finish_run();
}
