#include "combi.hpp"
const char * const sim_harness_name = "combi";
const char * sim_class_owner(const char * c)
{
  std::string s = c;
  if (s.rfind("race:", 0) == 0) return "P07";
  if (s.rfind("join:", 0) == 0) return "P08";
  if (s.rfind("gather:", 0) == 0) return "P09";
  if (s.rfind("oom:", 0) == 0) return "P17";
  return "";
}

namespace combi
{
void scenario()
{
  ledger led("thread default");
  L = &led;
  cobalt::this_thread::set_default_resource(&led);
  auto wp = std::make_unique<world>();
  W = wp.get();
  W->on_exception = [](std::exception_ptr e) { ev("escaped %s", xname(classify(e))); };
  std::vector<std::unique_ptr<observed>> obs;
  std::vector<std::unique_ptr<actor>> as;
  int n = cfg.oom ? 1 : range(1, 2, "actors");
  W->after_handler = [&] { for (auto & o : obs) check_running(*o); };
  for (int i = 0; i < n; i++)
  {
    std::vector<starter> t;
    comb c = cfg.c;
    switch (c)
    {
      case comb::race: t = table_race(); break;
      case comb::left: t = table_left(); break;
      case comb::join: t = table_join(); break;
      case comb::gather: t = table_gather(); break;
    }
    auto & s = t[choose((std::uint32_t)t.size(), "signature")];
    obs.push_back(std::make_unique<observed>());
    auto & o = *obs.back();
    o.c = c;
    int k = s.n;
    if (k < 0) k = chance(1, 12, "empty") ? 0 : range(1, 4, "size");
    o.arms.resize(k);
    as.push_back(std::make_unique<actor>(i));
    auto * a = as.back().get();
    W->add([a, &o, fn = s.fn] { fn(*a, o); });
    if (cfg.cancels)
      for (int q = range(1, 2, "ncancel"); q > 0; q--)
        W->add([a, &o]
        {
          if (!o.active || o.finished) return;
          static const asio::cancellation_type cts[] = {asio::cancellation_type::all, asio::cancellation_type::terminal, asio::cancellation_type::partial, asio::cancellation_type::total};
          auto ct = cts[choose(4, "ct")];
          fault("cancel-caller");
          std::vector<std::pair<arm *, int>> expect;
          std::vector<std::shared_ptr<op_log>> logs;
          for (auto & x : o.arms)
            if (x.started() && x.pending_external() && x.cancels() == 0) { expect.push_back({&x, 0}); logs.push_back(x.current()); }
          o.cancelled = true;
          a->sig.emit(ct);
          bool decided = false;
          if (o.c != comb::gather) for (auto & x : o.arms) if (x.done()) decided = true;
          for (std::size_t i = 0; i < expect.size(); i++)
            if (!decided)
            {
              SIM_CHECK(logs[i]->n_cancels == 1, cls(o, "forward"), "cancelling the caller reached argument %d %d times", expect[i].first->idx, logs[i]->n_cancels);
              if (expect[i].first->k == kind::op) SIM_CHECK(logs[i]->cancels == ct, cls(o, "forward"), "cancellation %u reached argument %d as %u", (unsigned)ct, expect[i].first->idx, (unsigned)logs[i]->cancels);
            }
        }, true);
  }
  if (chance(1, 4, "early"))
  {
    int steps = range(0, 30, "steps");
    while (steps-- > 0 && W->step_once());
    fault("destroy-context");
  }
  else
  {
    W->run();
    for (std::size_t i = 0; i < obs.size(); i++)
      SIM_CHECK(as[i]->finished, cls(*obs[i], "hang"), "the caller was never resumed (%s)", obs[i]->finished ? "awaiting a loser" : comb_names[(int)obs[i]->c]);
  }
  W->after_handler = nullptr;
  W->guard.reset();
  wp.reset();
  for (auto & a : as) SIM_CHECK(a->finished || a->destroyed || !a->started, "memory:leak", "awaiting coroutine %d leaked", a->id);
  bool esc = false;
  for (auto & o : obs)
    for (auto & a : o->arms)
      if (a.b.ended && !a.b.out.value && a.b.live) esc = true; // P04's known leak
      else SIM_CHECK(a.b.live == 0, "memory:leak", "state of argument %d not destroyed (%ld objects left)", a.idx, a.b.live);
  if (!esc) SIM_CHECK(led.live.empty(), "memory:leak", "%zu allocation(s) never returned", led.live.size());
  SIM_CHECK(mval::live == 0, "memory:leak", "%ld values never destroyed", mval::live);
  cobalt::this_thread::set_default_resource(boost::cobalt::pmr::get_default_resource());
  W = nullptr;
}
}

using namespace combi;
void sim_main()
{
  bool faults = !chance(1, 4, "fault-free");
  cfg.cancels = faults && chance(1, 2);
  cfg.oom = owns("oom:") && chance(1, 2);
  cfg.instant = chance(1, 2);
  std::vector<comb> cs;
  bool all = !owns("race:") && !owns("join:") && !owns("gather:");
  if (all || owns("race:")) { cs.push_back(comb::race); cs.push_back(comb::left); }
  if (all || owns("join:")) cs.push_back(comb::join);
  if (all || owns("gather:")) cs.push_back(comb::gather);
  cfg.c = cs[choose((std::uint32_t)cs.size(), "combinator")];
  scenario();
}
