#include "nest.hpp"
const char * const sim_harness_name = "nest";
const char * sim_class_owner(const char * c)
{
  std::string s = c;
  if (s == "join:let-go") return "P07,P08";
  if (s == "gather:let-go") return "P07,P09";
  if (s.rfind("race:", 0) == 0) return "P07";
  if (s.rfind("join:", 0) == 0) return "P08";
  if (s.rfind("gather:", 0) == 0) return "P09";
  return "";
}
using namespace nest;
void scenario()
{
  ledger led("thread default");
  combi::L = &led;
  cobalt::this_thread::set_default_resource(&led);
  auto wp = std::make_unique<world>();
  W = wp.get();
  W->on_exception = [](std::exception_ptr e) { ev("escaped %s", xname(classify(e))); };
  auto rp = std::make_unique<run_>();
  auto & r = *rp;
  std::vector<shape_fn> v;
  switch (cfg.c)
  {
    case comb::race: v = shapes_race(); break;
    case comb::left: v = shapes_left(); break;
    case comb::join: v = shapes_join(); break;
    case comb::gather: v = shapes_gather(); break;
  }
  v[choose((std::uint32_t)v.size(), "shape")](r);
  std::function<void(const node &, std::vector<int> &)> count = [&](const node & n, std::vector<int> & c) { if (n.is_leaf) c[n.first]++; for (auto & k : n.kids) count(k, c); };
  std::vector<int> uses(r.t.arms.size());
  count(r.t.root, uses);
  for (std::size_t i = 0; i < uses.size(); i++) if (uses[i] > 1) r.t.contended[i] = true;
  bool started = false;
  W->add([&] { started = true; r.start(); });
  if (chance(2, 3, "others"))
    for (int q = range(1, 2, "nothers"); q > 0; q--)
      if (!r.others.empty()) W->add([&, i = choose((std::uint32_t)r.others.size(), "whom")] { r.others[i](r); });
  std::function<void()> cancel_caller;
  if (cfg.cancels)
    W->add(cancel_caller = [&]
    {
      if (r.t.finished || r.t.cancelled) return;
      if (!r.t.active) { W->add(cancel_caller, true); return; }
      fault("cancel-caller");
      r.t.cancelled = true;
      for (auto & a : r.as) if (a->id == 1000) a->sig.emit(asio::cancellation_type::all);
    }, true);
  bool early = chance(1, 6, "early");
  if (early)
  {
    int steps = range(0, 30, "steps");
    while (steps-- > 0 && W->step_once());
    fault("destroy-context");
  }
  else
  {
    W->run();
    for (auto & a : r.as)
      SIM_CHECK(a->finished, cls(r.t, "hang"), "%s was never resumed", a->id == 1000 ? "the caller" : "a coroutine awaiting an argument");
    for (auto & f : r.agains) f(r);
    W->run();
    for (auto & a : r.as)
      SIM_CHECK(a->finished, cls(r.t, "loser"), "a coroutine awaiting an argument afterwards was never resumed");
  }
  W->guard.reset();
  wp.reset();
  for (auto & a : r.as) SIM_CHECK(a->finished || a->destroyed || !a->started, "memory:leak", "awaiting coroutine %d leaked", a->id);
  r.drop();
  bool esc = false;
  for (auto & a : r.t.arms)
    if (a.b.ended && !a.b.out.value && a.b.live) esc = true; // P04's known leak
    else SIM_CHECK(a.b.live == 0, "memory:leak", "state of argument %d not destroyed (%ld objects left)", a.idx, a.b.live);
  rp.reset();
  if (!esc) SIM_CHECK(led.live.empty(), "memory:leak", "%zu allocation(s) never returned", led.live.size());
  cobalt::this_thread::set_default_resource(boost::cobalt::pmr::get_default_resource());
  W = nullptr;
}
void sim_main()
{
  bool faults = !chance(1, 4, "fault-free");
  cfg.cancels = faults && chance(1, 3);
  cfg.oom = false;
  cfg.instant = chance(1, 3);
  std::vector<comb> cs;
  bool all = !owns("race:") && !owns("join:") && !owns("gather:");
  if (all || owns("race:")) { cs.push_back(comb::race); cs.push_back(comb::left); }
  if (all || owns("join:")) cs.push_back(comb::join);
  if (all || owns("gather:")) cs.push_back(comb::gather);
  cfg.c = cs[choose((std::uint32_t)cs.size(), "combinator")];
  // what a join or gather does when the combination around it gives up
  if (!all && !owns("race:") && chance(1, 2, "inside a race")) cfg.c = chance(1, 3, "left") ? comb::left : comb::race;
  scenario();
}
