#include "ops.hpp"
const char * const sim_harness_name = "ops";
const char * sim_class_owner(const char * c)
{
  std::string s = c;
  if (s.rfind("op:", 0) == 0) return "P13";
  if (s.rfind("comp:", 0) == 0) return "P24";
  if (s.rfind("exec:", 0) == 0) return "P19";
  if (s.rfind("alloc:", 0) == 0) return "P13,P17,P24";
  if (s.rfind("memory:", 0) == 0) return "P13,P17,P24";
  return "";
}
ops_setup cfg;
ledger * Ldef;
std::vector<std::unique_ptr<waiter>> waiters;


namespace
{
int next_op = 0;
bool dying = false;
asio::cancellation_type cancel_kind()
{
  static const asio::cancellation_type cts[] = {asio::cancellation_type::terminal, asio::cancellation_type::partial, asio::cancellation_type::total, asio::cancellation_type::all};
  return cts[choose(4, "ct")];
}
}

ctrlp new_ctrl(int sig, bool inner)
{
  auto c = std::make_shared<ctrl>();
  c->id = ++next_op;
  c->sig = sig;
  int n = range(0, 3, "op-steps");
  for (int i = 0; i < n; i++) c->steps.push_back((stepk)choose(3, "step"));
  static const fin fs[] = {fin::post, fin::imm, fin::exec};
  c->f = fs[choose(3, "fin")];
  if (cfg.drops && !inner && chance(1, 6, "drop")) c->f = chance(1, 2) ? fin::drop : fin::ext_drop;
  if (cfg.drops && inner && chance(1, 10, "drop")) c->f = fin::ext_drop;
  if (cfg.throws && chance(1, 5, "throw"))
  {
    c->t = (thr)(1 + choose(3, "throw-at"));
    if (c->t == thr::in_imm) { if (c->steps.empty()) c->steps.push_back(stepk::imm); c->steps.back() = stepk::imm; }
  }
  if (chance(1, 3, "error")) c->ec = asio::error::connection_reset;
  c->value = 100 * c->id;
  c->ctx = cfg.ctxs ? (int)choose((std::uint32_t)W->more.size() + 1, "opctx") : 0;
  c->blocks = chance(1, 3, "blocks") ? range(1, 5, "nblocks") : 0;
  c->react = !chance(1, 3, "ignores-cancel");
  return c;
}

static void check_flat(const char * cls, const ctrl & c, const flat & f, bool raw, int vals, bool err, int first)
{
  int want_err = x_none;
  if (c.threw) want_err = 900 + c.id;
  else if (c.oom) want_err = x_badalloc;
  else if (err && c.ec) want_err = classify_ec(c.ec);
  SIM_CHECK(f.err == want_err, cls, "op %d ended with %s but its handler got %s", c.id, xname(f.err), xname(want_err));
  if (f.err != want_err) return;
  bool no_values = c.threw || c.oom || (want_err != x_none && !raw);
  if (no_values) return; // as_tuple of a task and the like carry placeholders
  SIM_CHECK(f.n == vals && !f.bad, cls, "op %d delivered %d values instead of %d", c.id, f.n, vals);
  for (int i = 0; i < vals && i < 4; i++) SIM_CHECK(f.v[i] == first + i, cls, "op %d delivered %d instead of %d", c.id, f.v[i], first + i);
}

void after_await(waiter & w, const flat & f, bool raw, int vals, bool err)
{
  auto & c = *w.c;
  ev("waiter %d resumes from op %d: %s", w.id, c.id, xname(f.err));
  c.resumed++;
  c.awaiting = false;
  auto & in = w.c2 ? *w.c2 : c;
  bool threw = c.threw || c.oom || in.threw || in.oom;
  SIM_CHECK(c.resumed == 1, "op:resumed-twice", "waiter %d was resumed twice", w.id);
  SIM_CHECK(c.depth == 0 && in.depth == 0, "op:resumed-inside", "waiter %d was resumed inside the initiation of its operation", w.id);
  SIM_CHECK(c.finals == (threw ? 0 : 1) || (threw && c.finals <= 1), "op:early", "waiter %d was resumed although its handler was invoked %d times", w.id, c.finals);
  SIM_CHECK(c.dropped == 0 || threw, "op:dropped", "waiter %d was resumed although its handler was destroyed", w.id);
  SIM_CHECK(W->running == w.ctx, "exec:wrong-context", "waiter %d resumed on context %d instead of %d", w.id, W->running, w.ctx);
  ctrl e = c;
  if (w.c2) { e.threw = in.threw; e.oom = in.oom; e.id = in.threw ? in.id : e.id; }
  check_flat("op:outcome", e, f, raw, vals, err, c.value);
}
void second_await(waiter & w, int v)
{
  SIM_CHECK(v == 7, "op:outcome", "second await of waiter %d gave %d", w.id, v);
  SIM_CHECK(W->running == w.ctx, "exec:wrong-context", "waiter %d resumed on context %d instead of %d", w.id, W->running, w.ctx);
}

// ---- compositions -------------------------------------------------------------------
namespace
{
struct comp
{
  int id = 0;
  struct inner { int tok = 0; ctrlp c; std::shared_ptr<comp> sub; };
  std::vector<inner> in;
  int cur = -1;        // inner operation awaited
  int size = 0;        // frame size class
  bool via = false;    // started from within the immediate executor
  error_code ec;
  body b;
  const char * frame = nullptr;
  int started = 0, ended = 0;
  int depth = 0;
  asio::cancellation_type got = asio::cancellation_type::none;
  bool slot = false;
  int result() const { return 10 * id + (int)in.size(); }
};
using compp = std::shared_ptr<comp>;
int next_comp = 0;
cobalt::executor comp_exec;

compp new_comp(int depth, cobalt::executor)
{
  auto c = std::make_shared<comp>();
  c->id = ++next_comp;
  c->b.id = c->id;
  c->size = (int)choose(3, "frame-size");
  c->via = chance(1, 6, "via-immediate");
  if (chance(1, 3, "comp-error")) c->ec = asio::error::connection_reset;
  int n = range(0, 3, "inner");
  for (int i = 0; i < n; i++)
  {
    comp::inner in;
    in.tok = depth > 0 ? (int)choose(5, "inner-kind") : (int)choose(4, "inner-kind");
    if (in.tok == 4) in.sub = new_comp(depth - 1, {});
    else { in.c = new_ctrl(2, true); in.c->ready = in.tok == 2 && chance(1, 2, "ready"); }
    c->in.push_back(in);
  }
  return c;
}

void comp_start(compp c, cobalt::completion_handler<error_code, int> h);
struct comp_op final : cobalt::op<error_code, int>
{
  compp c;
  explicit comp_op(compp c) : c(std::move(c)) {}
  void initiate(cobalt::completion_handler<error_code, int> h) override
  {
    struct g { comp & c; g(comp & c) : c(c) { c.depth++; } ~g() { c.depth--; } };
    auto k = c;
    g gg(*k);
    c->slot = asio::get_associated_cancellation_slot(h).is_connected();
    if (c->via)
      asio::dispatch(asio::get_associated_immediate_executor(h, W->exec()), [k, h = std::move(h)]() mutable { comp_start(k, std::move(h)); });
    else comp_start(k, std::move(h));
  }
};

void inner_done(comp & c, std::size_t i, error_code ec, int v, int err)
{
  auto & in = c.in[i];
  if (in.sub)
  {
    SIM_CHECK(in.sub->ended == 1 && in.sub->b.live == 0 && in.sub->depth == 0, "comp:order", "composition %d continued before the inner composition %d was gone", c.id, in.sub->id);
    SIM_CHECK(err == x_none && ec == in.sub->ec && v == in.sub->result(), "comp:inner-result", "inner composition %d of %d gave %d", in.sub->id, c.id, v);
    return;
  }
  auto & k = *in.c;
  if (in.tok == 3) { SIM_CHECK(err == x_none, "comp:inner-result", "awaiting post in composition %d failed", c.id); return; }
  if (k.threw || k.oom) { SIM_CHECK(err == (k.threw ? 900 + k.id : x_badalloc), "comp:inner-result", "composition %d got %s from a throwing initiation", c.id, xname(err)); return; }
  SIM_CHECK(err == x_none, "comp:inner-throws", "awaiting op %d in composition %d threw %s", k.id, c.id, xname(err));
  SIM_CHECK(k.finals == 1 && k.depth == 0 && ++k.resumed == 1, "comp:inner-early", "composition %d resumed from op %d with its handler invoked %d times", c.id, k.id, k.finals);
  SIM_CHECK(ec == k.ec && v == k.value, "comp:inner-result", "op %d in composition %d gave %d instead of %d", k.id, c.id, v, k.value);
}

template<int N>
void comp_fn(compp c, cobalt::completion_handler<error_code, int> h)
{
  c->started++;
  ev("composition %d starts, size %d via %d", c->id, c->size, c->via);
  held local(c->b);
  char pad[N];
  std::memset(pad, c->id & 0xff, N);
  c->frame = pad;
  for (std::size_t i = 0; i < c->in.size(); i++)
  {
    auto & in = c->in[i];
    c->cur = (int)i;
    error_code ec; int v = 0, err = x_none;
    try
    {
      if (in.tok == 0) std::tie(ec, v) = co_await asio::async_initiate<const cobalt::use_op_t &, void(error_code, int)>(starter<2>{in.c}, cobalt::use_op);
      else if (in.tok == 1) std::tie(ec, v) = co_await asio::async_initiate<const asio::deferred_t &, void(error_code, int)>(starter<2>{in.c}, asio::deferred);
      else if (in.tok == 2) std::tie(ec, v) = co_await cop<2>(in.c);
      else if (in.tok == 3) { std::tuple<> t = co_await asio::post(W->exec(in.c->ctx), cobalt::use_op); (void)t; }
      else std::tie(ec, v) = co_await comp_op(in.sub);
    }
    catch (...) { err = classify(std::current_exception()); }
    c->cur = -1;
    ev("composition %d resumes from step %zu", c->id, i);
    inner_done(*c, i, ec, v, err);
    auto rep = co_await cobalt::this_coro::cancelled;
    SIM_CHECK(((unsigned)rep & 7u) == ((unsigned)c->got & 7u), "comp:cancelled", "composition %d reports cancellation %x but it was cancelled with %x", c->id, (unsigned)rep, (unsigned)c->got);
    for (auto p : pad) SIM_CHECK((unsigned char)p == (c->id & 0xff), "alloc:overlap", "the frame of composition %d was overwritten", c->id);
  }
  c->ended++;
  ev("composition %d returns", c->id);
  co_return {c->ec, c->result()};
}
void comp_start(compp c, cobalt::completion_handler<error_code, int> h)
{
  switch (c->size)
  {
    case 0: comp_fn<16>(c, std::move(h)); return;
    case 1: comp_fn<1500>(c, std::move(h)); return;
    default: comp_fn<6000>(c, std::move(h)); return;
  }
}

std::map<waiter *, compp> comps;

bool mem_live(const char * p)
{
  for (auto & [a, r] : Ldef->live) if (p >= (char *)a && p < (char *)a + r.n) return true;
  return false;
}
void frames_gone(comp & c)
{
  if (c.size == 2 && c.frame) SIM_CHECK(!mem_live(c.frame), "comp:memory", "the frame of composition %d was not returned before its caller continued", c.id);
  for (auto & in : c.in) if (in.sub) frames_gone(*in.sub);
}

template<class Coro>
Coro comp_waiter(waiter & w, compp c, held h, asio::executor_arg_t, cobalt::executor)
{
  w.started = true;
  held local(w.b);
  flat f;
  try
  {
    comp_op o(c);
    if (w.form == 1) fold(f, co_await cobalt::as_tuple(o));
    else if (w.form == 2) fold(f, co_await cobalt::as_result(comp_op(c)));
    else fold(f, co_await o);
  }
  catch (...) { fold(f, std::current_exception()); }
  ev("waiter %d resumes from composition %d: %s", w.id, c->id, xname(f.err));
  w.c->resumed++;
  SIM_CHECK(w.c->resumed == 1, "comp:resumed-twice", "the caller of composition %d was resumed twice", c->id);
  SIM_CHECK(c->depth == 0, "comp:resumed-inside", "the caller of composition %d was resumed inside the initiation", c->id);
  SIM_CHECK(c->ended == 1 && c->b.live == 0, "comp:order", "the caller of composition %d continues before its frame is gone", c->id);
  frames_gone(*c);
  SIM_CHECK(W->running == w.ctx, "exec:wrong-context", "waiter %d resumed on context %d instead of %d", w.id, W->running, w.ctx);
  SIM_CHECK(f.err == (c->ec ? classify_ec(c->ec) : x_none), "comp:outcome", "composition %d gave %s", c->id, xname(f.err));
  if (f.err == x_none || w.form == 1) SIM_CHECK(f.n == 1 && f.v[0] == c->result(), "comp:outcome", "composition %d gave %d instead of %d", c->id, f.v[0], c->result());
  w.ended = true;
}

// ---- the run ---------------------------------------------------------------------------
struct live_waiter
{
  waiter * w;
  std::optional<cobalt::promise<void>> p;
  asio::cancellation_signal sig;
  bool done = false;
};
std::vector<std::unique_ptr<live_waiter>> lw;

template<class F> void start(live_waiter & l, cobalt::executor ex, F && mk_promise_task_detached)
{
  mk_promise_task_detached(l, ex);
}

// the innermost operation a cancellation of the waiter has to arrive at, null if none
ctrlp target(waiter & w)
{
  auto it = comps.find(&w);
  if (it == comps.end()) return nullptr;
  auto c = it->second;
  for (;;)
  {
    if (!c->started || c->ended || c->cur < 0) return nullptr;
    auto & in = c->in[c->cur];
    if (in.sub) { c = in.sub; continue; }
    return in.tok == 3 ? nullptr : in.c;
  }
}
void note_cancel(waiter & w, asio::cancellation_type ct)
{
  auto it = comps.find(&w);
  if (it == comps.end()) return;
  auto c = it->second;
  while (c && c->started && !c->ended)
  {
    c->got = ct;
    c = c->cur >= 0 ? c->in[c->cur].sub : nullptr;
  }
}

void cancel_one(live_waiter & l)
{
  auto & w = *l.w;
  if (w.kind == 2 || !w.started || w.ended || w.b.live == 0) return;
  auto ct = cancel_kind();
  auto t = target(w);
  bool armed = t && t->ext && t->inits && t->armed;
  ev("cancel waiter %d kind %d with %x, ext %d armed %d", w.id, w.kind, (unsigned)ct & 7, t ? (int)t->ext : -1, (int)armed);
  fault("cancel");
  auto before = t ? t->cancels : asio::cancellation_type::none;
  note_cancel(w, ct);
  w.cancelled = true;
  if (w.kind == 0) { if (l.p) l.p->cancel(ct); }
  else l.sig.emit(ct);
  if (armed)
    SIM_CHECK(((unsigned)t->cancels & (unsigned)ct & 7u) == ((unsigned)ct & 7u), "comp:cancel-lost", "cancellation %x of the caller did not reach op %d awaited by its composition (it saw %x)", (unsigned)ct & 7, t->id, (unsigned)t->cancels & 7);
}

template<int Tok> void go(live_waiter & l, cobalt::executor e)
{
  auto & w = *l.w;
  switch (w.kind)
  {
    case 0: l.p.emplace(launch<Tok>::promise(w, e)); break;
    case 1: cobalt::spawn(e, launch<Tok>::task(w, e), asio::bind_cancellation_slot(l.sig.slot(), [&l](std::exception_ptr) { l.done = true; })); break;
    case 2: launch<Tok>::detached(w, e); break;
  }
}

void spawn_waiter(int id)
{
  waiters.push_back(std::make_unique<waiter>());
  auto & w = *waiters.back();
  w.id = id; w.b.id = id;
  w.kind = choose(3, "coro");
  w.form = choose(3, "form");
  w.ctx = cfg.ctxs ? (int)choose((std::uint32_t)W->more.size() + 1, "ctx-of") : 0;
  lw.push_back(std::make_unique<live_waiter>());
  auto & l = *lw.back();
  l.w = &w;
  bool composition = std::string(prop()) == "P24" || chance(1, 4, "composition");
  auto e = W->exec(w.ctx);
  asio::post(W->context(w.ctx), [&l, &w, e, composition]
    {
      if (composition)
      {
        auto c = new_comp(2, e);
        w.c = std::make_shared<ctrl>();
        comps[&w] = c;
        if (w.kind == 0) l.p.emplace(comp_waiter<cobalt::promise<void>>(w, c, held(w.b), asio::executor_arg, e));
        else if (w.kind == 1) cobalt::spawn(e, comp_waiter<cobalt::task<void>>(w, c, held(w.b), asio::executor_arg, e), asio::bind_cancellation_slot(l.sig.slot(), [&l](std::exception_ptr) { l.done = true; }));
        else comp_waiter<cobalt::detached>(w, c, held(w.b), asio::executor_arg, e);
        return;
      }
      w.tok = choose(5, "token");
      w.c = new_ctrl(choose(n_sigs, "sig"));
      if (w.tok == 3) w.c->ready = chance(1, 4, "ready");
      if (w.tok == 4) { w.c2 = new_ctrl(2); w.c->f = fin::post; w.c->t = thr::no; }
      ev("waiter %d kind %d awaits op %d token %d sig %d form %d", w.id, w.kind, w.c->id, w.tok, w.c->sig, w.form);
      switch (w.tok)
      {
        case 0: go<0>(l, e); break;
        case 1: go<1>(l, e); break;
        case 2: go<2>(l, e); break;
        case 3: go<3>(l, e); break;
        default: go<4>(l, e); break;
      }
    });
}

bool comp_dropped(comp & c)
{
  for (auto & in : c.in) if (in.c ? in.c->dropped && !in.c->threw && !in.c->oom : comp_dropped(*in.sub)) return true;
  return false;
}
}

void sim_main()
{
  bool faults = !chance(1, 4, "fault-free");
  cfg.ctxs = chance(1, 2);
  cfg.cancels = faults && chance(1, 2);
  cfg.drops = faults && chance(1, 2);
  cfg.throws = faults && chance(1, 2);
  cfg.oom = faults && chance(1, 3);
  bool early = faults && chance(1, 3, "early-end");
  ledger def("process default"), thr_("thread default");
  Ldef = &def;
  auto * od = boost::cobalt::pmr::set_default_resource(&def);
  auto * ot = cobalt::this_thread::set_default_resource(&thr_);
  {
    world w_;
    W = &w_;
    if (cfg.ctxs) { W->add_context(); }
    int n = range(1, 4, "waiters");
    for (int i = 0; i < n; i++) spawn_waiter(i + 1);
    int nc = cfg.cancels ? range(1, 4, "cancels") : 0;
    for (int i = 0; i < nc; i++) // on the context of the coroutine
    {
      auto & l = *lw[choose((std::uint32_t)lw.size(), "whom")];
      W->add([&l] { cancel_one(l); }, false, l.w->ctx);
    }
    int budget = early ? range(0, 30, "end-at") : -1;
    for (;;)
    {
      if (budget == 0) break;
      if (budget > 0) budget--;
      if (!W->step_once()) break;
      std::uint64_t h = 0;
      for (auto & w : waiters) h = mix(h, (w->started) | (w->ended << 1) | (w->kind << 2) | (w->tok << 4) | ((std::uint64_t)(w->c ? w->c->depth + w->c->finals * 2 + w->c->dropped * 4 + (w->c->ext != 0) * 16 : 0) << 8) | ((std::uint64_t)W->pending.size() << 20));
      state(h);
    }
    if (budget != 0)
    {
      // nothing can happen any more
      for (auto & w : waiters)
      {
        auto it = comps.find(w.get());
        bool dropped = it != comps.end() ? comp_dropped(*it->second) : (w->c2 ? w->c2->dropped && !w->c2->threw && !w->c2->oom : w->c->dropped && !w->c->threw && !w->c->oom);
        const char * cls = it != comps.end() ? "comp:stuck" : "op:stuck";
        const char * lk = it != comps.end() ? "comp:leak" : "op:leak";
        if (dropped) { SIM_CHECK(!w->ended && w->c->resumed == 0, "op:dropped", "waiter %d was resumed although its handler was destroyed", w->id); probe("dropped"); }
        else SIM_CHECK(w->ended, cls, "waiter %d was never resumed", w->id);
        SIM_CHECK(w->b.live == 0, lk, "waiter %d left %ld object(s) behind", w->id, w->b.live);
      }
    }
    else { fault("event-loop-destroyed"); ev("the event loops are destroyed"); }
  }
  lw.clear(); // with the cancellation signals, whose handlers share the state of the spawned tasks
  for (auto & w : waiters)
    SIM_CHECK(w->b.live == 0, comps.count(w.get()) ? "comp:leak" : "op:leak", "waiter %d left %ld object(s) behind", w->id, w->b.live);
  for (auto & [w, c] : comps) SIM_CHECK(c->b.live == 0, "comp:leak", "composition %d left %ld object(s) behind", c->id, c->b.live);
  SIM_CHECK(def.live.empty(), "memory:leak", "%zu allocation(s) that overflowed the inline buffers never returned", def.live.size());
  SIM_CHECK(thr_.live.empty(), "memory:leak", "%zu allocation(s) of the thread's resource never returned", thr_.live.size());
  boost::cobalt::pmr::set_default_resource(od);
  cobalt::this_thread::set_default_resource(ot);
  W = nullptr;
}
