// C09: independent sessions never influence each other.
// Sessions run on threads of which exactly one holds the baton; the seeded scheduler takes it away
// at callbacks, between calls and (every basic block of library code is a possible point) inside them.
#include "soup.hpp"
#include "calls.hpp"
#include "mapmodel.hpp"
#include "json_struct/json_struct_diff.h"
#include <pthread.h>
#include <semaphore.h>
using namespace sim;
const char *scenario_id() { return "C09"; }
void warmup() {} // the first use of the library is part of the first runs

#define NOCOV __attribute__((no_sanitize("coverage")))
static void preempt();
static uint64_t countdown = 0; // basic blocks until the baton is taken away
static int held = 0;           // a static object is being initialised: real threads would wait

// While one thread initialises a function-local static the others cannot pass; here the initialising
// one is not taken off until it is done.
extern "C" NOCOV int __cxa_guard_acquire(uint64_t *gd)
{
  if (*reinterpret_cast<volatile char *>(gd))
    return 0;
  held++;
  return 1;
}
extern "C" NOCOV void __cxa_guard_release(uint64_t *gd)
{
  *reinterpret_cast<volatile char *>(gd) = 1;
  held--;
}
extern "C" NOCOV void __cxa_guard_abort(uint64_t *) { held--; }

extern "C" NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b)
{
  for (uint32_t *p = a; p < b; p++)
    *p = 1;
}
extern "C" NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t *)
{
  if (!countdown || !in_lib() || held)
    return;
  if (--countdown)
    return;
  preempt();
}
// ---------------------------------------------------------------- the scheduler
struct Session;
struct Sched
{
  Src *c = nullptr;
  std::vector<Session *> all;
  Session *current = nullptr;
  sem_t main;
  uint64_t switches = 0, inside = 0;
  uint32_t limit = 0, pace = 0;
  bool on = false;
};
static Sched S;
struct Session
{
  uint32_t kind = 0;
  const ty::AnyType *type = nullptr;
  uint64_t seed = 0;
  uint32_t left = 0;
  std::string log;
  bool started = false, done = false, inlined = false;
  sem_t go;
  pthread_t thread;
  Session() { sem_init(&go, 0, 0); }
  ~Session() { sem_destroy(&go); }
};
NOCOV static uint64_t next_slice()
{
  if (S.switches >= S.limit)
    return 0;
  switch (S.pace)
  {
  case 0:
    return 0; // callbacks only
  case 1:
    return 1 + S.c->below(4);
  case 2:
    return 1 + S.c->below(60);
  case 3:
    return 1 + S.c->below(1000);
  default:
    return 1 + S.c->below(S.c->pick({3u, 40u, 400u, 4000u}));
  }
}
static void wait_for(sem_t *s)
{
  while (sem_wait(s) != 0)
    ;
}
static void pass_to(Session *n)
{
  S.current = n;
  S.switches++;
  sem_post(&n->go);
}
// gives the baton to a session the scheduler chooses (perhaps this one)
static void yield_baton(bool inside)
{
  if (!S.on)
    return;
  Session *self = S.current;
  std::vector<Session *> ready;
  for (auto s : S.all)
    if (!s->done && !s->inlined)
      ready.push_back(s);
  uint64_t keep = countdown;
  countdown = 0;
  Session *n = S.switches < S.limit ? ready[S.c->below(uint32_t(ready.size()))] : self;
  if (n != self)
  {
    if (inside)
    {
      S.inside++;
      fault("preempted_inside_a_call");
    }
    else
      fault("switched_at_a_callback");
    int h = held; // (always 0 inside)
    held = 0;
    pass_to(n);
    wait_for(&self->go);
    held = h;
  }
  (void)keep;
  countdown = next_slice();
}
NOCOV static void preempt()
{
  Outside o;
  yield_baton(true);
}
static void yield() { yield_baton(false); }

// ---------------------------------------------------------------- what sessions do
static void work(Session &s);
// at a callback: hand over, or run a whole other session right here
static void point(Session &self)
{
  if (!S.on)
    return;
  if (S.switches < S.limit && S.c->chance(1, 12))
    for (auto s : S.all)
      if (!s->started && !s->inlined)
      {
        s->inlined = true;
        fault("session_inside_a_callback");
        Session *me = S.current;
        work(*s);
        s->done = true;
        S.current = me;
        return;
      }
  yield();
  (void)self;
}
struct Log
{
  Session &s;
  void operator()(const char *what, const std::string &v)
  {
    s.log += what;
    s.log += '=';
    s.log += v;
    s.log += ';';
  }
  void operator()(const char *what, uint64_t v) { (*this)(what, std::to_string(v)); }
};
static void typed(Session &s, Src &c, Log &log)
{
  JS::ParseContext pc;
  doc::Syntax sy = typed_syntax(c);
  set_syntax(pc.tokenizer, sy);
  uint32_t k = c.range(1, 3);
  for (uint32_t i = 0; i < k; i++)
  {
    const ty::AnyType *t = s.type ? s.type : pick_type(c);
    std::string d = c.chance(1, 4) ? soup(c, t, sy) : typed_text(c, t, sy);
    Plan p = gen_plan(c, d, true);
    if (p.mode == Mode::Upfront)
      p.mode = Mode::Callback;
    Pipe pipe(c, d, p);
    std::unique_ptr<JS::ParseContext> own;
    JS::ParseContext *x = &pc;
    own.reset(new JS::ParseContext());
    set_syntax(own->tokenizer, sy);
    x = own.get();
    pipe.attach(x->tokenizer);
    pipe.on_request = [&] { point(s); };
    x->tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
    ty::Val v(t);
    JS::Error e;
    {
      Inside in;
      e = t->parse(*x, v.p);
    }
    log("error", uint64_t(e));
    log("value", ty::text(t, v.p));
    log("missing", join(x->missing_members, false));
    log("unassigned", join(x->unassigned_required_members, false));
    std::string m;
    {
      Inside in;
      m = x->makeErrorString();
    }
    log("message", m);
    yield();
    std::string out;
    {
      Inside in;
      out = t->serialize_default(v.p);
    }
    log("text", out);
    yield();
  }
}
static void writing(Session &s, Src &c, Log &log)
{
  for (uint32_t i = c.range(1, 3); i; i--)
  {
    const ty::AnyType *t = s.type ? s.type : pick_type(c);
    ty::Val v(t);
    t->gen(c, v.p);
    JS::SerializerOptions o(c.coin() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
    if (c.coin())
      o.setShiftSize((unsigned char)c.below(6));
    Sink sink(c);
    if (c.chance(1, 5))
      sink.limit = c.below(200);
    JS::Serializer ser;
    ser.setOptions(o);
    sink.attach(ser, c.coin());
    sink.on_request = [&] { point(s); };
    {
      Inside in;
      JS::Token tok;
      t->from(v.p, tok, ser);
    }
    std::string out = sink.contents();
    log("bytes", out);
    yield();
    ty::Val back(t);
    JS::ParseContext pc(out.data(), out.size());
    JS::Error e;
    {
      Inside in;
      e = t->parse(pc, back.p);
    }
    log("back", uint64_t(e));
    log("value", ty::text(t, back.p));
  }
}
static void reading(Session &s, Src &c, Log &log)
{
  doc::Writer w;
  w.sy = doc::gen_syntax(c);
  w.c = &c;
  w.noise = c.below(3);
  w.document(*doc::gen_doc(c, doc::gen_cfg(c), w.sy));
  std::string d = w.out;
  if (c.chance(1, 4))
    doc::damage(c, d, true);
  Plan p = gen_plan(c, d, false);
  Pipe pipe(c, d, p);
  JS::Tokenizer t;
  set_syntax(t, w.sy);
  pipe.attach(t);
  pipe.on_request = [&] { point(s); };
  t.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
  JS::Token token;
  std::string raw;
  for (size_t calls = 0; calls < 50 + 30 * d.size(); calls++)
  {
    JS::Error e;
    {
      Inside in;
      e = t.nextToken(token);
    }
    if (e == JS::Error::NeedMoreData)
    {
      if (pipe.exhausted())
        break;
      yield();
      if (p.mode != Mode::Callback)
        pipe.feed();
      continue;
    }
    if (e != JS::Error::NoError)
    {
      Inside in;
      std::string m = t.makeErrorString();
      Outside out;
      log("message", m);
      break;
    }
    log("token", uint64_t(token.value_type));
    log("name", std::string(token.name.data, token.name.size));
    log("value", std::string(token.value.data, token.value.size));
    if ((token.value_type == JS::Type::ObjectStart || token.value_type == JS::Type::ArrayStart) && p.mode != Mode::Push &&
        p.mode != Mode::Mixed && !p.stall && c.chance(1, 4))
    {
      Inside in;
      t.copyFromValue(token, raw);
      t.pushScope(token.value_type);
      e = t.goToEndOfScope(token);
      if (e == JS::Error::NoError)
        t.copyIncludingValue(token, raw);
      t.popScope();
      Outside out;
      log("skipped", uint64_t(e));
      log("raw", raw);
      if (e != JS::Error::NoError)
        break;
    }
    if (c.chance(1, 3))
      yield();
  }
}
static void formatting(Session &s, Src &c, Log &log)
{
  for (uint32_t i = c.range(1, 3); i; i--)
  {
    std::string d = c.chance(1, 4) ? soup(c, pick_type(c), doc::Syntax()) : generic_text(c, doc::Syntax(), c.coin() ? int(doc::K::Arr) : int(doc::K::Obj));
    JS::SerializerOptions o(c.coin() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
    std::string out;
    JS::Error e;
    {
      Inside in;
      e = JS::reformat(d.data(), d.size(), out, o);
    }
    log("error", uint64_t(e));
    log("out", out);
    point(s);
  }
}
static void diffing(Session &s, Src &c, Log &log)
{
  JS::DiffContext x;
  std::vector<std::string> keep;
  keep.reserve(16);
  for (uint32_t i = c.range(2, 5); i; i--)
  {
    std::string d = generic_text(c, doc::Syntax(), c.coin() ? int(doc::K::Arr) : int(doc::K::Obj));
    if (c.chance(1, 5))
      token_damage(c, d);
    keep.push_back(d);
    bool base = keep.size() == 1 || c.chance(1, 4);
    {
      Inside in;
      if (base)
        x.reset(keep.back().data(), keep.back().size());
      else
        x.diff(keep.back().data(), keep.back().size());
    }
    log("error", uint64_t(x.error));
    for (auto &r : x.diffs)
    {
      log("count", r.diff_count);
      std::string m;
      for (auto f : r.diffs)
        m += char('a' + int(f) % 26);
      log("marks", m);
    }
    point(s);
  }
}
static void mapping(Session &s, Src &c, Log &log)
{
  MapSim m(c);
  m.runner = [&](const std::function<void()> &f) {
    {
      Inside in;
      f();
    }
    yield();
    return true;
  };
  m.start();
  for (uint32_t i = c.range(1, 6); i; i--)
  {
    m.step();
    point(s);
    std::string t;
    {
      Inside in;
      t = JS::serializeStruct(*m.map);
    }
    log("map", t);
  }
}
static void calling(Session &s, Src &c, Log &log)
{
  fn::Script sc;
  fn::gen_script(c, sc, c.below(3));
  std::string d = sc.text;
  if (c.chance(1, 4))
    token_damage(c, d);
  std::vector<fn::Rec> made;
  struct Guard
  {
    fn::Host *h;
    ~Guard() { fn::destroy_host(h); }
  } host{fn::make_host(&made)};
  Plan p = gen_plan(c, d, true);
  if (p.mode == Mode::Upfront)
    p.mode = Mode::Callback;
  Pipe pipe(c, d, p);
  std::string out;
  {
    JS::DefaultCallFunctionContext cx(out);
    cx.allow_missing = c.coin();
    cx.stop_execute_on_fail = c.coin();
    pipe.attach(cx.p_context.tokenizer);
    pipe.on_request = [&] { point(s); };
    cx.p_context.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
    JS::Error e;
    {
      Inside in;
      e = fn::call(cx, *host.h);
    }
    log("error", uint64_t(e));
    for (auto &x : cx.execution_list)
    {
      log("call", x.name);
      log("error", uint64_t(x.error));
      log("message", x.error_string.data);
      log("missing", join(x.missing_members.data, false));
    }
  }
  for (auto &r : made)
    log(r.name.c_str(), r.arg);
  log("out", out);
}
static void work(Session &s)
{
  s.started = true;
  Src c;
  c.own = true;
  c.state = s.seed;
  c.left = s.left;
  Log log{s};
  bool was = in_lib();
  in_lib() = false;
  switch (s.kind)
  {
  case 0:
    typed(s, c, log);
    break;
  case 1:
    writing(s, c, log);
    break;
  case 2:
    reading(s, c, log);
    break;
  case 3:
    formatting(s, c, log);
    break;
  case 4:
    diffing(s, c, log);
    break;
  case 5:
    mapping(s, c, log);
    break;
  default:
    calling(s, c, log);
  }
  in_lib() = was;
}
static void *thread_main(void *p)
{
  Session &s = *static_cast<Session *>(p);
  wait_for(&s.go);
  if (s.inlined)
    return nullptr; // it ran inside a callback of another one
  countdown = next_slice();
  work(s);
  countdown = 0;
  s.done = true;
  std::vector<Session *> ready;
  for (auto x : S.all)
    if (!x->done && !x->inlined)
      ready.push_back(x);
  if (ready.empty())
    sem_post(&S.main);
  else
    pass_to(ready[S.c->below(uint32_t(ready.size()))]);
  return nullptr;
}
void scenario(Src &c)
{
  static const char *kinds[] = {"typed", "writing", "reading", "formatting", "diffing", "mapping", "calling"};
  uint32_t n = c.range(2, 5);
  bool alike = c.coin();
  std::vector<std::unique_ptr<Session>> ss;
  S.all.clear();
  S.c = &c;
  S.switches = S.inside = 0;
  S.pace = c.below(5);
  S.limit = c.pick({400u, 30u, 5u, 1500u});
  uint32_t kind = c.weighted({4, 2, 2, 1, 1, 2, 2});
  const ty::AnyType *type = c.coin() ? pick_type(c) : nullptr;
  for (uint32_t i = 0; i < n; i++)
  {
    ss.emplace_back(new Session());
    Session &s = *ss.back();
    s.kind = alike ? kind : c.weighted({4, 2, 2, 1, 1, 2, 2});
    s.type = type;
    s.left = c.pick({2000u, 300u, 40u});
    s.seed = c.u64();
    S.all.push_back(&s);
    ev(kinds[s.kind], s.seed, s.left);
  }
  sem_init(&S.main, 0, 0);
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 4u << 20);
  for (auto s : S.all)
    if (pthread_create(&s->thread, &a, thread_main, s) != 0)
      violate("oracle", "no thread");
  S.on = true;
  countdown = 0;
  pass_to(S.all[c.below(n)]);
  wait_for(&S.main);
  S.on = false;
  countdown = 0;
  for (auto s : S.all)
    if (s->inlined)
      sem_post(&s->go); // its thread was not needed
  for (auto s : S.all)
    pthread_join(s->thread, nullptr);
  pthread_attr_destroy(&a);
  sem_destroy(&S.main);
  if (S.switches > 2)
    nontrivial();
  counter("probe.switches") += S.switches;
  for (auto &p : ss)
    evs("log", p->log);
  // alone
  for (auto &p : ss)
  {
    Session alone;
    alone.kind = p->kind;
    alone.type = p->type;
    alone.seed = p->seed;
    alone.left = p->left;
    work(alone);
    if (alone.log != p->log)
    {
      size_t i = 0;
      while (i < alone.log.size() && i < p->log.size() && alone.log[i] == p->log[i])
        i++;
      size_t b = i > 80 ? i - 80 : 0;
      violate("interference", "a %s session gave ...%s among %zu others, alone it gives ...%s", kinds[p->kind],
              printable(p->log.substr(b), 800).c_str(), ss.size() - 1, printable(alone.log.substr(b), 800).c_str());
    }
  }
}
#include "main.hpp"
