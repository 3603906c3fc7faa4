// C05: arbitrary or damaged input is contained.
#include "soup.hpp"
#include "sink.hpp"
#include "refs.hpp"
#include <json_struct/json_struct_diff.h>
using namespace sim;
const char *scenario_id() { return "C05"; }
void warmup() { typed_warmup(); }

// memory in proportion to the input
struct Budget
{
  size_t cap, total;
  explicit Budget(size_t input)
    : cap(g().cap_bytes)
    , total(g().total_bytes)
  {
    g().cap_bytes = (size_t(64) << 10) + 600 * input;
    g().total_bytes = 0;
  }
  ~Budget()
  {
    g().cap_bytes = cap;
    g().total_bytes = total;
  }
};
// exactly the given bytes on the heap
struct Mem
{
  char *p;
  size_t n;
  explicit Mem(const std::string &s)
    : p(static_cast<char *>(malloc(s.size() ? s.size() : 1)))
    , n(s.size())
  {
    memcpy(p, s.data(), n);
  }
  Mem(const Mem &) = delete;
  ~Mem() { free(p); }
};
static void bounded(const Pipe &p, const char *what)
{
  if (p.idle_requests > 64 + 8 * p.data.size())
    violate("no-progress", "%s asked for data %llu times after the end of %zu bytes", what,
            (unsigned long long)p.idle_requests, p.data.size());
}
// how much of the surroundings an error report shows
static void report(Src &c, JS::Tokenizer &t)
{
  if (c.chance(1, 4))
    t.setErrorContextConfig(c.pick({size_t(0), size_t(1), size_t(2), size_t(3), size_t(9), size_t(1) << 20}),
                            c.pick({size_t(0), size_t(1), size_t(2), size_t(17), size_t(500), size_t(1) << 20}));
}
static doc::Syntax options(Src &c)
{
  doc::Syntax s;
  s.ascii = c.coin();
  s.newlines = c.coin();
  s.superfluous = c.coin();
  s.comments = c.coin();
  return s;
}
static std::string input(Src &c, const ty::AnyType *t, doc::Syntax &sy)
{
  doc::Syntax written = c.coin() ? doc::gen_syntax(c) : doc::Syntax();
  sy = c.chance(2, 3) ? written : options(c);
  std::string s = soup(c, t, written);
  evs("input", s);
  nontrivial();
  return s;
}
static void typed(Src &c)
{
  const ty::AnyType *t = pick_type(c);
  ev(t->name());
  doc::Syntax sy;
  std::string d = input(c, t, sy);
  Plan p = gen_plan(c, d, true);
  ty::Val got(t);
  if (c.chance(1, 4))
    t->gen(c, got.p);
  {
    Pipe pipe(c, d, p);
    Budget budget(d.size());
    JS::ParseContext pc;
    set_syntax(pc.tokenizer, sy);
  report(c, pc.tokenizer);
    pc.allow_missing_members = !c.chance(1, 4);
    pc.allow_unasigned_required_members = !c.chance(1, 4);
    pc.track_member_assignement_state = !c.chance(1, 4);
    pipe.attach(pc.tokenizer);
    if (p.mode != Mode::Upfront)
      pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
    JS::Error e = t->parse(pc, got.p);
    ev("parse", uint64_t(e));
    probe(e == JS::Error::NoError ? "accepted" : "rejected");
    bounded(pipe, "the parse");
    if (c.coin())
      evs("error", pc.makeErrorString());
    if (c.chance(1, 4))
    {
      pipe.idle_requests = 0;
      ty::Val other(t);
      ev("parse", uint64_t(t->parse(pc, other.p)));
      bounded(pipe, "a further parse");
      evs("error", pc.makeErrorString());
    }
    // the same context gets other data
    if (c.chance(1, 3))
    {
      Budget generator(1000000);
      std::string d2 = c.coin() ? soup(c, t, doc::Syntax()) : typed_text(c, t, doc::Syntax());
      evs("input", d2);
      Mem mem(d2);
      Budget more(d2.size());
      std::function<void(const char *)> none;
      pc.tokenizer.resetData(mem.p, mem.n, 0);
      pc.tokenizer.setReleaseCallback(none);
      pc.tokenizer.setNeedMoreDataCallback(std::function<void(JS::Tokenizer &)>());
      ty::Val other(t);
      ev("parse", uint64_t(t->parse(pc, other.p)));
      evs("error", pc.makeErrorString());
    }
  }
  // the target can be read ...
  evs("left", ty::text(t, got.p));
  {
    Budget budget(d.size() + 2000);
    evs("left", t->serialize_default(got.p));
  }
  // ... and used again
  ty::Val prev(t), want(t);
  t->copy(prev.p, got.p);
  ty::TW tw;
  tw_options(c, tw, doc::Syntax());
  t->gen(c, want.p);
  t->write(tw, want.p, prev.p);
  JS::ParseContext pc(tw.w.out.data(), tw.w.out.size());
  JS::Error e = t->parse(pc, got.p);
  if (e != JS::Error::NoError || !t->eq(want.p, got.p))
    violate("not-reusable", "%s: after parsing %s the target took %s with error %d as %s", t->name(),
            printable(d, 1200).c_str(), printable(tw.w.out, 1500).c_str(), int(e),
            printable(ty::text(t, got.p), 1500).c_str());
}
static void tokens(Src &c)
{
  doc::Syntax sy;
  std::string d = input(c, pick_type(c), sy);
  Plan p = gen_plan(c, d, false);
  Pipe pipe(c, d, p);
  Budget budget(d.size());
  JS::Tokenizer t;
  set_syntax(t, sy);
  report(c, t);
  pipe.attach(t);
  JS::Token token;
  std::string raw;
  size_t n = 0, errors = 0, calls = 0;
  bool touch = c.coin();
  for (;;)
  {
    if (++calls > 100 + 64 * d.size())
      violate("no-progress", "reading %zu bytes took more than %zu calls; input: %s", d.size(), calls,
              printable(d, 1500).c_str());
    JS::Error e = t.nextToken(token);
    ev("nextToken", uint64_t(e));
    if (e == JS::Error::NeedMoreData)
    {
      if (c.chance(1, 4))
        evs("error", t.makeErrorString());
      if (pipe.exhausted())
        break;
      if (p.mode != Mode::Callback)
        pipe.feed();
      continue;
    }
    if (e != JS::Error::NoError)
    {
      evs("error", t.makeErrorString());
      if (++errors > 3 || c.coin())
        break;
      continue;
    }
    if (++n > d.size() + 2)
      violate("no-progress", "more tokens than bytes: %zu; input: %s", n, printable(d, 1500).c_str());
    Seen s = snapshot(token);
    evs(s.name.c_str(), s.value);
    if (touch && (token.value_type == JS::Type::ObjectStart || token.value_type == JS::Type::ArrayStart) && c.chance(1, 3))
    {
      bool cap = c.coin();
      raw.clear();
      if (cap)
        t.copyFromValue(token, raw);
      t.pushScope(token.value_type);
      do
        e = t.goToEndOfScope(token);
      while (e == JS::Error::NeedMoreData && pipe.feed());
      t.popScope();
      if (cap)
        t.copyIncludingValue(token, raw);
      evs("skipped", raw);
      if (e != JS::Error::NoError)
      {
        evs("error", t.makeErrorString());
        break;
      }
    }
  }
  bounded(pipe, "the tokenizer");
}
static void read(const JS::DataRef &r)
{
  evs("ref", std::string(r.data ? r.data : "", r.size));
}
template <class T>
static void tokens_of(const T &v)
{
  for (auto &t : v)
  {
    read(t.name);
    read(t.value);
  }
}
static void from_tokens(Src &c, const std::vector<JS::Token> &tokens)
{
  const ty::AnyType *t = pick_type(c);
  ev(t->name());
  ty::Val v(t);
  JS::ParseContext pc;
  report(c, pc.tokenizer);
  if (c.coin())
    pc.tokenizer.addData(&tokens);
  else
    pc.tokenizer.resetData(&tokens, 0);
  JS::Error e = t->parse(pc, v.p);
  ev("from-tokens", uint64_t(e));
  evs("error", pc.makeErrorString());
  probe(e == JS::Error::NoError ? "accepted_from_tokens" : "rejected_from_tokens");
  evs("left", ty::text(t, v.p));
}
static void use(Src &c, JS::Map &m, size_t n)
{
  JS::ParseContext pc;
  size_t k = 0;
  for (auto it = m.begin(); it != m.end(); ++it)
  {
    if (++k > n + 1)
      violate("no-progress", "iterating over a map of at most %zu bytes does not end", n);
    const JS::Token &t = *it;
    read(t.name);
    read(t.value);
    const ty::AnyType *ty = c.pick(ty::member_registry());
    ty::Val v(ty);
    ev("cast", uint64_t(ty->map_cast_it(m, it, pc, v.p)));
    (void)pc.makeErrorString();
  }
  ev("find", m.find("a") != m.end(), k);
  {
    const ty::AnyType *ty = pick_type(c);
    ty::Val v(ty);
    ev("castAll", uint64_t(ty->map_cast_all(m, pc, v.p)));
    (void)pc.makeErrorString();
  }
  {
    const ty::AnyType *ty = c.pick(ty::member_registry());
    ty::Val v(ty);
    ty->gen(c, v.p);
    JS::Error e = ty->map_set(m, "a", pc, v.p);
    ev("set", uint64_t(e));
    if (e == JS::Error::NoError && !ty->absent(v.p))
    {
      ty::Val w(ty);
      e = ty->map_cast(m, "a", pc, w.p);
      ty::raw_by_content = true;
      bool same = ty->eq(v.p, w.p);
      ty::raw_by_content = false;
      if (e != JS::Error::NoError || !same)
        violate("map-not-usable", "a Map made from arbitrary input does not hold a value set later (%d)", int(e));
    }
  }
  for (int i = 0; i < 3; i++)
  {
    const ty::AnyType *ty = i == 1 ? c.pick(ty::member_registry()) : pick_type(c);
    ty::Val v(ty);
    ev("castAll", uint64_t(i == 1 && m.begin() != m.end() ? ty->map_cast_it(m, m.begin(), pc, v.p) : ty->map_cast_all(m, pc, v.p)));
    evs("error", pc.makeErrorString());
  }
  // the tokens of a Map may refer to several texts
  for (int i = 0; i < 2; i++)
    from_tokens(c, m.tokens.data);
  evs("map", JS::serializeStruct(m));
}
template <class T>
static JS::Error parse_ref(Src &c, const Mem &mem, const doc::Syntax &sy, T &v, const char *what)
{
  JS::ParseContext pc(mem.p, mem.n);
  set_syntax(pc.tokenizer, sy);
  report(c, pc.tokenizer);
  JS::Error e = pc.parseTo(v);
  ev(what, uint64_t(e));
  probe(e == JS::Error::NoError ? "accepted" : "rejected");
  if (e != JS::Error::NoError || c.coin())
    evs("error", pc.makeErrorString());
  return e;
}
static void generic(Src &c)
{
  doc::Syntax sy;
  std::string d = input(c, pick_type(c), sy);
  Mem mem(d);
  // (indentation makes the output of deeply nested input grow with the square of its depth)
  Budget budget(d.size() + 4000 + d.size() * d.size() / 50);
  switch (c.below(7))
  {
  case 0: {
    JS::JsonTokens t;
    parse_ref(c, mem, sy, t, "JsonTokens");
    tokens_of(t.data);
    from_tokens(c, t.data);
    evs("tokens", JS::serializeStruct(t));
    break;
  }
  case 1: {
    JS::Map m;
    parse_ref(c, mem, sy, m, "Map");
    use(c, m, d.size());
    break;
  }
  case 2: {
    JS::JsonObjectRef r;
    parse_ref(c, mem, sy, r, "JsonObjectRef");
    read(r.ref);
    JS::JsonArrayRef a;
    parse_ref(c, mem, sy, a, "JsonArrayRef");
    read(a.ref);
    JS::JsonObjectOrArrayRef oa;
    parse_ref(c, mem, sy, oa, "JsonObjectOrArrayRef");
    read(oa.ref);
    break;
  }
  case 3: {
    refs::Refs r;
    std::string doc = "{";
    uint32_t n = c.range(1, 5);
    for (uint32_t i = 0; i < n; i++)
    {
      doc += i ? "," : "";
      doc += c.pick({"\"o\":", "\"a\":", "\"oa\":", "\"t\":", "\"vt\":", "\"m\":", "\"vo\":", "\"mt\":", "\"um\":"});
      std::string x = c.coin() ? d : c.pick({std::string("{\"b\":[1]}"), std::string("[{}]"), std::string("7"), std::string("{}"), std::string("{\"x\":{}}")});
      doc += x;
    }
    doc += c.coin() ? ",\"last\":1}" : "}";
    if (c.chance(1, 3))
      token_damage(c, doc);
    Mem whole(doc);
    evs("document", doc);
    JS::Error e = parse_ref(c, whole, sy, r, "Refs");
    tokens_of(r.t.data);
    tokens_of(r.vt);
    ev("error", uint64_t(e));
    {
      read(r.o.ref);
      read(r.a.ref);
      read(r.oa.ref);
      for (auto &x : r.vo)
        read(x.ref);
      for (auto &x : r.mt)
        tokens_of(x.second.data);
    }
    use(c, r.m, doc.size());
    break;
  }
  case 4: {
    std::string out;
    ev("reformat", uint64_t(JS::reformat(mem.p, mem.n, out,
                                         JS::SerializerOptions(c.coin() ? JS::SerializerOptions::Compact
                                                                        : JS::SerializerOptions::Pretty))));
    evs("out", out);
    JS::Serializer s;
    Budget more(1000000);
    Sink sink(c);
    sink.attach(s, true);
    JS::JsonTokens t;
    if (parse_ref(c, mem, sy, t, "JsonTokens") == JS::Error::NoError || c.coin())
      for (auto &x : t.data)
        s.write(x);
    evs("out", sink.contents());
    break;
  }
  default: {
    std::string other = c.coin() ? generic_text(c, doc::Syntax()) : soup(c, pick_type(c), doc::Syntax());
    if (c.chance(1, 4))
    {
      other = d;
      token_damage(c, other);
    }
    Mem m2(other);
    evs("other", other);
    bool order = c.coin();
    const Mem &base = order ? mem : m2, &cmp = order ? m2 : mem;
    JS::DiffOptions o;
    if (c.coin())
      o = JS::DiffOptions(c.coin() ? JS::DiffFlags::None : JS::DiffFlags::FuzzyFloatComparison, c.coin() ? 1e-6 : 0.0);
    JS::DiffContext dc(base.p, base.n, o);
    ev("base", uint64_t(dc.error));
    for (int i = 0, k = c.range(1, 3); i < k; i++)
    {
      size_t r = dc.diff(cmp.p, cmp.n);
      ev("diff", uint64_t(dc.error), r);
      if (r != size_t(-1))
      {
        if (r >= dc.diffs.size())
          violate("diff-index", "diff returned index %zu of %zu", r, dc.diffs.size());
        auto &dt = dc.diffs[r];
        for (auto &t : dt.diffs)
          ev("d", uint64_t(t));
        for (auto &t : dt.tokens.data)
        {
          read(t.name);
          read(t.value);
          if (auto *mm = dt.getMissingMembers(t))
            tokens_of(*mm);
          if (auto *mm = dt.getMissingArrayItems(t))
            tokens_of(*mm);
        }
      }
      if (c.chance(1, 3))
        dc.reset(cmp.p, cmp.n);
    }
  }
  }
}
static void calls(Src &c)
{
  std::vector<fn::Rec> log;
  struct Guard
  {
    fn::Host *h;
    ~Guard() { fn::destroy_host(h); }
  } host{fn::make_host(&log)};
  doc::Syntax sy;
  std::string d;
  if (c.chance(2, 3))
  {
    fn::Script s;
    fn::gen_script(c, s, c.below(3));
    d = s.text;
    if (c.coin())
      token_damage(c, d);
    else
      doc::damage(c, d, true);
    nontrivial();
    evs("input", d);
  }
  else
    d = input(c, pick_type(c), sy);
  Plan p = gen_plan(c, d, true);
  Pipe pipe(c, d, p);
  Budget budget(d.size() + 2000);
  JS::ParseContext pc;
  set_syntax(pc.tokenizer, sy);
  report(c, pc.tokenizer);
  pipe.attach(pc.tokenizer);
  if (p.mode != Mode::Upfront)
    pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
  Sink sink(c);
  JS::Serializer ser;
  sink.attach(ser, true);
  if (sink.cls < 3)
    sink.cls = 3 + c.below(3); // the blocks of the device count as well
  if (c.chance(1, 6))
    sink.limit = c.below(200);
  JS::CallFunctionContext cx(pc, ser);
  cx.allow_missing = c.coin();
  cx.stop_execute_on_fail = c.chance(1, 3);
  JS::Error e = fn::call(cx, *host.h);
  ev("call", uint64_t(e), log.size());
  probe(e == JS::Error::NoError ? "accepted" : "rejected");
  if (log.size() > d.size() || cx.execution_list.size() > d.size())
    violate("no-progress", "%zu calls, %zu results from %zu bytes", log.size(), cx.execution_list.size(), d.size());
  bounded(pipe, "callFunctions");
  evs("returned", sink.contents());
  for (auto &st : cx.execution_list)
  {
    evs(st.name.c_str(), st.error_string.data);
    for (auto &m : st.missing_members.data)
      evs("missing", m);
    for (auto &m : st.unassigned_required_members.data)
      evs("unassigned", m);
  }
  evs("error", pc.makeErrorString());
}
void scenario(Src &c)
{
  switch (c.weighted({6, 3, 4, 3}))
  {
  case 0:
    typed(c);
    break;
  case 1:
    tokens(c);
    break;
  case 2:
    generic(c);
    break;
  default:
    calls(c);
  }
}
#include "main.hpp"
