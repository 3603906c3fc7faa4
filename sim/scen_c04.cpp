// C04: truncated input is never taken for complete and resumes exactly.
#include "calls.hpp"
#include "sink.hpp"
#include "typed.hpp"
#include <json_struct/json_struct_diff.h>
using namespace sim;
const char *scenario_id() { return "C04"; }
void warmup() { typed_warmup(); }

static size_t cut_point(Src &c, const std::string &d)
{
  // uniformly, or just before/after a significant character
  size_t n = d.size();
  if (n < 2 || c.coin())
    return c.below(uint32_t(n));
  size_t p = c.below(uint32_t(n));
  for (size_t i = 0; i < n; i++)
  {
    char ch = d[(p + i) % n];
    if (strchr("{}[]:,\"\\", ch))
    {
      size_t k = (p + i) % n + c.below(2);
      return k >= n ? n - 1 : k;
    }
  }
  return p;
}
static void bounded(const Pipe &p, const char *what)
{
  if (p.idle_requests > 64 + 4 * p.data.size())
    violate("no-progress", "%s asked for data %llu times after the end of %zu bytes", what,
            (unsigned long long)p.idle_requests, p.data.size());
}
static void typed(Src &c)
{
  const ty::AnyType *t = pick_type(c);
  ev(t->name());
  doc::Syntax sy = typed_syntax(c);
  ty::TW tw;
  tw_options(c, tw, sy);
  tw.inject_unknown = c.coin();
  tw.omit = c.chance(1, 4);
  ty::Val want(t), start(t);
  t->gen(c, want.p);
  t->write(tw, want.p, start.p);
  std::string d = tw.w.out;
  d.resize(cut_point(c, d));
  fault("input_truncated");
  evs("document", d);
  Plan p = gen_plan(c, d, true);
  Pipe pipe(c, d, p);
  JS::ParseContext pc;
  set_syntax(pc.tokenizer, sy);
  pipe.attach(pc.tokenizer);
  if (p.mode != Mode::Upfront)
    pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
  {
    ty::Val got(t);
    if (c.chance(1, 4))
      t->gen(c, got.p);
    JS::Error e = t->parse(pc, got.p);
    ev("parse", uint64_t(e));
    if (e == JS::Error::NoError)
      violate("truncated-accepted", "%s: a document cut off after %zu bytes was accepted as %s; input: %s", t->name(),
              d.size(), printable(ty::text(t, got.p), 600).c_str(), printable(d, 1500).c_str());
    bounded(pipe, "the parse");
    evs("error", pc.makeErrorString());
    evs("left", ty::text(t, got.p));
    // once more, with nothing new to read
    if (c.chance(1, 3))
    {
      pipe.idle_requests = 0;
      JS::Error e2 = t->parse(pc, got.p);
      ev("parse", uint64_t(e2));
      bounded(pipe, "a further parse");
    }
  }
  nontrivial();
}
static std::string plain_doc(Src &c, int force = -1)
{
  doc::GenCfg g = doc::gen_cfg(c);
  doc::Writer w;
  w.c = &c;
  w.noise = c.below(3);
  doc::NodeP n = doc::gen_doc(c, g, doc::Syntax(), force);
  w.value(*n, doc::Tok());
  return w.out;
}
template <class T>
static void parse_cut(const std::string &d, const char *what)
{
  JS::ParseContext pc(d.data(), d.size());
  T v;
  JS::Error e = pc.parseTo(v);
  ev(what, uint64_t(e));
  if (e == JS::Error::NoError)
    violate("truncated-accepted", "%s: a document cut off after %zu bytes was accepted; input: %s", what, d.size(),
            printable(d, 1500).c_str());
  evs("error", pc.makeErrorString());
}
static void generic(Src &c)
{
  bool obj = c.coin();
  std::string whole = plain_doc(c, obj ? int(doc::K::Obj) : int(doc::K::Arr));
  std::string s = whole;
  s.resize(1 + c.below(uint32_t(s.size() - 1))); // at least the opening bracket has arrived
  fault("input_truncated");
  // an allocation of exactly the given bytes
  struct Mem
  {
    char *p;
    ~Mem() { free(p); }
  } mem{static_cast<char *>(malloc(s.size()))};
  memcpy(mem.p, s.data(), s.size());
  evs("document", s);
  nontrivial();
  switch (c.below(6))
  {
  case 0:
    parse_cut<JS::JsonTokens>(s, "JsonTokens");
    break;
  case 1:
    parse_cut<JS::Map>(s, "Map");
    break;
  case 2:
    if (obj)
      parse_cut<JS::JsonObjectRef>(s, "JsonObjectRef");
    else
      parse_cut<JS::JsonArrayRef>(s, "JsonArrayRef");
    parse_cut<JS::JsonObjectOrArrayRef>(s, "JsonObjectOrArrayRef");
    break;
  case 3:
    if (obj)
      parse_cut<JS::JsonObject>(s, "JsonObject");
    else
      parse_cut<JS::JsonArray>(s, "JsonArray");
    parse_cut<JS::JsonObjectOrArray>(s, "JsonObjectOrArray");
    break;
  case 4: {
    std::string out;
    if (c.coin())
      out.assign(c.range(1, 50), 'x');
    std::string lead = c.chance(1, 3) ? plain_doc(c) + (c.coin() ? "\n" : "") : "";
    std::string in = lead + s;
    JS::Error e = JS::reformat(in.data(), in.size(), out,
                               JS::SerializerOptions(c.coin() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty));
    ev("reformat", uint64_t(e));
    if (e == JS::Error::NoError)
      violate("truncated-accepted", "reformat accepted a document cut off after %zu bytes; input: %s", in.size(),
              printable(in, 1500).c_str());
    break;
  }
  default: {
    JS::DiffContext d(whole.data(), whole.size());
    if (d.error != JS::DiffError::NoError)
      violate("diff-base", "DiffContext rejected a well-formed base with %d: %s", int(d.error), printable(whole, 1500).c_str());
    size_t i = d.diff(mem.p, s.size());
    ev("diff", uint64_t(d.error), i);
    if (d.error == JS::DiffError::NoError || i != size_t(-1))
      violate("truncated-accepted", "DiffContext::diff accepted a document cut off after %zu bytes; input: %s", s.size(),
              printable(s, 1500).c_str());
    d.reset(mem.p, s.size());
    if (d.error == JS::DiffError::NoError)
      violate("truncated-accepted", "DiffContext::reset accepted a base cut off after %zu bytes; input: %s", s.size(),
              printable(s, 1500).c_str());
    JS::DiffContext d2(mem.p, s.size());
    if (d2.error == JS::DiffError::NoError)
      violate("truncated-accepted", "DiffContext accepted a base cut off after %zu bytes; input: %s", s.size(),
              printable(s, 1500).c_str());
  }
  }
}
static void calls(Src &c)
{
  std::vector<fn::Rec> log;
  struct Guard
  {
    fn::Host *h;
    ~Guard() { fn::destroy_host(h); }
  } host{fn::make_host(&log)};
  fn::Script s;
  fn::gen_script(c, s, c.below(3));
  std::string d = s.text;
  d.resize(cut_point(c, d));
  fault("input_truncated");
  evs("document", d);
  nontrivial();
  Plan p = gen_plan(c, d, true);
  Pipe pipe(c, d, p);
  JS::ParseContext pc;
  pipe.attach(pc.tokenizer);
  if (p.mode != Mode::Upfront)
    pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
  Sink sink(c);
  JS::Serializer ser;
  sink.attach(ser, true);
  JS::CallFunctionContext cx(pc, ser);
  cx.allow_missing = c.coin();
  cx.stop_execute_on_fail = c.chance(1, 4);
  JS::Error e = fn::call(cx, *host.h);
  ev("call", uint64_t(e), log.size());
  if (e == JS::Error::NoError)
    violate("truncated-accepted", "callFunctions accepted a document cut off after %zu bytes; input: %s", d.size(),
            printable(d, 1500).c_str());
  bounded(pipe, "callFunctions");
  std::vector<fn::Rec> want;
  for (auto &m : s.members)
    if (m.called)
      want.push_back({m.rec_name, m.rec_arg});
  for (size_t i = 0; i < log.size(); i++)
    if (i >= want.size() || log[i].name != want[i].name || log[i].arg != want[i].arg)
      violate("truncated-call", "invocation %zu %s(%s) is not what the document says; input: %s", i, log[i].name.c_str(),
              printable(log[i].arg, 200).c_str(), printable(d, 1500).c_str());
  evs("returned", sink.contents());
  for (auto &st : cx.execution_list)
    evs(st.name.c_str(), st.error_string.data);
}
// a reader that is starved at arbitrary points and continues later
static void resume(Src &c)
{
  doc::Syntax sy = doc::gen_syntax(c);
  doc::GenCfg g = doc::gen_cfg(c);
  doc::Writer w;
  w.c = &c;
  w.sy = sy;
  w.noise = c.below(4);
  uint32_t docs = c.weighted({4, 1}) + 1;
  for (uint32_t i = 0; i < docs; i++)
    w.document(*doc::gen_doc(c, g, sy));
  const std::string &d = w.out;
  evs("document", d);
  Plan p;
  p.parts = cut(c, d);
  p.mode = c.coin() ? Mode::Push : Mode::Callback;
  p.stall = p.mode == Mode::Callback ? c.range(2, 7) : 0;
  p.use_release = !c.chance(1, 6);
  Pipe pipe(c, d, p);
  JS::Tokenizer t;
  set_syntax(t, sy);
  pipe.attach(t);
  JS::Token token;
  size_t n = 0;
  uint64_t calls = 0;
  uint32_t skip_den = c.pick({4u, 16u, 1000u});
  // one call of the library that may come back empty-handed; returns false at the end of the stream
  auto starve = [&](JS::Error e) -> bool {
    if (e != JS::Error::NeedMoreData)
      violate("rejected", "well-formed document rejected with error %d after %zu of %zu tokens; document: %s", int(e), n,
              w.toks.size(), printable(d, 1500).c_str());
    if (pipe.exhausted())
      return false;
    fault("reader_starved");
    if (++calls > 100 + 60 * d.size())
      violate("no-progress", "reading did not finish within %llu calls", (unsigned long long)calls);
    if (p.mode == Mode::Callback || c.chance(1, 3))
    {
      if (p.mode == Mode::Push)
        fault("fruitless_call");
      return true;
    }
    pipe.feed();
    return true;
  };
  for (;;)
  {
    JS::Error e = t.nextToken(token);
    ev("nextToken", uint64_t(e));
    if (e != JS::Error::NoError)
    {
      if (!starve(e))
        break;
      continue;
    }
    Seen s = snapshot(token);
    if (n >= w.toks.size())
      violate("token-extra", "token %zu beyond the end: %s; document: %s", n, show(s).c_str(), printable(d, 1500).c_str());
    check_token(s, w.toks[n], n, d);
    n++;
    if ((token.value_type == JS::Type::ObjectStart || token.value_type == JS::Type::ArrayStart) && c.chance(1, skip_den))
    {
      probe("skip_resumed");
      t.pushScope(token.value_type);
      bool over = false;
      for (;;)
      {
        e = t.goToEndOfScope(token);
        ev("goToEndOfScope", uint64_t(e));
        if (e == JS::Error::NoError)
          break;
        if (!starve(e))
        {
          over = true;
          break;
        }
      }
      if (over)
        violate("skip-lost", "the end of a skipped value was not found; document: %s", printable(d, 1500).c_str());
      if (t.nextToken(token) != JS::Error::ScopeHasEnded)
        violate("scope-end", "reading continued beyond the end of a scope; document: %s", printable(d, 1500).c_str());
      t.popScope();
      size_t depth = 1;
      while (depth)
      {
        auto ty = w.toks[n].type;
        if (ty == doc::T::Obj || ty == doc::T::Arr)
          depth++;
        if (ty == doc::T::ObjEnd || ty == doc::T::ArrEnd)
          depth--;
        n++;
      }
    }
  }
  if (n != w.toks.size())
    violate("token-count", "%zu tokens read, the document has %zu; document: %s", n, w.toks.size(),
            printable(d, 1500).c_str());
}
void scenario(Src &c)
{
  switch (c.weighted({5, 4, 3, 4}))
  {
  case 0:
    typed(c);
    break;
  case 1:
    generic(c);
    break;
  case 2:
    calls(c);
    break;
  default:
    resume(c);
  }
}
#include "main.hpp"
