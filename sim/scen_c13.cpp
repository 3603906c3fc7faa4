// C13: consecutive documents and re-used objects leave no residue.
#include "sink.hpp"
#include "soup.hpp"
#include "refs.hpp"
using namespace sim;
const char *scenario_id() { return "C13"; }
void warmup() { typed_warmup(); }

struct Mem
{
  char *p;
  size_t n;
  explicit Mem(const std::string &s)
    : p(static_cast<char *>(malloc(s.size() ? s.size() : 1)))
    , n(s.size())
  {
    memcpy(p, s.data(), n);
  }
  Mem(const Mem &) = delete;
  ~Mem()
  {
    memset(p, 0xdb, n);
    free(p);
  }
};
static void bounded(const Pipe &p)
{
  if (p.idle_requests > 64 + 8 * p.data.size())
    violate("no-progress", "data was asked for %llu times after the end of %zu bytes", (unsigned long long)p.idle_requests,
            p.data.size());
}
// ---------------------------------------------------------------- several documents in one stream
static void stream(Src &c)
{
  doc::Syntax sy = typed_syntax(c);
  uint32_t k = c.range(2, 5);
  struct D
  {
    const ty::AnyType *t;
    size_t at, size;
    std::vector<std::string> missing, unassigned;
  };
  std::vector<D> ds;
  std::string all;
  const ty::AnyType *same = c.coin() ? pick_type(c) : nullptr;
  std::vector<std::unique_ptr<ty::Val>> want, target;
  std::unique_ptr<ty::Val> shared;
  for (uint32_t i = 0; i < k; i++)
  {
    D d;
    d.t = same ? same : pick_type(c);
    ev(d.t->name());
    ty::TW tw;
    tw_options(c, tw, sy);
    tw.inject_unknown = c.chance(1, 3);
    tw.omit = c.chance(1, 3);
    tw.repeat = c.chance(1, 4);
    want.emplace_back(new ty::Val(d.t));
    ty::Val prev(d.t);
    // the target is fresh, or still holds the document before
    bool reuse = same && i && c.coin();
    if (reuse)
      d.t->copy(prev.p, want[i - 1]->p);
    target.emplace_back(reuse ? nullptr : new ty::Val(d.t));
    d.t->gen(c, want.back()->p);
    d.t->write(tw, want.back()->p, prev.p);
    d.at = all.size();
    d.size = tw.w.out.size();
    d.missing = tw.missing;
    d.unassigned = tw.unassigned;
    all += tw.w.out;
    all += c.pick({"", " ", "\n", "\r\n", "  \t"});
    ds.push_back(d);
  }
  evs("stream", all);
  Plan p = gen_plan(c, all, true);
  Pipe pipe(c, all, p);
  pipe.recycle = c.chance(1, 3);
  JS::ParseContext pc;
  set_syntax(pc.tokenizer, sy);
  pipe.attach(pc.tokenizer);
  if (p.mode != Mode::Upfront)
    pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
  nontrivial();
  ty::Val *cur = nullptr;
  bool clear = c.coin();
  size_t nm = 0, nu = 0;
  for (uint32_t i = 0; i < k; i++)
  {
    if (target[i])
      cur = target[i].get();
    if (clear)
    {
      pc.missing_members.clear();
      pc.unassigned_required_members.clear();
      nm = nu = 0;
    }
    JS::Error e = ds[i].t->parse(pc, cur->p);
    ev("parse", uint64_t(e));
    if (e != JS::Error::NoError)
      violate("rejected", "document %u of the stream (%s) gave error %d: %s; document: %s", i, ds[i].t->name(), int(e),
              pc.makeErrorString().c_str(), printable(all.substr(ds[i].at, ds[i].size), 1500).c_str());
    if (!ds[i].t->eq(want[i]->p, cur->p))
      violate("residue-value", "document %u of the stream (%s) was read as %s instead of %s; document: %s", i,
              ds[i].t->name(), printable(ty::text(ds[i].t, cur->p), 1200).c_str(),
              printable(ty::text(ds[i].t, want[i]->p), 1200).c_str(),
              printable(all.substr(ds[i].at, ds[i].size), 1500).c_str());
    // what this document adds to the lists
    auto added = [&](const std::vector<std::string> &l, size_t &n, std::vector<std::string> w, const char *what) {
      if (l.size() < n)
        violate("residue-list", "entries of %s disappeared", what);
      std::vector<std::string> g(l.begin() + ptrdiff_t(n), l.end());
      n = l.size();
      std::sort(g.begin(), g.end());
      std::sort(w.begin(), w.end());
      if (g != w)
        violate("residue-list", "document %u (%s) reports %s [%s] instead of [%s]; document: %s", i, ds[i].t->name(), what,
                join(g, true).c_str(), join(w, true).c_str(), printable(all.substr(ds[i].at, ds[i].size), 1500).c_str());
    };
    added(pc.missing_members, nm, ds[i].missing, "missing members");
    added(pc.unassigned_required_members, nu, ds[i].unassigned, "unassigned members");
    if (c.chance(1, 6))
      evs("error", pc.makeErrorString());
  }
  ty::Val over(ds[0].t);
  JS::Error e = ds[0].t->parse(pc, over.p);
  if (e != JS::Error::NeedMoreData)
    violate("stream-end", "the end of the stream gave %d", int(e));
  bounded(pipe);
}
// ---------------------------------------------------------------- one target, many documents
static void target(Src &c)
{
  const ty::AnyType *t = pick_type(c);
  ev(t->name());
  ty::Val got(t);
  uint32_t k = c.range(2, 6);
  nontrivial();
  for (uint32_t i = 0; i < k; i++)
  {
    doc::Syntax sy = typed_syntax(c);
    if (c.chance(1, 3))
    {
      // a document that does not get through
      std::string s = soup(c, t, sy);
      evs("input", s);
      Plan p = gen_plan(c, s, true);
      Pipe pipe(c, s, p);
      JS::ParseContext pc;
      set_syntax(pc.tokenizer, sy);
      pipe.attach(pc.tokenizer);
      if (p.mode != Mode::Upfront)
        pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
      ev("parse", uint64_t(t->parse(pc, got.p)));
      continue;
    }
    ty::Val prev(t), want(t);
    t->copy(prev.p, got.p);
    ty::TW tw;
    tw_options(c, tw, sy);
    tw.inject_unknown = c.chance(1, 3);
    tw.omit = c.coin();
    tw.repeat = c.chance(1, 3);
    t->gen(c, want.p);
    t->write(tw, want.p, prev.p);
    evs("document", tw.w.out);
    Plan p = gen_plan(c, tw.w.out, true);
    Pipe pipe(c, tw.w.out, p);
    JS::ParseContext pc;
    set_syntax(pc.tokenizer, sy);
    pipe.attach(pc.tokenizer);
    if (p.mode != Mode::Upfront)
      pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
    JS::Error e = t->parse(pc, got.p);
    if (e != JS::Error::NoError || !t->eq(want.p, got.p))
      violate("residue-value", "%s: parsing into a used target gave error %d and %s instead of %s; before: %s; document: %s",
              t->name(), int(e), printable(ty::text(t, got.p), 1000).c_str(), printable(ty::text(t, want.p), 1000).c_str(),
              printable(ty::text(t, prev.p), 1000).c_str(), printable(tw.w.out, 1500).c_str());
    probe("target_reused");
  }
}
// ---------------------------------------------------------------- one context, whatever happened before
static void pollute(Src &c, JS::ParseContext &pc, std::vector<std::unique_ptr<Mem>> &keep,
                    std::vector<std::unique_ptr<JS::Map>> &maps, const doc::Syntax &sy)
{
  const ty::AnyType *t = pick_type(c);
  std::string s = c.chance(1, 3) ? typed_text(c, t, sy) : soup(c, t, sy);
  evs("before", s);
  keep.emplace_back(new Mem(s));
  pc.tokenizer.resetData(keep.back()->p, keep.back()->n, 0);
  switch (c.below(4))
  {
  case 0:
  case 1: {
    ty::Val v(t);
    ev("parse", uint64_t(t->parse(pc, v.p)));
    fault("context_failed_before");
    break;
  }
  case 2: {
    // abandoned in the middle, with scopes and captures still open
    static std::string raw;
    uint32_t n = c.below(12);
    JS::Token token;
    for (uint32_t i = 0; i < n; i++)
    {
      if (pc.tokenizer.nextToken(token) != JS::Error::NoError)
        break;
      if (token.value_type == JS::Type::ObjectStart || token.value_type == JS::Type::ArrayStart)
      {
        if (c.chance(1, 3))
          pc.tokenizer.pushScope(token.value_type);
        if (c.chance(1, 4))
        {
          raw.clear();
          pc.tokenizer.copyFromValue(token, raw);
        }
      }
    }
    fault("abandoned_in_the_middle");
    break;
  }
  default: {
    maps.emplace_back(new JS::Map); // the context refers to its tokens
    JS::Map &m = *maps.back();
    ev("map", uint64_t(pc.parseTo(m)));
    ty::Val v(t);
    ev("cast", uint64_t(t->map_cast(m, "a", pc, v.p)));
    if (!m.tokens.data.empty())
      ev("castAll", uint64_t(t->map_cast_all(m, pc, v.p)));
    fault("context_used_for_a_map");
  }
  }
  if (c.chance(1, 3))
    evs("error", pc.makeErrorString());
  if (c.chance(1, 8))
    pc.tokenizer.updateErrorContext(JS::Error::UserDefinedErrors, "message of an earlier error");
}
static void context(Src &c)
{
  doc::Syntax sy = c.coin() ? doc::gen_syntax(c) : doc::Syntax();
  bool allow_missing = c.chance(2, 3), allow_unassigned = c.chance(2, 3), track = c.chance(2, 3);
  auto setup = [&](JS::ParseContext &pc) {
    set_syntax(pc.tokenizer, sy);
    pc.allow_missing_members = allow_missing;
    pc.allow_unasigned_required_members = allow_unassigned;
    pc.track_member_assignement_state = track;
  };
  std::vector<std::unique_ptr<Mem>> keep;
  std::vector<std::unique_ptr<JS::Map>> maps;
  JS::ParseContext pc;
  setup(pc);
  uint32_t k = c.range(1, 4);
  nontrivial();
  for (uint32_t i = 0; i < k; i++)
  {
    pollute(c, pc, keep, maps, sy);
    if (c.chance(1, 3))
      continue;
    // now something well-formed or not, on this context and on a fresh one
    const ty::AnyType *t = pick_type(c);
    ev(t->name());
    std::string s = c.chance(2, 3) ? typed_text(c, t, sy) : soup(c, t, sy);
    if (c.chance(1, 10))
    {
      // nothing to begin a document with
      static const char *odd[] = {"1", "\"a\"", "true ", ",", "]", "}", "\"a\":1,\"b\":2}", "1,2]", ":1", "null,{}", "// x\n1", "a", "[1]]", "{}}"};
      s = std::string(odd[c.below(14)]) + (c.coin() ? " " : "");
      probe("odd_start");
    }
    evs("document", s);
    keep.emplace_back(new Mem(s));
    JS::ParseContext fresh;
    setup(fresh);
    pc.missing_members.clear();
    pc.unassigned_required_members.clear();
    ty::Val a(t), b(t);
    JS::Error e1, e2;
    JS::JsonTokens toks;
    bool list = false;
    if (c.chance(1, 4))
    {
      // as a list of tokens
      JS::ParseContext pt(keep.back()->p, keep.back()->n);
      set_syntax(pt.tokenizer, sy);
      list = pt.parseTo(toks) == JS::Error::NoError && toks.data.size();
    }
    uint32_t rounds = 1;
    if (list)
    {
      pc.tokenizer.resetData(&toks.data, 0);
      fresh.tokenizer.resetData(&toks.data, 0);
    }
    else
    {
      pc.tokenizer.resetData(keep.back()->p, keep.back()->n, 0);
      fresh.tokenizer.addData(keep.back()->p, keep.back()->n);
      rounds = 1 + c.below(2);
    }
    if (c.coin())
    {
      // nothing has gone wrong with the new data yet
      std::string n1 = pc.tokenizer.makeErrorString(), n2 = fresh.tokenizer.makeErrorString();
      if (n1 != n2)
        violate("residue-message", "after resetData a used tokenizer says \"%s\", a fresh one \"%s\"", printable(n1, 700).c_str(),
                printable(n2, 700).c_str());
    }
    for (uint32_t r = 0; r < rounds; r++)
    {
      e1 = t->parse(pc, a.p);
      e2 = t->parse(fresh, b.p);
      ev("parse", uint64_t(e1), uint64_t(e2));
      if (e1 != e2)
        violate("residue-error", "%s: a used context returns %d, a fresh one %d; document: %s", t->name(), int(e1), int(e2),
                printable(s, 1500).c_str());
      if (!t->eq(a.p, b.p))
        violate("residue-value", "%s: a used context reads %s, a fresh one %s; document: %s", t->name(),
                printable(ty::text(t, a.p), 1200).c_str(), printable(ty::text(t, b.p), 1200).c_str(),
                printable(s, 1500).c_str());
      std::string m1 = pc.makeErrorString(), m2 = fresh.makeErrorString();
      if (m1 != m2)
        violate("residue-message", "%s: a used context says \"%s\", a fresh one \"%s\" (error %d); document: %s", t->name(),
                printable(m1, 700).c_str(), printable(m2, 700).c_str(), int(e1), printable(s, 1500).c_str());
      if (pc.missing_members != fresh.missing_members || pc.unassigned_required_members != fresh.unassigned_required_members)
        violate("residue-list", "%s: a used context lists [%s][%s], a fresh one [%s][%s]; document: %s", t->name(),
                join(pc.missing_members, false).c_str(), join(pc.unassigned_required_members, false).c_str(),
                join(fresh.missing_members, false).c_str(), join(fresh.unassigned_required_members, false).c_str(),
                printable(s, 1500).c_str());
      if (e1 != JS::Error::NoError)
        break;
    }
    probe(e1 == JS::Error::NoError ? "reused_accepted" : "reused_rejected");
  }
}
// ---------------------------------------------------------------- types that keep references
static void references(Src &c)
{
  std::vector<std::unique_ptr<Mem>> keep;
  refs::Refs r;
  uint32_t k = c.range(2, 4);
  nontrivial();
  for (uint32_t i = 0; i < k; i++)
  {
    std::string d = "{";
    static const char *names[] = {"o", "a", "oa", "t", "vt", "m", "vo", "mt", "last"};
    for (uint32_t n = 0; n < 9; n++)
    {
      if (d.size() > 1)
        d += ",";
      d += "\"" + std::string(names[n]) + "\":";
      switch (n)
      {
      case 0:
      case 5:
        d += generic_text(c, doc::Syntax(), int(doc::K::Obj));
        break;
      case 1:
        d += generic_text(c, doc::Syntax(), int(doc::K::Arr));
        break;
      case 2:
        d += generic_text(c, doc::Syntax(), c.coin() ? int(doc::K::Obj) : int(doc::K::Arr));
        break;
      case 3:
      case 4:
        d += c.coin() ? c.pick({"1", "\"s\"", "null", "true"}) : generic_text(c, doc::Syntax(), c.coin() ? int(doc::K::Obj) : int(doc::K::Arr));
        break;
      case 6:
        d += "[" + (c.coin() ? generic_text(c, doc::Syntax(), int(doc::K::Obj)) : std::string()) + "]";
        break;
      case 7:
        d += "{\"k\":" + generic_text(c, doc::Syntax()) + "}";
        break;
      default:
        d += std::to_string(c.below(100));
      }
    }
    d += "}";
    evs("document", d);
    bool broken = c.chance(1, 4);
    if (broken)
      token_damage(c, d);
    keep.emplace_back(new Mem(d));
    refs::Refs f;
    JS::ParseContext p1(keep.back()->p, keep.back()->n), p2(keep.back()->p, keep.back()->n);
    r.mt.clear(); // maps are merged
    JS::Error e1 = p1.parseTo(r), e2 = p2.parseTo(f);
    if (e1 != e2)
      violate("residue-error", "a used target gives %d, a fresh one %d; document: %s", int(e1), int(e2),
              printable(d, 1500).c_str());
    if (e1 != JS::Error::NoError)
      continue;
    std::string s1 = JS::serializeStruct(r), s2 = JS::serializeStruct(f);
    if (!broken && s1 != s2)
      violate("residue-value", "a used target holds %s, a fresh one %s; document: %s", printable(s1, 1500).c_str(),
              printable(s2, 1500).c_str(), printable(d, 1500).c_str());
  }
}
// ---------------------------------------------------------------- serializers
static void writers(Src &c)
{
  uint32_t k = c.range(2, 4);
  JS::SerializerOptions o(c.coin() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
  if (c.chance(1, 3))
    o.setShiftSize((unsigned char)c.below(5));
  std::vector<std::unique_ptr<ty::Val>> vals;
  std::vector<std::string> alone;
  for (uint32_t i = 0; i < k; i++)
  {
    const ty::AnyType *t = pick_type(c);
    ev(t->name());
    vals.emplace_back(new ty::Val(t));
    t->gen(c, vals.back()->p);
    alone.push_back(t->serialize(vals.back()->p, o));
    evs("alone", alone.back());
  }
  nontrivial();
  // the bytes of the sequence: each document as it is alone, with separators only in between
  auto check = [&](const std::string &s, const char *what) {
    size_t at = 0;
    for (uint32_t i = 0; i < k; i++)
    {
      if (alone[i].empty())
        continue;
      while (i && at < s.size() && s.compare(at, alone[i].size(), alone[i]) != 0 &&
             (s[at] == ',' || s[at] == '\n' || s[at] == ' '))
        at++;
      if (s.compare(at, alone[i].size(), alone[i]) != 0)
        violate("residue-output", "%s: value %u is written as %s, alone as %s", what, i,
                printable(s.substr(std::min(at, s.size())), 1000).c_str(), printable(alone[i], 1000).c_str());
      at += alone[i].size();
    }
    if (at != s.size())
      violate("residue-output", "%s: %zu bytes behind the last value: %s", what, s.size() - at,
              printable(s.substr(at), 600).c_str());
  };
  std::string seq;
  {
    Sink sink(c);
    JS::Serializer ser;
    ser.setOptions(o);
    sink.attach(ser, c.coin());
    for (auto &v : vals)
    {
      JS::Token tok;
      v->t->from(v->p, tok, ser);
    }
    seq = sink.contents();
    check(seq, "one Serializer");
  }
  {
    std::string out;
    if (c.coin())
      out.assign(c.range(1, 300), 'x');
    {
      JS::SerializerContext sc(out);
      sc.serializer.setOptions(o);
      std::string before;
      for (size_t i = 0; i < vals.size(); i++)
      {
        vals[i]->t->context_serialize(vals[i]->p, sc);
        if (out.compare(0, before.size(), before) != 0)
          violate("residue-output", "SerializerContext changed what it had already written: %s became %s",
                  printable(before, 800).c_str(), printable(out, 800).c_str());
        before = out;
        if (c.chance(1, 3))
          sc.flush();
      }
    }
    if (out != seq)
      violate("residue-output", "one SerializerContext for %u values gives %s instead of %s", k,
              printable(out, 1500).c_str(), printable(seq, 1500).c_str());
  }
}
// ---------------------------------------------------------------- function calls
static void calls(Src &c)
{
  std::vector<fn::Rec> log, flog;
  struct Guard
  {
    fn::Host *h;
    ~Guard() { fn::destroy_host(h); }
  };
  Guard host{fn::make_host(&log)};
  std::string out;
  JS::DefaultCallFunctionContext cx(out);
  cx.allow_missing = c.coin();
  cx.stop_execute_on_fail = c.coin();
  std::vector<std::unique_ptr<Mem>> keep;
  std::string expect;
  uint32_t k = c.range(2, 4);
  nontrivial();
  for (uint32_t i = 0; i < k; i++)
  {
    fn::Script s;
    fn::gen_script(c, s, c.below(3));
    std::string d = s.text;
    if (c.chance(1, 3))
      token_damage(c, d);
    evs("document", d);
    keep.emplace_back(new Mem(d));
    Guard fhost{fn::make_host(&flog)};
    log.clear();
    flog.clear();
    std::string fout;
    size_t before = cx.execution_list.size();
    cx.p_context.tokenizer.resetData(keep.back()->p, keep.back()->n, 0);
    JS::Error e1 = fn::call(cx, *host.h);
    JS::DefaultCallFunctionContext fx(keep.back()->p, keep.back()->n, fout);
    fx.allow_missing = cx.allow_missing;
    fx.stop_execute_on_fail = cx.stop_execute_on_fail;
    JS::Error e2 = fn::call(fx, *fhost.h);
    ev("call", uint64_t(e1), uint64_t(e2));
    if (e1 != e2)
      violate("residue-error", "a used call context returns %d, a fresh one %d; document: %s", int(e1), int(e2),
              printable(d, 1500).c_str());
    bool same = log.size() == flog.size();
    for (size_t j = 0; same && j < log.size(); j++)
      same = log[j].name == flog[j].name && log[j].arg == flog[j].arg;
    if (!same)
      violate("residue-call", "a used call context makes other calls than a fresh one; document: %s", printable(d, 1500).c_str());
    if (cx.execution_list.size() - before != fx.execution_list.size())
      violate("residue-list", "a used call context records %zu results, a fresh one %zu; document: %s",
              cx.execution_list.size() - before, fx.execution_list.size(), printable(d, 1500).c_str());
    for (size_t j = 0; j < fx.execution_list.size(); j++)
    {
      auto &a = cx.execution_list[before + j];
      auto &b = fx.execution_list[j];
      if (a.name != b.name || a.error != b.error || a.error_string.data != b.error_string.data ||
          a.missing_members.data != b.missing_members.data ||
          a.unassigned_required_members.data != b.unassigned_required_members.data)
        violate("residue-result", "result %zu \"%s\": a used call context records %d \"%s\" [%s], a fresh one %d \"%s\" [%s]; document: %s",
                j, printable(b.name).c_str(), int(a.error), printable(a.error_string.data, 300).c_str(),
                join(a.missing_members.data, false).c_str(), int(b.error), printable(b.error_string.data, 300).c_str(),
                join(b.missing_members.data, false).c_str(), printable(d, 1500).c_str());
    }
    // the output of this batch follows that of the earlier ones
    if (out.compare(0, expect.size(), expect) != 0)
      violate("residue-output", "earlier output changed from %s to %s", printable(expect, 800).c_str(),
              printable(out, 800).c_str());
    std::string tail = out.substr(expect.size());
    size_t lead = expect.empty() ? 0 : tail.find_first_not_of(",\n ");
    if (lead == std::string::npos)
      lead = tail.size();
    if (tail.substr(lead) != fout)
      violate("residue-output", "a used call context returns %s, a fresh one %s; document: %s", printable(tail, 800).c_str(),
              printable(fout, 800).c_str(), printable(d, 1500).c_str());
    expect = out;
    if (c.coin())
    {
      cx.execution_list.clear();
    }
  }
}
void scenario(Src &c)
{
  switch (c.weighted({5, 4, 6, 2, 3, 3}))
  {
  case 0:
    stream(c);
    break;
  case 1:
    target(c);
    break;
  case 2:
    context(c);
    break;
  case 3:
    references(c);
    break;
  case 4:
    writers(c);
    break;
  default:
    calls(c);
  }
}
#include "main.hpp"
