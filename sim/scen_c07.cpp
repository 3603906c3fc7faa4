// C07: a failing allocation anywhere leaves no damage.
#include "soup.hpp"
#include "refs.hpp"
#include "calls.hpp"
#include "mapmodel.hpp"
#include "json_struct/json_struct_diff.h"
using namespace sim;
const char *scenario_id() { return "C07"; }
void warmup() { typed_warmup(); }

// ---------------------------------------------------------------- the failing allocator
struct Fault
{
  uint64_t at = 0;
  bool sustained = false;
  uint64_t burst = 1;
  size_t min = 0;
  uint64_t count = 0, failed = 0;
  // true: the operation came to its end
  template <class F>
  bool run(F &&f)
  {
    Global &G = g();
    G.alloc_count = 0;
    G.alloc_failed = 0;
    G.alloc_fail_at = at;
    G.alloc_sustained = sustained;
    G.alloc_burst = burst;
    G.alloc_min = min;
    G.alloc_armed = true;
    bool ok = true;
    const char *other = nullptr;
    try
    {
      f();
    }
    catch (const std::bad_alloc &)
    {
      ok = false;
    }
    catch (...)
    {
      other = "another exception than std::bad_alloc";
    }
    G.alloc_armed = false;
    G.alloc_fail_at = 0;
    count = G.alloc_count;
    failed = G.alloc_failed;
    if (other)
      violate("exception", "a failing allocation surfaced as %s", other);
    if (!ok && !failed)
      violate("exception", "std::bad_alloc without a failing allocation");
    ev("allocations", count, failed);
    if (failed)
    {
      fault(min ? "memory_fragmented" : sustained ? "memory_exhausted" : burst > 1 ? "allocations_failed_in_a_row" : "allocation_failed");
      nontrivial();
    }
    if (!ok)
      probe("bad_alloc_surfaced");
    else if (failed)
      probe("failure_absorbed");
    return ok;
  }
};
static Fault draw(Src &c, uint64_t n)
{
  Fault f;
  if (n)
  {
    // the last few and the first few are where the state changes hands
    uint32_t m = uint32_t(std::min<uint64_t>(n, 100000));
    switch (c.below(4))
    {
    case 0:
      f.at = n - c.below(std::min(m, 4u));
      break;
    case 1:
      f.at = 1 + c.below(std::min(m, 4u));
      break;
    default:
      f.at = 1 + c.below(m);
    }
  }
  switch (c.below(6))
  {
  case 0:
  case 1:
    f.sustained = true;
    break;
  case 2:
    f.burst = 2 + c.below(3);
    break;
  case 3:
    if (f.at && c.chance(1, 2))
    {
      // small blocks are still to be had, large ones are not
      static const size_t sizes[] = {17, 33, 65, 129, 257, 513, 1025};
      f.min = sizes[c.below(7)];
      f.sustained = true;
    }
    break;
  default:
    break;
  }
  return f;
}
// everything made inside is gone at the end
template <class F>
static void no_leak(const char *what, F &&f)
{
  live().clear();
  g().track_live = true;
  f();
  g().track_live = false;
  if (live().count)
  {
    size_t i = 0;
    while (!live().slot[i])
      i++;
    violate("leak", "%s: %zu blocks were not freed, one of %u bytes (allocation %llu)", what, live().count, live().size[i],
            (unsigned long long)live().serial[i]);
  }
}
// ---------------------------------------------------------------- input without any allocation by operator new
struct Chunks
{
  const std::string &data;
  const std::vector<std::pair<size_t, size_t>> &parts;
  size_t next = 0;
  std::vector<char *> out;
  Chunks(const std::string &d, const std::vector<std::pair<size_t, size_t>> &p)
    : data(d)
    , parts(p)
  {
    out.reserve(p.size() + 1);
  }
  Chunks(const Chunks &) = delete;
  ~Chunks()
  {
    for (auto p : out)
      free(p);
  }
  char *block(size_t &n)
  {
    n = parts[next].second;
    char *p = static_cast<char *>(malloc(n ? n : 1));
    memcpy(p, data.data() + parts[next].first, n);
    out.push_back(p);
    next++;
    return p;
  }
  bool more() const { return next < parts.size(); }
  void request(JS::Tokenizer &t)
  {
    if (!more())
      return;
    size_t n;
    char *p = block(n);
    t.addData(p, n); // a failure here leaves the block with its owner
  }
  void release(const char *p)
  {
    for (size_t i = 0; i < out.size(); i++)
      if (out[i] == p)
      {
        memset(out[i], 0xdb, 1);
        free(out[i]);
        out.erase(out.begin() + ptrdiff_t(i));
        return;
      }
  }
};
// where the callbacks of one context currently lead
struct Line
{
  Chunks *now = nullptr;
  std::vector<std::unique_ptr<Chunks>> all;
  const std::string &data;
  const std::vector<std::pair<size_t, size_t>> &parts;
  Line(const std::string &d, const std::vector<std::pair<size_t, size_t>> &p)
    : data(d)
    , parts(p)
  {
    fresh();
  }
  void fresh()
  {
    all.emplace_back(new Chunks(data, parts));
    now = all.back().get();
  }
  void attach(JS::Tokenizer &t)
  {
    t.setNeedMoreDataCallback([this](JS::Tokenizer &x) { now->request(x); });
    std::function<void(const char *)> r = [this](const char *p) {
      for (auto &x : all)
        x->release(p);
    };
    t.setReleaseCallback(r);
  }
  void again(JS::Tokenizer &t)
  {
    fresh();
    size_t n;
    char *p = now->block(n);
    t.resetData(p, n, 0);
  }
};
static std::vector<std::pair<size_t, size_t>> partition(Src &c, const std::string &d)
{
  if (c.coin() || d.empty())
    return {{0, d.size()}};
  return cut(c, d);
}
// ---------------------------------------------------------------- typed parse
static void parse(Src &c)
{
  const ty::AnyType *t = pick_type(c);
  ev(t->name());
  doc::Syntax sy = typed_syntax(c);
  std::string d;
  bool sound = !c.chance(1, 4);
  if (sound)
  {
    ty::TW tw;
    tw_options(c, tw, sy);
    tw.inject_unknown = c.chance(1, 3);
    tw.omit = c.chance(1, 3);
    ty::Val want(t), prev(t);
    t->gen(c, want.p);
    t->write(tw, want.p, prev.p);
    d = tw.w.out;
  }
  else
    d = soup(c, t, sy);
  evs("document", d);
  auto parts = partition(c, d);
  ty::Val clean(t);
  JS::Error e0 = JS::Error::NoError;
  std::vector<std::string> mm, um;
  std::string msg;
  Fault none;
  {
    Line line(d, parts);
    JS::ParseContext pc;
    set_syntax(pc.tokenizer, sy);
    line.attach(pc.tokenizer);
    none.run([&] { e0 = t->parse(pc, clean.p); });
    mm = pc.missing_members;
    um = pc.unassigned_required_members;
    msg = pc.makeErrorString();
  }
  uint32_t rounds = c.range(1, 5);
  for (uint32_t i = 0; i < rounds; i++)
  {
    bool whole = c.chance(1, 4); // the context is made under the failing allocator too
    Fault f = draw(c, none.count + (whole ? 8 : 0));
    uint32_t retry = c.below(3);
    no_leak("parsing", [&] {
      ty::Val v(t);
      Line line(d, parts);
      std::unique_ptr<JS::ParseContext> pc;
      JS::Error e = JS::Error::NoError;
      auto make = [&] {
        pc.reset(new JS::ParseContext());
        set_syntax(pc->tokenizer, sy);
        line.attach(pc->tokenizer);
      };
      if (!whole)
        make();
      bool ok = f.run([&] {
        if (whole)
          make();
        e = t->parse(*pc, v.p);
      });
      auto same = [&](void *got, const char *what) {
        // a document that failed leaves the target in a state that only has to be usable
        if (e != e0 || (e0 == JS::Error::NoError && !t->eq(clean.p, got)))
          violate("retry", "%s: %s after a failed allocation gives error %d and %s; without the failure error %d and %s; document: %s",
                  t->name(), what, int(e), printable(ty::text(t, got), 900).c_str(), int(e0),
                  printable(ty::text(t, clean.p), 900).c_str(), printable(d, 1200).c_str());
        if (pc->missing_members != mm || pc->unassigned_required_members != um)
          violate("retry", "%s: %s after a failed allocation reports other members; document: %s", t->name(), what,
                  printable(d, 1200).c_str());
        if (pc->makeErrorString() != msg)
          violate("retry", "%s: %s after a failed allocation says \"%s\" instead of \"%s\"", t->name(), what,
                  printable(pc->makeErrorString(), 600).c_str(), printable(msg, 600).c_str());
      };
      if (ok)
      {
        same(v.p, "parsing");
        return;
      }
      evs("left", ty::text(t, v.p));
      if (retry == 2 || !pc)
      {
        line.fresh();
        make();
        ty::Val v2(t);
        e = t->parse(*pc, v2.p);
        same(v2.p, "parsing anew");
        return;
      }
      evs("message", pc->makeErrorString());
      if (retry == 1)
      {
        line.fresh();
        make();
      }
      else
      {
        line.again(pc->tokenizer);
        pc->missing_members.clear();
        pc->unassigned_required_members.clear();
      }
      e = t->parse(*pc, v.p);
      same(v.p, retry == 1 ? "parsing with a new context into the same target" : "parsing with the same context");
    });
  }
}
// ---------------------------------------------------------------- serializing
struct Hungry // a sink that allocates
{
  std::vector<std::string> blocks;
  size_t size;
  JS::Serializer *ser;
  std::string all() const
  {
    std::string o;
    for (size_t i = 0; i < blocks.size(); i++)
      o += i + 1 < blocks.size() ? blocks[i] : blocks[i].substr(0, ser->currentBuffer().used);
    return o;
  }
};
static void serialize(Src &c)
{
  const ty::AnyType *t = pick_type(c);
  ev(t->name());
  ty::Val v(t);
  t->gen(c, v.p);
  JS::SerializerOptions o(c.coin() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
  std::string want = t->serialize(v.p, o), before = c.coin() ? std::string() : std::string(c.range(1, 200), 'x');
  evs("value", want);
  uint32_t how = c.below(3);
  size_t bs = c.pick({1u, 7u, 40u, 300u});
  uint64_t n = 0;
  uint32_t rounds = c.range(1, 4);
  for (uint32_t i = 0; i < 1 + rounds; i++)
  {
    Fault f;
    if (i)
      f = draw(c, n);
    no_leak("serializing", [&] {
      std::string out = before;
      bool ok = false;
      for (int again = 0; again < 2 && !ok; again++)
      {
        if (how == 0)
          ok = f.run([&] { out = t->serialize(v.p, o); });
        else if (how == 1)
          ok = f.run([&] {
            JS::SerializerContext sc(out);
            sc.serializer.setOptions(o);
            t->context_serialize(v.p, sc);
          });
        else
        {
          Hungry h;
          JS::Serializer ser;
          ser.setOptions(o);
          h.ser = &ser;
          h.size = bs;
          ok = f.run([&] {
            ser.setRequestBufferCallback([&h](JS::Serializer &s) {
              h.blocks.push_back(std::string(h.size, '#'));
              s.setBuffer(&h.blocks.back()[0], h.size);
            });
            JS::Token tok;
            t->from(v.p, tok, ser);
          });
          std::string got = h.all();
          if (ok)
            out = got;
          else if (want.compare(0, got.size(), got) != 0)
            violate("prefix", "%s: the bytes written before a failed allocation are %s, expected the beginning of %s", t->name(),
                    printable(got, 900).c_str(), printable(want, 900).c_str());
        }
        if (!i)
          n = f.count;
        f.at = 0;
      }
      if (out != want)
        violate("retry", "%s: serializing after a failed allocation gives %s instead of %s", t->name(), printable(out, 900).c_str(),
                printable(want, 900).c_str());
    });
  }
}
// ---------------------------------------------------------------- re-formatting
static void reformat(Src &c)
{
  doc::Syntax sy;
  doc::Writer w;
  std::string d;
  if (c.chance(2, 3))
  {
    w.c = &c;
    w.noise = c.below(3);
    w.document(*doc::gen_doc(c, doc::gen_cfg(c), sy));
    d = w.out;
  }
  else
    d = soup(c, pick_type(c), sy);
  evs("document", d);
  JS::SerializerOptions o(c.coin() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
  std::string want;
  JS::Error e0 = JS::Error::NoError;
  Fault none;
  none.run([&] { e0 = JS::reformat(d.data(), d.size(), want, o); });
  for (uint32_t i = c.range(1, 4); i; i--)
  {
    Fault f = draw(c, none.count);
    no_leak("re-formatting", [&] {
      std::string out;
      JS::Error e = JS::Error::NoError;
      if (!f.run([&] { e = JS::reformat(d.data(), d.size(), out, o); }))
      {
        if (c.coin())
          out.clear();
        e = JS::reformat(d.data(), d.size(), out, o);
      }
      if (e != e0 || (e0 == JS::Error::NoError && out != want))
        violate("retry", "re-formatting after a failed allocation gives error %d and %s instead of %d and %s", int(e),
                printable(out, 900).c_str(), int(e0), printable(want, 900).c_str());
    });
  }
}
// ---------------------------------------------------------------- tokenizer with captures and scopes
static void tokens(Src &c)
{
  doc::Writer w;
  w.sy = doc::gen_syntax(c);
  w.c = &c;
  w.noise = c.below(3);
  w.document(*doc::gen_doc(c, doc::gen_cfg(c), w.sy));
  const std::string &d = w.out;
  evs("document", d);
  auto parts = partition(c, d);
  // which containers are captured, and which are skipped
  std::vector<uint8_t> act(w.toks.size());
  for (auto &a : act)
    a = uint8_t(c.weighted({4, 1, 1, 1}));
  std::vector<size_t> close(w.toks.size());
  {
    std::vector<size_t> open;
    for (size_t i = 0; i < w.toks.size(); i++)
    {
      auto ty = w.toks[i].type;
      if (ty == doc::T::Obj || ty == doc::T::Arr)
        open.push_back(i);
      else if (ty == doc::T::ObjEnd || ty == doc::T::ArrEnd)
        close[open.back()] = i, open.pop_back();
    }
  }
  // reads everything; the same calls each time
  auto read = [&](JS::Tokenizer &t, size_t &n, JS::Error &e, bool &bad) {
    JS::Token token;
    n = 0;
    bad = false;
    for (;;)
    {
      e = t.nextToken(token);
      if (e != JS::Error::NoError)
        return;
      if (n >= w.toks.size())
      {
        bad = true;
        return;
      }
      auto ty = w.toks[n].type;
      if ((ty == doc::T::Obj || ty == doc::T::Arr) && act[n])
      {
        std::string raw;
        if (act[n] & 2)
          t.copyFromValue(token, raw);
        t.pushScope(token.value_type);
        e = t.goToEndOfScope(token);
        if (e != JS::Error::NoError)
          return;
        t.popScope();
        if (act[n] & 2)
        {
          t.copyIncludingValue(token, raw);
          size_t b = w.toks[n].begin, x = w.toks[close[n]].end;
          if (raw.size() != x - b || memcmp(raw.data(), d.data() + b, x - b))
            bad = true;
        }
        n = close[n];
      }
      else if (token.value.size != w.toks[n].value.size() ||
               memcmp(token.value.data, w.toks[n].value.data(), token.value.size))
      {
        bad = true;
        return;
      }
      n++;
    }
  };
  size_t n;
  JS::Error e = JS::Error::NoError;
  bool bad;
  Fault none;
  {
    Line line(d, parts);
    JS::Tokenizer t;
    set_syntax(t, w.sy);
    line.attach(t);
    none.run([&] { read(t, n, e, bad); });
    if (bad || n != w.toks.size())
      violate("tokens", "token %zu of the clean run is wrong (error %d)", n, int(e));
  }
  for (uint32_t i = c.range(1, 4); i; i--)
  {
    Fault f = draw(c, none.count);
    bool same = c.coin();
    no_leak("reading tokens", [&] {
      Line line(d, parts);
      std::unique_ptr<JS::Tokenizer> t(new JS::Tokenizer());
      set_syntax(*t, w.sy);
      line.attach(*t);
      bool ok = f.run([&] { read(*t, n, e, bad); });
      if (!ok)
      {
        if (same)
          line.again(*t);
        else
        {
          t.reset(new JS::Tokenizer());
          set_syntax(*t, w.sy);
          line.fresh();
          line.attach(*t);
        }
        read(*t, n, e, bad);
      }
      if (bad || n != w.toks.size() || e != JS::Error::NeedMoreData)
        violate("retry", "reading after a failed allocation differs at token %zu of %zu (error %d); document: %s", n,
                w.toks.size(), int(e), printable(d, 1500).c_str());
    });
  }
}
// ---------------------------------------------------------------- error reports
static void reports(Src &c)
{
  const ty::AnyType *t = pick_type(c);
  doc::Syntax sy;
  std::string d = soup(c, t, sy);
  evs("document", d);
  std::string custom(c.below(60), 'm');
  JS::ParseContext pc(d.data(), d.size());
  ty::Val v(t);
  JS::Error e = t->parse(pc, v.p);
  pc.tokenizer.updateErrorContext(e, custom);
  std::string want;
  Fault none;
  none.run([&] { want = pc.makeErrorString(); });
  uint64_t n2;
  {
    Fault x;
    x.run([&] { pc.tokenizer.updateErrorContext(e, custom); });
    n2 = x.count;
  }
  for (uint32_t i = c.range(1, 4); i; i--)
  {
    Fault f = draw(c, none.count), f2 = draw(c, n2);
    std::string got;
    if (!f.run([&] { got = pc.makeErrorString(); }))
      got = pc.makeErrorString();
    if (got != want)
      violate("retry", "the message after a failed allocation is \"%s\" instead of \"%s\"", printable(got, 800).c_str(),
              printable(want, 800).c_str());
    if (!f2.run([&] { pc.tokenizer.updateErrorContext(e, custom); }))
    {
      evs("partial", pc.makeErrorString());
      pc.tokenizer.updateErrorContext(e, custom);
    }
    got = pc.makeErrorString();
    if (got != want)
      violate("retry", "the report after a failed allocation is \"%s\" instead of \"%s\"", printable(got, 800).c_str(),
              printable(want, 800).c_str());
  }
}
// ---------------------------------------------------------------- diffs
static void diffs(Src &c)
{
  doc::Syntax sy;
  auto make = [&]() {
    doc::Writer w;
    w.c = &c;
    w.noise = c.below(2);
    w.document(*doc::gen_doc(c, doc::gen_cfg(c), sy));
    std::string s = w.out;
    if (c.chance(1, 6))
      token_damage(c, s);
    return s;
  };
  std::string base = make(), doc1 = c.chance(1, 4) ? base : make(), doc2 = make();
  evs("base", base);
  evs("document", doc1);
  auto show = [&](const JS::DiffTokens &r) {
    std::string o = std::to_string(r.diff_count) + "/" + std::to_string(int(r.error)) + ":";
    for (size_t i = 0; i < r.diffs.size(); i++)
    {
      auto *m = r.getMissingMembers(r.tokens.data[i]);
      auto *a = r.getMissingArrayItems(r.tokens.data[i]);
      o += std::to_string(int(r.diffs[i])) + "," + std::to_string(m ? m->size() : 0) + "," + std::to_string(a ? a->size() : 0) + " ";
    }
    return o;
  };
  auto all = [&](const JS::DiffContext &x) {
    std::string o = std::to_string(int(x.error));
    for (auto &r : x.diffs)
      o += "|" + show(r);
    return o;
  };
  auto go = [&](JS::DiffContext &x) {
    x.reset(base.data(), base.size());
    x.diff(doc1.data(), doc1.size());
    x.diff(doc2.data(), doc2.size());
  };
  std::string want;
  Fault none;
  {
    JS::DiffContext x;
    none.run([&] { go(x); });
    want = all(x);
  }
  uint64_t n1;
  size_t held;
  {
    JS::DiffContext x(base.data(), base.size());
    Fault k;
    k.run([&] { x.diff(doc1.data(), doc1.size()); });
    n1 = k.count;
    held = x.diffs.size();
  }
  for (uint32_t i = c.range(1, 4); i; i--)
  {
    bool one = c.coin();
    Fault f = draw(c, one ? n1 : none.count);
    no_leak("diffing", [&] {
      JS::DiffContext x;
      if (one)
      {
        // a diff that fails can simply be repeated
        x.reset(base.data(), base.size());
        if (!f.run([&] { x.diff(doc1.data(), doc1.size()); }))
        {
          if (!x.diffs.empty())
            violate("partial", "a diff that failed left a result; base: %s document: %s", printable(base, 900).c_str(),
                    printable(doc1, 900).c_str());
          x.diff(doc1.data(), doc1.size());
        }
        if (x.diffs.size() != held)
          violate("retry", "%zu results instead of %zu", x.diffs.size(), held);
        x.diff(doc2.data(), doc2.size());
      }
      else if (!f.run([&] { go(x); }))
        go(x);
      std::string got = all(x);
      if (got != want)
        violate("retry", "diffs after a failed allocation give %s instead of %s; base: %s document: %s", got.c_str(), want.c_str(),
                printable(base, 900).c_str(), printable(doc1, 900).c_str());
    });
  }
}
// ---------------------------------------------------------------- function calls
static void calls(Src &c)
{
  fn::Script s;
  fn::gen_script(c, s, c.below(3));
  std::string d = s.text;
  if (c.chance(1, 5))
    token_damage(c, d);
  evs("document", d);
  auto parts = partition(c, d);
  bool am = c.coin(), stop = c.coin();
  std::string prefill = c.coin() ? std::string() : std::string(c.range(1, 40), 'x');
  struct Guard
  {
    fn::Host *h;
    ~Guard() { fn::destroy_host(h); }
  };
  struct Outcome
  {
    JS::Error e;
    std::vector<fn::Rec> log;
    std::string out, list;
  };
  auto summary = [](const JS::CallFunctionContext &cx) {
    std::string o;
    for (auto &x : cx.execution_list)
      o += x.name + "=" + std::to_string(int(x.error)) + "(" + x.error_string.data + ")[" + join(x.missing_members.data, false) +
           "] ";
    return o;
  };
  auto same_log = [](const std::vector<fn::Rec> &a, const std::vector<fn::Rec> &b, bool prefix) {
    if (a.size() > b.size() || (!prefix && a.size() != b.size()))
      return false;
    for (size_t i = 0; i < a.size(); i++)
      if (a[i].name != b[i].name || a[i].arg != b[i].arg)
        return false;
    return true;
  };
  Outcome clean{};
  Fault none;
  auto once = [&](Fault &f, Outcome &r) {
    Guard host{fn::make_host(&r.log)};
    Line line(d, parts);
    r.out = prefill;
    bool ok;
    {
      JS::DefaultCallFunctionContext cx(r.out);
      cx.allow_missing = am;
      cx.stop_execute_on_fail = stop;
      line.attach(cx.p_context.tokenizer);
      ok = f.run([&] { r.e = fn::call(cx, *host.h); });
      r.list = summary(cx);
    }
    return ok;
  };
  once(none, clean);
  for (uint32_t i = c.range(1, 4); i; i--)
  {
    Fault f = draw(c, none.count);
    no_leak("calling functions", [&] {
      Outcome r{};
      if (!once(f, r))
      {
        if (!same_log(r.log, clean.log, true))
          violate("calls", "the calls made until an allocation failed are not the first ones of the clean run; document: %s",
                  printable(d, 1200).c_str());
        r = Outcome{};
        Fault no;
        once(no, r);
      }
      if (r.e != clean.e || !same_log(r.log, clean.log, false) || r.out != clean.out || r.list != clean.list)
        violate("retry", "calls after a failed allocation give error %d, %s and %s instead of %d, %s and %s; document: %s",
                int(r.e), printable(r.out, 700).c_str(), printable(r.list, 700).c_str(), int(clean.e),
                printable(clean.out, 700).c_str(), printable(clean.list, 700).c_str(), printable(d, 1200).c_str());
    });
  }
}
// ---------------------------------------------------------------- values that refer to their text
static void references(Src &c)
{
  std::string d = "{\"last\":1";
  static const char *names[] = {"o", "a", "oa", "t", "vt", "m", "vo", "mt"};
  for (uint32_t n = 0; n < 8; n++)
  {
    d += ",\"" + std::string(names[n]) + "\":";
    int k = n == 0 || n == 5 || n == 7 ? int(doc::K::Obj) : n == 1 ? int(doc::K::Arr) : c.coin() ? int(doc::K::Obj) : int(doc::K::Arr);
    if (n == 6)
      d += "[" + generic_text(c, doc::Syntax(), int(doc::K::Obj)) + "]";
    else
      d += generic_text(c, doc::Syntax(), k);
  }
  d += "}";
  if (c.chance(1, 4))
    token_damage(c, d);
  evs("document", d);
  std::string want;
  JS::Error e0 = JS::Error::NoError;
  Fault none;
  {
    refs::Refs r;
    JS::ParseContext pc(d.data(), d.size());
    none.run([&] { e0 = pc.parseTo(r); });
    if (e0 == JS::Error::NoError)
      want = JS::serializeStruct(r);
  }
  for (uint32_t i = c.range(1, 4); i; i--)
  {
    Fault f = draw(c, none.count);
    no_leak("parsing references", [&] {
      refs::Refs r;
      JS::ParseContext pc(d.data(), d.size());
      JS::Error e = JS::Error::NoError;
      if (!f.run([&] { e = pc.parseTo(r); }))
      {
        pc.tokenizer.resetData(d.data(), d.size(), 0);
        r.mt.clear();
        pc.missing_members.clear();
        pc.unassigned_required_members.clear();
        e = pc.parseTo(r);
      }
      if (e != e0 || (e == JS::Error::NoError && JS::serializeStruct(r) != want))
        violate("retry", "parsing references after a failed allocation gives %d instead of %d; document: %s", int(e), int(e0),
                printable(d, 1500).c_str());
    });
  }
}
// ---------------------------------------------------------------- a Map through a history
static void map_history(Src &c)
{
  no_leak("a history of map operations", [&] {
    uint32_t den = c.pick({1u, 2u, 4u});
    MapSim s(c);
    s.runner = [&](const std::function<void()> &f) {
      Fault x;
      if (c.chance(1, den))
        x = draw(c, c.pick({4u, 10u, 30u, 100u}));
      return x.run(f);
    };
    s.start();
    for (uint32_t i = c.range(1, 8); i; i--)
      s.step();
    s.check_all("at the end");
  });
}
void scenario(Src &c)
{
  switch (c.weighted({6, 3, 2, 3, 1, 3, 4, 1, 5}))
  {
  case 0:
    parse(c);
    break;
  case 1:
    serialize(c);
    break;
  case 2:
    reformat(c);
    break;
  case 3:
    tokens(c);
    break;
  case 4:
    reports(c);
    break;
  case 5:
    diffs(c);
    break;
  case 6:
    calls(c);
    break;
  case 7:
    references(c);
    break;
  default:
    map_history(c);
  }
}
#include "main.hpp"
