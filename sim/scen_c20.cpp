// C20: an exception thrown by the user's own code passes through the library without damage.
#include "calls.hpp"
#include "sink.hpp"
#include "typed.hpp"
#include <new>
#include <stdexcept>
#include "json_struct/json_struct.h"
using namespace sim;
const char *scenario_id() { return "C20"; }
void warmup() { typed_warmup(); }

struct Boom
{
  uint32_t id;
};
template <class Base>
struct BoomOf : Base
{
  uint32_t id;
  template <class... A>
  explicit BoomOf(uint32_t i, A &&...a)
    : Base(std::forward<A>(a)...)
    , id(i)
  {
  }
};
// decides at every call of user code whether it throws
struct Bomb
{
  Src *c = nullptr;
  uint64_t at = 0;    // the at-th call throws, 0: none
  uint64_t calls = 0; // since armed
  uint32_t id = 0, thrown = 0, flavour = 0;
  void reach(const char *kind)
  {
    calls++;
    if (at && calls == at)
    {
      thrown++;
      fault(kind);
      nontrivial();
      switch (flavour = ++id % 6)
      {
      case 0:
        throw BoomOf<std::runtime_error>(id, "thrown by user code");
      case 1:
        throw BoomOf<std::bad_alloc>(id);
      case 2:
        throw BoomOf<std::out_of_range>(id, "thrown by user code");
      case 3:
        throw int(id);
      case 4:
        throw BoomOf<std::exception>(id);
      default:
        throw Boom{id};
      }
    }
  }
  void arm(uint64_t n)
  {
    at = n;
    calls = 0;
  }
  bool out(const char *what, uint32_t before, uint32_t got, uint32_t f)
  {
    if (thrown == before || got != id || f != flavour)
      violate("exception", "%s: another exception than the one thrown came out", what);
    ev("thrown", calls);
    probe("exception_surfaced");
    at = 0;
    return false;
  }
  // true: it came to its end; false: our exception came out
  template <class F>
  bool run(const char *what, F &&f)
  {
    uint32_t before = thrown;
    try
    {
      f();
    }
    catch (const BoomOf<std::runtime_error> &b)
    {
      return out(what, before, b.id, 0);
    }
    catch (const BoomOf<std::bad_alloc> &b)
    {
      return out(what, before, b.id, 1);
    }
    catch (const BoomOf<std::out_of_range> &b)
    {
      return out(what, before, b.id, 2);
    }
    catch (int i)
    {
      return out(what, before, uint32_t(i), 3);
    }
    catch (const BoomOf<std::exception> &b)
    {
      return out(what, before, b.id, 4);
    }
    catch (const Boom &b)
    {
      return out(what, before, b.id, 5);
    }
    catch (...)
    {
      violate("exception", "%s: an exception of another type than the one thrown came out", what);
    }
    if (thrown != before)
      violate("swallowed", "%s: an exception thrown by user code did not reach the caller", what);
    at = 0;
    return true;
  }
};
static Bomb *bomb;
static uint64_t pick_at(Src &c, uint64_t n)
{
  if (!n)
    return 0;
  uint32_t m = uint32_t(std::min<uint64_t>(n, 100000));
  switch (c.below(4))
  {
  case 0:
    return n - c.below(std::min(m, 3u));
  case 1:
    return 1 + c.below(std::min(m, 3u));
  default:
    return 1 + c.below(m);
  }
}
template <class F>
static void no_leak(const char *what, F &&f)
{
  live().clear();
  g().track_live = true;
  f();
  g().track_live = false;
  if (live().count)
  {
    size_t i = 0;
    while (!live().slot[i])
      i++;
    violate("leak", "%s: %zu blocks were not freed, one of %u bytes (allocation %llu)", what, live().count, live().size[i],
            (unsigned long long)live().serial[i]);
  }
}
// ---------------------------------------------------------------- reading tokens: the read can be taken up again
static void tokens(Src &c)
{
  doc::Syntax sy = doc::gen_syntax(c);
  doc::GenCfg gc = doc::gen_cfg(c);
  doc::Writer w;
  w.c = &c;
  w.sy = sy;
  w.noise = c.below(4);
  for (uint32_t i = 1 + c.below(2); i; i--)
    w.document(*doc::gen_doc(c, gc, sy));
  evs("document", w.out);
  Plan p = gen_plan(c, w.out, true);
  p.stall = 0;
  Bomb b;
  uint32_t den = c.pick({2u, 4u, 12u});
  no_leak("tokenizing", [&] {
    Pipe pipe(c, w.out, p);
    JS::Tokenizer t;
    set_syntax(t, sy);
    pipe.attach(t);
    t.setNeedMoreDataCallback([&](JS::Tokenizer &) {
      if (c.chance(1, den))
      {
        b.at = b.calls + 1;
        b.reach("need_more_data_throws");
      }
      pipe.request();
      if (c.chance(1, den * 2))
      {
        b.at = b.calls + 1;
        b.reach("need_more_data_throws_after_delivery");
      }
    });
    JS::Token token;
    size_t n = 0;
    uint64_t calls = 0;
    for (;;)
    {
      JS::Error e = JS::Error::NoError;
      if (++calls > 64 + 40 * (w.out.size() + p.parts.size()))
        violate("no-progress", "reading did not finish within %llu calls", (unsigned long long)calls);
      if (!b.run("nextToken", [&] { e = t.nextToken(token); }))
        continue;
      if (e == JS::Error::NoError)
      {
        if (n >= w.toks.size())
          violate("token-count", "more tokens than the document has; document: %s", printable(w.out).c_str());
        check_token(snapshot(token), w.toks[n], n, w.out);
        n++;
        continue;
      }
      if (e != JS::Error::NeedMoreData)
        violate("rejected", "error %d after %zu of %zu tokens and %u exceptions from the callback; document: %s", int(e), n,
                w.toks.size(), b.thrown, printable(w.out).c_str());
      if (pipe.exhausted())
        break;
    }
    if (n != w.toks.size())
      violate("token-count", "%zu tokens read, the document has %zu; document: %s", n, w.toks.size(), printable(w.out).c_str());
    if (p.use_release && pipe.released != pipe.added)
      violate("release-missing", "%llu of %llu buffers were released", (unsigned long long)pipe.released,
              (unsigned long long)pipe.added);
  });
}
// ---------------------------------------------------------------- typed parse
static void parse(Src &c)
{
  const ty::AnyType *t = pick_type(c);
  ev(t->name());
  doc::Syntax sy = typed_syntax(c);
  ty::TW tw;
  tw_options(c, tw, sy);
  tw.inject_unknown = c.chance(1, 3);
  tw.omit = c.chance(1, 3);
  ty::Val want(t), prev(t);
  t->gen(c, want.p);
  t->write(tw, want.p, prev.p);
  const std::string &d = tw.w.out;
  evs("document", d);
  Plan p;
  p.parts = cut(c, d);
  p.mode = Mode::Callback;
  p.use_release = !c.chance(1, 6);
  ty::Val clean(t);
  Bomb b;
  JS::Error e0 = JS::Error::NoError;
  std::vector<std::string> mm, um;
  std::string msg;
  uint64_t n;
  {
    Pipe pipe(c, d, p);
    JS::ParseContext pc;
    set_syntax(pc.tokenizer, sy);
    pipe.attach(pc.tokenizer);
    pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) {
      b.reach("");
      pipe.request();
      b.reach("");
    });
    e0 = t->parse(pc, clean.p);
    n = b.calls;
    mm = pc.missing_members;
    um = pc.unassigned_required_members;
    msg = pc.makeErrorString();
  }
  for (uint32_t i = c.range(1, 4); i; i--)
  {
    uint64_t at = pick_at(c, n);
    uint32_t retry = c.below(3);
    Plan p2;
    p2.parts = retry == 0 ? std::vector<std::pair<size_t, size_t>>{{0, d.size()}} : cut(c, d);
    p2.mode = Mode::Callback;
    p2.use_release = p.use_release;
    no_leak("parsing", [&] {
      Pipe first(c, d, p), second(c, d, p2);
      Pipe *now = &first;
      std::unique_ptr<JS::ParseContext> pc;
      std::unique_ptr<ty::Val> v(new ty::Val(t));
      std::function<void(const char *)> rel = [&](const char *q) { now->on_release(q); };
      auto make = [&] {
        pc.reset(new JS::ParseContext());
        set_syntax(pc->tokenizer, sy);
        if (p.use_release)
          pc->tokenizer.setReleaseCallback(rel);
        first.tok = second.tok = &pc->tokenizer;
        pc->tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) {
          b.reach("need_more_data_throws");
          now->request();
          b.reach("need_more_data_throws_after_delivery");
        });
      };
      make();
      JS::Error e = JS::Error::NoError;
      b.arm(at);
      bool ok = b.run("parseTo", [&] { e = t->parse(*pc, v->p); });
      if (!ok)
      {
        evs("left", ty::text(t, v->p));
        evs("message", pc->makeErrorString());
        if (retry == 1)
          v.reset(new ty::Val(t));
        if (retry == 2)
        {
          now = &second;
          make();
        }
        else
        {
          // the same context, started over; resetData releases what it still holds
          Buf whole;
          auto part = p2.parts[0];
          whole.size = whole.cap = part.second;
          whole.mem = static_cast<char *>(malloc(whole.size ? whole.size : 1));
          memcpy(whole.mem, d.data() + part.first, part.second);
          second.bufs.push_back(whole);
          second.next = 1;
          second.added++;
          pc->tokenizer.resetData(whole.mem, whole.size, 0);
          if (p.use_release && first.released != first.added)
            violate("release-missing", "%s: %llu of %llu buffers were released by resetData after an exception", t->name(),
                    (unsigned long long)first.released, (unsigned long long)first.added);
          now = &second;
          pc->missing_members.clear();
          pc->unassigned_required_members.clear();
        }
        e = t->parse(*pc, v->p);
      }
      if (e != e0 || (e0 == JS::Error::NoError && !t->eq(clean.p, v->p)))
        violate("retry", "%s: parsing after an exception gives error %d and %s; without it error %d and %s; document: %s", t->name(),
                int(e), printable(ty::text(t, v->p), 900).c_str(), int(e0), printable(ty::text(t, clean.p), 900).c_str(),
                printable(d, 1200).c_str());
      if (pc->missing_members != mm || pc->unassigned_required_members != um)
        violate("retry", "%s: parsing after an exception reports other members; document: %s", t->name(), printable(d, 1200).c_str());
      if (e == JS::Error::NoError && pc->makeErrorString() != msg)
        violate("retry", "%s: parsing after an exception says \"%s\" instead of \"%s\"", t->name(),
                printable(pc->makeErrorString(), 600).c_str(), printable(msg, 600).c_str());
    });
  }
}
// ---------------------------------------------------------------- serializing
static void serialize(Src &c)
{
  const ty::AnyType *t = pick_type(c);
  ev(t->name());
  ty::Val v(t);
  t->gen(c, v.p);
  JS::SerializerOptions o(c.coin() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
  std::string want = t->serialize(v.p, o);
  evs("value", want);
  Bomb b;
  uint64_t n = 0;
  for (uint32_t i = 0, k = c.range(2, 5); i < k; i++)
  {
    uint64_t at = i ? pick_at(c, n) : 0;
    no_leak("serializing", [&] {
      Sink sink(c);
      if (!sink.cls)
        sink.cls = 3;
      JS::Serializer ser;
      ser.setOptions(o);
      sink.attach(ser, c.coin());
      ser.setRequestBufferCallback([&](JS::Serializer &s) {
        b.reach("request_buffer_throws");
        sink.request(s);
        b.reach("request_buffer_throws_after_delivery");
      });
      b.arm(at);
      bool ok = b.run("serializing", [&] {
        JS::Token tok;
        t->from(v.p, tok, ser);
      });
      if (!i)
        n = b.calls;
      std::string got = sink.contents();
      if (ok ? got != want : want.compare(0, got.size(), got) != 0)
        violate("prefix", "%s: the bytes written %s are %s, expected %s%s", t->name(), ok ? "in all" : "before an exception",
                printable(got, 900).c_str(), ok ? "" : "the beginning of ", printable(want, 900).c_str());
      // other sessions are not affected
      if (!ok && t->serialize(v.p, o) != want)
        violate("retry", "%s: serializing after an exception gives another text than before it", t->name());
    });
  }
}
// ---------------------------------------------------------------- function calls
static void calls(Src &c)
{
  fn::Script s;
  fn::gen_script(c, s, c.below(3));
  const std::string &d = s.text;
  evs("document", d);
  bool am = c.coin(), stop = c.chance(1, 3);
  Bomb b;
  bomb = &b;
  struct Outcome
  {
    JS::Error e = JS::Error::NoError;
    std::vector<fn::Rec> log;
    std::string out, list;
    size_t entries = 0;
    std::vector<std::string> names;
  };
  auto summary = [](const JS::CallFunctionContext &cx, size_t from) {
    std::string o;
    for (size_t i = from; i < cx.execution_list.size(); i++)
    {
      auto &x = cx.execution_list[i];
      o += x.name + "=" + std::to_string(int(x.error)) + "[" + join(x.missing_members.data, false) + "] ";
    }
    return o;
  };
  struct Guard
  {
    fn::Host *h;
    ~Guard() { fn::destroy_host(h); }
  };
  Plan p;
  p.parts = cut(c, d);
  p.mode = Mode::Callback;
  Outcome clean;
  uint64_t n = 0;
  for (uint32_t i = 0, k = c.range(2, 5); i < k; i++)
  {
    uint64_t at = i ? pick_at(c, n) : 0;
    bool again = c.coin();
    no_leak("calling functions", [&] {
      Outcome r;
      Guard host{fn::make_host(&r.log)};
      Pipe first(c, d, p);
      Pipe *now = &first;
      Sink sink(c), sink2(c);
      JS::ParseContext pc;
      std::function<void(const char *)> rel = [&](const char *q) { now->on_release(q); };
      pc.tokenizer.setReleaseCallback(rel);
      first.tok = &pc.tokenizer;
      pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) {
        b.reach("need_more_data_throws");
        now->request();
      });
      JS::Serializer ser;
      ser.setOptions(JS::SerializerOptions(JS::SerializerOptions::Compact));
      sink.attach(ser, c.coin());
      ser.setRequestBufferCallback([&](JS::Serializer &q) {
        b.reach("request_buffer_throws");
        sink.request(q);
      });
      JS::CallFunctionContext cx(pc, ser);
      cx.allow_missing = am;
      cx.stop_execute_on_fail = stop;
      fn::on_call() = [&] { b.reach("function_throws"); };
      b.arm(at);
      bool ok = b.run("callFunctions", [&] { r.e = fn::call(cx, *host.h); });
      r.out = sink.contents();
      r.list = summary(cx, 0);
      if (!i)
      {
        n = b.calls;
        fn::on_call() = nullptr;
        Untracked u;
        clean.e = r.e;
        clean.log = std::vector<fn::Rec>(r.log);
        clean.out = r.out;
        clean.list = r.list;
        clean.entries = cx.execution_list.size();
        for (auto &x : cx.execution_list)
          clean.names.push_back(x.name);
        return;
      }
      auto bad = [&](const char *what) {
        violate("calls", "%s: error %d, %zu calls, output %s, results %s; without an exception %d, %zu, %s, %s; document: %s", what,
                int(r.e), r.log.size(), printable(r.out, 600).c_str(), printable(r.list, 500).c_str(), int(clean.e),
                clean.log.size(), printable(clean.out, 600).c_str(), printable(clean.list, 500).c_str(), printable(d, 1200).c_str());
      };
      auto prefix = [&] {
        if (r.log.size() > clean.log.size())
          return false;
        for (size_t k2 = 0; k2 < r.log.size(); k2++)
          if (r.log[k2].name != clean.log[k2].name || r.log[k2].arg != clean.log[k2].arg)
            return false;
        return true;
      };
      if (!prefix())
        bad("other calls");
      if (ok)
      {
        if (r.e != clean.e || r.log.size() != clean.log.size() || r.out != clean.out || r.list != clean.list)
          bad("no exception was thrown");
        fn::on_call() = nullptr;
        return;
      }
      if (clean.out.compare(0, r.out.size(), r.out) != 0)
        bad("the output up to the exception");
      if (cx.execution_list.size() > clean.entries)
        bad("the results up to the exception");
      for (size_t k2 = 0; k2 < cx.execution_list.size(); k2++)
        if (cx.execution_list[k2].name != clean.names[k2])
          bad("the results up to the exception");
      fn::on_call() = nullptr;
      if (again)
      {
        // the same parse context executes the document from its start
        Plan p2;
        p2.parts = {{0, d.size()}};
        p2.mode = Mode::Callback;
        Pipe second(c, d, p2);
        Buf whole;
        whole.size = whole.cap = d.size();
        whole.mem = static_cast<char *>(malloc(d.size() ? d.size() : 1));
        memcpy(whole.mem, d.data(), d.size());
        second.bufs.push_back(whole);
        second.next = 1;
        second.added++;
        second.tok = &pc.tokenizer;
        pc.tokenizer.resetData(whole.mem, whole.size, 0);
        now = &second;
        pc.missing_members.clear();
        pc.unassigned_required_members.clear();
        r.log.clear();
        JS::Serializer ser2;
        ser2.setOptions(JS::SerializerOptions(JS::SerializerOptions::Compact));
        sink2.attach(ser2, true);
        JS::CallFunctionContext cx2(pc, ser2);
        cx2.allow_missing = am;
        cx2.stop_execute_on_fail = stop;
        r.e = fn::call(cx2, *host.h);
        r.out = sink2.contents();
        r.list = summary(cx2, 0);
        if (r.e != clean.e || !prefix() || r.log.size() != clean.log.size() || r.out != clean.out || r.list != clean.list)
          bad("executed anew");
        pc.tokenizer.resetData("", 0, 0); // the stream ends with this block
      }
    });
  }
}
// ---------------------------------------------------------------- user types whose handlers throw
struct Picky
{
  int v = 0;
};
static bool operator<(const Picky &a, const Picky &b) { return a.v < b.v; }
struct PickyNode
{
  Picky x;
  std::vector<Picky> y;
  JS_OBJ(x, y);
};
struct Rig
{
  std::vector<Picky> list;
  std::map<std::string, Picky> by_name;
  std::unique_ptr<Picky> owned;
  std::optional<Picky> maybe;
  std::shared_ptr<PickyNode> shared;
  std::vector<PickyNode> nodes;
  std::tuple<Picky, std::string, Picky> tup;
  std::array<Picky, 2> pair;
  JS::Nullable<Picky> nullable;
  JS::SilentUniquePtr<PickyNode> quiet;
  std::set<Picky> uniq;
  JS::OneOrMany<Picky> some;
  JS_OBJ(list, by_name, owned, maybe, shared, nodes, tup, pair, nullable, quiet, uniq, some);
};
namespace JS
{
template <>
struct TypeHandler<Picky>
{
  static inline Error to(Picky &t, ParseContext &pc)
  {
    if (bomb)
      bomb->reach("type_handler_throws");
    return TypeHandler<int>::to(t.v, pc);
  }
  static inline void from(const Picky &t, Token &token, Serializer &s)
  {
    if (bomb)
      bomb->reach("type_handler_throws");
    TypeHandler<int>::from(t.v, token, s);
  }
};
} // namespace JS
static void rig(Src &c)
{
  Bomb b;
  auto num = [&] { return std::to_string(1 + c.below(1000)); };
  auto nums = [&](uint32_t n) {
    std::string s = "[";
    for (uint32_t i = 0; i < n; i++)
      s += (i ? "," : "") + num();
    return s + "]";
  };
  auto node = [&] { return "{\"x\":" + num() + ",\"y\":" + nums(c.below(4)) + "}"; };
  std::string d = "{\"list\":" + nums(c.below(6)) + ",\"by_name\":{";
  for (uint32_t i = 0, n = c.below(4); i < n; i++)
    d += (i ? ",\"k" : "\"k") + std::to_string(i) + "\":" + num();
  d += "},\"owned\":" + num() + ",\"maybe\":" + num() + ",\"shared\":" + node() + ",\"nodes\":[";
  for (uint32_t i = 0, n = c.below(4); i < n; i++)
    d += (i ? "," : "") + node();
  d += "],\"tup\":[" + num() + ",\"text long enough to be stored elsewhere\"," + num() + "],\"pair\":" + nums(2) + ",\"nullable\":" + num() +
       ",\"quiet\":" + node() + ",\"uniq\":[";
  for (uint32_t i = 0, n = c.below(4); i < n; i++)
    d += (i ? "," : "") + std::to_string(i * 1000 + c.below(1000));
  d += "],\"some\":" + (c.coin() ? num() : nums(2)) + "}";
  evs("document", d);
  bomb = nullptr;
  std::string want;
  {
    Rig clean;
    JS::ParseContext pc(d.data(), d.size());
    bomb = &b;
    JS::Error e = pc.parseTo(clean);
    bomb = nullptr;
    if (e != JS::Error::NoError)
      violate("rejected", "error %d; document: %s", int(e), printable(d, 1500).c_str());
    want = JS::serializeStruct(clean);
  }
  uint64_t n = b.calls;
  for (uint32_t i = c.range(1, 4); i; i--)
  {
    uint64_t at = pick_at(c, n);
    uint32_t what = c.below(4);
    bool same_target = c.coin();
    no_leak("user type", [&] {
      std::unique_ptr<Rig> r(new Rig);
      JS::ParseContext pc(d.data(), d.size());
      b.arm(what == 0 ? at : 0);
      bomb = &b;
      JS::Error e = JS::Error::NoError;
      if (!b.run("parseTo", [&] { e = pc.parseTo(*r); }))
      {
        bomb = nullptr;
        evs("left", JS::serializeStruct(*r));
        if (!same_target)
          r.reset(new Rig);
        pc.tokenizer.resetData(d.data(), d.size(), 0);
        pc.missing_members.clear();
        pc.unassigned_required_members.clear();
        e = pc.parseTo(*r);
      }
      bomb = nullptr;
      if (e != JS::Error::NoError || JS::serializeStruct(*r) != want)
        violate("retry", "parsing after an exception from a type handler gives error %d and %s instead of %s", int(e),
                printable(JS::serializeStruct(*r), 900).c_str(), printable(want, 900).c_str());
      if (what == 1)
      {
        // writing
        std::string out = c.coin() ? std::string() : std::string("some earlier text");
        b.arm(at);
        bomb = &b;
        bool ok = b.run("serializeStruct", [&] { out = JS::serializeStruct(*r); });
        bomb = nullptr;
        if (ok ? out != want : JS::serializeStruct(*r) != want)
          violate("retry", "serializing after an exception from a type handler gives another text");
      }
      else if (what >= 2)
      {
        // a map that is to take the value
        std::string md = "{\"a\":{\"deep\":[1,2]},\"rig\":" + std::string(c.coin() ? "[1,{}]" : "5") + ",\"z\":[\"q\"]}";
        JS::Map m;
        JS::ParseContext mc(md.data(), md.size());
        if (mc.parseTo(m) != JS::Error::NoError)
          violate("rejected", "a map was not read");
        std::string before = JS::serializeStruct(m);
        b.arm(at);
        bomb = &b;
        bool whole = what == 3;
        bool ok = b.run("setValue", [&] {
          JS::ParseContext sc;
          JS::Error e2 = whole ? m.setValue(sc, *r) : m.setValue("rig", sc, *r);
          if (e2 != JS::Error::NoError)
            violate("rejected", "setValue fails with %d", int(e2));
        });
        bomb = nullptr;
        std::string after = JS::serializeStruct(m);
        if (!ok && after != before)
          violate("map", "a set that was ended by an exception changed the map from %s to %s", printable(before, 600).c_str(),
                  printable(after, 900).c_str());
        JS::ParseContext sc;
        JS::Error e2 = whole ? m.setValue(sc, *r) : m.setValue("rig", sc, *r);
        Rig back;
        JS::ParseContext rc;
        b.arm(c.coin() ? at : 0);
        bomb = &b;
        if (!b.run("castToType", [&] { e2 = whole ? m.castToType(rc, back) : m.castToType("rig", rc, back); }))
        {
          bomb = nullptr;
          e2 = whole ? m.castToType(rc, back) : m.castToType("rig", rc, back);
        }
        bomb = nullptr;
        if (e2 != JS::Error::NoError || JS::serializeStruct(back) != want)
          violate("retry", "reading from a map after an exception gives error %d and %s instead of %s", int(e2),
                  printable(JS::serializeStruct(back), 900).c_str(), printable(want, 900).c_str());
      }
    });
  }
}
void scenario(Src &c)
{
  bomb = nullptr;
  fn::on_call() = nullptr;
  switch (c.weighted({3, 4, 2, 3, 2}))
  {
  case 0:
    tokens(c);
    break;
  case 1:
    parse(c);
    break;
  case 2:
    serialize(c);
    break;
  case 3:
    calls(c);
    break;
  default:
    rig(c);
  }
}
#include "main.hpp"
