// C18: a document that does not fit the type is rejected.
#include "typed.hpp"
using namespace sim;
const char *scenario_id() { return "C18"; }
void warmup() { typed_warmup(); }

// a document for t with one value that does not fit; false: none came about
static bool misfit_text(Src &c, const ty::AnyType *t, const doc::Syntax &sy, ty::TW &tw)
{
  for (uint32_t den : {c.pick({2u, 5u, 20u, 60u, 200u}), 3u, 1u})
  {
    tw = ty::TW();
    tw_options(c, tw, sy);
    tw.inject_unknown = c.chance(1, 3);
    tw.misfit_den = den;
    tw.misfit_top = c.chance(1, 8);
    ty::Val v(t), prev(t);
    t->gen(c, v.p);
    if (t->absent(v.p))
      continue;
    t->write(tw, v.p, prev.p);
    if (tw.misfitted)
      return true;
  }
  return false;
}
struct Result
{
  JS::Error e;
  std::string left;
};
// a document that is one number, string or word has no end: more of it may follow
static bool open_ended(const std::string &d) { return d[0] != '{' && d[0] != '['; }
static void must_reject(const Result &o, const ty::AnyType *t, const ty::TW &tw, const char *how)
{
  if (o.e == JS::Error::NoError)
    violate("misfit-accepted", "%s, %s: accepted %s as %s; input: %s", t->name(), how, tw.misfit_what.c_str(),
            printable(o.left, 800).c_str(), printable(tw.w.out, 1500).c_str());
  if (o.e == JS::Error::NeedMoreData && !open_ended(tw.w.out))
    violate("misfit-incomplete", "%s, %s: %s made a complete document look cut off; input: %s", t->name(), how,
            tw.misfit_what.c_str(), printable(tw.w.out, 1500).c_str());
}
static void options(JS::ParseContext &pc, uint32_t o)
{
  pc.allow_missing_members = !(o & 1);
  pc.allow_unasigned_required_members = !(o & 2);
  pc.track_member_assignement_state = !(o & 4);
}
static void whole(Src &c)
{
  const ty::AnyType *t = pick_type(c);
  ev(t->name());
  doc::Syntax sy = typed_syntax(c);
  ty::TW tw;
  if (!misfit_text(c, t, sy, tw))
    return;
  const std::string &d = tw.w.out;
  evs("document", d);
  evs("misfit", tw.misfit_what);
  fault("value_of_another_kind");
  nontrivial();
  uint32_t opt = c.chance(2, 3) ? 0 : c.below(8);
  ty::Val start(t);
  if (c.chance(1, 4))
    t->gen(c, start.p);
  auto end = [&](JS::Error e, const ty::Val &v) {
    ev("parse", uint64_t(e));
    return Result{e, ty::text(t, v.p)};
  };
  Result one;
  {
    std::vector<char> mem(d.begin(), d.end());
    JS::ParseContext pc(mem.data(), mem.size());
    set_syntax(pc.tokenizer, sy);
    options(pc, opt);
    ty::Val got(t);
    t->copy(got.p, start.p);
    JS::Error e = t->parse(pc, got.p);
    one = end(e, got);
    must_reject(one, t, tw, "in one buffer");
    evs("error", pc.makeErrorString());
    if (pc.error != e)
      violate("error-not-kept", "%s: parseTo returned %d, the context holds %d; input: %s", t->name(), int(e), int(pc.error),
              printable(d, 1500).c_str());
  }
  for (uint32_t i = c.range(1, 2); i; i--)
  {
    Plan p = gen_plan(c, d, true);
    Pipe pipe(c, d, p);
    JS::ParseContext pc;
    set_syntax(pc.tokenizer, sy);
    options(pc, opt);
    pipe.attach(pc.tokenizer);
    if (p.mode != Mode::Upfront)
      pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
    ty::Val got(t);
    t->copy(got.p, start.p);
    Result cut = end(t->parse(pc, got.p), got);
    must_reject(cut, t, tw, "in pieces");
    if ((cut.e != one.e || cut.left != one.left) && !open_ended(d))
      violate("delivery-changes-rejection", "%s: %s: error %d and %s in one buffer, error %d and %s in pieces; input: %s",
              t->name(), tw.misfit_what.c_str(), int(one.e), printable(one.left, 700).c_str(), int(cut.e),
              printable(cut.left, 700).c_str(), printable(d, 1500).c_str());
  }
  // from tokens taken beforehand
  if (c.coin())
  {
    std::vector<char> mem(d.begin(), d.end());
    JS::ParseContext tc(mem.data(), mem.size());
    set_syntax(tc.tokenizer, sy);
    JS::JsonTokens tokens;
    JS::Error te = tc.parseTo(tokens);
    ev("tokens", uint64_t(te));
    if (te != JS::Error::NoError && open_ended(d))
      return;
    if (te != JS::Error::NoError)
      violate("tokens-rejected", "a well-formed document gave no token list: %d; input: %s", int(te), printable(d, 1500).c_str());
    JS::ParseContext pc;
    pc.tokenizer.resetData(&tokens.data, 0);
    options(pc, opt);
    ty::Val got(t);
    t->copy(got.p, start.p);
    Result o = end(t->parse(pc, got.p), got);
    must_reject(o, t, tw, "from a token list");
    if (o.e != one.e && !open_ended(d))
      violate("delivery-changes-rejection", "%s: %s: error %d from text, %d from its tokens; input: %s", t->name(),
              tw.misfit_what.c_str(), int(one.e), int(o.e), printable(d, 1500).c_str());
  }
}
// a member of a Map
static void member(Src &c)
{
  const auto &r = ty::member_registry();
  const ty::AnyType *t = r[c.below(uint32_t(r.size()))];
  ev(t->name());
  ty::TW tw;
  if (!misfit_text(c, t, doc::Syntax(), tw))
    return;
  fault("value_of_another_kind");
  nontrivial();
  std::string d = std::string(c.pick({"{\"x\":", "{\"a\":1,\"x\":", "{\"w\":{\"x\":[]},\"x\":"})) + tw.w.out +
                  c.pick({"}", ",\"y\":[1,{}]}", ",\"z\":\"\"}"});
  evs("document", d);
  evs("misfit", tw.misfit_what);
  JS::ParseContext mc(d.data(), d.size());
  JS::Map m;
  JS::Error me = mc.parseTo(m);
  if (me != JS::Error::NoError)
    violate("map-rejected", "JS::Map rejected a well-formed document with %d; input: %s", int(me), printable(d, 1500).c_str());
  JS::ParseContext pc;
  ty::Val got(t);
  JS::Error e = t->map_cast(m, "x", pc, got.p);
  ev("cast", uint64_t(e));
  Result o{e, ty::text(t, got.p)};
  must_reject(o, t, tw, "from a Map");
  // and again
  JS::ParseContext pc3;
  ty::Val v(t);
  JS::Error e3 = t->map_cast(m, "x", pc3, v.p);
  if (e3 != e)
    violate("cast-unstable", "%s: casting a member twice gave %d and %d; input: %s", t->name(), int(e), int(e3),
            printable(d, 1500).c_str());
}
// a string takes a value of any kind; what it does not keep belongs to nobody else
static void loose(Src &c)
{
  const ty::AnyType *t = pick_type(c);
  ev(t->name());
  doc::Syntax sy = typed_syntax(c);
  ty::TW tw;
  tw_options(c, tw, sy);
  tw.inject_unknown = c.chance(1, 3);
  tw.loose_den = c.pick({1u, 2u, 5u, 20u});
  ty::Val want(t), start(t);
  if (c.chance(1, 4))
    t->gen(c, start.p);
  t->gen(c, want.p);
  t->write(tw, want.p, start.p);
  if (!tw.loosened)
    return;
  const std::string &d = tw.w.out;
  evs("document", d);
  fault("value_of_another_kind_for_a_string");
  nontrivial();
  auto check = [&](JS::Error e, const ty::Val &got, const char *how) {
    ev("parse", uint64_t(e));
    if (e != JS::Error::NoError || !t->eq(want.p, got.p))
      violate("string-out-of-step", "%s, %s: error %d and %s instead of %s; input: %s", t->name(), how, int(e),
              printable(ty::text(t, got.p), 800).c_str(), printable(ty::text(t, want.p), 800).c_str(),
              printable(d, 1500).c_str());
  };
  std::vector<char> mem(d.begin(), d.end());
  {
    JS::ParseContext pc(mem.data(), mem.size());
    set_syntax(pc.tokenizer, sy);
    ty::Val got(t);
    t->copy(got.p, start.p);
    JS::Error e = t->parse(pc, got.p);
    check(e, got, "in one buffer");
  }
  {
    Plan p = gen_plan(c, d, true);
    Pipe pipe(c, d, p);
    JS::ParseContext pc;
    set_syntax(pc.tokenizer, sy);
    pipe.attach(pc.tokenizer);
    if (p.mode != Mode::Upfront)
      pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
    ty::Val got(t);
    t->copy(got.p, start.p);
    JS::Error e = t->parse(pc, got.p);
    check(e, got, "in pieces");
  }
}
// members that refer to the text of a value
struct Held
{
  int before = 0;
  JS::JsonObjectRef o;
  JS::JsonArrayRef a;
  JS::JsonObjectOrArrayRef oa;
  int after = 0;
  JS_OBJ(before, o, a, oa, after);
};
static void held(Src &c)
{
  static const char *obj[] = {"{}", "{\"a\":1}", "{\"a\":[{}],\"after\":\"}\"}"};
  static const char *arr[] = {"[]", "[1]", "[[],{\"after\":3}]"};
  static const char *no[] = {"1", "true", "null", "\"{\"", "\"[]\"", "-1.5"};
  uint32_t bad = c.below(3);
  std::string part[3] = {obj[c.below(3)], arr[c.below(3)], c.coin() ? obj[c.below(3)] : arr[c.below(3)]};
  bool other = bad != 2 && c.coin();
  part[bad] = !other ? no[c.below(6)] : bad == 0 ? arr[c.below(3)] : obj[c.below(3)];
  static const char *name[] = {"o", "a", "oa"};
  std::vector<std::string> m = {"\"before\":1", "\"after\":2"};
  for (uint32_t i = 0; i < 3; i++)
    if (i == bad || !c.chance(1, 4))
      m.insert(m.begin() + c.below(uint32_t(m.size() + 1)), std::string("\"") + name[i] + "\":" + part[i]);
  std::string d;
  for (auto &x : m)
    d += (d.empty() ? "{" : ",") + x;
  d += "}";
  evs("document", d);
  fault("value_of_another_kind");
  nontrivial();
  std::vector<char> mem(d.begin(), d.end());
  JS::ParseContext pc(mem.data(), mem.size());
  Held v;
  JS::Error e = pc.parseTo(v);
  ev("parse", uint64_t(e));
  if (e == JS::Error::NoError || e == JS::Error::NeedMoreData)
    violate("misfit-accepted", "a reference to %s took %s with error %d; input: %s",
            bad == 0 ? "an object" : bad == 1 ? "an array" : "an object or array", part[bad].c_str(), int(e), d.c_str());
}
void scenario(Src &c)
{
  if (c.chance(1, 24))
    return held(c);
  uint32_t k = c.weighted({5, 2, 2});
  if (k == 0)
    whole(c);
  else if (k == 1)
    loose(c);
  else
    member(c);
}
#include "main.hpp"
