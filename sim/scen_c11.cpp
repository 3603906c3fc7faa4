// C11: what is serialized parses back to an equal value across any pipe.
#include "sink.hpp"
#include "typed.hpp"
#include <cmath>
#include <limits>
using namespace sim;
const char *scenario_id() { return "C11"; }
void warmup() { typed_warmup(); }

// Infinities, NaN and empty raw text have no JSON form: the document around them must be JSON all the same.
struct Odd
{
  double d = 0;
  std::string s;
  float f = 0;
  std::vector<double> v;
  JS::Optional<float> o;
  std::map<std::string, double> m;
  std::unique_ptr<float> p;
  JS::JsonObject ro;
  std::vector<JS::JsonArray> ra;
  int last = 0;
  JS_OBJ(d, s, f, v, o, m, p, ro, ra, last);
};
template <typename T>
static T odd(Src &c)
{
  static const T q = std::numeric_limits<T>::quiet_NaN(), i = std::numeric_limits<T>::infinity();
  switch (c.below(6))
  {
  case 0:
    return q;
  case 1:
    return -q;
  case 2:
    return i;
  case 3:
    return -i;
  case 4:
    return std::numeric_limits<T>::signaling_NaN();
  default:
    return T(c.below(100)) / 4;
  }
}
static void non_finite(Src &c)
{
  Odd w;
  w.d = odd<double>(c);
  w.s = std::string(c.below(5), '"');
  w.f = odd<float>(c);
  for (uint32_t i = c.below(4); i; i--)
    w.v.push_back(odd<double>(c));
  w.o.data = odd<float>(c);
  for (uint32_t i = c.below(3); i; i--)
    w.m[std::string(i, 'k')] = odd<double>(c);
  if (c.coin())
    w.p.reset(new float(odd<float>(c)));
  w.ra.resize(c.below(3));
  w.last = int(c.below(1000));
  JS::SerializerOptions o(c.coin() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
  JS::Serializer s;
  s.setOptions(o);
  Sink sink(c);
  sink.attach(s, c.coin());
  JS::Token token;
  JS::TypeHandler<Odd>::from(w, token, s);
  std::string text = sink.contents();
  evs("text", text);
  doc::NodeP n;
  std::string why;
  if (!doc::strict(text, n, why))
    violate("not-json", "a value with NaN or infinity does not serialize as JSON (%s): %s", why.c_str(),
            printable(text, 1500).c_str());
  auto want = [&](const doc::Node &x, double v, const char *what) {
    bool ok = std::isfinite(v) ? x.k == doc::K::Num && strtod(x.text.c_str(), nullptr) == v : x.k == doc::K::Null;
    if (!ok)
      violate("value", "%s is %g but its serialized form is %s: %s", what, v, printable(x.text, 100).c_str(),
              printable(text, 1500).c_str());
  };
  static const char *names[] = {"d", "s", "f", "v", "o", "m", "p", "ro", "ra", "last"};
  if (n->k != doc::K::Obj || n->members.size() != 10)
    violate("value", "%zu members instead of 10: %s", n->members.size(), printable(text, 1500).c_str());
  for (size_t i = 0; i < 10; i++)
    if (n->members[i].key != "\"" + std::string(names[i]) + "\"" && n->members[i].key != names[i])
      violate("value", "member %zu is %s: %s", i, n->members[i].key.c_str(), printable(text, 1500).c_str());
  want(*n->members[0].value, w.d, "d");
  want(*n->members[2].value, w.f, "f");
  auto &v = *n->members[3].value;
  if (v.items.size() != w.v.size())
    violate("value", "%zu items instead of %zu: %s", v.items.size(), w.v.size(), printable(text, 1500).c_str());
  for (size_t i = 0; i < w.v.size(); i++)
    want(*v.items[i], w.v[i], "an item");
  want(*n->members[4].value, w.o.data, "o");
  auto &m = *n->members[5].value;
  if (m.members.size() != w.m.size())
    violate("value", "%zu keys instead of %zu: %s", m.members.size(), w.m.size(), printable(text, 1500).c_str());
  size_t k = 0;
  for (auto &e : w.m)
    want(*m.members[k++].value, e.second, "a map value");
  want(*n->members[6].value, w.p ? *w.p : std::numeric_limits<double>::quiet_NaN(), "p");
  if (n->members[7].value->k != doc::K::Obj || n->members[7].value->members.size())
    violate("value", "an empty raw object does not serialize as one: %s", printable(text, 1500).c_str());
  auto &ra = *n->members[8].value;
  if (ra.items.size() != w.ra.size())
    violate("value", "%zu raw arrays instead of %zu: %s", ra.items.size(), w.ra.size(), printable(text, 1500).c_str());
  for (auto &x : ra.items)
    if (x->k != doc::K::Arr || x->items.size())
      violate("value", "an empty raw array does not serialize as one: %s", printable(text, 1500).c_str());
  want(*n->members[9].value, w.last, "last");
  probe("non_finite");
}

void scenario(Src &c)
{
  if (c.chance(1, 40))
    return non_finite(c);
  const ty::AnyType *t = pick_type(c);
  ev(t->name());
  ty::Val v(t);
  t->gen(c, v.p);
  JS::SerializerOptions o(c.coin() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
  if (c.chance(1, 3))
    o.setShiftSize((unsigned char)c.below(9));
  if (c.chance(1, 6))
    o.setStyle(c.coin() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
  std::string text;
  Sink sink(c);
  if (c.chance(1, 4))
    text = t->serialize_default(v.p);
  else
  {
    JS::Serializer s;
    s.setOptions(o);
    sink.attach(s, c.coin());
    JS::Token token;
    t->from(v.p, token, s);
    text = sink.contents();
  }
  evs("text", text);
  doc::NodeP n;
  std::string why;
  if (!doc::strict(text, n, why))
    violate("not-json", "%s: serialized form is not JSON (%s): %s", t->name(), why.c_str(), printable(text, 1500).c_str());
  std::string stream = text;
  // the receiver's buffers have nothing to do with the sender's
  Plan p = gen_plan(c, stream, true);
  Pipe pipe(c, stream, p);
  JS::ParseContext pc;
  // nothing the type needs is left out, nothing it does not know is in there
  pc.allow_missing_members = c.coin();
  pipe.attach(pc.tokenizer);
  pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
  ty::Val fresh(t);
  JS::Error e = t->parse(pc, fresh.p);
  ev("parse", uint64_t(e));
  if (e != JS::Error::NoError)
    violate("rejected", "%s: serialized form rejected with error %d (%s): %s", t->name(), int(e),
            printable(pc.makeErrorString(), 300).c_str(), printable(text, 1500).c_str());
  for (auto &m : pc.unassigned_required_members)
    if (m != "ol" && m != "om") // OneOrMany: an empty one has no form
      violate("left-out", "%s: the serialized form lacks member %s: %s", t->name(), m.c_str(), printable(text, 1500).c_str());
  if (!t->eq(v.p, fresh.p))
    violate("value", "%s: %s came back as %s; text: %s", t->name(), printable(ty::text(t, v.p), 1000).c_str(),
            printable(ty::text(t, fresh.p), 1000).c_str(), printable(text, 1500).c_str());
}
#include "main.hpp"
