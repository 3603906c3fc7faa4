// A JS::Map driven through a history of operations next to an ordered list of named values.
#pragma once
#include "typed.hpp"
#include "sink.hpp"

namespace sim
{
inline bool is_strict(const std::string &s)
{
  doc::NodeP n;
  std::string why;
  return doc::strict(s, n, why);
}
inline bool holds_raw(const ty::AnyType *t)
{
  std::string n = t->name();
  return n == "Raws" || n == "Deep" || n.find("Json") != std::string::npos;
}
inline bool same_value(const ty::AnyType *t, const void *a, const void *b)
{
  ty::raw_by_content = true;
  bool r = t->eq(a, b);
  ty::raw_by_content = false;
  return r;
}
inline std::string decoded(const std::string &raw)
{
  std::string o;
  return doc::unescape(raw, o) ? o : raw;
}
inline std::string rendered(const doc::Node &n)
{
  std::string o;
  doc::render(n, o);
  return o;
}
inline std::string quoted(const std::string &s) // as raw JSON string text
{
  std::string o;
  char b[8];
  for (unsigned char ch : s)
    if (ch == '"' || ch == '\\')
      o += '\\', o += char(ch);
    else if (ch < 0x20)
      snprintf(b, sizeof b, "\\u%04x", ch), o += b;
    else
      o += char(ch);
  return o;
}
struct MapSim
{
  struct Entry
  {
    std::string name; // decoded
    std::string raw;  // as written (structs match member names as written)
    doc::NodeP value;
    const ty::AnyType *type = nullptr; // set from a value of this type
    std::shared_ptr<ty::Val> val;
  };
  // a document the map points into; freed as soon as the map must no longer need it
  struct Text
  {
    char *p;
    size_t n;
    explicit Text(const std::string &s)
      : p(static_cast<char *>(malloc(s.size() ? s.size() : 1)))
      , n(s.size())
    {
      memcpy(p, s.data(), n);
    }
    Text(const Text &) = delete;
    ~Text()
    {
      memset(p, 0xdb, n);
      free(p);
    }
  };
  Src &c;
  std::shared_ptr<Text> text;
  std::vector<Entry> model;
  std::unique_ptr<JS::Map> map{new JS::Map()};
  std::unique_ptr<JS::ParseContext> pc{new JS::ParseContext()};
  std::vector<std::string> names; // names that were ever seen anywhere, also in nested objects
  std::string original;           // the text as parsed, while the map is unchanged since
  uint64_t sets = 0;
  // runs one call into the library; false: it was interrupted by a failing allocation
  std::function<bool(const std::function<void()> &)> runner;

  explicit MapSim(Src &src)
    : c(src)
  {
    names = {"a", "ab", "", "x", "a\"b", "back\\slash", "line\nfeed", "caf\xc3\xa9", "a rather long name of a member", "s"};
  }
  ~MapSim()
  {
    map.reset(); // before the text it points into
  }
  std::string show_model()
  {
    std::string o = "{";
    for (auto &e : model)
      o += (o.size() > 1 ? "," : "") + ("\"" + e.raw + "\":" + rendered(*e.value));
    return o + "}";
  }
  void collect(const doc::Node &n)
  {
    for (auto &m : n.members)
    {
      names.push_back(decoded(m.key));
      collect(*m.value);
    }
    for (auto &i : n.items)
      collect(*i);
  }
  const ty::AnyType *any_type()
  {
    const auto &r = c.chance(2, 3) ? ty::member_registry() : ty::registry();
    return r[c.below(uint32_t(r.size()))];
  }
  std::string pick_name()
  {
    if (!model.empty() && c.chance(2, 3))
      return model[c.below(uint32_t(model.size()))].name;
    return names[c.below(uint32_t(names.size()))];
  }
  bool unique(const std::string &n)
  {
    int k = 0;
    for (auto &e : model)
      k += e.name == n;
    return k < 2;
  }
  const Entry *lookup(const std::string &n)
  {
    for (auto &e : model)
      if (e.name == n)
        return &e;
    return nullptr;
  }
  // a call into the library, repeated when it is interrupted; a change is made completely or not at all
  void lib(bool change, const std::function<void()> &f, const std::function<void()> &again = nullptr)
  {
    if (!runner)
    {
      f();
      return;
    }
    std::string before, other;
    if (change)
      before = JS::serializeStruct(*map);
    bool differs = false;
    for (int tries = 0;; tries++)
    {
      if (tries == 3)
      {
        f();
        break;
      }
      if (runner(f))
        break;
      probe(change ? "interrupted_change" : "interrupted_read");
      std::string now = change ? JS::serializeStruct(*map) : std::string();
      if (now == before)
        check_all("after an operation that failed");
      else
      {
        differs = true;
        other = now;
      }
      if (again)
        again();
    }
    if (differs && JS::serializeStruct(*map) != other)
      violate("torn", "an operation that failed changed the map from %s to %s, complete it gives %s", printable(before, 700).c_str(),
              printable(other, 700).c_str(), printable(JS::serializeStruct(*map), 700).c_str());
  }
  void context()
  {
    if (c.chance(1, 4))
      pc.reset(new JS::ParseContext());
  }
  // ---- building
  std::string gen_document(doc::NodeP &n)
  {
    doc::GenCfg g = doc::gen_cfg(c);
    doc::Syntax sy;
    sy.superfluous = c.chance(1, 6);
    sy.comments = c.chance(1, 6);
    doc::Writer w;
    w.c = &c;
    w.sy = sy;
    w.noise = c.below(3);
    n = doc::gen_doc(c, g, sy, int(doc::K::Obj));
    // names that also occur nested, and repeated names
    for (auto &m : n->members)
      if (c.chance(1, 8))
        m.key = quoted(names[c.below(uint32_t(names.size()))]);
    w.document(*n);
    return w.out;
  }
  void parse(bool damaged)
  {
    doc::NodeP n;
    std::string d = gen_document(n);
    std::shared_ptr<Text> keep = text; // the map may point into it until the new parse is done
    evs("parse", d);
    if (damaged)
    {
      if (c.coin() && d.size() > 1)
        d.resize(c.below(uint32_t(d.size())));
      else
        doc::damage(c, d, true);
      fault("document_damaged");
      evs("damaged", d);
    }
    auto t = std::make_shared<Text>(d);
    JS::Error e = JS::Error::NoError;
    auto go = [&] {
      pc.reset(new JS::ParseContext(t->p, t->n));
      pc->tokenizer.allowSuperfluousComma(true);
      pc->tokenizer.allowComments(true);
      e = pc->parseTo(*map);
    };
    if (runner)
    {
      // an interrupted parse leaves a map that can be used, whatever it holds
      for (int tries = 0; !runner(go); tries++)
      {
        if (!pc)
          pc.reset(new JS::ParseContext());
        use_whatever(JS::Error::NoError);
        if (tries == 3)
        {
          go();
          break;
        }
      }
    }
    else
      go();
    ev("parsed", uint64_t(e));
    text = t;
    if (!damaged)
      keep.reset(); // a failed parse may not have touched the map
    if (!damaged)
    {
      if (e != JS::Error::NoError)
        violate("rejected", "a Map rejected a well-formed object with error %d: %s", int(e), printable(d, 1200).c_str());
      set_model(*n);
      original = d;
      check_all("after parsing");
      return;
    }
    // whatever the outcome, the map can be read and serialized; then it is built anew
    use_whatever(e);
    parse(false);
  }
  void set_model(const doc::Node &n)
  {
    model.clear();
    original.clear();
    for (auto &m : n.members)
    {
      Entry e;
      e.name = decoded(m.key);
      e.raw = m.key;
      e.value = m.value;
      model.push_back(e);
    }
    collect(n);
  }
  void use_whatever(JS::Error e)
  {
    size_t k = 0;
    for (auto it = map->begin(); it != map->end(); ++it)
    {
      evs("name", std::string(it->name.data, it->name.size));
      if (++k > map->tokens.data.size() + 1)
        violate("iteration", "iterating a map after a parse that ended with error %d does not end", int(e));
    }
    (void)map->find("a");
    std::string out = JS::serializeStruct(*map);
    evs("text", out);
    int i = 0;
    JS::Error r = map->castToType("a", *pc, i);
    ev("cast", uint64_t(r));
  }
  void start()
  {
    switch (c.below(4))
    {
    case 0:
      break;
    case 1:
      set_all();
      break;
    default:
      parse(false);
    }
  }
  void set_all()
  {
    const ty::AnyType *t = nullptr;
    for (int i = 0; i < 20 && !t; i++)
    {
      auto r = pick_type(c);
      ty::Val probe_val(r);
      JS::Map m2;
      JS::ParseContext p2;
      JS::Error e = JS::Error::NoError;
      if (r->map_set_all(m2, p2, probe_val.p, e))
        t = r;
    }
    if (!t)
      return;
    ty::Val v(t);
    t->gen(c, v.p);
    context();
    JS::Error e = JS::Error::NoError;
    std::string s = ty::text(t, v.p);
    evs("setAll", s);
    lib(true, [&] { t->map_set_all(*map, *pc, v.p, e); });
    if (e != JS::Error::NoError)
      violate("set-failed", "setValue(context, %s) failed with %d", t->name(), int(e));
    text.reset();
    doc::NodeP n;
    std::string why;
    // order and content as serialized (unordered containers have no order of their own)
    std::string plain = t->serialize_default(v.p);
    if (!doc::strict(plain, n, why))
      violate("oracle", "serialized %s is not JSON: %s", t->name(), plain.c_str());
    set_model(*n);
    check_all("after setting the whole map");
    // and as a whole
    ty::Val got(t);
    e = t->map_cast_all(*map, *pc, got.p);
    if (e != JS::Error::NoError || !same_value(t, v.p, got.p))
      violate("cast-all", "castToType of a map set from %s %s gave error %d, %s", t->name(), printable(s, 600).c_str(),
              int(e), printable(ty::text(t, got.p), 600).c_str());
  }
  // ---- the operations
  void remove(const std::string &n)
  {
    for (size_t i = 0; i < model.size();)
      if (model[i].name == n)
        model.erase(model.begin() + i);
      else
        i++;
  }
  void set()
  {
    std::string n = pick_name();
    context();
    original.clear();
    sets++;
    if (c.chance(1, 10))
    {
      set_map(n);
      return;
    }
    const ty::AnyType *t = any_type();
    auto v = std::make_shared<ty::Val>(t);
    t->gen(c, v->p);
    evs("set", n);
    ev(t->name());
    bool there = lookup(n) != nullptr;
    JS::Error e = JS::Error::NoError;
    lib(true, [&] { e = t->map_set(*map, n, *pc, v->p); });
    if (e != JS::Error::NoError)
      violate("set-failed", "setValue(\"%s\", %s %s) failed with %d; map: %s", printable(n).c_str(), t->name(),
              printable(ty::text(t, v->p), 300).c_str(), int(e), printable(show_model(), 800).c_str());
    probe(there ? "overwritten" : "added");
    remove(n);
    if (!t->absent(v->p))
    {
      Entry en;
      en.name = n;
      en.raw = quoted(n);
      en.type = t;
      en.val = v;
      std::string why, s = t->serialize_default(v->p);
      doc::Parser p(s);
      if (!p.document(en.value))
        violate("oracle", "serialized %s is not JSON: %s", t->name(), s.c_str());
      collect(*en.value);
      model.push_back(en);
    }
    else
      probe("set_to_nothing");
  }
  void set_map(const std::string &n)
  {
    probe("map_in_map");
    Entry en;
    en.name = n;
    en.raw = quoted(n);
    std::string s;
    JS::Error e = JS::Error::NoError;
    evs("setMap", n);
    if (c.chance(1, 4) && model.size() < 12)
    {
      s = show_model(); // into itself
      // (repeating it would set the changed map)
      e = map->setValue(n, *pc, *map);
      probe("map_in_itself");
    }
    else
    {
      MapSim other(c);
      other.start();
      for (uint32_t i = c.below(4); i; i--)
        other.set();
      s = other.show_model();
      lib(true, [&] { e = map->setValue(n, *pc, *other.map); });
    }
    if (e != JS::Error::NoError)
      violate("set-failed", "setValue(\"%s\", map %s) failed with %d", printable(n).c_str(), printable(s, 600).c_str(),
              int(e));
    std::string why;
    if (!doc::strict(s, en.value, why))
      violate("oracle", "model text is not JSON: %s", s.c_str());
    remove(n);
    model.push_back(en);
  }
  void read()
  {
    context();
    std::string n = pick_name();
    const Entry *en = lookup(n);
    evs("read", n);
    const ty::AnyType *t = en && en->type && c.chance(2, 3) ? en->type : any_type();
    ty::Val got(t);
    if (!unique(n))
      return; // repeated in the document: which one is meant is not defined
    bool by_value = c.chance(1, 3);
    JS::Error e = JS::Error::NoError;
    auto anew = [&] {
      ty::Val empty(t);
      t->copy(got.p, empty.p);
    };
    if (by_value)
    {
      lib(false, [&] { t->map_cast_value(*map, &n, *pc, got.p); }, anew);
      e = pc->error;
    }
    else
    {
      lib(false, [&] { e = t->map_cast(*map, n, *pc, got.p); }, anew);
      if (e != pc->error)
        violate("context-error", "castToType(\"%s\") of %s into %s returned %d but left error %d in the context",
                printable(n).c_str(), en ? printable(rendered(*en->value), 300).c_str() : "nothing", t->name(), int(e),
                int(pc->error));
    }
    ev("cast", uint64_t(e));
    if (!en)
    {
      probe("absent_name");
      JS::Error want = model.empty() && map->tokens.data.empty() ? JS::Error::ExpectedObjectStart : JS::Error::KeyNotFound;
      if (e != want)
        violate("absent", "reading the absent name \"%s\" gave error %d, expected %d; map: %s", printable(n).c_str(),
                int(e), int(want), printable(show_model(), 800).c_str());
      return;
    }
    if (en->type == t)
    {
      if (e != JS::Error::NoError || !same_value(t, en->val->p, got.p))
        violate("cast", "\"%s\" was set to the %s %s but reads as %s (error %d); map: %s", printable(n).c_str(),
                t->name(), printable(ty::text(t, en->val->p), 500).c_str(), printable(ty::text(t, got.p), 500).c_str(),
                int(e), printable(show_model(), 800).c_str());
      probe("typed_read");
      return;
    }
    // same outcome as reading the value out of a document with this one member
    std::string one = "{\"w\":" + rendered(*en->value) + "}";
    Text keep(one);
    JS::Map single;
    JS::ParseContext p2(keep.p, keep.n);
    if (p2.parseTo(single) != JS::Error::NoError)
      violate("oracle", "a map rejected %s", one.c_str());
    ty::Val ref(t);
    JS::Error e2 = t->map_cast(single, "w", p2, ref.p);
    if ((e == JS::Error::NoError) != (e2 == JS::Error::NoError) || (e == JS::Error::NoError && !holds_raw(t) && !same_value(t, ref.p, got.p)))
      violate("cast", "\"%s\" holds %s; reading it as %s gave error %d %s, alone error %d %s; map: %s",
              printable(n).c_str(), printable(rendered(*en->value), 400).c_str(), t->name(), int(e),
              printable(ty::text(t, got.p), 400).c_str(), int(e2), printable(ty::text(t, ref.p), 400).c_str(),
              printable(show_model(), 800).c_str());
    probe(e == JS::Error::NoError ? "typed_read_other" : "ill_typed_read");
  }
  void read_all()
  {
    context();
    const ty::AnyType *t = pick_type(c);
    ev("readAll");
    if (map->tokens.data.empty())
      return;
    std::set<std::string> seen;
    for (auto &e : model)
      if (!seen.insert(e.name).second)
        return;
    ty::Val got(t), ref(t);
    JS::Error e = JS::Error::NoError;
    auto anew = [&] {
      ty::Val empty(t);
      t->copy(got.p, empty.p);
    };
    if (c.coin())
    {
      lib(false, [&] { t->map_cast_value(*map, nullptr, *pc, got.p); }, anew);
      e = pc->error;
    }
    else
    {
      lib(false, [&] { e = t->map_cast_all(*map, *pc, got.p); }, anew);
      if (e != pc->error)
        violate("context-error", "castToType into %s returned %d but left error %d in the context", t->name(), int(e),
                int(pc->error));
    }
    std::string s = original.empty() ? show_model() : original;
    JS::ParseContext p2(s.data(), s.size());
    p2.tokenizer.allowSuperfluousComma(true);
    p2.tokenizer.allowComments(true);
    JS::Error e2 = t->parse(p2, ref.p);
    bool text_kept = !holds_raw(t) || (!original.empty() && is_strict(original));
    if (e != e2 || (e == JS::Error::NoError && text_kept && !same_value(t, ref.p, got.p)))
      violate("cast-all", "reading the map as %s gave error %d %s, parsing its text error %d %s; map: %s", t->name(),
              int(e), printable(ty::text(t, got.p), 600).c_str(), int(e2), printable(ty::text(t, ref.p), 600).c_str(),
              printable(s, 1200).c_str());
    probe(e == JS::Error::NoError ? "whole_read" : "whole_read_rejected");
  }
  // a raw object or token list out of the map
  void read_raw()
  {
    context();
    std::string n = pick_name();
    const Entry *en = lookup(n);
    if (!en || !unique(n))
      return;
    evs("readRaw", n);
    std::string got;
    JS::Error e;
    switch (c.below(4))
    {
    case 0: {
      JS::JsonTokens t;
      e = map->castToType(n, *pc, t);
      if (!t.data.empty())
        t.data.front().name = JS::DataRef("");
      got = JS::serializeStruct(t);
      break;
    }
    case 1: {
      JS::Map t;
      e = map->castToType(n, *pc, t);
      if (en->value->k != doc::K::Obj)
        return;
      got = JS::serializeStruct(t);
      break;
    }
    case 2: {
      JS::JsonObjectOrArray t;
      e = map->castToType(n, *pc, t);
      got = t.data;
      if (en->value->k != doc::K::Obj && en->value->k != doc::K::Arr)
      {
        if (e == JS::Error::NoError)
          violate("raw", "\"%s\" holds %s but was read as a raw object or array %s", printable(n).c_str(),
                  printable(rendered(*en->value), 300).c_str(), printable(got).c_str());
        return;
      }
      break;
    }
    default: {
      JS::JsonObjectOrArrayRef t;
      e = map->castToType(n, *pc, t);
      if (e == JS::Error::NoError)
        got.assign(t.ref.data, t.ref.size);
      if (en->value->k != doc::K::Obj && en->value->k != doc::K::Arr)
        return;
    }
    }
    if (e != JS::Error::NoError)
      violate("raw", "raw read of \"%s\" = %s failed with %d", printable(n).c_str(),
              printable(rendered(*en->value), 300).c_str(), int(e));
    compare_text(got, *en->value, "raw read");
    probe("raw_read");
  }
  void compare_text(const std::string &got, const doc::Node &want, const char *what)
  {
    doc::NodeP n;
    std::string why, t = got;
    // raw text still holds comments and superfluous commas
    {
      JS::SerializerOptions o(JS::SerializerOptions::Compact);
      std::string out;
      JS::Tokenizer tk;
      tk.allowSuperfluousComma(true);
      tk.allowComments(true);
      tk.addData(t.data(), t.size());
      JS::JsonTokens toks;
      JS::Token tok;
      while (tk.nextToken(tok) == JS::Error::NoError)
        toks.data.push_back(tok);
      if (!toks.data.empty() && (toks.data[0].value_type == JS::Type::ObjectStart || toks.data[0].value_type == JS::Type::ArrayStart))
        t = JS::serializeStruct(toks);
    }
    if (!doc::strict(t, n, why))
      violate("not-json", "%s gives text that is not JSON (%s): %s; expected %s; map: %s", what, why.c_str(),
              printable(got, 600).c_str(), printable(rendered(want), 600).c_str(), printable(show_model(), 600).c_str());
    if (!doc::same(*n, want))
      violate("content", "%s gives %s instead of %s; map: %s", what, printable(got, 600).c_str(),
              printable(rendered(want), 600).c_str(), printable(show_model(), 600).c_str());
  }
  void check_all(const char *when)
  {
    // the members, in order
    size_t i = 0, steps = 0;
    for (auto it = map->begin(); it != map->end(); ++it)
    {
      if (++steps > map->tokens.data.size() + 4)
        violate("iteration", "iterating the map %s does not end; map: %s", when, printable(show_model(), 900).c_str());
      if (i >= model.size())
        violate("iteration", "iterating the map %s yields a further member \"%s\" beyond the %zu it has; map: %s", when,
                printable(it->name.data, it->name.size).c_str(), model.size(), printable(show_model(), 900).c_str());
      check_token(*it, model[i], when);
      if (c.chance(1, 8))
      {
        // a copy goes its own way; one assigned goes on from where the other was
        JS::Map::It copy(it), other(map->begin());
        ++copy;
        other = it;
        ++other;
        if (copy != other || !(copy == other) || copy == it)
          violate("iteration", "copies of one iterator part ways %s; map: %s", when, printable(show_model(), 900).c_str());
        if ((other == map->end()) != (i + 1 == model.size()))
          violate("iteration", "an assigned iterator is %sat the end after %zu of %zu members %s; map: %s",
                  other == map->end() ? "" : "not ", i + 1, model.size(), when, printable(show_model(), 900).c_str());
        if (other != map->end())
          check_token(*other, model[i + 1], when);
      }
      i++;
    }
    if (i != model.size())
      violate("iteration", "iterating the map %s yields %zu of %zu members; map: %s", when, i, model.size(),
              printable(show_model(), 900).c_str());
    std::string out = JS::serializeStruct(*map, JS::SerializerOptions(c.coin() ? JS::SerializerOptions::Compact
                                                                               : JS::SerializerOptions::Pretty));
    doc::NodeP n;
    std::string why;
    if (!doc::strict(out, n, why))
      violate("not-json", "the map serialized %s is not JSON (%s): %s; expected %s", when, why.c_str(),
              printable(out, 900).c_str(), printable(show_model(), 900).c_str());
    doc::Node want;
    want.k = doc::K::Obj;
    for (auto &e : model)
    {
      doc::Member m;
      m.key = quoted(e.name);
      m.value = e.value;
      want.members.push_back(m);
    }
    if (!doc::same(*n, want))
      violate("content", "the map serialized %s is %s instead of %s", when, printable(out, 900).c_str(),
              printable(show_model(), 900).c_str());
  }
  void check_token(const JS::Token &t, const Entry &e, const char *when)
  {
    std::string name = decoded(std::string(t.name.data, t.name.size));
    if (name != e.name)
      violate("iteration", "iterating the map %s meets \"%s\" where \"%s\" is expected; map: %s", when,
              printable(name).c_str(), printable(e.name).c_str(), printable(show_model(), 900).c_str());
    doc::T ty;
    static const doc::T want[] = {doc::T::Null, doc::T::Bool, doc::T::Num, doc::T::Str, doc::T::Ascii, doc::T::Arr, doc::T::Obj};
    if (!map_type(t.value_type, ty) || ty != want[int(e.value->k)])
      violate("type", "member \"%s\" has token type %d %s, it holds %s; map: %s", printable(e.name).c_str(),
              int(t.value_type), when, printable(rendered(*e.value), 300).c_str(), printable(show_model(), 900).c_str());
    if (e.value->k != doc::K::Obj && e.value->k != doc::K::Arr)
    {
      std::string v(t.value.data, t.value.size);
      if (e.value->k == doc::K::Str ? decoded(v) != decoded(e.value->text) : v != e.value->text)
        violate("content", "member \"%s\" has value %s %s, expected %s; map: %s", printable(e.name).c_str(),
                printable(v, 300).c_str(), when, printable(e.value->text, 300).c_str(),
                printable(show_model(), 900).c_str());
    }
  }
  void find()
  {
    std::string n = pick_name();
    const Entry *en = lookup(n);
    evs("find", n);
    auto it = map->find(n);
    if (!en)
    {
      if (it != map->end())
        violate("absent", "find(\"%s\") found a member \"%s\" that does not exist; map: %s", printable(n).c_str(),
                printable(it->name.data, it->name.size).c_str(), printable(show_model(), 900).c_str());
      return;
    }
    if (it == map->end())
      violate("lost", "find(\"%s\") does not find the member; map: %s", printable(n).c_str(),
              printable(show_model(), 900).c_str());
    if (!unique(n))
      return;
    check_token(*it, *en, "found by name");
    if (en->type)
    {
      context();
      ty::Val got(en->type);
      JS::Error e = en->type->map_cast_it(*map, it, *pc, got.p);
      if (e != JS::Error::NoError || !same_value(en->type, en->val->p, got.p))
        violate("cast", "the iterator at \"%s\" = %s reads as %s (error %d)", printable(n).c_str(),
                printable(rendered(*en->value), 400).c_str(), printable(ty::text(en->type, got.p), 400).c_str(), int(e));
    }
  }
  void copy()
  {
    std::unique_ptr<JS::Map> m2(new JS::Map());
    switch (c.below(4))
    {
    case 0:
      ev("copy");
      lib(false, [&] { m2.reset(new JS::Map(*map)); });
      break;
    case 1: {
      ev("assign");
      JS::ParseContext p2;
      if (c.coin())
        m2->setValue("old", p2, std::string("something longer than fits into the string object itself"));
      lib(false, [&] { *m2 = *map; });
      break;
    }
    case 2:
      ev("move");
      m2.reset(new JS::Map(std::move(*map)));
      break;
    default: {
      ev("move-assign");
      JS::ParseContext p2;
      if (c.coin())
        m2->setValue("old", p2, 1);
      *m2 = std::move(*map);
    }
    }
    probe("copied");
    std::swap(map, m2);
    pc.reset(new JS::ParseContext());
    m2.reset(); // the one it was copied from goes away
    check_all("after copying");
  }
  void step()
  {
    switch (c.weighted({10, 4, 4, 2, 1, 2, 1, 2, 1}))
    {
    case 0:
      set();
      check_all("after a set");
      nontrivial();
      return;
    case 1:
      read();
      break;
    case 2:
      find();
      break;
    case 3:
      read_all();
      break;
    case 4:
      parse(c.chance(1, 3));
      return;
    case 5:
      read_raw();
      break;
    case 6:
      set_all();
      return;
    case 7:
      copy();
      return;
    default:
      read();
    }
    if (c.chance(1, 3))
      check_all("after a read");
  }
};
} // namespace sim
