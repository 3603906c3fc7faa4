// C14: raw capture and skipping are exact for every delivery.
#include "sink.hpp"
#include "soup.hpp"
#include "refs.hpp"
using namespace sim;
using doc::NodeP;
const char *scenario_id() { return "C14"; }
void warmup() { typed_warmup(); }

static bool opens(doc::T t) { return t == doc::T::Obj || t == doc::T::Arr; }
static bool closes(doc::T t) { return t == doc::T::ObjEnd || t == doc::T::ArrEnd; }
// index of the token that closes the container at i
static size_t close_of(const std::vector<doc::Tok> &t, size_t i)
{
  size_t depth = 0;
  for (size_t k = i; k < t.size(); k++)
  {
    if (opens(t[k].type))
      depth++;
    else if (closes(t[k].type) && --depth == 0)
      return k;
  }
  violate("oracle", "unbalanced model tokens");
}
static NodeP nest(Src &c, uint32_t n)
{
  NodeP cur = std::make_shared<doc::Node>();
  cur->k = doc::K::Num;
  cur->text = "1";
  bool arr = c.coin(), mixed = c.coin();
  for (uint32_t i = 0; i < n; i++)
  {
    NodeP o = std::make_shared<doc::Node>();
    if (arr != (mixed && i % 3 == 0))
    {
      o->k = doc::K::Arr;
      o->items.push_back(cur);
    }
    else
    {
      o->k = doc::K::Obj;
      doc::Member m;
      m.key = "a";
      m.value = cur;
      o->members.push_back(m);
    }
    cur = o;
  }
  return cur;
}
// the nodes of a deep document are taken apart without recursion
static void take_apart(NodeP n)
{
  std::vector<NodeP> all{n};
  n.reset();
  while (!all.empty())
  {
    NodeP x = all.back();
    all.pop_back();
    for (auto &i : x->items)
      all.push_back(i);
    for (auto &m : x->members)
      all.push_back(m.value);
    x->items.clear();
    x->members.clear();
  }
}
static void generate(Src &c, doc::Writer &w, int force = -1)
{
  w.c = &c;
  w.noise = c.below(4);
  doc::GenCfg g = doc::gen_cfg(c);
  if (c.chance(1, 20))
  {
    w.noise = 0;
    uint32_t n = c.pick({100u, 255u, 256u, 257u, 300u, 1000u});
    NodeP d = nest(c, n);
    if (force >= 0)
    {
      NodeP o = std::make_shared<doc::Node>();
      o->k = doc::K(force);
      if (o->k == doc::K::Obj)
      {
        doc::Member m;
        m.key = "n";
        m.value = d;
        o->members.push_back(m);
      }
      else
        o->items.push_back(d);
      d = o;
    }
    w.document(*d);
    probe("deep");
    take_apart(d);
    return;
  }
  w.document(*doc::gen_doc(c, g, w.sy, force));
}
// ---------------------------------------------------------------- tokenizer level
struct Cap
{
  std::unique_ptr<std::string> to;
  std::string before;
  size_t from, until; // token indices
};
struct Scope
{
  size_t until;
};
static void reader(Src &c)
{
  doc::Writer w;
  w.sy = doc::gen_syntax(c);
  uint32_t docs = 1 + c.weighted({4, 1});
  for (uint32_t i = 0; i < docs; i++)
    generate(c, w, c.coin() ? int(doc::K::Arr) : int(doc::K::Obj));
  const std::string &d = w.out;
  evs("document", d);
  Plan p = gen_plan(c, d, false);
  Pipe pipe(c, d, p);
  pipe.recycle = c.chance(1, 3);
  JS::Tokenizer t;
  set_syntax(t, w.sy);
  pipe.attach(t);
  JS::Token token;
  size_t n = 0, calls = 0;
  std::vector<Cap> caps;
  std::vector<Scope> scopes;
  uint32_t cap_den = c.pick({2u, 3u, 8u}), scope_den = c.pick({2u, 4u, 8u, 1000u}), skip_den = c.pick({2u, 4u, 12u});
  auto more = [&](JS::Error e) {
    if (e != JS::Error::NeedMoreData)
      violate("rejected", "error %d after %zu of %zu tokens; document: %s", int(e), n, w.toks.size(),
              printable(d, 1500).c_str());
    if (++calls > 100 + 60 * d.size())
      violate("no-progress", "reading did not finish");
    if (pipe.exhausted())
      return false;
    if (p.mode != Mode::Callback)
      pipe.feed();
    return true;
  };
  auto closed = [&]() { // token n-1 has been read: end what ends with it
    for (size_t i = caps.size(); i-- > 0;)
      if (caps[i].until == n - 1)
      {
        t.copyIncludingValue(token, *caps[i].to);
        std::string want = caps[i].before + d.substr(w.toks[caps[i].from].begin, w.toks[n - 1].end - w.toks[caps[i].from].begin);
        evs("captured", *caps[i].to);
        if (*caps[i].to != want)
          violate("capture", "captured %s instead of %s; document: %s", printable(*caps[i].to, 1500).c_str(),
                  printable(want, 1500).c_str(), printable(d, 1500).c_str());
        caps.erase(caps.begin() + ptrdiff_t(i));
        probe("captured");
      }
  };
  for (;;)
  {
    // a scope that is over says so until it is popped
    while (!scopes.empty() && scopes.back().until == n - 1)
    {
      JS::Token keep = token;
      if (c.coin())
      {
        JS::Error e = t.nextToken(token);
        if (e != JS::Error::ScopeHasEnded)
          violate("scope-end", "reading continued beyond the end of a scope (%d) at token %zu; document: %s", int(e), n,
                  printable(d, 1500).c_str());
      }
      if (c.coin() && t.goToEndOfScope(keep) != JS::Error::NoError)
        violate("scope-end", "goToEndOfScope at the end of the scope failed");
      t.popScope();
      scopes.pop_back();
      probe("scope_popped");
    }
    // a capture that ends inside the innermost scope has to be read to its end first
    bool open_inside = false;
    for (auto &k : caps)
      if (!scopes.empty() && k.until < scopes.back().until)
        open_inside = true;
    if (!scopes.empty() && !open_inside && c.chance(1, skip_den))
    {
      // skip what is left of the innermost scope
      size_t to = scopes.back().until;
      JS::Error e;
      for (;;)
      {
        e = t.goToEndOfScope(token);
        ev("goToEndOfScope", uint64_t(e));
        if (e == JS::Error::NoError)
          break;
        if (!more(e))
          violate("skip-lost", "the end of a skipped value was not found; document: %s", printable(d, 1500).c_str());
      }
      n = to + 1;
      check_token(snapshot(token), w.toks[to], to, d);
      closed();
      probe("skipped");
      continue;
    }
    JS::Error e = t.nextToken(token);
    ev("nextToken", uint64_t(e));
    if (e != JS::Error::NoError)
    {
      if (!more(e))
        break;
      continue;
    }
    if (n >= w.toks.size())
      violate("token-extra", "token %zu beyond the end; document: %s", n, printable(d, 1500).c_str());
    check_token(snapshot(token), w.toks[n], n, d);
    n++;
    if (opens(w.toks[n - 1].type))
    {
      size_t end = close_of(w.toks, n - 1);
      if (c.chance(1, cap_den) && caps.size() < 4)
      {
        Cap k;
        k.to.reset(new std::string(c.chance(1, 3) ? std::string(c.range(1, 30), 'p') : std::string()));
        k.before = *k.to;
        k.from = n - 1;
        k.until = end;
        t.copyFromValue(token, *k.to);
        caps.push_back(std::move(k));
        if (c.chance(1, 2))
        {
          t.pushScope(token.value_type);
          scopes.push_back({end});
        }
      }
      else if (c.chance(1, scope_den))
      {
        t.pushScope(token.value_type);
        scopes.push_back({end});
      }
    }
    else if (closes(w.toks[n - 1].type))
      closed();
  }
  if (n != w.toks.size())
    violate("token-count", "%zu tokens read, the document has %zu; document: %s", n, w.toks.size(),
            printable(d, 1500).c_str());
  if (!caps.empty() || !scopes.empty())
    violate("oracle", "open captures at the end");
}
// ---------------------------------------------------------------- very deep values, skipped and captured
static void abyss(Src &c)
{
  uint32_t n = c.pick({255u, 256u, 257u, 32767u, 32768u, 65535u, 65536u, 65537u, 70000u});
  std::string v;
  const char *o = c.pick({"[", "{\"a\":", "[{\"a\":"}), *e = o[0] == '{' ? "}" : o[1] ? "}]" : "]";
  if (o[0] == '[' && o[1])
    n = (n + 1) / 2;
  for (uint32_t i = 0; i < n; i++)
    v += o;
  v += "1";
  for (uint32_t i = 0; i < n; i++)
    v += e;
  std::string d = "{\"x\":" + v + ",\"y\":7}";
  ev("depth", n, v.size());
  Plan p;
  p.parts = cut(c, d.substr(0, 4096)); // cuts in the first part only
  if (p.parts.size() > 64)
    p.parts.resize(64);
  size_t at = p.parts.back().first + p.parts.back().second;
  while (at < d.size())
  {
    size_t k = std::min(d.size() - at, size_t(c.range(1, 65536)));
    p.parts.push_back({at, k});
    at += k;
  }
  p.mode = Mode::Callback;
  Pipe pipe(c, d, p);
  JS::Tokenizer t;
  pipe.attach(t);
  JS::Token token;
  JS::Error er = t.nextToken(token);
  if (er == JS::Error::NoError)
    er = t.nextToken(token);
  if (er != JS::Error::NoError)
    violate("rejected", "error %d", int(er));
  std::string raw;
  bool cap = c.coin();
  if (cap)
    t.copyFromValue(token, raw);
  t.pushScope(token.value_type);
  er = t.goToEndOfScope(token);
  if (er != JS::Error::NoError)
    violate("skip", "skipping a value of depth %u gave error %d", n, int(er));
  t.popScope();
  if (cap)
  {
    t.copyIncludingValue(token, raw);
    if (raw != v)
      violate("capture", "a value of depth %u and %zu bytes was captured as %zu bytes", n, v.size(), raw.size());
  }
  er = t.nextToken(token);
  if (er != JS::Error::NoError || std::string(token.name.data, token.name.size) != "y" ||
      std::string(token.value.data, token.value.size) != "7")
    violate("skip", "reading did not continue behind a value of depth %u (error %d)", n, int(er));
  probe("abyss");
}
// ---------------------------------------------------------------- raw members
struct RawBox
{
  int before = 0;
  JS::JsonObjectOrArray any;
  JS::JsonObject obj;
  JS::JsonArray arr;
  std::vector<JS::JsonObjectOrArray> list;
  std::map<std::string, JS::JsonObject> dict;
  std::unique_ptr<JS::JsonArray> ptr;
  std::string mid;
  int after = 0;
  JS_OBJ(before, any, obj, arr, list, dict, ptr, mid, after);
};
struct Piece
{
  std::string text;
  std::vector<doc::Tok> toks;
};
static Piece piece(Src &c, const doc::Syntax &sy, int force)
{
  doc::Writer w;
  w.sy = sy;
  generate(c, w, force);
  Piece p;
  p.text = w.out.substr(w.toks.front().begin, w.toks.back().end - w.toks.front().begin);
  p.toks = w.toks;
  for (auto &t : p.toks)
  {
    t.begin -= w.toks.front().begin;
    t.end -= w.toks.front().begin;
  }
  return p;
}
static int pick_kind(Src &c) { return c.coin() ? int(doc::K::Arr) : int(doc::K::Obj); }
static void eq_text(const std::string &got, const std::string &want, const char *what, const std::string &d)
{
  if (got != want)
    violate("capture", "%s holds %s instead of %s; document: %s", what, printable(got, 1200).c_str(),
            printable(want, 1200).c_str(), printable(d, 1500).c_str());
}
// the tokens a text has, by the library's own tokenizer on one buffer (C01 decides that one)
static void same_tokens(const std::string &text, const std::vector<doc::Tok> &want, const doc::Syntax &sy, const char *what)
{
  JS::Tokenizer t;
  set_syntax(t, sy);
  t.addData(text.data(), text.size());
  JS::Token token;
  for (size_t i = 0; i < want.size(); i++)
  {
    JS::Error e = t.nextToken(token);
    if (e != JS::Error::NoError)
      violate("equivalent", "%s: error %d at token %zu of %s", what, int(e), i, printable(text, 1500).c_str());
    doc::Tok w = want[i];
    if (i == 0)
    {
      w.name.clear();
      w.has_name = false;
    }
    check_token(snapshot(token), w, i, text);
  }
  if (t.nextToken(token) != JS::Error::NeedMoreData)
    violate("equivalent", "%s: tokens behind the end of %s", what, printable(text, 1500).c_str());
}
static std::string joiner(Src &c, const doc::Syntax &)
{
  return c.coin() ? "," : c.coin() ? " , " : ",\t";
}
static void members(Src &c)
{
  doc::Syntax sy = doc::gen_syntax(c);
  sy.newlines = false; // (pieces are joined by commas)
  Piece any = piece(c, sy, pick_kind(c)), obj = piece(c, sy, int(doc::K::Obj)), arr = piece(c, sy, int(doc::K::Arr)),
        ptr = piece(c, sy, int(doc::K::Arr));
  std::vector<Piece> list, dict;
  for (uint32_t i = 0, k = c.below(4); i < k; i++)
    list.push_back(piece(c, sy, pick_kind(c)));
  for (uint32_t i = 0, k = c.below(3); i < k; i++)
    dict.push_back(piece(c, sy, int(doc::K::Obj)));
  std::vector<std::string> m;
  m.push_back("\"before\":1");
  m.push_back("\"any\":" + any.text);
  m.push_back("\"obj\":" + obj.text);
  m.push_back("\"arr\" : " + arr.text);
  std::string l, dd;
  for (auto &x : list)
    l += (l.empty() ? "" : joiner(c, sy)) + x.text;
  for (size_t i = 0; i < dict.size(); i++)
    dd += (i ? "," : "") + ("\"k" + std::to_string(i) + "\":") + dict[i].text;
  m.push_back("\"list\":[" + l + "]");
  m.push_back("\"dict\":{" + dd + "}");
  m.push_back("\"ptr\":" + ptr.text);
  m.push_back("\"mid\":\"abc\"");
  m.push_back("\"after\":2");
  uint32_t extra = c.below(3);
  for (uint32_t i = 0; i < extra; i++)
    m.push_back("\"skipme" + std::to_string(i) + "\":" + piece(c, sy, pick_kind(c)).text);
  for (size_t i = m.size(); i > 1; i--)
    std::swap(m[i - 1], m[c.below(uint32_t(i))]);
  std::string d = "{";
  for (size_t i = 0; i < m.size(); i++)
    d += (i ? joiner(c, sy) : "") + m[i];
  d += "}";
  evs("document", d);
  Plan p = gen_plan(c, d, true);
  Pipe pipe(c, d, p);
  pipe.recycle = c.chance(1, 3);
  JS::ParseContext pc;
  set_syntax(pc.tokenizer, sy);
  pipe.attach(pc.tokenizer);
  if (p.mode != Mode::Upfront)
    pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
  RawBox b;
  if (c.chance(1, 3))
  {
    b.any.data = "{\"old\":1}";
    b.list.resize(2);
    b.arr.data = "[9]";
  }
  JS::Error e = pc.parseTo(b);
  if (e != JS::Error::NoError)
    violate("rejected", "error %d (%s); document: %s", int(e), pc.makeErrorString().c_str(), printable(d, 2500).c_str());
  eq_text(b.any.data, any.text, "any", d);
  eq_text(b.obj.data, obj.text, "obj", d);
  eq_text(b.arr.data, arr.text, "arr", d);
  if (!b.ptr)
    violate("capture", "ptr is empty; document: %s", printable(d, 2500).c_str());
  eq_text(b.ptr->data, ptr.text, "ptr", d);
  if (b.before != 1 || b.after != 2 || b.mid != "abc")
    violate("neighbour", "the members next to raw ones are %d %d %s; document: %s", b.before, b.after,
            printable(b.mid).c_str(), printable(d, 2500).c_str());
  if (b.list.size() != list.size() || b.dict.size() != dict.size())
    violate("capture", "%zu and %zu raw values instead of %zu and %zu; document: %s", b.list.size(), b.dict.size(),
            list.size(), dict.size(), printable(d, 2500).c_str());
  for (size_t i = 0; i < list.size(); i++)
    eq_text(b.list[i].data, list[i].text, "list item", d);
  for (size_t i = 0; i < dict.size(); i++)
    eq_text(b.dict["k" + std::to_string(i)].data, dict[i].text, "dict item", d);
  if (pc.missing_members.size() != extra)
    violate("neighbour", "%zu missing members instead of %u; document: %s", pc.missing_members.size(), extra,
            printable(d, 2500).c_str());
  // re-serializing gives a document with the same contents
  JS::SerializerOptions o(c.coin() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
  Sink sink(c);
  JS::Serializer ser;
  ser.setOptions(o);
  sink.attach(ser, true);
  JS::Token tok;
  JS::TypeHandler<RawBox>::from(b, tok, ser);
  std::string s = sink.contents();
  evs("written", s);
  RawBox b2;
  JS::ParseContext p2(s.data(), s.size());
  set_syntax(p2.tokenizer, sy);
  e = p2.parseTo(b2);
  if (e != JS::Error::NoError)
    violate("equivalent", "re-serialized raw members are rejected (%d): %s", int(e), printable(s, 2500).c_str());
  same_tokens(b2.any.data, any.toks, sy, "any");
  same_tokens(b2.obj.data, obj.toks, sy, "obj");
  same_tokens(b2.arr.data, arr.toks, sy, "arr");
  if (b2.list.size() != list.size() || b2.dict.size() != dict.size() || b2.after != 2 || b2.before != 1 || !b2.ptr)
    violate("equivalent", "re-serialized raw members differ: %s", printable(s, 2500).c_str());
  same_tokens(b2.ptr->data, ptr.toks, sy, "ptr");
  for (size_t i = 0; i < list.size(); i++)
    same_tokens(b2.list[i].data, list[i].toks, sy, "list item");
}
// ---------------------------------------------------------------- references and token lists (contiguous input)
static void tokens_are(const std::vector<JS::Token> &got, const std::vector<doc::Tok> &want, const char *name, const char *what,
                       const std::string &d, bool quoted = false)
{
  if (got.size() != want.size())
    violate("capture", "%s holds %zu tokens instead of %zu; document: %s", what, got.size(), want.size(),
            printable(d, 1500).c_str());
  for (size_t i = 0; i < got.size(); i++)
  {
    doc::Tok w = want[i];
    if (i == 0 && name)
    {
      w.name = name;
      w.has_name = true;
    }
    if (quoted) // the serializer writes unquoted words as strings
    {
      w.name_bare = false;
      if (w.type == doc::T::Ascii)
        w.type = doc::T::Str;
    }
    check_token(snapshot(got[i]), w, i, d);
  }
}
// ---------------------------------------------------------------- reading from a list of tokens
static void lists(Src &c)
{
  doc::Writer w;
  w.sy = doc::gen_syntax(c);
  w.sy.ascii = w.sy.newlines = false;
  generate(c, w, pick_kind(c));
  const std::string &d = w.out;
  evs("document", d);
  nontrivial();
  JS::JsonTokens list;
  {
    JS::ParseContext pc(d.data(), d.size());
    set_syntax(pc.tokenizer, w.sy);
    JS::Error e = pc.parseTo(list);
    if (e != JS::Error::NoError)
      violate("rejected", "reading tokens failed with error %d; document: %s", int(e), printable(d, 1500).c_str());
  }
  tokens_are(list.data, w.toks, nullptr, "JsonTokens", d);
  JS::Tokenizer t;
  size_t n = 0;
  if (c.coin())
    t.addData(&list.data);
  else
  {
    if (c.coin())
      t.addData(d.data(), d.size()); // replaced below
    JS::Token first;
    if (t.registeredBuffers() && c.coin())
    {
      set_syntax(t, w.sy);
      (void)t.nextToken(first);
      if (c.coin())
        t.pushScope(first.value_type);
    }
    n = c.below(uint32_t(w.toks.size()));
    t.resetData(&list.data, n);
  }
  JS::Token token;
  std::vector<Cap> caps;
  std::vector<Scope> scopes;
  uint32_t cap_den = c.pick({2u, 3u, 8u}), scope_den = c.pick({2u, 4u, 8u}), skip_den = c.pick({2u, 4u, 12u});
  auto closed = [&]() {
    for (size_t i = caps.size(); i-- > 0;)
      if (caps[i].until == n - 1)
      {
        t.copyIncludingValue(token, *caps[i].to);
        evs("captured", *caps[i].to);
        std::vector<doc::Tok> want(w.toks.begin() + ptrdiff_t(caps[i].from), w.toks.begin() + ptrdiff_t(n));
        want[0].has_name = false;
        want[0].name.clear();
        if (caps[i].to->compare(0, caps[i].before.size(), caps[i].before) != 0)
          violate("capture", "capturing changed what the target held");
        same_tokens(caps[i].to->substr(caps[i].before.size()), want, doc::Syntax(), "value captured from a list of tokens");
        caps.erase(caps.begin() + ptrdiff_t(i));
        probe("captured_from_list");
      }
  };
  for (;;)
  {
    while (!scopes.empty() && scopes.back().until == n - 1)
    {
      JS::Token keep = token;
      if (c.coin() && t.nextToken(keep) != JS::Error::ScopeHasEnded)
        violate("scope-end", "reading a list continued beyond the end of a scope; document: %s", printable(d, 1500).c_str());
      t.popScope();
      scopes.pop_back();
    }
    bool open_inside = false;
    for (auto &k : caps)
      if (!scopes.empty() && k.until < scopes.back().until)
        open_inside = true;
    if (!scopes.empty() && !open_inside && c.chance(1, skip_den))
    {
      size_t to = scopes.back().until;
      JS::Error e = t.goToEndOfScope(token);
      ev("goToEndOfScope", uint64_t(e));
      if (e != JS::Error::NoError)
        violate("skip-lost", "the end of a value skipped in a list of tokens was not found (%d); document: %s", int(e),
                printable(d, 1500).c_str());
      n = to + 1;
      check_token(snapshot(token), w.toks[to], to, d);
      closed();
      probe("skipped_in_list");
      continue;
    }
    JS::Error e = t.nextToken(token);
    ev("nextToken", uint64_t(e));
    if (n == w.toks.size())
    {
      if (e != JS::Error::NeedMoreData)
        violate("list-end", "error %d at the end of a list of tokens; document: %s", int(e), printable(d, 1500).c_str());
      break;
    }
    if (e != JS::Error::NoError)
      violate("rejected", "error %d after %zu of %zu tokens of a list; document: %s", int(e), n, w.toks.size(),
              printable(d, 1500).c_str());
    check_token(snapshot(token), w.toks[n], n, d);
    n++;
    if (opens(w.toks[n - 1].type))
    {
      size_t end = close_of(w.toks, n - 1);
      if (c.chance(1, cap_den) && caps.size() < 4)
      {
        Cap k;
        k.to.reset(new std::string(c.chance(1, 3) ? std::string(c.range(1, 30), 'p') : std::string()));
        k.before = *k.to;
        k.from = n - 1;
        k.until = end;
        t.copyFromValue(token, *k.to);
        caps.push_back(std::move(k));
      }
      if (c.chance(1, scope_den))
      {
        t.pushScope(token.value_type);
        scopes.push_back({end});
      }
    }
    else if (closes(w.toks[n - 1].type))
      closed();
  }
  if (!caps.empty() || !scopes.empty())
    violate("oracle", "open captures at the end");
}
static void references(Src &c)
{
  doc::Syntax sy = doc::gen_syntax(c);
  sy.newlines = false;
  Piece o = piece(c, sy, int(doc::K::Obj)), a = piece(c, sy, int(doc::K::Arr)), oa = piece(c, sy, pick_kind(c)),
        t = piece(c, sy, pick_kind(c)), vt = piece(c, sy, pick_kind(c)), m = piece(c, sy, int(doc::K::Obj));
  std::vector<Piece> vo, mt;
  for (uint32_t i = 0, k = c.below(4); i < k; i++)
    vo.push_back(piece(c, sy, int(doc::K::Obj)));
  for (uint32_t i = 0, k = c.below(3); i < k; i++)
    mt.push_back(piece(c, sy, pick_kind(c)));
  std::string l, dd;
  for (auto &x : vo)
    l += (l.empty() ? "" : joiner(c, sy)) + x.text;
  for (size_t i = 0; i < mt.size(); i++)
    dd += (i ? "," : "") + ("\"k" + std::to_string(i) + "\":") + mt[i].text;
  bool scalar = c.chance(1, 4);
  std::vector<std::string> parts = {"\"o\":" + o.text,  "\"a\":" + a.text,   "\"oa\":" + oa.text, "\"t\": " + t.text,
                                    std::string("\"vt\":") + (scalar ? "\"s\"" : vt.text), "\"m\":" + m.text, "\"vo\":[" + l + "]", "\"mt\":{" + dd + "}",
                                    "\"last\":3"};
  for (size_t i = parts.size(); i > 1; i--)
    std::swap(parts[i - 1], parts[c.below(uint32_t(i))]);
  std::string d = "{";
  for (size_t i = 0; i < parts.size(); i++)
    d += (i ? joiner(c, sy) : "") + parts[i];
  d += "}";
  evs("document", d);
  nontrivial();
  JS::ParseContext pc(d.data(), d.size());
  set_syntax(pc.tokenizer, sy);
  refs::Refs r;
  JS::Error e = pc.parseTo(r);
  if (e != JS::Error::NoError)
    violate("rejected", "error %d (%s); document: %s", int(e), pc.makeErrorString().c_str(), printable(d, 2500).c_str());
  auto str = [](const JS::DataRef &x) { return std::string(x.data, x.size); };
  eq_text(str(r.o.ref), o.text, "JsonObjectRef", d);
  eq_text(str(r.a.ref), a.text, "JsonArrayRef", d);
  eq_text(str(r.oa.ref), oa.text, "JsonObjectOrArrayRef", d);
  tokens_are(r.t.data, t.toks, "t", "JsonTokens", d);
  if (!scalar)
    tokens_are(r.vt, vt.toks, "vt", "vector<Token>", d);
  else if (r.vt.size() != 1 || str(r.vt[0].value) != "s")
    violate("capture", "a scalar gave %zu tokens; document: %s", r.vt.size(), printable(d, 1500).c_str());
  if (r.vo.size() != vo.size() || r.mt.size() != mt.size() || r.last != 3)
    violate("neighbour", "members next to references are wrong; document: %s", printable(d, 2500).c_str());
  for (size_t i = 0; i < vo.size(); i++)
    eq_text(str(r.vo[i].ref), vo[i].text, "JsonObjectRef item", d);
  for (size_t i = 0; i < mt.size(); i++)
    tokens_are(r.mt["k" + std::to_string(i)].data, mt[i].toks, ("k" + std::to_string(i)).c_str(), "JsonTokens item", d);
  // token lists write back an equivalent document
  std::string s = JS::serializeStruct(r.t, JS::SerializerOptions(c.coin() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty));
  (void)s;
  std::string all = JS::serializeStruct(r);
  evs("written", all);
  refs::Refs r2;
  JS::ParseContext p2(all.data(), all.size());
  set_syntax(p2.tokenizer, sy);
  e = p2.parseTo(r2);
  if (e != JS::Error::NoError)
    violate("equivalent", "re-serialized references are rejected (%d): %s", int(e), printable(all, 2500).c_str());
  same_tokens(str(r2.o.ref), o.toks, sy, "o");
  same_tokens(str(r2.a.ref), a.toks, sy, "a");
  same_tokens(str(r2.oa.ref), oa.toks, sy, "oa");
  tokens_are(r2.t.data, t.toks, "t", "re-serialized JsonTokens", all, true);
  if (!scalar)
    tokens_are(r2.vt, vt.toks, "vt", "re-serialized vector<Token>", all, true);
  for (size_t i = 0; i < mt.size() && i < r2.mt.size(); i++)
    tokens_are(r2.mt["k" + std::to_string(i)].data, mt[i].toks, ("k" + std::to_string(i)).c_str(), "re-serialized item", all, true);
  if (r2.last != 3)
    violate("equivalent", "re-serialized neighbour differs: %s", printable(all, 2500).c_str());
}
// ---------------------------------------------------------------- skipping in typed parses
struct Sparse
{
  int a = 0;
  std::string b;
  struct In
  {
    int q = 0;
    JS_OBJ(q);
  } in;
  std::vector<In> v;
  int z = 0;
  JS_OBJ(a, b, in, v, z);
};
static void skipping(Src &c)
{
  doc::Syntax sy = doc::gen_syntax(c);
  sy.newlines = false;
  uint32_t extra = 0;
  auto junk = [&](std::string &d, uint32_t den) {
    if (!c.chance(1, den))
      return;
    d += "\"u" + std::to_string(extra++) + "\":";
    if (c.chance(1, 5))
      d += c.pick({"1", "\"}\"", "null", "\"\\\"{\"", "-1e3", "true", "\"\""});
    else
      d += piece(c, sy, pick_kind(c)).text;
    d += joiner(c, sy);
  };
  std::string d = "{";
  junk(d, 2);
  d += "\"a\":11,";
  junk(d, 2);
  d += "\"b\":\"bee\",";
  junk(d, 3);
  d += "\"in\":{";
  junk(d, 2);
  d += "\"q\":5},";
  junk(d, 3);
  d += "\"v\":[";
  uint32_t n = c.below(3);
  for (uint32_t i = 0; i < n; i++)
  {
    d += i ? ",{" : "{";
    junk(d, 2);
    d += "\"q\":" + std::to_string(i) + "}";
  }
  d += "],";
  junk(d, 2);
  d += "\"z\":12";
  if (c.coin())
  {
    d += ",\"u" + std::to_string(extra++) + "\":" + piece(c, sy, pick_kind(c)).text;
  }
  d += "}";
  evs("document", d);
  Plan p = gen_plan(c, d, true);
  Pipe pipe(c, d, p);
  JS::ParseContext pc;
  set_syntax(pc.tokenizer, sy);
  pipe.attach(pc.tokenizer);
  if (p.mode != Mode::Upfront)
    pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
  Sparse s;
  JS::Error e = pc.parseTo(s);
  bool ok = e == JS::Error::NoError && s.a == 11 && s.b == "bee" && s.in.q == 5 && s.v.size() == n && s.z == 12;
  for (uint32_t i = 0; ok && i < n; i++)
    ok = s.v[i].q == int(i);
  if (!ok)
    violate("skip", "skipping undeclared members: error %d, a=%d b=%s q=%d v=%zu z=%d; document: %s", int(e), s.a,
            printable(s.b).c_str(), s.in.q, s.v.size(), s.z, printable(d, 3000).c_str());
  if (pc.missing_members.size() != extra)
    violate("skip", "%zu undeclared members reported instead of %u; document: %s", pc.missing_members.size(), extra,
            printable(d, 3000).c_str());
}
void scenario(Src &c)
{
  switch (c.weighted({300, 250, 150, 150, 1, 100}))
  {
  case 0:
    reader(c);
    break;
  case 1:
    members(c);
    break;
  case 2:
    references(c);
    break;
  case 3:
    skipping(c);
    break;
  case 5:
    lists(c);
    break;
  default:
    abyss(c);
  }
}
#include "main.hpp"
