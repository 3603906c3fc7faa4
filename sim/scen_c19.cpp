// C19: the layout of serialized text follows from style, shift size and depth alone.
#include "sink.hpp"
#include "typed.hpp"
using namespace sim;
const char *scenario_id() { return "C19"; }
void warmup() { typed_warmup(); }

struct Style
{
  bool pretty = true, delimiter = true, quote_ascii = true;
  unsigned shift = 2;
  int depth = 0;
};
// the options are set in any order; the last word on each counts
static JS::SerializerOptions gen_options(Src &c, Style &st, bool plain)
{
  st.pretty = c.chance(2, 3);
  st.shift = st.pretty ? 2 : 0;
  JS::SerializerOptions o = c.chance(1, 4) && st.pretty
                              ? JS::SerializerOptions()
                              : JS::SerializerOptions(st.pretty ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
  for (uint32_t n = c.below(4); n; n--)
    switch (c.below(plain ? 2 : 5))
    {
    case 0:
      st.shift = c.chance(1, 3) ? 2 : c.below(9);
      o.setShiftSize((unsigned char)st.shift);
      break;
    case 1:
      st.pretty = c.coin();
      o.setStyle(st.pretty ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
      break;
    case 2:
      st.delimiter = c.coin();
      o.skipDelimiter(!st.delimiter);
      break;
    case 3:
      st.quote_ascii = c.coin();
      o.setConvertAsciiToString(st.quote_ascii);
      break;
    default:
      st.depth = int(c.below(8));
      o.setDepth(st.depth);
    }
  return o;
}
// the reference: a line for everything in pretty style, nothing but the tokens in compact style
struct Layout
{
  Style st;
  std::string out;
  bool first = true, opened = true;
  int depth;
  explicit Layout(const Style &s)
    : st(s)
    , depth(s.depth)
  {
  }
  void token(bool named, const std::string &name, const std::string &value, bool open, bool close)
  {
    if (close)
      depth--;
    if (!opened && !close && st.delimiter)
      out += ',';
    if (st.pretty)
    {
      if (!first)
        out += '\n';
      out.append(size_t(depth) * st.shift, ' ');
    }
    if (named)
    {
      out += name;
      out += st.pretty ? ": " : ":";
    }
    out += value;
    first = false;
    opened = open;
    if (open)
      depth++;
  }
  std::string text(JS::Type t, const JS::DataRef &d) const
  {
    std::string s(d.data, d.size);
    if (t == JS::Type::String || (t == JS::Type::Ascii && st.quote_ascii))
      return "\"" + s + "\"";
    if (t == JS::Type::Null)
      return "null";
    return s;
  }
};
// the same for text without insignificant white space
static std::string arrange(const std::string &t, const Style &st)
{
  Layout l(st);
  std::string word, name;
  bool named = false;
  auto flush = [&] {
    if (word.size())
      l.token(named, name, word, false, false);
    word.clear();
    named = false;
  };
  for (size_t i = 0; i < t.size(); i++)
  {
    char ch = t[i];
    if (ch == '"')
    {
      word += ch;
      while (++i < t.size() && t[i] != '"')
      {
        word += t[i];
        if (t[i] == '\\' && i + 1 < t.size())
          word += t[++i];
      }
      word += '"';
    }
    else if (ch == ' ' || ch == '\n' || ch == '\r' || ch == '\t')
      ;
    else if (ch == ':')
    {
      name = word;
      named = true;
      word.clear();
    }
    else if (ch == ',')
      flush();
    else if (ch == '{' || ch == '[')
    {
      l.token(named, name, std::string(1, ch), true, false);
      named = false;
    }
    else if (ch == '}' || ch == ']')
    {
      flush();
      l.token(false, "", std::string(1, ch), false, true);
    }
    else
      word += ch;
  }
  flush();
  return l.out;
}
static void compare(const std::string &got, const std::string &want, const Style &st, const char *what)
{
  if (got == want)
    return;
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i])
    i++;
  violate("layout", "%s, %s, shift %u, depth %d: byte %zu: %s instead of %s", what, st.pretty ? "pretty" : "compact", st.shift,
          st.depth, i, printable(got.substr(i > 30 ? i - 30 : 0), 300).c_str(),
          printable(want.substr(i > 30 ? i - 30 : 0), 300).c_str());
}
static void typed(Src &c)
{
  const ty::AnyType *t = nullptr;
  do
    t = t ? ty::registry()[0] : pick_type(c);
  while (strstr(t->name(), "Raws") || strstr(t->name(), "Json")); // their text is kept as it is
  ev(t->name());
  ty::Val v(t);
  t->gen(c, v.p);
  Style st;
  JS::SerializerOptions o = gen_options(c, st, false);
  st.delimiter = st.quote_ascii = true;
  o.skipDelimiter(false);
  o.setConvertAsciiToString(true);
  std::string plain = t->serialize(v.p, JS::SerializerOptions(JS::SerializerOptions::Compact));
  evs("text", plain);
  for (size_t i = 0, in = 0; i < plain.size(); i++)
  {
    if (in && plain[i] == '\\')
      i++;
    else if (plain[i] == '"')
      in = !in;
    else if (!in && isspace((unsigned char)plain[i]))
      violate("layout", "%s: white space at byte %zu of compact text: %s", t->name(), i, printable(plain, 600).c_str());
  }
  std::string want = arrange(plain, st);
  compare(t->serialize(v.p, o), want, st, t->name());
  if (c.coin())
  {
    std::string out;
    JS::SerializerContext sc(out);
    sc.serializer.setOptions(o);
    t->context_serialize(v.p, sc);
    compare(out, want, st, "SerializerContext");
  }
  Sink sink(c);
  JS::Serializer s;
  s.setOptions(o);
  sink.attach(s, c.coin());
  JS::Token token;
  t->from(v.p, token, s);
  compare(sink.contents(), want, st, "in blocks");
}
static void tokens(Src &c)
{
  Style st;
  JS::SerializerOptions o = gen_options(c, st, false);
  Layout l(st);
  Sink sink(c);
  JS::Serializer s;
  s.setOptions(o);
  sink.attach(s, c.coin());
  // one or more documents, one after the other
  for (uint32_t docs = c.chance(1, 4) ? c.range(2, 3) : 1; docs; docs--)
  {
    doc::Syntax sy = doc::gen_syntax(c);
    doc::GenCfg g = doc::gen_cfg(c);
    if (c.chance(1, 12))
      g.max_depth = 60;
    doc::Writer w;
    w.c = &c;
    w.sy = sy;
    w.noise = c.below(3);
    doc::NodeP n = doc::gen_doc(c, g, sy);
    w.document(*n);
    evs("document", w.out);
    JS::Tokenizer t;
    set_syntax(t, sy);
    t.addData(w.out.data(), w.out.size());
    JS::Token token;
    std::vector<bool> in_object;
    while (t.nextToken(token) == JS::Error::NoError)
    {
      bool open = token.value_type == JS::Type::ObjectStart || token.value_type == JS::Type::ArrayStart;
      bool close = token.value_type == JS::Type::ObjectEnd || token.value_type == JS::Type::ArrayEnd;
      if (close && in_object.size())
        in_object.pop_back();
      bool named = !close && in_object.size() && in_object.back();
      l.token(named, l.text(token.name_type, token.name), l.text(token.value_type, token.value), open, close);
      if (open)
        in_object.push_back(token.value_type == JS::Type::ObjectStart);
      if (!s.write(token))
        violate("write-failed", "a write failed although there is space; document: %s", printable(w.out).c_str());
    }
  }
  std::string got = sink.contents();
  evs("output", got);
  compare(got, l.out, st, "tokens");
}
static void reformat(Src &c)
{
  doc::GenCfg g = doc::gen_cfg(c);
  doc::Writer w;
  w.c = &c;
  w.noise = c.below(4);
  doc::NodeP n = doc::gen_doc(c, g, doc::Syntax());
  w.document(*n);
  Style st;
  JS::SerializerOptions o = gen_options(c, st, true);
  evs("document", w.out);
  std::string out;
  JS::Error e = JS::reformat(w.out, out, o);
  if (e != JS::Error::NoError)
    violate("reformat-error", "reformat failed with %d; document: %s", int(e), printable(w.out).c_str());
  compare(out, arrange(w.out, st), st, "reformat");
  nontrivial();
}
void scenario(Src &c)
{
  switch (c.weighted({3, 4, 1}))
  {
  case 0:
    typed(c);
    break;
  case 1:
    tokens(c);
    break;
  default:
    reformat(c);
  }
}
#include "main.hpp"
