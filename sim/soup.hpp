// Arbitrary input: random bytes, token soup, damaged and ill-typed documents.
#pragma once
#include "calls.hpp"
#include "typed.hpp"
namespace sim
{
inline const std::vector<std::string> &fragments()
{
  static const std::vector<std::string> f = {
    "{",      "}",     "[",       "]",        ":",         ",",         "\"",      "\\",    "\"\"",     "\"a\"",
    "null",   "true",  "false",   "0",        "-1",        "1e5",       "1.5",     "-",     "1e",       "1e999",
    "nul",    "tru",   "n",       "t",        "f",         "//",        "/",       "/*",    "\n",       " ",
    "\r",     "\t",    "//x\n",   "\"\\",     "\"\\u",     "\"\\u12",   "\"\\ud800\"", "\"\\udc00\"", "\"\\ud83d\\ude00\"",
    "\xff",   "\xef\xbb\xbf",  "\xc3", "18446744073709551616", "-9223372036854775809", "1e-400", "0.0000001", "3000000000",
    "{}",     "[]",    "[[",      "]]",       "{\"a\":",   "\"x\":",    "\"x\":1", ",,",    "abc",      "a:b",
    "\"\\q\"", "\"\x01\"", "NaN", "Infinity", "+1",        "01",        "1.",      ".5",    "0x10",     "'a'",
    "\"2020-01-01T00:00:00\"", "\"one\"", "\"Two\"", "12345678901234567890123456789012345678901234567890", "1E+5", "-0"};
  return f;
}
// pieces of a text: strings, runs of plain characters, single punctuation
inline std::vector<std::string> pieces(const std::string &s)
{
  std::vector<std::string> v;
  for (size_t i = 0; i < s.size();)
  {
    size_t j = i + 1;
    if (s[i] == '"')
    {
      while (j < s.size() && s[j] != '"')
        j += s[j] == '\\' ? 2 : 1;
      j = std::min(j + 1, s.size());
    }
    else if (isalnum((unsigned char)s[i]) || strchr("+-._", s[i]))
      while (j < s.size() && (isalnum((unsigned char)s[j]) || (s[j] && strchr("+-._", s[j]))))
        j++;
    else if (s[i] == ' ' || s[i] == '\n')
      while (j < s.size() && (s[j] == ' ' || s[j] == '\n'))
        j++;
    v.push_back(s.substr(i, j - i));
    i = j;
  }
  return v;
}
// end of the value that starts at piece i
inline size_t value_end(const std::vector<std::string> &v, size_t i)
{
  size_t depth = 0;
  for (size_t k = i; k < v.size(); k++)
  {
    if (v[k] == "{" || v[k] == "[")
      depth++;
    else if (v[k] == "}" || v[k] == "]")
    {
      if (depth <= 1)
        return k + (depth ? 1 : 0);
      depth--;
    }
    if (!depth)
      return k + 1;
  }
  return v.size();
}
// grammar-level damage: values replaced by values of another kind, pieces lost, repeated or exchanged
inline void token_damage(Src &c, std::string &s)
{
  std::vector<std::string> v = pieces(s);
  uint32_t n = c.range(1, 3);
  for (uint32_t i = 0; i < n && !v.empty(); i++)
  {
    size_t p = c.below(uint32_t(v.size()));
    if (v[p][0] == ' ' || v[p][0] == '\n')
      p = (p + 1) % v.size();
    switch (c.weighted({4, 3, 2, 2, 2, 2, 3, 3}))
    {
    case 6: { // an array of the document gains elements
      size_t q = p;
      while (q < v.size() && v[q] != "[")
        q++;
      if (q + 1 >= v.size())
        break;
      size_t e = value_end(v, q + 1);
      std::string one;
      for (size_t k = q + 1; k < e; k++)
        one += v[k];
      if (one.empty() || v[q + 1] == "]" || one[0] == ' ' || one[0] == '\n')
        one = "1";
      std::string more;
      for (uint32_t k = c.range(1, 6); k; k--)
        more += one + (k > 1 || v[q + 1] != "]" ? "," : "");
      v.insert(v.begin() + ptrdiff_t(q + 1), more);
      fault("elements_added");
      break;
    }
    case 7: { // a value becomes a small number
      size_t q = p;
      while (q < v.size() && v[q] != ":")
        q++;
      if (q + 1 >= v.size())
        q = p;
      else
        q++;
      size_t e = value_end(v, q);
      v.erase(v.begin() + ptrdiff_t(q), v.begin() + ptrdiff_t(e));
      v.insert(v.begin() + ptrdiff_t(q), c.pick({"7", "8", "9", "-1", "2", "3", "255", "256", "-129", "65536"}));
      fault("value_small_number");
      break;
    }
    case 0: { // a value becomes another one
      size_t q = p;
      if (p + 1 < v.size() && v[p] == ":")
        q = p + 1;
      size_t e = value_end(v, q);
      v.erase(v.begin() + ptrdiff_t(q), v.begin() + ptrdiff_t(e));
      std::string r = c.pick({std::string("null"), std::string("true"), std::string("{}"), std::string("[]"),
                              std::string("0"), std::string("\"\""), std::string("{\"a\":[1,{}]}"),
                              std::string("[1,[2],{\"x\":3}]"), std::string("-1e300"), std::string("\"abc\""),
                              std::string("[null]"), std::string("[[]]"), std::string("\"\\\"\"")});
      v.insert(v.begin() + ptrdiff_t(q), r);
      fault("value_replaced");
      break;
    }
    case 1:
      v[p] = c.pick(fragments());
      fault("piece_replaced");
      break;
    case 2:
      v.erase(v.begin() + ptrdiff_t(p));
      fault("piece_lost");
      break;
    case 3:
      v.insert(v.begin() + ptrdiff_t(p), v[p]);
      fault("piece_repeated");
      break;
    case 4:
      std::swap(v[p], v[c.below(uint32_t(v.size()))]);
      fault("pieces_exchanged");
      break;
    default:
      v.insert(v.begin() + ptrdiff_t(p), c.pick(fragments()));
      fault("piece_inserted");
    }
  }
  s.clear();
  for (auto &x : v)
    s += x;
}
inline std::string typed_text(Src &c, const ty::AnyType *t, const doc::Syntax &sy)
{
  ty::TW tw;
  tw_options(c, tw, sy);
  tw.inject_unknown = c.coin();
  tw.omit = c.chance(1, 4);
  tw.repeat = c.chance(1, 4);
  ty::Val v(t), def(t);
  t->gen(c, v.p);
  t->write(tw, v.p, def.p);
  return tw.w.out;
}
inline std::string generic_text(Src &c, const doc::Syntax &sy, int force = -1)
{
  doc::GenCfg gc = doc::gen_cfg(c);
  doc::Writer w;
  w.c = &c;
  w.sy = sy;
  w.noise = c.below(4);
  w.document(*doc::gen_doc(c, gc, sy, force));
  return w.out;
}
inline std::string soup(Src &c, const ty::AnyType *t, const doc::Syntax &sy)
{
  std::string s;
  switch (c.weighted({6, 4, 3, 2, 2, 1, 1}))
  {
  case 0:
    s = typed_text(c, t, sy);
    if (c.chance(2, 3))
      token_damage(c, s);
    else
      doc::damage(c, s, true);
    break;
  case 1:
    s = generic_text(c, sy);
    if (c.coin())
      token_damage(c, s);
    else
      doc::damage(c, s, true);
    break;
  case 2: {
    uint32_t n = c.range(1, 24);
    if (c.coin())
      s = c.coin() ? "{" : "[";
    for (uint32_t i = 0; i < n; i++)
      s += c.pick(fragments());
    fault("token_soup");
    break;
  }
  case 3: {
    uint32_t n = c.range(0, 40);
    if (c.coin())
      s = c.coin() ? "{" : "[";
    for (uint32_t i = 0; i < n; i++)
      s += char(c.below(256));
    fault("random_bytes");
    break;
  }
  case 4:
    s = typed_text(c, pick_type(c), sy);
    fault("document_of_another_type");
    break;
  case 5: {
    uint32_t n = c.pick({3u, 30u, 200u, 260u, 700u});
    const char *open = c.pick({"[", "{\"a\":", "[{\"a\":", "{\"a\":[", "{"});
    for (uint32_t i = 0; i < n; i++)
      s += open;
    if (c.coin())
      s += "1";
    const char *close = c.pick({"]", "}", "}]", "]}"});
    for (uint32_t i = 0, k = c.pick({0u, n / 2, n, n + 1}); i < k; i++)
      s += close;
    fault("deep_nesting");
    break;
  }
  default: {
    fn::Script sc;
    fn::gen_script(c, sc, c.below(3));
    s = sc.text;
    token_damage(c, s);
  }
  }
  if (c.chance(1, 6) && !s.empty())
  {
    s.resize(c.below(uint32_t(s.size())));
    fault("input_truncated");
  }
  if (c.chance(1, 12))
  {
    s += c.pick(fragments());
    fault("trailing_bytes");
  }
  return s;
}
} // namespace sim
