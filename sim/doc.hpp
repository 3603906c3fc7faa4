// Document model: generator of well-formed documents in the accepted syntax together with the
// tokens they must yield, an independent strict JSON parser, and a damage (fault) model.
#pragma once
#include "core.hpp"
#include <memory>

namespace doc
{
using sim::Src;

enum class K : uint8_t
{
  Null,
  Bool,
  Num,
  Str,
  Ascii,
  Arr,
  Obj
};
struct Node;
struct Member
{
  std::string key; // raw text between the quotes, or the bare word
  bool bare = false;
  std::shared_ptr<Node> value;
};
struct Node
{
  K k = K::Null;
  std::string text; // Bool/Num/Ascii: literal text; Str: raw text between the quotes
  std::vector<std::shared_ptr<Node>> items;
  std::vector<Member> members;
};
using NodeP = std::shared_ptr<Node>;

struct Syntax
{
  bool ascii = false;      // unquoted names and values
  bool newlines = false;   // newline as delimiter
  bool superfluous = false; // trailing commas
  bool comments = false;
};

// expected token
enum class T : uint8_t
{
  Str,
  Ascii,
  Num,
  Obj,
  ObjEnd,
  Arr,
  ArrEnd,
  Bool,
  Null
};
struct Tok
{
  std::string name;
  bool has_name = false;
  bool name_bare = false;
  std::string value;
  T type = T::Null;
  size_t begin = 0, end = 0; // byte range of the value in the document (containers: of the bracket)
  bool operator==(const Tok &o) const
  {
    return name == o.name && has_name == o.has_name && name_bare == o.name_bare && value == o.value && type == o.type;
  }
};
inline const char *tname(T t)
{
  static const char *n[] = {"Str", "Ascii", "Num", "Obj", "ObjEnd", "Arr", "ArrEnd", "Bool", "Null"};
  return n[int(t)];
}

struct GenCfg
{
  uint32_t max_nodes = 12;
  uint32_t max_depth = 5;
  uint32_t str_class = 0; // how long strings get
  bool utf8 = true;
  bool raw_control = false; // raw tab/newline inside strings
  bool bad_escapes = false; // any character after a backslash
};
inline GenCfg gen_cfg(Src &c)
{
  GenCfg g;
  switch (c.weighted({6, 3, 1}))
  {
  case 0:
    g.max_nodes = c.range(1, 8);
    break;
  case 1:
    g.max_nodes = c.range(4, 30);
    break;
  default:
    g.max_nodes = c.range(20, 120);
  }
  g.max_depth = c.weighted({4, 3, 1}) == 0 ? 2 : c.range(2, 9);
  g.str_class = c.weighted({3, 3, 1});
  return g;
}

inline uint32_t gen_len(Src &c, uint32_t cls)
{
  switch (c.weighted({4, cls >= 1 ? 4u : 1u, cls >= 2 ? 2u : 0u}))
  {
  case 0:
    return c.below(8);
  case 1:
    return c.range(11, 19) + (c.coin() ? 16 * c.below(4) : 0);
  default:
    return c.range(60, 300);
  }
}
// raw (escaped) text of a string
inline std::string gen_raw_string(Src &c, const GenCfg &g)
{
  uint32_t n = gen_len(c, g.str_class);
  uint32_t style = c.weighted({4, 3, 2, 1});
  std::string s;
  while (s.size() < n)
  {
    uint32_t r = style == 0 ? 0 : style == 1 ? c.weighted({6, 3, 1, 1}) : style == 2 ? c.weighted({1, 6, 1, 0}) : c.weighted({2, 1, 2, 5});
    switch (r)
    {
    case 0:
      s += char('a' + c.below(26));
      break;
    case 1: {
      uint32_t e = c.below(10);
      static const char *esc[] = {"\\\\", "\\\"", "\\n", "\\t", "\\/", "\\b", "\\f", "\\r", "\\u0041", "\\u00e9"};
      s += esc[e];
      break;
    }
    case 2:
      if (g.utf8)
      {
        static const char *u[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x7f"};
        s += u[c.below(4)];
      }
      else
        s += 'z';
      break;
    default: {
      static const char st[] = "{}[]:,/'#-0.e ";
      s += st[c.below(sizeof(st) - 1)];
      if (g.raw_control && c.chance(1, 6))
        s += c.coin() ? '\n' : '\t';
    }
    }
  }
  return s;
}
inline std::string gen_bare(Src &c)
{
  static const char first[] = "abcxyzABCXYZtfn";
  static const char rest[] = "abcdefXYZ0123456789_truefalsn";
  if (c.chance(1, 8))
  {
    // nearly a literal
    std::string s = c.pick({std::string("true"), std::string("false"), std::string("null")});
    char &x = s[c.below(uint32_t(s.size()))];
    switch (c.below(4))
    {
    case 0:
      x = char(x - 'a' + 'A');
      break;
    case 1:
      x = x == 'q' ? 'e' : 'q';
      break;
    case 2:
      s.pop_back();
      break;
    default:
      s += c.pick({'e', 'l', '0', '_', 'E'});
    }
    return s;
  }
  for (;;)
  {
    std::string s(1, first[c.below(sizeof(first) - 1)]);
    uint32_t n = c.weighted({3, 1}) == 0 ? c.below(6) : c.range(10, 40);
    for (uint32_t i = 0; i < n; i++)
      s += rest[c.below(sizeof(rest) - 1)];
    if (s != "true" && s != "false" && s != "null")
      return s;
  }
}
inline std::string gen_number(Src &c)
{
  std::string s;
  if (c.chance(1, 3))
    s += '-';
  uint32_t digits = c.weighted({5, 2, 1}) == 0 ? c.range(1, 4) : c.range(1, 24);
  for (uint32_t i = 0; i < digits; i++)
    s += char('0' + (i == 0 && digits > 1 ? 1 + c.below(9) : c.below(10)));
  if (c.chance(1, 3))
  {
    s += '.';
    uint32_t f = c.range(1, c.coin() ? 3 : 20);
    for (uint32_t i = 0; i < f; i++)
      s += char('0' + c.below(10));
  }
  if (c.chance(1, 4))
  {
    s += c.coin() ? 'e' : 'E';
    uint32_t sg = c.below(3);
    if (sg)
      s += sg == 1 ? '+' : '-';
    s += char('1' + c.below(9));
    if (c.coin())
      s += char('0' + c.below(10));
  }
  return s;
}
inline NodeP gen_node(Src &c, const GenCfg &g, const Syntax &sy, uint32_t depth, uint32_t &budget, int force = -1)
{
  NodeP n = std::make_shared<Node>();
  if (budget)
    budget--;
  uint32_t k = force >= 0 ? uint32_t(force) : 0;
  if (force < 0)
  {
    bool can_nest = depth < g.max_depth && budget > 0;
    switch (c.weighted({3, 3, 1, 1, sy.ascii ? 2u : 0u, can_nest ? 3u : 0u, can_nest ? 3u : 0u}))
    {
    case 0:
      k = uint32_t(K::Num);
      break;
    case 1:
      k = uint32_t(K::Str);
      break;
    case 2:
      k = uint32_t(K::Bool);
      break;
    case 3:
      k = uint32_t(K::Null);
      break;
    case 4:
      k = uint32_t(K::Ascii);
      break;
    case 5:
      k = uint32_t(K::Arr);
      break;
    default:
      k = uint32_t(K::Obj);
    }
  }
  n->k = K(k);
  switch (n->k)
  {
  case K::Num:
    n->text = gen_number(c);
    break;
  case K::Str:
    n->text = gen_raw_string(c, g);
    break;
  case K::Bool:
    n->text = c.coin() ? "true" : "false";
    break;
  case K::Null:
    n->text = "null";
    break;
  case K::Ascii:
    n->text = gen_bare(c);
    break;
  case K::Arr: {
    uint32_t cnt = c.weighted({2, 5, 2}) == 0 ? 0 : c.range(1, 6);
    for (uint32_t i = 0; i < cnt && budget; i++)
      n->items.push_back(gen_node(c, g, sy, depth + 1, budget));
    break;
  }
  case K::Obj: {
    uint32_t cnt = c.weighted({2, 5, 2}) == 0 ? 0 : c.range(1, 6);
    for (uint32_t i = 0; i < cnt && budget; i++)
    {
      Member m;
      m.bare = sy.ascii && c.coin();
      m.key = m.bare ? gen_bare(c) : gen_raw_string(c, g);
      m.value = gen_node(c, g, sy, depth + 1, budget);
      n->members.push_back(m);
    }
    break;
  }
  }
  return n;
}
// a whole document: object or array
inline NodeP gen_doc(Src &c, const GenCfg &g, const Syntax &sy, int force = -1)
{
  uint32_t budget = g.max_nodes;
  if (force < 0)
    force = c.coin() ? int(K::Arr) : int(K::Obj);
  return gen_node(c, g, sy, 1, budget, force);
}

struct Writer
{
  Src *c;
  Syntax sy;
  uint32_t noise = 0; // 0 none, 1 some, 2 a lot
  std::string out;
  std::vector<Tok> toks;
  uint32_t comments_written = 0;

  // newline_ok: a raw newline (or a comment, which ends in one) may stand here without being a delimiter
  void ws(bool newline_ok)
  {
    if (!noise)
      return;
    if (!c->chance(noise, 4))
      return;
    uint32_t n = c->weighted({6, 2, 1}) == 0 ? c->range(1, 3) : c->range(1, 40);
    bool nl = newline_ok || !sy.newlines;
    for (uint32_t i = 0; i < n; i++)
    {
      uint32_t w = c->weighted({4, 1, nl ? 2u : 0u, 1});
      out += w == 0 ? ' ' : w == 1 ? '\t' : w == 2 ? '\n' : '\r';
    }
    if (sy.comments && nl && c->chance(1, 3))
      comment();
  }
  void comment()
  {
    out += "//";
    uint32_t n = c->weighted({3, 1}) == 0 ? c->below(8) : c->below(60);
    static const char a[] = "comment /\"{}[],:\\'x ";
    for (uint32_t i = 0; i < n; i++)
      out += a[c->below(sizeof(a) - 1)];
    out += '\n';
    comments_written++;
  }
  void scalar(const Node &n, Tok &t)
  {
    t.begin = out.size();
    switch (n.k)
    {
    case K::Str:
      out += '"';
      out += n.text;
      out += '"';
      t.type = T::Str;
      break;
    case K::Num:
      out += n.text;
      t.type = T::Num;
      break;
    case K::Bool:
      out += n.text;
      t.type = T::Bool;
      break;
    case K::Null:
      out += n.text;
      t.type = T::Null;
      break;
    default:
      out += n.text;
      t.type = T::Ascii;
    }
    t.end = out.size();
    t.value = n.text;
    toks.push_back(t);
  }
  void value(const Node &n, Tok t)
  {
    if (n.k != K::Arr && n.k != K::Obj)
    {
      scalar(n, t);
      return;
    }
    bool arr = n.k == K::Arr;
    t.begin = out.size();
    t.end = t.begin + 1;
    t.type = arr ? T::Arr : T::Obj;
    t.value = arr ? "[" : "{";
    toks.push_back(t);
    out += t.value;
    size_t cnt = arr ? n.items.size() : n.members.size();
    for (size_t i = 0; i < cnt; i++)
    {
      ws(true);
      if (arr)
        value(*n.items[i], Tok());
      else
      {
        const Member &m = n.members[i];
        Tok mt;
        mt.has_name = true;
        mt.name = m.key;
        mt.name_bare = m.bare;
        if (m.bare)
          out += m.key;
        else
        {
          out += '"';
          out += m.key;
          out += '"';
        }
        ws(false);
        out += ':';
        ws(true);
        value(*m.value, mt);
      }
      bool last = i + 1 == cnt;
      if (!last)
      {
        ws(false);
        if (sy.newlines && c->coin())
          out += '\n';
        else
          out += ',';
      }
      else if (sy.superfluous && c->chance(1, 3))
      {
        ws(false);
        out += ',';
      }
      else if (sy.newlines && c->chance(1, 3))
        out += '\n';
    }
    ws(cnt == 0 || !sy.newlines || out.back() == ',' || out.back() == '\n');
    Tok e;
    e.begin = out.size();
    e.end = e.begin + 1;
    e.type = arr ? T::ArrEnd : T::ObjEnd;
    e.value = arr ? "]" : "}";
    toks.push_back(e);
    out += e.value;
  }
  void document(const Node &n)
  {
    ws(true);
    value(n, Tok());
    ws(true);
  }
};
inline Syntax gen_syntax(Src &c)
{
  Syntax s;
  if (c.chance(1, 2))
  {
    s.ascii = c.coin();
    s.newlines = c.chance(1, 3);
    s.superfluous = c.chance(1, 3);
    s.comments = c.coin();
  }
  return s;
}

// ---------------------------------------------------------------- strings: independent escape/unescape (RFC 8259)
inline void put_utf8(std::string &o, uint32_t cp)
{
  if (cp < 0x80)
    o += char(cp);
  else if (cp < 0x800)
  {
    o += char(0xc0 | (cp >> 6));
    o += char(0x80 | (cp & 0x3f));
  }
  else if (cp < 0x10000)
  {
    o += char(0xe0 | (cp >> 12));
    o += char(0x80 | ((cp >> 6) & 0x3f));
    o += char(0x80 | (cp & 0x3f));
  }
  else
  {
    o += char(0xf0 | (cp >> 18));
    o += char(0x80 | ((cp >> 12) & 0x3f));
    o += char(0x80 | ((cp >> 6) & 0x3f));
    o += char(0x80 | (cp & 0x3f));
  }
}
inline int hexv(char ch)
{
  if (ch >= '0' && ch <= '9')
    return ch - '0';
  if (ch >= 'a' && ch <= 'f')
    return ch - 'a' + 10;
  if (ch >= 'A' && ch <= 'F')
    return ch - 'A' + 10;
  return -1;
}
// returns false when not a valid JSON string body
inline bool unescape(const std::string &raw, std::string &o)
{
  o.clear();
  for (size_t i = 0; i < raw.size(); i++)
  {
    unsigned char ch = (unsigned char)raw[i];
    if (ch < 0x20 || ch == '"')
      return false;
    if (ch != '\\')
    {
      o += char(ch);
      continue;
    }
    if (++i >= raw.size())
      return false;
    switch (raw[i])
    {
    case '"':
      o += '"';
      break;
    case '\\':
      o += '\\';
      break;
    case '/':
      o += '/';
      break;
    case 'b':
      o += '\b';
      break;
    case 'f':
      o += '\f';
      break;
    case 'n':
      o += '\n';
      break;
    case 'r':
      o += '\r';
      break;
    case 't':
      o += '\t';
      break;
    case 'u': {
      auto get = [&](size_t at, uint32_t &v) {
        if (at + 4 > raw.size())
          return false;
        v = 0;
        for (size_t k = 0; k < 4; k++)
        {
          int h = hexv(raw[at + k]);
          if (h < 0)
            return false;
          v = v * 16 + uint32_t(h);
        }
        return true;
      };
      uint32_t cp;
      if (!get(i + 1, cp))
        return false;
      i += 4;
      if (cp >= 0xd800 && cp < 0xdc00)
      {
        uint32_t lo;
        if (i + 2 < raw.size() && raw[i + 1] == '\\' && raw[i + 2] == 'u' && get(i + 3, lo) && lo >= 0xdc00 &&
            lo < 0xe000)
        {
          cp = 0x10000 + ((cp - 0xd800) << 10) + (lo - 0xdc00);
          i += 6;
        }
        else
          return false;
      }
      else if (cp >= 0xdc00 && cp < 0xe000)
        return false;
      put_utf8(o, cp);
      break;
    }
    default:
      return false;
    }
  }
  return true;
}
// one of the many legal ways to write a decoded (UTF-8) string
inline std::string escape_variant(Src &c, const std::string &s, bool plain)
{
  std::string o;
  for (size_t i = 0; i < s.size(); i++)
  {
    unsigned char ch = (unsigned char)s[i];
    char b[16];
    if (ch == '"' || ch == '\\')
    {
      if (!plain && c.chance(1, 6))
      {
        snprintf(b, sizeof b, "\\u%04x", ch);
        o += b;
      }
      else
      {
        o += '\\';
        o += char(ch);
      }
    }
    else if (ch < 0x20)
    {
      const char *sh = ch == '\n' ? "\\n" : ch == '\t' ? "\\t" : ch == '\r' ? "\\r" : ch == '\b' ? "\\b" : ch == '\f' ? "\\f" : nullptr;
      if (sh && (plain || !c.chance(1, 6)))
        o += sh;
      else
      {
        snprintf(b, sizeof b, !plain && c.coin() ? "\\u%04X" : "\\u%04x", ch);
        o += b;
      }
    }
    else if (ch < 0x80)
    {
      if (ch == '/' && !plain && c.coin())
        o += "\\/";
      else if (!plain && c.chance(1, 24))
      {
        snprintf(b, sizeof b, "\\u%04x", ch);
        o += b;
      }
      else
        o += char(ch);
    }
    else if (plain)
      o += char(ch);
    else
    {
      // multi-byte sequence
      uint32_t cp, n;
      if (ch >= 0xf0)
        cp = ch & 7, n = 4;
      else if (ch >= 0xe0)
        cp = ch & 15, n = 3;
      else
        cp = ch & 31, n = 2;
      for (uint32_t k = 1; k < n; k++)
        cp = (cp << 6) | ((unsigned char)s[i + k] & 0x3f);
      if (!plain && c.chance(1, 3))
      {
        if (cp >= 0x10000)
        {
          uint32_t v = cp - 0x10000;
          snprintf(b, sizeof b, c.coin() ? "\\u%04x\\u%04x" : c.coin() ? "\\u%04X\\u%04X" : "\\u%04X\\u%04x", 0xd800 + (v >> 10), 0xdc00 + (v & 0x3ff));
        }
        else
          snprintf(b, sizeof b, c.coin() ? "\\u%04X" : "\\u%04x", cp);
        o += b;
      }
      else
        o.append(s, i, n);
      i += n - 1;
    }
  }
  return o;
}

// ---------------------------------------------------------------- strict JSON parser (oracle, RFC 8259)
struct Parser
{
  const std::string &s;
  size_t i = 0;
  const char *why = "";
  explicit Parser(const std::string &in)
    : s(in)
  {
  }
  void ws()
  {
    while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r'))
      i++;
  }
  bool fail(const char *w)
  {
    why = w;
    return false;
  }
  bool str(std::string &raw)
  {
    if (i >= s.size() || s[i] != '"')
      return fail("expected string");
    size_t b = ++i;
    while (i < s.size() && s[i] != '"')
    {
      if (s[i] == '\\')
        i++;
      i++;
    }
    if (i >= s.size())
      return fail("unterminated string");
    raw = s.substr(b, i - b);
    i++;
    std::string tmp;
    if (!unescape(raw, tmp))
      return fail("illegal string body");
    return true;
  }
  bool num(std::string &t)
  {
    size_t b = i;
    if (i < s.size() && s[i] == '-')
      i++;
    if (i >= s.size() || s[i] < '0' || s[i] > '9')
      return fail("bad number");
    if (s[i] == '0')
      i++;
    else
      while (i < s.size() && s[i] >= '0' && s[i] <= '9')
        i++;
    if (i < s.size() && s[i] == '.')
    {
      i++;
      if (i >= s.size() || s[i] < '0' || s[i] > '9')
        return fail("bad fraction");
      while (i < s.size() && s[i] >= '0' && s[i] <= '9')
        i++;
    }
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E'))
    {
      i++;
      if (i < s.size() && (s[i] == '+' || s[i] == '-'))
        i++;
      if (i >= s.size() || s[i] < '0' || s[i] > '9')
        return fail("bad exponent");
      while (i < s.size() && s[i] >= '0' && s[i] <= '9')
        i++;
    }
    t = s.substr(b, i - b);
    return true;
  }
  bool value(NodeP &n, uint32_t depth)
  {
    n = std::make_shared<Node>();
    if (depth > 2000)
      return fail("too deep for the oracle");
    ws();
    if (i >= s.size())
      return fail("unexpected end");
    char ch = s[i];
    if (ch == '{')
    {
      n->k = K::Obj;
      i++;
      ws();
      if (i < s.size() && s[i] == '}')
      {
        i++;
        return true;
      }
      for (;;)
      {
        Member m;
        ws();
        if (!str(m.key))
          return false;
        ws();
        if (i >= s.size() || s[i] != ':')
          return fail("expected ':'");
        i++;
        if (!value(m.value, depth + 1))
          return false;
        n->members.push_back(m);
        ws();
        if (i < s.size() && s[i] == ',')
        {
          i++;
          continue;
        }
        if (i < s.size() && s[i] == '}')
        {
          i++;
          return true;
        }
        return fail("expected ',' or '}'");
      }
    }
    if (ch == '[')
    {
      n->k = K::Arr;
      i++;
      ws();
      if (i < s.size() && s[i] == ']')
      {
        i++;
        return true;
      }
      for (;;)
      {
        NodeP v;
        if (!value(v, depth + 1))
          return false;
        n->items.push_back(v);
        ws();
        if (i < s.size() && s[i] == ',')
        {
          i++;
          continue;
        }
        if (i < s.size() && s[i] == ']')
        {
          i++;
          return true;
        }
        return fail("expected ',' or ']'");
      }
    }
    if (ch == '"')
    {
      n->k = K::Str;
      return str(n->text);
    }
    if (s.compare(i, 4, "true") == 0)
    {
      n->k = K::Bool;
      n->text = "true";
      i += 4;
      return true;
    }
    if (s.compare(i, 5, "false") == 0)
    {
      n->k = K::Bool;
      n->text = "false";
      i += 5;
      return true;
    }
    if (s.compare(i, 4, "null") == 0)
    {
      n->k = K::Null;
      n->text = "null";
      i += 4;
      return true;
    }
    n->k = K::Num;
    return num(n->text);
  }
  bool document(NodeP &n)
  {
    if (!value(n, 0))
      return false;
    ws();
    if (i != s.size())
      return fail("trailing characters");
    return true;
  }
};
inline bool strict(const std::string &s, NodeP &n, std::string &why)
{
  Parser p(s);
  if (p.document(n))
    return true;
  why = std::string(p.why) + " at byte " + std::to_string(p.i);
  return false;
}
// two spellings of one number
inline bool same_number(const std::string &a, const std::string &b)
{
  if (a == b)
    return true;
  if (a.find_first_of(".eE") == std::string::npos && b.find_first_of(".eE") == std::string::npos)
    return false;
  double x = strtod(a.c_str(), nullptr), y = strtod(b.c_str(), nullptr);
  return memcmp(&x, &y, sizeof x) == 0;
}
// equality of values: strings by decoded content, numbers by text (or by value when asked)
inline bool same(const Node &a, const Node &b, bool by_value = false)
{
  if (a.k != b.k)
    return false;
  if (a.k == K::Str)
  {
    std::string x, y;
    if (unescape(a.text, x) && unescape(b.text, y))
      return x == y;
    return a.text == b.text;
  }
  if (a.k == K::Arr)
  {
    if (a.items.size() != b.items.size())
      return false;
    for (size_t i = 0; i < a.items.size(); i++)
      if (!same(*a.items[i], *b.items[i], by_value))
        return false;
    return true;
  }
  if (a.k == K::Obj)
  {
    if (a.members.size() != b.members.size())
      return false;
    for (size_t i = 0; i < a.members.size(); i++)
    {
      std::string x, y;
      if (!unescape(a.members[i].key, x))
        x = a.members[i].key;
      if (!unescape(b.members[i].key, y))
        y = b.members[i].key;
      if (x != y || !same(*a.members[i].value, *b.members[i].value, by_value))
        return false;
    }
    return true;
  }
  if (a.k == K::Num && by_value)
    return same_number(a.text, b.text);
  return a.text == b.text;
}
// plain compact rendering (strings in their raw form)
inline void render(const Node &n, std::string &o)
{
  switch (n.k)
  {
  case K::Str:
    o += '"';
    o += n.text;
    o += '"';
    break;
  case K::Arr:
    o += '[';
    for (size_t i = 0; i < n.items.size(); i++)
    {
      if (i)
        o += ',';
      render(*n.items[i], o);
    }
    o += ']';
    break;
  case K::Obj:
    o += '{';
    for (size_t i = 0; i < n.members.size(); i++)
    {
      if (i)
        o += ',';
      o += '"';
      o += n.members[i].key;
      o += "\":";
      render(*n.members[i].value, o);
    }
    o += '}';
    break;
  default:
    o += n.text;
  }
}

// ---------------------------------------------------------------- damage in transit
inline void damage(Src &c, std::string &s, bool allow_nul)
{
  uint32_t n = c.weighted({5, 3, 1}) == 0 ? 1 : c.range(1, 4);
  for (uint32_t i = 0; i < n; i++)
  {
    if (s.empty())
    {
      s += char(32 + c.below(95));
      continue;
    }
    uint32_t p = c.below(uint32_t(s.size()));
    static const char sig[] = "{}[]:,\"\\/0-+.eEtfn \n\xff";
    switch (c.weighted({3, 3, 3, 2, 2, 2}))
    {
    case 0: // structural character written over
      s[p] = sig[c.below(sizeof(sig) - 1)];
      sim::fault("byte_overwritten");
      break;
    case 1: // bit flip
      s[p] = char(s[p] ^ (1u << c.below(8)));
      if (!s[p] && !allow_nul)
        s[p] = '0';
      sim::fault("bit_flip");
      break;
    case 2: { // lost bytes
      uint32_t k = c.weighted({3, 1}) == 0 ? 1 : c.range(1, 12);
      s.erase(p, k);
      sim::fault("bytes_lost");
      break;
    }
    case 3: { // duplicated bytes
      uint32_t k = c.weighted({3, 1}) == 0 ? 1 : c.range(1, 16);
      std::string d = s.substr(p, k);
      s.insert(p, d);
      sim::fault("bytes_duplicated");
      break;
    }
    case 4: // inserted
      s.insert(p, 1, sig[c.below(sizeof(sig) - 1)]);
      sim::fault("byte_inserted");
      break;
    default: { // two segments swapped
      uint32_t q = c.below(uint32_t(s.size()));
      uint32_t k = c.range(1, 6);
      for (uint32_t j = 0; j < k && p + j < s.size() && q + j < s.size(); j++)
        std::swap(s[p + j], s[q + j]);
      sim::fault("bytes_reordered");
    }
    }
  }
}
} // namespace doc
