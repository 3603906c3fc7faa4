// Definitions of the typed universe (compiled once, in types.cpp; templates usable elsewhere).
#pragma once
#include "types.hpp"
#include <limits>
#include <tuple>

namespace uni
{
struct Leaf
{
  int x = 0;
  std::string s;
  JS_OBJ(x, s);
};
JS_ENUM(Color, RedGreen, Red, Green, Greenish, green, Blue, VeryLongColourName_1, VeryLongColourName_2)
enum class Level : short
{
  Low = -3,
  Mid = 0,
  High = 1000
};
struct Ints
{
  int8_t i8 = 0;
  uint8_t u8 = 0;
  char ch = 0;
  short s = 0;
  unsigned short us = 0;
  int i = 0;
  unsigned u = 0;
  long l = 0;
  unsigned long ul = 0;
  long long ll = 0;
  unsigned long long ull = 0;
  JS::js_int128_t i128 = 0;
  JS::js_uint128_t u128 = 0;
  JS_OBJ(i8, u8, ch, s, us, i, u, l, ul, ll, ull, i128, u128);
};
using TimePoint = std::chrono::high_resolution_clock::time_point;
struct Scalars
{
  float f = 0;
  double d = 0;
  bool b = false;
  std::string s;
  Color c = Color::Red;
  Level lv = Level::Mid;
  TimePoint tp{};
  std::string t;
  JS_OBJ(f, d, b, s, c, lv, tp, t);
};
struct Opts
{
  JS::Nullable<int> n;
  JS::NullableChecked<std::string> nc;
  JS::Optional<double> o;
  JS::OptionalChecked<std::string> oc;
  std::optional<int> so;
  std::optional<Leaf> sl;
  std::shared_ptr<Leaf> sp;
  std::unique_ptr<Leaf> up;
  std::unique_ptr<std::vector<std::string>> uv;
  JS::SilentString ss;
  JS::SilentVector<int> sv;
  JS::SilentUniquePtr<int> su;
  JS::NullableChecked<std::vector<int>> nv;
  int last = 0;
  JS_OBJ(n, nc, o, oc, so, sl, sp, up, uv, ss, sv, su, nv, last);
};
struct Conts
{
  std::vector<int> vi;
  std::vector<bool> vb;
  std::vector<std::string> vs;
  std::vector<Leaf> vl;
  std::vector<std::vector<double>> vv;
  std::set<std::string> st;
  std::unordered_set<int> us;
  std::map<std::string, int> mi;
  std::map<std::string, Leaf> ml;
  std::unordered_map<std::string, std::vector<int>> um;
  std::array<int, 3> ar{{0, 0, 0}};
  int ca[3] = {0, 0, 0};
  std::string cs[2];
  Leaf cl[2];
  JS_OBJ(vi, vb, vs, vl, vv, st, us, mi, ml, um, ar, ca, cs, cl);
};
struct Tuples
{
  std::tuple<int, std::string, bool> t1{};
  JS::Tuple<double, Leaf> t2;
  JS::OneOrMany<std::string> om;
  JS::OneOrMany<Leaf> ol;
  JS::ArrayVariableContent<int, 4> av{};
  std::vector<std::tuple<std::string, int>> vt;
  std::unique_ptr<JS::OneOrMany<int>> uo;
  JS_OBJ(t1, t2, om, ol, av, vt, uo);
};
struct Grand
{
  std::string g1;
  int g2 = 0;
  JS_OBJ(g1, g2);
};
struct BaseA : Grand
{
  int a1 = 0;
  std::optional<std::string> a2;
  JS_OBJ_SUPER(JS_SUPER(Grand), a1, a2);
};
struct BaseB
{
  std::vector<int> b1;
  JS_OBJ(b1);
};
struct Derived : BaseA, BaseB
{
  std::string d1;
  Leaf d2;
  JS_OBJ_SUPER(JS_SUPER(BaseA, BaseB), d1, d2);
};
struct Super1
{
  int s1 = 0, s2 = 0;
  JS_OBJ(s1, s2);
};
struct Super2
{
  std::string t1;
  std::optional<int> t2;
  int t3 = 0;
  JS_OBJ(t1, t2, t3);
};
struct Super3
{
  Leaf u1;
  JS_OBJ(u1);
};
struct Multi : Super1, BaseA, Super2, Super3
{
  int m1 = 0;
  std::vector<std::vector<int>> m2;
  JS_OBJECT_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(Super1), JS_SUPER_CLASS(BaseA), JS_SUPER_CLASS(Super2),
                                        JS_SUPER_CLASS(Super3)),
                       JS_MEMBER(m1), JS_MEMBER(m2));
};
struct Named
{
  int first = 0;
  std::string second;
  std::string third;
  std::vector<int> fourth;
  double a_rather_long_member_name_beyond_sixteen_bytes = 0;
  JS_OBJECT(JS_MEMBER_ALIASES(first, "erste", "premier"), JS_MEMBER_WITH_NAME(second, "2nd name"),
            JS_MEMBER_WITH_NAME_AND_ALIASES(third, "tercero", "tredje", "third"), JS_MEMBER(fourth),
            JS_MEMBER(a_rather_long_member_name_beyond_sixteen_bytes));
};
struct External
{
  int e1 = 0;
  std::string e2;
  std::unique_ptr<External> child;
};
struct Tree
{
  std::string v;
  std::vector<Tree> kids;
  std::unique_ptr<Tree> next;
  JS_OBJ(v, kids, next);
};
struct Raws
{
  std::string before;
  JS::JsonObject o;
  JS::JsonArray a;
  JS::JsonObjectOrArray oa;
  std::vector<JS::JsonArray> va;
  int after = 0;
  JS_OBJ(before, o, a, oa, va, after);
};
struct Deep
{
  Conts c;
  std::map<std::string, Opts> mo;
  std::vector<Tuples> vt;
  Derived d;
  JS_OBJ(c, mo, vt, d);
};
// wrappers and small types as elements
struct Wraps
{
  std::map<std::string, JS::Nullable<int>> mn;
  std::map<std::string, JS::NullableChecked<std::string>> mc;
  std::unordered_map<std::string, JS::Optional<std::vector<int>>> mo;
  std::map<std::string, std::unique_ptr<Leaf>> mu;
  std::map<std::string, std::shared_ptr<int>> ms;
  std::map<std::string, Color> me;
  std::map<std::string, bool> mb;
  std::map<std::string, std::map<std::string, double>> mm;
  std::vector<JS::NullableChecked<int>> vc;
  std::vector<JS::Nullable<double>> vn;
  std::vector<Level> vl;
  std::vector<float> vf;
  std::vector<std::map<std::string, int>> vm;
  std::vector<std::shared_ptr<std::vector<bool>>> vp;
  std::array<JS::NullableChecked<Leaf>, 2> ac;
  std::tuple<JS::Nullable<int>, std::unique_ptr<int>, Color, TimePoint> t{};
  std::set<int> si;
  bool last = false;
  JS_OBJ(mn, mc, mo, mu, ms, me, mb, mm, vc, vn, vl, vf, vm, vp, ac, t, si, last);
};
// names that share prefixes and lengths
struct Prefix
{
  int a = 0, ab = 0, abc = 0, abd = 0, b = 0, ba = 0, A = 0;
  std::string abcdefghijklmnop, abcdefghijklmnoq;
  JS_OBJ(a, ab, abc, abd, b, ba, A, abcdefghijklmnop, abcdefghijklmnoq);
};
} // namespace uni
JS_OBJ_EXT(uni::External, e1, e2, child);
JS_ENUM_NAMESPACE_DECLARE_STRING_PARSER(uni, Color)
JS_ENUM_NAMESPACE_DECLARE_VALUE_PARSER(uni, Level)

namespace ty
{
using namespace uni;

template <class T, class E = void>
struct U;

inline uint32_t few(Src &c, uint32_t d)
{
  // d: remaining depth; keeps sizes small when deep
  if (d == 0)
    return c.below(2);
  return c.weighted({2, 4, 1}) == 0 ? 0 : c.range(1, d > 2 ? 5 : 3);
}
inline void put_code(std::string &s, Src &c)
{
  switch (c.weighted({8, 2, 2, 2, 1}))
  {
  case 0:
    s += char('a' + c.below(26));
    break;
  case 1: {
    static const char sp[] = "\"\\/{}[]:, \x7f";
    s += sp[c.below(sizeof(sp) - 1)];
    break;
  }
  case 2:
    s += char(c.below(0x20));
    break;
  case 3: {
    static const uint32_t cps[] = {0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff};
    doc::put_utf8(s, cps[c.below(11)]);
    break;
  }
  default:
    doc::put_utf8(s, c.coin() ? c.range(0x80, 0xd7ff) : c.range(0xe000, 0x10ffff));
  }
}
inline std::string gen_text(Src &c)
{
  std::string s;
  uint32_t n = doc::gen_len(c, 1);
  if (c.weighted({3, 2}) == 0)
  {
    for (uint32_t i = 0; i < n; i++)
      s += char('a' + c.below(26));
  }
  else
    while (s.size() < n)
      put_code(s, c);
  return s;
}

// ---- integers
template <class T>
std::string int_text(T v)
{
  char b[64];
  int i = 63;
  b[i] = 0;
  bool neg = v < 0;
  unsigned __int128 m = neg ? (unsigned __int128)(0) - (unsigned __int128)(__int128)v : (unsigned __int128)v;
  do
  {
    b[--i] = char('0' + int(m % 10));
    m /= 10;
  } while (m);
  if (neg)
    b[--i] = '-';
  return b + i;
}
template <class T>
T int_max()
{
  return T(-1) < T(0) ? T((((T(1) << (sizeof(T) * 8 - 2)) - 1) << 1) + 1) : T(~T(0));
}
template <class T>
T int_min()
{
  return T(-1) < T(0) ? T(-int_max<T>() - 1) : T(0);
}
template <class T>
struct IsInt
{
  static const bool value = std::is_integral<T>::value;
};
template <>
struct IsInt<bool>
{
  static const bool value = false;
};
template <>
struct IsInt<JS::js_int128_t>
{
  static const bool value = true;
};
template <>
struct IsInt<JS::js_uint128_t>
{
  static const bool value = true;
};
template <class T>
struct U<T, typename std::enable_if<IsInt<T>::value>::type>
{
  static void gen(Src &c, T &v, uint32_t)
  {
    switch (c.weighted({4, 2, 2, 2}))
    {
    case 0:
      v = T(c.below(100));
      break;
    case 1:
      v = c.coin() ? int_max<T>() : int_min<T>();
      break;
    case 2: {
      unsigned __int128 r = (unsigned __int128)(c.u64()) << 64 | c.u64();
      r >>= c.below(128);
      v = T(r);
      break;
    }
    default: {
      T d = T(c.below(3));
      v = c.coin() ? T(int_max<T>() - d) : T(int_min<T>() + d);
    }
    }
  }
  static void copy(T &a, const T &b) { a = b; }
  static bool eq(const T &a, const T &b) { return a == b; }
  static void write(TW &tw, T &v, const T &)
  {
    if (tw.misfit(TW::Num, "an integer"))
      return;
    std::string t = int_text(v);
    if (!tw.plain && t.size() < 15 && tw.c().chance(1, 8))
    {
      // the same number in another notation
      size_t z = 0;
      switch (tw.c().below(3))
      {
      case 0:
        t += ".0";
        break;
      case 1:
        while (z + 1 < t.size() && t[t.size() - 1 - z] == '0' && t[t.size() - 2 - z] != '-')
          z++;
        t.resize(t.size() - z);
        t += "e" + std::to_string(z + (v == 0 ? tw.c().below(40) : 0));
        break;
      default:
        t += "00E-2";
      }
    }
    tw.w.out += t;
  }
};
// ---- floating point
template <class T>
bool same_bits(T a, T b)
{
  return memcmp(&a, &b, sizeof a) == 0;
}
template <class T, class B>
T gen_fp(Src &c)
{
  T v;
  switch (c.weighted({4, 2, 2, 2}))
  {
  case 0:
    v = T(int(c.below(2000)) - 1000) / T(8);
    break;
  case 1: {
    static const double sp[] = {0.0, -0.0, 1.0, 0.1, 1e22, 1e23, 123456789.0, 1e-5, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 9007199254740993.0, 0.3};
    double d = sp[c.below(13)];
    v = T(d);
    if (v - v != T(0))
      v = std::numeric_limits<T>::max();
    break;
  }
  case 2: {
    B bits = B(c.u64());
    memcpy(&v, &bits, sizeof v);
    if (v - v != T(0))
      v = T(1.5);
    break;
  }
  default:
    v = T(c.below(1u << 22)) * T(c.pick({1e-3, 1e-7, 1e3, 1e10, 1e-20}));
  }
  return v;
}
template <class T>
std::string fp_text(Src &c, T v, int digits, bool plain)
{
  char b[64];
  uint32_t st = plain ? 0 : c.weighted({4, 1, 1, 1, 1});
  snprintf(b, sizeof b, "%.*g", digits, double(v));
  if (st == 1)
    snprintf(b, sizeof b, "%.*e", digits - 1, double(v));
  else if (st == 2)
    snprintf(b, sizeof b, "%.*E", digits - 1, double(v));
  std::string s = b;
  if (st == 4)
  {
    // all digits written out
    snprintf(b, sizeof b, "%.*e", digits - 1, double(v));
    std::string m;
    const char *p = b;
    bool neg = *p == '-';
    for (p += neg; *p && *p != 'e'; p++)
      if (*p != '.')
        m += *p;
    int e = atoi(p + 1);
    if (e >= -40 && e <= 40)
    {
      if (e < 0)
        m = "0." + std::string(size_t(-e - 1), '0') + m;
      else if (size_t(e) + 1 >= m.size())
        m += std::string(size_t(e) + 1 - m.size(), '0');
      else
        m.insert(size_t(e) + 1, ".");
      s = (neg ? "-" : "") + m;
    }
  }
  if (st == 3 && s.find('.') != std::string::npos && s.find('e') == std::string::npos)
    s += "000";
  return s;
}
inline double read_back(const std::string &s, double) { return strtod(s.c_str(), nullptr); }
inline float read_back(const std::string &s, float) { return strtof(s.c_str(), nullptr); }
// a decimal that is not the notation of a particular value: up to 19 digits, or on or next to the
// middle between two values; v becomes the value it states
template <class T>
bool odd_decimal(Src &c, T &v, std::string &out)
{
  std::string s;
  if (c.coin())
  {
    uint32_t nd = c.range(1, 19);
    s += char('1' + c.below(9));
    while (s.size() < nd)
      s += char('0' + c.below(10));
    uint32_t dot = c.range(1, nd);
    if (dot < nd)
      s.insert(dot, ".");
    int lim = sizeof(T) == 4 ? 35 : 300;
    switch (c.below(3))
    {
    case 0:
      s += "e" + std::to_string(int(c.below(uint32_t(2 * lim))) - lim);
      break;
    case 1:
      s += "E+" + std::to_string(c.below(20));
      break;
    default:
      break;
    }
  }
  else
  {
    int bits = sizeof(T) == 4 ? 24 : 53;
    uint64_t m = (uint64_t(1) << bits) | (c.u64() & ((uint64_t(1) << bits) - 1));
    m |= 1; // one bit more than fits: the middle between two values
    uint32_t up = c.below(uint32_t(63 - bits));
    m <<= up;
    uint64_t d = c.below(3);
    m += d;
    if (c.coin())
      m -= 1;
    s = std::to_string(m);
  }
  if (c.chance(1, 4))
    s = "-" + s;
  T r = read_back(s, v);
  if (r - r != T(0))
    return false;
  v = r;
  out = s;
  return true;
}
template <>
struct U<double>
{
  static void gen(Src &c, double &v, uint32_t) { v = gen_fp<double, uint64_t>(c); }
  static void copy(double &a, const double &b) { a = b; }
  static bool eq(const double &a, const double &b) { return same_bits(a, b); }
  static void write(TW &tw, double &v, const double &)
  {
    if (tw.misfit(TW::Num, "a floating point number"))
      return;
    std::string s;
    if (tw.plain || !tw.c().chance(1, 6) || !odd_decimal(tw.c(), v, s))
      s = fp_text(tw.c(), v, 17, tw.plain);
    tw.w.out += s;
  }
};
template <>
struct U<float>
{
  static void gen(Src &c, float &v, uint32_t) { v = gen_fp<float, uint32_t>(c); }
  static void copy(float &a, const float &b) { a = b; }
  static bool eq(const float &a, const float &b) { return same_bits(a, b); }
  static void write(TW &tw, float &v, const float &)
  {
    if (tw.misfit(TW::Num, "a floating point number"))
      return;
    std::string s;
    if (tw.plain || !tw.c().chance(1, 6) || !odd_decimal(tw.c(), v, s))
      s = fp_text(tw.c(), v, 9, tw.plain);
    tw.w.out += s;
  }
};
template <>
struct U<bool>
{
  static void gen(Src &c, bool &v, uint32_t) { v = c.coin(); }
  static void copy(bool &a, const bool &b) { a = b; }
  static bool eq(const bool &a, const bool &b) { return a == b; }
  static void write(TW &tw, bool &v, const bool &)
  {
    if (!tw.misfit(TW::Bool, "a boolean"))
      tw.w.out += v ? "true" : "false";
  }
};
template <>
struct U<std::string>
{
  static void gen(Src &c, std::string &v, uint32_t) { v = gen_text(c); }
  static void copy(std::string &a, const std::string &b) { a = b; }
  static bool eq(const std::string &a, const std::string &b) { return a == b; }
  static void write(TW &tw, std::string &v, const std::string &)
  {
    uint32_t also = tw.also;
    tw.also = 0;
    if (tw.loose_den && !(also & TW::Arr) && tw.c().chance(1, tw.loose_den))
    {
      // a string takes the text of a number or word, and only the bracket of anything else
      const char *t = tw.c().pick({"{}", "[]", "{\"b\":1}", "[\"x\",1]", "{\"a\":{\"b\":[{}]},\"s\":\"}\"}", "[[[]],{\"a\":\"]\"}]", "true", "-12.5e3", "[{\"s\":[]}]", "{\"x\":[{\"y\":{}}]}"});
      tw.w.out += t;
      v = t;
      if (v[0] == '{' || v[0] == '[')
        v.resize(1);
      tw.loosened++;
      return;
    }
    tw.str(v);
  }
};
template <>
struct U<Color>
{
  static void gen(Src &c, Color &v, uint32_t) { v = Color(c.below(8)); }
  static void copy(Color &a, const Color &b) { a = b; }
  static bool eq(const Color &a, const Color &b) { return a == b; }
  static void write(TW &tw, Color &v, const Color &)
  {
    static const char *n[] = {"RedGreen", "Red", "Green", "Greenish", "green", "Blue", "VeryLongColourName_1", "VeryLongColourName_2"};
    if (int(v) < 0 || int(v) > 7)
      sim::violate("enum-out-of-range", "an enum of eight named values holds %d after a parse", int(v));
    static const char *no[] = {"\"RedGree\"", "\"red\"", "\"VeryLongColourName_3\"", "\"VeryLongColourName_\"", "8", "-1", "\"Bluee\"", "100000000000000000000"};
    if (tw.misfit(TW::Num, "an enumeration", no[tw.misfit_den ? tw.c().below(8) : 0]))
      return;
    if ((!tw.plain && tw.c().chance(1, 4)))
      tw.w.out += int_text(int(v));
    else
    {
      tw.w.out += '"';
      tw.w.out += n[int(v)];
      tw.w.out += '"';
    }
  }
};
template <>
struct U<Level>
{
  static void gen(Src &c, Level &v, uint32_t) { v = c.pick({Level::Low, Level::Mid, Level::High}); }
  static void copy(Level &a, const Level &b) { a = b; }
  static bool eq(const Level &a, const Level &b) { return a == b; }
  static void write(TW &tw, Level &v, const Level &)
  {
    if (!tw.misfit(TW::Num, "an enumeration of values"))
      tw.w.out += int_text(int(v));
  }
};
template <>
struct U<TimePoint>
{
  static void gen(Src &c, TimePoint &v, uint32_t)
  {
    uint64_t sec = 200000000ull + c.below(0xffffffffu) % 8000000000ull;
    uint64_t ns = sec * 1000000000ull;
    switch (c.below(4))
    {
    case 0:
      break;
    case 1:
      ns += c.below(1000) * 1000000ull;
      break;
    case 2:
      ns += c.below(1000000) * 1000ull;
      break;
    default:
      ns += c.below(1000000000);
    }
    v = TimePoint(std::chrono::nanoseconds(int64_t(ns)));
  }
  static void copy(TimePoint &a, const TimePoint &b) { a = b; }
  static bool eq(const TimePoint &a, const TimePoint &b) { return a == b; }
  static void write(TW &tw, TimePoint &v, const TimePoint &)
  {
    if (tw.misfit(TW::Num, "a time"))
      return;
    uint64_t t = uint64_t(std::chrono::duration_cast<std::chrono::nanoseconds>(v.time_since_epoch()).count());
    for (int i = 0; i < 3 && t && t % 1000 == 0 && (tw.plain || !tw.c().chance(1, 4)); i++)
      t /= 1000;
    tw.w.out += int_text(t);
  }
};
// ---- helpers for a list of elements
template <class It, class F>
void write_list(TW &tw, It b, It e, F f)
{
  tw.open('[');
  bool first = true;
  for (It i = b; i != e; ++i)
  {
    tw.item(first);
    first = false;
    f(*i);
  }
  tw.close(']', first);
}
template <class T>
const T &def()
{
  static const T *d = [] {
    sim::Untracked u;
    return new T();
  }();
  return *d;
}
// ---- optionals
template <class T>
struct U<JS::Nullable<T>>
{
  using N = JS::Nullable<T>;
  static void gen(Src &c, N &v, uint32_t d) { U<T>::gen(c, v.data, d); }
  static void copy(N &a, const N &b) { U<T>::copy(a.data, b.data); }
  static bool eq(const N &a, const N &b) { return U<T>::eq(a.data, b.data); }
  static void write(TW &tw, N &v, const N &prev)
  {
    if (!tw.plain && tw.c().chance(1, 5))
    {
      tw.w.out += "null"; // null leaves the value as it was
      copy(v, prev);
    }
    else
    {
      tw.also = TW::Nul;
      U<T>::write(tw, v.data, prev.data);
      tw.also = 0;
    }
  }
};
template <class T>
struct U<JS::NullableChecked<T>>
{
  using N = JS::NullableChecked<T>;
  static void gen(Src &c, N &v, uint32_t d)
  {
    v.null = !c.chance(3, 4);
    if (!v.null)
      U<T>::gen(c, v.data, d);
  }
  static void copy(N &a, const N &b)
  {
    a.null = b.null;
    U<T>::copy(a.data, b.data);
  }
  static bool eq(const N &a, const N &b) { return a.null == b.null && (a.null || U<T>::eq(a.data, b.data)); }
  static void write(TW &tw, N &v, const N &prev)
  {
    if (v.null)
    {
      tw.w.out += "null";
      U<T>::copy(v.data, prev.data); // kept behind the null
    }
    else
    {
      tw.also = TW::Nul;
      U<T>::write(tw, v.data, prev.data);
      tw.also = 0;
    }
  }
};
template <class T>
struct U<JS::Optional<T>>
{
  using N = JS::Optional<T>;
  static void gen(Src &c, N &v, uint32_t d) { U<T>::gen(c, v.data, d); }
  static void copy(N &a, const N &b) { U<T>::copy(a.data, b.data); }
  static bool eq(const N &a, const N &b) { return U<T>::eq(a.data, b.data); }
  static void write(TW &tw, N &v, const N &prev)
  {
    tw.also = TW::Nul;
    U<T>::write(tw, v.data, prev.data);
    tw.also = 0;
  }
};
template <class T>
struct U<JS::OptionalChecked<T>>
{
  using N = JS::OptionalChecked<T>;
  static void gen(Src &c, N &v, uint32_t d)
  {
    v.assigned = c.chance(3, 4);
    if (v.assigned)
      U<T>::gen(c, v.data, d);
  }
  static void copy(N &a, const N &b)
  {
    a.assigned = b.assigned;
    U<T>::copy(a.data, b.data);
  }
  static bool eq(const N &a, const N &b)
  {
    return a.assigned == b.assigned && (!a.assigned || U<T>::eq(a.data, b.data));
  }
  static bool absent(const N &v) { return !v.assigned; }
  static void write(TW &tw, N &v, const N &prev)
  {
    tw.also = TW::Nul;
    U<T>::write(tw, v.data, prev.data);
    tw.also = 0;
  }
};
template <class T>
struct U<std::optional<T>>
{
  using N = std::optional<T>;
  static void gen(Src &c, N &v, uint32_t d)
  {
    v.reset();
    if (c.chance(3, 4))
    {
      v.emplace();
      U<T>::gen(c, *v, d);
    }
  }
  static void copy(N &a, const N &b)
  {
    a.reset();
    if (b)
    {
      a.emplace();
      U<T>::copy(*a, *b);
    }
  }
  static bool eq(const N &a, const N &b) { return a.has_value() == b.has_value() && (!a || U<T>::eq(*a, *b)); }
  static bool absent(const N &v) { return !v.has_value(); }
  static void write(TW &tw, N &v, const N &)
  {
    tw.also = TW::Nul;
    U<T>::write(tw, *v, def<T>());
    tw.also = 0;
  }
};
template <class T>
bool is_absent(const T &v);
template <class P, class T>
struct UPtr
{
  static void gen(Src &c, P &v, uint32_t d)
  {
    v.reset();
    if (d > 0 && c.chance(2, 3))
    {
      v.reset(new T());
      U<T>::gen(c, *v, d - 1);
      if (is_absent(*v)) // a present pointer to something that has no JSON form
        v.reset();
    }
  }
  static void copy(P &a, const P &b)
  {
    a.reset();
    if (b)
    {
      a.reset(new T());
      U<T>::copy(*a, *b);
    }
  }
  static bool eq(const P &a, const P &b) { return bool(a) == bool(b) && (!a || U<T>::eq(*a, *b)); }
  static void write(TW &tw, P &v, const P &prev)
  {
    if (!v)
      tw.w.out += "null";
    else
    {
      tw.also |= TW::Nul;
      U<T>::write(tw, *v, prev ? *prev : def<T>());
      tw.also = 0;
    }
  }
};
template <class T>
struct U<std::shared_ptr<T>> : UPtr<std::shared_ptr<T>, T>
{
};
template <class T>
struct U<std::unique_ptr<T>> : UPtr<std::unique_ptr<T>, T>
{
};
template <>
struct U<JS::SilentString>
{
  using N = JS::SilentString;
  static void gen(Src &c, N &v, uint32_t d)
  {
    v.data.clear();
    if (c.chance(3, 4))
      U<std::string>::gen(c, v.data, d);
  }
  static void copy(N &a, const N &b) { a.data = b.data; }
  static bool eq(const N &a, const N &b) { return a.data == b.data; }
  static bool absent(const N &v) { return v.data.empty(); }
  static void write(TW &tw, N &v, const N &prev) { U<std::string>::write(tw, v.data, prev.data); }
};
template <class T, class A>
struct U<JS::SilentVector<T, A>>
{
  using N = JS::SilentVector<T, A>;
  static void gen(Src &c, N &v, uint32_t d) { U<std::vector<T, A>>::gen(c, v.data, d); }
  static void copy(N &a, const N &b) { U<std::vector<T, A>>::copy(a.data, b.data); }
  static bool eq(const N &a, const N &b) { return U<std::vector<T, A>>::eq(a.data, b.data); }
  static bool absent(const N &v) { return v.data.empty(); }
  static void write(TW &tw, N &v, const N &prev) { U<std::vector<T, A>>::write(tw, v.data, prev.data); }
};
template <class T>
struct U<JS::SilentUniquePtr<T>>
{
  using N = JS::SilentUniquePtr<T>;
  static void gen(Src &c, N &v, uint32_t d) { U<std::unique_ptr<T>>::gen(c, v.data, d); }
  static void copy(N &a, const N &b) { U<std::unique_ptr<T>>::copy(a.data, b.data); }
  static bool eq(const N &a, const N &b) { return U<std::unique_ptr<T>>::eq(a.data, b.data); }
  static bool absent(const N &v) { return !v.data; }
  static void write(TW &tw, N &v, const N &prev) { U<std::unique_ptr<T>>::write(tw, v.data, prev.data); }
};
// ---- sequences
template <class T, class A>
struct U<std::vector<T, A>>
{
  using N = std::vector<T, A>;
  static void gen(Src &c, N &v, uint32_t d)
  {
    v.clear();
    uint32_t n = few(c, d);
    if (c.chance(1, 12) && d > 1)
      n = c.range(9, 40);
    for (uint32_t i = 0; i < n; i++)
    {
      v.emplace_back();
      U<T>::gen(c, v.back(), d ? d - 1 : 0);
    }
  }
  static void copy(N &a, const N &b)
  {
    a.clear();
    for (auto &x : b)
    {
      a.emplace_back();
      U<T>::copy(a.back(), x);
    }
  }
  static bool eq(const N &a, const N &b)
  {
    if (a.size() != b.size())
      return false;
    for (size_t i = 0; i < a.size(); i++)
      if (!U<T>::eq(a[i], b[i]))
        return false;
    return true;
  }
  static void write(TW &tw, N &v, const N &)
  {
    if (tw.misfit(TW::Arr, "a vector"))
      return;
    write_list(tw, v.begin(), v.end(), [&](T &x) { U<T>::write(tw, x, def<T>()); });
  }
};
template <class A>
struct U<std::vector<bool, A>>
{
  using N = std::vector<bool, A>;
  static void gen(Src &c, N &v, uint32_t d)
  {
    v.clear();
    uint32_t n = few(c, d + 1);
    for (uint32_t i = 0; i < n; i++)
      v.push_back(c.coin());
  }
  static void copy(N &a, const N &b) { a = b; }
  static bool eq(const N &a, const N &b) { return a == b; }
  static void write(TW &tw, N &v, const N &)
  {
    if (tw.misfit(TW::Arr, "a vector of booleans"))
      return;
    write_list(tw, v.begin(), v.end(), [&](bool x) { U<bool>::write(tw, x, x); });
  }
};
template <class N, class T>
struct USet
{
  static void gen(Src &c, N &v, uint32_t d)
  {
    v.clear();
    uint32_t n = few(c, d + 1);
    for (uint32_t i = 0; i < n; i++)
    {
      T t;
      U<T>::gen(c, t, 0);
      v.insert(t);
    }
  }
  static void copy(N &a, const N &b) { a = b; }
  static bool eq(const N &a, const N &b) { return a == b; }
  static void write(TW &tw, N &v, const N &)
  {
    if (tw.misfit(TW::Arr, "a set"))
      return;
    uint32_t loose = tw.loose_den;
    tw.loose_den = 0; // two of them would be one element twice
    std::vector<T> l(v.begin(), v.end());
    std::sort(l.begin(), l.end());
    if (!tw.plain)
      for (size_t i = l.size(); i > 1; i--)
        std::swap(l[i - 1], l[tw.c().below(uint32_t(i))]);
    if (l.size() && tw.hit())
    {
      T again = l[tw.c().below(uint32_t(l.size()))];
      l.push_back(again);
      tw.misfitted = true;
      tw.misfit_what = "an element twice in a set";
    }
    write_list(tw, l.begin(), l.end(), [&](T &x) { U<T>::write(tw, x, x); });
    tw.loose_den = loose;
  }
};
template <class T>
struct U<std::set<T>> : USet<std::set<T>, T>
{
};
template <class T>
struct U<std::unordered_set<T>> : USet<std::unordered_set<T>, T>
{
};
template <class N, class T>
struct UMap
{
  static void gen(Src &c, N &v, uint32_t d)
  {
    v.clear();
    uint32_t n = few(c, d);
    for (uint32_t i = 0; i < n; i++)
    {
      std::string k = gen_text(c);
      U<T>::gen(c, v[k], d ? d - 1 : 0);
    }
  }
  static void copy(N &a, const N &b)
  {
    a.clear();
    for (auto &x : b)
      U<T>::copy(a[x.first], x.second);
  }
  static bool eq(const N &a, const N &b)
  {
    if (a.size() != b.size())
      return false;
    for (auto &x : a)
    {
      auto it = b.find(x.first);
      if (it == b.end() || !U<T>::eq(x.second, it->second))
        return false;
    }
    return true;
  }
  // a parse updates the map key by key; keys the document does not mention stay
  static void write(TW &tw, N &v, const N &prev)
  {
    if (tw.misfit(TW::Obj, "a map"))
      return;
    std::vector<std::string> keys;
    for (auto &x : v)
      keys.push_back(x.first);
    std::sort(keys.begin(), keys.end());
    if (tw.shuffle)
      for (size_t i = keys.size(); i > 1; i--)
        std::swap(keys[i - 1], keys[tw.c().below(uint32_t(i))]);
    tw.open('{');
    bool first = true;
    for (auto &k : keys)
    {
      if (tw.repeat && tw.c().chance(1, 12))
      {
        T other = T();
        U<T>::gen(tw.c(), other, 1);
        tw.item(first);
        first = false;
        tw.name(doc::escape_variant(tw.c(), k, tw.plain), false);
        U<T>::write(tw, other, def<T>());
        tw.repeated++;
      }
      tw.item(first);
      first = false;
      tw.name(doc::escape_variant(tw.c(), k, tw.plain), false);
      U<T>::write(tw, v[k], def<T>());
    }
    tw.close('}', first);
    for (auto &x : prev)
      if (v.find(x.first) == v.end())
        U<T>::copy(v[x.first], x.second);
  }
};
template <class T>
struct U<std::map<std::string, T>> : UMap<std::map<std::string, T>, T>
{
};
template <class T>
struct U<std::unordered_map<std::string, T>> : UMap<std::unordered_map<std::string, T>, T>
{
};
template <class N, class T, size_t S>
struct UFixed
{
  static void gen(Src &c, N &v, uint32_t d)
  {
    for (size_t i = 0; i < S; i++)
      U<T>::gen(c, v[i], d ? d - 1 : 0);
  }
  static void copy(N &a, const N &b)
  {
    for (size_t i = 0; i < S; i++)
      U<T>::copy(a[i], b[i]);
  }
  static bool eq(const N &a, const N &b)
  {
    for (size_t i = 0; i < S; i++)
      if (!U<T>::eq(a[i], b[i]))
        return false;
    return true;
  }
  static void write(TW &tw, N &v, const N &prev)
  {
    if (tw.misfit(TW::Arr, "a fixed array"))
      return;
    int d = tw.miscount(true, "a fixed array");
    tw.open('[');
    for (size_t i = 0; i < S - (d < 0); i++)
    {
      tw.item(i == 0);
      U<T>::write(tw, v[i], prev[i]);
    }
    if (d > 0)
    {
      tw.item(false);
      U<T>::write(tw, v[0], prev[0]);
    }
    tw.close(']', d < 0 && S == 1);
  }
};
template <class T, size_t S>
struct U<std::array<T, S>> : UFixed<std::array<T, S>, T, S>
{
};
template <class T, size_t S>
struct U<T[S]> : UFixed<T[S], T, S>
{
};
template <class T, size_t S>
struct U<JS::ArrayVariableContent<T, S>>
{
  using N = JS::ArrayVariableContent<T, S>;
  static void gen(Src &c, N &v, uint32_t d)
  {
    v.size = c.below(S + 1);
    for (size_t i = 0; i < v.size; i++)
      U<T>::gen(c, v.data[i], d);
  }
  static void copy(N &a, const N &b)
  {
    a.size = b.size;
    for (size_t i = 0; i < S; i++)
      U<T>::copy(a.data[i], b.data[i]);
  }
  static bool eq(const N &a, const N &b)
  {
    if (a.size != b.size)
      return false;
    for (size_t i = 0; i < a.size; i++)
      if (!U<T>::eq(a.data[i], b.data[i]))
        return false;
    return true;
  }
  static void write(TW &tw, N &v, const N &prev)
  {
    if (v.size > S)
      sim::violate("size-out-of-range", "an array of at most %zu elements holds %zu after a parse", S, v.size);
    if (tw.misfit(TW::Arr, "an array of limited size"))
      return;
    int d = v.size == S ? tw.miscount(false, "an array of limited size") : 0;
    tw.open('[');
    for (size_t i = 0; i < v.size; i++)
    {
      tw.item(i == 0);
      U<T>::write(tw, v.data[i], prev.data[i]);
    }
    if (d)
    {
      tw.item(false);
      U<T>::write(tw, v.data[0], prev.data[0]);
    }
    tw.close(']', v.size == 0);
  }
};
template <class T>
struct U<JS::OneOrMany<T>>
{
  using N = JS::OneOrMany<T>;
  static void gen(Src &c, N &v, uint32_t d) { U<std::vector<T>>::gen(c, v.data, d); }
  static void copy(N &a, const N &b) { U<std::vector<T>>::copy(a.data, b.data); }
  static bool eq(const N &a, const N &b) { return U<std::vector<T>>::eq(a.data, b.data); }
  static bool absent(const N &v) { return v.data.empty(); }
  static void write(TW &tw, N &v, const N &prev)
  {
    if (v.data.size() == 1 && (tw.plain || tw.c().coin()))
    {
      tw.also |= TW::Arr;
      U<T>::write(tw, v.data[0], def<T>());
      tw.also = 0;
    }
    else if (tw.misfit_den)
    {
      // anything else is taken for one element
      tw.also = 0;
      write_list(tw, v.data.begin(), v.data.end(), [&](T &x) { U<T>::write(tw, x, def<T>()); });
    }
    else
      U<std::vector<T>>::write(tw, v.data, prev.data);
  }
};
// ---- tuples
template <class N, class... Ts>
struct UTup
{
  template <size_t I>
  static auto &at(std::tuple<Ts...> &t) { return std::get<I>(t); }
  template <size_t I>
  static const auto &at(const std::tuple<Ts...> &t) { return std::get<I>(t); }
  template <size_t I>
  static auto &at(JS::Tuple<Ts...> &t) { return t.template get<I>(); }
  template <size_t I>
  static const auto &at(const JS::Tuple<Ts...> &t) { return t.template get<I>(); }
  template <size_t I>
  using El = typename std::tuple_element<I, std::tuple<Ts...>>::type;
  template <size_t I = 0>
  static void gen(Src &c, N &v, uint32_t d)
  {
    if constexpr (I < sizeof...(Ts))
    {
      U<El<I>>::gen(c, at<I>(v), d ? d - 1 : 0);
      gen<I + 1>(c, v, d);
    }
  }
  template <size_t I = 0>
  static void copy(N &a, const N &b)
  {
    if constexpr (I < sizeof...(Ts))
    {
      U<El<I>>::copy(at<I>(a), at<I>(b));
      copy<I + 1>(a, b);
    }
  }
  template <size_t I = 0>
  static bool eq(const N &a, const N &b)
  {
    if constexpr (I < sizeof...(Ts))
      return U<El<I>>::eq(at<I>(a), at<I>(b)) && eq<I + 1>(a, b);
    else
      return true;
  }
  static void write(TW &tw, N &v, const N &prev)
  {
    if (tw.misfit(TW::Arr, "a tuple"))
      return;
    int d = tw.miscount(true, "a tuple");
    tw.open('[');
    element<0>(tw, v, prev, d);
  }
  template <size_t I>
  static void element(TW &tw, N &v, const N &prev, int d)
  {
    if constexpr (I < sizeof...(Ts))
    {
      if (I + 1 < sizeof...(Ts) || d >= 0)
      {
        tw.item(I == 0);
        U<El<I>>::write(tw, at<I>(v), at<I>(prev));
      }
      element<I + 1>(tw, v, prev, d);
    }
    else
    {
      if (d > 0)
      {
        tw.item(false);
        U<El<0>>::write(tw, at<0>(v), at<0>(prev));
      }
      tw.close(']', false);
    }
  }
};
template <class... Ts>
struct U<std::tuple<Ts...>> : UTup<std::tuple<Ts...>, Ts...>
{
};
template <class... Ts>
struct U<JS::Tuple<Ts...>> : UTup<JS::Tuple<Ts...>, Ts...>
{
};
// ---- raw capture: the model value is the exact text
// A Map hands raw values out by content: the white space between its tokens is not kept
extern bool raw_by_content;
inline std::string squeezed(const std::string &t)
{
  std::string o;
  bool in = false;
  for (size_t i = 0; i < t.size(); i++)
  {
    if (in && t[i] == '\\' && i + 1 < t.size())
      o += t[i++];
    else if (t[i] == '"')
      in = !in;
    else if (!in && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\r' || t[i] == 0))
      continue;
    o += t[i];
  }
  return o;
}
template <class N, int FORCE>
struct URaw
{
  static void gen(Src &c, N &v, uint32_t)
  {
    doc::GenCfg g;
    g.max_nodes = c.range(1, 10);
    g.max_depth = 4;
    doc::Writer w;
    w.c = &c;
    w.noise = c.below(3);
    int f = FORCE >= 0 ? FORCE : c.coin() ? int(doc::K::Arr) : int(doc::K::Obj);
    doc::Tok t;
    w.value(*doc::gen_doc(c, g, doc::Syntax(), f), t);
    v.data = w.out;
  }
  static void copy(N &a, const N &b) { a.data = b.data; }
  static bool eq(const N &a, const N &b)
  {
    return raw_by_content ? squeezed(a.data) == squeezed(b.data) : a.data == b.data;
  }
  static void write(TW &tw, N &v, const N &) 
  {
    if (tw.misfit(FORCE == int(doc::K::Arr) ? TW::Arr : FORCE == int(doc::K::Obj) ? TW::Obj : TW::Arr | TW::Obj, "raw text"))
      return;
    if (v.data.empty())
      v.data = FORCE == int(doc::K::Arr) ? "[]" : "{}";
    if (tw.w.sy.newlines)
      for (char &ch : v.data)
        if (ch == '\n')
          ch = ' ';
    tw.w.out += v.data;
  }
};
template <>
struct U<JS::JsonObject> : URaw<JS::JsonObject, int(doc::K::Obj)>
{
};
template <>
struct U<JS::JsonArray> : URaw<JS::JsonArray, int(doc::K::Arr)>
{
};
template <>
struct U<JS::JsonObjectOrArray> : URaw<JS::JsonObjectOrArray, -1>
{
};

// ---- structs
template <class T, class = void>
struct HasAbsent : std::false_type
{
};
template <class T>
struct HasAbsent<T, decltype(void(U<T>::absent(std::declval<const T &>())))> : std::true_type
{
};
template <class T>
bool is_absent(const T &v)
{
  if constexpr (HasAbsent<T>::value)
    return U<T>::absent(v);
  else
    return false;
}
template <class T>
struct OptionalMember : std::false_type
{
};
template <class T>
struct OptionalMember<JS::Optional<T>> : std::true_type
{
};
template <class T>
struct OptionalMember<JS::OptionalChecked<T>> : std::true_type
{
};
template <class T>
struct OptionalMember<std::optional<T>> : std::true_type
{
};
template <class T>
struct OptionalMember<std::unique_ptr<T>> : std::true_type
{
};
template <>
struct OptionalMember<JS::SilentString> : std::true_type
{
};
template <class T, class A>
struct OptionalMember<JS::SilentVector<T, A>> : std::true_type
{
};
template <class T>
struct OptionalMember<JS::SilentUniquePtr<T>> : std::true_type
{
};
template <class S>
struct Desc;

template <class S>
struct Names
{
  static void add(std::vector<std::string> &l)
  {
    Desc<S>::each("", [&](const char *, const char *n, std::vector<const char *> al, auto) {
      l.push_back(n);
      for (auto a : al)
        l.push_back(a);
    });
  }
  static const std::vector<std::string> &all()
  {
    static std::vector<std::string> *l = nullptr;
    if (!l)
    {
      sim::Untracked u;
      l = new std::vector<std::string>();
      add(*l);
    }
    return *l;
  }
};
template <class S>
struct UStruct
{
  static void gen(Src &c, S &v, uint32_t d)
  {
    Desc<S>::each("", [&](const char *, const char *, std::vector<const char *>, auto ptr) {
      using M = typename std::remove_reference<decltype(v.*ptr)>::type;
      U<M>::gen(c, v.*ptr, d ? d - 1 : 0);
    });
  }
  static void copy(S &a, const S &b)
  {
    Desc<S>::each("", [&](const char *, const char *, std::vector<const char *>, auto ptr) {
      using M = typename std::remove_reference<decltype(a.*ptr)>::type;
      U<M>::copy(a.*ptr, b.*ptr);
    });
  }
  static bool eq(const S &a, const S &b)
  {
    bool ok = true;
    Desc<S>::each("", [&](const char *, const char *, std::vector<const char *>, auto ptr) {
      using M = typename std::remove_const<typename std::remove_reference<decltype(a.*ptr)>::type>::type;
      ok = ok && U<M>::eq(a.*ptr, b.*ptr);
    });
    return ok;
  }
  static std::string differing(const S &a, const S &b)
  {
    std::string r;
    Desc<S>::each("", [&](const char *, const char *n, std::vector<const char *>, auto ptr) {
      using M = typename std::remove_const<typename std::remove_reference<decltype(a.*ptr)>::type>::type;
      if (!U<M>::eq(a.*ptr, b.*ptr))
        r += std::string(r.empty() ? "" : ",") + n;
    });
    return r;
  }
  static void unknown(TW &tw)
  {
    Src &c = tw.c();
    std::string k;
    const std::vector<std::string> &own = Names<S>::all();
    for (int tries = 0;; tries++)
    {
      uint32_t st = c.weighted({3, 3, 2});
      if (st == 0)
      {
        k = "";
        uint32_t n = doc::gen_len(c, 0);
        for (uint32_t i = 0; i < n; i++)
          k += char('a' + c.below(26));
      }
      else
      {
        // close to a declared name
        k = own[c.below(uint32_t(own.size()))];
        if (st == 1)
          k += char('a' + c.below(26));
        else if (!k.empty())
          k[k.size() - 1] = char(k[k.size() - 1] ^ 1);
        bool good = true;
        for (char ch : k)
          good = good && ch != '"' && ch != '\\' && (unsigned char)ch >= 0x20;
        if (!good)
          k = "zz";
      }
      if (tries > 20)
        k = "unknown_member";
      bool clash = false;
      for (auto &o : own)
        clash = clash || o == k;
      if (!clash)
        break;
    }
    tw.name(k, false);
    doc::GenCfg g;
    g.max_nodes = c.range(1, 8);
    g.max_depth = 4;
    uint32_t budget = g.max_nodes;
    doc::Tok t;
    tw.w.value(*doc::gen_node(c, g, tw.w.sy, 1, budget), t);
    tw.missing.push_back(k);
    tw.injected++;
  }
  static void write(TW &tw, S &v, const S &prev)
  {
    if (tw.misfit(TW::Obj, "a struct"))
      return;
    Src &c = tw.c();
    size_t n = 0;
    Desc<S>::each("", [&](const char *, const char *, std::vector<const char *>, auto) { n++; });
    // plan: order of members, omissions
    std::vector<uint32_t> order;
    std::vector<char> out(n, 0);
    size_t k = 0;
    bool omit_here = tw.omit && c.chance(1, 2);
    Desc<S>::each("", [&](const char *super, const char *name, std::vector<const char *>, auto ptr) {
      using M = typename std::remove_reference<decltype(v.*ptr)>::type;
      bool skip = is_absent(v.*ptr) || (omit_here && c.chance(1, 3));
      if (skip)
      {
        if (!is_absent(v.*ptr))
          tw.omitted++;
        U<M>::copy(v.*ptr, prev.*ptr);
        out[k] = 1;
        if (!OptionalMember<M>::value)
          tw.unassigned.push_back(*super ? std::string(super) + "::" + name : std::string(name));
      }
      else
        order.push_back(uint32_t(k));
      k++;
    });
    if (tw.shuffle)
      for (size_t i = order.size(); i > 1; i--)
        std::swap(order[i - 1], order[c.below(uint32_t(i))]);
    tw.open('{');
    bool first = true;
    for (size_t oi = 0; oi <= order.size(); oi++)
    {
      if (tw.inject_unknown && c.chance(1, order.size() > 6 ? 10 : 4))
      {
        tw.item(first);
        first = false;
        unknown(tw);
      }
      if (oi == order.size())
        break;
      uint32_t want = order[oi], idx = 0;
      Desc<S>::each("", [&](const char *, const char *name, std::vector<const char *> al, auto ptr) {
        if (idx++ != want)
          return;
        using M = typename std::remove_reference<decltype(v.*ptr)>::type;
        auto nm = [&]() {
          std::string nn = name;
          if (tw.alias && !al.empty() && c.coin())
          {
            nn = al[c.below(uint32_t(al.size()))];
            tw.aliased++;
          }
          bool bare = nn.find(' ') == std::string::npos && (nn[0] < '0' || nn[0] > '9');
          tw.item(first);
          first = false;
          tw.name(nn, bare);
        };
        if (tw.repeat && c.chance(1, 8))
        {
          struct Box
          {
            M m{};
          };
          Box b;
          U<M>::gen(c, b.m, 1);
          if (!is_absent(b.m))
          {
            nm();
            U<M>::write(tw, b.m, prev.*ptr);
            nm();
            U<M>::write(tw, v.*ptr, b.m);
            tw.repeated++;
            return;
          }
        }
        nm();
        U<M>::write(tw, v.*ptr, prev.*ptr);
      });
    }
    tw.close('}', first);
  }
};

#define UNI_M0(S, sup, m) f(sup, #m, std::vector<const char *>(), &S::m);
#define UNI_NAMES std::vector<const char *>
#define UNI_DESC(S, BODY)                                                                                              \
  template <>                                                                                                          \
  struct Desc<S>                                                                                                       \
  {                                                                                                                    \
    template <class F>                                                                                                 \
    static void each(const char *sup, F f)                                                                             \
    {                                                                                                                  \
      using X = S;                                                                                                     \
      (void)sup;                                                                                                       \
      BODY                                                                                                             \
    }                                                                                                                  \
  };                                                                                                                   \
  template <>                                                                                                          \
  struct U<S> : UStruct<S>                                                                                             \
  {                                                                                                                    \
  };
#define M(m) UNI_M0(X, sup, m)
UNI_DESC(Leaf, M(x) M(s))
UNI_DESC(Ints, M(i8) M(u8) M(ch) M(s) M(us) M(i) M(u) M(l) M(ul) M(ll) M(ull) M(i128) M(u128))
UNI_DESC(Scalars, M(f) M(d) M(b) M(s) M(c) M(lv) M(tp) M(t))
UNI_DESC(Opts, M(n) M(nc) M(o) M(oc) M(so) M(sl) M(sp) M(up) M(uv) M(ss) M(sv) M(su) M(nv) M(last))
UNI_DESC(Conts, M(vi) M(vb) M(vs) M(vl) M(vv) M(st) M(us) M(mi) M(ml) M(um) M(ar) M(ca) M(cs) M(cl))
UNI_DESC(Tuples, M(t1) M(t2) M(om) M(ol) M(av) M(vt) M(uo))
UNI_DESC(Grand, M(g1) M(g2))
UNI_DESC(BaseA, M(a1) M(a2) Desc<Grand>::each("Grand", f);)
UNI_DESC(BaseB, M(b1))
UNI_DESC(Derived, M(d1) M(d2) Desc<BaseB>::each("BaseB", f); Desc<BaseA>::each("BaseA", f);)
UNI_DESC(Super1, M(s1) M(s2))
UNI_DESC(Super2, M(t1) M(t2) M(t3))
UNI_DESC(Super3, M(u1))
UNI_DESC(Multi, M(m1) M(m2) Desc<Super3>::each("Super3", f); Desc<Super2>::each("Super2", f); Desc<BaseA>::each("BaseA", f); Desc<Super1>::each("Super1", f);)
template <>
struct Desc<Named>
{
  template <class F>
  static void each(const char *, F f)
  {
    f("", "first", UNI_NAMES{"erste", "premier"}, &Named::first);
    f("", "2nd name", UNI_NAMES{}, &Named::second);
    f("", "tercero", UNI_NAMES{"tredje", "third"}, &Named::third);
    f("", "fourth", UNI_NAMES{}, &Named::fourth);
    f("", "a_rather_long_member_name_beyond_sixteen_bytes", UNI_NAMES{},
      &Named::a_rather_long_member_name_beyond_sixteen_bytes);
  }
};
template <>
struct U<Named> : UStruct<Named>
{
};
UNI_DESC(External, M(e1) M(e2) M(child))
UNI_DESC(Tree, M(v) M(kids) M(next))
UNI_DESC(Raws, M(before) M(o) M(a) M(oa) M(va) M(after))
UNI_DESC(Deep, M(c) M(mo) M(vt) M(d))
UNI_DESC(Wraps, M(mn) M(mc) M(mo) M(mu) M(ms) M(me) M(mb) M(mm) M(vc) M(vn) M(vl) M(vf) M(vm) M(vp) M(ac) M(t) M(si) M(last))
UNI_DESC(Prefix, M(a) M(ab) M(abc) M(abd) M(b) M(ba) M(A) M(abcdefghijklmnop) M(abcdefghijklmnoq))
#undef M

template <class T>
struct TypeImpl : AnyType
{
  struct Box
  {
    T v{};
  };
  static T &at(void *p) { return static_cast<Box *>(p)->v; }
  static const T &at(const void *p) { return static_cast<const Box *>(p)->v; }
  const char *nm;
  uint32_t depth;
  TypeImpl(const char *n, uint32_t d)
    : nm(n)
    , depth(d)
  {
  }
  const char *name() const override { return nm; }
  bool contiguous_only() const override { return false; }
  void *make() const override { return new Box(); }
  void destroy(void *p) const override { delete static_cast<Box *>(p); }
  void gen(Src &c, void *v) const override { U<T>::gen(c, at(v), depth); }
  void copy(void *a, const void *b) const override { U<T>::copy(at(a), at(b)); }
  bool eq(const void *a, const void *b) const override
  {
    return U<T>::eq(at(a), at(b));
  }
  void write(TW &tw, void *v, const void *prev) const override
  {
    U<T>::write(tw, at(v), at(prev));
  }
  JS::Error parse(JS::ParseContext &ctx, void *v) const override { return ctx.parseTo(at(v)); }
  void from(const void *v, JS::Token &t, JS::Serializer &s) const override
  {
    JS::TypeHandler<T>::from(at(v), t, s);
  }
  void context_serialize(const void *v, JS::SerializerContext &s) const override
  {
    s.serialize(at(v));
  }
  std::string serialize(const void *v, const JS::SerializerOptions &o) const override
  {
    return JS::serializeStruct(at(v), o);
  }
  std::string serialize_default(const void *v) const override
  {
    return JS::serializeStruct(at(v));
  }
  JS::Error map_cast(const JS::Map &m, const std::string &n, JS::ParseContext &ctx, void *v) const override
  {
    return m.castToType(n, ctx, at(v));
  }
  JS::Error map_set(JS::Map &m, const std::string &n, JS::ParseContext &ctx, const void *v) const override
  {
    return m.setValue(n, ctx, at(v));
  }
  bool absent(const void *v) const override { return is_absent(at(v)); }
  JS::Error map_cast_it(const JS::Map &m, const JS::Map::It &it, JS::ParseContext &ctx, void *v) const override
  {
    return m.castToType(it, ctx, at(v));
  }
  JS::Error map_cast_all(const JS::Map &m, JS::ParseContext &ctx, void *v) const override
  {
    return m.castToType(ctx, at(v));
  }
  void map_cast_value(const JS::Map &m, const std::string *n, JS::ParseContext &ctx, void *v) const override
  {
    if constexpr (std::is_array<T>::value)
    {
      if (n)
        (void)m.castToType(*n, ctx, at(v));
      else
        (void)m.castToType(ctx, at(v));
    }
    else if (n)
      at(v) = m.castTo<T>(*n, ctx);
    else
      at(v) = m.castTo<T>(ctx);
  }
  bool map_set_all(JS::Map &m, JS::ParseContext &ctx, const void *v, JS::Error &e) const override
  {
    if constexpr (sizeof(JS::Internal::HasJsonStructBase<T>::template test_in_base<T>(nullptr)) ==
                  sizeof(typename JS::Internal::HasJsonStructBase<T>::yes))
    {
      e = m.setValue(ctx, at(v));
      return true;
    }
    else
    {
      (void)m, (void)ctx, (void)v, (void)e;
      return false;
    }
  }
};
} // namespace ty
