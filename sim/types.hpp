// The typed universe: C++ types covering every type handler of the library, each with a generator,
// an independent writer (which also computes the value a parse must leave behind), deep copy and
// equality.  Type-erased so that scenarios do not instantiate the library themselves.
#pragma once
#include "doc.hpp"
#include "js.hpp"

namespace ty
{
using sim::Src;

// Writes one document and records what a parse of it must report
struct TW
{
  doc::Writer w; // output text, whitespace and comment noise
  bool plain = false;
  bool inject_unknown = false; // members the type does not declare
  bool omit = false;           // leave members out
  bool repeat = false;         // a member may appear twice
  bool shuffle = false;
  bool alias = false;
  bool bare_names = false; // needs allowAsciiType
  uint32_t ndepth = 0;
  std::vector<std::string> missing;    // expected missing_members
  std::vector<std::string> unassigned; // expected unassigned_required_members
  uint32_t injected = 0, omitted = 0, repeated = 0, aliased = 0;

  // one value that does not fit its type
  enum
  {
    Obj = 1,
    Arr = 2,
    Num = 4,
    Bool = 8,
    Str = 16,
    Nul = 32
  };
  uint32_t misfit_den = 0; // 0: none; otherwise each place is it with a chance of 1 in this
  uint32_t loose_den = 0;  // the same for a value of another kind where a string is meant; it takes any
  uint32_t loosened = 0;
  uint32_t also = 0;       // what the wrapper around the next value accepts
  bool misfit_top = true;  // the document as a whole may be it
  bool misfitted = false;
  std::string misfit_what;
  bool hit()
  {
    return misfit_den && !misfitted && w.c->chance(1, misfit_den);
  }
  bool misfit(uint32_t accepts, const char *what, const char *word = nullptr)
  {
    uint32_t a = accepts | also;
    also = 0;
    if ((!misfit_top && w.out.empty()) || !hit())
      return false;
    Src &c = *w.c;
    std::string v;
    std::vector<uint32_t> kinds;
    for (uint32_t i = 0; i < 6; i++)
      if (!(a & (1u << i)))
        kinds.push_back(i);
    if (word)
      kinds.insert(kinds.end(), 4, 6);
    if (kinds.empty())
      return false;
    uint32_t k = kinds[c.below(uint32_t(kinds.size()))];
    switch (k)
    {
    case 0:
      v = c.pick({"{}", "{\"x\":1}", "{\"x\":[{}],\"y\":\"]\"}"});
      break;
    case 1:
      v = c.pick({"[]", "[1]", "[[],{}]", "[true]"});
      break;
    case 2:
      v = c.pick({"1", "-2.5e3", "0"});
      break;
    case 3:
      v = c.coin() ? "true" : "false";
      break;
    case 4:
      v = c.pick({"\"abc\"", "\"\"", "\"{\"", "\"]\"", "\"tru\"", "\"fal\"", "\"truee\"", "\"12abc\"", "\"1 2\"", "\"1.5.2\"", "\"0x10\"", "\"abcdefghijklmnopqrstuvw\""});
      break;
    case 5:
      v = "null";
      break;
    default:
      v = word;
    }
    w.out += v;
    misfitted = true;
    misfit_what = std::string(v) + " for " + what;
    return true;
  }
  // one element too few or too many
  int miscount(bool may_lack, const char *what)
  {
    if (!hit())
      return 0;
    int d = may_lack && w.c->coin() ? -1 : 1;
    misfitted = true;
    misfit_what = std::string(d < 0 ? "an element too few for " : "an element too many for ") + what;
    return d;
  }
  Src &c() { return *w.c; }
  void open(char ch)
  {
    w.out += ch;
  }
  void item(bool first)
  {
    if (!first)
    {
      w.ws(false);
      if (w.sy.newlines && w.c->coin())
        w.out += '\n';
      else
        w.out += ',';
    }
    w.ws(true);
  }
  void close(char ch, bool empty)
  {
    if (!empty && w.sy.superfluous && w.c->chance(1, 3))
    {
      w.ws(false);
      w.out += ',';
    }
    w.ws(empty || !w.sy.newlines || w.out.back() == ',' || w.out.back() == '\n');
    w.out += ch;
  }
  void str(const std::string &decoded)
  {
    w.out += '"';
    w.out += doc::escape_variant(*w.c, decoded, plain);
    w.out += '"';
  }
  void name(const std::string &raw, bool may_be_bare)
  {
    if (may_be_bare && bare_names && w.sy.ascii && w.c->coin())
      w.out += raw;
    else
    {
      w.out += '"';
      w.out += raw;
      w.out += '"';
    }
    w.ws(false);
    w.out += ':';
    w.ws(true);
  }
};

struct AnyType
{
  virtual ~AnyType() {}
  virtual const char *name() const = 0;
  virtual bool contiguous_only() const = 0; // holds pointers into the input
  virtual void *make() const = 0;
  virtual void destroy(void *) const = 0;
  virtual void gen(Src &c, void *v) const = 0;
  virtual void copy(void *to, const void *from) const = 0;
  virtual bool eq(const void *a, const void *b) const = 0;
  // writes v into tw; v becomes the value a parse over prev must give
  virtual void write(TW &tw, void *v, const void *prev) const = 0;
  virtual JS::Error parse(JS::ParseContext &ctx, void *v) const = 0;
  virtual void from(const void *v, JS::Token &t, JS::Serializer &s) const = 0;
  virtual void context_serialize(const void *v, JS::SerializerContext &s) const = 0;
  virtual std::string serialize(const void *v, const JS::SerializerOptions &o) const = 0;
  virtual std::string serialize_default(const void *v) const = 0;
  virtual JS::Error map_cast(const JS::Map &m, const std::string &name, JS::ParseContext &ctx, void *v) const = 0;
  virtual JS::Error map_set(JS::Map &m, const std::string &name, JS::ParseContext &ctx, const void *v) const = 0;
  virtual bool absent(const void *v) const = 0; // has no JSON form
  virtual JS::Error map_cast_it(const JS::Map &m, const JS::Map::It &it, JS::ParseContext &ctx, void *v) const = 0;
  virtual JS::Error map_cast_all(const JS::Map &m, JS::ParseContext &ctx, void *v) const = 0;
  virtual void map_cast_value(const JS::Map &m, const std::string *name, JS::ParseContext &ctx, void *v) const = 0;
  // false: not a struct
  virtual bool map_set_all(JS::Map &m, JS::ParseContext &ctx, const void *v, JS::Error &e) const = 0;
};
extern bool raw_by_content; // compare raw values by content
const std::vector<const AnyType *> &registry();       // parse targets for whole documents
const std::vector<const AnyType *> &member_registry(); // types for Map members, function arguments

struct Val
{
  const AnyType *t;
  void *p;
  explicit Val(const AnyType *ty)
    : t(ty)
    , p(ty->make())
  {
  }
  Val(const Val &) = delete;
  Val &operator=(const Val &) = delete;
  ~Val()
  {
    t->destroy(p);
  }
};
inline std::string text(const AnyType *t, const void *v)
{
  sim::Src c;
  static const uint32_t none = 0;
  uint32_t keep = sim::shared()->ntape;
  c.replay = true;
  c.rt = &none;
  c.rn = 0;
  Val copy(t), def(t);
  t->copy(copy.p, v);
  TW tw;
  tw.w.c = &c;
  tw.plain = true;
  t->write(tw, copy.p, def.p);
  sim::shared()->ntape = keep;
  return tw.w.out;
}
} // namespace ty
