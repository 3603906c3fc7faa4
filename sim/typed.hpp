// Shared pieces of the scenarios that parse into the typed universe.
#pragma once
#include "pipe.hpp"
#include "tokens.hpp"
#include "types.hpp"

namespace sim
{
inline const ty::AnyType *pick_type(Src &c)
{
  const auto &r = ty::registry();
  return r[c.below(uint32_t(r.size()))];
}
inline void tw_options(Src &c, ty::TW &tw, const doc::Syntax &sy)
{
  tw.w.c = &c;
  tw.w.sy = sy;
  tw.w.noise = c.below(4);
  tw.plain = false;
  tw.shuffle = c.chance(2, 3);
  tw.alias = c.coin();
  tw.bare_names = sy.ascii && c.coin();
}
inline doc::Syntax typed_syntax(Src &c)
{
  doc::Syntax s;
  if (c.coin())
    s = doc::gen_syntax(c);
  return s;
}
inline std::string join(std::vector<std::string> v, bool sorted)
{
  if (sorted)
    std::sort(v.begin(), v.end());
  std::string r;
  for (auto &s : v)
    r += (r.empty() ? "" : ",") + s;
  return r;
}
inline void typed_warmup()
{
  ty::registry();
  ty::member_registry();
  // lazily built tables of the harness and of the library are built before any run
  for (auto t : ty::registry())
  {
    ty::Val v(t);
    std::string s = t->serialize_default(v.p);
    JS::ParseContext pc(s.data(), s.size());
    (void)t->parse(pc, v.p);
    (void)ty::text(t, v.p);
  }
}
} // namespace sim
