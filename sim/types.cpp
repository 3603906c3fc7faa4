#define SIM_NO_OPERATOR_NEW
#include "universe.hpp"
#if PART == 6
#include "calls_impl.hpp"
#endif
// compiled once per PART so that the parts build in parallel
#define R(T, d) new TypeImpl<T>(#T, d)
namespace ty
{
using VecLeaf = std::vector<Leaf>;
using MapConts = std::map<std::string, Conts>;
using UMapOpts = std::unordered_map<std::string, Opts>;
using VecUnique = std::vector<std::unique_ptr<External>>;
using Tup = std::tuple<Ints, std::string, std::vector<Scalars>>;
using ArrNamed = std::array<Named, 2>;
using VecStr = std::vector<std::string>;
using VecDouble = std::vector<double>;
using MapTree = std::map<std::string, Tree>;
using List = std::vector<const AnyType *>;
#if PART == 0
bool raw_by_content = false;
void part0(List &l) { l.insert(l.end(), {R(Leaf, 2), R(Ints, 2), R(Scalars, 2), R(Tup, 3), R(VecLeaf, 3), R(VecStr, 3), R(VecDouble, 3)}); }
#elif PART == 1
void part1(List &l) { l.insert(l.end(), {R(Opts, 3), R(Tuples, 3), R(UMapOpts, 3), R(Raws, 3), R(Prefix, 2)}); }
#elif PART == 2
void part2(List &l) { l.insert(l.end(), {R(Conts, 3), R(MapConts, 2), R(Derived, 3), R(Named, 3), R(ArrNamed, 3)}); }
#elif PART == 3
void part3(List &l) { l.insert(l.end(), {R(External, 5), R(Tree, 5), R(MapTree, 4), R(VecUnique, 3)}); }
#elif PART == 5
void part5(List &l) { l.insert(l.end(), {R(Deep, 3), R(Wraps, 3)}); }
#elif PART == 7
using ArrVec = std::array<std::vector<int>, 2>;
using CArrVec = std::vector<std::string>[2];
using CArrArr = int[3][2];
using AvcVec = JS::ArrayVariableContent<std::vector<int>, 3>;
using JTup = JS::Tuple<Leaf, std::vector<std::vector<int>>>;
using TupTup = std::tuple<int, std::tuple<std::string, std::vector<bool>>>;
using VecVec = std::vector<std::vector<std::vector<int>>>;
using SetStr = std::set<std::string>;
using VecArr = std::vector<std::array<std::string, 2>>;
void part7(List &l)
{
  l.insert(l.end(), {R(Multi, 3), R(ArrVec, 3), R(CArrVec, 3), R(CArrArr, 2), R(AvcVec, 3), R(JTup, 3), R(TupTup, 3), R(VecVec, 4),
                     R(SetStr, 2), R(VecArr, 3), R(JS::JsonObject, 2), R(JS::JsonArray, 2), R(JS::JsonObjectOrArray, 2)});
}
#elif PART == 4
void part0(List &);
void part1(List &);
void part2(List &);
void part3(List &);
void part5(List &);
void part7(List &);
const List &registry()
{
  static List *r = nullptr;
  if (!r)
  {
    r = new List();
    part0(*r);
    part1(*r);
    part2(*r);
    part3(*r);
    part5(*r);
    part7(*r);
  }
  return *r;
}
const List &member_registry()
{
  using VecInt = std::vector<int>;
  using MapInt = std::map<std::string, int>;
  using Tup3 = std::tuple<int, std::string, std::vector<Leaf>>;
  using OptInt = std::optional<int>;
  using UniqueLeaf = std::unique_ptr<Leaf>;
  static const List *r = new List{R(OptInt, 2), R(UniqueLeaf, 2), R(int, 1),    R(std::string, 1), R(bool, 1), R(double, 1), R(VecInt, 2), R(Leaf, 2),
                                  R(MapInt, 2), R(Named, 2),       R(Tree, 3), R(Tup3, 3),   R(Conts, 2)};
  return *r;
}
#endif
} // namespace ty
