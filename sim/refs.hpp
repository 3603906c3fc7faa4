// Types that keep pointers into the input.
#pragma once
#include <json_struct/json_struct.h>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace refs
{
struct Refs
{
  JS::JsonObjectRef o;
  JS::JsonArrayRef a;
  JS::JsonObjectOrArrayRef oa;
  JS::JsonTokens t;
  std::vector<JS::Token> vt;
  JS::Map m;
  std::vector<JS::JsonObjectRef> vo;
  std::map<std::string, JS::JsonTokens> mt;
  std::unique_ptr<JS::Map> um;
  int last = 0;
  JS_OBJ(o, a, oa, t, vt, m, vo, mt, um, last);
};
} // namespace refs
