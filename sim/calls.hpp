// A function container covering every shape of callable the library supports, recording each
// invocation, plus a generator of call documents with the outcome they must have.
#pragma once
#include "types.hpp"
#include "pipe.hpp"

namespace fn
{
using sim::Src;
struct Rec
{
  std::string name;
  std::string arg; // canonical text of the argument as the function saw it
};
std::function<void()> &on_call(); // runs inside every called function
struct Host; // the container (defined in types.cpp)
Host *make_host(std::vector<Rec> *log);
void destroy_host(Host *);
JS::Error call(JS::CallFunctionContext &ctx, Host &h);
std::string results(JS::CallFunctionContext &ctx); // serialized

enum Outcome
{
  Ok,
  Missing,
  BadArg,
  UserError
};
struct Member
{
  std::string name; // as written in the document
  Outcome out = Ok;
  bool called = false;
  std::string rec_name, rec_arg; // expected invocation
  bool returns = false;
  std::string ret; // expected return value, canonical JSON
  std::string message; // expected in error_string
  int code = 0;        // expected error of a UserError
  std::vector<std::string> missing; // expected missing_members
  std::vector<std::string> unassigned; // expected unassigned_required_members
};
struct Script
{
  std::string text;
  std::vector<Member> members;
};
void gen_script(Src &c, Script &s, uint32_t noise, uint32_t depth = 0);
} // namespace fn
