// Driving JS::Tokenizer and observing its token stream.
#pragma once
#include "doc.hpp"
#include "pipe.hpp"

namespace sim
{
inline bool map_type(JS::Type t, doc::T &o)
{
  switch (t)
  {
  case JS::Type::String:
    o = doc::T::Str;
    return true;
  case JS::Type::Ascii:
    o = doc::T::Ascii;
    return true;
  case JS::Type::Number:
    o = doc::T::Num;
    return true;
  case JS::Type::ObjectStart:
    o = doc::T::Obj;
    return true;
  case JS::Type::ObjectEnd:
    o = doc::T::ObjEnd;
    return true;
  case JS::Type::ArrayStart:
    o = doc::T::Arr;
    return true;
  case JS::Type::ArrayEnd:
    o = doc::T::ArrEnd;
    return true;
  case JS::Type::Bool:
    o = doc::T::Bool;
    return true;
  case JS::Type::Null:
    o = doc::T::Null;
    return true;
  default:
    return false;
  }
}
inline void set_syntax(JS::Tokenizer &t, const doc::Syntax &s)
{
  t.allowAsciiType(s.ascii);
  t.allowNewLineAsTokenDelimiter(s.newlines);
  t.allowSuperfluousComma(s.superfluous);
  t.allowComments(s.comments);
}
struct Seen
{
  std::string name, value;
  int name_type = 0, value_type = 0;
  bool operator==(const Seen &o) const
  {
    return name == o.name && value == o.value && value_type == o.value_type && name_type == o.name_type;
  }
};
inline std::string show(const Seen &s)
{
  return "name(" + std::to_string(s.name_type) + ")=\"" + printable(s.name, 120) + "\" value(" +
         std::to_string(s.value_type) + ")=\"" + printable(s.value, 160) + "\"";
}
inline Seen snapshot(const JS::Token &t)
{
  Seen s;
  s.name.assign(t.name.data ? t.name.data : "", t.name.size);
  s.value.assign(t.value.data ? t.value.data : "", t.value.size);
  s.name_type = int(t.name_type);
  s.value_type = int(t.value_type);
  return s;
}
// compares one observed token with the model's token
inline void check_token(const Seen &s, const doc::Tok &e, size_t i, const std::string &data)
{
  doc::T ty;
  if (!map_type(JS::Type(s.value_type), ty))
    violate("token-type", "token %zu has an internal type code %d; expected %s \"%s\"; document: %s", i, s.value_type,
            doc::tname(e.type), printable(e.value, 100).c_str(), printable(data).c_str());
  if (ty != e.type)
    violate("token-type", "token %zu is %s but the document has %s there (value \"%s\" vs \"%s\"); document: %s", i,
            doc::tname(ty), doc::tname(e.type), printable(s.value, 100).c_str(), printable(e.value, 100).c_str(),
            printable(data).c_str());
  if (s.value != e.value)
    violate("token-value", "token %zu has value \"%s\" but the document says \"%s\"; document: %s", i,
            printable(s.value, 200).c_str(), printable(e.value, 200).c_str(), printable(data).c_str());
  if (s.name != e.name)
    violate("token-name", "token %zu has name \"%s\" but the document says \"%s\"; document: %s", i,
            printable(s.name, 200).c_str(), printable(e.name, 200).c_str(), printable(data).c_str());
  if (e.has_name)
  {
    JS::Type want = e.name_bare ? JS::Type::Ascii : JS::Type::String;
    if (JS::Type(s.name_type) != want)
      violate("token-name-type", "token %zu (name \"%s\") has name type %d, expected %d; document: %s", i,
              printable(s.name, 60).c_str(), s.name_type, int(want), printable(data).c_str());
  }
}
struct ReadResult
{
  std::vector<Seen> toks;
  JS::Error err = JS::Error::NoError; // the error that ended reading (NeedMoreData: stream over)
};
// reads until an error or the end of the stream; honours the owner side of the protocol
inline ReadResult read_all(Src &c, Pipe &p, JS::Tokenizer &t, bool poke_idle, size_t max_tokens = size_t(-1))
{
  ReadResult r;
  JS::Token token;
  Seen last;
  bool have_last = false;
  size_t limit = p.data.size() * 2 + 64;
  uint64_t calls = 0, call_limit = 64 + 20 * (p.data.size() + p.plan.parts.size());
  while (r.toks.size() < max_tokens)
  {
    if (have_last)
    {
      // a returned token stays valid until the next call
      Seen again = snapshot(token);
      if (!(again == last))
        violate("token-changed", "a returned token changed before the next call: %s became %s", show(last).c_str(),
                show(again).c_str());
    }
    have_last = false;
    if (++calls > call_limit)
      violate("no-progress", "reading did not finish within %llu calls", (unsigned long long)call_limit);
    JS::Error e = t.nextToken(token);
    ev("nextToken", uint64_t(e));
    if (e == JS::Error::NoError)
    {
      last = snapshot(token);
      have_last = true;
      evs("tok", last.value);
      r.toks.push_back(last);
      if (r.toks.size() > limit)
        violate("too-many-tokens", "more tokens than bytes in the document");
      // the owner may push ahead of demand at any time
      if ((p.plan.mode == Mode::Push || p.plan.mode == Mode::Mixed) && !p.exhausted() && c.chance(1, 12))
      {
        fault("early_push");
        p.feed();
      }
      continue;
    }
    if (e == JS::Error::NeedMoreData)
    {
      if (t.registeredBuffers() != 0)
        violate("buffer-kept", "NeedMoreData was returned while %zu buffers are still registered",
                t.registeredBuffers());
      if (p.plan.use_release && p.released != p.added)
        violate("release-missing", "NeedMoreData was returned but only %llu of %llu buffers were released",
                (unsigned long long)p.released, (unsigned long long)p.added);
      if (p.exhausted())
      {
        r.err = e;
        return r;
      }
      if (poke_idle && c.chance(1, 4))
      {
        fault("fruitless_call");
        continue; // call again although nothing arrived
      }
      if (p.plan.mode == Mode::Callback && p.plan.stall && c.coin())
        continue; // try the callback again
      p.feed();
      continue;
    }
    r.err = e;
    return r;
  }
  return r;
}
} // namespace sim
