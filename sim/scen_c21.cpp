// C21: a document whose structure was damaged is rejected, by every reader and for every delivery.
#include "calls.hpp"
#include "sink.hpp"
#include "typed.hpp"
#include <json_struct/json_struct_diff.h>
using namespace sim;
const char *scenario_id() { return "C21"; }
void warmup() { typed_warmup(); }

enum class Verdict
{
  Complete, // the first document is well-formed as far as structure goes
  Malformed,
  CutOff,
  Unknown // bytes this model does not judge
};
// Structure of the first document in s: brackets, commas, colons, strings, words. Not judged: the spelling of
// numbers and escapes, words as array items, and a comma before the end of an array (the library takes these).
struct Structure
{
  const std::string &s;
  doc::Syntax sy;
  size_t i = 0;
  Verdict v = Verdict::Complete;
  bool stop(Verdict x)
  {
    v = x;
    return false;
  }
  bool skip()
  {
    for (; i < s.size(); i++)
    {
      char ch = s[i];
      if (ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r')
        continue;
      if (ch == '/' && sy.comments)
      {
        if (i + 1 >= s.size())
          return stop(Verdict::CutOff);
        if (s[i + 1] != '/')
          return stop(Verdict::Malformed);
        while (i < s.size() && s[i] != '\n')
          i++;
        if (i >= s.size())
          return stop(Verdict::CutOff);
        continue;
      }
      return true;
    }
    return stop(Verdict::CutOff);
  }
  bool string()
  {
    for (i++; i < s.size(); i++)
    {
      if (s[i] == '\\')
        i++;
      else if (s[i] == '"')
      {
        i++;
        return true;
      }
    }
    return stop(Verdict::CutOff);
  }
  static bool wordy(char ch) { return isalnum((unsigned char)ch) || ch == '+' || ch == '-' || ch == '.'; }
  bool word(bool item)
  {
    size_t b = i;
    while (i < s.size() && wordy(s[i]))
      i++;
    if (i == b || s[b] == '.')
      return stop(Verdict::Malformed);
    if (i == s.size())
      return stop(Verdict::CutOff);
    if (!strchr("{}[],:\" \t\r\n", s[i]))
      return stop(Verdict::Unknown); // may belong to the word (a slash does)
    std::string w = s.substr(b, i - b);
    if (!item && isalpha((unsigned char)w[0]) && w != "true" && w != "false" && w != "null")
      return stop(sy.ascii ? Verdict::Unknown : Verdict::Malformed);
    return true;
  }
  bool value(bool item)
  {
    switch (s[i])
    {
    case '{':
    case '[':
      return container();
    case '"':
      return string();
    case '}':
    case ']':
    case ',':
    case ':':
      return stop(Verdict::Malformed);
    default:
      return word(item);
    }
  }
  bool container()
  {
    bool obj = s[i] == '{';
    char close = obj ? '}' : ']';
    i++;
    bool first = true;
    for (;;)
    {
      if (!skip())
        return false;
      if (s[i] == close)
      {
        // behind an item, or at once
        if (first || !obj || sy.superfluous)
        {
          i++;
          return true;
        }
        return stop(Verdict::Malformed);
      }
      if (obj)
      {
        if (s[i] == '"')
        {
          if (!string())
            return false;
        }
        else if (strchr("{}[],:", s[i]))
          return stop(Verdict::Malformed);
        else
        {
          // a name without quotes
          size_t b = i;
          while (i < s.size() && wordy(s[i]))
            i++;
          if (i == b || s[b] == '.')
            return stop(Verdict::Malformed);
          if (sy.ascii)
            return stop(Verdict::Unknown);
          // it is judged together with the delimiter behind it
          return skip() && stop(strchr("{}[],:\"", s[i]) || wordy(s[i]) ? Verdict::Malformed : Verdict::Unknown);
        }
        if (!skip())
          return false;
        if (s[i] != ':')
          return stop(Verdict::Malformed);
        i++;
        if (!skip())
          return false;
      }
      if (!value(!obj))
        return false;
      first = false;
      if (!skip())
        return false;
      if (s[i] == close)
      {
        i++;
        return true;
      }
      if (s[i] != ',')
        return stop(Verdict::Malformed);
      i++;
    }
  }
  Verdict judge()
  {
    if (!skip())
      return Verdict::Unknown; // nothing there
    else
    {
      if (s[i] != '{' && s[i] != '[')
        return Verdict::Unknown; // not the start of a document
      if (container())
        v = Verdict::Complete;
    }
    return v;
  }
};
static Verdict judge(const std::string &d, const doc::Syntax &sy)
{
  Structure st{d, sy};
  return st.judge();
}
// one structural character lost, doubled, replaced, or appearing somewhere
static bool wreck(Src &c, std::string &d)
{
  static const char st[] = "{}[],:\"{}[],:\"?./\\^_`#;=@(*~$%&!|'<\x01\x80\xff";
  std::vector<size_t> at;
  bool in = false;
  for (size_t i = 0; i < d.size(); i++)
  {
    if (in && d[i] == '\\')
    {
      i++;
      continue;
    }
    if (d[i] == '"')
      in = !in;
    if (!in || d[i] == '"')
      if (strchr("{}[],:\"", d[i]))
        at.push_back(i);
  }
  if (at.empty())
    return false;
  size_t p = at[c.below(uint32_t(at.size()))];
  switch (c.below(6))
  {
  case 0:
    d.erase(p, 1);
    fault("structure_lost");
    break;
  case 1:
    d.insert(p, 1, d[p]);
    fault("structure_doubled");
    break;
  case 2:
    d[p] = st[c.below(sizeof(st) - 1)];
    fault("structure_replaced");
    break;
  case 3:
    d.insert(p + c.below(2), 1, st[c.below(sizeof(st) - 1)]);
    fault("structure_inserted");
    break;
  case 4: {
    // a piece between two structural characters is missing
    size_t q = at[c.below(uint32_t(at.size()))];
    if (q < p)
      std::swap(p, q);
    if (q - p > 60)
      q = p;
    d.erase(p, q - p + c.below(2));
    fault("piece_lost");
    break;
  }
  default: {
    size_t q = at[c.below(uint32_t(at.size()))];
    std::swap(d[p], d[q]);
    fault("structure_swapped");
  }
  }
  return true;
}
static const char *name(Verdict v) { return v == Verdict::Malformed ? "malformed" : "cut off"; }
static void reject(JS::Error e, Verdict v, const char *how, const std::string &d)
{
  ev(how, uint64_t(e));
  if (e == JS::Error::NoError)
    violate("malformed-accepted", "%s: accepted a document that is %s; input: %s", how, name(v), printable(d, 1500).c_str());
  if (v == Verdict::Malformed && e == JS::Error::NeedMoreData)
    violate("malformed-waits", "%s: more data is asked for although nothing can make the document well-formed; input: %s", how,
            printable(d, 1500).c_str());
}
static doc::Syntax some_syntax(Src &c)
{
  doc::Syntax sy;
  if (c.chance(1, 4))
  {
    sy.superfluous = c.coin();
    sy.comments = c.coin();
  }
  return sy;
}
static bool wrecked(Src &c, std::string &d, const doc::Syntax &sy, Verdict &v)
{
  for (uint32_t n = c.weighted({6, 1}) + 1; n; n--)
    if (!wreck(c, d))
      return false;
  v = judge(d, sy);
  evs("document", d);
  if (v == Verdict::Complete || v == Verdict::Unknown)
    return false;
  nontrivial();
  return true;
}
// ---------------------------------------------------------------- tokens
static void tokens(Src &c)
{
  doc::Syntax sy = some_syntax(c);
  doc::GenCfg g = doc::gen_cfg(c);
  doc::Writer w;
  w.c = &c;
  w.sy = sy;
  w.noise = c.below(4);
  w.document(*doc::gen_doc(c, g, sy));
  std::string d = w.out;
  Verdict v;
  if (!wrecked(c, d, sy, v))
    return;
  Plan p = gen_plan(c, d, false);
  Pipe pipe(c, d, p);
  JS::Tokenizer t;
  set_syntax(t, sy);
  pipe.attach(t);
  if (p.mode == Mode::Callback)
    t.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
  ReadResult r = read_all(c, pipe, t, false);
  reject(r.err, v == Verdict::CutOff ? v : Verdict::Malformed, "token reading", d);
  long depth = 0;
  for (size_t i = 0; i < r.toks.size(); i++)
  {
    auto ty = JS::Type(r.toks[i].value_type);
    if (ty == JS::Type::ObjectStart || ty == JS::Type::ArrayStart)
      depth++;
    if (ty == JS::Type::ObjectEnd || ty == JS::Type::ArrayEnd)
      depth--;
    if (!depth)
      violate("malformed-accepted", "token reading: the tokens form a complete document although it is %s; input: %s", name(v),
              printable(d, 1500).c_str());
  }
  // skipped over
  Plan p2 = gen_plan(c, d, true);
  Pipe pipe2(c, d, p2);
  JS::Tokenizer t2;
  set_syntax(t2, sy);
  pipe2.attach(t2);
  if (p2.mode != Mode::Upfront)
    t2.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe2.request(); });
  JS::Token tok;
  if (t2.nextToken(tok) == JS::Error::NoError)
  {
    t2.pushScope(tok.value_type);
    reject(t2.goToEndOfScope(tok), v, "skipping", d);
  }
}
// ---------------------------------------------------------------- types
static void typed(Src &c)
{
  const ty::AnyType *t = pick_type(c);
  ev(t->name());
  doc::Syntax sy = some_syntax(c);
  ty::TW tw;
  tw_options(c, tw, sy);
  tw.inject_unknown = c.coin();
  tw.omit = c.chance(1, 4);
  ty::Val want(t), start(t);
  t->gen(c, want.p);
  t->write(tw, want.p, start.p);
  std::string d = tw.w.out;
  Verdict v;
  if (!wrecked(c, d, sy, v))
    return;
  bool strict = c.chance(1, 4), track = c.coin();
  JS::Error one;
  {
    std::vector<char> mem(d.begin(), d.end());
    JS::ParseContext pc(mem.data(), mem.size());
    set_syntax(pc.tokenizer, sy);
    pc.allow_missing_members = !strict;
    pc.track_member_assignement_state = track;
    ty::Val got(t);
    one = t->parse(pc, got.p);
    // one value of the type may end before the damage shows when a bracket closes it early
    reject(one, v == Verdict::Malformed && one == JS::Error::NeedMoreData ? Verdict::CutOff : v, t->name(), d);
    evs("error", pc.makeErrorString());
  }
  for (uint32_t i = c.range(1, 2); i; i--)
  {
    Plan p = gen_plan(c, d, true);
    Pipe pipe(c, d, p);
    JS::ParseContext pc;
    set_syntax(pc.tokenizer, sy);
    pc.allow_missing_members = !strict;
    pc.track_member_assignement_state = track;
    pipe.attach(pc.tokenizer);
    if (p.mode != Mode::Upfront)
      pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
    ty::Val got(t);
    if (c.chance(1, 4))
      t->gen(c, got.p);
    JS::Error e = t->parse(pc, got.p);
    reject(e, Verdict::CutOff, t->name(), d);
    if (e != one)
      violate("delivery-changes-rejection", "%s: error %d in one buffer, error %d in pieces; input: %s", t->name(), int(one), int(e),
              printable(d, 1500).c_str());
  }
}
// ---------------------------------------------------------------- readers of a whole buffer
template <class T>
static void parse_as(const std::string &d, Verdict v, const char *what)
{
  JS::ParseContext pc(d.data(), d.size());
  T val;
  JS::Error e = pc.parseTo(val);
  if (v == Verdict::Malformed && e == JS::Error::NeedMoreData)
    v = Verdict::CutOff;
  reject(e, v, what, d);
  evs("error", pc.makeErrorString());
}
static void generic(Src &c)
{
  doc::GenCfg g = doc::gen_cfg(c);
  doc::Writer w;
  w.c = &c;
  w.noise = c.below(3);
  w.value(*doc::gen_doc(c, g, doc::Syntax()), doc::Tok());
  std::string whole = w.out, d = whole;
  Verdict v;
  if (!wrecked(c, d, doc::Syntax(), v))
    return;
  size_t b = d.find_first_not_of(" \t\r\n");
  bool obj = b != std::string::npos && d[b] == '{';
  switch (c.below(6))
  {
  case 0:
    parse_as<JS::JsonTokens>(d, v, "JsonTokens");
    break;
  case 1:
    parse_as<JS::Map>(d, v, "Map");
    break;
  case 2:
    if (obj)
      parse_as<JS::JsonObjectRef>(d, v, "JsonObjectRef");
    else
      parse_as<JS::JsonArrayRef>(d, v, "JsonArrayRef");
    parse_as<JS::JsonObjectOrArrayRef>(d, v, "JsonObjectOrArrayRef");
    break;
  case 3:
    if (obj)
      parse_as<JS::JsonObject>(d, v, "JsonObject");
    else
      parse_as<JS::JsonArray>(d, v, "JsonArray");
    parse_as<JS::JsonObjectOrArray>(d, v, "JsonObjectOrArray");
    break;
  case 4: {
    std::string out;
    JS::Error e = JS::reformat(d.data(), d.size(), out,
                               JS::SerializerOptions(c.coin() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty));
    reject(e, v, "reformat", d);
    break;
  }
  default: {
    JS::DiffContext x(whole.data(), whole.size());
    size_t i = x.diff(d.data(), d.size());
    ev("diff", uint64_t(x.error), i);
    if (x.error == JS::DiffError::NoError || i != size_t(-1))
      violate("malformed-accepted", "DiffContext::diff accepted a document that is %s; input: %s", name(v), printable(d, 1500).c_str());
    JS::DiffContext y(d.data(), d.size());
    if (y.error == JS::DiffError::NoError)
      violate("malformed-accepted", "DiffContext accepted a base that is %s; input: %s", name(v), printable(d, 1500).c_str());
  }
  }
}
// ---------------------------------------------------------------- function calls
static void calls(Src &c)
{
  std::vector<fn::Rec> log;
  struct Guard
  {
    fn::Host *h;
    ~Guard() { fn::destroy_host(h); }
  } host{fn::make_host(&log)};
  fn::Script s;
  fn::gen_script(c, s, c.below(3));
  std::string d = s.text;
  Verdict v;
  if (!wrecked(c, d, doc::Syntax(), v))
    return;
  Plan p = gen_plan(c, d, true);
  Pipe pipe(c, d, p);
  JS::ParseContext pc;
  pipe.attach(pc.tokenizer);
  if (p.mode != Mode::Upfront)
    pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
  Sink sink(c);
  JS::Serializer ser;
  sink.attach(ser, true);
  JS::CallFunctionContext cx(pc, ser);
  cx.allow_missing = c.coin();
  cx.stop_execute_on_fail = c.chance(1, 4);
  JS::Error e = fn::call(cx, *host.h);
  // with stop_execute_on_fail off the damage may be the failure of one call, after which the others go on
  bool noted = false;
  for (auto &st : cx.execution_list)
  {
    evs(st.name.c_str(), st.error_string.data);
    noted |= st.error != JS::Error::NoError;
  }
  if (!noted || cx.stop_execute_on_fail)
    reject(e, Verdict::CutOff, "callFunctions", d);
}
void scenario(Src &c)
{
  switch (c.weighted({4, 4, 4, 2}))
  {
  case 0:
    tokens(c);
    break;
  case 1:
    typed(c);
    break;
  case 2:
    generic(c);
    break;
  default:
    calls(c);
  }
}
#include "main.hpp"
