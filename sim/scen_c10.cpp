// C10: function calls run exactly once, in order, and fail in isolation.
#include "calls.hpp"
#include "sink.hpp"
#include "typed.hpp"
using namespace sim;
const char *scenario_id() { return "C10"; }
void warmup()
{
  typed_warmup();
}
static std::string show(const std::vector<fn::Rec> &l)
{
  std::string o;
  for (auto &r : l)
    o += r.name + "(" + r.arg + ") ";
  return o;
}
static std::string squeeze(const std::string &t)
{
  std::string o;
  bool str = false;
  for (size_t i = 0; i < t.size(); i++)
  {
    if (str && t[i] == '\\')
      o += t[i++];
    else if (t[i] == '"')
      str = !str;
    if (str || !strchr(" \t\r\n", t[i]))
      o += t[i];
  }
  return o;
}
static void check(const fn::Script &s, bool stop, bool allow_missing, const std::vector<fn::Rec> &log,
                  JS::CallFunctionContext &cx, JS::Error e, const std::string &out, const char *leg)
{
  // what must have happened
  std::vector<fn::Rec> want;
  std::vector<const fn::Member *> mem;
  std::vector<std::string> rets;
  bool stopped = false;
  for (auto &m : s.members)
  {
    if (m.name.empty() && m.rec_name.size())
    { // an invocation made by the member before
      want.push_back({m.rec_name, m.rec_arg});
      continue;
    }
    if (stopped)
      break;
    mem.push_back(&m);
    if (m.called)
      want.push_back({m.rec_name, m.rec_arg});
    if (m.returns)
      rets.push_back(m.ret);
    if (stop && (m.out == fn::BadArg || m.out == fn::UserError || (m.out == fn::Missing && !allow_missing)))
      stopped = true;
  }
  for (size_t i = 0; i < log.size() || i < want.size(); i++)
  {
    if (i >= log.size())
      violate("not-called", "%s: %s was not invoked; invocations: %s; document: %s", leg, want[i].name.c_str(),
              printable(show(log), 600).c_str(), printable(s.text, 1200).c_str());
    if (i >= want.size())
      violate("called-extra", "%s: %s(%s) was invoked beyond what the document asks; document: %s", leg,
              log[i].name.c_str(), printable(log[i].arg, 200).c_str(), printable(s.text, 1200).c_str());
    if (log[i].name != want[i].name || log[i].arg != want[i].arg)
      violate("wrong-call", "%s: invocation %zu was %s(%s), the document says %s(%s); document: %s", leg, i,
              log[i].name.c_str(), printable(log[i].arg, 300).c_str(), want[i].name.c_str(),
              printable(want[i].arg, 300).c_str(), printable(s.text, 1200).c_str());
  }
  if (cx.execution_list.size() != mem.size())
    violate("execution-list", "%s: %zu results recorded for %zu members; document: %s", leg, cx.execution_list.size(),
            mem.size(), printable(s.text, 1200).c_str());
  for (size_t i = 0; i < mem.size(); i++)
  {
    auto &st = cx.execution_list[i];
    const fn::Member &m = *mem[i];
    if (st.name != m.name)
      violate("execution-name", "%s: result %zu is for \"%s\", the member is \"%s\"; document: %s", leg, i,
              printable(st.name).c_str(), printable(m.name).c_str(), printable(s.text, 1200).c_str());
    bool ok = false;
    switch (m.out)
    {
    case fn::Ok:
      ok = st.error == JS::Error::NoError && st.error_string.data.empty();
      break;
    case fn::Missing:
      ok = st.error == JS::Error::MissingFunction;
      break;
    case fn::BadArg:
      ok = st.error != JS::Error::NoError && st.error != JS::Error::MissingFunction;
      break;
    case fn::UserError:
      ok = int(st.error) == m.code &&
           st.error_string.data.find(m.message) != std::string::npos;
      break;
    }
    if (!ok)
      violate("execution-error",
              "%s: member %zu \"%s\" (expected outcome %d %s) is recorded with error %d \"%s\"; document: %s", leg, i,
              m.name.c_str(), int(m.out), m.message.c_str(), int(st.error), printable(st.error_string.data, 300).c_str(),
              printable(s.text, 1200).c_str());
    // a message belongs to the member that set it
    if (m.out != fn::UserError && st.error_string.data.find("-end") != std::string::npos)
      for (auto &o : s.members)
        if (o.message.size() && s.text.find(o.message) == std::string::npos &&
            st.error_string.data.find(o.message) != std::string::npos)
          violate("stale-message", "%s: member %zu \"%s\" reports another member's message: \"%s\"; document: %s", leg, i,
                  m.name.c_str(), printable(st.error_string.data, 300).c_str(), printable(s.text, 1200).c_str());
    if (m.out == fn::Ok && st.missing_members.data != m.missing)
      violate("execution-missing", "%s: member %zu reports undeclared members [%s], expected [%s]; document: %s", leg, i,
              join(st.missing_members.data, false).c_str(), join(m.missing, false).c_str(),
              printable(s.text, 1200).c_str());
    if (m.out == fn::Ok && join(st.unassigned_required_members.data, true) != join(m.unassigned, true))
      violate("execution-unassigned", "%s: member %zu reports absent members [%s], expected [%s]; document: %s", leg, i,
              join(st.unassigned_required_members.data, true).c_str(), join(m.unassigned, true).c_str(),
              printable(s.text, 1200).c_str());
    if (m.out == fn::Ok && m.unassigned.size())
      probe("absent_members");
    if (m.out == fn::Missing && (st.missing_members.data.size() || st.unassigned_required_members.data.size()))
      violate("execution-missing", "%s: member %zu names no function but reports members; document: %s", leg, i,
              printable(s.text, 1200).c_str());
    if (st.context.data != cx.user_context)
      violate("execution-context", "%s: the user context was not recorded", leg);
  }
  // the list of results is itself a serializable value
  {
    doc::NodeP l;
    std::string why, t = fn::results(cx);
    if (!doc::strict(t, l, why) || l->k != doc::K::Arr || l->items.size() != mem.size())
      violate("execution-list-text", "%s: the serialized results are not an array of %zu objects (%s): %s", leg, mem.size(),
              why.c_str(), printable(t, 1500).c_str());
  }
  if (stopped ? e == JS::Error::NoError : e != JS::Error::NoError)
    violate("return-code", "%s: callFunctions returned %d although %s; document: %s", leg, int(e),
            stopped ? "a member failed and execution stops at failures" : "execution ran to the end",
            printable(s.text, 1200).c_str());
  if (stopped && e != cx.execution_list.back().error)
    violate("return-code", "%s: callFunctions returned %d, the failing member has %d; document: %s", leg, int(e),
            int(cx.execution_list.back().error), printable(s.text, 1200).c_str());
  doc::NodeP n;
  std::string why;
  if (!doc::strict(out, n, why) || n->k != doc::K::Arr)
    violate("return-document", "%s: the return document is not a JSON array (%s): %s; document: %s", leg, why.c_str(),
            printable(out, 800).c_str(), printable(s.text, 1200).c_str());
  if (n->items.size() != rets.size())
    violate("return-count", "%s: %zu values returned, %zu calls succeeded with a value: %s; document: %s", leg,
            n->items.size(), rets.size(), printable(out, 800).c_str(), printable(s.text, 1200).c_str());
  for (size_t i = 0; i < rets.size(); i++)
  {
    doc::NodeP r;
    if (!doc::strict(rets[i], r, why))
      violate("oracle", "oracle text %s is not JSON", rets[i].c_str());
    if (!doc::same(*n->items[i], *r, true))
      violate("return-value", "%s: value %zu of the return document differs from what the call returned, %s; %s; document: %s",
              leg, i, printable(rets[i], 400).c_str(), printable(out, 800).c_str(), printable(s.text, 1200).c_str());
  }
  for (auto *m : mem)
    if (m->out == fn::Missing)
      probe("missing_function");
    else if (m->out == fn::BadArg)
      fault("ill_typed_argument");
    else if (m->out == fn::UserError)
      fault("function_sets_error");
}

void scenario(Src &c)
{
  uint32_t docs = c.weighted({4, 1, 1}) + 1;
  std::vector<fn::Rec> log;
  struct Guard
  {
    fn::Host *h;
    ~Guard() { fn::destroy_host(h); }
  } host{fn::make_host(&log)};
  uint32_t noise = c.below(4);
  std::vector<fn::Script> ss(docs);
  std::string all;
  for (auto &s : ss)
  {
    fn::gen_script(c, s, noise);
    all += s.text + (c.coin() ? "" : " \n");
  }
  evs("document", all);
  bool stop = c.chance(1, 3), allow = c.coin();
  if (c.chance(1, 6))
  {
    // the calls are read from a list of tokens
    fn::Script s;
    fn::gen_script(c, s, 0);
    evs("document", s.text);
    // raw text taken from tokens is written anew, without space
    for (auto &m : s.members)
      if (m.rec_name == "f_raw")
      {
        m.rec_arg = squeeze(m.rec_arg);
        m.ret = "\"" + doc::escape_variant(c, m.rec_arg, true) + "\"";
      }
    JS::JsonTokens list;
    JS::ParseContext first(s.text.data(), s.text.size());
    JS::Error e = first.parseTo(list);
    if (e != JS::Error::NoError)
      violate("oracle", "reading the tokens of a call document failed with error %d: %s", int(e), printable(s.text, 1200).c_str());
    JS::ParseContext pc;
    pc.tokenizer.addData(&list.data);
    Sink sink(c);
    JS::Serializer ser;
    sink.attach(ser, c.coin());
    JS::CallFunctionContext cx(pc, ser);
    cx.stop_execute_on_fail = stop;
    cx.allow_missing = allow;
    cx.user_context = "uc";
    e = fn::call(cx, *host.h);
    ev("call", uint64_t(e), log.size());
    probe("calls_from_tokens");
    check(s, stop, allow, log, cx, e, sink.contents(), "tokens");
    return;
  }
  bool one_context = c.coin(); // the stream is executed by one parse context, else contiguous default contexts
  if (docs > 1)
    probe("several_documents");
  if (!one_context)
  {
    for (auto &s : ss)
    {
      std::string out;
      if (c.chance(1, 4))
        out.assign(c.range(1, 40), 'x'); // the caller's string is used as the first output buffer
      log.clear();
      JS::DefaultCallFunctionContext cx(s.text.data(), s.text.size(), out);
      cx.stop_execute_on_fail = stop;
      cx.allow_missing = allow;
      cx.user_context = "uc";
      JS::Error e = fn::call(cx, *host.h);
      ev("call", uint64_t(e), log.size());
      check(s, stop, allow, log, cx, e, out, "default context");
    }
    return;
  }
  Plan p = gen_plan(c, all, true);
  Pipe pipe(c, all, p);
  JS::ParseContext pc;
  pipe.attach(pc.tokenizer);
  pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
  for (auto &s : ss)
  {
    Sink sink(c);
    JS::Serializer ser;
    if (c.coin())
      ser.setOptions(JS::SerializerOptions(JS::SerializerOptions::Compact));
    sink.attach(ser, c.coin());
    log.clear();
    JS::CallFunctionContext cx(pc, ser);
    cx.stop_execute_on_fail = stop;
    cx.allow_missing = allow;
    cx.user_context = "uc";
    JS::Error e = fn::call(cx, *host.h);
    ev("call", uint64_t(e), log.size());
    std::string out = sink.contents();
    evs("returned", out);
    check(s, stop, allow, log, cx, e, out, "stream");
    if (e != JS::Error::NoError)
      return; // the position in the stream is inside the failed document
  }
}
#include "main.hpp"
