#pragma once
#include "calls.hpp"
#include "universe.hpp"
namespace fn
{
using uni::Leaf;
using uni::Named;
template <class T>
std::string canon(const T &v)
{
  Src c;
  static const uint32_t none = 0;
  uint32_t keep = sim::shared()->ntape;
  c.replay = true;
  c.rt = &none;
  c.rn = 0;
  T copy{}, def{};
  ty::U<T>::copy(copy, v);
  ty::TW tw;
  tw.w.c = &c;
  tw.plain = true;
  ty::U<T>::write(tw, copy, def);
  sim::shared()->ntape = keep;
  return tw.w.out;
}
// what f_err reports; MissingFunction and the like are the function's own affair here
inline JS::Error f_err_code(int x)
{
  static const JS::Error codes[] = {JS::Error::UserDefinedErrors, JS::Error::MissingFunction, JS::Error::NeedMoreData,
                                    JS::Error::ScopeHasEnded,     JS::Error::UnknownError,    JS::Error::MissingPropertyMember};
  return codes[size_t(x / 2) % (sizeof codes / sizeof *codes)];
}
std::function<void()> &on_call()
{
  static std::function<void()> f;
  return f;
}
static void note(std::vector<Rec> *log, const Rec &r)
{
  log->push_back(r);
  if (on_call())
    on_call()();
}
struct Base1
{
  std::vector<Rec> *log = nullptr;
  bool g_bool(const bool &b)
  {
    note(log, {"g_bool", canon(b)});
    return !b;
  }
  // hidden by a function of the derived class
  int base_f_err(const int &x)
  {
    note(log, {"Base1::f_err", canon(x)});
    return -1;
  }
  JS_FUNCTION_CONTAINER(JS_FUNCTION(g_bool), JS_FUNCTION_WITH_NAME(base_f_err, "f_err"));
};
struct Base2
{
  std::vector<Rec> *log2 = nullptr;
  std::map<std::string, int> g_map(const std::map<std::string, int> &m)
  {
    note(log2, {"g_map", canon(m)});
    std::map<std::string, int> r = m;
    r["n"] = int(m.size());
    return r;
  }
  void g_opt(const std::optional<int> &o)
  {
    note(log2, {"g_opt", o ? canon(*o) : "none"});
  }
  JS_FUNC_OBJ(g_map, g_opt);
};
struct Host : Base1, Base2
{
  int f_int(const int &x)
  {
    note(log, {"f_int", canon(x)});
    return x == 0 ? 1 : x / 2;
  }
  std::string f_str(const std::string &s)
  {
    note(log, {"f_str", canon(s)});
    return s + "!";
  }
  Leaf f_obj(const Leaf &l, JS::CallFunctionContext &)
  {
    note(log, {"f_obj", canon(l)});
    Leaf r = l;
    r.s += "?";
    return r;
  }
  void f_vec(const std::vector<double> &v)
  {
    note(log, {"f_vec", canon(v)});
  }
  int f_void()
  {
    note(log, {"f_void", ""});
    return 7;
  }
  void f_vv()
  {
    note(log, {"f_vv", ""});
  }
  int f_err(const int &x, JS::CallFunctionErrorContext &ec)
  {
    note(log, {"f_err", canon(x)});
    if (x % 2)
    {
      if (f_err_code(x) == JS::Error::UserDefinedErrors)
        ec.setError("message-" + std::to_string(x) + "-end");
      else
        ec.setError(f_err_code(x), "message-" + std::to_string(x) + "-end");
    }
    return x;
  }
  void f_verr(const std::string &s, JS::CallFunctionErrorContext &ec)
  {
    note(log, {"f_verr", canon(s)});
    if (s.size() % 2)
      ec.setError(JS::Error::IllegalDataValue, "message-" + std::to_string(s.size()) + "-end");
  }
  // every shape: with or without a return value, an argument, an error context or the whole context
  void rep(const char *name, const std::string &arg) { note(log, {name, arg}); }
  int h_ra2(const int &x, JS::CallFunctionContext &cx)
  {
    rep("h_ra2", canon(x));
    if (x % 2)
      cx.error_context.setError(JS::Error::KeyNotFound, "message-" + std::to_string(x) + "-end");
    return x;
  }
  void h_va2(const int &x, JS::CallFunctionContext &cx)
  {
    rep("h_va2", canon(x));
    if (x % 2)
      cx.error_context.setError(JS::Error::FailedToParseInt, "message-" + std::to_string(x) + "-end");
  }
  int h_r1(JS::CallFunctionErrorContext &)
  {
    rep("h_r1", "");
    return 3;
  }
  int h_r1_bad(JS::CallFunctionErrorContext &ec)
  {
    rep("h_r1_bad", "");
    ec.setError("message-h_r1_bad-end");
    return 4;
  }
  std::string h_r2(JS::CallFunctionContext &)
  {
    rep("h_r2", "");
    return "five";
  }
  std::string h_r2_bad(JS::CallFunctionContext &cx)
  {
    rep("h_r2_bad", "");
    cx.error_context.setError("message-h_r2_bad-end");
    return "six";
  }
  void h_v1(JS::CallFunctionErrorContext &) { rep("h_v1", ""); }
  void h_v1_bad(JS::CallFunctionErrorContext &ec)
  {
    rep("h_v1_bad", "");
    ec.setError("message-h_v1_bad-end");
  }
  void h_v2_bad(JS::CallFunctionContext &cx)
  {
    rep("h_v2_bad", "");
    cx.error_context.setError("message-h_v2_bad-end");
  }
  Named f_named(const Named &n, JS::CallFunctionContext &)
  {
    note(log, {"f_named", canon(n)});
    return n;
  }
  std::string f_raw(const JS::JsonObjectOrArray &r)
  {
    note(log, {"f_raw", r.data});
    return r.data;
  }
  void f_vctx(JS::CallFunctionContext &)
  {
    note(log, {"f_vctx", ""});
  }
  void f_long_name_that_is_longer_than_sixteen(const std::vector<std::string> &v, JS::CallFunctionContext &)
  {
    note(log, {"f_long", canon(v)});
  }
  // a function that itself executes a document of calls
  std::string f_nest(const JS::JsonObject &o, JS::CallFunctionContext &)
  {
    note(log, {"f_nest", ""});
    std::string out;
    JS::DefaultCallFunctionContext inner(o.data.data(), o.data.size(), out);
    JS::Error e = inner.callFunctions(*this);
    if (e != JS::Error::NoError)
      return "inner error";
    return "done " + std::to_string(inner.execution_list.size());
  }
  JS_FUNCTION_CONTAINER_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(Base1), JS_SUPER_CLASS(Base2)), JS_FUNCTION(f_int),
                                   JS_FUNCTION_ALIASES(f_str, "f_string", "f_int2"), JS_FUNCTION(f_obj),
                                   JS_FUNCTION(f_vec), JS_FUNCTION(f_void), JS_FUNCTION(f_vv), JS_FUNCTION(f_err),
                                   JS_FUNCTION(f_verr), JS_FUNCTION_ALIASES(h_ra2, "f_err", "h_ra_two"), JS_FUNCTION(h_va2), JS_FUNCTION(h_r1), JS_FUNCTION(h_r1_bad),
                                   JS_FUNCTION(h_r2), JS_FUNCTION(h_r2_bad), JS_FUNCTION(h_v1), JS_FUNCTION(h_v1_bad), JS_FUNCTION(h_v2_bad), JS_FUNCTION_WITH_NAME(f_named, "f named"),
                                   JS_FUNCTION(f_raw), JS_FUNCTION(f_vctx),
                                   JS_FUNCTION(f_long_name_that_is_longer_than_sixteen), JS_FUNCTION(f_nest));
};
Host *make_host(std::vector<Rec> *log)
{
  Host *h = new Host();
  h->log = log;
  h->log2 = log;
  return h;
}
void destroy_host(Host *h)
{
  delete h;
}
JS::Error call(JS::CallFunctionContext &ctx, Host &h)
{
  return ctx.callFunctions(h);
}
std::string results(JS::CallFunctionContext &ctx)
{
  return JS::serializeStruct(ctx.execution_list);
}
template <class T>
static std::string text_of(Src &c, T &v, uint32_t noise, std::vector<std::string> *missing = nullptr,
                           std::vector<std::string> *unassigned = nullptr)
{
  ty::TW tw;
  tw.w.c = &c;
  tw.w.noise = noise;
  tw.shuffle = c.coin();
  tw.inject_unknown = missing && c.coin();
  tw.omit = unassigned && c.chance(1, 3);
  T def{};
  ty::U<T>::write(tw, v, def);
  if (unassigned)
    *unassigned = tw.unassigned;
  if (missing)
    *missing = tw.missing;
  return tw.w.out;
}
static std::string junk(Src &c)
{
  doc::GenCfg g;
  g.max_nodes = c.range(1, 6);
  g.max_depth = 4;
  doc::Writer w;
  w.c = &c;
  uint32_t budget = g.max_nodes;
  doc::Tok t;
  w.value(*doc::gen_node(c, g, doc::Syntax(), 1, budget), t);
  return w.out;
}
void gen_script(Src &c, Script &s, uint32_t noise, uint32_t depth)
{
  doc::Writer w;
  w.c = &c;
  w.noise = noise;
  uint32_t n = c.below(depth ? 3 : 9);
  w.out += "{";
  w.ws(true);
  for (uint32_t i = 0; i < n; i++)
  {
    Member m;
    std::string arg;
    bool bad = c.chance(1, 5);
    switch (c.below(21))
    {
    case 0: {
      m.name = m.rec_name = "f_int";
      int x;
      ty::U<int>::gen(c, x, 1);
      arg = text_of(c, x, noise);
      m.rec_arg = canon(x);
      m.returns = true;
      m.ret = canon(x == 0 ? 1 : x / 2);
      if (bad)
        arg = c.pick(std::vector<std::string>{"\"abc\"", "{\"a\":[1,{\"b\":2}],\"c\":3}", "[1]", "[[[]],{}]", "true", "1.5.5"});
      if (bad && arg == "1.5.5")
        arg = "\"1\\n2\"";
      break;
    }
    case 1:
    case 2: {
      m.name = c.pick(std::vector<std::string>{"f_str", "f_string", "f_int2"});
      m.rec_name = "f_str";
      std::string x;
      ty::U<std::string>::gen(c, x, 1);
      arg = text_of(c, x, noise);
      m.rec_arg = canon(x);
      m.returns = true;
      m.ret = canon(x + "!");
      bad = false;
      break;
    }
    case 3: {
      m.name = m.rec_name = "f_obj";
      Leaf x;
      ty::U<Leaf>::gen(c, x, 2);
      arg = text_of(c, x, noise, &m.missing, &m.unassigned);
      m.rec_arg = canon(x);
      m.returns = true;
      Leaf r = x;
      r.s += "?";
      m.ret = canon(r);
      if (bad)
      {
        m.missing.clear();
        arg = c.pick(std::vector<std::string>{"1", "[{\"x\":1}]", "{\"x\":\"no\",\"s\":\"t\",\"more\":{\"x\":[{}]}}", "null"});
      }
      break;
    }
    case 4: {
      m.name = m.rec_name = "f_vec";
      std::vector<double> x;
      ty::U<std::vector<double>>::gen(c, x, 2);
      arg = text_of(c, x, noise);
      m.rec_arg = canon(x);
      if (bad)
        arg = c.pick(std::vector<std::string>{"1", "{\"a\":[1]}", "[1,2,\"x\",[3],4]", "[[1],[2]]"});
      break;
    }
    case 18:
    case 19: {
      m.name = m.rec_name = c.coin() ? "h_ra2" : "h_va2";
      int x = int(c.below(1000));
      arg = canon(x);
      m.rec_arg = canon(x);
      m.returns = m.name == "h_ra2";
      m.ret = canon(x);
      if (bad)
        arg = c.pick(std::vector<std::string>{"\"\"", "{}", "[3]", "[{\"h_v1\":3}]"});
      else if (x % 2)
      {
        m.out = UserError;
        m.code = int(m.returns ? JS::Error::KeyNotFound : JS::Error::FailedToParseInt);
        m.message = "message-" + std::to_string(x) + "-end";
      }
      break;
    }
    case 20: {
      m.name = m.rec_name = c.pick(std::vector<std::string>{"h_r1", "h_r2", "h_v1", "h_r1_bad", "h_r2_bad", "h_v1_bad", "h_v2_bad"});
      arg = c.coin() ? "null" : junk(c);
      bad = false;
      m.returns = m.name == "h_r1" || m.name == "h_r2";
      m.ret = m.name == "h_r1" ? "3" : "\"five\"";
      if (m.name.size() > 4)
      {
        m.out = UserError;
        m.message = "message-" + m.name + "-end";
      }
      break;
    }
    case 5:
      m.name = m.rec_name = "f_void";
      arg = c.coin() ? "[]" : junk(c);
      m.returns = true;
      m.ret = "7";
      bad = false;
      break;
    case 6:
      m.name = m.rec_name = c.coin() ? "f_vv" : "f_vctx";
      arg = c.coin() ? "null" : junk(c);
      bad = false;
      break;
    case 7:
    case 8: {
      m.name = m.rec_name = "f_err";
      int x = int(c.below(100000));
      arg = canon(x);
      m.rec_arg = canon(x);
      m.returns = true;
      m.ret = canon(x);
      if (bad)
        arg = c.pick(std::vector<std::string>{"\"\"", "{}", "[{\"f_int\":3}]"});
      else if (x % 2)
      {
        m.out = UserError;
        m.code = int(f_err_code(x));
        m.message = "message-" + std::to_string(x) + "-end";
      }
      break;
    }
    case 9: {
      m.name = m.rec_name = "f_verr";
      std::string x;
      ty::U<std::string>::gen(c, x, 1);
      arg = text_of(c, x, noise);
      m.rec_arg = canon(x);
      bad = false;
      if (x.size() % 2)
      {
        m.out = UserError;
        m.code = int(JS::Error::IllegalDataValue);
        m.message = "message-" + std::to_string(x.size()) + "-end";
      }
      break;
    }
    case 10: {
      m.name = "f named";
      m.rec_name = "f_named";
      Named x;
      ty::U<Named>::gen(c, x, 2);
      arg = text_of(c, x, noise, &m.missing, &m.unassigned);
      m.rec_arg = canon(x);
      m.returns = true;
      m.ret = canon(x);
      if (bad)
      {
        m.missing.clear();
        arg = c.pick(std::vector<std::string>{"\"x\"", "[]", "{\"fourth\":[1,{}],\"first\":1}"});
      }
      break;
    }
    case 11: {
      m.name = m.rec_name = "f_raw";
      JS::JsonObjectOrArray x;
      ty::U<JS::JsonObjectOrArray>::gen(c, x, 2);
      arg = text_of(c, x, noise);
      m.rec_arg = x.data;
      m.returns = true;
      m.ret = canon(x.data);
      if (bad)
        arg = c.pick(std::vector<std::string>{"1", "\"[]\"", "false"});
      break;
    }
    case 12: {
      m.name = "f_long_name_that_is_longer_than_sixteen";
      m.rec_name = "f_long";
      std::vector<std::string> x;
      ty::U<std::vector<std::string>>::gen(c, x, 2);
      arg = text_of(c, x, noise);
      m.rec_arg = canon(x);
      if (bad)
        arg = c.pick(std::vector<std::string>{"{\"a\":1}", "true"});
      break;
    }
    case 13: {
      m.name = m.rec_name = "g_bool";
      bool x = c.coin();
      arg = canon(x);
      m.rec_arg = canon(x);
      m.returns = true;
      m.ret = canon(!x);
      if (bad)
        arg = c.pick(std::vector<std::string>{"{\"true\":true}", "[true]"});
      break;
    }
    case 14: {
      m.name = m.rec_name = "g_map";
      std::map<std::string, int> x;
      ty::U<std::map<std::string, int>>::gen(c, x, 2);
      arg = text_of(c, x, noise);
      m.rec_arg = canon(x);
      m.returns = true;
      std::map<std::string, int> r = x;
      r["n"] = int(x.size());
      m.ret = canon(r);
      if (bad)
        arg = c.pick(std::vector<std::string>{"[1]", "{\"a\":{\"b\":1},\"c\":2}", "4"});
      break;
    }
    case 15: {
      if (depth < 2)
      {
        m.name = m.rec_name = "f_nest";
        Script in;
        gen_script(c, in, noise, depth + 1);
        arg = in.text;
        m.returns = true;
        size_t own = 0;
        for (auto &im : in.members)
          own += !(im.name.empty() && im.rec_name.size());
        m.ret = "\"done " + std::to_string(own) + "\"";
        if (bad)
          arg = c.pick(std::vector<std::string>{"[1]", "5"});
        else
        {
          m.called = true;
          // the inner calls happen during this one
          w.out += i ? "," : "";
          w.out += "\"" + m.name + "\":" + arg;
          s.members.push_back(m);
          Member sep;
          sep.out = Ok;
          for (auto &im : in.members)
          {
            im.name = ""; // not a member of this document, only an invocation
            if (im.called)
              s.members.push_back(im);
          }
          continue;
        }
        break;
      }
    }
      // fallthrough
    case 16: {
      m.name = c.pick(std::vector<std::string>{"f_in", "f_intt", "", "nothing", "f_named", "F_int", "g_boo", "log"});
      m.out = Missing;
      arg = junk(c);
      bad = false;
      break;
    }
    default: {
      m.name = m.rec_name = "g_opt";
      std::optional<int> x;
      int v;
      ty::U<int>::gen(c, v, 1);
      x = v;
      arg = text_of(c, v, noise);
      m.rec_arg = canon(v);
      if (bad)
        arg = "[[],[1]]";
    }
    }
    if (bad)
      m.out = BadArg;
    if (m.out == UserError && !m.code)
      m.code = int(JS::Error::UserDefinedErrors);
    m.called = m.out == Ok || m.out == UserError;
    if (m.out != Ok)
      m.returns = false;
    if (i)
    {
      w.ws(true);
      w.out += ",";
    }
    w.ws(true);
    w.out += "\"" + m.name + "\"";
    w.ws(true);
    w.out += ":";
    w.ws(true);
    w.out += arg;
    s.members.push_back(m);
  }
  w.ws(true);
  w.out += "}";
  s.text = w.out;
}
} // namespace fn
