// C03: input buffers are only used between handing over and release.
#include "types.hpp"
#include "typed.hpp"
using namespace sim;
const char *scenario_id() { return "C03"; }
void warmup() { typed_warmup(); }

// which outstanding buffer a pointer lies in; -1 none
static int owner(const Pipe &p, const char *d, size_t n)
{
  for (size_t i = p.next_release; i < p.bufs.size(); i++)
    if (d >= p.bufs[i].mem && d + n <= p.bufs[i].mem + p.bufs[i].size)
      return int(i);
  return -1;
}
static void check_position(const Pipe &p, const JS::Token &t)
{
  // a token that lies in a later buffer means the earlier ones are consumed and must be released
  if (!p.plan.use_release)
    return;
  if (t.value.size == 0)
    return;
  int o = owner(p, t.value.data, t.value.size);
  if (o > int(p.next_release))
    violate("release-late", "a token lies in buffer %d while buffer %zu has not been released", o, p.next_release);
}
static void document(Src &c, doc::Writer &w, const doc::Syntax &sy, uint32_t docs)
{
  doc::GenCfg g = doc::gen_cfg(c);
  w.c = &c;
  w.sy = sy;
  w.noise = c.below(4);
  for (uint32_t i = 0; i < docs; i++)
    w.document(*doc::gen_doc(c, g, sy));
}
static void tokens(Src &c)
{
  doc::Syntax sy = doc::gen_syntax(c);
  doc::Writer w;
  document(c, w, sy, c.weighted({3, 1, 1}) + 1);
  std::string d = w.out;
  bool dmg = c.chance(1, 5);
  if (dmg)
    doc::damage(c, d, true);
  evs("document", d);
  Plan p = gen_plan(c, d, false);
  p.use_release = true;
  Pipe pipe(c, d, p);
  pipe.recycle = c.chance(1, 3);
  JS::Tokenizer t;
  set_syntax(t, sy);
  pipe.attach(t);
  JS::Token token;
  size_t n = 0;
  size_t reset_at = c.chance(1, 4) ? c.below(uint32_t(w.toks.size() + 2)) : size_t(-1);
  uint64_t calls = 0;
  for (;;)
  {
    if (n == reset_at)
    {
      // replacing the data reports every registered buffer, once
      probe("reset_data");
      const char other[] = "[1,2]";
      size_t registered = t.registeredBuffers();
      if (pipe.added - pipe.released != registered)
        violate("registered-count", "%zu buffers registered, the owner has %llu outstanding", registered,
                (unsigned long long)(pipe.added - pipe.released));
      pipe.plan.parts.resize(pipe.next); // nothing more is delivered
      char *mem = static_cast<char *>(malloc(5));
      memcpy(mem, other, 5);
      ev("reset", registered);
      JS::JsonTokens list;
      if (c.coin())
      {
        // replaced by a list of tokens
        JS::ParseContext lp(mem, 5);
        (void)lp.parseTo(list);
        t.resetData(&list.data, c.below(2));
        probe("reset_to_tokens");
      }
      else
        t.resetData(mem, 5, 0);
      if (pipe.added != pipe.released)
        violate("reset-release", "resetData released %llu of %llu buffers", (unsigned long long)pipe.released,
                (unsigned long long)pipe.added);
      // from here on only the new buffer may be touched
      pipe.drop_all();
      std::function<void(const char *)> none;
      t.setReleaseCallback(none);
      t.setNeedMoreDataCallback(std::function<void(JS::Tokenizer &)>());
      for (int i = 0; i < 6; i++)
        if (t.nextToken(token) == JS::Error::NoError)
          (void)snapshot(token);
      (void)t.makeErrorString();
      free(mem);
      return;
    }
    if (++calls > 64 + 20 * (d.size() + p.parts.size()))
      violate("no-progress", "reading did not finish");
    JS::Error e = t.nextToken(token);
    ev("nextToken", uint64_t(e));
    if (e == JS::Error::NoError)
    {
      Seen s = snapshot(token);
      check_position(pipe, token);
      evs("tok", s.value);
      if (!dmg && n < w.toks.size())
        check_token(s, w.toks[n], n, d);
      n++;
      // time passes, other buffers arrive; the token must stay as it is
      if ((p.mode == Mode::Push || p.mode == Mode::Mixed) && !pipe.exhausted() && c.chance(1, 8))
      {
        fault("early_push");
        pipe.feed();
      }
      if (c.chance(1, 16))
        (void)t.makeErrorString();
      Seen again = snapshot(token);
      if (!(s == again))
        violate("token-changed", "a returned token changed before the next call: %s became %s", show(s).c_str(),
                show(again).c_str());
      if (c.chance(1, 12) && (token.value_type == JS::Type::ObjectStart || token.value_type == JS::Type::ArrayStart))
      {
        // skip over the value while buffers come and go
        if (dmg)
          continue;
        p.stall = 0;
        if (p.mode != Mode::Callback && p.mode != Mode::Upfront)
          continue;
        if (pipe.plan.stall)
          continue;
        probe("skip_scope");
        t.pushScope(token.value_type);
        JS::Error se = t.goToEndOfScope(token);
        if (se != JS::Error::NoError)
          violate("skip-error", "goToEndOfScope failed with %d", int(se));
        t.popScope();
        n--;
        size_t depth = 0;
        do
        {
          auto ty = w.toks[n].type;
          if (ty == doc::T::Obj || ty == doc::T::Arr)
            depth++;
          if (ty == doc::T::ObjEnd || ty == doc::T::ArrEnd)
            depth--;
          n++;
        } while (depth);
        s = snapshot(token);
        check_token(s, w.toks[n - 1], n - 1, d);
      }
      continue;
    }
    if (e == JS::Error::NeedMoreData)
    {
      if (t.registeredBuffers() != 0)
        violate("buffer-kept", "NeedMoreData was returned while %zu buffers are still registered", t.registeredBuffers());
      if (pipe.released != pipe.added)
        violate("release-missing", "NeedMoreData was returned but only %llu of %llu buffers were released",
                (unsigned long long)pipe.released, (unsigned long long)pipe.added);
      if (!pipe.exhausted())
      {
        pipe.feed();
        continue;
      }
    }
    // the error text must not need a released buffer
    std::string es = t.makeErrorString();
    evs("error", es);
    break;
  }
  if (!dmg && reset_at == size_t(-1) && n != w.toks.size())
    violate("token-count", "%zu tokens read, the document has %zu; document: %s", n, w.toks.size(), printable(d).c_str());
}
static void typed(Src &c)
{
  const ty::AnyType *t = pick_type(c);
  ev(t->name());
  doc::Syntax sy = typed_syntax(c);
  ty::TW tw;
  tw_options(c, tw, sy);
  tw.inject_unknown = c.coin();
  tw.omit = c.chance(1, 4);
  ty::Val want(t), got(t), start(t);
  t->gen(c, want.p);
  t->write(tw, want.p, start.p);
  std::string d = tw.w.out;
  bool dmg = c.chance(1, 4);
  if (dmg)
    doc::damage(c, d, false);
  evs("document", d);
  Plan p = gen_plan(c, d, true);
  p.use_release = true;
  {
    Pipe pipe(c, d, p);
    pipe.recycle = c.chance(1, 3);
    JS::ParseContext pc;
    set_syntax(pc.tokenizer, sy);
    pipe.attach(pc.tokenizer);
    pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
    JS::Error e = t->parse(pc, got.p);
    ev("parse", uint64_t(e));
    if (e == JS::Error::NeedMoreData && pipe.released != pipe.added)
      violate("release-missing", "NeedMoreData was returned but only %llu of %llu buffers were released",
              (unsigned long long)pipe.released, (unsigned long long)pipe.added);
    if (pipe.added - pipe.released != pc.tokenizer.registeredBuffers())
      violate("registered-count", "%zu buffers registered, the owner has %llu outstanding",
              pc.tokenizer.registeredBuffers(), (unsigned long long)(pipe.added - pipe.released));
    evs("error", pc.makeErrorString());
    if (!dmg && e != JS::Error::NoError)
      violate("rejected", "%s: matching document rejected with error %d; document: %s", t->name(), int(e),
              printable(d, 1500).c_str());
    if (c.coin())
    {
      probe("reset_after_parse");
      pipe.plan.parts.resize(pipe.next);
      pc.tokenizer.resetData("", 0, 0);
      if (pipe.added != pipe.released)
        violate("reset-release", "resetData released %llu of %llu buffers", (unsigned long long)pipe.released,
                (unsigned long long)pipe.added);
    }
  }
  // every buffer is gone now; the result must not depend on any of them
  if (!dmg && !t->eq(want.p, got.p))
    violate("value", "%s: parsed %s but the document states %s; document: %s", t->name(),
            printable(ty::text(t, got.p), 1200).c_str(), printable(ty::text(t, want.p), 1200).c_str(),
            printable(d, 1500).c_str());
  ty::Val other(t);
  t->copy(other.p, got.p);
  evs("value", ty::text(t, got.p));
}
void scenario(Src &c)
{
  if (c.chance(1, 2))
    typed(c);
  else
    tokens(c);
}
#include "main.hpp"
