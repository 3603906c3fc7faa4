// C06: serialized bytes do not depend on the output buffers.
#include "sink.hpp"
#include "typed.hpp"
using namespace sim;
const char *scenario_id() { return "C06"; }
void warmup() { typed_warmup(); }

static JS::SerializerOptions gen_options(Src &c, bool plain)
{
  JS::SerializerOptions o(c.coin() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
  if (c.chance(1, 3))
    o.setShiftSize((unsigned char)c.below(9));
  if (c.chance(1, 6))
    o.setStyle(c.coin() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
  if (c.chance(1, 6))
    o.setConvertAsciiToString(false);
  if (!plain && c.chance(1, 6))
    o.skipDelimiter(true);
  if (!plain && c.chance(1, 8))
    o.setDepth(int(c.below(7)));
  return o;
}
static void check_prefix(const std::string &got, const std::string &ref, const Sink &s, const char *what)
{
  if (got.size() > ref.size() || ref.compare(0, got.size(), got) != 0)
  {
    size_t i = 0;
    while (i < got.size() && i < ref.size() && got[i] == ref[i])
      i++;
    violate("bytes", "%s: output differs from the one-buffer output at byte %zu of %zu: %s instead of %s", what, i,
            ref.size(), printable(got.substr(i > 10 ? i - 10 : 0), 200).c_str(),
            printable(ref.substr(i > 10 ? i - 10 : 0), 200).c_str());
  }
  if (!s.refused && got.size() != ref.size())
    violate("bytes-lost", "%s: %zu of %zu bytes stored although space was never refused", what, got.size(), ref.size());
  if (s.refused && s.limit != size_t(-1) && got.size() != std::min(s.limit, ref.size()))
    violate("bytes-lost", "%s: %zu bytes stored, the sink took %zu and the output has %zu", what, got.size(), s.limit,
            ref.size());
}
static void typed(Src &c)
{
  const ty::AnyType *t = pick_type(c);
  ev(t->name());
  ty::Val v(t);
  t->gen(c, v.p);
  JS::SerializerOptions o = gen_options(c, false);
  bool def = c.chance(1, 4);
  std::string ref = def ? t->serialize_default(v.p) : t->serialize(v.p, o);
  evs("output", ref);
  if (c.chance(1, 4))
  {
    // SerializerContext growing the caller's string
    std::string out;
    if (c.coin())
      out.assign(c.range(1, 30), 'x');
    {
      JS::SerializerContext sc(out);
      if (!def)
        sc.serializer.setOptions(o);
      if (c.chance(2, 3))
      {
        t->context_serialize(v.p, sc);
        if (out != ref)
          violate("context-bytes", "%s: SerializerContext gives %s before it ends, serializeStruct %s", t->name(),
                  printable(out, 600).c_str(), printable(ref, 600).c_str());
      }
      else
      {
        // through its serializer; the string is complete when flushed, at the latest when the context ends
        JS::Token token;
        t->from(v.p, token, sc.serializer);
        if (c.coin())
        {
          sc.flush();
          if (out != ref)
            violate("context-bytes", "%s: SerializerContext gives %s when flushed, serializeStruct %s", t->name(),
                    printable(out, 600).c_str(), printable(ref, 600).c_str());
        }
      }
    }
    if (out != ref)
      violate("context-bytes", "%s: SerializerContext gives %s, serializeStruct %s", t->name(),
              printable(out, 600).c_str(), printable(ref, 600).c_str());
    probe("serializer_context");
    nontrivial();
    return;
  }
  Sink sink(c);
  if (c.chance(1, 3))
    sink.limit = c.below(uint32_t(ref.size() + 3));
  JS::Serializer s;
  if (!def)
    s.setOptions(o);
  sink.attach(s, c.coin());
  JS::Token token;
  t->from(v.p, token, s);
  std::string got = sink.contents();
  evs("stored", got);
  check_prefix(got, ref, sink, t->name());
}
static void tokens(Src &c)
{
  doc::Syntax sy = doc::gen_syntax(c);
  doc::GenCfg g = doc::gen_cfg(c);
  if (c.chance(1, 10))
    g.max_depth = 300;
  doc::Writer w;
  w.c = &c;
  w.sy = sy;
  w.noise = c.below(3);
  doc::NodeP n = doc::gen_doc(c, g, sy);
  w.document(*n);
  bool plain = c.coin();
  JS::SerializerOptions o = gen_options(c, plain);
  evs("document", w.out);
  // the tokens come out of the real tokenizer
  std::vector<JS::Token> toks;
  {
    JS::Tokenizer t;
    set_syntax(t, sy);
    t.addData(w.out.data(), w.out.size());
    JS::Token token;
    while (t.nextToken(token) == JS::Error::NoError)
      toks.push_back(token);
  }
  std::vector<size_t> ends; // bytes of the reference behind each token
  std::string ref;
  {
    std::vector<char> big(w.out.size() * 20 + 4096 + toks.size() * 3000);
    JS::Serializer s(big.data(), big.size());
    s.setOptions(o);
    for (auto &t : toks)
    {
      if (!s.write(t))
        violate("write-failed", "a write failed although there is space; document: %s", printable(w.out).c_str());
      ends.push_back(s.currentBuffer().used);
    }
    ref.assign(big.data(), s.currentBuffer().used);
  }
  evs("output", ref);
  if (plain && o.convertAsciiToString())
  {
    doc::NodeP r;
    std::string why;
    if (!doc::strict(ref, r, why))
      violate("not-json", "written document is not JSON (%s): %s; document: %s", why.c_str(), printable(ref, 800).c_str(),
              printable(w.out, 800).c_str());
    std::vector<doc::Tok> dummy;
    (void)dummy;
  }
  Sink sink(c);
  if (c.chance(1, 2))
    sink.limit = c.below(uint32_t(ref.size() + 3));
  bool blink = c.chance(1, 4); // the device refuses now and then, and has space again later
  JS::Serializer s;
  s.setOptions(o);
  sink.attach(s, c.coin());
  if (blink)
  {
    sink.limit = size_t(-1);
    uint32_t den = c.pick({2u, 8u, 40u});
    s.setRequestBufferCallback([&, den](JS::Serializer &q) {
      if (c.chance(1, den))
      {
        sink.requests++;
        sink.refused++;
        fault("output_refused_once");
        ev("out-refused");
        if (c.coin())
          q.setBuffer(nullptr, 0);
        return;
      }
      sink.request(q);
    });
  }
  for (size_t i = 0; i < toks.size(); i++)
  {
    uint64_t before = sink.refused;
    bool ok = s.write(toks[i]);
    ev("write", ok);
    if (ok)
    {
      if (sink.refused != before)
        violate("write-claim", "write %zu reports success although space was refused during it", i);
      std::string got = sink.contents();
      if (got.size() != ends[i])
        violate("write-bytes", "after %zu successful writes %zu bytes are stored instead of %zu: %s", i + 1, got.size(),
                ends[i], printable(got, 600).c_str());
      continue;
    }
    if (sink.refused == before)
      violate("write-claim", "write %zu reports failure although space was never refused", i);
    probe("write_reported_failure");
    break;
  }
  std::string got = sink.contents();
  if (blink)
  {
    if (got.size() > ref.size() || ref.compare(0, got.size(), got) != 0)
      violate("bytes", "output is no prefix of the one-buffer output: %s instead of %s", printable(got, 600).c_str(),
              printable(ref, 600).c_str());
  }
  else
    check_prefix(got, ref, sink, "tokens");
}
// raw writes of chosen lengths
static void raw(Src &c)
{
  Sink sink(c);
  std::string all;
  uint32_t n = c.range(1, 12);
  if (c.coin())
    sink.limit = c.below(200);
  JS::Serializer s;
  sink.attach(s, c.coin());
  for (uint32_t i = 0; i < n; i++)
  {
    std::string x(c.weighted({3, 1}) == 0 ? c.below(12) : c.below(120), char('a' + i));
    uint64_t before = sink.refused;
    bool ok = c.coin() ? s.write(x) : s.write(x.data(), x.size());
    all += x;
    if (ok != (sink.refused == before))
      violate("write-claim", "a raw write of %zu bytes reports %d", x.size(), int(ok));
    if (!ok)
      break;
    if (sink.contents() != all)
      violate("bytes", "raw writes stored %s instead of %s", printable(sink.contents()).c_str(), printable(all).c_str());
  }
  check_prefix(sink.contents(), all, sink, "raw");
}
static void reformat(Src &c)
{
  doc::GenCfg g = doc::gen_cfg(c);
  doc::Writer w;
  w.c = &c;
  w.noise = c.below(4);
  doc::NodeP n = doc::gen_doc(c, g, doc::Syntax());
  w.document(*n);
  JS::SerializerOptions o = gen_options(c, true);
  evs("document", w.out);
  std::string out;
  if (c.coin())
    out.assign(c.range(1, 60), 'x');
  JS::Error e = JS::reformat(w.out, out, o);
  if (e != JS::Error::NoError)
    violate("reformat-error", "reformat failed with %d; document: %s", int(e), printable(w.out).c_str());
  Sink sink(c);
  JS::Serializer s;
  s.setOptions(o);
  sink.attach(s, c.coin());
  JS::Tokenizer t;
  t.addData(w.out.data(), w.out.size());
  JS::Token token;
  while (t.nextToken(token) == JS::Error::NoError)
    if (!s.write(token))
      violate("write-failed", "a write failed although there is space; document: %s", printable(w.out).c_str());
  std::string got = sink.contents();
  evs("output", got);
  if (got != out)
    violate("reformat-bytes", "reformat gives %s, writing the tokens gives %s; document: %s", printable(out, 700).c_str(),
            printable(got, 700).c_str(), printable(w.out, 500).c_str());
  doc::NodeP r;
  std::string why;
  if (!doc::strict(out, r, why) || !doc::same(*r, *n))
    violate("reformat-value", "reformat changed the document (%s): %s; document: %s", why.c_str(),
            printable(out, 700).c_str(), printable(w.out, 500).c_str());
  // idempotent: formatting the formatted text changes nothing
  std::string again;
  if (JS::reformat(out, again, o) != JS::Error::NoError || again != out)
    violate("reformat-again", "formatting the formatted text gives %s instead of %s", printable(again, 700).c_str(),
            printable(out, 700).c_str());
}
void scenario(Src &c)
{
  switch (c.weighted({5, 5, 1, 2}))
  {
  case 0:
    typed(c);
    break;
  case 1:
    tokens(c);
    break;
  case 2:
    raw(c);
    break;
  default:
    reformat(c);
  }
}
#include "main.hpp"
