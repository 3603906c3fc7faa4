// C01: the token stream does not depend on how the input is delivered.
#include "tokens.hpp"
using namespace sim;
const char *scenario_id() { return "C01"; }
void warmup()
{
  JS::Tokenizer t;
  t.addData("[1]", 3);
  JS::Token k;
  t.nextToken(k);
}

static void well_formed(Src &c)
{
  doc::Syntax sy = doc::gen_syntax(c);
  doc::GenCfg g = doc::gen_cfg(c);
  g.raw_control = c.chance(1, 4);
  doc::Writer w;
  w.c = &c;
  w.sy = sy;
  w.noise = c.below(4);
  uint32_t docs = c.weighted({5, 2, 1}) + 1;
  for (uint32_t i = 0; i < docs; i++)
  {
    doc::NodeP n = doc::gen_doc(c, g, sy);
    w.document(*n);
  }
  evs("document", w.out);
  Plan p = gen_plan(c, w.out, false);
  Pipe pipe(c, w.out, p);
  JS::Tokenizer t;
  set_syntax(t, sy);
  pipe.attach(t);
  ReadResult r = read_all(c, pipe, t, true);
  size_t n = std::min(r.toks.size(), w.toks.size());
  for (size_t i = 0; i < n; i++)
    check_token(r.toks[i], w.toks[i], i, w.out);
  if (r.err != JS::Error::NeedMoreData)
    violate("rejected", "well-formed document rejected with error %d after %zu of %zu tokens; document: %s", int(r.err),
            r.toks.size(), w.toks.size(), printable(w.out).c_str());
  if (r.toks.size() != w.toks.size())
    violate("token-count", "%zu tokens read, the document has %zu; document: %s", r.toks.size(), w.toks.size(),
            printable(w.out).c_str());
  if (w.comments_written)
    probe("doc_with_comment");
  if (docs > 1)
    probe("several_documents");
}
// a damaged document: same tokens, same verdict under every delivery
static void damaged(Src &c)
{
  doc::Syntax sy = doc::gen_syntax(c);
  doc::GenCfg g = doc::gen_cfg(c);
  doc::Writer w;
  w.c = &c;
  w.sy = sy;
  w.noise = c.below(3);
  w.document(*doc::gen_doc(c, g, sy));
  std::string d = w.out;
  doc::damage(c, d, false);
  evs("document", d);
  // reference: one buffer, all at once
  std::vector<Seen> ref;
  JS::Error ref_err;
  {
    Plan p;
    p.parts.push_back(std::make_pair(size_t(0), d.size()));
    Pipe pipe(c, d, p);
    JS::Tokenizer t;
    set_syntax(t, sy);
    pipe.attach(t);
    ReadResult r = read_all(c, pipe, t, false);
    ref = r.toks;
    ref_err = r.err;
  }
  if (ref_err != JS::Error::NeedMoreData)
    probe("damaged_rejected");
  Plan p = gen_plan(c, d, false);
  Pipe pipe(c, d, p);
  JS::Tokenizer t;
  set_syntax(t, sy);
  pipe.attach(t);
  ReadResult r = read_all(c, pipe, t, true);
  for (size_t i = 0; i < std::min(ref.size(), r.toks.size()); i++)
    if (!(ref[i] == r.toks[i]))
      violate("delivery-token", "token %zu depends on the delivery: whole buffer %s, in pieces %s; input: %s", i,
              show(ref[i]).c_str(), show(r.toks[i]).c_str(), printable(d).c_str());
  if (ref.size() != r.toks.size() || ref_err != r.err)
    violate("delivery-verdict",
            "verdict depends on the delivery: whole buffer %zu tokens then error %d, in pieces %zu tokens then error "
            "%d; input: %s",
            ref.size(), int(ref_err), r.toks.size(), int(r.err), printable(d).c_str());
}
void scenario(Src &c)
{
  if (c.chance(1, 4))
    damaged(c);
  else
    well_formed(c);
}
#include "main.hpp"
