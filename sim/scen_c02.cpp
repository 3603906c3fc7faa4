// C02: a typed parse yields the document's values however the input arrives.
#include "types.hpp"
#include "typed.hpp"
using namespace sim;
const char *scenario_id() { return "C02"; }
void warmup() { typed_warmup(); }

void scenario(Src &c)
{
  const ty::AnyType *t = pick_type(c);
  ev(t->name());
  doc::Syntax sy = typed_syntax(c);
  ty::TW tw;
  tw_options(c, tw, sy);
  tw.inject_unknown = c.coin();
  tw.omit = c.chance(1, 3);
  ty::Val want(t), got(t), start(t);
  t->gen(c, want.p);
  bool used = c.chance(1, 5); // the target may hold values already
  if (used)
  {
    t->gen(c, start.p);
    t->copy(got.p, start.p);
    t->copy(start.p, got.p);
    probe("target_in_use");
  }
  t->write(tw, want.p, start.p);
  const std::string &d = tw.w.out;
  evs("document", d);
  bool strict_missing = c.chance(1, 8), strict_unassigned = c.chance(1, 8), track = !c.chance(1, 10);
  struct Entry
  {
    std::unique_ptr<JS::ParseContext> pc;
    ~Entry() { ty::raw_by_content = false; }
  } en;
  Plan p = gen_plan(c, d, true);
  Pipe pipe(c, d, p);
  JS::JsonTokens list;
  const char *how = "buffers";
  switch (c.weighted({8, 1, d.find('\0') == std::string::npos ? 1u : 0u, sy.ascii ? 0u : 1u}))
  {
  case 0:
    en.pc.reset(new JS::ParseContext());
    // the rest of the stream may be a stream of further documents
    pipe.attach(en.pc->tokenizer);
    if (p.mode == Mode::Mixed)
      en.pc->tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &) { pipe.request(); });
    break;
  case 1:
    en.pc.reset(new JS::ParseContext(d));
    probe("from_string");
    break;
  case 2:
    en.pc.reset(new JS::ParseContext(d.c_str()));
    probe("from_c_string");
    break;
  default: {
    // the tokens of the document are read first, the value is then made from them
    JS::ParseContext first(d.data(), d.size());
    set_syntax(first.tokenizer, sy);
    JS::Error e = first.parseTo(list);
    if (e != JS::Error::NoError)
      violate("rejected", "%s: reading the tokens of a document failed with error %d; document: %s", t->name(), int(e),
              printable(d, 1500).c_str());
    en.pc.reset(new JS::ParseContext());
    if (c.coin())
      en.pc->tokenizer.addData(&list.data);
    else
      en.pc->tokenizer.resetData(&list.data, 0);
    ty::raw_by_content = true;
    how = "tokens";
    probe("from_tokens");
  }
  }
  JS::ParseContext &pc = *en.pc;
  set_syntax(pc.tokenizer, sy);
  pc.allow_missing_members = !strict_missing;
  pc.allow_unasigned_required_members = !strict_unassigned;
  pc.track_member_assignement_state = track;
  JS::Error e = t->parse(pc, got.p);
  ev("parse", uint64_t(e));
  bool expect_missing_error = strict_missing && !tw.missing.empty();
  bool expect_unassigned_error = strict_unassigned && !tw.unassigned.empty();
  if (expect_missing_error || expect_unassigned_error)
  {
    probe("strict_rejection_expected");
    if (e == JS::Error::NoError)
      violate("strict-accepted", "%s: document with undeclared [%s] / unassigned [%s] members accepted although not allowed; document: %s",
              t->name(), join(tw.missing, false).c_str(), join(tw.unassigned, true).c_str(), printable(d).c_str());
    bool m = e == JS::Error::MissingPropertyMember || e == JS::Error::UnknownPropertyMember;
    bool u = e == JS::Error::UnassignedRequiredMember;
    if (!((m && expect_missing_error) || (u && expect_unassigned_error)))
      violate("strict-error", "%s: error %d reported for undeclared [%s] / unassigned [%s] members; document: %s",
              t->name(), int(e), join(tw.missing, false).c_str(), join(tw.unassigned, true).c_str(),
              printable(d).c_str());
    // which ones they were is known as far as the parse came
    if (track && m && (pc.missing_members.size() != 1 || pc.missing_members[0] != tw.missing[0]))
      violate("missing-members", "%s: missing_members is [%s] although [%s] is the member that was rejected; document: %s", t->name(),
              printable(join(pc.missing_members, false)).c_str(), printable(tw.missing[0]).c_str(), printable(d, 1500).c_str());
    if (track && u && pc.unassigned_required_members.empty())
      violate("unassigned-members", "%s: rejected for unassigned members, but none is reported; document: %s", t->name(),
              printable(d, 1500).c_str());
    if (!track && (pc.missing_members.size() || pc.unassigned_required_members.size()))
      violate("missing-members", "%s: members are recorded although not asked for; document: %s", t->name(), printable(d, 1500).c_str());
    return;
  }
  if (e != JS::Error::NoError)
    violate("rejected", "%s (%s): matching document rejected with error %d (%s); document: %s", t->name(), how, int(e),
            printable(pc.makeErrorString(), 300).c_str(), printable(d, 1500).c_str());
  if (!t->eq(want.p, got.p))
    violate("value", "%s (%s): parsed %s but the document states %s; document: %s", t->name(), how,
            printable(ty::text(t, got.p), 1200).c_str(), printable(ty::text(t, want.p), 1200).c_str(),
            printable(d, 1500).c_str());
  std::vector<std::string> none;
  const auto &wm = track ? tw.missing : none;
  const auto &wu = track ? tw.unassigned : none;
  if (pc.missing_members != wm)
    violate("missing-members", "%s: missing_members is [%s], expected [%s]; document: %s", t->name(),
            printable(join(pc.missing_members, false)).c_str(), printable(join(wm, false)).c_str(),
            printable(d, 1500).c_str());
  if (join(pc.unassigned_required_members, true) != join(wu, true))
    violate("unassigned-members", "%s: unassigned_required_members is [%s], expected [%s]; document: %s", t->name(),
            printable(join(pc.unassigned_required_members, true)).c_str(), printable(join(wu, true)).c_str(),
            printable(d, 1500).c_str());
  if (tw.injected)
    counter("probe.undeclared_members") += tw.injected;
  if (tw.omitted)
    counter("probe.omitted_members") += tw.omitted;
  if (tw.aliased)
    counter("probe.alias_used") += tw.aliased;
}
#include "main.hpp"
