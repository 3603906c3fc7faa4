// C12: a diff depends only on the base and the compared document.
#include "tokens.hpp"
#include <cmath>
#include <json_struct/json_struct_diff.h>
#include <memory>
using namespace sim;
using doc::K;
using doc::Node;
using doc::NodeP;
const char *scenario_id() { return "C12"; }
void warmup()
{
  JS::DiffContext d("{}", size_t(2));
  d.diff("[]", 2);
}
// ---------------------------------------------------------------- model
struct Exp
{
  JS::DiffType type = JS::DiffType::NoDiff;
  bool or_none = false; // inside an array element of another type: the element itself carries the mark
};
struct Miss
{
  size_t pos; // token the missing ones are attached to
  bool array;
  std::vector<doc::Tok> toks;
};
struct Model
{
  bool fuzzy = true;
  double eps = 1e-6;
  std::vector<Exp> exp;
  std::vector<Miss> miss;
};
static void flatten(const Node &n, const doc::Member *m, std::vector<doc::Tok> &o)
{
  doc::Tok t;
  if (m)
  {
    t.has_name = true;
    t.name = m->key;
  }
  switch (n.k)
  {
  case K::Obj:
  case K::Arr: {
    t.type = n.k == K::Obj ? doc::T::Obj : doc::T::Arr;
    t.value = n.k == K::Obj ? "{" : "[";
    o.push_back(t);
    for (auto &i : n.items)
      flatten(*i, nullptr, o);
    for (auto &x : n.members)
      flatten(*x.value, &x, o);
    doc::Tok e;
    e.type = n.k == K::Obj ? doc::T::ObjEnd : doc::T::ArrEnd;
    e.value = n.k == K::Obj ? "}" : "]";
    o.push_back(e);
    return;
  }
  case K::Str:
    t.type = doc::T::Str;
    break;
  case K::Num:
    t.type = doc::T::Num;
    break;
  case K::Bool:
    t.type = doc::T::Bool;
    break;
  default:
    t.type = doc::T::Null;
  }
  t.value = n.text;
  o.push_back(t);
}
static void mark(const Node &n, Model &m, JS::DiffType d, bool or_none = false)
{
  std::vector<doc::Tok> t;
  flatten(n, nullptr, t);
  for (size_t i = 0; i < t.size(); i++)
  {
    Exp e;
    e.type = d;
    e.or_none = or_none && i;
    m.exp.push_back(e);
  }
}
static bool equal_scalar(const Node &a, const Node &b, const Model &m)
{
  if (a.k != K::Num)
    return a.text == b.text;
  double x = strtod(a.text.c_str(), nullptr), y = strtod(b.text.c_str(), nullptr);
  if (x == y)
    return true;
  if (!m.fuzzy)
    return false;
  return std::fabs(y - x) <= m.eps;
}
static void compare(const Node &b, const Node &d, Model &m)
{
  size_t at = m.exp.size();
  m.exp.push_back(Exp());
  if (d.k == K::Obj)
  {
    Miss ms;
    ms.pos = at;
    ms.array = false;
    for (auto &bm : b.members)
    {
      bool found = false;
      for (auto &dm : d.members)
        found = found || dm.key == bm.key;
      if (!found)
        flatten(*bm.value, &bm, ms.toks);
    }
    for (auto &dm : d.members)
    {
      const doc::Member *bm = nullptr;
      for (auto &x : b.members)
        if (x.key == dm.key)
          bm = &x;
      if (!bm)
        mark(*dm.value, m, JS::DiffType::NewMember);
      else if (bm->value->k != dm.value->k)
        mark(*dm.value, m, JS::DiffType::TypeDiff);
      else
        compare(*bm->value, *dm.value, m);
    }
    m.exp.push_back(Exp());
    if (ms.toks.size())
    {
      m.exp[at].type = JS::DiffType::MissingMembers;
      m.miss.push_back(ms);
    }
    return;
  }
  if (d.k == K::Arr)
  {
    for (size_t i = 0; i < d.items.size(); i++)
    {
      if (i >= b.items.size())
        mark(*d.items[i], m, JS::DiffType::NewArrayItem);
      else if (b.items[i]->k != d.items[i]->k)
        mark(*d.items[i], m, JS::DiffType::TypeDiff, true);
      else
        compare(*b.items[i], *d.items[i], m);
    }
    m.exp.push_back(Exp());
    if (b.items.size() > d.items.size())
    {
      Miss ms;
      ms.pos = at;
      ms.array = true;
      for (size_t i = d.items.size(); i < b.items.size(); i++)
        flatten(*b.items[i], nullptr, ms.toks);
      m.exp[at].type = JS::DiffType::MissingArrayItems;
      m.miss.push_back(ms);
    }
    return;
  }
  m.exp[at].type = equal_scalar(b, d, m) ? JS::DiffType::NoDiff : JS::DiffType::ValueDiff;
}
static void root(const Node *b, const Node &d, Model &m)
{
  if (!b)
    mark(d, m, d.k == K::Obj ? JS::DiffType::NewMember : JS::DiffType::NewArrayItem);
  else if (b->k != d.k)
    mark(d, m, JS::DiffType::RootItemDiff);
  else
    compare(*b, d, m);
}
// ---------------------------------------------------------------- documents
static NodeP clone(const Node &n)
{
  NodeP r = std::make_shared<Node>();
  r->k = n.k;
  r->text = n.text;
  for (auto &i : n.items)
    r->items.push_back(clone(*i));
  for (auto &m : n.members)
  {
    doc::Member x = m;
    x.value = clone(*m.value);
    r->members.push_back(x);
  }
  return r;
}
static void unique_names(Node &n)
{
  for (size_t i = 0; i < n.members.size(); i++)
  {
    n.members[i].bare = false;
    for (bool again = true; again;)
    {
      again = false;
      for (size_t j = 0; j < i; j++)
        if (n.members[j].key == n.members[i].key)
        {
          n.members[i].key += char('a' + i % 26);
          again = true;
        }
    }
    unique_names(*n.members[i].value);
  }
  for (auto &i : n.items)
    unique_names(*i);
}
static void all(NodeP &n, std::vector<NodeP *> &v)
{
  v.push_back(&n);
  for (auto &i : n->items)
    all(i, v);
  for (auto &m : n->members)
    all(m.value, v);
}
static NodeP fresh_node(Src &c, uint32_t depth)
{
  doc::GenCfg g;
  g.max_nodes = c.range(1, 6);
  g.max_depth = depth;
  uint32_t budget = g.max_nodes;
  return doc::gen_node(c, g, doc::Syntax(), 1, budget);
}
static void mutate(Src &c, NodeP &r)
{
  uint32_t n = c.weighted({2, 4, 2, 1});
  if (n == 3)
    n = c.range(3, 8);
  for (uint32_t i = 0; i < n; i++)
  {
    std::vector<NodeP *> v;
    all(r, v);
    uint32_t w = c.below(uint32_t(v.size()));
    NodeP &x = *v[w];
    if (x->k == K::Arr && !c.chance(1, 4))
    {
      switch (c.below(4))
      {
      case 0:
        if (x->items.size())
          x->items.pop_back();
        break;
      case 1:
        for (uint32_t k = c.range(1, 3); k; k--)
          x->items.push_back(fresh_node(c, 3));
        break;
      case 2:
        x->items.insert(x->items.begin() + c.below(uint32_t(x->items.size() + 1)), fresh_node(c, 3));
        break;
      default:
        if (x->items.size() > 1)
          std::swap(x->items[0], x->items[c.below(uint32_t(x->items.size()))]);
      }
    }
    else if (x->k == K::Obj && !c.chance(1, 4))
    {
      switch (c.below(4))
      {
      case 0:
        if (x->members.size())
          x->members.erase(x->members.begin() + c.below(uint32_t(x->members.size())));
        break;
      case 1: {
        doc::Member m;
        m.key = "m" + std::to_string(c.below(50));
        m.value = fresh_node(c, 3);
        x->members.insert(x->members.begin() + c.below(uint32_t(x->members.size() + 1)), m);
        break;
      }
      case 2:
        if (x->members.size())
          x->members[c.below(uint32_t(x->members.size()))].key += "x";
        break;
      default: // another order of members is no difference
        if (x->members.size() > 1)
          std::swap(x->members[0], x->members[c.below(uint32_t(x->members.size()))]);
      }
    }
    else if (x->k == K::Num && c.coin())
    {
      static const char *more[] = {"0", "0000001", "00001", "1", "e0"};
      if (x->text.find_first_of("eE.") == std::string::npos && x->text.size() < 9)
      {
        uint32_t q = c.below(5);
        x->text += q == 4 ? "e0" : std::string(".") + more[q];
      }
      else
        x->text = c.pick(std::vector<std::string>{"1e999", "-1e999", "2e308", "5e-324", "0", "-0", "1.0000005"});
    }
    else if (w)
      x = fresh_node(c, 3);
    else
    {
      x = std::make_shared<Node>();
      x->k = c.coin() ? K::Arr : K::Obj;
    }
  }
  unique_names(*r);
}
struct Doc
{
  NodeP n; // null: bytes without a model
  std::shared_ptr<std::string> text;
  char *mem = nullptr; // exactly the bytes, alive for the whole run
};
struct Store
{
  std::vector<char *> blocks;
  ~Store()
  {
    for (char *b : blocks)
      free(b);
  }
  void keep(Doc &d)
  {
    d.mem = static_cast<char *>(malloc(d.text->size() ? d.text->size() : 1));
    memcpy(d.mem, d.text->data(), d.text->size());
    blocks.push_back(d.mem);
  }
};
static std::string show_opts(const JS::DiffOptions &o)
{
  return (o.flags & JS::DiffFlags::FuzzyFloatComparison ? "fuzzy " : "exact ") + std::to_string(o.fuzzyEpsilon);
}
// ---------------------------------------------------------------- comparing results
static Seen tok(const JS::Token &t)
{
  return snapshot(t);
}
static void same_result(const JS::DiffTokens &a, const JS::DiffTokens &b, const std::string &ctx)
{
  if (a.tokens.data.size() != b.tokens.data.size() || a.diffs.size() != b.diffs.size())
    violate("history-tokens", "token count differs from a fresh context's; %s", ctx.c_str());
  for (size_t i = 0; i < a.diffs.size(); i++)
  {
    if (!(tok(a.tokens.data[i]) == tok(b.tokens.data[i])) || a.diffs[i] != b.diffs[i])
      violate("history-diff", "token %zu is marked %d, a fresh context marks it %d; %s", i, int(a.diffs[i]),
              int(b.diffs[i]), ctx.c_str());
    auto *ma = a.getMissingMembers(a.tokens.data[i]), *mb = b.getMissingMembers(b.tokens.data[i]);
    auto *aa = a.getMissingArrayItems(a.tokens.data[i]), *ab = b.getMissingArrayItems(b.tokens.data[i]);
    if ((ma ? ma->size() : 0) != (mb ? mb->size() : 0) || (aa ? aa->size() : 0) != (ab ? ab->size() : 0))
      violate("history-missing", "token %zu lists %zu missing member and %zu missing item tokens, a fresh context %zu and %zu; %s",
              i, ma ? ma->size() : size_t(0), aa ? aa->size() : size_t(0), mb ? mb->size() : size_t(0),
              ab ? ab->size() : size_t(0), ctx.c_str());
  }
  if (a.diff_count != b.diff_count || a.error != b.error)
    violate("history-count", "%zu differences counted (error %d), a fresh context counts %zu (error %d); %s",
            a.diff_count, int(a.error), b.diff_count, int(b.error), ctx.c_str());
}
static void same_model(const JS::DiffTokens &a, const Model &m, const std::string &ctx)
{
  if (a.diffs.size() != m.exp.size() || a.tokens.data.size() != m.exp.size())
    violate("diff-tokens", "%zu tokens, the document has %zu; %s", a.diffs.size(), m.exp.size(), ctx.c_str());
  bool any = false;
  size_t mi = 0;
  for (size_t i = 0; i < m.exp.size(); i++)
  {
    JS::DiffType d = a.diffs[i];
    if (d != m.exp[i].type && !(m.exp[i].or_none && d == JS::DiffType::NoDiff))
      violate("diff-mark", "token %zu (%s) is marked %d, expected %d; %s", i, show(tok(a.tokens.data[i])).c_str(), int(d),
              int(m.exp[i].type), ctx.c_str());
    any = any || m.exp[i].type != JS::DiffType::NoDiff;
    const Miss *want = nullptr;
    for (auto &x : m.miss)
      if (x.pos == i)
        want = &x;
    auto *mm = a.getMissingMembers(a.tokens.data[i]);
    auto *ma = a.getMissingArrayItems(a.tokens.data[i]);
    auto *got = want && want->array ? ma : mm;
    auto *other = want && want->array ? mm : ma;
    size_t n = got ? got->size() : 0, wn = want ? want->toks.size() : 0;
    if (n != wn || (other && other->size()))
      violate("diff-missing", "token %zu lists %zu missing tokens, expected %zu; %s", i, n, wn, ctx.c_str());
    for (size_t k = 0; k < n; k++)
    {
      Seen s = tok((*got)[k]);
      doc::T ty;
      if (!map_type(JS::Type(s.value_type), ty) || ty != want->toks[k].type || s.value != want->toks[k].value ||
          s.name != want->toks[k].name)
        violate("diff-missing", "missing token %zu of token %zu is %s, expected name \"%s\" value \"%s\"; %s", k, i,
                show(s).c_str(), printable(want->toks[k].name, 100).c_str(), printable(want->toks[k].value, 100).c_str(),
                ctx.c_str());
    }
    (void)mi;
  }
  if (any != (a.diff_count != 0))
    violate("diff-count", "%zu differences counted although %s; %s", a.diff_count,
            any ? "the documents differ" : "the documents are equal", ctx.c_str());
  if (!any)
    probe("no_difference");
  else
    probe("difference");
}

void scenario(Src &c)
{
  Store store;
  doc::GenCfg g = doc::gen_cfg(c);
  if (g.max_nodes > 60)
    g.max_nodes = 60;
  NodeP seed = doc::gen_doc(c, g, doc::Syntax());
  unique_names(*seed);
  auto write = [&](const NodeP &n) {
    Doc d;
    d.n = n;
    doc::Writer w;
    w.c = &c;
    w.noise = c.below(3);
    w.document(*n);
    d.text = std::make_shared<std::string>(w.out);
    store.keep(d);
    return d;
  };
  auto make = [&]() {
    NodeP n = clone(*seed);
    mutate(c, n);
    return write(n);
  };
  auto make_bad = [&]() {
    Doc d = make();
    d.n = nullptr;
    std::string s = *d.text;
    if (c.coin())
    {
      s.resize(c.below(uint32_t(s.size())));
      fault("document_truncated");
    }
    else
    {
      doc::damage(c, s, false);
      fault("document_damaged");
    }
    d.text = std::make_shared<std::string>(s);
    store.keep(d);
    return d;
  };
  auto opts = [&]() {
    JS::DiffOptions o;
    if (c.coin())
    {
      o.flags = c.coin() ? JS::DiffFlags::None : JS::DiffFlags::FuzzyFloatComparison;
      o.fuzzyEpsilon = c.pick({1e-6, 0.0, 0.5, 10.0});
    }
    return o;
  };
  JS::DiffOptions cur = opts();
  bool have_base = false;
  Doc base;
  std::vector<Doc> docs; // as in the context; text null: the empty token list
  std::unique_ptr<JS::DiffContext> ctx;
  uint32_t how = c.below(3);
  if (how == 0)
    ctx.reset(new JS::DiffContext(cur));
  else
  {
    base = how == 1 ? make() : make_bad();
    if (c.chance(3, 4))
      ctx.reset(new JS::DiffContext(base.mem, base.text->size(), cur));
    else if (c.coin() || base.text->find('\0') != std::string::npos)
      ctx.reset(new JS::DiffContext(*base.text, cur));
    else
    {
      const char *z = base.text->c_str();
      ctx.reset(new JS::DiffContext(z, cur));
    }
    have_base = ctx->error == JS::DiffError::NoError;
    if (base.n && !have_base)
      violate("base-rejected", "well-formed base rejected with %d: %s", int(ctx->error), printable(*base.text).c_str());
  }
  auto verify = [&]() {
    if (ctx->diffs.size() != docs.size())
      violate("diff-list", "%zu results held, expected %zu", ctx->diffs.size(), docs.size());
    for (size_t i = 0; i < docs.size(); i++)
    {
      std::string what = "result " + std::to_string(i) + " (" + show_opts(cur) + ") base: " +
                         (have_base ? printable(*base.text, 600) : "none") + " document: " +
                         (docs[i].text ? printable(*docs[i].text, 600) : "none");
      const JS::DiffTokens &r = ctx->diffs[i];
      if (!docs[i].text)
      {
        if (r.tokens.data.size() || r.diffs.size())
          violate("diff-tokens", "tokens in an empty result; %s", what.c_str());
        continue;
      }
      JS::DiffContext f(cur);
      if (have_base)
        f.reset(base.mem, base.text->size(), cur);
      size_t k = f.diff(docs[i].mem, docs[i].text->size());
      if (k != 0)
        violate("history-verdict", "a document accepted before is rejected by a fresh context; %s", what.c_str());
      same_result(r, f.diffs[0], what);
      if (docs[i].n && (!have_base || base.n))
      {
        Model m;
        m.fuzzy = (cur.flags & JS::DiffFlags::FuzzyFloatComparison) != 0;
        m.eps = cur.fuzzyEpsilon;
        root(have_base ? base.n.get() : nullptr, *docs[i].n, m);
        same_model(r, m, what);
      }
    }
  };
  uint32_t ops = c.range(1, 9);
  for (uint32_t i = 0; i < ops; i++)
  {
    switch (c.weighted({8, 3, 2, 2, 2, 1, 1}))
    {
    case 0: { // a well-formed document
      Doc d = c.chance(1, 4) && have_base && base.n ? write(base.n) : make();
      ev("diff", fnv(d.text->data(), d.text->size()));
      size_t k = c.chance(3, 4) ? ctx->diff(d.mem, d.text->size()) : ctx->diff(*d.text);
      if (ctx->error != JS::DiffError::NoError || k != docs.size())
        violate("document-rejected", "a well-formed document was rejected with %d: %s", int(ctx->error),
                printable(*d.text, 1000).c_str());
      docs.push_back(d);
      if (d.n == base.n && have_base)
      {
        probe("identical_document");
        if (ctx->diffs[k].diff_count)
          violate("identical", "%zu differences between identical documents: %s", ctx->diffs[k].diff_count,
                  printable(*d.text, 1000).c_str());
      }
      break;
    }
    case 1: { // a damaged one
      Doc d = make_bad();
      evs("diff-bad", *d.text);
      size_t k = c.chance(3, 4) ? ctx->diff(d.mem, d.text->size()) : ctx->diff(*d.text);
      JS::DiffContext f;
      size_t fk = f.diff(d.mem, d.text->size());
      if ((fk == size_t(-1)) != (k == size_t(-1)) || f.error != ctx->error)
        violate("history-verdict", "a document is %s (%d), by a fresh context %s (%d): %s",
                k == size_t(-1) ? "rejected" : "accepted", int(ctx->error), fk == size_t(-1) ? "rejected" : "accepted",
                int(f.error), printable(*d.text, 1000).c_str());
      if ((k == size_t(-1)) != (ctx->error != JS::DiffError::NoError))
        violate("error-code", "diff returned %zd with error %d", ssize_t(k), int(ctx->error));
      // the verdict agrees with the tokenizer's
      {
        JS::Tokenizer t;
        t.addData(d.mem, d.text->size());
        JS::Token token;
        JS::Error e;
        long depth = 0;
        size_t n = 0;
        while ((e = t.nextToken(token)) == JS::Error::NoError)
        {
          n++;
          if (token.value_type == JS::Type::ObjectStart || token.value_type == JS::Type::ArrayStart)
            depth++;
          if (token.value_type == JS::Type::ObjectEnd || token.value_type == JS::Type::ArrayEnd)
            depth--;
        }
        bool ok = e == JS::Error::NeedMoreData && depth == 0 && n;
        if (ok != (ctx->error == JS::DiffError::NoError))
          violate("malformed-verdict", "a document the tokenizer %s is %s by the diff (%d): %s",
                  ok ? "accepts" : "rejects", ok ? "rejected" : "accepted", int(ctx->error),
                  printable(*d.text, 1000).c_str());
      }
      if (k != size_t(-1))
        docs.push_back(d);
      else
        probe("malformed_rejected");
      break;
    }
    case 2: { // another base
      bool bad = c.chance(1, 3);
      base = bad ? make_bad() : make();
      cur = opts();
      evs("reset", *base.text);
      if (c.coin())
      {
        if (c.chance(3, 4))
          ctx->reset(base.mem, base.text->size(), cur);
        else
          ctx->reset(*base.text, cur);
      }
      else
      {
        cur = JS::DiffOptions();
        ctx->reset(base.mem, base.text->size());
      }
      docs.clear();
      have_base = ctx->error == JS::DiffError::NoError;
      JS::DiffContext f(base.mem, base.text->size());
      if (f.error != ctx->error || (base.n && !have_base))
        violate("base-verdict", "base %s with error %d, by a fresh context %d: %s", have_base ? "accepted" : "rejected",
                int(ctx->error), int(f.error), printable(*base.text, 1000).c_str());
      break;
    }
    case 3: // the compared document becomes the base
      if (docs.size())
      {
        uint32_t k = c.below(uint32_t(docs.size()));
        ev("changeBase", k);
        probe("change_base");
        ctx->changeBase(k);
        Doc old = base;
        if (!have_base)
          old = Doc();
        base = docs[k];
        docs[k] = old;
        have_base = base.text != nullptr;
      }
      break;
    case 4:
      cur = opts();
      ev("invalidate");
      ctx->invalidate(cur);
      break;
    case 5:
      ev("invalidate-same");
      ctx->invalidate();
      break;
    default:
      cur = opts();
      ev("clear");
      ctx->clear(cur);
      docs.clear();
      have_base = false;
    }
    verify();
  }
  if (ops > 1)
    nontrivial();
}
#include "main.hpp"
