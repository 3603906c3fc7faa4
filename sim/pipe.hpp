// The simulated input side: a byte stream cut into buffers by the scheduler, handed to the
// tokenizer in a chosen delivery mode, each buffer a separate heap block of exactly its size that
// is overwritten and freed at the instant the tokenizer reports it released.
#pragma once
#include "core.hpp"
#include "js.hpp"
#include <deque>
#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, n) ((void)0)
#define ASAN_UNPOISON_MEMORY_REGION(a, n) ((void)0)
#endif

namespace sim
{
enum class Mode
{
  Upfront,  // every buffer registered before reading starts
  Callback, // need-more-data callback supplies buffers
  Push,     // reader gets NeedMoreData and the owner pushes buffers
  Mixed     // some up front, the rest by callback or push
};
struct Plan
{
  std::vector<std::pair<size_t, size_t>> parts; // offset,size ; size may be 0
  Mode mode = Mode::Upfront;
  uint32_t upfront = 0;   // number of parts registered up front (Mixed)
  bool burst = false;     // callback may add several buffers at once
  bool use_release = true;
  uint32_t stall = 0; // chance (of 8) that a request for data is not served
};
inline std::vector<std::pair<size_t, size_t>> cut(Src &c, const std::string &d)
{
  std::vector<size_t> cuts;
  size_t n = d.size();
  switch (c.weighted({1, 4, 3, 3, 3, 4}))
  {
  case 0:
    break;
  case 1:
    if (n)
      cuts.push_back(c.below(uint32_t(n + 1)));
    break;
  case 2:
    for (int i = 0; i < 3 && n; i++)
      cuts.push_back(c.below(uint32_t(n + 1)));
    break;
  case 3: {
    static const uint32_t ks[] = {1, 2, 3, 5, 7, 8, 13, 15, 16, 17, 31, 32, 33, 48, 64};
    uint32_t k = ks[c.below(sizeof(ks) / sizeof(*ks))];
    size_t o = c.coin() ? c.below(k) : 0;
    for (size_t p = o; p < n; p += k)
      cuts.push_back(p);
    break;
  }
  case 4: {
    uint32_t m = c.pick({4u, 10u, 20u, 40u, 80u});
    for (size_t p = c.range(1, m); p < n; p += c.range(1, m))
      cuts.push_back(p);
    break;
  }
  default: { // cuts next to significant characters
    uint32_t den = c.pick({2u, 3u, 6u});
    for (size_t i = 0; i < n; i++)
    {
      char ch = d[i];
      if (ch == '"' || ch == '\\' || ch == ':' || ch == ',' || ch == '/' || ch == '[' || ch == ']' || ch == '{' ||
          ch == '}' || ch == '\n')
        if (c.chance(1, den))
          cuts.push_back(i + c.below(3));
    }
  }
  }
  std::sort(cuts.begin(), cuts.end());
  std::vector<std::pair<size_t, size_t>> parts;
  size_t prev = 0;
  for (size_t p : cuts)
  {
    if (p > n)
      p = n;
    if (p > prev)
    {
      parts.push_back(std::make_pair(prev, p - prev));
      prev = p;
    }
    if (c.chance(1, 24))
    {
      parts.push_back(std::make_pair(p, size_t(0)));
      fault("empty_buffer");
    }
  }
  if (prev < n || parts.empty())
    parts.push_back(std::make_pair(prev, n - prev));
  return parts;
}
inline Plan gen_plan(Src &c, const std::string &d, bool typed)
{
  Plan p;
  p.parts = cut(c, d);
  uint32_t m = typed ? c.weighted({1, 4, 0, 2}) : c.weighted({1, 3, 3, 2});
  p.mode = m == 0 ? Mode::Upfront : m == 1 ? Mode::Callback : m == 2 ? Mode::Push : Mode::Mixed;
  if (p.mode == Mode::Mixed)
    p.upfront = c.below(uint32_t(p.parts.size() + 1));
  p.burst = c.chance(1, 3);
  p.use_release = !c.chance(1, 6);
  p.stall = typed ? 0 : c.weighted({3, 1, 1}) == 0 ? 0 : c.range(1, 6);
  return p;
}

struct Buf
{
  char *mem = nullptr;
  size_t size = 0;
  size_t off = 0;
  bool released = false;
  bool freed = false;
  size_t cap = 0; // size of the block
};
// Owner of the buffers of one stream
struct Pipe
{
  Src *c;
  std::string data;
  Plan plan;
  size_t next = 0; // next part to hand over
  std::vector<Buf> bufs;
  size_t next_release = 0;
  uint64_t requests = 0, idle_requests = 0;
  uint64_t added = 0, released = 0;
  bool can_stall = true;
  bool recycle = false; // the owner may refill a released block and hand it over again at once
  JS::Tokenizer *tok = nullptr;
  std::function<void(const char *)> release_fn;
  std::function<void()> on_request; // scheduling point (fibers)

  Pipe(Src &src, const std::string &d, const Plan &p)
    : c(&src)
    , data(d)
    , plan(p)
  {
    bufs.reserve(p.parts.size() + 8);
  }
  Pipe(const Pipe &) = delete;
  Pipe &operator=(const Pipe &) = delete;
  ~Pipe()
  {
    for (auto &b : bufs)
      drop(b);
  }
  void drop(Buf &b)
  {
    if (b.freed)
      return;
    b.freed = true;
    ASAN_UNPOISON_MEMORY_REGION(b.mem, b.cap ? b.cap : 1);
    free(b.mem);
  }
  // the owner gives up every block, released or not
  void drop_all()
  {
    for (auto &b : bufs)
      drop(b);
  }
  bool exhausted() const
  {
    return next >= plan.parts.size();
  }
  void hand_over()
  {
    auto part = plan.parts[next++];
    Buf b;
    b.size = part.second;
    b.off = part.first;
    b.cap = b.size;
    b.mem = static_cast<char *>(malloc(b.size ? b.size : 1));
    if (b.size)
      memcpy(b.mem, data.data() + part.first, b.size);
    bufs.push_back(b);
    added++;
    ev("deliver", part.first, part.second);
    if (b.size)
      tok->addData(b.mem, b.size);
    else
      tok->addData(static_cast<const char *>(b.mem), size_t(0));
  }
  void on_release(const char *p)
  {
    Outside outside;
    ev("release", next_release);
    released++;
    if (next_release >= bufs.size())
      violate("release-unknown", "release callback fired with no buffer outstanding");
    Buf &b = bufs[next_release];
    if (b.mem != p)
    {
      for (size_t i = 0; i < bufs.size(); i++)
        if (bufs[i].mem == p)
          violate(bufs[i].released ? "release-twice" : "release-order",
                  "release callback reported buffer %llu while buffer %llu was the oldest outstanding one",
                  (unsigned long long)i, (unsigned long long)next_release);
      violate("release-unknown", "release callback reported a pointer that was never handed over");
    }
    b.released = true;
    next_release++;
    if (recycle && !exhausted() && plan.parts[next].second && plan.parts[next].second <= b.cap && c->coin())
    {
      fault("buffer_refilled_at_release");
      auto part = plan.parts[next++];
      Buf n;
      n.mem = b.mem;
      n.cap = b.cap;
      n.off = part.first;
      n.size = part.second;
      b.freed = true; // the block belongs to n now
      ASAN_UNPOISON_MEMORY_REGION(n.mem, n.cap);
      memcpy(n.mem, data.data() + part.first, part.second);
      memset(n.mem + n.size, 0xdb, n.cap - n.size);
      ASAN_POISON_MEMORY_REGION(n.mem + n.size, n.cap - n.size);
      bufs.push_back(n);
      added++;
      ev("deliver-recycled", part.first, part.second);
      tok->addData(n.mem, n.size);
      return;
    }
    fault("buffer_freed_at_release");
    ASAN_UNPOISON_MEMORY_REGION(b.mem, b.cap ? b.cap : 1);
    memset(b.mem, 0xdb, b.cap);
    drop(b);
  }
  void request()
  {
    Outside outside;
    requests++;
    if (on_request)
      on_request();
    if (exhausted())
    {
      idle_requests++;
      ev("request-eof");
      if (idle_requests > 200000)
        violate("no-progress", "the library asked for data more than 200000 times after the end of the stream");
      return;
    }
    if (plan.stall && can_stall && c->chance(plan.stall, 8))
    {
      fault("delivery_stalled");
      ev("stall");
      return;
    }
    uint32_t k = plan.burst ? c->range(1, 4) : 1;
    for (uint32_t i = 0; i < k && !exhausted(); i++)
      hand_over();
  }
  void attach(JS::Tokenizer &t)
  {
    tok = &t;
    if (plan.use_release)
    {
      release_fn = [this](const char *p) { on_release(p); };
      t.setReleaseCallback(release_fn);
    }
    if (plan.mode == Mode::Callback || (plan.mode == Mode::Mixed && !(plan.stall & 1)))
      t.setNeedMoreDataCallback([this](JS::Tokenizer &) { request(); });
    size_t up = plan.mode == Mode::Upfront ? plan.parts.size() : plan.mode == Mode::Mixed ? plan.upfront : 0;
    for (size_t i = 0; i < up && !exhausted(); i++)
      hand_over();
    if (plan.parts.size() > 1)
    {
      nontrivial();
      fault("stream_cut");
      counter("fault.buffer_boundaries") += plan.parts.size() - 1;
    }
  }
  // the owner reacts to a NeedMoreData return; returns false when the stream is over
  bool feed()
  {
    if (exhausted())
      return false;
    uint32_t k = plan.burst ? c->range(1, 4) : 1;
    for (uint32_t i = 0; i < k && !exhausted(); i++)
      hand_over();
    return true;
  }
};
} // namespace sim
