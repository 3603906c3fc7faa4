// Deterministic simulation core: choice source, event log, fault counters, allocator seam,
// violation reporting.  One 64-bit run seed decides every choice of a run.
#pragma once
#include <algorithm>
#include <cassert>
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <new>
#include <string>
#include <utility>
#include <vector>
#include <unistd.h>

namespace sim
{
// ---------------------------------------------------------------- shared state
struct Counter
{
  char name[56];
  uint64_t count;
};
enum
{
  MaxTape = 1 << 18,
  MaxCounters = 256,
  MaxBatch = 4096
};
struct Shared
{
  // current run
  uint64_t cur_index;
  uint32_t ntape;
  uint32_t tape[MaxTape];
  uint64_t run_hash;
  // violation record
  int failed;
  char kind[160];
  char msg[6000];
  // per run results in this batch
  uint32_t nresults;
  uint64_t result_hash[MaxBatch];
  uint8_t result_nontrivial[MaxBatch];
  // cumulative
  uint64_t runs;
  uint64_t steps; // simulated events
  uint32_t ncounters;
  Counter counters[MaxCounters];
};
inline Shared *&shared()
{
  static Shared *s = nullptr;
  return s;
}

struct Global
{
  bool tracing = false;
  FILE *trace_out = nullptr;
  uint64_t hash = 0;
  uint64_t nevents = 0;
  bool nontrivial = false;
  // allocator seam
  bool alloc_armed = false;     // count (and possibly fail) allocations
  uint64_t alloc_count = 0;     // since armed
  uint64_t alloc_fail_at = 0;   // 1-based, 0 = never
  bool alloc_sustained = false; // keep failing after fail_at
  uint64_t alloc_burst = 1;     // how many in a row fail when not sustained
  size_t alloc_min = 0;         // only allocations of at least this size fail (fragmented memory)
  uint64_t alloc_failed = 0;
  bool track_live = false;
  size_t live_bytes = 0;
  size_t cap_bytes = size_t(768) << 20; // simulated memory limit per run
  size_t total_bytes = 0;
};
inline Global &g()
{
  static Global gg;
  return gg;
}
// Is the running thread inside a call into the library (where the scheduler may take it off)?
inline bool &in_lib()
{
  static thread_local bool f = false;
  return f;
}
struct Inside
{
  bool was = in_lib();
  Inside() { in_lib() = true; }
  ~Inside() { in_lib() = was; }
};
struct Outside
{
  bool was = in_lib();
  Outside() { in_lib() = false; }
  ~Outside() { in_lib() = was; }
};
// what is allocated meanwhile is the simulator's own and stays for the life of the process
struct Untracked
{
  bool live = g().track_live, armed = g().alloc_armed;
  Untracked() { g().track_live = g().alloc_armed = false; }
  ~Untracked()
  {
    g().track_live = live;
    g().alloc_armed = armed;
  }
};

// ---------------------------------------------------------------- violations
[[noreturn]] inline void violate(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] inline void violate(const char *kind, const char *fmt, ...)
{
  Shared *s = shared();
  s->failed = 1;
  snprintf(s->kind, sizeof(s->kind), "%s", kind);
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(s->msg, sizeof(s->msg), fmt, ap);
  va_end(ap);
  s->run_hash = g().hash;
  if (g().tracing && g().trace_out)
    fprintf(g().trace_out, "VIOLATION %s: %s\n", s->kind, s->msg), fflush(g().trace_out);
  _exit(77);
}

inline std::string printable(const char *d, size_t n, size_t cap = 400)
{
  std::string o;
  for (size_t i = 0; i < n && o.size() < cap; i++)
  {
    unsigned char c = (unsigned char)d[i];
    if (c == '\\')
      o += "\\\\";
    else if (c >= 0x20 && c < 0x7f)
      o += char(c);
    else
    {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
    }
  }
  if (o.size() >= cap)
    o += "...";
  return o;
}
inline std::string printable(const std::string &s, size_t cap = 400)
{
  return printable(s.data(), s.size(), cap);
}

// ---------------------------------------------------------------- event log
inline void mix(uint64_t v)
{
  uint64_t h = g().hash;
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  g().hash = h;
}
inline uint64_t fnv(const char *d, size_t n)
{
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; i++)
    h = (h ^ (unsigned char)d[i]) * 1099511628211ull;
  return h;
}
inline void ev(const char *tag, uint64_t a = 0, uint64_t b = 0)
{
  g().nevents++;
  mix(fnv(tag, strlen(tag)));
  mix(a);
  mix(b);
  if (g().tracing && g().trace_out)
    fprintf(g().trace_out, "[%5llu] %s %llu %llu\n", (unsigned long long)g().nevents, tag, (unsigned long long)a,
            (unsigned long long)b);
}
inline void evs(const char *tag, const char *d, size_t n)
{
  g().nevents++;
  mix(fnv(tag, strlen(tag)));
  mix(fnv(d, n));
  mix(n);
  if (g().tracing && g().trace_out)
    fprintf(g().trace_out, "[%5llu] %s (%llu) %s\n", (unsigned long long)g().nevents, tag, (unsigned long long)n,
            printable(d, n, 1500).c_str());
}
inline void evs(const char *tag, const std::string &s)
{
  evs(tag, s.data(), s.size());
}
inline void nontrivial()
{
  g().nontrivial = true;
}

// ---------------------------------------------------------------- counters (fault kinds and reach probes)
inline uint64_t &counter(const char *name)
{
  Shared *s = shared();
  for (uint32_t i = 0; i < s->ncounters; i++)
    if (strcmp(s->counters[i].name, name) == 0)
      return s->counters[i].count;
  if (s->ncounters == MaxCounters)
    return s->counters[MaxCounters - 1].count;
  Counter &c = s->counters[s->ncounters++];
  snprintf(c.name, sizeof c.name, "%s", name);
  c.count = 0;
  return c.count;
}
// fault.* : something the environment did to the system; probe.* : a rare condition reached
inline void fault(const char *kind)
{
  char b[64];
  snprintf(b, sizeof b, "fault.%s", kind);
  counter(b)++;
}
inline void probe(const char *kind)
{
  char b[64];
  snprintf(b, sizeof b, "probe.%s", kind);
  counter(b)++;
}

// ---------------------------------------------------------------- choice source
inline uint64_t splitmix(uint64_t &x)
{
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
struct Src
{
  bool replay = false;
  const uint32_t *rt = nullptr;
  size_t rn = 0, rpos = 0;
  uint64_t state = 0;
  bool own = false; // a stream of its own, derived from choices of the main one
  uint32_t left = 0; // choices it may still make; zeros afterwards

  void seed(uint64_t s)
  {
    replay = false;
    state = s;
    shared()->ntape = 0;
  }
  void tape(const uint32_t *t, size_t n)
  {
    replay = true;
    rt = t;
    rn = n;
    rpos = 0;
    shared()->ntape = 0;
  }
  uint32_t below(uint32_t n)
  {
    if (n <= 1)
      return 0;
    uint32_t v;
    Shared *s = shared();
    if (own)
      return left ? (left--, uint32_t((splitmix(state) >> 11) % n)) : 0;
    if (replay)
    {
      v = rpos < rn ? rt[rpos] : 0;
      rpos++;
      if (v >= n)
        v = n - 1;
    }
    else if (s->ntape >= MaxTape)
      v = 0;
    else
      v = uint32_t((splitmix(state) >> 11) % n);
    if (s->ntape < MaxTape)
      s->tape[s->ntape++] = v;
    return v;
  }
  // [lo,hi], shrinks towards lo
  uint32_t range(uint32_t lo, uint32_t hi)
  {
    return lo + below(hi - lo + 1);
  }
  // true with probability num/den, shrinks towards false
  bool chance(uint32_t num, uint32_t den)
  {
    return below(den) >= den - num;
  }
  bool coin()
  {
    return below(2) == 1;
  }
  uint64_t u64()
  {
    uint64_t a = below(1u << 22);
    uint64_t b = below(1u << 21);
    uint64_t c = below(1u << 21);
    return (a << 42) | (b << 21) | c;
  }
  template <class T>
  const T &pick(std::initializer_list<T> l)
  {
    return *(l.begin() + below(uint32_t(l.size())));
  }
  template <class T>
  const T &pick(const std::vector<T> &l)
  {
    return l[below(uint32_t(l.size()))];
  }
  // weighted index, shrinks towards 0
  uint32_t weighted(std::initializer_list<uint32_t> w)
  {
    uint32_t tot = 0;
    for (uint32_t x : w)
      tot += x;
    uint32_t r = below(tot);
    uint32_t i = 0;
    for (uint32_t x : w)
    {
      if (r < x)
        return i;
      r -= x;
      i++;
    }
    return 0;
  }
};

// ---------------------------------------------------------------- live-block table for leak accounting
struct LiveTable
{
  enum
  {
    N = 1 << 17
  };
  void *slot[N];
  uint32_t size[N];
  uint64_t serial[N];
  size_t count;
  uint64_t next_serial;
  static size_t h(void *p)
  {
    uint64_t x = uint64_t(uintptr_t(p)) >> 4;
    x *= 0x9e3779b97f4a7c15ull;
    return size_t(x >> 47) & (N - 1);
  }
  void clear()
  {
    memset(slot, 0, sizeof slot);
    count = 0;
    next_serial = 0;
  }
  void add(void *p, size_t n)
  {
    if (count > N / 2)
      return;
    size_t i = h(p);
    while (slot[i])
      i = (i + 1) & (N - 1);
    slot[i] = p;
    size[i] = uint32_t(n);
    serial[i] = next_serial++;
    count++;
  }
  void remove(void *p)
  {
    size_t i = h(p);
    while (slot[i] && slot[i] != p)
      i = (i + 1) & (N - 1);
    if (!slot[i])
      return;
    count--;
    size_t j = i;
    for (;;)
    {
      slot[i] = nullptr;
      for (;;)
      {
        j = (j + 1) & (N - 1);
        if (!slot[j])
          return;
        size_t k = h(slot[j]);
        if (i <= j ? (i < k && k <= j) : (i < k || k <= j))
          continue;
        break;
      }
      slot[i] = slot[j];
      size[i] = size[j];
      serial[i] = serial[j];
      i = j;
    }
  }
};
inline LiveTable &live()
{
  static LiveTable t;
  return t;
}

inline void *sim_alloc(size_t n, size_t align, bool nothrow)
{
  Global &G = g();
  if (G.alloc_armed)
  {
    G.alloc_count++;
    if (G.alloc_fail_at && n >= G.alloc_min && G.alloc_count >= G.alloc_fail_at &&
        (G.alloc_sustained || G.alloc_count < G.alloc_fail_at + G.alloc_burst))
    {
      G.alloc_failed++;
      if (nothrow)
        return nullptr;
      throw std::bad_alloc();
    }
  }
  G.total_bytes += n;
  if (n > G.cap_bytes || G.total_bytes > 16 * G.cap_bytes)
    violate("runaway-allocation", "the library asked for %llu bytes (%llu in total this run)", (unsigned long long)n,
            (unsigned long long)G.total_bytes);
  void *p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
  if (!p)
  {
    if (nothrow)
      return nullptr;
    throw std::bad_alloc();
  }
  if (G.track_live)
    live().add(p, n);
  return p;
}
inline void sim_free(void *p)
{
  if (!p)
    return;
  if (g().track_live)
    live().remove(p);
  free(p);
}
} // namespace sim

#ifndef SIM_NO_OPERATOR_NEW
void *operator new(size_t n) { return sim::sim_alloc(n, 0, false); }
void *operator new[](size_t n) { return sim::sim_alloc(n, 0, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim::sim_alloc(n, 0, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::sim_alloc(n, 0, true); }
void *operator new(size_t n, std::align_val_t a) { return sim::sim_alloc(n, size_t(a), false); }
void *operator new[](size_t n, std::align_val_t a) { return sim::sim_alloc(n, size_t(a), false); }
void operator delete(void *p) noexcept { sim::sim_free(p); }
void operator delete[](void *p) noexcept { sim::sim_free(p); }
void operator delete(void *p, size_t) noexcept { sim::sim_free(p); }
void operator delete[](void *p, size_t) noexcept { sim::sim_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim::sim_free(p); }
#endif

// Interface a scenario file implements
extern const char *scenario_id();
extern void scenario(sim::Src &c); // one simulated run
extern void warmup();              // executed once per process before any run
