// Supervisor: seeded search, crash capture, gating, minimisation and replay.
#pragma once
#include "core.hpp"
#include <exception>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>

extern "C" const char *__asan_default_options()
{
  return "detect_leaks=0:exitcode=99:symbolize=0:allocator_may_return_null=1:handle_abort=0:max_malloc_fill_size=65536:"
         "malloc_fill_byte=190:max_free_fill_size=65536:free_fill_byte=219:detect_stack_use_after_return=0:"
         "detect_odr_violation=0:print_summary=1:fast_unwind_on_malloc=1:malloc_context_size=6:quarantine_size_mb=8:"
         "detect_invalid_pointer_pairs=0:check_initialization_order=0:alloc_dealloc_mismatch=0:handle_segv=1";
}
extern "C" const char *__ubsan_default_options()
{
  return "halt_on_error=1:print_stacktrace=0:exitcode=99:symbolize=0";
}

namespace sim
{
struct Opt
{
  uint64_t seed = 1;
  std::string config = "default";
  uint64_t start = 0, stride = 1, count = 0;
  double seconds = 5;
  uint32_t batch = 32;
  std::string out, hashes, replay, stderr_path, replay_out;
  double hang_limit = 20;
  bool trace = false;
  bool noshrink = false;
};
inline double now()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}
inline uint64_t run_seed(const Opt &o, uint64_t index)
{
  uint64_t x = o.seed * 0x9e3779b97f4a7c15ull ^ fnv(scenario_id(), strlen(scenario_id())) ^
               fnv(o.config.data(), o.config.size()) * 31;
  x ^= splitmix(x) + index * 0xd1342543de82ef95ull;
  splitmix(x);
  return x;
}
inline void on_hang(int)
{
  violate("hang", "the run used more than its CPU-time budget without finishing (a bounded run takes milliseconds)");
}
inline void on_terminate()
{
  std::string what = "no exception";
  if (std::current_exception())
  {
    try
    {
      std::rethrow_exception(std::current_exception());
    }
    catch (const std::exception &e)
    {
      what = e.what();
    }
    catch (...)
    {
      what = "unknown exception";
    }
  }
  violate("terminate", "std::terminate was called (%s)", what.c_str());
}
inline void begin_run()
{
  Global &G = g();
  bool tr = G.tracing;
  FILE *to = G.trace_out;
  G = Global();
  G.tracing = tr;
  G.trace_out = to;
}
struct Work
{
  std::vector<uint64_t> prefix; // seeds (indices) executed first in the same process
  bool use_tape = false;
  uint64_t index = 0;
  std::vector<uint32_t> tape;
};
struct Outcome
{
  bool ok = true;
  std::string kind, msg;
  uint64_t hash = 0;
  std::vector<uint32_t> tape;
};
inline void arm_watchdog(double lim)
{
  itimerval iv;
  memset(&iv, 0, sizeof iv);
  iv.it_value.tv_sec = long(lim);
  iv.it_value.tv_usec = long((lim - double(long(lim))) * 1e6);
  setitimer(ITIMER_PROF, &iv, nullptr);
}
inline void exec_one(const Opt &o, Src &src, double lim)
{
  begin_run();
  arm_watchdog(lim);
  try
  {
    scenario(src);
  }
  catch (const std::exception &e)
  {
    violate("escaped-exception", "exception left the simulated run: %s", e.what());
  }
  arm_watchdog(0);
  shared()->run_hash = g().hash;
  shared()->runs++;
  shared()->steps += g().nevents;
  (void)o;
}
inline void child_setup(const Opt &o)
{
  int fd = open(o.stderr_path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd >= 0)
  {
    dup2(fd, 2);
    close(fd);
  }
  rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_hang;
  sigaction(SIGPROF, &sa, nullptr);
  std::set_terminate(on_terminate);
}
inline std::string slurp(const std::string &p)
{
  std::string s;
  FILE *f = fopen(p.c_str(), "rb");
  if (!f)
    return s;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < 65536)
    s.append(b, n);
  fclose(f);
  return s;
}
inline std::string strip_digits(const std::string &s)
{
  std::string o;
  bool in = false;
  for (size_t i = 0; i < s.size(); i++)
  {
    bool d = (s[i] >= '0' && s[i] <= '9');
    if (d)
    {
      if (!in)
        o += '#';
      in = true;
    }
    else
    {
      in = false;
      o += s[i];
    }
  }
  return o;
}
inline void classify(Outcome &r, int status, const std::string &err)
{
  size_t p;
  r.ok = false;
  if ((p = err.find("AddressSanitizer: ")) != std::string::npos)
  {
    size_t b = p + 18, e = b;
    while (e < err.size() && err[e] != ' ' && err[e] != '\n' && err[e] != ':')
      e++;
    r.kind = "asan:" + err.substr(b, e - b);
    size_t q = err.find("SUMMARY:");
    r.msg = err.substr(p, std::min<size_t>(1500, (q == std::string::npos ? err.size() : q) - p));
  }
  else if ((p = err.find("runtime error: ")) != std::string::npos)
  {
    size_t e = err.find('\n', p);
    std::string line = err.substr(p + 15, e == std::string::npos ? std::string::npos : e - p - 15);
    size_t ls = err.rfind('\n', p);
    ls = ls == std::string::npos ? 0 : ls + 1;
    r.kind = "ubsan:" + strip_digits(line).substr(0, 40);
    r.msg = err.substr(ls, std::min<size_t>(800, err.size() - ls));
  }
  else if ((p = err.find("Assertion `")) != std::string::npos)
  {
    size_t e = err.find("' failed", p);
    r.kind = "assert:" + err.substr(p + 11, std::min<size_t>(80, e == std::string::npos ? 80 : e - p - 11));
    size_t ls = err.rfind('\n', p);
    ls = ls == std::string::npos ? 0 : ls + 1;
    r.msg = err.substr(ls, 600);
  }
  else if (WIFSIGNALED(status))
  {
    r.kind = "signal:" + std::to_string(WTERMSIG(status));
    r.msg = err.substr(0, 800);
  }
  else
  {
    r.kind = "exit:" + std::to_string(WEXITSTATUS(status));
    r.msg = err.substr(0, 800);
  }
}
// runs the work in a forked child
inline Outcome execute(const Opt &o, const Work &w, double lim, bool trace = false)
{
  Shared *s = shared();
  s->failed = 0;
  s->run_hash = 0;
  s->ntape = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0)
  {
    child_setup(o);
    Src src;
    for (uint64_t ix : w.prefix)
    {
      src.seed(run_seed(o, ix));
      exec_one(o, src, lim);
    }
    if (trace)
    {
      g().tracing = true;
      g().trace_out = stdout;
      setvbuf(stdout, nullptr, _IOLBF, 0);
    }
    if (w.use_tape)
      src.tape(w.tape.data(), w.tape.size());
    else
      src.seed(run_seed(o, w.index));
    exec_one(o, src, lim);
    fflush(nullptr);
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  Outcome r;
  r.hash = s->run_hash;
  r.tape.assign(s->tape, s->tape + s->ntape);
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
    return r;
  if (s->failed)
  {
    r.ok = false;
    r.kind = s->kind;
    r.msg = s->msg;
  }
  else
  {
    classify(r, status, slurp(o.stderr_path));
    r.hash = 0;
  }
  return r;
}

inline Work shrink(const Opt &o, Work w, const std::string &kind, double budget, uint64_t &attempts)
{
  double t0 = now();
  double lim = kind == "hang" ? 3 : o.hang_limit;
  auto fails = [&](const std::vector<uint32_t> &t, std::vector<uint32_t> &norm) {
    Work x = w;
    x.tape = t;
    attempts++;
    Outcome r = execute(o, x, lim);
    if (!r.ok && r.kind == kind)
    {
      norm = r.tape;
      return true;
    }
    return false;
  };
  // drop prefix runs
  for (size_t i = w.prefix.size(); i > 0 && now() - t0 < budget / 2; i--)
  {
    Work x = w;
    x.prefix.erase(x.prefix.begin() + long(i) - 1);
    attempts++;
    Outcome r = execute(o, x, lim);
    if (!r.ok && r.kind == kind)
      w = x;
  }
  auto trim = [](std::vector<uint32_t> &t) {
    while (!t.empty() && t.back() == 0)
      t.pop_back();
  };
  trim(w.tape);
  auto better = [&](const std::vector<uint32_t> &a, const std::vector<uint32_t> &b) {
    if (a.size() != b.size())
      return a.size() < b.size();
    return a < b;
  };
  auto attempt = [&](std::vector<uint32_t> cand) {
    trim(cand);
    if (!better(cand, w.tape))
      return false;
    std::vector<uint32_t> norm;
    if (!fails(cand, norm))
      return false;
    trim(norm);
    if (better(norm, cand))
      w.tape = norm;
    else
      w.tape = cand;
    return true;
  };
  bool progress = true;
  while (progress && now() - t0 < budget)
  {
    progress = false;
    // cut the tail
    for (size_t keep = w.tape.size() / 2, step = std::max<size_t>(1, w.tape.size() / 2); step >= 1 && now() - t0 < budget;
         step /= 2)
    {
      if (keep < w.tape.size())
      {
        std::vector<uint32_t> c(w.tape.begin(), w.tape.begin() + long(keep));
        if (attempt(c))
        {
          progress = true;
          keep = w.tape.size() > step / 2 ? w.tape.size() - step / 2 : 0;
        }
        else
          keep += step / 2;
      }
      if (step == 1)
        break;
    }
    // delete blocks
    for (size_t bs = 64; bs >= 1 && now() - t0 < budget; bs /= 2)
    {
      size_t i = w.tape.size();
      while (i > 0 && now() - t0 < budget)
      {
        size_t b = i > bs ? i - bs : 0;
        std::vector<uint32_t> c(w.tape.begin(), w.tape.begin() + long(b));
        c.insert(c.end(), w.tape.begin() + long(i), w.tape.end());
        if (attempt(c))
        {
          progress = true;
          i = std::min(b, w.tape.size());
        }
        else
          i = bs == 1 ? i - 1 : (i > bs ? i - bs : 0);
      }
      if (bs == 1)
        break;
    }
    // zero blocks, then lower values
    for (size_t bs = 16; bs >= 1 && now() - t0 < budget; bs /= 2)
    {
      for (size_t i = 0; i < w.tape.size() && now() - t0 < budget; i += bs)
      {
        std::vector<uint32_t> c = w.tape;
        bool any = false;
        for (size_t k = i; k < i + bs && k < c.size(); k++)
          if (c[k])
          {
            c[k] = 0;
            any = true;
          }
        if (any && attempt(c))
          progress = true;
      }
      if (bs == 1)
        break;
    }
    for (size_t i = 0; i < w.tape.size() && now() - t0 < budget; i++)
    {
      uint32_t lo = 0;
      while (i < w.tape.size() && w.tape[i] > lo + 1 && now() - t0 < budget)
      {
        std::vector<uint32_t> c = w.tape;
        uint32_t mid = lo + (c[i] - lo) / 2;
        c[i] = mid;
        if (attempt(c))
          progress = true;
        else
          lo = mid;
      }
      if (i < w.tape.size() && w.tape[i] > 0)
      {
        std::vector<uint32_t> c = w.tape;
        c[i]--;
        if (attempt(c))
          progress = true;
      }
    }
  }
  return w;
}

inline void write_replay(const Opt &o, const std::string &path, const Work &w, const Outcome &r, uint64_t index,
                         size_t original_len, uint64_t attempts)
{
  FILE *f = fopen(path.c_str(), "w");
  if (!f)
    return;
  fprintf(f, "# json_struct deterministic simulation: replay file\n");
  fprintf(f, "property %s\nconfig %s\nbase_seed %llu\nindex %llu\n", scenario_id(), o.config.c_str(),
          (unsigned long long)o.seed, (unsigned long long)index);
  fprintf(f, "kind %s\n", r.kind.c_str());
  std::string m = r.msg;
  for (char &ch : m)
    if (ch == '\n')
      ch = '|';
  fprintf(f, "message %s\n", m.c_str());
  fprintf(f, "hash %016llx\n", (unsigned long long)r.hash);
  fprintf(f, "shrunk %zu -> %zu choices in %llu attempts\n", original_len, w.tape.size(),
          (unsigned long long)attempts);
  fprintf(f, "prefix %zu", w.prefix.size());
  for (uint64_t p : w.prefix)
    fprintf(f, " %llu", (unsigned long long)p);
  fprintf(f, "\ntape %zu", w.tape.size());
  for (uint32_t v : w.tape)
    fprintf(f, " %u", v);
  fprintf(f, "\n");
  fclose(f);
}
inline bool read_replay(const std::string &path, Opt &o, Work &w, std::string &kind, uint64_t &hash)
{
  FILE *f = fopen(path.c_str(), "r");
  if (!f)
    return false;
  w.use_tape = true;
  std::vector<char> line(8 << 20);
  while (fgets(line.data(), int(line.size()), f))
  {
    std::string l(line.data());
    while (!l.empty() && (l.back() == '\n' || l.back() == '\r'))
      l.pop_back();
    size_t sp = l.find(' ');
    if (sp == std::string::npos)
      continue;
    std::string k = l.substr(0, sp), v = l.substr(sp + 1);
    if (k == "config")
      o.config = v;
    else if (k == "base_seed")
      o.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "kind")
      kind = v;
    else if (k == "hash")
      hash = strtoull(v.c_str(), nullptr, 16);
    else if (k == "prefix" || k == "tape")
    {
      char *e = &v[0];
      size_t n = strtoull(e, &e, 10);
      for (size_t i = 0; i < n; i++)
      {
        uint64_t x = strtoull(e, &e, 10);
        if (k == "prefix")
          w.prefix.push_back(x);
        else
          w.tape.push_back(uint32_t(x));
      }
    }
  }
  fclose(f);
  return true;
}
inline std::string json_str(const std::string &s)
{
  std::string o = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += char(c);
    }
    else if (c < 0x20 || c >= 0x7f)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else
      o += char(c);
  }
  return o + "\"";
}

inline int do_run(const Opt &o)
{
  double t0 = now();
  Shared *s = shared();
  uint64_t index = o.start;
  uint64_t done = 0;
  uint64_t nontriv = 0;
  FILE *hf = o.hashes.empty() ? nullptr : fopen(o.hashes.c_str(), "wb");
  Outcome viol;
  std::string status = "ok";
  uint64_t vindex = 0, attempts = 0;
  while ((o.count == 0 || done < o.count) && (o.count || now() - t0 < o.seconds))
  {
    uint32_t n = o.batch;
    if (o.count && o.count - done < n)
      n = uint32_t(o.count - done);
    s->failed = 0;
    s->nresults = 0;
    s->ntape = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
      child_setup(o);
      Src src;
      for (uint32_t i = 0; i < n; i++)
      {
        s->cur_index = index + i * o.stride;
        src.seed(run_seed(o, s->cur_index));
        exec_one(o, src, o.hang_limit);
        s->result_hash[i] = g().hash;
        s->result_nontrivial[i] = g().nontrivial;
        s->nresults = i + 1;
      }
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    for (uint32_t i = 0; i < s->nresults; i++)
    {
      if (s->result_nontrivial[i])
      {
        nontriv++;
        if (hf)
          fwrite(&s->result_hash[i], 8, 1, hf);
      }
    }
    done += s->nresults;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
    {
      Outcome r;
      if (s->failed)
      {
        r.ok = false;
        r.kind = s->kind;
        r.msg = s->msg;
      }
      else
        classify(r, st, slurp(o.stderr_path));
      vindex = s->cur_index;
      // gate: reproduce alone, otherwise with the runs that preceded it in the same process
      Work w;
      w.index = vindex;
      Outcome a = execute(o, w, o.hang_limit);
      if (a.ok)
      {
        for (uint64_t ix = index; ix != vindex; ix += o.stride)
          w.prefix.push_back(ix);
        a = execute(o, w, o.hang_limit);
      }
      Outcome b = a.ok ? a : execute(o, w, o.hang_limit);
      if (a.ok || b.ok || a.kind != b.kind || a.hash != b.hash)
      {
        status = "unreproducible";
        viol = r;
        break;
      }
      size_t orig = a.tape.size();
      w.use_tape = true;
      w.tape = a.tape;
      Outcome c1 = execute(o, w, o.hang_limit);
      if (c1.ok || c1.kind != a.kind)
      {
        status = "unreproducible";
        viol = a;
        break;
      }
      if (!o.noshrink)
        w = shrink(o, w, a.kind, 40, attempts);
      Outcome f1 = execute(o, w, o.hang_limit), f2 = execute(o, w, o.hang_limit);
      if (f1.ok || f2.ok || f1.kind != f2.kind || f1.hash != f2.hash)
      {
        status = "unreproducible";
        viol = a;
        break;
      }
      status = "violation";
      viol = f1;
      if (!o.replay_out.empty())
        write_replay(o, o.replay_out, w, f1, vindex, orig, attempts);
      break;
    }
    index += uint64_t(n) * o.stride;
  }
  if (hf)
    fclose(hf);
  FILE *f = fopen(o.out.c_str(), "w");
  if (!f)
    return 2;
  fprintf(f, "{\"scenario\":%s,\"config\":%s,\"seed\":%llu,\"start\":%llu,\"stride\":%llu,\"runs\":%llu,\"steps\":%llu,"
             "\"nontrivial\":%llu,\"wall\":%.3f,\"status\":%s,\"index\":%llu,\"kind\":%s,\"msg\":%s,\"counters\":{",
          json_str(scenario_id()).c_str(), json_str(o.config).c_str(), (unsigned long long)o.seed,
          (unsigned long long)o.start, (unsigned long long)o.stride, (unsigned long long)done,
          (unsigned long long)s->steps, (unsigned long long)nontriv, now() - t0, json_str(status).c_str(),
          (unsigned long long)vindex, json_str(viol.kind).c_str(), json_str(viol.msg).c_str());
  for (uint32_t i = 0; i < s->ncounters; i++)
    fprintf(f, "%s%s:%llu", i ? "," : "", json_str(s->counters[i].name).c_str(),
            (unsigned long long)s->counters[i].count);
  fprintf(f, "}}\n");
  fclose(f);
  return status == "ok" ? 0 : status == "violation" ? 1 : 3;
}
} // namespace sim

int main(int argc, char **argv)
{
  using namespace sim;
  // same address-space layout in every process: no choice of the kernel may leak into a run
  if (!getenv("SIM_NOASLR"))
  {
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1)
    {
      setenv("SIM_NOASLR", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  Opt o;
  if (argc < 2)
    return 2;
  std::string mode = argv[1];
  for (int i = 2; i < argc; i++)
  {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed")
      o.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--config")
      o.config = val();
    else if (a == "--start")
      o.start = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--stride")
      o.stride = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--count")
      o.count = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--seconds")
      o.seconds = atof(val().c_str());
    else if (a == "--batch")
      o.batch = uint32_t(std::min<unsigned long>(MaxBatch, strtoul(val().c_str(), nullptr, 10)));
    else if (a == "--out")
      o.out = val();
    else if (a == "--hashes")
      o.hashes = val();
    else if (a == "--stderr")
      o.stderr_path = val();
    else if (a == "--replay-out")
      o.replay_out = val();
    else if (a == "--hang-limit")
      o.hang_limit = atof(val().c_str());
    else if (a == "--trace")
      o.trace = true;
    else if (a == "--noshrink")
      o.noshrink = true;
    else
      o.replay = a;
  }
  if (o.stderr_path.empty())
    o.stderr_path = "/dev/null";
  shared() = static_cast<Shared *>(
    mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (shared() == MAP_FAILED)
    return 2;
  live().clear();
  warmup();
  if (mode == "run")
    return do_run(o);
  if (mode == "hash" || mode == "trace")
  {
    for (uint64_t i = 0; i < std::max<uint64_t>(1, o.count); i++)
    {
      Work w;
      w.index = o.start + i * o.stride;
      Outcome r = execute(o, w, o.hang_limit, mode == "trace");
      printf("%llu %016llx %s\n", (unsigned long long)w.index, (unsigned long long)r.hash,
             r.ok ? "ok" : r.kind.c_str());
      if (!r.ok && mode == "trace")
        printf("%s\n", r.msg.c_str());
    }
    return 0;
  }
  if (mode == "replay")
  {
    Work w;
    std::string kind;
    uint64_t hash = 0;
    if (!read_replay(o.replay, o, w, kind, hash))
      return 2;
    Outcome r = execute(o, w, o.hang_limit, o.trace);
    if (r.ok)
    {
      printf("NOT-REPRODUCED\n");
      return 0;
    }
    printf("%s kind=%s hash=%016llx\n%s\n", r.kind == kind && r.hash == hash ? "REPRODUCED" : "DIFFERENT", r.kind.c_str(),
           (unsigned long long)r.hash, r.msg.c_str());
    return 1;
  }
  return 2;
}
