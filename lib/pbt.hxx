/* Small property-based-testing engine used by every harness in /verif/harness.
 *
 * A case is driven by a finite sequence of integer choices (Hypothesis style): the generator draws
 * every random decision through Gen::raw, which records it. A failing case is shrunk by editing the
 * choice sequence, and the shrunk sequence is what the replay file contains.
 *
 * Cases run in forked workers, so a case that aborts (hy_assert), crashes (sanitizer, signal) or
 * burns more than the CPU limit is a failing case like one that throws pbt::Failure. The number of
 * cases per family is fixed, all randomness derives from the seed, and nothing depends on wall-clock
 * time, so a run is a function of (tree, seed, tier).
 */
#pragma once
#include <algorithm>
#include <array>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <tuple>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt
{
/// Code that allocates without end fails here instead of taking the memory of the machine.
inline void limit_memory()
{
#if !defined(__SANITIZE_ADDRESS__)
  struct rlimit mem = {3ul << 30, 3ul << 30};
  setrlimit(RLIMIT_AS, &mem);
#endif
}

struct Failure
{
  std::string key, msg;
};
struct Discard
{
};

inline uint64_t splitmix(uint64_t& s)
{
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i)
    h = (h ^ c[i]) * 1099511628211ULL;
  return h;
}

constexpr size_t MAX_CHOICES = 1 << 16;
struct Slot  // shared with the parent: what the worker is doing right now
{
  volatile uint64_t case_index, n_choices, n_done, n_discard, n_nontrivial, n_known;
  volatile int failed;  // 1: Failure recorded in msg
  char key[256];
  char msg[8192];
  char desc[4096];
  uint64_t choices[MAX_CHOICES];
};

class Gen
{
  uint64_t state_;
  bool replay_;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  Slot* slot_;
  uint64_t n_ = 0;

 public:
  bool is_nontrivial = false, thorough = false;
  std::ostringstream desc;
  std::map<std::string, uint64_t> labels;
  std::string scratch;  // private scratch directory of the worker

  Gen(uint64_t seed, Slot* slot) : state_(seed), replay_(false), slot_(slot) { slot_->n_choices = 0; }
  Gen(std::vector<uint64_t> in, Slot* slot) : state_(0), replay_(true), in_(std::move(in)), slot_(slot)
  {
    slot_->n_choices = 0;
  }
  /// Integer in [0,max]; 0 is the simplest choice.
  uint64_t raw(uint64_t max)
  {
    uint64_t v;
    if (replay_)
      v = pos_ < in_.size() ? std::min(in_[pos_++], max) : 0;
    else
    {
      v = splitmix(state_);
      if (max != ~0ULL)
        v %= max + 1;
    }
    if (n_ >= MAX_CHOICES)
      throw Discard();
    slot_->choices[n_++] = v;
    slot_->n_choices = n_;
    return v;
  }
  long range(long lo, long hi) { return lo + (long)raw((uint64_t)(hi - lo)); }
  size_t index(size_t n) { return (size_t)raw(n - 1); }
  /// True with probability num/den; shrinks to false.
  bool chance(unsigned num, unsigned den) { return raw(den - 1) >= den - num; }
  template <typename C>
  const auto& pick(const C& c)
  {
    return c[index(c.size())];
  }
  template <typename T>
  T oneof(std::initializer_list<T> l)
  {
    return *(l.begin() + index(l.size()));
  }
  long signed_small(long bound)
  {
    uint64_t v = raw(2 * bound);
    return (v & 1) ? -(long)((v + 1) / 2) : (long)(v / 2);
  }
  /// A moderately sized real: small integers, dyadic rationals, or generic numbers in (-10,10).
  double real()
  {
    switch (raw(5))
    {
      case 0:
      case 1: return (double)signed_small(6);
      case 2:
      case 3: return signed_small(160) / 16.;
      default: return (double)((long)raw(20000000) - 10000000) / 1000003.;
    }
  }
  /// Never zero and not tiny (|x| >= 1/16).
  double real_nz()
  {
    double r = real();
    if (std::abs(r) < 1. / 16)
      r = (r < 0 || raw(1)) ? -1. : 1.;
    return r;
  }
  double unit() { return raw(3) == 0 ? (double)raw(4) / 4. : (double)raw(1000000) / 1000000.; }
  double positive(double lo, double hi) { return lo + (hi - lo) * (double)raw(1000) / 1000.; }
  /// Varying magnitude: real * 10^k.
  double real_wide(int k = 6)
  {
    double r = real();
    long e = raw(3) == 0 ? signed_small(k) : 0;
    return r * std::pow(10., (double)e);
  }
  void nontrivial(bool b = true) { is_nontrivial = is_nontrivial || b; }
  void label(const std::string& s) { ++labels[s]; }
  void publish_desc()
  {
    std::string d = desc.str();
    size_t n = std::min(d.size(), sizeof(slot_->desc) - 1);
    memcpy(slot_->desc, d.data(), n);
    slot_->desc[n] = 0;
  }
};

inline void fail(const std::string& msg, const std::string& key = "") { throw Failure{key, msg}; }

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define CHECK(cond, expr)                                                            \
  do                                                                                 \
  {                                                                                  \
    if (!(cond))                                                                     \
    {                                                                                \
      std::ostringstream o_;                                                         \
      o_ << std::setprecision(17) << #cond << " is false: " << expr;                 \
      pbt::fail(o_.str());                                                           \
    }                                                                                \
  } while (0)

/// |a-b| <= tol*scale with NaN counted as different.
inline bool near(double a, double b, double tol, double scale = 1.)
{
  return std::abs(a - b) <= tol * scale;
}
#define CHECK_CLOSE(a, b, tol, scale, expr)                                                 \
  do                                                                                        \
  {                                                                                         \
    const double a_ = (a), b_ = (b), t_ = (tol), s_ = (scale);                              \
    if (!pbt::near(a_, b_, t_, s_))                                                        \
    {                                                                                       \
      std::ostringstream o_;                                                                \
      o_ << std::setprecision(17) << #a << " = " << a_ << " but " << #b << " = " << b_      \
         << " (tolerance " << t_ << " * " << s_ << "): " << expr;                           \
      pbt::fail(o_.str());                                                                  \
    }                                                                                       \
  } while (0)

struct Family
{
  std::string name, rule;
  std::function<void(Gen&)> fn;
  uint64_t quick, thorough;
};
inline std::vector<Family>& families()
{
  static std::vector<Family> f;
  return f;
}
struct Register
{
  Register(const std::string& name,
           uint64_t quick,
           uint64_t thorough,
           const std::string& rule,
           std::function<void(Gen&)> fn)
  {
    families().push_back(Family{name, rule, fn, quick, thorough});
  }
};
/// FAMILY("name", quick cases, thorough cases, "non-triviality rule") { body using Gen& g }
#define FAMILY_IMPL(id, name, quick, thorough, rule)                                   \
  static void PBT_CAT(fam_, id)(pbt::Gen & g);                                         \
  static pbt::Register PBT_CAT(reg_, id)(name, quick, thorough, rule, PBT_CAT(fam_, id)); \
  static void PBT_CAT(fam_, id)([[maybe_unused]] pbt::Gen & g)
#define FAMILY(name, quick, thorough, rule) FAMILY_IMPL(__COUNTER__, name, quick, thorough, rule)

/// Result of running code in a child process of the case: did it return, throw, or die?
struct ChildResult
{
  enum Kind
  {
    returned,
    threw,
    aborted,
    killed
  } kind;
  int sig;
  std::string what;  // tail of stderr / exception text
};
inline ChildResult run_child(const std::function<void()>& f)
{
  int p[2];
  if (pipe(p))
    throw Discard();
  std::cout.flush();
  pid_t pid = fork();
  if (pid == 0)
  {
    close(p[0]);
    dup2(p[1], 2);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    limit_memory();
    struct itimerval iv = {{0, 0}, {30, 0}};
    setitimer(ITIMER_PROF, &iv, nullptr);
    int code = 0;
    try
    {
      f();
    }
    catch (const std::exception& e)
    {
      std::cerr << "\nEXC " << e.what();
      code = 7;
    }
    catch (...)
    {
      code = 7;
    }
    std::cerr.flush();
    _exit(code);
  }
  close(p[1]);
  std::string s;
  char b[4096];
  ssize_t n;
  while ((n = read(p[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR))
    if (n > 0 && s.size() < 20000)
      s.append(b, (size_t)n);
  close(p[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    ;
  ChildResult r{ChildResult::returned, 0, s};
  if (WIFSIGNALED(st))
  {
    r.sig = WTERMSIG(st);
    r.kind = r.sig == SIGABRT ? ChildResult::aborted : ChildResult::killed;
  }
  else if (WEXITSTATUS(st) == 7)
    r.kind = ChildResult::threw;
  else if (WEXITSTATUS(st) != 0)
    r.kind = ChildResult::killed, r.sig = -WEXITSTATUS(st);
  return r;
}

// ------------------------------------------------------------------------------------------------

struct Options
{
  std::string tier = "quick", out, replay, replay_out, scratch, only;
  uint64_t seed = 1;
  double scale = 1.;
  unsigned workers = 8;
  bool first_only = false;  // stop at the first failing family and do not shrink
  std::set<std::string> known;
};

inline std::string json_str(const std::string& s)
{
  std::ostringstream o;
  o << '"';
  for (unsigned char c : s)
    if (c == '"' || c == '\\')
      o << '\\' << c;
    else if (c == '\n')
      o << "\\n";
    else if (c < 32 || c > 126)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o << b;
    }
    else
      o << c;
  o << '"';
  return o.str();
}

struct Runner
{
  Options opt;
  std::vector<Slot*> slots;
  struct Found
  {
    size_t family;
    uint64_t index;
    unsigned worker;
    std::vector<uint64_t> choices;
    std::string key, msg, desc;
    bool prefix = false;
  };

  #ifdef __SANITIZE_ADDRESS__
  static constexpr int CPU_LIMIT_S = 300;
#else
  static constexpr int CPU_LIMIT_S = 60;
#endif

  uint64_t n_cases(const Family& f) const
  {
    double n = (opt.tier == "thorough" ? f.thorough : f.quick) * opt.scale;
    return n < 1 ? 1 : (uint64_t)n;
  }
  uint64_t case_seed(const Family& f, uint64_t idx) const
  {
    uint64_t h = fnv(f.name.data(), f.name.size());
    h ^= opt.seed * 0x9e3779b97f4a7c15ULL;
    splitmix(h);
    h ^= idx * 0xd1342543de82ef95ULL;
    splitmix(h);
    return h;
  }
  std::string worker_dir(unsigned w) const { return opt.scratch + "/w" + std::to_string(w); }
  std::string err_file(unsigned w) const { return opt.scratch + "/err" + std::to_string(w); }

  void enter_child(unsigned w)
  {
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    limit_memory();
    int fd = open(err_file(w).c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    int nul = open("/dev/null", O_WRONLY);
    dup2(fd, 2);
    dup2(nul, 1);
    std::string d = worker_dir(w);
    mkdir(d.c_str(), 0700);
    if (chdir(d.c_str()))
      _exit(99);
  }
  static void arm()
  {
    struct itimerval iv = {{0, 0}, {CPU_LIMIT_S, 0}};
    setitimer(ITIMER_PROF, &iv, nullptr);
  }
  /// 0 ok, 1 failure (recorded in slot), 2 discard, 3 known finding
  int run_case(const Family& f, Gen& g, Slot* s, unsigned w)
  {
    g.scratch = worker_dir(w);
    g.thorough = opt.tier == "thorough";
    s->desc[0] = 0;
    arm();
    std::string key, msg;
    try
    {
      f.fn(g);
      g.publish_desc();
      return 0;
    }
    catch (const Discard&)
    {
      return 2;
    }
    catch (const Failure& e)
    {
      key = e.key;
      msg = e.msg;
    }
    catch (const std::exception& e)
    {
      msg = std::string("unexpected exception: ") + e.what();
    }
    catch (...)
    {
      msg = "unexpected exception of unknown type";
    }
    g.publish_desc();
    if (!key.empty() && opt.known.count(key))
      return 3;
    snprintf(s->key, sizeof s->key, "%s", key.c_str());
    snprintf(s->msg, sizeof s->msg, "%s", msg.c_str());
    s->failed = 1;
    return 1;
  }

  // Worker for one family: runs the cases w, w+W, w+2W, ... up to `last` (inclusive).
  void worker(size_t fi, unsigned w, uint64_t last, const std::string& result)
  {
    enter_child(w);
    const Family& f = families()[fi];
    Slot* s = slots[w];
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    std::set<std::string> known_hit;
    int code = 0;
    for (uint64_t i = w; i <= last; i += opt.workers)
    {
      s->case_index = i;
      Gen g(case_seed(f, i), s);
      int r = run_case(f, g, s, w);
      if (r == 1)
      {
        code = 3;
        break;
      }
      s->n_done = s->n_done + 1;
      if (r == 2)
        s->n_discard = s->n_discard + 1;
      else
      {
        for (auto& l : g.labels)
          labels[l.first] += l.second;
        if (g.is_nontrivial)
        {
          hashes.insert(fnv((const void*)s->choices, s->n_choices * sizeof(uint64_t)));
          if (samples.size() < 2 && !g.desc.str().empty())
            samples.push_back(g.desc.str());
        }
      }
      if (r == 3)
        known_hit.insert("known");
    }
    struct itimerval iv = {{0, 0}, {0, 0}};
    setitimer(ITIMER_PROF, &iv, nullptr);
    if (!result.empty())
    {
      std::ofstream o(result);
      for (uint64_t h : hashes)
        o << "h " << h << "\n";
      for (auto& l : labels)
        o << "l " << l.second << " " << l.first << "\n";
      for (auto& x : samples)
      {
        std::string y = x.substr(0, 600);
        std::replace(y.begin(), y.end(), '\n', ' ');
        o << "s " << y << "\n";
      }
    }
    _exit(code);
  }
  static std::string tail(const std::string& file, size_t n = 1500)
  {
    std::ifstream i(file);
    std::stringstream b;
    b << i.rdbuf();
    std::string s = b.str();
    return s.size() > n ? s.substr(s.size() - n) : s;
  }
  std::string death(int st, unsigned w)
  {
    std::ostringstream o;
    if (WIFSIGNALED(st))
    {
      int sig = WTERMSIG(st);
      if (sig == SIGPROF)
        o << "case exceeded " << CPU_LIMIT_S << " s of CPU time";
      else
        o << "process died of signal " << sig << " (" << strsignal(sig) << ")";
    }
    else
      o << "process exited with status " << WEXITSTATUS(st);
    o << "; stderr tail: " << tail(err_file(w));
    return o.str();
  }
  static pid_t wait_for(pid_t p, int& st)
  {
    pid_t r;
    while ((r = waitpid(p, &st, 0)) < 0 && errno == EINTR)
      ;
    return r;
  }
  void reset(Slot* s)
  {
    s->case_index = s->n_choices = s->n_done = s->n_discard = s->n_nontrivial = s->n_known = 0;
    s->failed = 0;
    s->key[0] = s->msg[0] = s->desc[0] = 0;
  }
  /// Runs one choice sequence in a child; true if it fails. `used` gets the consumed choices.
  bool fails(size_t fi, const std::vector<uint64_t>& c, Found& out, unsigned w = 0)
  {
    Slot* s = slots[w];
    reset(s);
    pid_t pid = fork();
    if (pid == 0)
    {
      enter_child(w);
      Gen g(c, s);
      int r = run_case(families()[fi], g, s, w);
      _exit(r == 1 ? 3 : 0);
    }
    int st;
    wait_for(pid, st);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
      return false;
    out.choices.assign(s->choices, s->choices + s->n_choices);
    out.desc = s->desc;
    if (s->failed)
    {
      out.key = s->key;
      out.msg = s->msg;
    }
    else
    {
      out.key = "";
      out.msg = death(st, w);
    }
    return true;
  }
  void shrink(Found& f)
  {
    int budget = 1500;
    struct timeval t0, t1;
    gettimeofday(&t0, nullptr);
    auto attempt = [&](std::vector<uint64_t> c) -> bool
    {
      gettimeofday(&t1, nullptr);
      if (budget-- <= 0 || t1.tv_sec - t0.tv_sec > 60)  // only bounds how small the replay gets
        return false;
      Found o = f;
      if (!fails(f.family, c, o))
        return false;
      if (o.choices.size() > f.choices.size() ||
          (o.choices.size() == f.choices.size() && !(o.choices < f.choices)))
        return false;
      f = o;
      return true;
    };
    bool progress = true;
    while (progress && budget > 0)
    {
      progress = false;
      for (size_t len = std::max<size_t>(1, f.choices.size() / 2); len >= 1; len /= 2)
      {
        for (size_t i = 0; i + len <= f.choices.size() && budget > 0;)
        {
          std::vector<uint64_t> c = f.choices;
          c.erase(c.begin() + i, c.begin() + i + len);
          if (attempt(c))
            progress = true;
          else
          {
            c = f.choices;
            bool any = false;
            for (size_t k = i; k < i + len; ++k)
              any = any || c[k], c[k] = 0;
            if (any && attempt(c))
              progress = true;
            i += len;
          }
        }
        if (len == 1)
          break;
      }
      for (size_t i = 0; i < f.choices.size() && budget > 0; ++i)
      {
        uint64_t lo = 0;
        while (i < f.choices.size() && lo < f.choices[i] && budget > 0)
        {
          std::vector<uint64_t> c = f.choices;
          c[i] = lo + (f.choices[i] - lo) / 2;
          if (attempt(c))
            progress = true;
          else
            lo = lo + (f.choices[i] - lo) / 2 + 1;
        }
      }
    }
  }

  int main(int argc, char** argv)
  {
    for (int i = 1; i + 1 < argc; i += 2)
    {
      std::string a = argv[i], v = argv[i + 1];
      if (a == "--tier")
        opt.tier = v;
      else if (a == "--seed")
        opt.seed = std::stoull(v);
      else if (a == "--scale")
        opt.scale = std::stod(v);
      else if (a == "--out")
        opt.out = v;
      else if (a == "--replay")
        opt.replay = v;
      else if (a == "--replay-out")
        opt.replay_out = v;
      else if (a == "--scratch")
        opt.scratch = v;
      else if (a == "--workers")
        opt.workers = (unsigned)std::stoul(v);
      else if (a == "--only")
        opt.only = v;
      else if (a == "--first-only")
        opt.first_only = v != "0";
      else if (a == "--known")
        opt.known.insert(v);
      else
      {
        fprintf(stderr, "unknown option %s\n", argv[i]);
        return 2;
      }
    }
    std::sort(families().begin(), families().end(),
              [](const Family& a, const Family& b) { return a.name < b.name; });
    for (unsigned w = 0; w < opt.workers; ++w)
      slots.push_back((Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE,
                                  MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (!opt.replay.empty())
      return replay();

    std::vector<Found> found;
    std::ostringstream fam_json;
    uint64_t total = 0, nontriv = 0, discards = 0;
    std::vector<std::string> samples;
    bool first = true;
    for (size_t fi = 0; fi < families().size(); ++fi)
    {
      const Family& f = families()[fi];
      if (!opt.only.empty() && f.name.find(opt.only) == std::string::npos)
        continue;
      uint64_t n = n_cases(f);
      std::vector<pid_t> pids;
      for (unsigned w = 0; w < opt.workers; ++w)
      {
        reset(slots[w]);
        std::string res = opt.scratch + "/res" + std::to_string(w);
        unlink(res.c_str());
        pid_t pid = fork();
        if (pid == 0)
          worker(fi, w, n - 1, res);
        pids.push_back(pid);
      }
      std::vector<Found> here;
      std::unordered_set<uint64_t> hashes;
      std::map<std::string, uint64_t> labels;
      uint64_t done = 0, disc = 0;
      unsigned n_samp = 0;
      for (unsigned w = 0; w < opt.workers; ++w)
      {
        int st;
        wait_for(pids[w], st);
        Slot* s = slots[w];
        done += s->n_done;
        disc += s->n_discard;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
        {
          Found o;
          o.family = fi;
          o.index = s->case_index;
          o.worker = w;
          o.choices.assign(s->choices, s->choices + s->n_choices);
          o.desc = s->desc;
          o.key = s->failed ? s->key : "";
          o.msg = s->failed ? std::string(s->msg) : death(st, w);
          here.push_back(o);
        }
        std::ifstream in(opt.scratch + "/res" + std::to_string(w));
        std::string line;
        while (std::getline(in, line))
        {
          if (line[0] == 'h')
            hashes.insert(std::stoull(line.substr(2)));
          else if (line[0] == 'l')
          {
            std::istringstream is(line.substr(2));
            uint64_t c;
            is >> c;
            std::string l;
            std::getline(is, l);
            labels[l.substr(1)] += c;
          }
          else if (line[0] == 's' && n_samp < 3)
          {
            samples.push_back(f.name + ": " + line.substr(2));
            ++n_samp;
          }
        }
      }
      total += done;
      discards += disc;
      nontriv += hashes.size();
      fam_json << (first ? "" : ",") << "\n    {\"family\": " << json_str(f.name)
               << ", \"cases\": " << done << ", \"discarded\": " << disc
               << ", \"distinct_nontrivial\": " << hashes.size()
               << ", \"rule\": " << json_str(f.rule) << ", \"labels\": {";
      bool fl = true;
      for (auto& l : labels)
      {
        fam_json << (fl ? "" : ", ") << json_str(l.first) << ": " << l.second;
        fl = false;
      }
      fam_json << "}}";
      first = false;
      if (!here.empty())
      {
        std::sort(here.begin(), here.end(),
                  [](const Found& a, const Found& b) { return a.index < b.index; });
        found.push_back(here[0]);
        if (opt.first_only)
          break;
      }
    }
    // Confirm and shrink.
    std::ostringstream viol;
    unsigned nv = 0;
    for (auto& f : found)
    {
      Found orig = f;
      unsigned again = 0;
      for (int k = 0; k < 3; ++k)
      {
        Found o = f;
        if (fails(f.family, orig.choices, o))
          ++again;
      }
      if (again == 3)
      {
        if (!opt.first_only)
          shrink(f);
        unsigned c3 = 0;
        for (int k = 0; k < 3; ++k)
        {
          Found o = f;
          if (fails(f.family, f.choices, o))
            ++c3;
        }
        if (c3 < 3)
          f = orig;
      }
      else
      {
        f.prefix = true;  // needs the history of the worker: replay all earlier cases as well
        again = 0;
        for (int k = 0; k < 3; ++k)
        {
          Slot* s = slots[f.worker];
          reset(s);
          pid_t pid = fork();
          if (pid == 0)
            worker(f.family, f.worker, f.index, "");
          int st;
          wait_for(pid, st);
          if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
            ++again;
        }
        if (again == 0)
        {
          fprintf(stderr, "NOTE: %s case %llu failed once and never again (%s); not reported\n",
                  families()[f.family].name.c_str(), (unsigned long long)f.index, f.msg.c_str());
          continue;
        }
      }
      std::string path = opt.replay_out + "/" + families()[f.family].name + ".replay.json";
      std::ofstream o(path);
      o << "{\n \"family\": " << json_str(families()[f.family].name) << ",\n \"seed\": " << opt.seed
        << ",\n \"tier\": " << json_str(opt.tier) << ",\n \"scale\": " << opt.scale
        << ",\n \"workers\": " << opt.workers << ",\n \"case_index\": " << f.index
        << ",\n \"prefix\": " << (f.prefix ? 1 : 0) << ",\n \"reproduced\": " << again
        << ",\n \"key\": " << json_str(f.key) << ",\n \"message\": " << json_str(f.msg)
        << ",\n \"input\": " << json_str(f.desc) << ",\n \"choices\": [";
      for (size_t k = 0; k < f.choices.size(); ++k)
        o << (k ? ", " : "") << f.choices[k];
      o << "]\n}\n";
      viol << (nv++ ? "," : "") << "\n    {\"family\": " << json_str(families()[f.family].name)
           << ", \"replay\": " << json_str(path) << ", \"reproduced\": " << again
           << ", \"message\": " << json_str(f.msg.substr(0, 1500)) << "}";
      fprintf(stderr, "FAILED %s case %llu: %s\n  input: %s\n", families()[f.family].name.c_str(),
              (unsigned long long)f.index, f.msg.c_str(), f.desc.substr(0, 1500).c_str());
    }
    std::ofstream o(opt.out);
    o << "{\n  \"evaluations\": " << total << ",\n  \"distinct_nontrivial\": " << nontriv
      << ",\n  \"discarded\": " << discards << ",\n  \"families\": [" << fam_json.str()
      << "\n  ],\n  \"samples\": [";
    for (size_t k = 0; k < samples.size(); ++k)
      o << (k ? ", " : "") << "\n    " << json_str(samples[k]);
    o << "\n  ],\n  \"violations\": [" << viol.str() << "\n  ]\n}\n";
    o.close();
    return nv == 0 ? 0 : 1;
  }

  int replay()
  {
    std::ifstream in(opt.replay);
    std::stringstream b;
    b << in.rdbuf();
    std::string s = b.str();
    auto str = [&](const std::string& k)
    {
      size_t p = s.find("\"" + k + "\": \"") + k.size() + 5;
      return s.substr(p, s.find('"', p) - p);
    };
    auto num = [&](const std::string& k)
    {
      size_t p = s.find("\"" + k + "\": ") + k.size() + 4;
      return std::stod(s.substr(p));
    };
    std::string fam = str("family");
    opt.seed = (uint64_t)num("seed");
    opt.tier = str("tier");
    opt.scale = num("scale");
    size_t fi = 0;
    while (fi < families().size() && families()[fi].name != fam)
      ++fi;
    if (fi == families().size())
    {
      fprintf(stderr, "family %s not in this program\n", fam.c_str());
      return 2;
    }
    Found o;
    bool bad;
    if (num("prefix") != 0)
    {
      opt.workers = (unsigned)num("workers");
      while (slots.size() < opt.workers)
        slots.push_back((Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE,
                                    MAP_SHARED | MAP_ANONYMOUS, -1, 0));
      uint64_t idx = (uint64_t)num("case_index");
      unsigned w = (unsigned)(idx % opt.workers);
      reset(slots[w]);
      pid_t pid = fork();
      if (pid == 0)
        worker(fi, w, idx, "");
      int st;
      wait_for(pid, st);
      bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
      if (bad)
        o.msg = slots[w]->failed ? std::string(slots[w]->msg) : death(st, w), o.desc = slots[w]->desc;
    }
    else
    {
      std::vector<uint64_t> c;
      size_t p = s.rfind('[');
      std::string l = s.substr(p + 1, s.rfind(']') - p - 1);
      std::replace(l.begin(), l.end(), ',', ' ');
      std::istringstream is(l);
      uint64_t v;
      while (is >> v)
        c.push_back(v);
      o.family = fi;
      bad = fails(fi, c, o);
    }
    if (bad)
      printf("REPRODUCED %s: %s\n  input: %s\n", fam.c_str(), o.msg.c_str(), o.desc.c_str());
    else
      printf("not reproduced: %s holds on this input\n", fam.c_str());
    return bad ? 1 : 0;
  }
};
}  // namespace pbt

#ifdef PBT_MAIN
int main(int argc, char** argv)
{
  pbt::Runner r;
  return r.main(argc, argv);
}
#endif
