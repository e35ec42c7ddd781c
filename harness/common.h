// Shared harness runtime: deterministic PRNG, case loop, event counters,
// violation reporting.  One process runs one shard of the cases; the runner
// (run_check.py) restarts after a crash and attributes it to the case named in
// the progress file.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <exception>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // uniform integer in [lo,hi]
  int in(int lo, int hi) {
    return lo + (int)(next() % (uint64_t)(hi - lo + 1));
  }
  bool chance(double p) { return uni() < p; }
  double uni() { return (double)(next() >> 11) * 0x1.0p-53; }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  // "ordinary" nonzero number with few mantissa bits or many
  double num(double mag = 2.0) {
    double v = uni(-mag, mag);
    if (chance(0.2))
      v = std::round(v * 4) / 4;
    return v;
  }
  template <class C> auto &pick(C &c) { return c[next() % c.size()]; }
};

inline uint64_t hmix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}
inline uint64_t hdbl(double d) {
  uint64_t u;
  std::memcpy(&u, &d, 8);
  return u;
}
inline bool biteq(double a, double b) {
  return hdbl(a) == hdbl(b) || (std::isnan(a) && std::isnan(b));
}

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += (char)ch;
    } else if (ch == '\n')
      o += "\\n";
    else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += (char)ch;
  }
  return o;
}

template <class... A> std::string cat(A &&...a) {
  std::ostringstream o;
  o.precision(17);
  (void)(o << ... << a);
  return o.str();
}

struct Ctx {
  uint64_t salt = 0;
  std::string mode; // variant of the workload a run asks for
  // identity of the running case
  uint64_t seed = 1;
  long idx = 0;
  bool thorough = false;
  bool verbose = false;
  Rng rng{1};
  FILE *out = nullptr;
  int progfd = -1;
  std::string phase_;
  // accumulated
  long evaluations = 0;
  std::set<uint64_t> distinct;
  std::map<std::string, long> ev;
  std::vector<std::string> samples;
  long nviol = 0;
  long caseViol = 0;

  void count(const std::string &k, long n = 1) { ev[k] += n; }
  void nontrivial(uint64_t h) { distinct.insert(h); }
  void sample(const std::string &s) {
    if (samples.size() < 3)
      samples.push_back(s);
  }
  void writeProgress() {
    if (progfd < 0)
      return;
    char buf[256];
    int n = snprintf(buf, sizeof buf, "%ld %-200.200s\n", idx, phase_.c_str());
    if (pwrite(progfd, buf, (size_t)n, 0) < 0) {
    }
  }
  // names what the harness is asking of the library right now (crash key)
  void phase(const std::string &p) {
    phase_ = p;
    writeProgress();
  }
  // key: stable identifier of the failing call site / oracle; msg: witness
  void violation(const std::string &key, const std::string &msg) {
    ++nviol;
    ++caseViol;
    if (verbose)
      fprintf(stderr, "VIOL case=%ld key=%s %s\n", idx, key.c_str(),
              msg.c_str());
    if (out && caseViol <= 4) {
      fprintf(out, "{\"t\":\"viol\",\"case\":%ld,\"key\":\"%s\",\"msg\":\"%s\"}\n",
              idx, jesc(key).c_str(), jesc(msg.substr(0, 1500)).c_str());
      fflush(out);
    }
  }
  void expect(bool ok, const std::string &key, const std::string &msg) {
    if (!ok)
      violation(key, msg);
  }
};

// numeric comparison with scale; returns true if ok
inline bool close(double got, double ref, double tol) {
  if (std::isnan(got) || std::isinf(got))
    return false;
  return std::fabs(got - ref) <= tol;
}

// every case gets a thread of its own: ADOL-C's tapes, current tape and tape
// ids are thread-local, so each case starts from a pristine library state
template <class F> void fresh(F f) {
  std::exception_ptr ex;
  std::thread t([&] {
    try { f(); } catch (...) { ex = std::current_exception(); }
  });
  t.join();
  if (ex) std::rethrow_exception(ex);
}
using CaseFn = std::function<void(Ctx &)>;

// main loop: --seed S --shard i --nshards k --count N --start J --out F
//            --progress F --tier quick|thorough --case J (replay one, verbose)
inline int harness_main(int argc, char **argv, const CaseFn &fn,
                        const std::function<void(Ctx &)> &finish = nullptr) {
  Ctx c;
  long shard = 0, nshards = 1, count = 0, start = 0, only = -1;
  std::string outf, progf;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string {
      if (i + 1 >= argc) {
        fprintf(stderr, "missing value for %s\n", a.c_str());
        exit(97);
      }
      return argv[++i];
    };
    if (a == "--seed")
      c.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--shard")
      shard = atol(val().c_str());
    else if (a == "--nshards")
      nshards = atol(val().c_str());
    else if (a == "--count")
      count = atol(val().c_str());
    else if (a == "--start")
      start = atol(val().c_str());
    else if (a == "--out")
      outf = val();
    else if (a == "--progress")
      progf = val();
    else if (a == "--tier")
      c.thorough = val() == "thorough";
    else if (a == "--salt")
      c.salt = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--mode")
      c.mode = val();
    else if (a == "--case") {
      only = atol(val().c_str());
      c.verbose = true;
    } else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 97;
    }
  }
  if (!outf.empty()) {
    c.out = fopen(outf.c_str(), "a");
    if (!c.out) {
      perror("out");
      return 97;
    }
  }
  if (!progf.empty())
    c.progfd = open(progf.c_str(), O_CREAT | O_WRONLY, 0644);
  auto one = [&](long j) {
    c.idx = j;
    c.caseViol = 0;
    c.rng = Rng(hmix(hmix(0x5eed, c.seed) + c.salt, (uint64_t)j));
    c.phase("start");
    ++c.evaluations;
    try {
      fn(c);
    } catch (const std::exception &e) {
      // the workloads make valid calls only; expected errors are caught there
      c.violation("exception:" + c.phase_, e.what());
    }
  };
  if (only >= 0) {
    one(only);
  } else {
    for (long j = start; j < count; ++j)
      if (j % nshards == shard)
        one(j);
  }
  c.phase("finish");
  if (finish)
    finish(c);
  c.phase("done");
  if (c.out) {
    fprintf(c.out, "{\"t\":\"done\",\"evaluations\":%ld,\"events\":{",
            c.evaluations);
    bool first = true;
    for (auto &[k, v] : c.ev) {
      fprintf(c.out, "%s\"%s\":%ld", first ? "" : ",", jesc(k).c_str(), v);
      first = false;
    }
    fprintf(c.out, "},\"distinct\":[");
    first = true;
    for (auto h : c.distinct) {
      fprintf(c.out, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h);
      first = false;
    }
    fprintf(c.out, "],\"samples\":[");
    first = true;
    for (auto &s : c.samples) {
      fprintf(c.out, "%s\"%s\"", first ? "" : ",", jesc(s).c_str());
      first = false;
    }
    fprintf(c.out, "]}\n");
    fclose(c.out);
    c.out = nullptr;
  }
  return only >= 0 ? (c.nviol ? 1 : 0) : 0;
}

} // namespace vh
