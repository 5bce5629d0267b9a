// A small choice-sequence property-based testing engine for MPI programs.
//
// A property is a function void(Gen &). Every random decision comes from Gen;
// the engine records each drawn value, so a case is its list of choices. All
// MPI ranks hold the same choices (lock step). ck() records a failure on this
// rank, sync() combines the failures of all ranks and ends the case everywhere.
#pragma once
#include <mpi.h>

#include <algorithm>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
// Stateless hash of up to four values: bulk data that is a pure function of
// drawn values.
inline uint64_t hash(uint64_t a, uint64_t b = 0, uint64_t c = 0,
                     uint64_t d = 0) {
  uint64_t s = a;
  uint64_t r = splitmix(s);
  s = r ^ (b * 0xd6e8feb86659fd93ull);
  r = splitmix(s);
  s = r ^ (c * 0xa0761d6478bd642full);
  r = splitmix(s);
  s = r ^ (d * 0xe7037ed1a0b428dbull);
  return splitmix(s);
}

struct EndOfCase {}; // this case failed (somewhere); unwinds to the runner
struct Discard {};   // precondition not met

static constexpr size_t TRACE_MAX = 1 << 16;
struct Trace { // shared with the driver through a file mapping
  uint64_t magic;
  uint64_t case_index;
  uint64_t phase; // 0 idle, 1 running a generated case, 2 shrinking, 3 done
  uint64_t n;
  uint64_t heartbeat;
  uint64_t choices[TRACE_MAX];
};

class Engine;

class Gen {
  friend class Engine;
  uint64_t state{0};
  bool replay{false};
  std::vector<uint64_t> in;
  size_t pos{0};
  Trace *trace{nullptr};

  uint64_t record(uint64_t v) {
    if (rec.size() < TRACE_MAX) {
      if (trace) {
        trace->choices[rec.size()] = v;
        __atomic_store_n(&trace->n, rec.size() + 1, __ATOMIC_RELEASE);
      }
    }
    rec.push_back(v);
    return v;
  }

public:
  std::vector<uint64_t> rec;
  bool nontrivial{false};
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> notes;
  bool failed{false};
  std::string message;
  uint64_t tick{0};

  // Uniform (biased in generation only) draw from [0, n). 0 is the simplest.
  // bias: 0 uniform, 1 boundary biased.
  uint64_t draw(uint64_t n, int bias = 0) {
    if (n == 0)
      n = 1;
    uint64_t v;
    if (replay) {
      v = pos < in.size() ? in[pos] : 0;
      pos++;
      v = v % n;
    } else {
      uint64_t r = splitmix(state);
      if (bias && n > 3) {
        uint64_t b = r % 16;
        uint64_t q = splitmix(state);
        if (b == 0)
          v = 0;
        else if (b == 1)
          v = n - 1;
        else if (b == 2)
          v = 1;
        else if (b < 7)
          v = q % (1 + std::min<uint64_t>(n - 1, 1 + (n >> 3)));
        else
          v = q % n;
      } else {
        v = r % n;
      }
    }
    return record(v);
  }
  // Integer in [lo, hi], boundary biased, shrinks towards lo.
  int64_t integer(int64_t lo, int64_t hi) {
    return lo + (int64_t)draw((uint64_t)(hi - lo + 1), 1);
  }
  int64_t uniform(int64_t lo, int64_t hi) {
    return lo + (int64_t)draw((uint64_t)(hi - lo + 1), 0);
  }
  // A size in [lo, hi] skewed to small values.
  int64_t size(int64_t lo, int64_t hi) {
    int64_t k = draw(4);
    int64_t top = k == 3 ? hi : lo + std::max<int64_t>(1, (hi - lo) / (k == 2 ? 4 : 16));
    top = std::min(top, hi);
    return integer(lo, top);
  }
  bool chance(int num, int den) {
    // shrinks to false
    return (int64_t)draw(den) >= den - num;
  }
  bool boolean() { return draw(2) != 0; }
  template <typename T> T pick(std::initializer_list<T> l) {
    auto it = l.begin();
    std::advance(it, draw(l.size()));
    return *it;
  }
  template <typename T> const T &pick(const std::vector<T> &l) {
    return l.at(draw(l.size()));
  }
  // Index by weights.
  int weighted(const std::vector<int> &w) {
    int tot = 0;
    for (int x : w)
      tot += x;
    int v = (int)draw(tot);
    for (size_t i = 0; i < w.size(); i++) {
      if (v < w[i])
        return (int)i;
      v -= w[i];
    }
    return (int)w.size() - 1;
  }
  // Real in [lo, hi] on a grid of 2^24 points (ends included).
  double real(double lo, double hi) {
    const uint64_t n = (1ull << 24) + 1;
    uint64_t v = draw(n, 1);
    return lo + (hi - lo) * ((double)v / (double)(n - 1));
  }
  uint64_t seed32() { return draw(1ull << 32); }

  void label(const std::string &s) { labels[s]++; }
  void mark(bool c = true) { nontrivial = nontrivial || c; }
  template <typename... T> void note(T &&...t) {
    static const bool verbose = getenv("PBT_VERBOSE") != nullptr;
    if (verbose) {
      std::ostringstream o;
      (o << ... << t);
      fprintf(stderr, "%s\n", o.str().c_str());
    }
    if (notes.size() < 60) {
      std::ostringstream o;
      (o << ... << t);
      notes.push_back(o.str());
    }
  }
  // Soft check: records the first failure on this rank.
  template <typename... T> bool ck(bool c, T &&...t) {
    if (!c && !failed) {
      failed = true;
      std::ostringstream o;
      o.precision(17);
      (o << ... << t);
      message = o.str();
    }
    return c;
  }
  // Collective: ends the case on all ranks when any rank failed.
  void sync(MPI_Comm comm = MPI_COMM_WORLD) {
    int f = failed ? 1 : 0, g = 0;
    if (trace)
      trace->heartbeat++;
    MPI_Allreduce(&f, &g, 1, MPI_INT, MPI_MAX, comm);
    if (g)
      throw EndOfCase{};
  }
  void discard() { throw Discard{}; }
};

using Property = std::function<void(Gen &)>;

class Engine {
  int rank{0}, size{1};
  Trace *trace{nullptr};
  std::string prop;
  double t0;
  static double now() {
    return std::chrono::duration<double>(
               std::chrono::steady_clock::now().time_since_epoch())
        .count();
  }

  struct Result {
    bool failed{false}, discarded{false};
    std::string message;
  };

  Result run(Gen &g, Property &p) {
    Result r;
    try {
      p(g);
      g.sync();
    } catch (EndOfCase &) {
      r.failed = true;
    } catch (Discard &) {
      r.discarded = true;
    } catch (std::exception &e) {
      fprintf(stderr, "[rank %d] exception: %s\n", rank, e.what());
      fflush(stderr);
      MPI_Abort(MPI_COMM_WORLD, 97);
    }
    if (r.failed) {
      // Lowest failing rank's message.
      int f = g.failed ? rank : size, lo = 0;
      MPI_Allreduce(&f, &lo, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
      std::vector<char> buf(2048, 0);
      if (rank == lo) {
        std::string m =
            (size > 1 ? "rank " + std::to_string(rank) + ": " : "") + g.message;
        strncpy(buf.data(), m.c_str(), buf.size() - 1);
      }
      MPI_Bcast(buf.data(), (int)buf.size(), MPI_CHAR, lo < size ? lo : 0,
                MPI_COMM_WORLD);
      r.message = buf.data();
    }
    return r;
  }

  void begin(Gen &g, uint64_t idx, uint64_t phase) {
    if (trace) {
      trace->n = 0;
      trace->case_index = idx;
      trace->phase = phase;
      trace->heartbeat++;
    }
    g.trace = trace;
  }
  void end() {
    if (trace)
      trace->phase = 0;
  }

  bool try_choices(const std::vector<uint64_t> &c, Property &p,
                   std::vector<uint64_t> &out, std::string &msg,
                   std::vector<std::string> &notes) {
    Gen g;
    g.replay = true;
    g.in = c;
    begin(g, 0, 2);
    auto r = run(g, p);
    end();
    if (r.failed) {
      out = g.rec;
      msg = r.message;
      notes = g.notes;
    }
    return r.failed;
  }

  // Rank 0 decides from the clock, everyone follows.
  bool time_left(double limit) {
    int c = (now() - t0) < limit ? 1 : 0;
    MPI_Bcast(&c, 1, MPI_INT, 0, MPI_COMM_WORLD);
    return c;
  }

  static bool simpler(const std::vector<uint64_t> &a,
                      const std::vector<uint64_t> &b) {
    if (a.size() != b.size())
      return a.size() < b.size();
    return a < b;
  }

  void shrink(std::vector<uint64_t> &best, std::string &msg,
              std::vector<std::string> &notes, Property &p, double limit) {
    const double tend = now() - t0 + limit;
    int evals = 0;
    auto attempt = [&](const std::vector<uint64_t> &c) {
      if (!simpler(c, best) || evals > 2000)
        return false;
      evals++;
      std::vector<uint64_t> out;
      std::string m;
      std::vector<std::string> n;
      if (try_choices(c, p, out, m, n)) {
        // out may be longer than c when a replay ran past the end
        if (simpler(out, best)) {
          best = out;
          msg = m;
          notes = n;
          return true;
        }
      }
      return false;
    };
    bool improved = true;
    while (improved && time_left(tend) && evals < 2000) {
      improved = false;
      for (size_t len : {32, 16, 8, 4, 3, 2, 1}) {
        for (size_t i = best.size(); i-- > 0;) {
          if (!time_left(tend))
            return;
          if (i + len > best.size())
            continue;
          auto c = best;
          c.erase(c.begin() + i, c.begin() + i + len);
          if (attempt(c)) {
            improved = true;
            i = std::min(i, best.size());
          }
        }
      }
      for (size_t i = 0; i < best.size(); i++) {
        if (!time_left(tend))
          return;
        if (best[i] == 0)
          continue;
        auto c = best;
        c[i] = 0;
        if (attempt(c)) {
          improved = true;
          continue;
        }
        // binary descent
        uint64_t lo = 0, hi = best[i];
        int guard = 0;
        while (hi - lo > 1 && guard++ < 12 && i < best.size()) {
          uint64_t mid = lo + (hi - lo) / 2;
          c = best;
          c[i] = mid;
          if (attempt(c)) {
            improved = true;
            hi = mid;
          } else
            lo = mid;
        }
        if (i < best.size() && best[i] > 0) {
          c = best;
          c[i] = best[i] - 1;
          if (attempt(c))
            improved = true;
        }
      }
    }
  }

  static std::string js(const std::string &s) {
    std::string o = "\"";
    for (char ch : s) {
      if (ch == '"' || ch == '\\') {
        o += '\\';
        o += ch;
      } else if (ch == '\n')
        o += "\\n";
      else if ((unsigned char)ch < 32)
        o += ' ';
      else
        o += ch;
    }
    return o + "\"";
  }
  static std::string js(const std::vector<std::string> &v) {
    std::string o = "[";
    for (size_t i = 0; i < v.size(); i++)
      o += (i ? "," : "") + js(v[i]);
    return o + "]";
  }
  static std::string js(const std::vector<uint64_t> &v) {
    std::string o = "[";
    for (size_t i = 0; i < v.size(); i++)
      o += (i ? "," : "") + std::to_string(v[i]);
    return o + "]";
  }

public:
  // argv: --seed N --cases N --start N --budget SECONDS --shrink SECONDS
  //       --trace FILE --out FILE --replay FILE (choices, one per line) --times N
  int main(int argc, char **argv, const std::string &name, Property p) {
    uint64_t seed = 1, cases = 100, start = 0;
    double budget = 1e9, shrink_s = 40;
    std::string tracef, outf, replayf;
    for (int i = 1; i + 1 < argc; i += 2) {
      std::string k = argv[i], v = argv[i + 1];
      if (k == "--seed")
        seed = std::stoull(v);
      else if (k == "--cases")
        cases = std::stoull(v);
      else if (k == "--start")
        start = std::stoull(v);
      else if (k == "--budget")
        budget = std::stod(v);
      else if (k == "--shrink")
        shrink_s = std::stod(v);
      else if (k == "--trace")
        tracef = v;
      else if (k == "--out")
        outf = v;
      else if (k == "--replay")
        replayf = v;
    }
    prop = name;
    t0 = now();
    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    MPI_Comm_size(MPI_COMM_WORLD, &size);
    if (rank == 0 && !tracef.empty()) {
      int fd = open(tracef.c_str(), O_RDWR | O_CREAT, 0644);
      if (fd >= 0 && ftruncate(fd, sizeof(Trace)) == 0) {
        void *m = mmap(nullptr, sizeof(Trace), PROT_READ | PROT_WRITE,
                       MAP_SHARED, fd, 0);
        if (m != MAP_FAILED)
          trace = (Trace *)m;
        close(fd);
      }
      if (trace)
        trace->magic = 0x70627431;
    }
    FILE *out = nullptr;
    if (rank == 0)
      out = outf.empty() ? stdout : fopen(outf.c_str(), "w");

    if (!replayf.empty()) {
      std::vector<uint64_t> c;
      FILE *f = fopen(replayf.c_str(), "r");
      unsigned long long x;
      while (f && fscanf(f, "%llu", &x) == 1)
        c.push_back(x);
      if (f)
        fclose(f);
      Gen g;
      g.replay = true;
      g.in = c;
      begin(g, 0, 1);
      auto r = run(g, p);
      if (trace)
        trace->phase = 3;
      if (out) {
        fprintf(out,
                "{\"replay\":true,\"failed\":%s,\"message\":%s,\"notes\":%s,"
                "\"choices\":%s}\n",
                r.failed ? "true" : "false", js(r.message).c_str(),
                js(g.notes).c_str(), js(g.rec).c_str());
        fflush(out);
      }
      return 0;
    }

    uint64_t ran = 0, discarded = 0, nontriv = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::vector<std::string>> samples;
    bool failed = false;
    std::string msg;
    std::vector<std::string> notes;
    std::vector<uint64_t> best, original;
    uint64_t fail_index = 0;
    uint64_t i = start;
    for (; i < start + cases; i++) {
      if (!time_left(budget))
        break;
      Gen g;
      g.state = hash(seed, 0x5eed, i, 0);
      begin(g, i, 1);
      auto r = run(g, p);
      end();
      if (r.discarded) {
        discarded++;
        continue;
      }
      ran++;
      uint64_t h = 0;
      for (auto c : g.rec)
        h = hash(h, c);
      if (g.nontrivial) {
        nontriv++;
        if (distinct.insert(h).second && samples.size() < 4 &&
            !g.notes.empty() && (ran % 7 == 3 || ran > 40))
          samples.push_back(g.notes);
      }
      for (auto &l : g.labels)
        labels[l.first] += 1;
      if (r.failed) {
        failed = true;
        msg = r.message;
        notes = g.notes;
        best = original = g.rec;
        fail_index = i;
        break;
      }
    }
    double search_s = now() - t0;
    if (failed && out) { // keep the unshrunk failure in case shrinking dies
      fprintf(out,
              "{\"partial\":true,\"failed\":true,\"message\":%s,\"notes\":%s,"
              "\"index\":%" PRIu64 ",\"choices\":%s}\n",
              js(msg).c_str(), js(notes).c_str(), fail_index,
              js(best).c_str());
      fflush(out);
    }
    std::string msg0 = msg;
    if (failed && best.size() < TRACE_MAX)
      shrink(best, msg, notes, p, shrink_s);
    if (trace)
      trace->phase = 3;
    if (out) {
      std::string lab = "{";
      bool first = true;
      for (auto &l : labels) {
        lab += (first ? "" : ",") + js(l.first) + ":" + std::to_string(l.second);
        first = false;
      }
      lab += "}";
      std::string sm = "[";
      for (size_t k = 0; k < samples.size(); k++)
        sm += (k ? "," : "") + js(samples[k]);
      sm += "]";
      fprintf(out,
              "{\"ran\":%" PRIu64 ",\"discarded\":%" PRIu64
              ",\"nontrivial\":%" PRIu64 ",\"distinct\":%" PRIu64
              ",\"next\":%" PRIu64
              ",\"labels\":%s,\"samples\":%s,\"search_s\":%.2f,\"failed\":%s,"
              "\"message\":%s,\"first_message\":%s,\"notes\":%s,\"index\":%" PRIu64
              ",\"choices\":%s,\"original\":%s}\n",
              ran, discarded, nontriv, (uint64_t)distinct.size(), i,
              lab.c_str(), sm.c_str(), search_s, failed ? "true" : "false",
              js(msg).c_str(), js(msg0).c_str(), js(notes).c_str(), fail_index,
              js(best).c_str(), js(original).c_str());
      fflush(out);
      if (out != stdout)
        fclose(out);
    }
    return 0;
  }
};

} // namespace pbt
