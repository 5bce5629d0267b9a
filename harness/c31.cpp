// C31: profiling records what was executed, its files hold what was recorded,
// settings taken from the environment have their documented effect, and none
// of this changes a result.
#include "pop.hpp"
#include <fstream>
#include <unistd.h>
using namespace np;

namespace {

// ------------------------------------------------------------- a JSON reader
struct J {
  enum K { null, num, string, array, object } k{null};
  double d{0};
  std::string s, raw;
  std::vector<J> a;
  std::vector<std::pair<std::string, J>> o;
  const J *get(const std::string &n) const {
    for (auto &x : o)
      if (x.first == n)
        return &x.second;
    return nullptr;
  }
};
struct Parser {
  const std::string &t;
  std::size_t p{0};
  bool bad{false};
  explicit Parser(const std::string &t) : t(t) {}
  void ws() {
    while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r'))
      p++;
  }
  bool eat(char c) {
    ws();
    if (p < t.size() && t[p] == c) {
      p++;
      return true;
    }
    return false;
  }
  std::string str() {
    std::string r;
    if (!eat('"')) {
      bad = true;
      return r;
    }
    while (p < t.size() && t[p] != '"') {
      unsigned char c = t[p++];
      if (c < 0x20)
        bad = true;
      if (c != '\\') {
        r += (char)c;
        continue;
      }
      if (p >= t.size())
        break;
      const char e = t[p++];
      switch (e) {
      case '"':
      case '\\':
      case '/':
        r += e;
        break;
      case 'n':
        r += '\n';
        break;
      case 't':
        r += '\t';
        break;
      case 'r':
        r += '\r';
        break;
      case 'b':
        r += '\b';
        break;
      case 'f':
        r += '\f';
        break;
      case 'u': {
        unsigned v = 0;
        for (int i = 0; i < 4; i++) {
          if (p >= t.size() || !std::isxdigit((unsigned char)t[p])) {
            bad = true;
            return r;
          }
          v = v * 16 + (unsigned)std::stoi(std::string(1, t[p++]), nullptr, 16);
        }
        if (v > 255)
          bad = true; // not used by one byte names
        r += (char)v;
        break;
      }
      default:
        bad = true;
      }
    }
    if (p >= t.size())
      bad = true;
    p++;
    return r;
  }
  J value() {
    J j;
    ws();
    if (bad || p >= t.size()) {
      bad = true;
      return j;
    }
    if (t[p] == '"') {
      j.k = J::string;
      j.s = str();
    } else if (eat('[')) {
      j.k = J::array;
      if (eat(']'))
        return j;
      do
        j.a.push_back(value());
      while (!bad && eat(','));
      if (!eat(']'))
        bad = true;
    } else if (eat('{')) {
      j.k = J::object;
      if (eat('}'))
        return j;
      do {
        ws();
        auto n = str();
        if (!eat(':'))
          bad = true;
        if (bad)
          return j;
        j.o.emplace_back(n, value());
      } while (!bad && eat(','));
      if (!eat('}'))
        bad = true;
    } else {
      j.k = J::num;
      const std::size_t b = p;
      while (p < t.size() && std::string("+-.eE0123456789").find(t[p]) != std::string::npos)
        p++;
      j.raw = t.substr(b, p - b);
      char *end = nullptr;
      j.d = std::strtod(j.raw.c_str(), &end);
      if (j.raw.empty() || *end)
        bad = true;
    }
    return j;
  }
};

std::string gen_name(Gen &g) {
  const std::string mark = "~";
  switch (g.draw(8)) {
  case 0:
    return mark + "say \"hi\"";
  case 1:
    return mark + "a\\b\\";
  case 2:
    return mark + "tab\there";
  case 3:
    return mark + "new\nline";
  case 4:
    return mark + "[1,{2}]";
  case 5:
    return mark;
  default:
    return mark + std::to_string(g.draw(4));
  }
}

struct Reg {
  std::string k1, k2;
  std::size_t bytes, flops;
  int level;
  bool metrics; // compare bytes and flops
  bool operator==(const Reg &o) const {
    return k1 == o.k1 && k2 == o.k2 && level == o.level &&
           (!metrics || !o.metrics || (bytes == o.bytes && flops == o.flops));
  }
};
std::ostream &operator<<(std::ostream &o, const Reg &r) {
  return o << r.k1 << "|" << r.k2 << "|" << r.level << "|" << r.bytes << "|" << r.flops;
}

void check_json(Gen &g, const std::string &file, int rk, ProfileMap &pm) {
  std::ifstream f(file);
  std::stringstream ss;
  ss << f.rdbuf();
  const std::string text = ss.str();
  if (!g.ck(f.good() || !text.empty(), "no profile file ", file))
    return;
  Parser p(text);
  J j = p.value();
  p.ws();
  if (!g.ck(!p.bad && p.p == text.size(), "profile file is not JSON near ",
            text.substr(p.p > 30 ? p.p - 30 : 0, 60)))
    return;
  const J *r = j.get("rank"), *e = j.get("events"), *q = j.get("regions");
  if (!g.ck(r && e && q && e->k == J::array && q->k == J::array, "profile file lacks a part"))
    return;
  g.ck((int)r->d == rk, "profile file of rank ", r->d);
  if (!g.ck(e->a.size() == pm.events.size(), "file has ", e->a.size(), " events of ",
            pm.events.size()))
    return;
  if (!g.ck(q->a.size() == pm.regions.size(), "file has ", q->a.size(), " regions of ",
            pm.regions.size()))
    return;
  auto close = [](double a, double b) { return std::abs(a - b) <= 1e-5 * (std::abs(b) + 1e-3); };
  std::size_t i = 0;
  for (auto &x : pm.events) {
    auto &a = e->a[i++].a;
    if (!g.ck(a.size() == 3 && a[0].s == std::get<0>(x) && a[1].s == std::get<1>(x) &&
                  close(a[2].d, profile_elapsed(pm.time_start, std::get<2>(x))),
              "event ", i - 1, " in the file is not ", std::get<0>(x), ",", std::get<1>(x)))
      return;
  }
  i = 0;
  for (auto &x : pm.regions) {
    auto &a = q->a[i++].a;
    if (!g.ck(a.size() == 7 && a[0].s == x.key1 && a[1].s == x.key2 &&
                  close(a[2].d, profile_elapsed(pm.time_start, x.time_start)) &&
                  close(a[3].d, profile_elapsed(pm.time_start, x.time_end)) &&
                  a[4].raw == std::to_string(x.level) &&
                  a[5].raw == std::to_string(x.num_bytes) &&
                  a[6].raw == std::to_string(x.num_flops),
              "region ", i - 1, " in the file is not ", x.key1, ",", x.key2))
      return;
  }
}

std::string scratch_file() {
  const char *d = getenv("PBT_SCRATCH");
  return std::string(d ? d : "/tmp") + "/c31_" + std::to_string(getpid());
}

void history(Gen &g) {
  Pop p;
  CartMesh::Opts o;
  o.max_dim2 = 4;
  o.max_dim3 = 2;
  o.max_subdiv = 1;
  p.gen(g, o, ParticleSpec{ParticleProp(Sym<INT>("V"), 1)}, 6, true, 300);
  auto A = p.A;
  auto &pm = target()->profile_map;
  pm.disable();
  pm.reset();
  bool on = false;
  std::vector<Reg> regs;
  std::vector<std::pair<std::string, std::string>> events;
  std::map<std::pair<std::string, std::string>, std::pair<int64_t, double>> entries;
  std::map<INT, INT> v;
  for (auto &q : p.parts)
    v[q.id] = Pop::init_i(q.id, "V", 0);

  auto simple = std::make_shared<CellwisePairListSimple>(target(), p.ncell);
  std::vector<std::pair<INT, INT>> pairs;
  auto list = [&]() { // pairs of the particles that are neighbours in a cell
    pairs.clear();
    std::vector<std::vector<std::pair<INT, INT>>> in(p.ncell);
    for (auto &q : p.parts)
      in[q.cell].push_back({q.layer, q.id});
    auto h = std::make_shared<CellwisePairListHost>(p.ncell);
    for (int c = 0; c < p.ncell; c++)
      for (std::size_t i = 0; i + 1 < in[c].size(); i += 2) {
        h->push_back(c, (int)in[c][i].first, (int)in[c][i + 1].first);
        pairs.push_back({in[c][i].second, in[c][i + 1].second});
      }
    simple->set(h);
  };
  list();
  bool recorded = false, toggled = false;
  auto toggle = [&](bool to) {
    if (to != on)
      toggled = true;
    on = to;
    if (on)
      pm.enable();
    else
      pm.disable();
  };
  auto inc = [&](const std::string &a, const std::string &b, int64_t n, double x) {
    if (!on)
      return;
    entries[{a, b}].first += n;
    entries[{a, b}].second += x;
  };

  const int n = (int)g.size(1, 24);
  for (int i = 0; i < n && !g.failed; i++) {
    switch (g.draw(12)) {
    case 0:
      toggle(g.draw(4) != 0);
      g.note(on ? "enable" : "disable");
      break;
    case 1:
    case 2:
    case 3: { // a loop
      const auto nm = gen_name(g);
      const std::size_t nb = g.pick<std::size_t>({0, 8, 24, 1000}),
                        nf = g.pick<std::size_t>({0, 1, 7});
      const INT add = g.integer(1, 1000);
      const uint64_t salt = g.seed32();
      const int num = 1 + (int)g.draw(2);
      const bool sub = g.boolean();
      auto kern = Kernel::Kernel([=](auto V) { V.at(0) += add; },
                                 Kernel::Metadata(Kernel::NumBytes(nb), Kernel::NumFLOP(nf)));
      ParticleLoopSharedPtr L;
      if (sub)
        L = particle_loop(nm, mask_on(A, salt, num, 2), kern, Access::write(Sym<INT>("V")));
      else
        L = particle_loop(nm, A, kern, Access::write(Sym<INT>("V")));
      const std::string type = sub ? "ParticleLoopSubGroup" : "ParticleLoop";
      const int times = (int)g.integer(1, 2);
      for (int t = 0; t < times; t++) {
        int c0 = 0, c1 = p.ncell;
        const int how = (int)g.draw(3);
        if (how == 1)
          c1 = (c0 = (int)(g.draw(100000) % p.ncell)) + 1;
        else if (how == 2) {
          c0 = (int)(g.draw(100000) % p.ncell);
          c1 = c0 + (int)(g.draw(100000) % (p.ncell - c0 + 1));
        }
        std::size_t count = 0;
        for (auto &q : p.parts)
          if (q.cell >= c0 && q.cell < c1 &&
              (!sub || pbt::hash(salt, (uint64_t)q.id) % 2 < (uint64_t)num)) {
            v[q.id] += add;
            count++;
          }
        const bool split = g.boolean();
        auto go = [&](auto... r) {
          if (split) {
            L->submit(r...);
            if (g.draw(3) == 0)
              toggle(!on);
            L->wait();
          } else
            L->execute(r...);
        };
        if (how == 0)
          go();
        else if (how == 1)
          go(c0);
        else
          go(c0, c1);
        if (on) {
          regs.push_back({type, nm, nb * count, nf * count, 0, true});
          recorded = true;
          if (!split)
            entries[{type, nm}].first += 1;
        }
        g.note("loop ", sub ? "sub group " : "", "cells [", c0, ",", c1, ") particles ",
               count, split ? " submit/wait" : "", on ? " recorded" : "");
      }
      break;
    }
    case 4: { // a pair loop
      const auto nm = gen_name(g);
      std::vector<CellwisePairListAbsolute<ParticleGroup, CellwisePairList>> l;
      l.push_back(CellwisePairListAbsolute<ParticleGroup, CellwisePairList>(A, A, simple));
      const INT add = g.integer(1, 1000);
      auto L = particle_pair_loop(
          nm, l,
          [=](auto VA, auto VB) {
            VA.at(0) += add;
            VB.at(0) += 2 * add;
          },
          Access::A(Access::write(Sym<INT>("V"))), Access::B(Access::write(Sym<INT>("V"))));
      const bool was = on;
      L->submit();
      if (g.draw(3) == 0)
        toggle(!on);
      L->wait();
      for (auto &q : pairs) {
        v[q.first] += add;
        v[q.second] += 2 * add;
      }
      if (was && on) {
        regs.push_back({"ParticlePairLoopCellwisePairList", nm, 0, 0, 0, false});
        recorded = true;
      }
      g.note("pair loop of ", pairs.size(), " pairs", was && on ? " recorded" : "");
      break;
    }
    case 5: { // start_region .. end_region
      const auto a = gen_name(g), b = gen_name(g);
      const int level = (int)g.integer(0, 3);
      auto r = pm.start_region(a, b, level);
      const bool was = on;
      g.ck(r.has_value() == was, "start_region while ", was ? "enabled" : "disabled");
      if (g.draw(3) == 0)
        toggle(!on);
      if (r.has_value()) {
        r->num_bytes = g.draw(100);
        r->num_flops = g.draw(100);
      }
      pm.end_region(r);
      if (was && on) {
        regs.push_back({a, b, r->num_bytes, r->num_flops, level, true});
        recorded = true;
      }
      g.note("region ", was, on);
      break;
    }
    case 6: {
      const auto a = gen_name(g), b = gen_name(g);
      ProfileRegion r(a, b, (int)g.integer(0, 2));
      r.num_bytes = g.draw(100);
      r.end();
      pm.add_region(r);
      if (on) {
        regs.push_back({a, b, r.num_bytes, 0, r.level, true});
        recorded = true;
      }
      g.note("user region");
      break;
    }
    case 7: {
      const auto a = gen_name(g), b = gen_name(g);
      pm.event(a, b);
      if (on)
        events.push_back({a, b});
      g.note("event");
      break;
    }
    case 8: {
      const auto a = gen_name(g), b = gen_name(g);
      const int64_t k = g.integer(-50, 50);
      const double x = (double)g.integer(-50, 50) / 8;
      const bool set = g.boolean();
      if (set) {
        pm.set(a, b, k, x);
        if (on)
          entries[{a, b}] = {k, x};
      } else {
        pm.inc(a, b, k, x);
        inc(a, b, k, x);
      }
      g.note(set ? "set " : "inc ", k, " ", x);
      break;
    }
    case 9:
      if (g.draw(3) == 0) {
        const auto before = profile_timestamp();
        pm.reset();
        g.ck(pm.time_start >= before && pm.time_start <= profile_timestamp(),
             "reset does not set the start time");
        regs.clear();
        events.clear();
        entries.clear();
        g.ck(pm.events.empty() && pm.regions.empty() && pm.profile.empty(),
             "reset leaves ", pm.events.size(), " events, ", pm.regions.size(), " regions and ",
             pm.profile.size(), " entries");
        g.note("reset");
      } else { // operations of the library
        A->cell_move();
        p.refresh(); // the move may change the order in the cells
        list();
        g.note("move");
      }
      break;
    case 10: {
      const int rk = (int)g.pick<int>({0, 3, 17});
      const auto base = scratch_file();
      pm.write_events_json(base, rk);
      check_json(g, base + "." + std::to_string(rk) + ".json", rk, pm);
      std::remove((base + "." + std::to_string(rk) + ".json").c_str());
      g.note("write");
      break;
    }
    default: { // the printed entries
      std::ostringstream s;
      auto *old = std::cout.rdbuf(s.rdbuf());
      const auto fl = std::cout.flags();
      const auto pr = std::cout.precision();
      std::cout.flags(std::ios::fmtflags(std::ios::skipws | std::ios::dec));
      std::cout.precision(6);
      const bool ev = g.boolean();
      if (ev)
        pm.print_events();
      else
        pm.print();
      std::cout.rdbuf(old);
      std::cout.flags(fl);
      std::cout.precision(pr);
      const auto t = s.str();
      if (ev) {
        for (auto &x : events)
          g.ck(t.find(x.first + " " + x.second + " ") != std::string::npos, "event ",
               x.first, ",", x.second, " is not printed");
      } else
        for (auto &x : pm.profile) {
          g.ck(t.find(x.first + ":\n") != std::string::npos, "key ", x.first, " is not printed");
          for (auto &y : x.second) {
            std::ostringstream w;
            w << "  " << y.first << ": " << y.second.value_integral << " | "
              << y.second.value_real << "\n";
            g.ck(t.find(w.str()) != std::string::npos, "entry ", x.first, ",", y.first,
                 " is not printed");
          }
        }
      g.note("print");
    }
    }
    // regions with generated names, in order
    std::vector<Reg> got;
    auto last = pm.time_start;
    for (auto &r : pm.regions) {
      g.ck(r.time_start <= r.time_end, "region ", r.key1, ",", r.key2, " ends before it starts");
      g.ck(r.time_end >= last, "regions are not in the order of their ends");
      last = r.time_end;
      if (r.key2[0] == '~')
        got.push_back({r.key1, r.key2, r.num_bytes, r.num_flops, r.level, true});
    }
    if (!g.ck(got.size() == regs.size(), "there are ", got.size(), " regions instead of ",
              regs.size()))
      break;
    for (std::size_t k = 0; k < got.size(); k++)
      g.ck(got[k] == regs[k], "region ", k, " is ", got[k], " instead of ", regs[k]);
    std::vector<std::pair<std::string, std::string>> ge;
    auto le = pm.time_start;
    for (auto &e : pm.events) {
      g.ck(std::get<2>(e) >= le, "events are not in order");
      le = std::get<2>(e);
      if (std::get<1>(e)[0] == '~')
        ge.push_back({std::get<0>(e), std::get<1>(e)});
    }
    g.ck(ge == events, "there are ", ge.size(), " events instead of ", events.size());
    for (auto &x : entries) {
      auto a = pm.profile.find(x.first.first);
      if (!g.ck(a != pm.profile.end() && a->second.count(x.first.second), "no entry ",
                x.first.first, ",", x.first.second))
        break;
      auto &e = a->second.at(x.first.second);
      const bool timed = x.first.first[0] != '~'; // loops add their time
      g.ck(e.value_integral == x.second.first &&
               (timed ? e.value_real >= 0 : e.value_real == x.second.second),
           "entry ", x.first.first, ",", x.first.second, " is ", e.value_integral, " ",
           e.value_real, " instead of ", x.second.first, " ", x.second.second);
    }
    for (auto &a : pm.profile)
      for (auto &b : a.second)
        if (b.first[0] == '~')
          g.ck(entries.count({a.first, b.first}), "unexpected entry ", a.first, ",", b.first);
  }
  // profiling changed nothing
  for (int c = 0; c < p.ncell && !g.failed; c++) {
    auto id = A->get_cell(Sym<INT>("ID"), c), w = A->get_cell(Sym<INT>("V"), c);
    for (int l = 0; l < id->nrow; l++)
      g.ck(w->at(l, 0) == v[id->at(l, 0)], "particle ", id->at(l, 0), " has V ", w->at(l, 0),
           " instead of ", v[id->at(l, 0)]);
  }
  if (recorded && toggled)
    g.mark();
  pm.disable();
  pm.reset();
  p.A->free();
  p.cm.mesh->free();
}

// ------------------------------------------------------------ the environment
std::optional<std::string> gen_env(Gen &g) {
  switch (g.draw(10)) {
  case 0:
    return "";
  case 1:
    return "abc";
  case 2:
    return "99999999999999999999";
  case 3:
    return "x1";
  case 4:
    return std::nullopt;
  default:
    return std::to_string(g.integer(0, 300));
  }
}
void put(const std::string &k, const std::optional<std::string> &v) {
  if (v)
    setenv(k.c_str(), v->c_str(), 1);
  else
    unsetenv(k.c_str());
}
std::size_t meaning(const std::optional<std::string> &v, std::size_t def) {
  if (!v || v->empty() || !std::isdigit((unsigned char)(*v)[0]) || v->size() > 9)
    return def;
  return (std::size_t)std::stoll(*v);
}

struct Mute {
  std::ostringstream s;
  std::streambuf *o{std::cout.rdbuf(s.rdbuf())};
  ~Mute() { std::cout.rdbuf(o); }
};

void reading(Gen &g) {
  const std::string k = "PBT_C31_VALUE";
  const auto v = gen_env(g);
  put(k, v);
  const std::size_t def = g.draw(100);
  std::size_t got = 0;
  bool threw = false;
  {
    Mute m;
    try {
      got = get_env_size_t(k, def);
    } catch (...) {
      threw = true;
    }
  }
  g.note("value ", v ? *v : "(unset)", " default ", def);
  g.ck(!threw && got == meaning(v, def), "reading \"", v ? *v : "(unset)", "\" with default ",
       def, threw ? " throws" : "", " gives ", got);
  g.ck(get_env_string(k, "dflt") == (v ? *v : "dflt"), "reading the string ", v ? *v : "(unset)");
  unsetenv(k.c_str());
  if (v)
    g.mark();
}

void fresh_target(Gen &g) {
  const auto size = gen_env(g), nbin = gen_env(g), cu = gen_env(g), wg = gen_env(g);
  const bool ordered = g.boolean(), aware = g.boolean();
  const auto prefix = scratch_file() + "auto";
  const bool autop = g.boolean();
  const bool hasorder = g.boolean();
  put("NESO_PARTICLES_LOOP_LOCAL_SIZE", size);
  put("NESO_PARTICLES_LOOP_NBIN", nbin);
  put("NESO_PARTICLES_MAX_COMPUTE_UNITS", cu);
  put("NESO_PARTICLES_DEVICE_LIMIT_WORK_GROUP_SIZE", wg);
  if (hasorder)
    put("NESO_PARTICLES_IN_ORDER_QUEUE", std::string(ordered ? "1" : "0"));
  put("NESO_PARTICLES_DEVICE_AWARE_MPI",
      std::string(aware ? g.pick<std::string>({"1", "ON"}) : g.pick<std::string>({"0", "OFF"})));
  if (autop)
    put("NESO_PARTICLES_AUTO_PROFILE", prefix);
  {
    SYCLTargetSharedPtr t;
    {
      Mute m;
      t = std::make_shared<SYCLTarget>(0, MPI_COMM_WORLD);
    }
    g.note("local size ", size ? *size : "-", " bins ", nbin ? *nbin : "-", " units ",
           cu ? *cu : "-", " group size ", wg ? *wg : "-", " in order ", hasorder && ordered,
           " profile ", autop);
    auto &ps = t->parameters;
    Mute m;
    const auto ls = ps->get<SizeTParameter>("LOOP_LOCAL_SIZE")->value;
    g.ck(ls == meaning(size, 32), "local size ", ls, " for ", size ? *size : "-");
    const auto nb = ps->get<SizeTParameter>("LOOP_NBIN")->value;
    g.ck(nb == meaning(nbin, 4), "bins ", nb, " for ", nbin ? *nbin : "-");
    const auto units = t->device.get_info<sycl::info::device::max_compute_units>();
    g.ck(t->device_limits.get_max_compute_units() == meaning(cu, units), "compute units ",
         t->device_limits.get_max_compute_units(), " for ", cu ? *cu : "-", " of ", units);
    g.ck(t->queue.is_in_order() == (hasorder && ordered), "queue in order ",
         t->queue.is_in_order());
    g.ck(device_aware_mpi_enabled() == aware, "device aware ", aware);
    auto &pm = t->profile_map;
    g.ck(pm.enabled == autop, "profiling ", pm.enabled);
    if (autop) {
      pm.event(gen_name(g), gen_name(g));
      auto r = pm.start_region("a", gen_name(g));
      pm.end_region(r);
    }
    const int rk = t->comm_pair.rank_parent;
    t->free();
    const auto file = prefix + "." + std::to_string(rk) + ".json";
    std::ifstream f(file);
    g.ck(f.good() == autop, autop ? "no file of the automatic profile"
                                  : "a file of an automatic profile not asked for");
    if (autop && f.good())
      check_json(g, file, rk, pm);
    std::remove(file.c_str());
  }
  for (auto k : {"LOOP_LOCAL_SIZE", "LOOP_NBIN", "MAX_COMPUTE_UNITS",
                 "DEVICE_LIMIT_WORK_GROUP_SIZE", "IN_ORDER_QUEUE", "DEVICE_AWARE_MPI",
                 "AUTO_PROFILE"})
    unsetenv((std::string("NESO_PARTICLES_") + k).c_str());
  g.mark();
}

void prop(Gen &g) {
  switch (g.draw(10)) {
  case 0:
    reading(g);
    break;
  case 1:
    if (g.draw(4) == 0)
      fresh_target(g);
    else
      reading(g);
    break;
  default:
    history(g);
  }
}
} // namespace

PBT_MAIN("C31", prop)
