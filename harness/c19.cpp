// C19: output files hold exactly the particles present at each write, and
// reading them back gives every one once with unchanged properties.
#include "pop.hpp"
#include <hdf5.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace np;

namespace {

using Bits = std::vector<uint64_t>;
uint64_t bits(REAL v) {
  uint64_t u;
  std::memcpy(&u, &v, 8);
  return u;
}
uint64_t bits(INT v) { return (uint64_t)v; }

struct Col {
  std::string prop, name; // property and the name of its column
  bool real;
  int comp;
};

// Rows of all ranks.
std::vector<Bits> everyone(const std::vector<Bits> &rows, int width) {
  std::vector<uint64_t> flat;
  for (auto &r : rows)
    flat.insert(flat.end(), r.begin(), r.end());
  int n = (int)flat.size(), N = nranks();
  std::vector<int> cnt(N), off(N + 1, 0);
  MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, MPI_COMM_WORLD);
  for (int i = 0; i < N; i++)
    off[i + 1] = off[i] + cnt[i];
  std::vector<uint64_t> all(off[N] + 1);
  flat.push_back(0);
  MPI_Allgatherv(flat.data(), n, MPI_UINT64_T, all.data(), cnt.data(), off.data(), MPI_UINT64_T, MPI_COMM_WORLD);
  std::vector<Bits> out;
  for (int i = 0; width && i + width <= off[N]; i += width)
    out.emplace_back(all.begin() + i, all.begin() + i + width);
  return out;
}

std::string row_str(const Bits &b, const std::vector<Col> &cols) {
  std::ostringstream o;
  o.precision(17);
  for (size_t i = 0; i < cols.size() && i < b.size(); i++) {
    o << cols[i].name << "=";
    if (cols[i].real) {
      REAL v;
      std::memcpy(&v, &b[i], 8);
      o << v << " ";
    } else
      o << (INT)b[i] << " ";
  }
  return o.str();
}

void same_rows(Gen &g, std::vector<Bits> got, std::vector<Bits> exp, const std::vector<Col> &cols, const std::string &what) {
  std::sort(got.begin(), got.end());
  std::sort(exp.begin(), exp.end());
  if (got == exp)
    return;
  std::vector<Bits> a, b;
  std::set_difference(got.begin(), got.end(), exp.begin(), exp.end(), std::back_inserter(a));
  std::set_difference(exp.begin(), exp.end(), got.begin(), got.end(), std::back_inserter(b));
  g.ck(false, what, ": ", got.size(), " particles, expected ", exp.size(), a.empty() ? "" : "; unexpected ",
       a.empty() ? std::string() : row_str(a[0], cols), b.empty() ? "" : "; missing ", b.empty() ? std::string() : row_str(b[0], cols));
}

herr_t link_name(hid_t, const char *name, const H5L_info_t *, void *d) {
  ((std::set<std::string> *)d)->insert(name);
  return 0;
}
std::set<std::string> links(hid_t loc) {
  std::set<std::string> s;
  H5Literate(loc, H5_INDEX_NAME, H5_ITER_NATIVE, NULL, link_name, &s);
  return s;
}

// The contents of one step as the file has them, without the library.
bool raw_step(Gen &g, hid_t file, INT step, const std::vector<Col> &cols, size_t n, std::vector<Bits> &rows) {
  const std::string gn = "Step#" + std::to_string(step);
  hid_t grp = H5Gopen2(file, gn.c_str(), H5P_DEFAULT);
  if (!g.ck(grp >= 0, "the file has no group ", gn))
    return false;
  auto have = links(grp);
  bool ok = true;
  rows.assign(n, Bits(cols.size(), 0));
  if (n > 0 || !have.empty()) {
    std::set<std::string> want;
    for (auto &c : cols)
      want.insert(c.name);
    std::string hs, ws;
    for (auto &x : have)
      hs += x + " ";
    for (auto &x : want)
      ws += x + " ";
    ok = g.ck(have == want, gn, " has the columns ", hs, "; expected ", ws);
    for (size_t k = 0; ok && k < cols.size(); k++) {
      hid_t d = H5Dopen2(grp, cols[k].name.c_str(), H5P_DEFAULT), sp = H5Dget_space(d), ty = H5Dget_type(d);
      hsize_t dims[4] = {0, 0, 0, 0};
      const int nd = H5Sget_simple_extent_ndims(sp);
      if (nd == 1)
        H5Sget_simple_extent_dims(sp, dims, NULL);
      ok = g.ck(nd == 1 && dims[0] == n, gn, " column ", cols[k].name, " has ", dims[0], " rows, expected ", n);
      const auto cl = H5Tget_class(ty);
      ok = ok && g.ck(cl == (cols[k].real ? H5T_FLOAT : H5T_INTEGER) && H5Tget_size(ty) == 8, gn, " column ", cols[k].name, " has another type");
      if (ok && n) {
        std::vector<uint64_t> v(n);
        ok = g.ck(H5Dread(d, cols[k].real ? H5T_NATIVE_DOUBLE : H5T_NATIVE_LLONG, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) >= 0, "cannot read ", cols[k].name);
        for (size_t i = 0; i < n; i++)
          rows[i][k] = v[i];
      }
      H5Tclose(ty), H5Sclose(sp), H5Dclose(d);
    }
  }
  H5Gclose(grp);
  return ok;
}

struct Written {
  INT step;
  std::vector<Bits> rows; // of all ranks, over the columns
};

const std::string &scratch() {
  static std::string d;
  if (d.empty()) {
    char b[64];
    if (rank() == 0) {
      std::strcpy(b, "/tmp/pbt_c19_XXXXXX");
      if (!mkdtemp(b))
        std::abort();
    }
    MPI_Bcast(b, 64, MPI_CHAR, 0, MPI_COMM_WORLD);
    d = b;
  }
  return d;
}
struct Scratch {
  std::string file = scratch() + "/f.h5part";
  ~Scratch() {
    MPI_Barrier(MPI_COMM_WORLD);
    if (rank() == 0) {
      unlink(file.c_str());
      rmdir(scratch().c_str());

    }
  }

};

void prop(Gen &g) {
  H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
  // Properties.
  const char *names[] = {"V", "Q", "V_1", "x", "weight", "E"};
  ParticleSpec extra{ParticleProp(Sym<INT>("M"), 1)};
  std::vector<std::pair<std::string, int>> rp, ip;
  const int np_ = (int)g.size(0, 5);
  for (int i = 0; i < np_; i++) {
    const int nc = (int)g.integer(1, 4);
    if (g.boolean())
      extra.push(ParticleProp(Sym<REAL>(names[i]), nc)), rp.push_back({names[i], nc});
    else
      extra.push(ParticleProp(Sym<INT>(names[i]), nc)), ip.push_back({names[i], nc});
  }
  Pop p;
  p.gen(g, CartMesh::Opts{}, extra, 20, false, 600);
  auto A = p.A;
  // Some ranks may hold nothing at all.
  const int hold = (int)g.draw(4); // 0,1: all; 2: a drawn rank only; 3: none but some
  const int who = (int)g.draw(nranks());
  auto empty_here = [&]() { return (hold == 2 && rank() != who) || (hold == 3 && rank() == who); };
  auto drop = [&](auto pred) {
    std::vector<INT> cs, ls;
    for (auto &q : p.parts)
      if (pred(q))
        cs.push_back(q.cell), ls.push_back(q.layer);
    if (!cs.empty())
      A->remove_particles((int)cs.size(), cs, ls);
    p.refresh();
  };
  if (empty_here())
    drop([](auto &) { return true; });

  // Columns: positions first, then the requested properties.
  rp.push_back({"P", p.cm.ndim});
  ip.push_back({"ID", 1}), ip.push_back({"M", 1}), ip.push_back({"CELL_ID", 1});
  std::vector<Col> cols;
  static const char *xyz[] = {"x", "y", "z"};
  for (int k = 0; k < p.cm.ndim; k++)
    cols.push_back({"P", xyz[k], true, k});
  std::vector<Sym<REAL>> sr;
  std::vector<Sym<INT>> si;
  std::vector<std::pair<std::string, int>> wr, wi;
  for (auto &q : rp)
    if (g.boolean())
      sr.push_back(Sym<REAL>(q.first)), wr.push_back(q);
  for (auto &q : ip)
    if (g.boolean())
      si.push_back(Sym<INT>(q.first)), wi.push_back(q);
  for (auto &q : wr)
    for (int k = 0; k < q.second; k++)
      cols.push_back({q.first, q.first + "_" + std::to_string(k), true, k});
  for (auto &q : wi)
    for (int k = 0; k < q.second; k++)
      cols.push_back({q.first, q.first + "_" + std::to_string(k), false, k});
  {
    std::string s;
    for (auto &c : cols)
      s += c.name + " ";
    g.note("columns ", s);
  }

  // What is written: the group or a sub group of it.
  const int sel = (int)g.draw(6);
  const INT mod = g.integer(1, 4), rem = g.integer(0, 3);
  ParticleSubGroupSharedPtr S;
  if (sel == 2)
    S = particle_sub_group(A);
  else if (sel == 3)
    S = particle_sub_group(A, [=](auto ID) { return ID.at(0) % mod == rem; }, Access::read(Sym<INT>("ID")));
  else if (sel >= 4)
    S = particle_sub_group(A, [=](auto M) { return (M.at(0) & 3) <= rem; }, Access::read(Sym<INT>("M")));
  auto chosen = [&](const Row &r) {
    if (sel < 3)
      return true;
    if (sel == 3)
      return r.i.at("ID")[0] % mod == rem;
    return (r.i.at("M")[0] & 3) <= rem;
  };
  if (S)
    g.label("sub group");

  Scratch sc;
  std::shared_ptr<H5Part> h;
  const int ctor = (int)g.draw(2);
  std::vector<Sym<REAL>> r0;
  auto make = [&](auto what) {
    // as lists, or one by one
    if (ctor == 0 || sr.size() != 1 || si.size() != 1)
      h = std::make_shared<H5Part>(sc.file, what, sr, si);
    else
      h = std::make_shared<H5Part>(sc.file, what, sr[0], si[0]);
  };
  if (S)
    make(S);
  else
    make(A);

  std::vector<Written> written;
  INT next = 0;
  const int nsteps = (int)g.size(0, 4);
  for (int s = 0; s < nsteps; s++) {
    if (s) {
      // The population changes between the steps.
      const uint64_t salt = g.seed32();
      if (g.chance(1, 2)) {
        const int m = (int)g.size(0, 6);
        std::vector<int> occ(p.ncell);
        for (int c = 0; c < p.ncell; c++)
          occ[c] = empty_here() ? 0 : (int)(pbt::hash(salt, 5, c, rank()) % (uint64_t)(m + 1));
        p.add(occ, salt, 200);
      }
      if (g.chance(1, 2)) {
        const uint64_t k = g.draw(5);
        drop([&](auto &q) { return k == 4 || pbt::hash(salt, 6, q.id) % 5 < k; });
      }
      if (g.chance(1, 2)) {
        const INT add = (INT)g.integer(1, 1000);
        particle_loop(A, [=](auto M) { M.at(0) = M.at(0) * 3 + add; }, Access::write(Sym<INT>("M")))->execute();
      }
    }
    auto rows = snapshot(g, A);
    std::vector<Bits> mine;
    for (auto &r : rows)
      if (chosen(r)) {
        Bits b;
        for (auto &c : cols)
          b.push_back(c.real ? bits(r.r.at(c.prop)[c.comp]) : bits(r.i.at(c.prop)[c.comp]));
        mine.push_back(b);
      }
    INT ex = -1;
    if (g.chance(1, 3)) {
      ex = next + g.integer(0, 5);
      next = ex;
    }
    g.note("write step ", next, " particles here ", mine.size());
    if (ex >= 0)
      h->write(ex);
    else
      h->write();
    Written w{next, everyone(mine, (int)cols.size())};
    if (w.rows.empty())
      g.label("step without particles");
    int none = mine.empty() ? 1 : 0, any = 0;
    MPI_Allreduce(&none, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    if (any && !w.rows.empty())
      g.label("rank without particles");
    g.mark(w.rows.size() > 1);
    written.push_back(std::move(w));
    next++;
    if (g.chance(1, 3)) {
      h->close();
      g.label("closed between writes");
    }
    // writing alters nothing
    auto after = snapshot(g, A);
    bool eq = after.size() == rows.size();
    for (size_t i = 0; eq && i < rows.size(); i++) {
      eq = rows[i].cell == after[i].cell && rows[i].i == after[i].i;
      for (auto &v : rows[i].r)
        eq = eq && same(v.second, after[i].r.at(v.first));
    }
    g.ck(eq, "step ", next - 1, ": writing altered the group");
  }
  h->close();
  if (g.boolean())
    h->close();
  g.sync();

  // The file itself.
  if (rank() == 0) {
    hid_t f = H5Fopen(sc.file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (g.ck(f >= 0, "the file cannot be opened")) {
      auto l = links(f);
      g.ck(l.size() == written.size(), "the file has ", l.size(), " steps, ", written.size(), " were written");
      for (auto &w : written) {
        std::vector<Bits> rows;
        if (raw_step(g, f, w.step, cols, w.rows.size(), rows))
          same_rows(g, rows, w.rows, cols, "file, step " + std::to_string(w.step));
      }
      H5Fclose(f);
    }
  }
  g.sync();

  // Reading back, in any order.
  std::shared_ptr<H5Part> rd;
  const bool same_object = g.chance(1, 3);
  if (same_object)
    rd = h;
  else
    rd = std::make_shared<H5Part>(sc.file, target());
  for (int k = 0, n = written.empty() ? 0 : (int)g.size(1, 4); k < n; k++) {
    auto &w = written[g.draw(written.size())];
    const bool use_xyz = g.boolean();
    ParticleSpec spec;
    std::vector<int> idx;   // of the columns read
    std::vector<Col> rcols; // under the name given by the reader
    auto add = [&](const std::string &as, const std::string &prop, bool real, int ncomp, bool xyzcols) {
      for (int q = 0; q < ncomp; q++)
        for (size_t c = 0; c < cols.size(); c++)
          if (cols[c].prop == prop && cols[c].real == real && cols[c].comp == q && ((int)c < p.cm.ndim) == xyzcols)
            idx.push_back((int)c), rcols.push_back({as, cols[c].name, real, q});
    };
    bool posdone = false;
    if (use_xyz && g.chance(2, 3)) {
      const int nd = (int)g.integer(1, p.cm.ndim);
      const std::string as = g.boolean() ? "P" : "POS";
      spec.push(ParticleProp(Sym<REAL>(as), nd, true));
      add(as, "P", true, nd, true);
      posdone = as == "P";
    }
    for (auto &q : wr)
      if (g.boolean() && !(q.first == "P" && posdone)) {
        const int nc = (int)g.integer(1, q.second);
        // without use_xyz a position property is read under its own name
        spec.push(ParticleProp(Sym<REAL>(q.first), nc, q.first == "P" && !use_xyz && g.boolean()));
        add(q.first, q.first, true, nc, false);
      }
    for (auto &q : wi)
      if (g.boolean()) {
        const int nc = (int)g.integer(1, q.second);
        spec.push(ParticleProp(Sym<INT>(q.first), nc));
        add(q.first, q.first, false, nc, false);
      }
    auto ps = rd->read(spec, w.step, use_xyz);
    const INT N = (INT)w.rows.size(), R = nranks();
    g.ck(ps->npart >= N / R && ps->npart <= (N + R - 1) / R, "read of step ", w.step, ": ", ps->npart, " of ", N, " particles on this rank");
    long cnt = ps->npart, tot = 0;
    MPI_Allreduce(&cnt, &tot, 1, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
    g.ck(tot == N, "read of step ", w.step, ": ", tot, " particles, expected ", N);
    std::vector<Bits> mine;
    for (int i = 0; i < ps->npart; i++) {
      Bits b;
      for (auto &c : rcols)
        b.push_back(c.real ? bits(ps->at(Sym<REAL>(c.prop), i, c.comp)) : bits(ps->at(Sym<INT>(c.prop), i, c.comp)));
      mine.push_back(b);
    }
    g.note("read step ", w.step, " xyz ", use_xyz, " columns ", rcols.size());
    if (!rcols.empty()) {
      auto got = everyone(mine, (int)rcols.size());
      std::vector<Bits> exp;
      for (auto &r : w.rows) {
        Bits b;
        for (int c : idx)
          b.push_back(r[c]);
        exp.push_back(b);
      }
      same_rows(g, got, exp, rcols, "read of step " + std::to_string(w.step));
      g.label("read back");
    }
    if (g.chance(1, 3))
      rd->close();
  }
  rd->close();
  g.sync();
}

void wrapped(Gen &g) {
  if (rank() == 0) {
    // the directory is removed at the end of each case
    if (access(scratch().c_str(), F_OK) != 0 && mkdir(scratch().c_str(), 0700) != 0)
      std::abort();
  } else
    scratch();
  MPI_Barrier(MPI_COMM_WORLD);
  prop(g);
}

} // namespace

PBT_MAIN("C19", wrapped)
