// C28: visualisation output describes exactly the cells and values it was
// given: files read back hold every cell of every rank once, with its shape,
// vertices and values.
#include "plexmesh.hpp"
#include "traj.hpp"
#include <hdf5.h>
#include <neso_particles/external_interfaces/vtk/vtk.hpp>
#include <sys/stat.h>
#include <unistd.h>
using namespace np;
using VTK::UnstructuredCell;

namespace {

uint64_t bits(double v) {
  uint64_t u;
  std::memcpy(&u, &v, 8);
  return u;
}

const std::string &scratch() {
  static std::string d;
  if (d.empty()) {
    char b[64];
    if (rank() == 0) {
      std::strcpy(b, "/tmp/pbt_c28_XXXXXX");
      if (!mkdtemp(b))
        std::abort();
    }
    MPI_Bcast(b, 64, MPI_CHAR, 0, MPI_COMM_WORLD);
    d = b;
  }
  mkdir(d.c_str(), 0700);
  return d;
}
struct Scratch {
  std::string file;
  Scratch(std::string n) : file(scratch() + "/" + n) { MPI_Barrier(MPI_COMM_WORLD); }
  ~Scratch() {
    MPI_Barrier(MPI_COMM_WORLD);
    if (rank() == 0) {
      unlink(file.c_str());
      rmdir(scratch().c_str());
    }
  }
};

struct Cell {
  int type, n;
  std::vector<double> x;
  std::map<std::string, double> cd;
  std::map<std::string, std::vector<double>> pd;
};
struct Grid {
  std::vector<std::vector<Cell>> ranks; // pieces
};

template <typename T> std::vector<T> read(Gen &g, hid_t root, const std::string &name, hid_t ty, int nd, std::vector<hsize_t> &dims) {
  std::vector<T> v;
  hid_t d = H5Dopen2(root, name.c_str(), H5P_DEFAULT);
  if (!g.ck(d >= 0, "no dataset ", name))
    return v;
  hid_t sp = H5Dget_space(d);
  dims.assign(4, 0);
  if (g.ck(H5Sget_simple_extent_ndims(sp) == nd, "rank of the dataset ", name)) {
    H5Sget_simple_extent_dims(sp, dims.data(), NULL);
    size_t n = 1;
    for (int i = 0; i < nd; i++)
      n *= dims[i];
    v.resize(n);
    if (n)
      g.ck(H5Dread(d, ty, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) >= 0, "cannot read ", name);
  }
  H5Sclose(sp), H5Dclose(d);
  return v;
}
herr_t link_name(hid_t, const char *name, const H5L_info_t *, void *d) {
  ((std::set<std::string> *)d)->insert(name);
  return 0;
}

// Reads a file as the format describes it: one piece for each rank.
bool read_grid(Gen &g, const std::string &file, int pieces, Grid &out) {
  hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  if (!g.ck(f >= 0, "cannot open the file"))
    return false;
  hid_t root = H5Gopen2(f, "VTKHDF", H5P_DEFAULT);
  if (g.ck(root >= 0, "the file has no group VTKHDF")) {
    hid_t a = H5Aopen(root, "Version", H5P_DEFAULT);
    int ver[2] = {-1, -1};
    if (g.ck(a >= 0, "no attribute Version")) {
      hid_t sp = H5Aget_space(a);
      if (g.ck(H5Sget_simple_extent_npoints(sp) == 2, "size of Version"))
        H5Aread(a, H5T_NATIVE_INT, ver);
      g.ck(ver[0] == 2, "Version ", ver[0], ".", ver[1]);
      H5Sclose(sp), H5Aclose(a);
    }
    a = H5Aopen(root, "Type", H5P_DEFAULT);
    if (g.ck(a >= 0, "no attribute Type")) {
      hid_t ty = H5Aget_type(a);
      std::vector<char> b(H5Tget_size(ty) + 1, 0);
      H5Aread(a, ty, b.data());
      g.ck(std::string(b.data()) == "UnstructuredGrid", "Type is ", std::string(b.data()));
      H5Tclose(ty), H5Aclose(a);
    }
    std::vector<hsize_t> dm;
    auto np = read<long long>(g, root, "NumberOfPoints", H5T_NATIVE_LLONG, 1, dm);
    auto nc = read<long long>(g, root, "NumberOfCells", H5T_NATIVE_LLONG, 1, dm);
    auto ni = read<long long>(g, root, "NumberOfConnectivityIds", H5T_NATIVE_LLONG, 1, dm);
    auto of = read<long long>(g, root, "Offsets", H5T_NATIVE_LLONG, 1, dm);
    auto co = read<long long>(g, root, "Connectivity", H5T_NATIVE_LLONG, 1, dm);
    auto ty = read<int>(g, root, "Types", H5T_NATIVE_INT, 1, dm);
    auto x = read<double>(g, root, "Points", H5T_NATIVE_DOUBLE, 2, dm);
    g.ck(dm[1] == 3, "points of ", dm[1], " components");
    auto sum = [](auto &v) {
      long long s = 0;
      for (auto q : v)
        s += q;
      return s;
    };
    const long long P = sum(np), C = sum(nc), I = sum(ni);
    g.ck((int)np.size() == pieces && (int)nc.size() == pieces && (int)ni.size() == pieces, np.size(), " pieces, expected ", pieces);
    g.ck((long long)x.size() == 3 * P, x.size(), " coordinates for ", P, " points");
    g.ck((long long)ty.size() == C, ty.size(), " types for ", C, " cells");
    g.ck((long long)co.size() == I, co.size(), " connectivity ids, expected ", I);
    g.ck((long long)of.size() == C + pieces, of.size(), " offsets for ", C, " cells in ", pieces, " pieces");
    std::map<std::string, std::vector<double>> pd, cd;
    for (int k = 0; k < 2; k++) {
      const char *gn = k ? "CellData" : "PointData";
      hid_t grp = H5Gopen2(root, gn, H5P_DEFAULT);
      if (!g.ck(grp >= 0, "no group ", gn))
        continue;
      std::set<std::string> names;
      H5Literate(grp, H5_INDEX_NAME, H5_ITER_NATIVE, NULL, link_name, &names);
      for (auto &n : names) {
        auto &v = (k ? cd : pd)[n];
        v = read<double>(g, grp, n, H5T_NATIVE_DOUBLE, 1, dm);
        g.ck((long long)v.size() == (k ? C : P), gn, " ", n, " has ", v.size(), " values");
      }
      H5Gclose(grp);
    }
    if (!g.failed) {
      long long p0 = 0, c0 = 0, i0 = 0;
      out.ranks.assign(pieces, {});
      for (int r = 0; r < pieces && !g.failed; r++) {
        const long long *o = of.data() + c0 + r;
        g.ck(o[0] == 0 && o[nc[r]] == ni[r], "offsets of piece ", r, " run from ", o[0], " to ", o[nc[r]], " of ", ni[r], " ids");
        for (long long c = 0; c < nc[r] && !g.failed; c++) {
          Cell q;
          q.type = ty[c0 + c];
          q.n = (int)(o[c + 1] - o[c]);
          for (auto &v : cd)
            q.cd[v.first] = v.second[c0 + c];
          if (!g.ck(o[c] >= 0 && q.n >= 0 && o[c + 1] <= ni[r], "offsets of piece ", r, " at cell ", c))
            break;
          for (auto &v : pd)
            q.pd[v.first] = {};
          for (long long i = o[c]; i < o[c + 1]; i++) {
            const long long id = co[i0 + i];
            if (!g.ck(id >= 0 && id < np[r], "piece ", r, " cell ", c, " uses point ", id, " of ", np[r]))
              break;
            for (int d = 0; d < 3; d++)
              q.x.push_back(x[3 * (p0 + id) + d]);
            for (auto &v : pd)
              q.pd[v.first].push_back(v.second[p0 + id]);
          }
          out.ranks[r].push_back(q);
        }
        p0 += np[r], c0 += nc[r], i0 += ni[r];
      }
    }
    H5Gclose(root);
  }
  H5Fclose(f);
  return !g.failed;
}

// All ranks' cells on every rank of comm.
Grid everyone(const std::vector<UnstructuredCell> &in, const std::set<std::string> &pk, const std::set<std::string> &ck, MPI_Comm comm) {
  std::vector<double> f;
  for (auto &c : in) {
    f.push_back(c.cell_type), f.push_back(c.num_points);
    f.insert(f.end(), c.points.begin(), c.points.end());
    for (auto &k : ck)
      f.push_back(c.cell_data.at(k));
    for (auto &k : pk)
      f.insert(f.end(), c.point_data.at(k).begin(), c.point_data.at(k).end());
  }
  int n = (int)f.size(), N;
  MPI_Comm_size(comm, &N);
  std::vector<int> cs(N), ds(N + 1, 0);
  MPI_Allgather(&n, 1, MPI_INT, cs.data(), 1, MPI_INT, comm);
  for (int r = 0; r < N; r++)
    ds[r + 1] = ds[r] + cs[r];
  std::vector<double> all(ds[N] + 1);
  f.push_back(0);
  MPI_Allgatherv(f.data(), n, MPI_DOUBLE, all.data(), cs.data(), ds.data(), MPI_DOUBLE, comm);
  Grid o;
  o.ranks.resize(N);
  for (int r = 0; r < N; r++)
    for (int i = ds[r]; i < ds[r + 1];) {
      Cell c;
      c.type = (int)all[i++], c.n = (int)all[i++];
      c.x.assign(all.begin() + i, all.begin() + i + 3 * c.n), i += 3 * c.n;
      for (auto &k : ck)
        c.cd[k] = all[i++];
      for (auto &k : pk)
        c.pd[k].assign(all.begin() + i, all.begin() + i + c.n), i += c.n;
      o.ranks[r].push_back(c);
    }
  return o;
}

std::vector<uint64_t> key(const Cell &c) {
  std::vector<uint64_t> k{(uint64_t)c.type, (uint64_t)c.n};
  for (double x : c.x)
    k.push_back(bits(x));
  for (auto &v : c.cd)
    k.push_back(bits(v.second));
  for (auto &v : c.pd)
    for (double x : v.second)
      k.push_back(bits(x));
  return k;
}

std::string show(const Cell &c) {
  std::ostringstream o;
  o.precision(17);
  for (auto &v : c.cd)
    o << v.first << "=" << v.second << " ";
  for (auto &v : c.pd) {
    o << v.first << "=";
    for (double x : v.second)
      o << x << " ";
  }
  for (double x : c.x)
    o << x << " ";
  return o.str();
}

// The file holds the cells of every rank (in any order) once.
void same(Gen &g, const Grid &got, const Grid &want, const std::set<std::string> &pk, const std::set<std::string> &ck, const std::string &what) {
  for (size_t r = 0; r < want.ranks.size() && !g.failed; r++) {
    auto &a = got.ranks[r], &b = want.ranks[r];
    if (!g.ck(a.size() == b.size(), what, ": piece ", r, " has ", a.size(), " cells, expected ", b.size()))
      return;
    std::multiset<std::vector<uint64_t>> A, B;
    for (auto &c : a) {
      std::set<std::string> p, q;
      for (auto &v : c.pd)
        p.insert(v.first);
      for (auto &v : c.cd)
        q.insert(v.first);
      if (!g.ck(p == pk && q == ck, what, ": piece ", r, " has other values than it was given: ", p.size(), " point and ", q.size(), " cell values"))
        return;
      A.insert(key(c));
    }
    for (auto &c : b)
      B.insert(key(c));
    for (auto &c : b)
      if (!A.count(key(c))) {
        g.ck(false, what, ": piece ", r, " lacks the cell of type ", c.type, " or has other values: ", show(c), "; the file has ", [&]() {
          std::string t;
          for (size_t i = 0; i < a.size() && i < 6; i++)
            t += "[" + show(a[i]) + "] ";
          return t;
        }());
        return;
      }
    g.ck(A == B, what, ": piece ", r, " has a cell twice");
  }
}

int points_of(int t) {
  switch (t) {
  case VTK::point: return 1;
  case VTK::line: return 2;
  case VTK::triangle: return 3;
  case VTK::quadrilateral:
  case VTK::tetrahedron: return 4;
  case VTK::pyramid: return 5;
  case VTK::wedge: return 6;
  default: return 8;
  }
}

double value(uint64_t h) {
  switch (h % 6) {
  case 0: return (double)(int)(h >> 40) * 0.25;
  case 1: return h & 64 ? -0.0 : 0.0;
  case 2: return h & 64 ? INFINITY : -1e308;
  default: return ((double)(h >> 11) * 0x1p-53 - 0.5) * std::pow(10.0, (double)((h >> 4) % 40) - 20.0);
  }
}

void files(Gen &g) {
  const uint64_t salt = g.seed32();
  const int maxn = (int)g.size(0, 12), hold = (int)g.draw(4), who = (int)g.draw(nranks());
  const std::vector<std::string> names{"u", "value", "a b", "U", "density_1", "x", "Points"};
  const int npd = (int)g.draw(4), ncd = (int)g.draw(4);
  std::set<std::string> pk, ck;
  for (int i = 0; i < npd; i++)
    pk.insert(names[g.draw(names.size())]);
  for (int i = 0; i < ncd; i++)
    ck.insert(names[g.draw(names.size())]);
  const bool every = hold == 0 && maxn > 0; // each rank has a cell
  const bool pass = !every || g.boolean();
  static const int types[] = {VTK::point, VTK::line, VTK::triangle, VTK::quadrilateral, VTK::tetrahedron, VTK::pyramid, VTK::wedge, VTK::hex};
  const int one = (int)g.draw(9);
  const int files = 1 + (int)g.draw(2);
  const int split = nranks() > 1 && g.chance(1, 4) ? 1 + (int)g.draw(nranks() - 1) : 0; // 0: all ranks
  const bool interleave = files == 2 && g.boolean();
  const bool again = files == 2 && !interleave && g.boolean(); // the same file is written again
  g.note("files=", files, " maxn=", maxn, " hold=", hold, " point values=", npd, " cell values=", ncd, " split=", split, " interleave=", interleave, " again=", again);
  MPI_Comm comm = MPI_COMM_WORLD;
  if (split)
    MPI_Comm_split(MPI_COMM_WORLD, rank() < split ? 0 : MPI_UNDEFINED, rank(), &comm);
  int total = 0;
  {
    Scratch s1("a.vtkhdf"), s2("b.vtkhdf");
    std::vector<std::vector<UnstructuredCell>> data(files);
    std::vector<Grid> want(files);
    std::vector<std::unique_ptr<VTK::VTKHDF>> v;
    auto fn = [&](int i) { return i && !again ? s2.file : s1.file; };
    for (int i = 0; i < files; i++) {
      int n = 0;
      if (maxn)
        n = every ? 1 + (int)(pbt::hash(salt, i, rank(), 1) % maxn) : (int)(pbt::hash(salt, i, rank(), 1) % (maxn + 1));
      if ((hold == 2 && rank() != who) || (hold == 3 && rank() == who))
        n = 0;
      for (int k = 0; k < n; k++) {
        const uint64_t h = pbt::hash(salt, i * 1000 + rank(), k, 2);
        UnstructuredCell c;
        c.cell_type = (VTK::CellType)types[one < 8 ? one : h % 8];
        c.num_points = points_of(c.cell_type);
        for (int j = 0; j < 3 * c.num_points; j++)
          c.points.push_back(value(pbt::hash(h, j, 3)));
        int q = 0;
        for (auto &x : ck)
          c.cell_data[x] = value(pbt::hash(h, q++, 4));
        for (auto &x : pk)
          for (int j = 0; j < c.num_points; j++)
            c.point_data[x].push_back(value(pbt::hash(h, q++, 5)));
        data[i].push_back(c);
      }
    }
    auto open = [&](int i) { v.push_back(std::make_unique<VTK::VTKHDF>(fn(i), comm)); };
    auto write = [&](int i) {
      if (pass)
        v[i]->write(data[i], pk, ck);
      else
        v[i]->write(data[i]);
    };
    auto check = [&](int i) {
      if (comm != MPI_COMM_NULL) {
        want[i] = everyone(data[i], pk, ck, comm);
        MPI_Barrier(comm);
        Grid got;
        if (rank() == 0 && read_grid(g, fn(i), (int)want[i].ranks.size(), got))
          same(g, got, want[i], pk, ck, "file");
        for (auto &r : want[i].ranks)
          total += (int)r.size();
      }
      g.sync();
    };
    if (interleave) {
      open(0), open(1), write(1), write(0), v[0]->close(), v[1]->close();
      check(0), check(1);
    } else
      for (int i = 0; i < files; i++) {
        open(i), write(i), v[i]->close();
        check(i);
      }
  }
  if (split && comm != MPI_COMM_NULL)
    MPI_Comm_free(&comm);
  if (total >= 2)
    g.mark();
}

// Vertices of consecutive corners differ in one direction.
bool ring(const std::vector<std::array<int, 3>> &q) {
  for (size_t i = 0; i < q.size(); i++) {
    auto &a = q[i], &b = q[(i + 1) % q.size()];
    int diff = 0;
    for (int d = 0; d < 3; d++)
      diff += std::abs(a[d] - b[d]);
    if (diff != 1)
      return false;
  }
  return true;
}

// Lattice points of a cell of the mesh; false if a coordinate is off lattice.
bool lattice(Gen &g, const CartMesh &m, const std::vector<double> &x, std::vector<std::array<int, 3>> &out, const std::string &what) {
  out.clear();
  for (size_t i = 0; i + 3 <= x.size(); i += 3) {
    std::array<int, 3> q{0, 0, 0};
    for (int d = 0; d < 3; d++) {
      const double r = std::round(x[i + d] / m.h);
      const int top = d < m.ndim ? m.n[d] : 0;
      if (!g.ck(std::fabs(x[i + d] - r * m.h) <= 1e-12 * (m.h + std::fabs(x[i + d])) && r >= 0 && r <= top, what, " has a vertex at ", x[i + d], " in dimension ", d))
        return false;
      q[d] = (int)r;
    }
    out.push_back(q);
  }
  return true;
}

void cartesian(Gen &g) {
  CartMesh m;
  CartMesh::Opts o;
  o.dyadic = false;
  o.max_dim2 = 6;
  m.gen(g, o);
  const int nd = m.ndim;
  g.note("cartesian ", m.str());
  // all cells
  {
    Scratch s("c.vtkhdf");
    auto data = m.mesh->get_vtk_cell_data();
    g.ck((int)data.size() == m.ncell, "cell data of ", data.size(), " cells");
    for (int c = 0; c < (int)data.size() && !g.failed; c++) {
      int w[3] = {1, 1, 1}, lo[3] = {0, 0, 0}, r = c, q[3] = {0, 0, 0};
      for (int d = 0; d < nd; d++) {
        lo[d] = m.boxes[6 * rank() + d];
        w[d] = m.boxes[6 * rank() + 3 + d] - lo[d];
        q[d] = lo[d] + r % w[d];
        r /= w[d];
      }
      std::vector<std::array<int, 3>> p;
      if (!g.ck((int)data[c].points.size() == 3 * data[c].num_points && data[c].num_points == (1 << nd) && data[c].cell_type == (nd == 2 ? VTK::quadrilateral : VTK::hex), "shape of cell ", c) ||
          !lattice(g, m, data[c].points, p, "cell " + std::to_string(c)))
        break;
      for (auto &x : p)
        for (int d = 0; d < nd; d++)
          g.ck(x[d] == q[d] || x[d] == q[d] + 1, "cell ", c, " has a vertex with lattice index ", x[d], " in dimension ", d, ", the cell is at ", q[d]);
      g.ck(std::set<std::array<int, 3>>(p.begin(), p.end()).size() == p.size(), "cell ", c, " has a vertex twice");
      const std::vector<std::array<int, 3>> A(p.begin(), p.begin() + 4), B(p.begin() + 4, p.end());
      g.ck(ring(A), "the first vertices of cell ", c, " are not in order around it");
      if (nd == 3) {
        g.ck(ring(B), "the last vertices of cell ", c, " are not in order around it");
        for (int i = 0; i < 4; i++)
          g.ck(A[i][0] == B[i][0] && A[i][1] == B[i][1] && B[i][2] == A[i][2] + 1, "cell ", c, " vertex ", i + 4, " is not above vertex ", i);
      }
    }
    g.sync();
    VTK::VTKHDF v(s.file, MPI_COMM_WORLD);
    v.write(data);
    v.close();
    auto want = everyone(data, {}, {}, MPI_COMM_WORLD);
    Grid got;
    if (rank() == 0 && read_grid(g, s.file, nranks(), got))
      same(g, got, want, {}, {}, "cells");
    g.sync();
  }
  // face cells
  auto faces = m.mesh->get_vtk_face_cell_data();
  int total = 0;
  for (int f = 0; f < 2 * nd; f++)
    total += face_cell_count(m, f);
  std::vector<int> owned(total, 0);
  for (auto &x : faces) {
    if (!g.ck(x.first >= 0 && x.first < total, "face cell ", x.first, " does not exist"))
      break;
    owned[x.first]++;
  }
  auto corners = [&](INT id, const UnstructuredCell &c) {
    int f = 0, q[3] = {0, 0, 0}, full[3] = {0, 0, 0};
    face_cell(m, id, &f, q);
    int j = 0;
    for (int d = 0; d < nd; d++)
      full[d] = d == face_dim(f) ? (face_upper(f) ? m.n[d] : 0) : q[j++];
    std::vector<std::array<int, 3>> p;
    const std::string what = "face cell " + std::to_string(id);
    if (!g.ck((int)c.points.size() == 3 * c.num_points && c.num_points == (1 << (nd - 1)) && c.cell_type == (nd == 2 ? VTK::line : VTK::quadrilateral), "shape of ", what) ||
        !lattice(g, m, c.points, p, what))
      return;
    for (auto &x : p)
      for (int d = 0; d < nd; d++)
        g.ck(x[d] == full[d] || (d != face_dim(f) && x[d] == full[d] + 1), what, " of face ", f, " has a vertex with lattice index ", x[d], " in dimension ", d, ", it is at ", full[d]);
    g.ck(std::set<std::array<int, 3>>(p.begin(), p.end()).size() == p.size(), what, " has a vertex twice");
    if (nd == 3)
      g.ck(ring(p), "the vertices of ", what, " are not in order around it");
  };
  for (auto &x : faces)
    corners(x.first, x.second);
  if (total <= 200)
    for (INT id = 0; id < total; id++) // any rank may ask for any face cell
      corners(id, m.mesh->get_vtk_face_cell_data(id));
  g.sync();
  MPI_Allreduce(MPI_IN_PLACE, owned.data(), total, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  for (int i = 0; i < total; i++)
    g.ck(owned[i] == 1, "face cell ", i, " is owned by ", owned[i], " ranks");
  // a surface function
  const uint64_t salt = g.seed32();
  const int keep = (int)g.draw(4), who = (int)g.draw(nranks());
  std::vector<INT> cells;
  for (auto &x : faces)
    if (keep == 0 || (keep == 1 && pbt::hash(salt, x.first, 6) % 2) || (keep == 2 && rank() == who) || (keep == 3 && rank() != who))
      cells.push_back(x.first);
  if (g.boolean())
    std::reverse(cells.begin(), cells.end());
  {
    Scratch s("u.vtkhdf");
    CartesianHMeshFunction F(m.mesh, target(), nd - 1, cells, "DG", 0, 1);
    std::vector<REAL> u;
    const bool fill = g.chance(1, 4);
    const double c = value(g.seed32());
    for (INT id : cells)
      u.push_back(fill ? c : value(pbt::hash(salt, id, 7)));
    if (fill)
      F.fill(c);
    else
      F.set_dofs(u);
    F.write_vtkhdf(s.file);
    std::vector<UnstructuredCell> data;
    for (size_t i = 0; i < cells.size(); i++) {
      data.push_back(faces[cells[i]]);
      data.back().cell_data["u"] = u[i];
    }
    auto want = everyone(data, {}, {"u"}, MPI_COMM_WORLD);
    Grid got;
    if (rank() == 0 && read_grid(g, s.file, nranks(), got))
      same(g, got, want, {}, {"u"}, "function");
    g.sync();
  }
  if (m.ncell > 1)
    g.mark();
}

void unstructured(Gen &g) {
  PlexMesh m;
  PlexMesh::Opts o;
  m.make(g, o);
  g.note("unstructured ", m.kind, " ", m.c.size(), " elements, overlap ", m.overlap);
  if (!m.identify(g)) {
    g.sync();
    return;
  }
  Scratch s("d.vtkhdf");
  auto data = m.mesh->dmh->get_vtk_cell_data();
  g.ck((int)data.size() == m.mesh->get_cell_count(), "cell data of ", data.size(), " cells");
  for (int k = 0; k < (int)data.size() && !g.failed; k++) {
    const auto q = m.poly(m.element[rank()][k]);
    const int n = (int)q.size();
    auto &c = data[k];
    if (!g.ck(c.num_points == n && (int)c.points.size() == 3 * n && c.cell_type == (n == 3 ? VTK::triangle : VTK::quadrilateral), "cell ", k, " with ", n, " vertices: shape ", c.cell_type, " and ", c.num_points,
              " points"))
      break;
    // any first vertex and either direction
    bool ok = false;
    for (int a = 0; a < n; a++)
      for (int dir = -1; dir <= 1; dir += 2) {
        bool is = true;
        for (int i = 0; i < n; i++) {
          auto &v = q[(a + dir * i + 4 * n) % n];
          is = is && c.points[3 * i] == v[0] && c.points[3 * i + 1] == v[1] && c.points[3 * i + 2] == 0.0;
        }
        ok = ok || is;
      }
    g.ck(ok, "the points of cell ", k, " are not its vertices in order around it");
    c.cell_data["c"] = k, c.point_data["p"].assign(n, 0.5 * k);
  }
  g.sync();
  VTK::VTKHDF v(s.file, MPI_COMM_WORLD);
  v.write(data);
  v.close();
  auto want = everyone(data, {"p"}, {"c"}, MPI_COMM_WORLD);
  Grid got;
  if (rank() == 0 && read_grid(g, s.file, nranks(), got))
    same(g, got, want, {"p"}, {"c"}, "cells");
  g.sync();
  if (m.c.size() > 1)
    g.mark();
}

void hierarchy(Gen &g) {
  const int nd = (int)g.integer(1, 3);
  std::vector<int> dims;
  std::vector<double> origin;
  for (int d = 0; d < nd; d++) {
    dims.push_back((int)g.integer(1, nd == 3 ? 3 : 5));
    origin.push_back(g.pick<double>({0.0, 0.0, -1.0, 2.5, -3.7, 10.0}));
  }
  const double extent = g.pick<double>({1.0, 0.5, 0.3, 2.0, 7.0});
  const int sub = (int)g.integer(0, nd == 3 ? 1 : 2);
  auto mh = std::make_shared<MeshHierarchy>(MPI_COMM_WORLD, nd, dims, origin, extent, sub);
  const int k = 1 << sub;
  g.note("hierarchy ", nd, "D dims ", np::str(dims), " origin ", np::str(origin), " extent ", extent, " subdivision ", sub);
  using L = std::array<INT, 3>;
  using E = std::pair<L, L>;
  auto edges = [&](const std::set<L> &cs) {
    std::set<E> e;
    for (auto &c : cs)
      for (int a = 0; a < (1 << nd); a++)
        for (int d = 0; d < nd; d++)
          if (!(a >> d & 1)) {
            L p = c;
            for (int j = 0; j < nd; j++)
              p[j] += a >> j & 1;
            L q = p;
            q[d]++;
            e.insert({p, q});
          }
    return e;
  };
  auto check = [&](const std::string &file, double h, const std::set<E> &want, const std::string &what) {
    std::ifstream in(file);
    std::string w, line;
    std::getline(in, line);
    g.ck(line.rfind("# vtk DataFile", 0) == 0, what, ": header ", line);
    std::getline(in, line); // title
    in >> w;
    g.ck(w == "ASCII", what, ": format ", w);
    in >> w >> line;
    g.ck(w == "DATASET" && line == "UNSTRUCTURED_GRID", what, ": ", w, " ", line);
    size_t n = 0, ne = 0, ni = 0;
    in >> w >> n >> line;
    if (!g.ck((bool)in && w == "POINTS" && n < 1000000, what, ": ", w, " ", n))
      return;
    std::vector<L> p;
    std::set<L> distinct;
    for (size_t i = 0; i < n; i++) {
      L q{0, 0, 0};
      for (int d = 0; d < 3; d++) {
        double x = NAN;
        in >> x;
        const double y = (x - (d < nd ? origin[d] : 0.0)) / h, r = std::round(y);
        if (!g.ck(std::fabs(y - r) <= 1e-3, what, ": point ", i, " has the coordinate ", x, " in dimension ", d, " for cells of width ", h))
          return;
        q[d] = (INT)r;
      }
      p.push_back(q);
      distinct.insert(q);
    }
    in >> w >> ne >> ni;
    if (!g.ck((bool)in && w == "CELLS" && ne < 1000000 && ni == 3 * ne, what, ": ", w, " ", ne, " ", ni))
      return;
    std::set<E> got;
    for (size_t i = 0; i < ne; i++) {
      size_t c = 0, a = 0, b = 0;
      in >> c >> a >> b;
      if (!g.ck((bool)in && c == 2 && a < n && b < n, what, ": edge ", i, ": ", c, " ", a, " ", b))
        return;
      got.insert({std::min(p[a], p[b]), std::max(p[a], p[b])});
    }
    size_t nt = 0;
    in >> w >> nt;
    g.ck((bool)in && w == "CELL_TYPES" && nt == ne, what, ": ", w, " ", nt);
    for (size_t i = 0; i < nt && i < 1000000; i++) {
      int t = -1;
      in >> t;
      if (!g.ck(t == VTK::line, what, ": type ", t, " of edge ", i))
        return;
    }
    g.ck(got == want, what, ": ", got.size(), " distinct edges, expected ", want.size());
    (void)distinct;
  };
  std::set<L> fine, coarse, some;
  for (int a = 0; a < dims[0]; a++)
    for (int b = 0; b < (nd > 1 ? dims[1] : 1); b++)
      for (int c = 0; c < (nd > 2 ? dims[2] : 1); c++)
        coarse.insert({a, b, c});
  for (auto &q : coarse)
    for (int a = 0; a < k; a++)
      for (int b = 0; b < (nd > 1 ? k : 1); b++)
        for (int c = 0; c < (nd > 2 ? k : 1); c++)
          fine.insert({q[0] * k + a, nd > 1 ? q[1] * k + b : 0, nd > 2 ? q[2] * k + c : 0});
  const int steps = (int)g.integer(1, 4);
  Scratch s("h.vtk");
  VTKMeshHierarchyCellsWriter w(mh);
  size_t most = 0;
  for (int i = 0; i < steps; i++) {
    const int what = (int)g.draw(4);
    if (what == 0) {
      w.write_all_coarse(s.file);
      MPI_Barrier(MPI_COMM_WORLD);
      if (rank() == 0)
        check(s.file, extent, edges(coarse), "coarse cells");
      most = std::max(most, coarse.size());
    } else if (what == 1) {
      VTKMeshHierarchyCellsWriter all(mh);
      all.write_all_fine(s.file);
      MPI_Barrier(MPI_COMM_WORLD);
      if (rank() == 0)
        check(s.file, extent / k, edges(fine), "fine cells");
      most = std::max(most, fine.size());
    } else {
      const int n = (int)g.size(0, 6);
      for (int j = 0; j < n; j++) {
        auto it = fine.begin();
        std::advance(it, g.draw(fine.size()));
        some.insert(*it);
        INT t[6] = {0, 0, 0, 0, 0, 0};
        for (int d = 0; d < nd; d++)
          t[d] = (*it)[d] / k, t[nd + d] = (*it)[d] % k;
        w.push_back(mh->tuple_to_linear_global(t));
      }
      if (rank() == 0) {
        w.write(s.file);
        check(s.file, extent / k, edges(some), "drawn cells");
      }
      most = std::max(most, some.size());
    }
    g.sync();
  }
  mh->free();
  if (most > 1)
    g.mark();
}

void prop(Gen &g) {
  if (!getenv("H5V")) H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
  switch (g.draw(5)) {
  case 0: return hierarchy(g);
  case 1: return cartesian(g);
  case 2: return unstructured(g);
  default: return files(g);
  }
}

} // namespace

PBT_MAIN("C28", prop)
