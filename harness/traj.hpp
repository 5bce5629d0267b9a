// Generated straight trajectories in a Cartesian box, the exact first exit of
// each, and the plumbing to read what CartesianTrajectoryIntersection reports.
#pragma once
#include "np.hpp"
#include <cmath>

namespace np {

constexpr double EPS = 0x1p-52;

struct Traj {
  double a[3] = {0, 0, 0}, b[3] = {0, 0, 0};
};

struct Exit {
  bool leaves{false};
  std::set<int> faces;       // first exit face; several within rounding
  long double t[3], tmin{2}; // per dimension exit parameter (2: none)
  long double p[3][3];       // hit point for the exit through dimension d
  double delta{0};           // rounding of a hit point
  int side[3] = {0, 0, 0};   // -1 below, 1 above
};

// Faces: 0 y=0, 1 x=Lx, 2 y=Ly, 3 x=0, 4 z=0, 5 z=Lz
inline int face_of(int d, int side) {
  static const int f[3][2] = {{3, 1}, {0, 2}, {4, 5}};
  return f[d][side > 0];
}
inline int face_dim(int f) { return f >= 4 ? 2 : (f % 2 ? 0 : 1); }
inline bool face_upper(int f) { return f == 1 || f == 2 || f == 5; }

// Face cells are numbered face by face, the lower remaining dimension fastest.
inline int face_cell_count(const CartMesh &m, int f) {
  int n = 1;
  for (int d = 0; d < m.ndim; d++)
    if (d != face_dim(f))
      n *= m.n[d];
  return n;
}
inline bool face_cell(const CartMesh &m, INT id, int *face, int *c) {
  if (id < 0)
    return false;
  for (int f = 0; f < 2 * m.ndim; f++) {
    const int n = face_cell_count(m, f);
    if (id < n) {
      *face = f;
      int j = 0;
      for (int d = 0; d < m.ndim; d++)
        if (d != face_dim(f)) {
          c[j++] = (int)(id % m.n[d]);
          id /= m.n[d];
        }
      return true;
    }
    id -= n;
  }
  return false;
}

inline Exit exit_of(const CartMesh &m, const Traj &q, double tol) {
  Exit e;
  double mx = 0;
  for (int d = 0; d < m.ndim; d++)
    mx = std::max({mx, std::fabs(q.a[d]), std::fabs(q.b[d]), m.L[d]});
  e.delta = 16.0 * EPS * mx;
  for (int d = 0; d < m.ndim; d++) {
    e.t[d] = 2;
    if (q.b[d] <= 0.0)
      e.side[d] = -1, e.t[d] = (long double)q.a[d] / ((long double)q.a[d] - q.b[d]);
    else if (q.b[d] >= m.L[d])
      e.side[d] = 1, e.t[d] = ((long double)m.L[d] - q.a[d]) /
                              ((long double)q.b[d] - q.a[d]);
    if (e.side[d])
      e.leaves = true;
    e.tmin = std::min(e.tmin, e.t[d]);
  }
  if (!e.leaves)
    return e;
  for (int d = 0; d < m.ndim; d++) {
    if (!e.side[d])
      continue;
    bool in = true;
    for (int k = 0; k < m.ndim; k++) {
      e.p[d][k] = k == d ? (long double)(e.side[d] > 0 ? m.L[d] : 0.0)
                         : q.a[k] + e.t[d] * ((long double)q.b[k] - q.a[k]);
      const double w = tol + e.delta;
      in = in && e.p[d][k] >= -w && e.p[d][k] <= m.L[k] + w;
    }
    if (in)
      e.faces.insert(face_of(d, e.side[d]));
  }
  return e;
}

// kind: what the trajectory does; returns one whose exit is decidable with the
// tolerance (a hit within rounding of an edge needs tol to cover the rounding).
inline Traj gen_traj(const CartMesh &m, int kind, uint64_t h0, double tol) {
  Traj q;
  int ctr = 0;
  auto H = [&]() { return pbt::hash(h0, 91 + ctr++); };
  auto U = [&]() { return ((double)(H() >> 11)) * 0x1p-53; };
  const int skind = (int)(H() % 6);
  for (int d = 0; d < m.ndim; d++) {
    const double L = m.L[d];
    double x = U() * L;
    if (skind == 1 && H() % 2) { // close to a wall
      const double w = std::exp2(-4.0 - 36.0 * U()) * L;
      x = H() % 2 ? w : L - w;
    }
    if (skind == 2) // grid points
      x = (double)(H() % (uint64_t)(2 * m.n[d])) * 0.5 * m.h;
    x = std::min(std::max(x, 1e-12 * L), L * (1.0 - 1e-12));
    q.a[d] = q.b[d] = x;
  }
  switch (kind) {
  case 0: // stays inside
    for (int d = 0; d < m.ndim; d++)
      q.b[d] = std::min(std::max(U() * m.L[d], 1e-13 * m.L[d]),
                        m.L[d] * (1.0 - 1e-13));
    break;
  case 1: // anywhere around
    for (int d = 0; d < m.ndim; d++)
      q.b[d] = (3.0 * U() - 1.0) * m.L[d];
    break;
  case 2: // axis aligned, also exactly onto the face
  {
    const int d = (int)(H() % m.ndim);
    const double o[6] = {0.0,  -U() * m.L[d],        -1e-9 * U(),
                         m.L[d], m.L[d] * (1 + U()), m.L[d] * (1 + 1e-9 * U())};
    q.b[d] = o[H() % 6];
    break;
  }
  case 3: // towards a point on a face: interior, cell line, edge or corner
  case 4: // the same with a long overshoot
  {
    const int d = (int)(H() % m.ndim);
    const int at = (int)(H() % 4);
    double p[3];
    for (int k = 0; k < m.ndim; k++) {
      p[k] = U() * m.L[k];
      if (at == 1 || (at == 2 && H() % 2))
        p[k] = (double)(H() % (uint64_t)(m.n[k] + 1)) * m.h;
      if (at == 3)
        p[k] = H() % 2 ? m.L[k] : 0.0;
    }
    p[d] = H() % 2 ? m.L[d] : 0.0;
    double s = 1.0 + U() * (H() % 2 ? 1.0 : 1e-6);
    if (kind == 4)
      s = std::exp2(14.0 * U());
    for (int k = 0; k < m.ndim; k++)
      q.b[k] = q.a[k] + s * (p[k] - q.a[k]);
    break;
  }
  case 5: // tiny moves across the wall
  {
    const int d = (int)(H() % m.ndim);
    const double w = std::exp2(-8.0 - 25.0 * U()) * m.L[d];
    const bool up = H() % 2;
    q.a[d] = up ? m.L[d] - w : w;
    for (int k = 0; k < m.ndim; k++)
      q.b[k] = std::min(std::max(q.a[k] + (2 * U() - 1) * w, 1e-13 * m.L[k]),
                        m.L[k] * (1.0 - 1e-13));
    q.b[d] = up ? m.L[d] + w * U() : -w * U();
    break;
  }
  default: // far away
  {
    for (int k = 0; k < m.ndim; k++)
      q.b[k] = (2 * U() - 1) * std::exp2(10.0 * U()) * m.L[k];
  }
  }
  const Exit e = exit_of(m, q, 0.0);
  bool bad = false;
  if (e.leaves && tol < e.delta)
    for (int d = 0; d < m.ndim; d++)
      if (e.side[d] && e.t[d] == e.tmin)
        for (int k = 0; k < m.ndim; k++)
          if (k != d && (e.p[d][k] < 4 * e.delta ||
                         e.p[d][k] > m.L[k] - 4 * e.delta))
            bad = true;
  if (bad)
    for (int k = 0; k < m.ndim; k++)
      q.b[k] = q.a[k];
  return q;
}

// A generated assignment of faces to groups; -2^31 is reserved by the library.
inline std::map<int, std::vector<int>> gen_groups(Gen &g, int ndim,
                                                  bool all = false) {
  std::map<int, std::vector<int>> out;
  const int nf = 2 * ndim;
  const int ng = 1 + (int)g.draw(g.boolean() ? 2 : nf);
  std::vector<int> ids = {0, 1, 7, 100, -1, 2147483647, 3};
  for (int i = 0; i < ng; i++) {
    std::swap(ids[i], ids[i + g.draw(ids.size() - i)]);
    out[ids[i]] = {};
  }
  for (int f = 0; f < nf; f++)
    if (all || !g.chance(1, 6))
      out[ids[g.draw(ng)]].push_back(f);
  for (auto &x : out) // any order
    for (std::size_t i = x.second.size(); i > 1; i--)
      std::swap(x.second[i - 1], x.second[g.draw(i)]);
  if (!g.chance(1, 8)) // groups without a face only now and then
    for (auto it = out.begin(); it != out.end();)
      it = it->second.empty() && out.size() > 1 ? out.erase(it) : ++it;
  return out;
}

// Copies the reported intersection data into particle properties.
struct HitSpec {
  static void add(ParticleSpec &s) {
    s.push(ParticleProp(Sym<INT>("HITS"), 1));
    s.push(ParticleProp(Sym<INT>("HITG"), 2)); // group, face id
    s.push(ParticleProp(Sym<INT>("HITK"), 1)); // key of the map
    s.push(ParticleProp(Sym<REAL>("HITP"), 3));
    s.push(ParticleProp(Sym<REAL>("HITN"), 3));
  }
  static void clear(ParticleGroupSharedPtr A) {
    particle_loop(
        A, [=](auto H) { H.at(0) = 0; }, Access::write(Sym<INT>("HITS")))
        ->execute();
  }
  static void copy(ParticleSubGroupSharedPtr s, int ndim, INT key) {
    particle_loop(
        s,
        [=](auto H, auto G, auto K, auto P, auto N, auto IP, auto IN, auto IM) {
          H.at(0) += 1;
          K.at(0) = key;
          for (int d = 0; d < 2; d++)
            G.at(d) = IM.at_ephemeral(d);
          for (int d = 0; d < ndim; d++) {
            P.at(d) = IP.at_ephemeral(d);
            N.at(d) = IN.at_ephemeral(d);
          }
        },
        Access::write(Sym<INT>("HITS")), Access::write(Sym<INT>("HITG")),
        Access::write(Sym<INT>("HITK")), Access::write(Sym<REAL>("HITP")),
        Access::write(Sym<REAL>("HITN")),
        Access::read(BoundaryInteractionSpecification::intersection_point),
        Access::read(BoundaryInteractionSpecification::intersection_normal),
        Access::read(BoundaryInteractionSpecification::intersection_metadata))
        ->execute();
  }
};

// Checks the report about one particle against the exact exit.
inline bool check_hit(Gen &g, const CartMesh &m, const Traj &q, double tol,
                      const std::map<int, std::vector<int>> &groups, INT id,
                      INT hits, const INT *meta, INT key, const double *P,
                      const double *N, int *face_out = nullptr) {
  const Exit e = exit_of(m, q, tol);
  std::ostringstream s;
  s.precision(17);
  s << "particle " << id << " from (";
  for (int d = 0; d < m.ndim; d++)
    s << (d ? "," : "") << q.a[d];
  s << ") to (";
  for (int d = 0; d < m.ndim; d++)
    s << (d ? "," : "") << q.b[d];
  s << ")";
  if (!e.leaves)
    return g.ck(hits == 0, s.str(), " does not leave but was reported");
  if (!g.ck(!e.faces.empty(), s.str(), ": oracle found no exit face"))
    return false;
  auto group_of = [&](int f, int &out) {
    for (auto &x : groups)
      for (int y : x.second)
        if (y == f) {
          out = x.first;
          return true;
        }
    return false;
  };
  if (hits == 0) {
    bool ok = false;
    for (int f : e.faces) {
      int gi;
      ok = ok || !group_of(f, gi);
    }
    return g.ck(ok, s.str(), " leaves through face ", *e.faces.begin(),
                " but was not reported");
  }
  if (!g.ck(hits == 1, s.str(), " was reported in ", hits, " groups"))
    return false;
  int f = -1, fc[2] = {0, 0};
  if (!g.ck(face_cell(m, meta[1], &f, fc), s.str(), " reported face cell ",
            meta[1], " does not exist"))
    return false;
  const int fd = face_dim(f);
  if (face_out)
    *face_out = f;
  if (!g.ck(e.faces.count(f), s.str(), " reported face ", f, ", expected ",
            *e.faces.begin()))
    return false;
  int gi = -12345;
  if (!g.ck(group_of(f, gi) && gi == (int)meta[0] && gi == (int)key, s.str(),
            " reported in group ", meta[0], " under key ", key, ", but face ",
            f, " belongs to ", gi))
    return false;
  const double w = tol + e.delta;
  int j = 0;
  for (int d = 0; d < m.ndim; d++) {
    const double nrm = d == fd ? (face_upper(f) ? -1.0 : 1.0) : 0.0;
    if (!g.ck(N[d] == nrm, s.str(), " normal component ", d, " of face ", f,
              " is ", N[d]))
      return false;
    if (!g.ck(fabsl(e.p[fd][d] - (long double)P[d]) <= (d == fd ? 0.0 : w),
              s.str(), " face ", f, " hit point component ", d, " is ", P[d],
              ", expected ", (double)e.p[fd][d]))
      return false;
    if (d == fd)
      continue;
    const int c = fc[j++];
    const double lo = c * m.h, hi = (c + 1) * m.h;
    if (!g.ck(P[d] >= lo - w && P[d] <= hi + w, s.str(), " hit ", P[d],
              " in dimension ", d, " is not in the reported face cell ",
              meta[1], " = [", lo, ",", hi, "]"))
      return false;
  }
  return true;
}

} // namespace np
