// C21: overlay grids cover their box exactly, and coordinate maps are inverses
// which give admissible coordinates.
#include "np.hpp"
#include <cmath>
#include <neso_particles/external_interfaces/common/coordinate_mapping.hpp>
#include <neso_particles/external_interfaces/common/overlay_cartesian_mesh.hpp>
using namespace np;
using namespace NESO::Particles::ExternalCommon;

namespace {

constexpr REAL EPS = 2.220446049250313e-16;
using LD = long double;

// Runs f(i, in + i * NI, out + i * NO) for all points on the device.
template <int NI, int NO, typename F>
std::vector<REAL> on_device(std::vector<REAL> in, F f) {
  const std::size_t n = in.size() / NI;
  std::vector<REAL> out(n * NO, -7777.0);
  if (n == 0)
    return out;
  BufferDevice<REAL> bi(target(), in), bo(target(), out);
  auto pi = bi.ptr;
  auto po = bo.ptr;
  target()
      ->queue
      .submit([&](sycl::handler &h) {
        h.parallel_for<>(sycl::range<1>(n), [=](sycl::id<1> i) { f(pi + i * NI, po + i * NO); });
      })
      .wait_and_throw();
  return bo.get();
}

REAL unit(Gen &g) { return g.real(0.0, 1.0); }

// ---- overlay grids ----------------------------------------------------------

void overlay(Gen &g) {
  const int ndim = (int)g.integer(1, 3);
  const bool exact = g.boolean();
  std::vector<REAL> o(ndim), e(ndim), w(ndim);
  std::vector<int> cc(ndim);
  std::shared_ptr<OverlayCartesianMesh> m;
  const bool create = g.chance(1, 3);
  if (create) {
    std::vector<REAL> b(6, 0.0);
    for (int d = 0; d < ndim; d++) {
      const REAL s = std::ldexp(1.0, (int)g.integer(-6, 6));
      o[d] = exact ? (REAL)g.integer(-40, 40) * 0.25 * s : (unit(g) - 0.5) * 40 * s;
      e[d] = exact ? s * (REAL)(1 + g.draw(4)) : s * (0.2 + unit(g));
      b[d] = o[d], b[d + 3] = o[d] + e[d];
    }
    const int want = (int)g.size(0, 300);
    m = create_overlay_mesh(target(), ndim, std::make_shared<BoundingBox>(b), want);
    cc = m->cell_counts;
    g.note("created with at least ", want, " cells");
    g.ck((int)cc.size() == ndim && m->get_cell_count() >= want, "created mesh has ", m->get_cell_count(), " cells, wanted at least ", want);
    for (int d = 0; d < ndim; d++) {
      g.ck(m->origin[d] == b[d] && m->extents[d] == b[d + 3] - b[d], "created mesh does not cover the box in dimension ", d);
      e[d] = m->extents[d];
    }
  } else {
    for (int d = 0; d < ndim; d++) {
      cc[d] = (int)g.integer(1, g.boolean() ? 4 : 12);
      const REAL s = std::ldexp(1.0, (int)g.integer(-8, 8));
      o[d] = exact ? (REAL)g.integer(-64, 64) * s : (unit(g) - 0.5) * 100 * s;
      e[d] = exact ? s * cc[d] : s * (0.1 + unit(g));
    }
    m = std::make_shared<OverlayCartesianMesh>(target(), ndim, o, e, cc);
  }
  LD tol[3];
  for (int d = 0; d < ndim; d++) {
    w[d] = e[d] / cc[d];
    tol[d] = exact ? 0.0L : 8.0L * EPS * (std::abs(o[d]) + e[d]) + 2.0L * EPS;
  }
  g.note(ndim, "D exact ", exact, " origin ", str(o), " extents ", str(e), " counts ", str(cc));
  auto mh = m->get_host_mapper();
  auto md = m->get_device_mapper();

  // linear indices: a bijection
  int total = 1;
  for (int c : cc)
    total *= c;
  g.ck(m->get_cell_count() == total, "get_cell_count() = ", m->get_cell_count(), " expected ", total);
  if (total <= 5000) {
    std::vector<int> seen(total, 0), t(ndim, 0);
    for (int k = 0; k < total; k++) {
      const int a = m->get_linear_cell_index(t), b = mh.get_linear_cell_index(t);
      if (!g.ck(a == b && a >= 0 && a < total && !seen[a]++, "linear index of cell ", str(t), " is ", a, " (mapper ", b, ") of ", total))
        break;
      g.ck(mh.valid_linear_cell_index(t), "cell ", str(t), " is called invalid");
      for (int d = 0; d < ndim; d++) {
        if (++t[d] < cc[d])
          break;
        t[d] = 0;
      }
    }
  }
  {
    std::vector<int> t(ndim);
    bool in = true;
    for (int d = 0; d < ndim; d++) {
      t[d] = (int)g.integer(-1, cc[d]);
      in = in && t[d] >= 0 && t[d] < cc[d];
    }
    g.ck(mh.valid_linear_cell_index(t) == in, "cell ", str(t), " validity");
  }

  // Coordinates: inside, on the lines of the grid and next to them.
  auto coord = [&](int d) -> REAL {
    const int k = (int)g.draw(4);
    if (k == 0) {
      REAL v = exact ? o[d] + w[d] * (REAL)g.draw(64 * cc[d] + 1) / 64.0 : o[d] + e[d] * unit(g);
      return v;
    }
    const int line = (int)g.integer(0, cc[d]);
    REAL v = o[d] + line * w[d];
    if (k >= 2) {
      v = std::nextafter(v, k == 2 ? 1e300 : -1e300);
      if (g.boolean())
        v += (k == 2 ? 1 : -1) * w[d] * 1e-9;
    }
    // keep within the box
    return std::min(std::max(v, o[d]), o[d] + e[d]);
  };
  const int np_ = (int)g.size(0, 20);
  std::vector<REAL> in;
  std::vector<int> cell;
  for (int k = 0; k < np_; k++) {
    const int d = (int)g.draw(ndim);
    const REAL x = coord(d);
    in.push_back(d), in.push_back(x);
    const int c = m->get_cell_in_dimension(d, x);
    cell.push_back(c);
    g.ck(c == mh.get_cell_in_dimension(d, x), "host mapper differs at ", x);
    if (!g.ck(c >= 0 && c < cc[d], "point ", x, " is put in cell ", c, " of ", cc[d]))
      continue;
    const LD lo = (LD)o[d] + (LD)c * w[d], hi = (LD)o[d] + (LD)(c + 1) * w[d];
    bool ok;
    if (exact) {
      // a point a rounding below a line may be rounded onto it
      const LD slack = 4.0L * EPS * (std::abs(o[d]) + e[d]);
      const bool rounds = (REAL)(((REAL)(x - o[d])) + o[d]) != x || std::fmod((x - o[d]) * 1024.0 / w[d], 1.0) != 0.0;
      const LD s = rounds ? slack : 0.0L;
      ok = lo - s <= x && (x < hi + s || (c == cc[d] - 1 && x <= hi + s));
    } else
      ok = lo - tol[d] <= x && x <= hi + tol[d];
    g.ck(ok, "point ", x, " of dimension ", d, " is put in cell ", c, " = [", (REAL)lo, ", ", (REAL)hi, ")");
    std::vector<int> t(ndim, 0);
    t[d] = c;
    auto bb = m->get_bounding_box(t);
    g.ck(std::fabs((LD)bb->lower(d) - lo) <= 4 * EPS * (std::abs(o[d]) + e[d]) && std::fabs((LD)bb->upper(d) - hi) <= 4 * EPS * (std::abs(o[d]) + e[d]),
         "bounding box of cell ", c, " in dimension ", d, " is [", bb->lower(d), ", ", bb->upper(d), "]");
    g.mark(cc[d] > 1);
  }
  auto out = on_device<2, 1>(in, [=](const REAL *p, REAL *q) { q[0] = md.get_cell_in_dimension((int)p[0], p[1]); });
  for (int k = 0; k < np_; k++)
    g.ck((int)out[k] == cell[k], "device mapper puts ", in[2 * k + 1], " in cell ", out[k], ", host in ", cell[k]);
  if (ndim > 1) {
    // linear index on the device
    std::vector<REAL> ti;
    std::vector<int> li;
    for (int k = 0; k < 4; k++) {
      std::vector<int> t(ndim);
      for (int d = 0; d < 3; d++)
        ti.push_back(d < ndim ? (t[d] = (int)g.integer(0, cc[d] - 1)) : 0);
      li.push_back(m->get_linear_cell_index(t));
    }
    auto lo = on_device<3, 1>(ti, [=](const REAL *p, REAL *q) {
      int t[3] = {(int)p[0], (int)p[1], (int)p[2]};
      q[0] = md.get_linear_cell_index(t);
    });
    for (int k = 0; k < 4; k++)
      g.ck((int)lo[k] == li[k], "device linear index ", lo[k], " host ", li[k]);
  }

  // Boxes.
  const int nb = (int)g.size(0, 5);
  for (int k = 0; k < nb; k++) {
    std::vector<REAL> b(6, 0.0);
    for (int d = 0; d < ndim; d++) {
      REAL x = coord(d), y = g.chance(1, 4) ? x : coord(d);
      b[d] = std::min(x, y), b[d + 3] = std::max(x, y);
      if (g.chance(1, 8))
        b[d] -= w[d] * (REAL)g.draw(4) * 0.5; // reaches outside
      if (g.chance(1, 8))
        b[d + 3] += w[d] * (REAL)g.draw(4) * 0.5;
    }
    std::vector<int> cells(g.draw(3), 99);
    m->get_intersecting_cells(std::make_shared<BoundingBox>(b), cells);
    std::set<int> got(cells.begin(), cells.end());
    g.ck(got.size() == cells.size(), "box ", str(b), ": a cell is reported twice: ", str(cells));
    std::vector<int> t(ndim, 0);
    int need = 0;
    for (int q = 0; q < total; q++) {
      // closed boxes that overlap by more than the rounding, or are apart by more
      bool must = true, may = true;
      for (int d = 0; d < ndim; d++) {
        const LD lo = (LD)o[d] + (LD)t[d] * w[d], hi = (LD)o[d] + (LD)(t[d] + 1) * w[d];
        // ends next to a line are within the rounding of it
        const LD r = 8.0L * EPS * (std::abs(o[d]) + 2 * e[d]) + 4.0L * EPS;
        const LD over = std::min<LD>(hi, b[d + 3]) - std::max<LD>(lo, b[d]);
        must = must && (over > r || (exact && over >= 0 && (b[d] == (REAL)hi || b[d + 3] == (REAL)lo || over > r || b[d] == b[d + 3])));
        may = may && over >= -r;
      }
      const int lin = m->get_linear_cell_index(t);
      if (must)
        g.ck(got.count(lin), "box ", str(b), " meets cell ", str(t), " which is not reported"), need++;
      if (!may)
        g.ck(!got.count(lin), "box ", str(b), " does not meet cell ", str(t), " which is reported");
      for (int d = 0; d < ndim; d++) {
        if (++t[d] < cc[d])
          break;
        t[d] = 0;
      }
    }
    for (int c : got)
      g.ck(c >= 0 && c < total, "box ", str(b), ": cell ", c, " of ", total, " reported");
    g.mark(need > 1);
    g.label("intersecting cells");
  }

  // Unions of boxes.
  auto u = std::make_shared<BoundingBox>();
  std::vector<REAL> lo(3, 1e300), hi(3, -1e300);
  const int nu = (int)g.integer(0, 4);
  for (int k = 0; k < nu; k++) {
    std::vector<REAL> b(6);
    for (int d = 0; d < 3; d++) {
      const REAL x = (REAL)g.integer(-9, 9), y = (REAL)g.integer(-9, 9);
      b[d] = std::min(x, y), b[d + 3] = std::max(x, y);
      lo[d] = std::min(lo[d], b[d]), hi[d] = std::max(hi[d], b[d + 3]);
    }
    u->expand(std::make_shared<BoundingBox>(b));
  }
  std::vector<REAL> q(3);
  bool inside = nu > 0;
  for (int d = 0; d < 3; d++) {
    q[d] = (REAL)g.integer(-9, 9);
    if (d < ndim)
      inside = inside && lo[d] <= q[d] && q[d] <= hi[d];
    if (nu)
      g.ck(u->lower(d) == lo[d] && u->upper(d) == hi[d], "union of boxes in dimension ", d, " is [", u->lower(d), ", ", u->upper(d), "]");
  }
  g.ck(u->contains_point(ndim, q) == inside, "box of ", nu, " contains ", str(q), ": ", !inside);
}

// ---- elements ---------------------------------------------------------------

struct V2 {
  REAL x, y;
};
REAL cross(V2 a, V2 b, V2 c) { return (b.x - a.x) * (c.y - b.y) - (b.y - a.y) * (c.x - b.x); }

// An affine image: scaled, rotated or sheared, moved.
void place(Gen &g, std::vector<V2> &v) {
  const int k = (int)g.draw(5);
  REAL a = 1, b = 0, c = 0, d = 1;
  if (k == 1) {
    const REAL t = unit(g) * 6.283185307179586;
    a = std::cos(t), b = -std::sin(t), c = std::sin(t), d = std::cos(t);
  } else if (k == 2) { // multiples of a right angle
    const int q = (int)g.draw(4);
    const REAL cs[4] = {1, 0, -1, 0}, sn[4] = {0, 1, 0, -1};
    a = cs[q], b = -sn[q], c = sn[q], d = cs[q];
  } else if (k == 3)
    b = (unit(g) - 0.5) * 2, c = g.boolean() ? 0.0 : (unit(g) - 0.5) * 0.8;
  else if (k == 4)
    a = g.pick<REAL>({0.25, 4.0, 1.0, 8.0}), d = g.pick<REAL>({1.0, 0.5, 6.0});
  const REAL s = std::ldexp(1.0, (int)g.integer(-10, 10));
  REAL tx = 0, ty = 0;
  if (g.boolean())
    tx = (REAL)g.integer(-20, 20), ty = (REAL)g.integer(-20, 20);
  for (auto &p : v) {
    const V2 q{s * (a * p.x + b * p.y + tx), s * (c * p.x + d * p.y + ty)};
    p = q;
  }
  if (g.chance(1, 6)) // the other orientation
    std::reverse(v.begin(), v.end());
}

void triangle(Gen &g) {
  std::vector<V2> v = {{0, 0}, {1, 0}, {0, 1}};
  if (g.boolean())
    for (auto &p : v)
      p.x += (unit(g) - 0.5) * 0.6, p.y += (unit(g) - 0.5) * 0.6;
  if (std::abs(cross(v[0], v[1], v[2])) < 0.05)
    v = {{0, 0}, {1, 0}, {0, 1}};
  place(g, v);
  const REAL A2 = std::abs(cross(v[0], v[1], v[2]));
  REAL M = 0, L = 0;
  for (int i = 0; i < 3; i++) {
    M = std::max({M, std::abs(v[i].x), std::abs(v[i].y)});
    L = std::max(L, std::hypot(v[i].x - v[(i + 1) % 3].x, v[i].y - v[(i + 1) % 3].y));
  }
  g.note("triangle ", v[0].x, ",", v[0].y, " ", v[1].x, ",", v[1].y, " ", v[2].x, ",", v[2].y);
  const int n = (int)g.size(1, 16);
  std::vector<REAL> in;
  std::vector<std::array<REAL, 3>> ex;
  for (int k = 0; k < n; k++) {
    REAL l[3];
    const int kind = (int)g.draw(5), e = (int)g.draw(3);
    if (kind == 0) {
      REAL a = unit(g), b = unit(g);
      if (a + b > 1)
        a = 1 - a, b = 1 - b;
      l[0] = a, l[1] = b, l[2] = 1 - a - b;
    } else if (kind == 1) // vertex
      l[0] = l[1] = l[2] = 0, l[e] = 1;
    else if (kind == 2) { // edge
      const REAL a = g.boolean() ? 0.5 : unit(g);
      l[e] = 0, l[(e + 1) % 3] = a, l[(e + 2) % 3] = 1 - a;
    } else if (kind == 3)
      l[0] = l[1] = 0.25, l[2] = 0.5;
    else { // outside
      l[0] = 3 * unit(g) - 1, l[1] = 3 * unit(g) - 1, l[2] = 1 - l[0] - l[1];
    }
    LD x = 0, y = 0;
    for (int i = 0; i < 3; i++)
      x += (LD)l[i] * v[i].x, y += (LD)l[i] * v[i].y;
    if (kind == 1)
      x = v[e].x, y = v[e].y;
    for (auto &p : v)
      in.push_back(p.x), in.push_back(p.y);
    in.push_back((REAL)x), in.push_back((REAL)y);
    ex.push_back({l[0], l[1], l[2]});
  }
  auto out = on_device<8, 5>(in, [=](const REAL *p, REAL *q) {
    triangle_cartesian_to_barycentric(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], q, q + 1, q + 2);
    triangle_barycentric_to_cartesian(p[0], p[1], p[2], p[3], p[4], p[5], q[0], q[1], q[2], q + 3, q + 4);
  });
  for (int k = 0; k < n; k++) {
    const REAL *q = &out[5 * k];
    const REAL m2 = std::max({M, std::abs(in[8 * k + 6]), std::abs(in[8 * k + 7])});
    const REAL tol = 32 * EPS * m2 * m2 / A2 + 8 * EPS;
    for (int i = 0; i < 3; i++)
      g.ck(std::abs(q[i] - ex[k][i]) <= tol * (1 + std::abs(ex[k][i])), "point ", in[8 * k + 6], ",", in[8 * k + 7], ": barycentric coordinate ", i, " = ", q[i], " expected ", ex[k][i], " within ", tol);
    const REAL tx = 4 * tol * m2 + 8 * EPS * m2;
    g.ck(std::abs(q[3] - in[8 * k + 6]) <= tx && std::abs(q[4] - in[8 * k + 7]) <= tx, "point ", in[8 * k + 6], ",", in[8 * k + 7], " is mapped back to ", q[3], ",", q[4]);
  }
  g.label("triangle");
  g.mark(n > 1);
}

void quad(Gen &g) {
  std::vector<V2> v = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}};
  const int kind = (int)g.draw(7);
  auto base = v;
  if (kind == 1) // parallelogram up to rounding
    for (auto &p : v)
      p.x += 0.37 * p.y;
  else if (kind == 2) // any
    for (auto &p : v)
      p.x += (unit(g) - 0.5) * 1.2, p.y += (unit(g) - 0.5) * 1.2;
  else if (kind == 3) { // trapezoids and wedges
    const REAL a = unit(g), b = unit(g);
    v[1].y -= 2 * a, v[2].y += 2 * b;
  } else if (kind == 4) {
    const REAL a = unit(g) * 0.9, b = unit(g) * 0.9;
    v[2].x -= a, v[3].x += b;
  } else if (kind == 5) { // almost a parallelogram
    const REAL t = std::ldexp(1.0, -(int)g.integer(10, 52));
    v[g.draw(4)].x += t, v[g.draw(4)].y -= t;
  } else if (kind == 6) // small integers
    for (auto &p : v)
      p.x = 3 * p.x + (REAL)g.integer(-2, 2), p.y = 3 * p.y + (REAL)g.integer(-2, 2);
  auto convex = [&]() {
    for (int i = 0; i < 4; i++)
      if (cross(v[i], v[(i + 1) % 4], v[(i + 2) % 4]) < 0.01)
        return false;
    return true;
  };
  if (!convex())
    v = base;
  // any vertex may be the first
  std::rotate(v.begin(), v.begin() + (long)g.draw(4), v.end());
  place(g, v);
  REAL M = 0, L = 0, l = 1e300, J = 1e300;
  for (int i = 0; i < 4; i++) {
    M = std::max({M, std::abs(v[i].x), std::abs(v[i].y)});
    const REAL e = std::hypot(v[i].x - v[(i + 1) % 4].x, v[i].y - v[(i + 1) % 4].y);
    L = std::max(L, e), l = std::min(l, e);
    J = std::min(J, std::abs(cross(v[i], v[(i + 1) % 4], v[(i + 2) % 4])));
  }
  g.note("quad kind ", kind, ": ", v[0].x, ",", v[0].y, " ", v[1].x, ",", v[1].y, " ", v[2].x, ",", v[2].y, " ", v[3].x, ",", v[3].y);
  const int n = (int)g.size(1, 16);
  std::vector<REAL> in;
  std::vector<V2> ex;
  for (int k = 0; k < n; k++) {
    REAL a, b;
    const int pk = (int)g.draw(4);
    auto one = [&]() -> REAL { return g.pick<REAL>({-1.0, 1.0}); };
    if (pk == 0)
      a = 2 * unit(g) - 1, b = 2 * unit(g) - 1;
    else if (pk == 1)
      a = one(), b = one();
    else if (pk == 2) {
      a = one(), b = g.boolean() ? 0.0 : 2 * unit(g) - 1;
      if (g.boolean())
        std::swap(a, b);
    } else { // lines through the centre
      a = 0.0, b = g.boolean() ? 0.0 : 2 * unit(g) - 1;
      if (g.boolean())
        std::swap(a, b);
    }
    const LD w[4] = {0.25L * (1 - (LD)a) * (1 - (LD)b), 0.25L * (1 + (LD)a) * (1 - (LD)b), 0.25L * (1 + (LD)a) * (1 + (LD)b), 0.25L * (1 - (LD)a) * (1 + (LD)b)};
    LD x = 0, y = 0;
    for (int i = 0; i < 4; i++)
      x += w[i] * v[i].x, y += w[i] * v[i].y;
    for (auto &p : v)
      in.push_back(p.x), in.push_back(p.y);
    in.push_back((REAL)x), in.push_back((REAL)y);
    ex.push_back({a, b});
  }
  auto out = on_device<10, 12>(in, [=](const REAL *p, REAL *q) {
    quad_cartesian_to_collapsed(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], q, q + 1);
    quad_collapsed_to_cartesian(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], q[0], q[1], q + 2, q + 3);
    quad_cartesian_to_barycentric(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], q + 4, q + 5, q + 6, q + 7);
    quad_collapsed_to_barycentric(q[0], q[1], q + 8, q + 9, q + 10, q + 11);
  });
  const REAL tol = 256 * EPS * (M + L) * L / J * (L / l) + 16 * EPS;
  for (int k = 0; k < n; k++) {
    const REAL *q = &out[12 * k];
    const REAL px = in[10 * k + 8], py = in[10 * k + 9];
    g.ck(std::abs(q[0] - ex[k].x) <= tol && std::abs(q[1] - ex[k].y) <= tol, "point ", px, ",", py, ": reference coordinates ", q[0], ",", q[1], " expected ", ex[k].x, ",", ex[k].y, " within ", tol);
    const REAL tx = 4 * tol * L + 16 * EPS * M;
    g.ck(std::abs(q[2] - px) <= tx && std::abs(q[3] - py) <= tx, "point ", px, ",", py, " is mapped back to ", q[2], ",", q[3]);
    REAL s = 0, bx = 0, by = 0;
    bool pos = true, same_ = true;
    for (int i = 0; i < 4; i++) {
      s += q[4 + i], bx += q[4 + i] * v[i].x, by += q[4 + i] * v[i].y;
      pos = pos && q[4 + i] >= 0 && q[4 + i] <= 1;
      same_ = same_ && q[4 + i] == q[8 + i];
    }
    g.ck(pos && same_ && std::abs(s - 1) <= 8 * EPS, "point ", px, ",", py, ": weights ", q[4], " ", q[5], " ", q[6], " ", q[7], " sum ", s);
    g.ck(std::abs(bx - px) <= tx && std::abs(by - py) <= tx, "point ", px, ",", py, ": weights ", q[4], " ", q[5], " ", q[6], " ", q[7], " give ", bx, ",", by);
  }
  g.label("quadrilateral");
  g.mark(n > 1);
}

void torus(Gen &g) {
  const int n = (int)g.size(1, 16);
  std::vector<REAL> in;
  const REAL R = std::ldexp(1.0 + unit(g), (int)g.integer(-8, 8));
  const REAL PI = 3.141592653589793;
  auto angle = [&]() -> REAL {
    if (g.chance(1, 3))
      return g.pick<REAL>({0.0, PI / 2, -PI / 2, PI / 4, 3.0, -3.0, PI * 0.75});
    return (2 * unit(g) - 1) * 3.14159;
  };
  for (int k = 0; k < n; k++) {
    const REAL r = R * (g.chance(1, 6) ? std::ldexp(1.0, -(int)g.integer(1, 20)) : 0.01 + 0.98 * unit(g));
    in.push_back(R), in.push_back(r), in.push_back(angle()), in.push_back(angle());
  }
  g.note("torus R ", R, " points ", n);
  auto out = on_device<4, 9>(in, [=](const REAL *p, REAL *q) {
    torus_cylindrical_to_cartesian(p[0], p[1], p[2], p[3], q, q + 1, q + 2);
    cartesian_to_torus_cylindrical(p[0], q[0], q[1], q[2], q + 3, q + 4, q + 5);
    torus_cylindrical_to_cartesian(p[0], q[3], q[4], q[5], q + 6, q + 7, q + 8);
  });
  for (int k = 0; k < n; k++) {
    const REAL *p = &in[4 * k], *q = &out[9 * k];
    const REAL tp = 64 * EPS * R, h = R - std::abs(p[1]), ta = 64 * EPS * R / h;
    const LD rho = (LD)R + (LD)p[1] * cosl((LD)p[3]);
    const LD x = rho * cosl((LD)p[2]), y = rho * sinl((LD)p[2]), z = (LD)p[1] * sinl((LD)p[3]);
    g.ck(std::fabs(q[0] - x) <= tp && std::fabs(q[1] - y) <= tp && std::fabs(q[2] - z) <= tp, "r ", p[1], " phi ", p[2], " theta ", p[3], " is mapped to ", q[0], ",", q[1], ",", q[2], " expected ", (REAL)x, ",", (REAL)y, ",", (REAL)z);
    g.ck(std::abs(q[3] - p[1]) <= tp && std::abs(q[4] - p[2]) <= ta + 8 * EPS && std::abs(q[5] - p[3]) <= 64 * EPS * R / p[1] + 8 * EPS, "r ", p[1], " phi ", p[2], " theta ", p[3], " comes back as ", q[3], " ", q[4], " ", q[5]);
    g.ck(std::abs(q[6] - q[0]) <= tp && std::abs(q[7] - q[1]) <= tp && std::abs(q[8] - q[2]) <= tp, "point ", q[0], ",", q[1], ",", q[2], " comes back as ", q[6], ",", q[7], ",", q[8]);
  }
  g.label("torus");
  g.mark(n > 1);
}

// ---- device functions -------------------------------------------------------

template <int N> void inverse(Gen &g) {
  const int n = (int)g.integer(1, 6);
  std::vector<REAL> in;
  for (int k = 0; k < n; k++) {
    // a permuted matrix with dominant entries: well conditioned
    std::vector<int> perm(N);
    std::iota(perm.begin(), perm.end(), 0);
    for (int i = N - 1; i > 0; i--)
      std::swap(perm[i], perm[g.draw(i + 1)]);
    const REAL s = std::ldexp(1.0, (int)g.integer(-6, 6));
    const bool dense = g.boolean();
    for (int r = 0; r < N; r++)
      for (int c = 0; c < N; c++) {
        REAL v = dense ? (unit(g) - 0.5) : 0.0;
        if (perm[r] == c)
          v += g.pick<REAL>({3.0, -3.0, 4.0});
        in.push_back(v * s);
      }
  }
  auto out = on_device<N * N, N * N>(in, [=](const REAL *p, REAL *q) { naive_matrix_inverse<N>(p, q); });
  for (int k = 0; k < n; k++)
    for (int r = 0; r < N; r++)
      for (int c = 0; c < N; c++) {
        REAL s = 0, t = 0;
        for (int j = 0; j < N; j++) {
          s += in[k * N * N + r * N + j] * out[k * N * N + j * N + c];
          t += out[k * N * N + r * N + j] * in[k * N * N + j * N + c];
        }
        const REAL e = r == c ? 1.0 : 0.0;
        g.ck(std::abs(s - e) < 1e-12 && std::abs(t - e) < 1e-12, "inverse of matrix ", k, " (", N, "x", N, "): entry ", r, ",", c, " of the products is ", s, " and ", t);
      }
  g.label("matrix inverse");
  g.mark(true);
}

void segments(Gen &g) {
  // Two segments through a chosen point, at chosen fractions of both.
  const int n = (int)g.size(1, 12);
  std::vector<REAL> in;
  struct Ex { bool hit; REAL x, y, l; };
  std::vector<Ex> ex;
  for (int k = 0; k < n; k++) {
    const REAL px = (REAL)g.integer(-8, 8), py = (REAL)g.integer(-8, 8);
    auto dir = [&]() {
      V2 d;
      const int q = (int)g.draw(4);
      const REAL s = g.pick<REAL>({1.0, -1.0});
      if (q == 0) d = {s, 0};
      else if (q == 1) d = {0, s};
      else { const REAL t = unit(g) * 6.283; d = {std::cos(t), std::sin(t)}; }
      const REAL len = std::ldexp(1.0, (int)g.integer(-2, 4));
      d.x *= len, d.y *= len;
      return d;
    };
    V2 u = dir(), w = dir();
    if (std::abs(u.x * w.y - u.y * w.x) < 0.1 * std::hypot(u.x, u.y) * std::hypot(w.x, w.y))
      w = {-u.y, u.x};
    // fraction on each segment; outside: no intersection
    auto frac = [&]() -> REAL { return g.chance(1, 3) ? g.pick<REAL>({-0.25, 1.25, 3.0, -2.0}) : 0.05 + 0.9 * unit(g); };
    const REAL s = frac(), t = frac();
    in.push_back(px - s * u.x), in.push_back(py - s * u.y), in.push_back(px + (1 - s) * u.x), in.push_back(py + (1 - s) * u.y);
    in.push_back(px - t * w.x), in.push_back(py - t * w.y), in.push_back(px + (1 - t) * w.x), in.push_back(py + (1 - t) * w.y);
    ex.push_back({s >= 0 && s <= 1 && t >= 0 && t <= 1, px, py, s});
  }
  auto out = on_device<8, 8>(in, [=](const REAL *p, REAL *q) {
    REAL xi = 0, yi = 0, l = 0;
    q[0] = line_segment_intersection_2d(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], xi, yi, l, 1e-10);
    q[1] = xi, q[2] = yi, q[3] = l;
    REAL a, b, c, d, e, f, h, i;
    consistent_line_orientation_2d(p[0], p[1], p[2], p[3], &a, &b, &c, &d);
    consistent_line_orientation_2d(p[2], p[3], p[0], p[1], &e, &f, &h, &i);
    q[4] = (a == e) && (b == f) && (c == h) && (d == i);
    q[5] = (a == p[0] && b == p[1] && c == p[2] && d == p[3]) || (a == p[2] && b == p[3] && c == p[0] && d == p[1]);
    q[6] = a < c || (a == c && b <= d);
  });
  int hits = 0;
  for (int k = 0; k < n; k++) {
    const REAL *q = &out[8 * k];
    auto &e = ex[k];
    std::vector<REAL> s(in.begin() + 8 * k, in.begin() + 8 * k + 8);
    g.ck((q[0] != 0) == e.hit, "segments ", str(s), (e.hit ? " meet, not reported" : " do not meet, reported"));
    if (e.hit) {
      hits++;
      g.ck(std::abs(q[1] - e.x) < 1e-11 && std::abs(q[2] - e.y) < 1e-11 && std::abs(q[3] - e.l) < 1e-11, "segments ", str(s), " meet at ", e.x, ",", e.y, " fraction ", e.l, "; got ", q[1], ",", q[2], " ", q[3]);
    }
    g.ck(q[4] != 0 && q[5] != 0, "orientation of segment ", str(s), " depends on the order of its ends or changes it");
  }
  g.label("segments");
  g.mark(hits > 0);
}

void reductions(Gen &g) {
  // Concurrent updates of one value.
  const int n = (int)g.size(1, 400);
  const uint64_t s = g.seed32();
  const bool neg = g.boolean();
  std::vector<REAL> r(n);
  std::vector<INT> v(n);
  INT mn = std::numeric_limits<INT>::max(), mx = std::numeric_limits<INT>::lowest(), sum = 0;
  for (int i = 0; i < n; i++) {
    v[i] = (INT)(pbt::hash(s, i) % 2001) - (neg ? 3000 : 1000);
    r[i] = (REAL)v[i] * 0.5;
    mn = std::min(mn, v[i]), mx = std::max(mx, v[i]), sum += v[i];
  }
  const INT start = g.integer(-4000, 4000);
  std::vector<REAL> cr = {start * 0.5, start * 0.5, start * 0.5, start * 0.5, start * 0.5};
  std::vector<INT> ci = {start, start, start, start, start};
  std::vector<INT> tick(n, -1);
  BufferDevice<REAL> br(target(), r), bcr(target(), cr);
  BufferDevice<INT> bv(target(), v), bci(target(), ci), bt(target(), tick);
  std::vector<INT> z = {0};
  BufferDevice<INT> bz(target(), z);
  auto pr = br.ptr, pcr = bcr.ptr;
  auto pv = bv.ptr, pci = bci.ptr, pt = bt.ptr, pz = bz.ptr;
  target()->queue.submit([&](sycl::handler &h) {
    h.parallel_for<>(sycl::range<1>(n), [=](sycl::id<1> i) {
      atomic_fetch_add(&pcr[0], pr[i]);
      atomic_fetch_min(&pcr[1], pr[i]);
      atomic_fetch_max(&pcr[2], pr[i]);
      atomic_fetch_min_cas_strong(&pcr[3], pr[i]);
      atomic_fetch_max_cas_strong(&pcr[4], pr[i]);
      atomic_fetch_add(&pci[0], pv[i]);
      atomic_fetch_min(&pci[1], pv[i]);
      atomic_fetch_max(&pci[2], pv[i]);
      atomic_fetch_min_cas_strong(&pci[3], pv[i]);
      atomic_fetch_max_cas_strong(&pci[4], pv[i]);
      pt[i] = atomic_fetch_add(pz, (INT)1);
    });
  }).wait_and_throw();
  auto a = bcr.get();
  auto b = bci.get();
  auto t = bt.get();
  const INT e[5] = {start + sum, std::min(start, mn), std::max(start, mx), std::min(start, mn), std::max(start, mx)};
  for (int k = 0; k < 5; k++)
    g.ck(b[k] == e[k] && a[k] == e[k] * 0.5, "atomic update ", k, " of ", start, ": ", b[k], " and ", a[k], " expected ", e[k], " and ", e[k] * 0.5);
  std::sort(t.begin(), t.end());
  bool ok = true;
  for (int i = 0; i < n; i++)
    ok = ok && t[i] == i;
  g.ck(ok, "atomic_fetch_add gave the same value twice");
  // Sorts of eight values per group.
  const int ng = (int)g.integer(1, 5);
  std::vector<INT> w(8 * ng);
  for (int i = 0; i < 8 * ng; i++)
    w[i] = (INT)(pbt::hash(s, 9, i) % (g.failed ? 3 : 20)) - 10;
  auto ws = w;
  BufferDevice<INT> bw(target(), w);
  auto pw = bw.ptr;
  target()->queue.submit([&](sycl::handler &h) {
    sycl::local_accessor<INT, 1> loc(sycl::range<1>(8), h);
    h.parallel_for<>(sycl::nd_range<1>(sycl::range<1>(8 * ng), sycl::range<1>(8)), [=](sycl::nd_item<1> it) {
      auto grp = it.get_group();
      const auto i = it.get_local_id(0), j = it.get_global_id(0);
      loc[i] = pw[j];
      Kernel::bitonic8(grp, &loc[0]);
      sycl::group_barrier(grp);
      pw[j] = loc[i];
    });
  }).wait_and_throw();
  w = bw.get();
  for (int q = 0; q < ng; q++)
    std::sort(ws.begin() + 8 * q, ws.begin() + 8 * q + 8);
  g.ck(w == ws, "bitonic8 gave ", str(w), " expected ", str(ws));
  g.label("reductions and sorts");
  g.mark(n > 1);
}

void prop(Gen &g) {
  switch (g.weighted({6, 3, 6, 2, 1, 2, 1})) {
  case 0: overlay(g); break;
  case 1: triangle(g); break;
  case 2: quad(g); break;
  case 3: torus(g); break;
  case 4: g.boolean() ? inverse<3>(g) : inverse<4>(g); break;
  case 5: segments(g); break;
  default: reductions(g); break;
  }
  g.sync();
}

} // namespace

PBT_MAIN("C21", prop)
