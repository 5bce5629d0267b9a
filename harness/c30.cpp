// C30: the functions offered to kernels (arithmetic, vectors, intersections,
// matrix inverses, atomics, group reductions and sorts, indices, tuples) give
// the mathematical result.
#include "pop.hpp"
#include <cmath>
#include <neso_particles/external_interfaces/petsc/petsc_interface.hpp>
#include <numeric>
#include <petscsys.h>
using namespace np;

namespace {
// Evaluates fn(i, out + i * W) for all i in a kernel.
template <typename T, typename FN>
std::vector<T> device(std::size_t n, std::size_t W, FN fn) {
  BufferDevice<T> b(target(), std::vector<T>(std::max<std::size_t>(1, n * W), (T)-77));
  T *o = b.ptr;
  if (n > 0)
    target()
        ->queue
        .parallel_for(sycl::range<1>(n),
                      [=](sycl::id<1> i) { fn((std::size_t)i, o + (std::size_t)i * W); })
        .wait_and_throw();
  return b.get();
}

REAL gen_real(Gen &g) {
  const REAL m = (REAL)g.integer(-4096, 4096);
  return std::ldexp(m, (int)g.pick<int>({-6, 0, -12, -3, 4, 20, -30}));
}
bool near(REAL a, long double b, long double tol = 1e-12L) {
  if (std::isnan(a) || std::isinf(a))
    return false;
  return std::fabs((long double)a - b) <= tol * std::max(1.0L, std::fabs(b)) * 1.0L;
}
bool near_rel(REAL a, long double b, long double tol = 1e-13L) {
  return std::fabs((long double)a - b) <= tol * std::fabs(b) + 1e-300L;
}

// ------------------------------------------------------------- arithmetic
void arithmetic(Gen &g) {
  const std::size_t n = (std::size_t)g.size(1, 40);
  std::vector<REAL> in;
  std::vector<INT> ii;
  for (std::size_t i = 0; i < n; i++) {
    for (int k = 0; k < 3; k++)
      in.push_back(gen_real(g));
    if (g.draw(6) == 0)
      in[3 * i + 1] = in[3 * i];
    if (g.draw(6) == 0)
      in[3 * i + 1] = (REAL)g.integer(-3, 3);
    ii.push_back(g.integer(-1000000000000LL, 1000000000000LL));
    ii.push_back(g.draw(4) ? g.integer(-1000000000000LL, 1000000000000LL) : ii.back());
  }
  BufferDevice<REAL> bi(target(), in);
  BufferDevice<INT> bj(target(), ii);
  const REAL *d = bi.ptr;
  const INT *e = bj.ptr;
  constexpr int W = 30;
  const auto r = device<REAL>(n, W, [=](std::size_t i, REAL *o) {
    const REAL x = d[3 * i], y = d[3 * i + 1], z = d[3 * i + 2];
    const REAL p = Kernel::abs(x) + 0.125; // positive
    const REAL s = Kernel::fmod(x, 8.0);   // small
    o[0] = Kernel::min(x, y);
    o[1] = Kernel::max(x, y);
    o[2] = Kernel::abs(x);
    o[3] = Kernel::sqrt(p);
    o[4] = Kernel::rsqrt(p);
    o[5] = Kernel::exp(s);
    o[6] = y != 0.0 ? Kernel::fmod(x, y) : 0.0;
    o[7] = Kernel::fma(x, y, z);
    o[8] = Kernel::pow(p, s);
    o[9] = Kernel::atan2(x, y);
    o[10] = Kernel::sin(s);
    o[11] = Kernel::cos(s);
    o[12] = Kernel::tan(s / 8);
    o[13] = Kernel::log(p);
    o[14] = Kernel::log2(p);
    o[15] = Kernel::log10(p);
    o[16] = Kernel::round(x);
    o[17] = Kernel::tgamma(Kernel::abs(s) + 0.25);
    o[18] = Kernel::trunc(x);
    o[19] = Kernel::sincos(s, o + 20);
    const INT a = e[2 * i], b = e[2 * i + 1];
    o[21] = (REAL)Kernel::min(a, b);
    o[22] = (REAL)Kernel::max(a, b);
    o[23] = (REAL)Kernel::abs(a);
    o[24] = (REAL)Kernel::min(x, (int)(a % 100));
    o[25] = (REAL)Kernel::max((int)(a % 100), x);
    o[26] = Kernel::atan2(y, x);
    o[27] = (REAL)Kernel::min((int)(a % 7), (int)(b % 7));
    o[28] = (REAL)Kernel::abs((int)(a % 1000));
    o[29] = Kernel::exp(-s);
  });
  for (std::size_t i = 0; i < n && !g.failed; i++) {
    const REAL x = in[3 * i], y = in[3 * i + 1], z = in[3 * i + 2];
    const long double p = std::fabs(x) + 0.125, s = std::fmod(x, 8.0);
    const REAL *o = &r[W * i];
    const INT a = ii[2 * i], b = ii[2 * i + 1];
    const long double f6 = y != 0 ? std::fmod(x, y) : 0;
    struct {
      const char *name;
      int k;
      long double want;
      long double tol; // relative
    } t[] = {
        {"min", 0, x < y ? x : y, 0},
        {"max", 1, x > y ? x : y, 0},
        {"abs", 2, x < 0 ? -x : x, 0},
        {"sqrt", 3, std::sqrt(p), 1e-15L},
        {"rsqrt", 4, 1 / std::sqrt(p), 1e-14L},
        {"exp", 5, std::exp(s), 1e-14L},
        {"fmod", 6, f6, 0},
        {"fma", 7, std::fma(x, y, z), 0},
        {"pow", 8, std::pow(p, s), 1e-12L},
        {"atan2", 9, std::atan2((long double)x, (long double)y), 1e-14L},
        {"sin", 10, std::sin(s), 1e-13L},
        {"cos", 11, std::cos(s), 1e-12L},
        {"tan", 12, std::tan(s / 8), 1e-13L},
        {"log", 13, std::log(p), 1e-12L},
        {"log2", 14, std::log2(p), 1e-12L},
        {"log10", 15, std::log10(p), 1e-12L},
        {"round", 16, std::round(x), 0},
        {"tgamma", 17, std::tgamma(std::fabs(s) + 0.25L), 1e-12L},
        {"trunc", 18, std::trunc(x), 0},
        {"sincos (sin)", 19, std::sin(s), 1e-13L},
        {"sincos (cos)", 20, std::cos(s), 1e-12L},
        {"min of integers", 21, (long double)std::min(a, b), 0},
        {"max of integers", 22, (long double)std::max(a, b), 0},
        {"abs of an integer", 23, (long double)std::abs(a), 0},
        {"min of a real and an integer", 24, std::min<long double>(x, (int)(a % 100)), 0},
        {"max of an integer and a real", 25, std::max<long double>(x, (int)(a % 100)), 0},
        {"atan2", 26, std::atan2((long double)y, (long double)x), 1e-14L},
        {"min of ints", 27, (long double)std::min((int)(a % 7), (int)(b % 7)), 0},
        {"abs of an int", 28, (long double)std::abs((int)(a % 1000)), 0},
        {"exp", 29, std::exp(-s), 1e-14L},
    };
    for (auto &q : t) {
      const long double err = std::fabs((long double)o[q.k] - q.want);
      // zeros of the logarithms and of the cosine are not exact
      const long double ref = std::max(std::fabs(q.want), q.tol > 0 ? 1e-2L : 0.0L);
      g.ck(err <= q.tol * ref, q.name, " of ", x, ",", y, ",", z, " (", a, ",", b, ") is ",
           o[q.k], " instead of ", (REAL)q.want);
    }
  }
  g.note(n, " arithmetic");
  g.mark();
}

// ---------------------------------------------------------------- vectors
void vectors(Gen &g) {
  const std::size_t n = (std::size_t)g.size(1, 20);
  std::vector<INT> in;
  for (std::size_t i = 0; i < 10 * n; i++)
    in.push_back(g.integer(-100000, 100000));
  BufferDevice<INT> b(target(), in);
  const INT *d = b.ptr;
  constexpr int W = 14;
  const auto r = device<INT>(n, W, [=](std::size_t i, INT *o) {
    const INT *a = d + 10 * i, *b = a + 5;
    REAL x[5], y[5];
    for (int k = 0; k < 5; k++) {
      x[k] = (REAL)a[k];
      y[k] = (REAL)b[k];
    }
    o[0] = Kernel::dot_product_2d(a, b);
    o[1] = Kernel::dot_product_3d(a, b);
    o[2] = Kernel::dot_product<1>(a, b);
    o[3] = Kernel::dot_product<4>(a, b);
    o[4] = Kernel::dot_product<5>(a, b);
    o[5] = (INT)Kernel::dot_product_2d(x, y);
    o[6] = (INT)Kernel::dot_product_3d(x, y);
    o[7] = (INT)Kernel::dot_product<5>(x, y);
    Kernel::cross_product(a[0], a[1], a[2], b[0], b[1], b[2], o + 8, o + 9, o + 10);
    REAL c[3];
    Kernel::cross_product(x[0], x[1], x[2], y[0], y[1], y[2], c, c + 1, c + 2);
    for (int k = 0; k < 3; k++)
      o[11 + k] = (INT)c[k];
  });
  for (std::size_t i = 0; i < n && !g.failed; i++) {
    const INT *a = &in[10 * i], *b = a + 5, *o = &r[W * i];
    INT dot[6] = {0};
    for (int k = 0; k < 5; k++)
      dot[k + 1] = dot[k] + a[k] * b[k];
    const INT want[W] = {dot[2], dot[3], dot[1], dot[4], dot[5], dot[2], dot[3], dot[5],
                         a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
                         a[0] * b[1] - a[1] * b[0], a[1] * b[2] - a[2] * b[1],
                         a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
    const char *name[W] = {"dot_product_2d", "dot_product_3d", "dot_product<1>",
                           "dot_product<4>", "dot_product<5>", "dot_product_2d of reals",
                           "dot_product_3d of reals", "dot_product<5> of reals",
                           "cross_product", "cross_product", "cross_product",
                           "cross_product of reals", "cross_product of reals",
                           "cross_product of reals"};
    for (int k = 0; k < W; k++)
      g.ck(o[k] == want[k], name[k], " is ", o[k], " instead of ", want[k]);
  }
  g.note(n, " vectors");
  g.mark();
}

// ----------------------------------------------------------- intersections
// Integer coordinates times a power of two, exact in INT and in REAL.
void intersections(Gen &g) {
  const std::size_t n = (std::size_t)g.size(1, 30);
  const int ex = (int)g.pick<int>({0, -4, -10, 3, 10});
  const REAL scale = std::ldexp(1.0, ex);
  const REAL tol = g.pick<REAL>({0.0, 1e-8, 0.0});
  const INT R = g.pick<INT>({20, 3, 6, 100});
  const INT off = g.pick<INT>({0, 0, 1000});
  std::vector<INT> in; // a, b, 0, 1 (3 components each)
  for (std::size_t i = 0; i < n; i++) {
    INT v[12];
    for (int k = 0; k < 12; k++)
      v[k] = g.integer(-R, R) + off;
    switch (g.draw(6)) {
    case 0:
      v[6] = v[0], v[7] = v[1], v[8] = v[2]; // shared end
      break;
    case 1:
      v[9] = v[6]; // aligned with y
      break;
    case 2:
      v[10] = v[7]; // aligned with x
      break;
    case 3:
      v[3] = v[0]; // the first is aligned with y
      break;
    case 4:
      v[4] = v[1];
      break;
    default:
      break;
    }
    for (int k = 0; k < 12; k++)
      in.push_back(v[k]);
  }
  BufferDevice<INT> b(target(), in);
  const INT *d = b.ptr;
  constexpr int W = 28;
  const auto r = device<REAL>(n, W, [=](std::size_t i, REAL *o) {
    REAL v[12];
    for (int k = 0; k < 12; k++)
      v[k] = (REAL)d[12 * i + k] * scale;
    REAL x = 0, y = 0, z = 0, l = 0;
    o[0] = line_segment_intersection_2d(v[0], v[1], v[3], v[4], v[6], v[7], v[9], v[10], x, y,
                                        l, tol);
    o[1] = x, o[2] = y, o[3] = l;
    o[4] = line_segment_intersection_2d_x_axis_aligned(v[0], v[1], v[3], v[4], v[6], v[7],
                                                       v[9], x, y, tol);
    o[5] = x, o[6] = y;
    o[7] = line_segment_intersection_2d_y_axis_aligned(v[0], v[1], v[3], v[4], v[6], v[7],
                                                       v[10], x, y, tol);
    o[8] = x, o[9] = y;
    o[10] = plane_intersection_3d_xy_plane_aligned(v[0], v[1], v[2], v[3], v[4], v[5], v[6],
                                                   v[7], v[8], v[9], v[10], x, y, z, tol);
    o[11] = x, o[12] = y, o[13] = z;
    consistent_line_orientation_2d(v[0], v[1], v[3], v[4], o + 14, o + 15, o + 16, o + 17);
    consistent_line_orientation_2d(v[3], v[4], v[0], v[1], o + 18, o + 19, o + 20, o + 21);
    // the parameters of the lines
    o[22] = o[23] = 0;
    if (v[9] != v[6])
      line_segment_intersection_2d_lambda(v[0], v[1], v[3], v[4], v[6], v[7], v[9], v[10],
                                          o[22], o[23]);
  });
  bool inter = false;
  for (std::size_t i = 0; i < n && !g.failed; i++) {
    const INT *v = &in[12 * i];
    const REAL *o = &r[W * i];
    const INT ax = v[0], ay = v[1], az = v[2], bx = v[3], by = v[4], bz = v[5], x0 = v[6],
              y0 = v[7], z0 = v[8], x1 = v[9], y1 = v[10];
    auto say = [&]() {
      std::ostringstream s;
      s << "(" << ax << "," << ay << "," << az << ")-(" << bx << "," << by << "," << bz
        << ") and (" << x0 << "," << y0 << "," << z0 << ")-(" << x1 << "," << y1
        << ") times 2^" << ex << " tolerance " << tol;
      return s.str();
    };
    // -1: certainly not, 1: certainly, 0: at an end without a tolerance
    auto verdict = [&](INT num, INT den) { // is num/den in [0,1]
      if (den < 0)
        num = -num, den = -den;
      return num < 0 || num > den ? -1 : num == 0 || num == den ? (tol > 0 ? 1 : 0) : 1;
    };
    const INT den = (bx - ax) * (y1 - y0) - (by - ay) * (x1 - x0);
    if (den == 0) {
      g.ck(o[0] == 0, "parallel lines ", say(), " intersect");
    } else {
      const INT tn = (x0 - ax) * (y1 - y0) - (y0 - ay) * (x1 - x0); // along a-b
      const INT un = (x0 - ax) * (by - ay) - (y0 - ay) * (bx - ax); // along 0-1
      const int w = std::min(verdict(tn, den), verdict(un, den));
      if (w == 1)
        g.ck(o[0] == 1, "no intersection of ", say());
      if (w == -1)
        g.ck(o[0] == 0, "intersection of ", say(), " at ", (double)tn / den, ",",
             (double)un / den);
      if (o[0] == 1) {
        const long double t = (long double)tn / den;
        const long double e = 1e-11L * (std::abs(off) + R + 1) * scale;
        const long double X = (ax + t * (bx - ax)) * scale, Y = (ay + t * (by - ay)) * scale;
        g.ck(std::fabs(o[1] - X) <= e && std::fabs(o[2] - Y) <= e, "intersection of ", say(),
             " at ", o[1], ",", o[2], " instead of ", (double)X, ",", (double)Y);
        g.ck(std::fabs(o[3] - t) <= 1e-11L * (std::abs(off) + R + 1), "intersection of ",
             say(), " has parameter ", o[3], " instead of ", (double)t);
        inter = true;
      }
      if (x1 != x0) {
        const long double e = 1e-10L * (std::abs(off) + R + 1);
        const long double t = (long double)tn / den, u = (long double)un / den;
        g.ck(std::fabs(o[22] - t) <= e * (1 + std::fabs(t)) &&
                 std::fabs(o[23] - u) <= e * (1 + std::fabs(u) + std::fabs(t)),
             "parameters of ", say(), " are ", o[22], ",", o[23], " instead of ", (double)t, ",",
             (double)u);
      }
    }
    // a segment aligned with an axis: crossing of a (p) with a segment [s0,s1] at q = c
    auto aligned = [&](INT pa, INT qa, INT pb, INT qb, INT c, INT s0, INT s1) {
      // returns the verdict and the crossing
      const INT da = qa - c, db = qb - c;
      if (da == 0 && db == 0)
        return std::pair<int, long double>{-2, 0.0L};
      const bool cross = (da <= 0 && db >= 0) || (da >= 0 && db <= 0);
      const INT w = std::abs(da) + std::abs(db);
      const INT pn = pa * w + std::abs(da) * (pb - pa); // position times w
      const long double pos = (long double)pn / w;
      if (!cross)
        return std::pair<int, long double>{-1, pos};
      const INT lo = std::min(s0, s1) * w, hi = std::max(s0, s1) * w;
      int k = pn < lo || pn > hi ? -1 : 1;
      // at an end of the segment the position is exact only at an end of a-b
      if ((pn == lo || pn == hi) && !(da == 0 || db == 0) && tol == 0)
        k = 0;
      return std::pair<int, long double>{k, pos};
    };
    const long double e = 1e-12L * (std::abs(off) + R + 1) * scale;
    auto check = [&](const char *what, int k, bool got) {
      if (k == 1)
        g.ck(got, "no intersection ", what, " of ", say());
      if (k == -1 || k == -2)
        g.ck(!got, "an intersection ", what, " of ", say());
      inter = inter || got;
      return got;
    };
    {
      auto q = aligned(ax, ay, bx, by, y0, x0, x1);
      if (check("(x aligned)", q.first, o[4] == 1))
        g.ck(std::fabs(o[5] - q.second * scale) <= e && o[6] == y0 * scale,
             "intersection (x aligned) of ", say(), " at ", o[5], ",", o[6]);
    }
    {
      auto q = aligned(ay, ax, by, bx, x0, y0, y1);
      if (check("(y aligned)", q.first, o[7] == 1))
        g.ck(std::fabs(o[9] - q.second * scale) <= e && o[8] == x0 * scale,
             "intersection (y aligned) of ", say(), " at ", o[8], ",", o[9]);
    }
    {
      auto q = aligned(ax, az, bx, bz, z0, x0, x1), s = aligned(ay, az, by, bz, z0, y0, y1);
      if (check("with the plane", std::min(q.first, s.first), o[10] == 1))
        g.ck(std::fabs(o[11] - q.second * scale) <= e &&
                 std::fabs(o[12] - s.second * scale) <= e && o[13] == z0 * scale,
             "intersection with the plane of ", say(), " at ", o[11], ",", o[12], ",", o[13]);
    }
    // orientation
    bool same = true;
    for (int k = 0; k < 4; k++)
      same = same && o[14 + k] == o[18 + k];
    g.ck(same, "the orientation of ", say(), " depends on the order");
    const REAL A[2] = {ax * scale, ay * scale}, B[2] = {bx * scale, by * scale};
    const bool fwd = o[14] == A[0] && o[15] == A[1] && o[16] == B[0] && o[17] == B[1];
    const bool bwd = o[14] == B[0] && o[15] == B[1] && o[16] == A[0] && o[17] == A[1];
    g.ck(fwd || bwd, "the orientation of ", say(), " is another segment");
  }
  g.note(n, " intersections range ", R, " offset ", off, " scale 2^", ex);
  if (inter)
    g.mark();
}

// ---------------------------------------------------------------- matrices
INT det(std::vector<std::vector<INT>> m) {
  const std::size_t n = m.size();
  if (n == 1)
    return m[0][0];
  INT s = 0;
  for (std::size_t c = 0; c < n; c++) {
    std::vector<std::vector<INT>> k;
    for (std::size_t r = 1; r < n; r++) {
      k.push_back({});
      for (std::size_t q = 0; q < n; q++)
        if (q != c)
          k.back().push_back(m[r][q]);
    }
    s += (c % 2 ? -1 : 1) * m[0][c] * det(k);
  }
  return s;
}
std::vector<INT> adjugate(const std::vector<INT> &M, int n) {
  std::vector<INT> a(n * n, 1);
  if (n == 1)
    return a;
  for (int r = 0; r < n; r++)
    for (int c = 0; c < n; c++) {
      std::vector<std::vector<INT>> k;
      for (int i = 0; i < n; i++)
        if (i != r) {
          k.push_back({});
          for (int j = 0; j < n; j++)
            if (j != c)
              k.back().push_back(M[i * n + j]);
        }
      a[c * n + r] = ((r + c) % 2 ? -1 : 1) * det(k);
    }
  return a;
}
void matrices(Gen &g) {
  static bool init = false;
  if (!init) {
    PetscInitializeNoArguments();
    PetscPopSignalHandler();
    init = true;
  }
  const int n = (int)g.integer(1, 5);
  const INT R = g.pick<INT>({5, 1, 20});
  std::vector<INT> M(n * n);
  std::vector<std::vector<INT>> q(n, std::vector<INT>(n));
  const bool sparse = g.boolean();
  for (int i = 0; i < n * n; i++)
    q[i / n][i % n] = M[i] = sparse && g.boolean() ? 0 : g.integer(-R, R);
  const INT D = det(q);
  g.note("matrix of ", n, " determinant ", D);
  if (D == 0)
    return;
  const auto adj = adjugate(M, n);
  std::vector<REAL> a(M.begin(), M.end());
  auto check = [&](const std::vector<REAL> &L, const char *what, long double tol) {
    for (int i = 0; i < n * n; i++) {
      const long double w = (long double)adj[i] / D;
      g.ck(std::fabs(L[i] - w) <= tol, what, " entry ", i / n, ",", i % n, " of the inverse of a ",
           n, "x", n, " matrix is ", L[i], " instead of ", (double)w);
    }
  };
  if (n == 3 || n == 4) {
    BufferDevice<REAL> b(target(), a);
    const REAL *d = b.ptr;
    const auto L = device<REAL>(1, 16, [=](std::size_t, REAL *o) {
      if (n == 3)
        naive_matrix_inverse<3>(d, o);
      else
        naive_matrix_inverse<4>(d, o);
    });
    check(L, "naive_matrix_inverse", 1e-8L);
    for (int i = n * n; i < 16; i++)
      g.ck(L[i] == -77, "naive_matrix_inverse<", n, "> writes after its output");
  }
  std::vector<REAL> X(n * n, -77);
  PetscInterface::invert_matrix(n, a.data(), X.data());
  REAL mx = 0;
  for (auto v : adj)
    mx = std::max(mx, std::fabs((REAL)v / (REAL)D));
  check(X, "invert_matrix", 1e-10L * (1 + mx) * (1 + mx) * R * n);
  for (int i = 0; i < n * n; i++)
    g.ck(a[i] == (REAL)M[i], "invert_matrix changes its input");
  g.mark();
}

// ----------------------------------------------------------------- atomics
template <typename T> void atomics(Gen &g, const char *tn) {
  const std::size_t n = (std::size_t)g.size(0, 600), m = (std::size_t)g.integer(1, 4);
  const uint64_t salt = g.seed32();
  const INT R = g.pick<INT>({1000, 1, 5});
  const INT shift = g.pick<INT>({0, -3000, 3000});
  std::vector<T> in;
  for (std::size_t i = 0; i < n; i++)
    in.push_back((T)((INT)(pbt::hash(salt, i) % (uint64_t)(2 * R + 1)) - R + shift));
  std::vector<T> init;
  for (std::size_t k = 0; k < 9 * m; k++)
    init.push_back((T)(g.integer(-2 * R, 2 * R) + (g.boolean() ? shift : 0)));
  BufferDevice<T> bi(target(), in.empty() ? std::vector<T>(1) : in), bo(target(), init);
  const T *d = bi.ptr;
  T *o = bo.ptr;
  const auto r = device<T>(n, 5, [=](std::size_t i, T *w) {
    T *c = o + (i % m) * 9;
    w[0] = atomic_fetch_add(c, d[i]);
    w[1] = atomic_fetch_min(c + 1, d[i]);
    w[2] = atomic_fetch_max(c + 2, d[i]);
    w[3] = atomic_fetch_min_cas_strong(c + 3, d[i]);
    w[4] = atomic_fetch_max_cas_strong(c + 4, d[i]);
    Kernel::atomic_reduce(Kernel::plus<T>(), c + 5, d[i]);
    Kernel::atomic_reduce(Kernel::minimum<T>(), c + 6, d[i]);
    Kernel::atomic_reduce(Kernel::maximum<T>(), c + 7, d[i]);
  });
  const auto fin = bo.get();
  for (std::size_t k = 0; k < m && !g.failed; k++) {
    const T *a = &init[9 * k], *z = &fin[9 * k];
    T add = a[0], add2 = a[5];
    T mn[3] = {a[1], a[3], a[6]}, mx[3] = {a[2], a[4], a[7]};
    for (std::size_t i = k; i < n; i += m) {
      add += in[i];
      add2 += in[i];
      for (int j = 0; j < 3; j++) {
        mn[j] = std::min(mn[j], in[i]);
        mx[j] = std::max(mx[j], in[i]);
      }
    }
    g.ck(z[0] == add, tn, " fetch_add of ", n, " gives ", z[0], " instead of ", add);
    g.ck(z[5] == add2, tn, " reduce plus gives ", z[5], " instead of ", add2);
    const int at[3][2] = {{1, 2}, {3, 4}, {6, 7}};
    const char *nm[3] = {"fetch", "fetch (cas)", "reduce"};
    for (int j = 0; j < 3; j++) {
      g.ck(z[at[j][0]] == mn[j], tn, " ", nm[j], " min gives ", z[at[j][0]], " instead of ", mn[j]);
      g.ck(z[at[j][1]] == mx[j], tn, " ", nm[j], " max gives ", z[at[j][1]], " instead of ", mx[j]);
    }
    g.ck(z[8] == a[8], "atomics change their neighbours");
    // The returned values: those of some order of the operations.
    std::multiset<T> prev, next; // fetch_add: previous and next values
    prev.insert(z[0]);
    next.insert(a[0]);
    T lo1 = a[1], hi2 = a[2], lo3 = a[3], hi4 = a[4];
    std::set<T> values(in.begin(), in.end());
    for (std::size_t i = k; i < n; i += m) {
      const T *w = &r[5 * i];
      prev.insert(w[0]);
      next.insert(w[0] + in[i]);
      auto one = [&](T got, T first, T last, bool min, const char *what) {
        g.ck(got == first || values.count(got), tn, " ", what, " returns ", got,
             " which the value never was");
        g.ck(min ? got <= first && got >= last : got >= first && got <= last, tn, " ", what,
             " returns ", got, " not between ", first, " and ", last);
      };
      one(w[1], lo1, z[1], true, "fetch_min");
      one(w[2], hi2, z[2], false, "fetch_max");
      one(w[3], lo3, z[3], true, "fetch_min_cas_strong");
      one(w[4], hi4, z[4], false, "fetch_max_cas_strong");
    }
    g.ck(prev == next, tn, " fetch_add returns values of no order of the additions");
  }
  // identities
  for (std::size_t i = 0; i < std::min<std::size_t>(n, 5); i++) {
    g.ck(Kernel::plus<T>()(Kernel::get_identity(Kernel::plus<T>()), in[i]) == in[i] &&
             Kernel::minimum<T>()(Kernel::get_identity(Kernel::minimum<T>()), in[i]) == in[i] &&
             Kernel::maximum<T>()(Kernel::get_identity(Kernel::maximum<T>()), in[i]) == in[i],
         tn, " an identity changes ", in[i]);
  }
  g.ck(Kernel::get_identity(Kernel::maximum<T>()) <= std::numeric_limits<T>::lowest() &&
           Kernel::get_identity(Kernel::minimum<T>()) >= std::numeric_limits<T>::max(),
       tn, " an identity is not extreme");
  g.note(n, " atomics of ", tn, " on ", m);
  if (n > 1)
    g.mark();
}

// ------------------------------------------------------------------ groups
template <typename T> void groups(Gen &g, const char *tn) {
  const std::size_t ng = (std::size_t)g.integer(1, 4);
  const std::size_t ls = g.pick<std::size_t>({8, 1, 2, 3, 4, 16, 32, 5});
  const std::size_t n = (std::size_t)g.size(0, 100);
  const uint64_t salt = g.seed32();
  const INT R = g.pick<INT>({1000, 2, 5});
  const INT shift = g.pick<INT>({0, -3000, 3000});
  std::vector<T> in;
  for (std::size_t i = 0; i < ng * n; i++)
    in.push_back((T)((INT)(pbt::hash(salt, i) % (uint64_t)(2 * R + 1)) - R + shift));
  BufferDevice<T> bi(target(), in.empty() ? std::vector<T>(1) : in),
      bo(target(), std::vector<T>(ng * ls * 3, (T)-77));
  T *d = bi.ptr, *o = bo.ptr;
  target()
      ->queue
      .parallel_for(sycl::nd_range<1>(sycl::range<1>(ng * ls), sycl::range<1>(ls)),
                    [=](sycl::nd_item<1> it) {
                      const std::size_t k = it.get_group(0);
                      T *a = d + k * n, *b = a + n;
                      T *w = o + 3 * it.get_global_linear_id();
                      w[0] = Kernel::joint_reduce(it.get_group(), a, b, Kernel::plus<T>());
                      w[1] = Kernel::joint_reduce(it.get_group(), a, b, Kernel::minimum<T>());
                      w[2] = Kernel::joint_reduce(it.get_group(), a, b, Kernel::maximum<T>());
                    })
      .wait_and_throw();
  const auto r = bo.get();
  for (std::size_t k = 0; k < ng; k++) {
    T s = 0, mn = std::numeric_limits<T>::max(), mx = std::numeric_limits<T>::lowest();
    for (std::size_t i = k * n; i < (k + 1) * n; i++) {
      s += in[i];
      mn = std::min(mn, in[i]);
      mx = std::max(mx, in[i]);
    }
    for (std::size_t l = 0; l < ls; l++) {
      const T *w = &r[3 * (k * ls + l)];
      // of no values: an identity, which may be infinite
      g.ck(w[0] == s && (n ? w[1] == mn : w[1] >= mn) && (n ? w[2] == mx : w[2] <= mx), tn, " joint_reduce of ", n,
           " values by a group of ", ls, " gives ", w[0], ",", w[1], ",", w[2],
           " instead of ", s, ",", mn, ",", mx);
    }
  }
  // sorts of eight
  std::vector<T> eight;
  for (std::size_t i = 0; i < ng * 8; i++)
    eight.push_back((T)((INT)(pbt::hash(salt + 1, i) % (uint64_t)(2 * R + 1)) - R + shift));
  BufferDevice<T> be(target(), eight);
  T *p = be.ptr;
  target()
      ->queue
      .submit([&](sycl::handler &cgh) {
        sycl::local_accessor<T, 1> la(sycl::range<1>(8), cgh);
        cgh.parallel_for(sycl::nd_range<1>(sycl::range<1>(ng * 8), sycl::range<1>(8)),
                         [=](sycl::nd_item<1> it) {
                           const int i = (int)it.get_local_id(0);
                           la[i] = p[it.get_global_linear_id()];
                           Kernel::bitonic8(it.get_group(), &la[0]);
                           sycl::group_barrier(it.get_group());
                           p[it.get_global_linear_id()] = la[i];
                         });
      })
      .wait_and_throw();
  const auto sorted = be.get();
  for (std::size_t k = 0; k < ng; k++) {
    std::vector<T> w(eight.begin() + 8 * k, eight.begin() + 8 * (k + 1));
    std::sort(w.begin(), w.end());
    g.ck(std::equal(w.begin(), w.end(), sorted.begin() + 8 * k), tn,
         " bitonic8 does not sort eight values");
  }
  g.note(ng, " groups of ", ls, " over ", n, " ", tn);
  if (n > 0)
    g.mark();
}

// ------------------------------------------------------- ranges and indices
template <std::size_t N, typename F>
void nd(Gen &g, const std::vector<int> &s, const NDIndex<N> &ix, F index) {
  INT size = 1;
  for (auto v : s)
    size *= v;
  if (!g.ck(ix.size() == size, "size ", ix.size(), " of an index of size ", size))
    return;
  std::vector<int> t(N);
  for (INT k = 0; k < size; k++) { // row major: the last index is the fastest
    INT q = k;
    for (int d = (int)N - 1; d >= 0; d--) {
      t[d] = (int)(q % s[d]);
      q /= s[d];
    }
    const INT got = index(ix, t);
    if (!g.ck(got == k, "linear index ", got, " instead of ", k, " in ", N, " dimensions"))
      return;
  }
}
void indices(Gen &g) {
  const std::size_t size = (std::size_t)g.size(0, 500),
                    ls = g.pick<std::size_t>({1, 2, 7, 8, 32, 64, 256});
  const auto r = get_nd_range_peel_1d(size, ls);
  std::vector<int> hit(size, 0);
  const std::size_t main = r.loop_main.get_global_range()[0],
                    peel = r.loop_peel.get_global_range()[0];
  g.ck(main <= size && main % ls == 0, "main loop of ", main, " for ", size);
  g.ck(r.loop_main.get_local_range()[0] == ls && r.loop_peel.get_local_range()[0] == ls,
       "the local size is not ", ls);
  for (std::size_t i = 0; i < main && i < size; i++)
    hit[i]++;
  if (r.peel_exists)
    for (std::size_t i = 0; i < peel; i++)
      if (r.offset + i < size)
        hit[r.offset + i]++;
  for (std::size_t i = 0; i < size; i++)
    g.ck(hit[i] == 1, "index ", i, " of ", size, " by ", ls, " is visited ", hit[i], " times");
  const auto q = get_nd_range_1d(size, ls);
  g.ck(q.get_global_range()[0] >= size && q.get_global_range()[0] < size + ls &&
           q.get_local_range()[0] == ls && q.get_global_range()[0] % ls == 0,
       "get_nd_range_1d(", size, ",", ls, ") is ", q.get_global_range()[0]);
  const int dim = (int)g.integer(1, 4);
  std::vector<int> s;
  for (int d = 0; d < dim; d++)
    s.push_back((int)g.integer(1, dim == 1 ? 40 : 7));
  g.note("range ", size, " by ", ls, " and an index of ", dim, " dimensions");
  if (dim == 1)
    nd<1>(g, s, nd_index<1>(s[0]),
          [](auto &x, auto &t) { return x.get_linear_index(t[0]); });
  if (dim == 2)
    nd<2>(g, s, nd_index<2>(s[0], s[1]),
          [](auto &x, auto &t) { return x.get_linear_index(t[0], t[1]); });
  if (dim == 3)
    nd<3>(g, s, nd_index<3>(s[0], (INT)s[1], s[2]),
          [](auto &x, auto &t) { return x.get_linear_index(t[0], (INT)t[1], t[2]); });
  if (dim == 4)
    nd<4>(g, s, nd_index<4>(s[0], s[1], s[2], s[3]),
          [](auto &x, auto &t) { return x.get_linear_index(t[0], t[1], t[2], t[3]); });
  if (size > 0)
    g.mark();
}

// ------------------------------------------------------ tuples and vectors
void host(Gen &g) {
  const INT a = g.integer(-1000, 1000), b = g.integer(-1000, 1000);
  const REAL c = gen_real(g);
  const int d = (int)g.integer(-10, 10);
  auto t = Tuple::to_tuple(a, c, d, b);
  const auto &ct = t;
  g.ck(Tuple::get<0>(t) == a && Tuple::get<1>(t) == c && Tuple::get<2>(t) == d &&
           Tuple::get<3>(t) == b && Tuple::get<0>(ct) == a && Tuple::get<1>(ct) == c &&
           Tuple::get<2>(ct) == d && Tuple::get<3>(ct) == b,
       "the members of a tuple");
  const REAL ap = Tuple::apply(
      [](INT w, REAL x, int y, INT z) { return (REAL)w * 3 + x * 5 + y * 7 + (REAL)z * 11; }, t);
  g.ck(ap == (REAL)a * 3 + c * 5 + d * 7 + (REAL)b * 11 ||
           near(ap, (long double)a * 3 + (long double)c * 5 + d * 7 + (long double)b * 11),
       "Tuple::apply");
  g.ck(Tuple::apply_truncated<2>([&](INT w, REAL x) { return w == a && x == c; }, t),
       "Tuple::apply_truncated");
  g.ck(Tuple::apply_truncated<1>([&](INT w) { return w == a; }, t), "Tuple::apply_truncated");
  Tuple::apply([](INT &, REAL &, int &y, INT &z) { y += 1, z = 5; }, t);
  g.ck(Tuple::get<2>(t) == d + 1 && Tuple::get<3>(t) == 5 && Tuple::get<0>(t) == a,
       "Tuple::apply does not write to the tuple");
  g.ck(Tuple::get_last_arg(a, c, b) == b && Tuple::get_last_arg(d) == d, "get_last_arg");

  const int n = (int)g.size(0, 30);
  std::vector<INT> v;
  std::vector<int> small;
  std::map<INT, REAL> m;
  INT prod = 1;
  const int k = (int)g.integer(0, std::min(n, 8));
  for (int i = 0; i < n; i++) {
    v.push_back(g.integer(-5, 20));
    small.push_back((int)g.integer(-6, 6));
    if (i < k)
      prod *= small.back();
    m[g.integer(-20, 20)] = gen_real(g);
  }
  g.ck(reduce_mul(k, small) == prod, "reduce_mul of ", k, " is ", reduce_mul(k, small),
       " instead of ", prod);
  const auto o = reverse_argsort(v);
  std::vector<bool> seen(n, false);
  if (g.ck((int)o.size() == n, "reverse_argsort size"))
    for (int i = 0; i < n; i++) {
      if (!g.ck((int)o[i] < n && !seen[o[i]], "reverse_argsort is not a permutation"))
        break;
      seen[o[i]] = true;
      g.ck(i == 0 || v[o[i - 1]] >= v[o[i]], "reverse_argsort is not descending");
    }
  std::vector<REAL> want;
  for (auto &x : m)
    want.push_back(x.second);
  g.ck(flatten_map(m) == want, "flatten_map");
  const auto f = fixed_width_format(a), h = fixed_width_format(c);
  std::size_t end = 0;
  g.ck(std::stoll(f, &end) == a && end == f.size() && (a < 0) == (f[0] == '-'),
       "fixed_width_format of ", a, " is '", f, "'");
  g.ck(near_rel(std::stod(h, &end), c, 1e-6L) && end == h.size() && h.size() == 13,
       "fixed_width_format of ", c, " is '", h, "'");
  g.note("host ", n);
  if (n > 1)
    g.mark();
}

void prop(Gen &g) {
  switch (g.draw(11)) {
  case 0:
    arithmetic(g);
    break;
  case 1:
    vectors(g);
    break;
  case 2:
  case 3:
  case 4:
    intersections(g);
    break;
  case 5:
    matrices(g);
    break;
  case 6:
    atomics<INT>(g, "INT");
    break;
  case 7:
    if (g.boolean())
      atomics<REAL>(g, "REAL");
    else
      atomics<int>(g, "int");
    break;
  case 8:
    if (g.boolean())
      groups<INT>(g, "INT");
    else
      groups<REAL>(g, "REAL");
    break;
  case 9:
    indices(g);
    break;
  default:
    host(g);
  }
}
} // namespace

PBT_MAIN("C30", prop)
