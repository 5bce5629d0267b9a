// C24: containers behave as their abstract data types. One container per case,
// driven with a generated history of operations against a plain host model.
#include "np.hpp"
#include <neso_particles/containers/blocked_binary_tree.hpp>
#include <neso_particles/containers/lookup_table.hpp>
#include <typeindex>

namespace {
using np::target;

SYCLTargetSharedPtr &T() { return np::target_store(); }

// ---------------------------------------------------------------- ordered map
struct Triple {
  REAL a;
  INT b;
  bool operator==(const Triple &o) const { return a == o.a && b == o.b; }
};
template <typename V> V mkval(Gen &g, INT salt) {
  const INT v = g.integer(-1000, 1000);
  if constexpr (std::is_same_v<V, Triple>)
    return {np::rval(v, 0, 1, salt), np::ival(v, 1, 2, salt)};
  else
    return (V)(v * 1000 + (salt % 997));
}

template <typename K, typename V, typename ROOT>
void device_get(ROOT root, const std::vector<K> &keys, std::vector<V> &vals,
                std::vector<int> &found, std::vector<V> &vals2,
                std::vector<int> &found2) {
  const std::size_t n = keys.size();
  BufferDevice<K> dk(T(), keys);
  BufferDevice<V> dv(T(), vals), dv2(T(), vals2);
  BufferDevice<int> df(T(), n), df2(T(), n);
  K *k = dk.ptr;
  V *v = dv.ptr, *v2 = dv2.ptr;
  int *f = df.ptr, *f2 = df2.ptr;
  T()->queue
      .submit([&](sycl::handler &cgh) {
        cgh.parallel_for<>(sycl::range<1>(n), [=](sycl::id<1> ix) {
          const std::size_t i = ix[0];
          f[i] = root->get(k[i], &v[i]) ? 1 : 0;
          V const *p = nullptr;
          f2[i] = root->get(k[i], &p) ? 1 : 0;
          if (f2[i])
            v2[i] = *p;
        });
      })
      .wait_and_throw();
  vals = dv.get();
  vals2 = dv2.get();
  found = df.get();
  found2 = df2.get();
}

template <typename K, typename V, typename C>
void map_history(Gen &g, C &tree, INT lo, INT hi, INT addlo, INT addhi,
                 const char *what) {
  std::map<K, V> model;
  const int nops = (int)g.size(1, 40);
  int overwrites = 0, absent = 0;
  // Keys are drawn around a few centres so that blocks are shared.
  std::vector<INT> centres;
  for (int i = 0, n = (int)g.integer(1, 4); i < n; i++)
    centres.push_back(g.integer(lo, hi));
  auto key = [&](INT a, INT b) -> K {
    INT k;
    switch (g.draw(3)) {
    case 0:
      k = g.pick(centres) + g.integer(-20, 20);
      break;
    case 1:
      k = g.pick(centres);
      break;
    default:
      k = g.integer(a, b);
    }
    return (K)std::min(std::max(k, a), b);
  };
  auto device_check = [&](const std::vector<K> &keys) {
    const std::size_t n = keys.size();
    const V stamp = mkval<V>(g, 77);
    std::vector<V> v(n, stamp), v2(n, stamp);
    std::vector<int> f(n), f2(n);
    device_get<K, V>(tree.root, keys, v, f, v2, f2);
    for (std::size_t i = 0; i < n; i++) {
      const int want = (int)model.count(keys[i]);
      g.ck(f[i] == want && f2[i] == want, what, ": device lookup of key ",
           keys[i], " reports ", f[i], "/", f2[i], " but the key is ",
           want ? "present" : "absent");
      if (want)
        g.ck(f[i] && v[i] == model[keys[i]] && f2[i] && v2[i] == model[keys[i]],
             what, ": device lookup of key ", keys[i], " returned a wrong value");
      else
        absent++;
    }
  };
  for (int o = 0; o < nops && !g.failed; o++) {
    switch (g.weighted({6, 4, 1})) {
    case 0: {
      const K k = key(addlo, addhi);
      const V v = mkval<V>(g, k);
      g.note(what, " add ", k);
      overwrites += model.count(k);
      tree.add(k, v);
      model[k] = v;
      break;
    }
    case 1: {
      const K k = key(lo, hi);
      V v{};
      const bool f = tree.host_get(k, &v);
      const bool want = model.count(k);
      absent += !want;
      g.note(what, " get ", k);
      if (g.ck(f == want, what, ": host_get of key ", k, " returned ", f,
               " but the key is ", want ? "present" : "absent") &&
          want)
        g.ck(v == model[k], what, ": host_get of key ", k,
             " returned a wrong value");
      break;
    }
    default: {
      if (!tree.root)
        break;
      std::vector<K> keys;
      for (int i = 0, n = (int)g.integer(1, 12); i < n; i++)
        keys.push_back(key(lo, hi));
      device_check(keys);
    }
    }
  }
  if (tree.root && !g.failed) {
    std::vector<K> keys;
    for (auto &p : model) {
      for (INT d : {-1, 0, 1}) {
        const INT k = (INT)p.first + d;
        if (k >= lo && k <= hi)
          keys.push_back((K)k);
      }
    }
    if (keys.size())
      device_check(keys);
    for (auto &p : model) {
      V v{};
      g.ck(tree.host_get(p.first, &v) && v == p.second, what,
           ": key ", p.first, " lost its value");
    }
  }
  g.mark(model.size() >= 2 && absent > 0);
  if (overwrites)
    g.label("map overwrite");
}

template <typename K, typename V, INT W> void tree_case(Gen &g) {
  BlockedBinaryTree<K, V, W> tree(T());
  INT span = g.pick<INT>({20, 200, 5000, 1000000000});
  const bool neg = g.boolean();
  const INT lo = neg ? -span : 0, hi = span;
  if (tree.root != nullptr)
    g.ck(false, "a new tree has a root");
  map_history<K, V>(g, tree, lo, hi, lo, hi, "tree");
  if (neg)
    g.label("negative keys");
}
void do_tree(Gen &g) {
  switch (g.draw(7)) {
  case 0:
    return tree_case<INT, INT, 8>(g);
  case 1:
    return tree_case<INT, REAL, 1>(g);
  case 2:
    return tree_case<int, int, 4>(g);
  case 3:
    return tree_case<INT, Triple, 3>(g);
  case 4:
    return tree_case<INT, INT, 64>(g);
  case 5:
    return tree_case<int, Triple, 7>(g);
  default:
    return tree_case<INT, int, 2>(g);
  }
}
template <typename K, typename V> void table_case(Gen &g) {
  const INT n = g.pick<INT>({1, 2, 5, 17, 64, 300});
  LookupTable<K, V> table(T(), (int)n);
  map_history<K, V>(g, table, -5, n + 5, 0, n - 1, "lookup table");
}
void do_table(Gen &g) {
  switch (g.draw(3)) {
  case 0:
    return table_case<int, INT>(g);
  case 1:
    return table_case<INT, Triple>(g);
  default:
    return table_case<INT, REAL>(g);
  }
}

// -------------------------------------------------------------------- buffers
template <typename BUF> void buffer_case(Gen &g, const char *what) {
  using V = INT;
  std::vector<V> model;
  const std::size_t n0 = g.integer(1, 20);
  INT salt = 1;
  auto values = [&](std::size_t n) {
    std::vector<V> v(n);
    for (auto &x : v)
      x = np::ival(salt++, 3, 1);
    return v;
  };
  std::unique_ptr<BUF> b;
  std::vector<bool> known;
  if (g.boolean()) {
    model = values(n0);
    known.assign(n0, true);
    b = std::make_unique<BUF>(T(), model);
  } else {
    b = std::make_unique<BUF>(T(), n0);
    model.resize(n0);
    known.assign(n0, false);
  }
  int grows = 0, shrinks = 0;
  auto check = [&] {
    if (!g.ck(b->size == model.size(), what, ": size ", b->size, " expected ",
              model.size()))
      return;
    g.ck(b->size_bytes() == model.size() * sizeof(V), what, ": size_bytes");
    std::vector<V> v;
    if (g.boolean()) {
      v = b->get();
    } else {
      v.resize(model.size());
      b->get(v);
    }
    for (std::size_t i = 0; i < v.size() && !g.failed; i++)
      if (known[i])
        g.ck(v[i] == model[i], what, ": element ", i, " of ", v.size(), " is ",
             v[i], " expected ", model[i]);
  };
  for (int o = 0, n = (int)g.size(1, 25); o < n && !g.failed; o++) {
    switch (g.draw(5)) {
    case 0: {
      const std::size_t m = g.integer(0, model.size());
      auto v = values(m);
      g.note(what, " set ", m, " of ", model.size());
      b->set(v);
      for (std::size_t i = 0; i < m; i++) {
        model[i] = v[i];
        known[i] = true;
      }
      break;
    }
    case 1:
    case 2: {
      const bool copy = g.boolean();
      const std::size_t m = g.integer(0, 40);
      std::optional<REAL> factor;
      const int fi = (int)g.draw(4);
      if (fi)
        factor = fi == 1 ? 1.0 : fi == 2 ? 2.0 : 1.5;
      const std::size_t old = model.size();
      g.note(what, copy ? " realloc " : " realloc_no_copy ", m, " from ", old,
             " factor ", factor ? *factor : 0.0);
      const int r = copy ? b->realloc(m, factor) : b->realloc_no_copy(m, factor);
      const std::size_t now = b->size;
      if (!g.ck(r == (int)now, what, ": realloc returned ", r, " size ", now) ||
          !g.ck(now >= m, what, ": buffer of ", now, " after a request for ", m))
        break;
      if (!factor || m == 0)
        g.ck(now == std::max(old, m), what, ": size ", now, " after a request for ",
             m, " on ", old);
      else if (m > 0)
        g.ck(now <= std::max(m, (std::size_t)(*factor * (REAL)m)) , what,
             ": size ", now, " beyond ", *factor, " times the request ", m,
             " on ", old);
      if (now != old) {
        (now > old ? grows : shrinks)++;
        model.resize(now);
        known.resize(now, false);
        if (!copy)
          known.assign(now, false);
      }
      check();
      break;
    }
    case 3: {
      // copy to and from another buffer of the same size
      auto v = values(model.size());
      BufferDevice<V> other(T(), v);
      if (g.boolean()) {
        buffer_memcpy(*b, other).wait_and_throw();
        model = v;
        known.assign(v.size(), true);
        other.set(values(v.size()));
      } else {
        buffer_memcpy(other, *b).wait_and_throw();
        auto w = other.get();
        for (std::size_t i = 0; i < w.size(); i++)
          if (known[i])
            g.ck(w[i] == model[i], what, ": copied element ", i);
      }
      break;
    }
    default:
      check();
    }
  }
  if (!g.failed)
    check();
  g.mark(grows > 0);
  if (shrinks)
    g.label("buffer shrinks");
}
void device_host_case(Gen &g) {
  std::size_t n = g.integer(1, 20);
  INT salt = 1;
  std::vector<INT> h(n), d(n);
  std::vector<bool> kh(n, true), kd(n, true);
  for (auto &x : h)
    x = np::ival(salt++, 4, 1);
  d = h;
  BufferDeviceHost<INT> b(T(), h);
  std::size_t cap = n;
  int reallocs = 0;
  for (int o = 0, m = (int)g.size(1, 25); o < m && !g.failed; o++) {
    switch (g.draw(6)) {
    case 0: {
      const std::size_t r = g.integer(1, 40);
      b.realloc_no_copy(r);
      g.ck(b.size == r && b.d_buffer.size >= r && b.h_buffer.size >= r,
           "device host buffer: sizes ", b.size, " ", b.d_buffer.size, " ",
           b.h_buffer.size, " after a request for ", r);
      g.note("device host realloc ", r);
      reallocs++;
      if (r > cap) {
        cap = r;
        kh.assign(r, false);
        kd.assign(r, false);
        h.resize(r);
        d.resize(r);
      }
      n = r;
      break;
    }
    case 1:
      for (std::size_t i = 0; i < n; i++) {
        h[i] = np::ival(salt++, 4, 1);
        kh[i] = true;
        b.h_buffer.ptr[i] = h[i];
      }
      break;
    case 2: {
      std::optional<std::size_t> c;
      if (g.boolean())
        c = g.integer(0, n);
      g.note("host to device ", c ? (int)*c : -1);
      if (c)
        b.host_to_device(c);
      else if (g.boolean())
        b.host_to_device();
      else
        b.async_host_to_device().wait_and_throw();
      for (std::size_t i = 0; i < c.value_or(n); i++) {
        d[i] = h[i];
        kd[i] = kh[i];
      }
      break;
    }
    case 3: {
      std::optional<std::size_t> c;
      if (g.boolean())
        c = g.integer(0, n);
      g.note("device to host ", c ? (int)*c : -1);
      if (c)
        b.device_to_host(c);
      else if (g.boolean())
        b.device_to_host();
      else
        b.async_device_to_host().wait_and_throw();
      for (std::size_t i = 0; i < c.value_or(n); i++) {
        h[i] = d[i];
        kh[i] = kd[i];
      }
      break;
    }
    case 4: {
      auto v = b.d_buffer.get();
      for (std::size_t i = 0; i < n; i++)
        if (kd[i])
          g.ck(v.at(i) == d[i], "device host buffer: device element ", i);
      break;
    }
    default:
      for (std::size_t i = 0; i < n; i++)
        if (kh[i])
          g.ck(b.h_buffer.ptr[i] == h[i], "device host buffer: host element ", i);
    }
  }
  g.mark(reallocs > 0);
}
void do_buffer(Gen &g) {
  switch (g.draw(4)) {
  case 0:
    return buffer_case<BufferDevice<INT>>(g, "BufferDevice");
  case 1:
    return buffer_case<BufferHost<INT>>(g, "BufferHost");
  case 2:
    return buffer_case<BufferShared<INT>>(g, "BufferShared");
  default:
    return device_host_case(g);
  }
}

// -------------------------------------------------------------------- CellDat
template <typename V> V val(INT n) {
  if constexpr (std::is_same_v<V, REAL>)
    return np::rval(n, 5, 2);
  else
    return (V)np::ival(n, 5, 2);
}
template <typename V> using Mat = std::vector<std::vector<V>>; // [col][row]

template <typename V> void cell_dat_case(Gen &g) {
  const int ncell = (int)g.integer(1, 6), ncol = (int)g.integer(1, 4);
  CellDat<V> cd(T(), ncell, ncol);
  INT salt = 1;
  std::vector<INT> nrow(ncell, 0);
  std::vector<Mat<V>> m(ncell, Mat<V>(ncol));
  std::vector<std::vector<char>> known(ncell); // per row
  int grew = 0, shrank = 0;
  auto mat = [&](CellDataT<V> &c, INT cell) {
    for (int k = 0; k < ncol; k++)
      for (INT r = 0; r < nrow[cell]; r++)
        if (known[cell][r] &&
            !g.ck(c.at(r, k) == m[cell][k][r] && c[k][r] == m[cell][k][r],
                  "CellDat: cell ", cell, " row ", r, " of ", nrow[cell],
                  " column ", k, " is ", c.at(r, k), " expected ",
                  m[cell][k][r]))
          return;
  };
  auto check_rows = [&] {
    for (int c = 0; c < ncell; c++)
      g.ck(cd.nrow[c] == nrow[c], "CellDat: cell ", c, " has ", cd.nrow[c],
           " rows expected ", nrow[c]);
    const int mx = (int)*std::max_element(nrow.begin(), nrow.end());
    const int mn = (int)*std::min_element(nrow.begin(), nrow.end());
    const bool first = g.boolean();
    if (first)
      g.ck(cd.get_nrow_min() == mn, "CellDat: smallest row count reported as ",
           cd.get_nrow_min(), " expected ", mn);
    g.ck(cd.get_nrow_max() == mx, "CellDat: largest row count reported as ",
         cd.get_nrow_max(), " expected ", mx);
    g.ck(cd.get_nrow_min() == mn, "CellDat: smallest row count reported as ",
         cd.get_nrow_min(), " expected ", mn);
  };
  // rows of CellData passed to the asynchronous calls
  auto fill = [&](CellDataT<V> &c, int cell) {
    for (int k = 0; k < c.ncol; k++)
      for (int r = 0; r < c.nrow; r++) {
        c.at(r, k) = val<V>(salt++);
        if (k < ncol && r < nrow[cell])
          m[cell][k][r] = c.at(r, k);
      }
    for (INT r = 0; r < nrow[cell]; r++)
      known[cell][r] = 1;
  };
  auto cells_subset = [&] {
    std::vector<int> s;
    for (int c = 0; c < ncell; c++)
      if (g.boolean())
        s.push_back(c);
    return s;
  };
  for (int o = 0, n = (int)g.size(1, 30); o < n && !g.failed; o++) {
    const int cell = (int)g.integer(0, ncell - 1);
    switch (g.weighted({4, 2, 3, 2, 2, 2, 2, 1, 2})) {
    case 0: { // resize a set of cells and wait once
      auto s = cells_subset();
      for (int c : s) {
        const INT r = g.size(0, 60);
        g.note("set_nrow ", c, " ", nrow[c], " -> ", r);
        if (r > nrow[c])
          grew++;
        else if (r < nrow[c])
          shrank++;
        cd.set_nrow(c, r);
        nrow[c] = r;
        for (auto &col : m[c])
          col.resize(r);
        known[c].resize(r, 0);
      }
      cd.wait_set_nrow();
      check_rows();
      break;
    }
    case 1: { // reduce
      std::vector<int> r32(ncell);
      std::vector<INT> r64(ncell);
      for (int c = 0; c < ncell; c++) {
        const INT r = g.chance(1, 2) ? g.integer(0, nrow[c]) : nrow[c];
        shrank += r < nrow[c];
        r32[c] = (int)r;
        r64[c] = r;
        nrow[c] = r;
        for (auto &col : m[c])
          col.resize(r);
        known[c].resize(r, 0);
      }
      g.note("reduce_nrow");
      if (g.boolean())
        cd.reduce_nrow(r32.data());
      else
        cd.reduce_nrow(r64.data());
      check_rows();
      break;
    }
    case 2: {
      auto c = std::make_shared<CellDataT<V>>(
          T(), (int)nrow[cell] + (int)g.draw(3), ncol + (int)g.draw(2));
      fill(*c, cell);
      g.note("set_cell ", cell);
      cd.set_cell(cell, c);
      break;
    }
    case 3: { // many cells asynchronously
      auto s = cells_subset();
      std::vector<std::unique_ptr<CellDataT<V>>> cs;
      EventStack es;
      for (int c : s) {
        cs.push_back(std::make_unique<CellDataT<V>>(
            T(), (int)nrow[c] + (int)g.draw(3), ncol + (int)g.draw(2)));
        fill(*cs.back(), c);
        cd.set_cell_async(c, *cs.back(), es);
      }
      es.wait();
      break;
    }
    case 4: {
      auto s = cells_subset();
      std::vector<std::unique_ptr<CellDataT<V>>> cs;
      EventStack es;
      for (int c : s) {
        cs.push_back(std::make_unique<CellDataT<V>>(
            T(), (int)nrow[c] + (int)g.draw(3), ncol + (int)g.draw(2)));
        cd.get_cell_async(c, *cs.back(), es);
      }
      es.wait();
      for (std::size_t i = 0; i < s.size(); i++)
        mat(*cs[i], s[i]);
      break;
    }
    case 5: {
      if (!nrow[cell])
        break;
      const int r = (int)g.integer(0, nrow[cell] - 1),
                k = (int)g.integer(0, ncol - 1);
      const V v = val<V>(salt++);
      g.note("set_value ", cell, " ", r, " ", k);
      cd.set_value(cell, r, k, v);
      m[cell][k][r] = v;
      break;
    }
    case 6: {
      if (!nrow[cell])
        break;
      const int r = (int)g.integer(0, nrow[cell] - 1),
                k = (int)g.integer(0, ncol - 1);
      const V v = cd.get_value(cell, r, k);
      if (known[cell][r])
        g.ck(v == m[cell][k][r], "CellDat: get_value of cell ", cell, " row ", r,
             " column ", k, " returned ", v, " expected ", m[cell][k][r]);
      break;
    }
    case 7: { // through the device pointers
      auto p = cd.device_ptr();
      std::vector<INT> nr(nrow);
      BufferDevice<INT> dn(T(), nr);
      auto pn = dn.ptr;
      const int nc = ncol;
      T()->queue
          .parallel_for(sycl::range<1>(ncell),
                        [=](sycl::id<1> c) {
                          for (int k = 0; k < nc; k++)
                            for (INT r = 0; r < pn[c]; r++)
                              p[c][k][r] += (V)(1 + k + r);
                        })
          .wait_and_throw();
      for (int c = 0; c < ncell; c++)
        for (int k = 0; k < ncol; k++)
          for (INT r = 0; r < nrow[c]; r++)
            m[c][k][r] += (V)(1 + k + r);
      break;
    }
    default: {
      auto c = cd.get_cell(cell);
      if (g.ck(c->nrow == nrow[cell] && c->ncol == ncol,
               "CellDat: shape of a fetched cell"))
        mat(*c, cell);
    }
    }
  }
  if (!g.failed) {
    check_rows();
    for (int c = 0; c < ncell; c++)
      mat(*cd.get_cell(c), c);
  }
  g.mark(grew > 1 && shrank > 0);
}

template <typename V> void cell_dat_const_case(Gen &g) {
  const int ncell = (int)g.integer(1, 6), nr = (int)g.integer(0, 5),
            nc = (int)g.integer(nr == 0 ? 0 : 1, 4);
  CellDatConst<V> cd(T(), ncell, nr, nc);
  INT salt = 1;
  std::vector<Mat<V>> m(ncell, Mat<V>(nc, std::vector<V>(nr, 0)));
  auto mat = [&](CellDataT<V> &c, int cell) {
    if (!g.ck(c.nrow == nr && c.ncol == nc, "CellDatConst: shape"))
      return;
    for (int k = 0; k < nc; k++)
      for (int r = 0; r < nr; r++)
        g.ck(c.at(r, k) == m[cell][k][r], "CellDatConst: cell ", cell, " row ", r,
             " of ", nr, " column ", k, " of ", nc, " is ", c.at(r, k),
             " expected ", m[cell][k][r]);
  };
  int sets = 0;
  for (int o = 0, n = (int)g.size(1, 25); o < n && !g.failed; o++) {
    const int cell = (int)g.integer(0, ncell - 1);
    const bool empty = nr * nc == 0;
    switch (g.draw(8)) {
    case 0: {
      const V v = val<V>(salt++);
      cd.fill(v);
      for (auto &x : m)
        for (auto &c : x)
          std::fill(c.begin(), c.end(), v);
      break;
    }
    case 1: {
      auto c = std::make_shared<CellDataT<V>>(T(), nr + (int)g.draw(3),
                                              nc + (int)g.draw(2));
      for (int k = 0; k < c->ncol; k++)
        for (int r = 0; r < c->nrow; r++) {
          c->at(r, k) = val<V>(salt++);
          if (k < nc && r < nr)
            m[cell][k][r] = c->at(r, k);
        }
      cd.set_cell(cell, c);
      sets++;
      break;
    }
    case 2: {
      if (empty)
        break;
      std::vector<CellData<V>> cs;
      for (int c = 0; c < ncell; c++) {
        cs.push_back(std::make_shared<CellDataT<V>>(T(), nr, nc));
        for (int k = 0; k < nc; k++)
          for (int r = 0; r < nr; r++)
            m[c][k][r] = cs[c]->at(r, k) = val<V>(salt++);
      }
      cd.set_all_cells(cs);
      sets++;
      break;
    }
    case 3:
    case 4: {
      if (empty)
        break;
      const int r = (int)g.integer(0, nr - 1), k = (int)g.integer(0, nc - 1);
      const V v = val<V>(salt++);
      cd.set_value(cell, r, k, v);
      m[cell][k][r] = v;
      g.ck(cd.get_value(cell, r, k) == v, "CellDatConst: value just set");
      sets++;
      break;
    }
    case 5: {
      if (empty)
        break;
      const int r = (int)g.integer(0, nr - 1), k = (int)g.integer(0, nc - 1);
      g.ck(cd.get_value(cell, r, k) == m[cell][k][r],
           "CellDatConst: get_value of cell ", cell, " row ", r, " column ", k);
      V v;
      T()->queue.memcpy(&v, cd.device_ptr() + cd.idx(cell, r, k), sizeof(V))
          .wait_and_throw();
      g.ck(v == m[cell][k][r], "CellDatConst: element at idx(", cell, ",", r,
           ",", k, ") is ", v, " expected ", m[cell][k][r]);
      break;
    }
    case 6: {
      auto cs = cd.get_all_cells();
      if (g.ck((int)cs.size() == ncell, "CellDatConst: number of cells"))
        for (int c = 0; c < ncell; c++)
          mat(*cs[c], c);
      break;
    }
    default:
      mat(*cd.get_cell(cell), cell);
    }
  }
  for (int c = 0; c < ncell && !g.failed; c++)
    mat(*cd.get_cell(c), c);
  g.mark(sets > 1 && nr > 1 && nc > 1 && ncell > 1);
}
void do_cells(Gen &g) {
  switch (g.draw(5)) {
  case 0:
    return cell_dat_case<REAL>(g);
  case 1:
    return cell_dat_case<INT>(g);
  case 2:
    return cell_dat_const_case<REAL>(g);
  case 3:
    return cell_dat_const_case<INT>(g);
  default:
    return cell_dat_const_case<int>(g);
  }
}

// ------------------------------------------------------------------ ND arrays
template <std::size_t N, std::size_t... I>
INT lin(const NDIndex<N> &ix, const std::array<int, N> &p,
        std::index_sequence<I...>) {
  return ix.get_linear_index(p[I]...);
}
template <std::size_t N, std::size_t... I>
NDLocalArray<INT, N> mk(const std::array<int, N> &s, std::index_sequence<I...>) {
  return NDLocalArray<INT, N>(T(), s[I]...);
}
template <std::size_t N> void nd_case(Gen &g) {
  std::array<int, N> s;
  INT total = 1;
  for (auto &x : s) {
    x = (int)g.integer(1, N > 3 ? 4 : 6);
    total *= x;
  }
  constexpr auto seq = std::make_index_sequence<N>{};
  auto a = mk<N>(s, seq);
  g.ck(a.index.size() == total, "NDIndex: size ", a.index.size(), " expected ",
       total);
  for (std::size_t d = 0; d < N; d++)
    g.ck(a.index.shape[d] == s[d], "NDIndex: shape");
  // row major, last index fastest, each tuple its own element
  std::array<int, N> p{};
  for (INT i = 0; i < total && !g.failed; i++) {
    g.ck(lin<N>(a.index, p, seq) == i, "NDIndex: element ", i, " of ", total,
         " is at ", lin<N>(a.index, p, seq));
    for (int d = N - 1; d >= 0; d--) {
      if (++p[d] < s[d])
        break;
      p[d] = 0;
    }
  }
  std::vector<INT> model(total, 0);
  INT salt = 1;
  for (int o = 0, n = (int)g.size(1, 8); o < n && !g.failed; o++) {
    switch (g.draw(3)) {
    case 0: {
      const INT v = np::ival(salt++, 1, 1);
      a.fill(v);
      std::fill(model.begin(), model.end(), v);
      break;
    }
    case 1:
      for (auto &x : model)
        x = np::ival(salt++, 1, 1);
      a.set(model);
      break;
    default: {
      // a copy is another handle on the same elements
      NDLocalArray<INT, N> b = a;
      auto v = g.boolean() ? b.get() : a.get();
      g.ck(v == model, "NDLocalArray: content ", np::str(v), " expected ",
           np::str(model));
    }
    }
  }
  g.ck(a.get() == model, "NDLocalArray: final content");
  int wide = 0;
  for (int x : s)
    wide += x > 1;
  g.mark(wide >= 2);
}

// --------------------------------------------------------------- local arrays
template <template <typename> typename A> void array_case(Gen &g, const char *w) {
  std::size_t n = g.integer(1, 20);
  INT salt = 1;
  std::vector<INT> m(n);
  for (auto &x : m)
    x = np::ival(salt++, 2, 1);
  auto a = std::make_shared<A<INT>>(T(), n);
  g.ck(a->get() == std::vector<INT>(n, 0), w, ": initial values");
  std::fill(m.begin(), m.end(), 0);
  bool known = true;
  int changes = 0;
  for (int o = 0, k = (int)g.size(1, 15); o < k && !g.failed; o++) {
    switch (g.draw(4)) {
    case 0: {
      const INT v = np::ival(salt++, 2, 1);
      a->fill(v);
      std::fill(m.begin(), m.end(), v);
      known = true;
      changes++;
      break;
    }
    case 1:
      if constexpr (std::is_same_v<A<INT>, LocalArray<INT>>) {
        for (auto &x : m)
          x = np::ival(salt++, 2, 1);
        a->set(m);
        known = true;
        changes++;
      }
      break;
    case 2:
      if constexpr (std::is_same_v<A<INT>, LocalArray<INT>>) {
        const std::size_t r = g.integer(1, 30);
        a->realloc_no_copy(r);
        g.ck(a->size == r, w, ": size after a reallocation");
        n = r;
        m.assign(n, 0);
        known = false;
        changes++;
        g.label("array resized");
      }
      break;
    default:
      if (known) {
        auto v = a->get();
        g.ck(v == m, w, ": content ", np::str(v), " expected ", np::str(m));
      }
    }
  }
  if (known)
    g.ck(a->get() == m, w, ": final content");
  g.mark(changes > 1);
}
void do_nd(Gen &g) {
  switch (g.draw(6)) {
  case 0:
    return nd_case<1>(g);
  case 1:
    return nd_case<2>(g);
  case 2:
    return nd_case<3>(g);
  case 3:
    return nd_case<4>(g);
  case 4:
    return array_case<LocalArray>(g, "LocalArray");
  default:
    return array_case<GlobalArray>(g, "GlobalArray");
  }
}

// ----------------------------------------------------------------- set & spec
struct Prop {
  std::string name;
  bool real;
  int ncomp;
};
std::vector<Prop> props(Gen &g, int lo, int hi) {
  std::vector<Prop> v;
  static const char *names[] = {"A", "B", "C", "D", "E", "F", "AA", "P"};
  std::vector<int> pool{0, 1, 2, 3, 4, 5, 6, 7};
  const int n = (int)g.integer(lo, hi);
  for (int i = 0; i < n; i++) {
    const int k = (int)g.draw(pool.size());
    v.push_back({names[pool[k]], g.boolean(), (int)g.integer(1, 4)});
    pool.erase(pool.begin() + k);
  }
  return v;
}
ParticleSpec spec_of(const std::vector<Prop> &v) {
  ParticleSpec s;
  for (auto &p : v)
    if (p.real)
      s.push(ParticleProp(Sym<REAL>(p.name), p.ncomp));
    else
      s.push(ParticleProp(Sym<INT>(p.name), p.ncomp));
  return s;
}
// model values per property: [component][particle]
struct SetModel {
  std::map<std::string, Mat<REAL>> r;
  std::map<std::string, Mat<INT>> i;
};
SetModel zero(const std::vector<Prop> &v, int n) {
  SetModel m;
  for (auto &p : v)
    if (p.real)
      m.r[p.name] = Mat<REAL>(p.ncomp, std::vector<REAL>(n, 0));
    else
      m.i[p.name] = Mat<INT>(p.ncomp, std::vector<INT>(n, 0));
  return m;
}
void check_set(Gen &g, ParticleSet &s, const std::vector<Prop> &v, SetModel &m,
               int n, const char *what) {
  g.ck(s.npart == n, what, ": number of particles");
  for (auto &p : v) {
    g.ck(s.contains(Sym<REAL>(p.name)) == p.real &&
             s.contains(Sym<INT>(p.name)) == !p.real,
         what, ": contains ", p.name);
    if (g.failed)
      return;
    for (int c = 0; c < p.ncomp; c++)
      for (int i = 0; i < n; i++) {
        bool ok;
        if (p.real) {
          const REAL want = m.r[p.name][c][i];
          ok = s.at(Sym<REAL>(p.name), i, c) == want &&
               s[Sym<REAL>(p.name)][i][c] == want &&
               s.get(Sym<REAL>(p.name)).at(c * n + i) == want;
        } else {
          const INT want = m.i[p.name][c][i];
          ok = s.at(Sym<INT>(p.name), i, c) == want &&
               s[Sym<INT>(p.name)][i][c] == want &&
               s.get(Sym<INT>(p.name)).at(c * n + i) == want;
        }
        if (!g.ck(ok, what, ": property ", p.name, " component ", c, " of ",
                  p.ncomp, " particle ", i, " of ", n, " has a wrong value"))
          return;
      }
  }
}
void set_case(Gen &g) {
  auto v = props(g, 1, 5);
  const int n = (int)g.size(0, 12);
  ParticleSet s(n, spec_of(v));
  auto m = zero(v, n);
  INT salt = 1;
  check_set(g, s, v, m, n, "new particle set");
  int writes = 0;
  for (int o = 0, k = (int)g.size(1, 20); o < k && !g.failed; o++) {
    auto &p = v[g.draw(v.size())];
    const int c = (int)g.integer(0, p.ncomp - 1);
    switch (g.draw(4)) {
    case 0:
      if (p.real) {
        std::vector<REAL> x(n);
        for (auto &y : x)
          y = val<REAL>(salt++);
        s.set(Sym<REAL>(p.name), c, x);
        m.r[p.name][c] = x;
      } else {
        std::vector<INT> x(n);
        for (auto &y : x)
          y = val<INT>(salt++);
        s.set(Sym<INT>(p.name), c, x);
        m.i[p.name][c] = x;
      }
      writes++;
      break;
    case 1:
    case 2: {
      if (!n)
        break;
      const int i = (int)g.integer(0, n - 1);
      const bool br = g.boolean();
      if (p.real) {
        const REAL x = val<REAL>(salt++);
        if (br)
          s[Sym<REAL>(p.name)][i][c] = x;
        else
          s.at(Sym<REAL>(p.name), i, c) = x;
        m.r[p.name][c][i] = x;
      } else {
        const INT x = val<INT>(salt++);
        if (br)
          s[Sym<INT>(p.name)][i][c] = x;
        else
          s.at(Sym<INT>(p.name), i, c) = x;
        m.i[p.name][c][i] = x;
      }
      writes++;
      break;
    }
    default: {
      // another set: values of the properties in both are copied
      std::vector<Prop> w;
      for (auto &q : v)
        if (g.boolean())
          w.push_back(q);
      w.push_back({"ZZ", g.boolean(), 2});
      auto o2 = std::make_shared<ParticleSet>(n, spec_of(w));
      for (auto &q : w)
        for (int cc = 0; cc < q.ncomp; cc++)
          for (int i = 0; i < n; i++) {
            if (q.real) {
              const REAL x = val<REAL>(salt++);
              o2->at(Sym<REAL>(q.name), i, cc) = x;
              if (q.name != "ZZ")
                m.r[q.name][cc][i] = x;
            } else {
              const INT x = val<INT>(salt++);
              o2->at(Sym<INT>(q.name), i, cc) = x;
              if (q.name != "ZZ")
                m.i[q.name][cc][i] = x;
            }
          }
      if (g.boolean())
        s.set(o2);
      else
        s.set(*o2);
      g.ck(!s.contains(Sym<REAL>("ZZ")) && !s.contains(Sym<INT>("ZZ")),
           "particle set: gained a property of another set");
      g.ck(s.get(Sym<REAL>("ZZ")).empty() && s.get(Sym<INT>("ZZ")).empty(),
           "particle set: values of an absent property");
      writes++;
    }
    }
    check_set(g, s, v, m, n, "particle set");
  }
  g.mark(writes > 1 && n > 1 && v.size() > 1);
}
// ParticleSetDevice / ProductMatrix / DescendantProducts on the host side.
void matrix_case(Gen &g) {
  auto v = props(g, 1, 5);
  auto ps = spec_of(v);
  auto sp = product_matrix_spec(ps);
  std::map<std::pair<std::string, int>, INT> def;
  for (int i = 0, n = (int)g.draw(5); i < n; i++) {
    auto &p = v[g.draw(v.size())];
    const int c = (int)g.integer(0, p.ncomp - 1);
    const INT d = g.integer(-50, 50);
    def[{p.name, c}] = d;
    if (p.real)
      sp->set_default_value(Sym<REAL>(p.name), c, (REAL)d);
    else
      sp->set_default_value(Sym<INT>(p.name), c, d);
  }
  for (auto &p : v) {
    const int nr = p.real ? sp->get_num_components(Sym<REAL>(p.name))
                          : sp->get_num_components(Sym<INT>(p.name));
    g.ck(nr == p.ncomp, "product matrix: components of ", p.name);
    g.ck((p.real ? sp->get_sym_index(Sym<INT>(p.name))
                 : sp->get_sym_index(Sym<REAL>(p.name))) == -1,
         "product matrix: index of an absent property");
  }
  const int kind = (int)g.draw(3);
  const int nper = kind == 2 ? (int)g.integer(1, 3) : 1;
  std::shared_ptr<ParticleSetDevice> pm;
  if (kind == 0)
    pm = std::make_shared<ParticleSetDevice>(T(), sp);
  else if (kind == 1)
    pm = product_matrix(T(), sp);
  else
    pm = std::make_shared<DescendantProducts>(T(), sp, nper);
  INT salt = 1;
  int n = 0, resets = 0;
  auto m = zero(v, 0);
  for (int o = 0, k = (int)g.size(1, 10); o < k && !g.failed; o++) {
    switch (g.draw(3)) {
    case 0: {
      const int parents = (int)g.size(0, 20);
      pm->reset(parents);
      n = parents * nper;
      m = zero(v, n);
      for (auto &d : def) {
        for (auto &p : v)
          if (p.name == d.first.first) {
            if (p.real)
              std::fill(m.r[p.name][d.first.second].begin(),
                        m.r[p.name][d.first.second].end(), (REAL)d.second);
            else
              std::fill(m.i[p.name][d.first.second].begin(),
                        m.i[p.name][d.first.second].end(), d.second);
          }
      }
      g.note("reset ", n);
      resets += n > 0;
      break;
    }
    case 1: {
      // the set may hold only some of the properties
      auto s = std::make_shared<ParticleSet>(n, ps);
      for (auto &p : v)
        for (int c = 0; c < p.ncomp; c++)
          for (int i = 0; i < n; i++)
            if (p.real)
              m.r[p.name][c][i] = s->at(Sym<REAL>(p.name), i, c) =
                  val<REAL>(salt++);
            else
              m.i[p.name][c][i] = s->at(Sym<INT>(p.name), i, c) =
                  val<INT>(salt++);
      g.note("set ", n);
      pm->set(s);
      break;
    }
    default: {
      auto s = pm->get();
      check_set(g, *s, v, m, n, "product matrix");
    }
    }
    g.ck(pm->num_particles == n, "product matrix: number of rows");
  }
  if (!g.failed)
    check_set(g, *pm->get(), v, m, n, "product matrix at the end");
  g.mark(resets > 0 && v.size() > 1);
}
void spec_case(Gen &g) {
  auto v = props(g, 1, 6);
  auto s = spec_of(v);
  for (int o = 0, k = (int)g.size(1, 12); o < k && !g.failed; o++) {
    switch (g.draw(4)) {
    case 0: {
      if (v.empty())
        break;
      const int i = (int)g.draw(v.size());
      auto p = v[i];
      if (p.real)
        s.remove(ParticleProp(Sym<REAL>(p.name), p.ncomp));
      else
        s.remove(ParticleProp(Sym<INT>(p.name), p.ncomp));
      v.erase(v.begin() + i);
      break;
    }
    case 1: {
      auto extra = props(g, 1, 1)[0];
      bool has = false;
      for (auto &p : v)
        has = has || p.name == extra.name;
      if (has)
        break;
      if (extra.real)
        s.push(ParticleProp(Sym<REAL>(extra.name), extra.ncomp));
      else
        s.push(ParticleProp(Sym<INT>(extra.name), extra.ncomp));
      v.push_back(extra);
      break;
    }
    case 2: {
      auto w = props(g, 0, 3);
      bool all = true;
      for (auto &q : w) {
        bool in = false;
        for (auto &p : v)
          in = in || (p.name == q.name && p.real == q.real && p.ncomp == q.ncomp);
        all = all && in;
        const bool c = q.real
                           ? s.contains(ParticleProp(Sym<REAL>(q.name), q.ncomp))
                           : s.contains(ParticleProp(Sym<INT>(q.name), q.ncomp));
        g.ck(c == in, "particle spec: contains ", q.name, " returned ", c);
      }
      auto ws = spec_of(w);
      g.ck(s.contains(ws) == all, "particle spec: contains a spec");
      break;
    }
    default: {
      // the subset of a spec is contained in it
      std::vector<Prop> w;
      for (auto &p : v)
        if (g.boolean())
          w.push_back(p);
      auto ws = spec_of(w);
      g.ck(s.contains(ws), "particle spec: does not contain its own subset");
    }
    }
    int mr = 0, mi = 0;
    for (auto &p : v)
      (p.real ? mr : mi) = std::max(p.real ? mr : mi, p.ncomp);
    g.ck(s.get_max_ncomp_real() == mr && s.get_max_ncomp_int() == mi,
         "particle spec: largest component counts ", s.get_max_ncomp_real(), " ",
         s.get_max_ncomp_int(), " expected ", mr, " ", mi);
    std::vector<std::string> want_r, want_i, got_r, got_i;
    for (auto &p : v)
      (p.real ? want_r : want_i).push_back(p.name);
    for (auto &p : s.properties_real)
      got_r.push_back(p.name);
    for (auto &p : s.properties_int)
      got_i.push_back(p.name);
    g.ck(want_r == got_r && want_i == got_i,
         "particle spec: list of properties or its order");
  }
  g.mark(v.size() > 1);
}
void do_set(Gen &g) {
  switch (g.draw(5)) {
  case 0:
  case 1:
    return set_case(g);
  case 2:
  case 3:
    return matrix_case(g);
  default:
    return spec_case(g);
  }
}

// ---------------------------------------------------------------------- tuple
struct Count {
  std::vector<INT> seen;
};
void tuple_case(Gen &g) {
  const int a = (int)g.integer(-1000, 1000);
  const REAL b = np::rval(g.integer(0, 1000), 1, 1);
  const INT c = g.integer(-1000, 1000);
  const char d = (char)g.integer(1, 100);
  const int e = (int)g.integer(-1000, 1000);
  auto t = Tuple::to_tuple(a, b, c, d, e);
  auto check = [&](int A, REAL B, INT C, char D, int E, const char *w) {
    const auto &ct = t;
    g.ck(Tuple::get<0>(t) == A && Tuple::get<1>(t) == B && Tuple::get<2>(t) == C &&
             Tuple::get<3>(t) == D && Tuple::get<4>(t) == E,
         "tuple ", w, ": ", Tuple::get<0>(t), " ", Tuple::get<1>(t), " ",
         Tuple::get<2>(t), " ", (int)Tuple::get<3>(t), " ", Tuple::get<4>(t));
    g.ck(Tuple::get<0>(ct) == A && Tuple::get<1>(ct) == B &&
             Tuple::get<2>(ct) == C && Tuple::get<3>(ct) == D &&
             Tuple::get<4>(ct) == E,
         "const tuple ", w);
  };
  check(a, b, c, d, e, "after construction");
  const int e2 = e + 1;
  Tuple::get<4>(t) = e2;
  check(a, b, c, d, e2, "after setting the last");
  Tuple::get<0>(t) = a - 7;
  check(a - 7, b, c, d, e2, "after setting the first");
  Tuple::get<2>(t) += 5;
  check(a - 7, b, c + 5, d, e2, "after setting a middle one");
  auto all = Tuple::apply(
      [&](int A, REAL B, INT C, char D, int E) {
        return A == a - 7 && B == b && C == c + 5 && D == d && E == e2;
      },
      t);
  g.ck(all, "tuple apply passed wrong arguments");
  auto first3 = Tuple::apply_truncated<3>(
      [&](int &A, REAL &B, INT &C) {
        const bool ok = A == a - 7 && B == b && C == c + 5;
        C += 1;
        return ok;
      },
      t);
  g.ck(first3, "tuple apply_truncated passed wrong arguments");
  check(a - 7, b, c + 6, d, e2, "after a call by reference");
  g.ck(Tuple::get_last_arg(a, b, c) == c && Tuple::get_last_arg(b, a) == a &&
           Tuple::get_last_arg(b) == b,
       "get_last_arg");
  // device copy
  BufferDevice<REAL> out(T(), 5);
  auto p = out.ptr;
  auto tt = t;
  T()->queue
      .submit([&](sycl::handler &cgh) {
        cgh.single_task<>([=]() {
          auto u = tt;
          p[0] = Tuple::get<0>(u);
          p[1] = Tuple::get<1>(u);
          p[2] = (REAL)Tuple::get<2>(u);
          p[3] = Tuple::get<3>(u);
          p[4] = Tuple::get<4>(u);
        });
      })
      .wait_and_throw();
  g.ck(out.get() == std::vector<REAL>{(REAL)(a - 7), b, (REAL)(c + 6), (REAL)d,
                                      (REAL)e2},
       "tuple copied to a kernel");
  g.mark();
}

// ------------------------------------------------------------ resource stacks
struct Item {
  int id;
  int dirty{0};
  bool freed{false};
  explicit Item(int i) : id(i) {}
};
struct ItemLog {
  int made{0}, cleaned{0}, freed{0};
};
struct ItemInterface : ResourceStackInterface<Item> {
  std::shared_ptr<ItemLog> log;
  ItemInterface(std::shared_ptr<ItemLog> log) : log(log) {}
  std::shared_ptr<Item> construct() override {
    return std::make_shared<Item>(log->made++);
  }
  void free(std::shared_ptr<Item> &i) override {
    log->freed++;
    i->freed = true;
  }
  void clean(std::shared_ptr<Item> &i) override {
    log->cleaned++;
    i->dirty = 0;
  }
};
struct KeyA {};
struct KeyB {};

void stack_case(Gen &g) {
  auto la = std::make_shared<ItemLog>(), lb = std::make_shared<ItemLog>();
  auto rsm = std::make_shared<ResourceStackMap>();
  std::vector<std::shared_ptr<Item>> held[2];
  std::set<int> ids[2];
  std::vector<int> freelist[2];
  int restored[2] = {0, 0};
  std::size_t peak[2] = {0, 0};
  int frees = 0, freed_want[2] = {0, 0}, pool[2] = {0, 0};
  bool used[2] = {false, false};
  for (int o = 0, k = (int)g.size(1, 40); o < k && !g.failed; o++) {
    const int w = (int)g.draw(2);
    auto &log = w ? *lb : *la;
    switch (g.weighted({4, 3, 1})) {
    case 0: {
      auto item = w ? get_resource<Item, ItemInterface>(rsm, KeyB{}, lb)
                    : get_resource<Item, ItemInterface>(rsm, KeyA{}, la);
      used[w] = true;
      g.note("get ", w, " -> ", item->id);
      g.ck(item->dirty == 0, "resource stack: handed out an object which was "
                             "not cleaned");
      g.ck(!item->freed, "resource stack: handed out a freed object");
      g.ck(ids[w].insert(item->id).second, "resource stack: object ", item->id,
           " handed out twice");
      item->dirty = 1;
      held[w].push_back(item);
      pool[w] = std::max<int>(pool[w], (int)held[w].size());
      peak[w] = std::max(peak[w], held[w].size());
      break;
    }
    case 1: {
      if (held[w].empty())
        break;
      const std::size_t i = g.draw(held[w].size());
      auto item = held[w][i];
      held[w].erase(held[w].begin() + i);
      ids[w].erase(item->id);
      g.note("restore ", w, " ", item->id);
      if (w)
        restore_resource(rsm, KeyB{}, item);
      else
        restore_resource(rsm, KeyA{}, item);
      restored[w]++;
      g.ck(item == nullptr, "resource stack: pointer kept after restore");
      break;
    }
    default: {
      if (!held[0].empty() || !held[1].empty())
        break;
      g.note("free");
      rsm->free();
      for (int x : {0, 1}) {
        freed_want[x] += used[x] ? pool[x] : 0;
        pool[x] = 0;
        used[x] = false;
      }
      g.ck(!rsm->exists(KeyA{}) && !rsm->exists(KeyB{}),
           "resource stack map: stacks kept after free");
      frees++;
    }
    }
    g.ck(rsm->exists(KeyA{}) == used[0] && rsm->exists(KeyB{}) == used[1],
         "resource stack map: exists");
    g.ck(log.cleaned == restored[w], "resource stack: ", log.cleaned,
         " objects cleaned expected ", restored[w]);
    for (int x : {0, 1}) {
      auto &l = x ? *lb : *la;
      // objects are reused: as many as were ever held at one time
      g.ck(l.made == freed_want[x] + pool[x], "resource stack: ", l.made,
           " objects made, at most ", pool[x], " held at a time since ",
           freed_want[x], " were freed");
      g.ck(l.freed == freed_want[x], "resource stack: ", l.freed,
           " objects freed expected ", freed_want[x]);
    }
  }
  for (int w : {0, 1})
    for (auto &i : held[w]) {
      if (w)
        restore_resource(rsm, KeyB{}, i);
      else
        restore_resource(rsm, KeyA{}, i);
    }
  rsm->free();
  g.ck(la->freed == la->made && lb->freed == lb->made,
       "resource stack: not every object was freed");
  g.mark(peak[0] + peak[1] > 1 && restored[0] + restored[1] > 1);
  if (frees)
    g.label("stack freed and reused");
}

void prop(Gen &g) {
  target();
  switch (g.weighted({4, 2, 3, 5, 3, 4, 1, 2})) {
  case 0:
    g.label("tree");
    return do_tree(g);
  case 1:
    g.label("lookup table");
    return do_table(g);
  case 2:
    g.label("buffer");
    return do_buffer(g);
  case 3:
    g.label("cells");
    return do_cells(g);
  case 4:
    g.label("nd array");
    return do_nd(g);
  case 5:
    g.label("set, matrix, spec");
    return do_set(g);
  case 6:
    g.label("tuple");
    return tuple_case(g);
  default:
    g.label("resource stack");
    return stack_case(g);
  }
}
} // namespace
PBT_MAIN("C24", prop)
