// C20: every collective helper gives every rank what its definition says for
// the inputs of all ranks, and completes.
#include "nodes.hpp"
#include "np.hpp"
#include <algorithm>
#include <set>
#include <unistd.h>
using namespace np;

namespace {

struct Ctx {
  Gen &g;
  MPI_Comm comm{MPI_COMM_NULL};
  int n{0}, r{0}; // size and rank in comm
  bool slow{false};
  uint64_t seed{0};
  uint64_t h(uint64_t a, uint64_t b = 0, uint64_t c = 0) const {
    return pbt::hash(seed, a, b, c);
  }
  // Ranks reach the calls at different times.
  void jitter(int op) const {
    if (slow && h(77, op, r) % 3 == 0)
      usleep(200 + h(78, op, r) % 1500);
  }
};

template <typename T> T value(uint64_t x, int mode) {
  if constexpr (std::is_same_v<T, REAL>) {
    switch (mode) {
    case 0: return (REAL)(int64_t)(x % 21) - 10.0;
    case 1: return ((REAL)(x >> 11) * 0x1p-53 - 0.5) * 8.0;
    default: return std::ldexp((REAL)(x >> 11) * 0x1p-53 + 0.5, (int)(x % 1200) - 600) * ((x & 1) ? 1 : -1);
    }
  } else {
    switch (mode) {
    case 0: return (T)((int64_t)(x % 21) - 10);
    case 1: return (T)((int64_t)(x % 2001) - 1000);
    default: return (T)x;
    }
  }
}

// Sizes of the contributions of all ranks.
std::vector<int> gen_sizes(Gen &g, int n, uint64_t s, int max) {
  std::vector<int> o(n);
  const int k = (int)g.draw(5);
  const int who = (int)g.draw(n);
  for (int i = 0; i < n; i++) {
    const int v = (int)(pbt::hash(s, 1, i, 0) % (uint64_t)(max + 1));
    o[i] = k == 0 ? v : k == 1 ? 0 : k == 2 ? (i == who ? v + 1 : 0) : k == 3 ? (i == who ? 0 : v + 1) : (pbt::hash(s, 2, i, 0) & 1) ? v : 0;
  }
  if (k == 1)
    g.label("no contribution at all");
  else if (*std::min_element(o.begin(), o.end()) == 0)
    g.label("some ranks without contribution");
  return o;
}

template <typename T> std::string show(const T &v) {
  std::ostringstream o;
  o.precision(17);
  int k = 0;
  for (auto &x : v) {
    if (k++ > 12) {
      o << "...";
      break;
    }
    o << x << " ";
  }
  return o.str();
}

template <typename T>
void op_gather(Ctx &c, int op, const char *tn) {
  auto &g = c.g;
  const bool all = g.boolean();
  const int root = (int)g.draw(c.n);
  const int mode = (int)g.draw(3);
  const uint64_t s = c.h(1, op);
  auto sz = gen_sizes(g, c.n, s, g.size(0, 40));
  const int stale = (int)g.draw(4) * 7;
  std::vector<T> in, exp, out(stale, (T)99);
  for (int i = 0; i < c.n; i++)
    for (int k = 0; k < sz[i]; k++) {
      exp.push_back(value<T>(pbt::hash(s, 3, i, k), mode));
      if (i == c.r)
        in.push_back(exp.back());
    }
  g.note(all ? "all_gather_v<" : "gather_v<", tn, "> root ", root, " counts ", show(sz));
  const auto in0 = in;
  c.jitter(op);
  if (all)
    all_gather_v(in, c.comm, out);
  else
    gather_v(in, c.comm, root, out);
  g.ck(in == in0, "op ", op, ": input of a gather was altered");
  if (all || c.r == root)
    g.ck(out == exp, "op ", op, ": gathered ", out.size(), " values ", show(out), "; expected ", exp.size(), ": ", show(exp));
  else
    g.ck(out.empty(), "op ", op, ": gather gave ", out.size(), " values on a rank which is not the root");
  g.mark(c.n > 1 && exp.size() > 1);
}

template <typename T>
void op_set(Ctx &c, int op, const char *tn) {
  auto &g = c.g;
  const int kind = (int)g.draw(4);
  const int root = (int)g.draw(c.n);
  const int mode = (int)g.draw(3);
  const uint64_t s = c.h(2, op);
  auto sz = gen_sizes(g, c.n, s, g.size(0, 30));
  std::vector<std::set<T>> in(c.n);
  std::set<T> uni;
  for (int i = 0; i < c.n; i++)
    for (int k = 0; k < sz[i]; k++) {
      auto v = value<T>(pbt::hash(s, 3, i, k), mode);
      in[i].insert(v), uni.insert(v);
    }
  auto mine = in[c.r];
  c.jitter(op);
  std::set<T> out, exp;
  const char *name;
  if (kind == 0) {
    name = "set_bcast";
    out = set_bcast(mine, root, c.comm), exp = in[root];
  } else if (kind == 1) {
    name = "set_reduce_union";
    out = set_reduce_union(mine, root, c.comm);
    if (c.r == root)
      exp = uni;
    if (root != 0)
      g.label("union on a root other than 0");
    if (!is_power_of_two(c.n))
      g.label("union on a number of ranks which is not a power of two");
  } else if (kind == 2) {
    name = "set_all_reduce_union";
    out = set_all_reduce_union(mine, c.comm), exp = uni;
  } else {
    // Around a ring, with a drawn step.
    name = "set_send/set_recv";
    const int step = (int)g.draw(c.n), tag = (int)g.draw(100);
    const int to = (c.r + step) % c.n, from = (c.r - step + c.n) % c.n;
    exp = in[from];
    if (step == 0)
      out = mine;
    else {
      // small sets: the blocking sends are buffered, but do not rely on it.
      const int cycle = c.n / std::gcd(c.n, step);
      int pos = 0; // position on the cycle through this rank
      for (int q = c.r % std::gcd(c.n, step); q != c.r; q = (q + step) % c.n)
        pos++;
      if (cycle % 2 == 1 && pos == 0) {
        // first rank of an odd cycle receives last of all
        set_send(mine, to, tag, c.comm);
        out = set_recv<T>(from, tag, c.comm);
      } else if (pos % 2 == 0) {
        set_send(mine, to, tag, c.comm);
        out = set_recv<T>(from, tag, c.comm);
      } else {
        out = set_recv<T>(from, tag, c.comm);
        set_send(mine, to, tag, c.comm);
      }
    }
  }
  g.note(name, "<", tn, "> root ", root, " counts ", show(sz));
  g.label(name);
  g.ck(mine == in[c.r], "op ", op, ": ", name, " altered its input");
  g.ck(out == exp, "op ", op, ": ", name, "<", tn, "> gave {", show(out), "} expected {", show(exp), "}");
  g.mark(c.n > 1 && uni.size() > 1);
}

struct Graph {
  std::vector<std::vector<int>> out, in; // per rank, in the order of creation
};

// A multigraph: edge k of (a, b) on the sending side is edge k of (a, b) on the
// receiving side.
Graph gen_graph(Ctx &c, int op, MPI_Comm *gc, bool &weighted, std::vector<int> &sw, std::vector<int> &dw) {
  auto &g = c.g;
  Graph G;
  G.out.resize(c.n), G.in.resize(c.n);
  const int kind = (int)g.draw(5);
  const uint64_t s = c.h(3, op);
  const int dens = (int)g.integer(1, 4);
  bool multi = false;
  for (int a = 0; a < c.n; a++)
    for (int b = 0; b < c.n; b++) {
      const uint64_t x = pbt::hash(s, 1, a, b);
      int m = 0;
      if (kind == 0)
        m = (int)(x % 4) < dens ? 1 : 0;
      else if (kind == 1)
        m = (int)(x % 8) < dens ? (int)(1 + (x >> 8) % 3) : 0;
      else if (kind == 2)
        m = (b == (a + 1) % c.n) ? 1 : 0;
      else if (kind == 3)
        m = (a == 0 && b != 0) ? 1 : 0;
      multi = multi || m > 1;
      for (int k = 0; k < m; k++)
        G.out[a].push_back(b), G.in[b].push_back(a);
    }
  if (multi)
    g.label("several edges between two ranks");
  if (kind == 4)
    g.label("graph without edges");
  // the order of the neighbours is arbitrary
  if (g.boolean())
    for (int a = 0; a < c.n; a++)
      for (int w = 0; w < 2; w++) {
        auto &v = w ? G.out[a] : G.in[a];
        for (int i = (int)v.size() - 1; i > 0; i--)
          std::swap(v[i], v[pbt::hash(s, 5 + w, a, i) % (uint64_t)(i + 1)]);
      }
  weighted = g.boolean();
  sw.clear(), dw.clear();
  for (size_t i = 0; i < G.in[c.r].size(); i++)
    sw.push_back((int)(pbt::hash(s, 7, c.r, i) % 50));
  for (size_t i = 0; i < G.out[c.r].size(); i++)
    dw.push_back((int)(pbt::hash(s, 8, c.r, i) % 50));
  int one = 1;
  auto p = [&](std::vector<int> &v) { return v.empty() ? &one : v.data(); };
  MPI_Dist_graph_create_adjacent(
      c.comm, (int)G.in[c.r].size(), p(G.in[c.r]), weighted ? p(sw) : MPI_UNWEIGHTED,
      (int)G.out[c.r].size(), p(G.out[c.r]), weighted ? p(dw) : MPI_UNWEIGHTED, MPI_INFO_NULL, 0, gc);
  g.note("graph kind ", kind, " weighted ", weighted, " out of this rank: ", show(G.out[c.r]), "in: ", show(G.in[c.r]));
  return G;
}

void op_reverse(Ctx &c, int op) {
  auto &g = c.g;
  bool w;
  std::vector<int> sw, dw;
  MPI_Comm gc, rc = MPI_COMM_NULL;
  auto G = gen_graph(c, op, &gc, w, sw, dw);
  c.jitter(op);
  const int err = reverse_graph_edge_directions(c.comm, gc, &rc);
  g.ck(err == MPI_SUCCESS, "op ", op, ": reverse_graph_edge_directions returned ", err);
  int in, out, wt;
  MPI_Dist_graph_neighbors_count(rc, &in, &out, &wt);
  std::vector<int> s(in + 1), d(out + 1), a(in + 1), b(out + 1);
  MPI_Dist_graph_neighbors(rc, in, s.data(), a.data(), out, d.data(), b.data());
  s.resize(in), d.resize(out), a.resize(in), b.resize(out);
  g.ck(s == G.out[c.r], "op ", op, ": sources of the reversed graph ", show(s), " expected ", show(G.out[c.r]));
  g.ck(d == G.in[c.r], "op ", op, ": destinations of the reversed graph ", show(d), " expected ", show(G.in[c.r]));
  if (w)
    g.ck(a == dw && b == sw, "op ", op, ": weights of the reversed graph ", show(a), "/ ", show(b), " expected ", show(dw), "/ ", show(sw));
  int rr, cmp;
  MPI_Comm_rank(rc, &rr);
  g.ck(rr == c.r, "op ", op, ": rank ", c.r, " is rank ", rr, " in the reversed graph");
  (void)cmp;
  g.label("reverse_graph_edge_directions");
  g.mark(c.n > 1 && G.out[0].size() + G.in[0].size() > 0);
  MPI_Comm_free(&rc);
  MPI_Comm_free(&gc);
}

void op_neighbour(Ctx &c, int op, bool wrapper_ok) {
  auto &g = c.g;
  bool w;
  std::vector<int> sw, dw;
  MPI_Comm gc;
  auto G = gen_graph(c, op, &gc, w, sw, dw);
  const uint64_t s = c.h(4, op);
  const bool varied = g.boolean();
  const bool wrap = g.boolean() && wrapper_ok;
  const int cnt = (int)g.draw(5), bytes = g.boolean() ? 8 : 4;
  const MPI_Datatype ty = bytes == 8 ? MPI_INT64_T : MPI_INT;
  const int no = (int)G.out[c.r].size(), ni = (int)G.in[c.r].size();
  // edge k of (a, b): the k-th occurrence on either side
  auto nth = [&](const std::vector<int> &v, int i) {
    return (int)std::count(v.begin(), v.begin() + i, v[i]);
  };
  auto count = [&](int a, int b, int k) { return varied ? (int)(pbt::hash(s, a, b, k) % 5) : cnt; };
  auto vbytes = [&](int a, int b, int k) { return varied ? ((pbt::hash(s, 99 + a, b, k) & 1) ? 8 : 4) : bytes; };
  auto byte = [&](int a, int b, int k, int j) { return (char)pbt::hash(s, (uint64_t)(a * 64 + b), k, j); };
  const char fill = 0x5a;
  std::vector<char> sb, rb, exp;
  std::vector<int> sc(no + 1), rc(ni + 1);
  std::vector<MPI_Aint> sd(no + 1), rd(ni + 1);
  std::vector<MPI_Datatype> st(no + 1, MPI_INT), rt(ni + 1, MPI_INT);
  // displacements in a drawn order, with gaps
  auto layout = [&](int m, auto bytes_of, std::vector<MPI_Aint> &d, int salt) {
    std::vector<int> ord(m);
    std::iota(ord.begin(), ord.end(), 0);
    if (varied)
      std::sort(ord.begin(), ord.end(), [&](int x, int y) { return pbt::hash(s, salt, c.r, x) < pbt::hash(s, salt, c.r, y); });
    MPI_Aint at = 0;
    for (int i : ord) {
      if (varied)
        at += 8 * (pbt::hash(s, salt + 1, c.r, i) % 3);
      d[i] = at;
      at += bytes_of(i);
      if (varied)
        at = (at + 7) / 8 * 8;
    }
    return at;
  };
  auto so = [&](int i) { const int b = G.out[c.r][i], k = nth(G.out[c.r], i); return count(c.r, b, k) * vbytes(c.r, b, k); };
  auto ro = [&](int i) { const int a = G.in[c.r][i], k = nth(G.in[c.r], i); return count(a, c.r, k) * vbytes(a, c.r, k); };
  sb.assign(layout(no, so, sd, 200) + 16, fill);
  rb.assign(layout(ni, ro, rd, 300) + 16, fill);
  exp = rb;
  for (int i = 0; i < no; i++) {
    const int b = G.out[c.r][i], k = nth(G.out[c.r], i);
    sc[i] = count(c.r, b, k), st[i] = vbytes(c.r, b, k) == 8 ? MPI_INT64_T : MPI_INT;
    for (int j = 0; j < so(i); j++)
      sb[sd[i] + j] = byte(c.r, b, k, j);
  }
  for (int i = 0; i < ni; i++) {
    const int a = G.in[c.r][i], k = nth(G.in[c.r], i);
    rc[i] = count(a, c.r, k), rt[i] = vbytes(a, c.r, k) == 8 ? MPI_INT64_T : MPI_INT;
    for (int j = 0; j < ro(i); j++)
      exp[rd[i] + j] = byte(a, c.r, k, j);
  }
  c.jitter(op);
  const char *name = varied ? (wrap ? "NP_MPI_Neighbor_alltoallw_wrapper" : "NP_MPI_Neighbor_alltoallw")
                            : (wrap ? "NP_MPI_Neighbor_alltoall_wrapper" : "NP_MPI_Neighbor_alltoall");
  g.note(name, " count ", cnt, " of ", bytes, " bytes");
  g.label(name);
  int err;
  if (varied)
    err = (wrap ? NP_MPI_Neighbor_alltoallw_wrapper : NP_MPI_Neighbor_alltoallw)(
        sb.data(), sc.data(), sd.data(), st.data(), rb.data(), rc.data(), rd.data(), rt.data(), gc);
  else
    err = (wrap ? NP_MPI_Neighbor_alltoall_wrapper : NP_MPI_Neighbor_alltoall)(sb.data(), cnt, ty, rb.data(), cnt, ty, gc);
  g.ck(err == MPI_SUCCESS, "op ", op, ": ", name, " returned ", err);
  for (size_t j = 0; j < rb.size(); j++)
    if (rb[j] != exp[j]) {
      g.ck(false, "op ", op, ": ", name, ": byte ", j, " of ", rb.size(), " received is ", (int)rb[j], " expected ", (int)exp[j]);
      break;
    }
  g.mark(c.n > 1 && no + ni > 0);
  MPI_Comm_free(&gc);
}

void op_dims(Ctx &c, int op) {
  auto &g = c.g;
  const int ndim = (int)g.integer(1, 4);
  const int size = g.boolean() ? (int)g.integer(1, 24) : (int)g.integer(1, 600);
  std::vector<int> cells(ndim);
  for (auto &x : cells)
    x = g.boolean() ? (int)g.integer(1, 6) : (int)g.integer(1, 200);
  g.note("dims of ", size, " ranks for cells ", show(cells));
  auto prod = [](const std::vector<int> &v) { int p = 1; for (int x : v) p *= x; return p; };
  const auto cells0 = cells;
  auto d = get_cart_dims(size, ndim);
  g.ck((int)d.size() == ndim && prod(d) == size, "get_cart_dims(", size, ", ", ndim, ") gave ", show(d));
  auto e = get_reordered_cart_decomp(ndim, d, cells);
  auto ds = d, es = e;
  std::sort(ds.begin(), ds.end()), std::sort(es.begin(), es.end());
  g.ck(ds == es, "get_reordered_cart_decomp gave ", show(e), " from ", show(d));
  for (int a = 0; a < ndim && (int)e.size() == ndim; a++)
    for (int b = 0; b < ndim; b++)
      g.ck(!(cells[a] > cells[b] && e[a] < e[b]), "get_reordered_cart_decomp gave ", show(e), " for cells ", show(cells));
  auto l = get_lower_dimension_cart_decomp(size, ndim, cells);
  bool ok = (int)l.size() == ndim;
  // dimensions divided out in turn
  int rest = size, left = 0;
  for (int a = 0; ok && a < ndim; a++)
    if (rest % cells[a] == 0) {
      rest /= cells[a];
      ok = l[a] == cells[a];
    } else
      left++;
  ok = ok && (left == 0 ? true : prod(l) == size);
  for (int a = 0; ok && a < ndim; a++)
    ok = l[a] > 0;
  g.ck(ok, "get_lower_dimension_cart_decomp(", size, ", cells ", show(cells), ") gave ", show(l));
  auto o = get_single_dimension_cart_decomp(size, ndim, cells);
  int big = *std::max_element(cells.begin(), cells.end());
  bool found = false;
  for (int a = 0; a < (int)o.size(); a++)
    found = found || (o[a] == size && cells[a] == big);
  g.ck((int)o.size() == ndim && prod(o) == size && found, "get_single_dimension_cart_decomp(", size, ", cells ", show(cells), ") gave ", show(o));
  g.ck(cells == cells0, "op ", op, ": cell counts altered");
  g.label("decompositions");
  g.mark(ndim > 1 && size > 1);
}

// The counter is kept over the operations of a case.
void op_edges(Ctx &c, CommunicationEdgesCounter &ec, int op) {
  auto &g = c.g;
  const uint64_t s = c.h(5, op);
  const int kind = (int)g.draw(4), dens = (int)g.integer(1, 4);
  const bool dup = g.chance(1, 3);
  std::vector<std::vector<int>> to(c.n);
  for (int a = 0; a < c.n; a++)
    for (int b = 0; b < c.n; b++) {
      const uint64_t x = pbt::hash(s, 1, a, b);
      int m = kind == 0 ? ((int)(x % 4) < dens) : kind == 1 ? 0 : kind == 2 ? (b == 0) : (a == 0);
      if (m && dup)
        m += (int)((x >> 8) % 3);
      for (int k = 0; k < m; k++)
        to[a].insert(to[a].begin() + (long)((x >> (16 + k)) % (to[a].size() + 1)), b);
    }
  auto data = [&](int a, int i) { return (int64_t)(pbt::hash(s, 2, a, i) % 60); };
  int expn = 0;
  std::vector<std::pair<int, int64_t>> exp;
  for (int a = 0; a < c.n; a++)
    for (int i = 0; i < (int)to[a].size(); i++)
      if (to[a][i] == c.r)
        expn++, exp.push_back({a, data(a, i)});
  const int mode = (int)g.draw(3);
  g.note("edges mode ", mode, " kind ", kind, " to ", show(to[c.r]));
  g.label(mode == 0 ? "get_remote_ranks" : mode == 1 ? "counted and exchanged in steps" : "ordered exchange");
  auto recv = to[c.r];
  std::vector<int64_t> rdat;
  for (int i = 0; i < (int)recv.size(); i++)
    rdat.push_back(data(c.r, i));
  std::vector<int> send((size_t)g.draw(3), 5);
  std::vector<int64_t> sdat((size_t)g.draw(3), 7);
  c.jitter(op);
  if (mode == 0) {
    ec.get_remote_ranks(recv, rdat, send, sdat);
  } else {
    ec.reset();
    c.jitter(op + 1000);
    ec.init_count(recv);
    c.jitter(op + 2000);
    const int k = ec.get_count();
    g.ck(k == expn, "op ", op, ": ", k, " remote ranks counted, expected ", expn);
    if (k != expn)
      MPI_Abort(MPI_COMM_WORLD, 3); // the exchange would not complete
    send.assign(k, -1), sdat.assign(k, -1);
    if (mode == 2)
      for (int i = 0; i < k; i++)
        send[i] = exp[i].first;
    ec.exchange_send_recv_counts(recv, rdat, send, sdat, mode == 2);
  }
  g.ck(recv == to[c.r], "op ", op, ": ranks to send to were altered");
  bool same = (int)send.size() == expn && (int)sdat.size() == expn;
  std::vector<std::pair<int, int64_t>> got;
  for (size_t i = 0; i < send.size() && i < sdat.size(); i++)
    got.push_back({send[i], sdat[i]});
  auto gs = got, es = exp;
  std::sort(gs.begin(), gs.end()), std::sort(es.begin(), es.end());
  same = same && gs == es;
  auto sh = [](auto &v) { std::ostringstream o; for (auto &x : v) o << x.first << ":" << x.second << " "; return o.str(); };
  g.ck(same, "op ", op, ": received (rank:value) ", sh(got), "expected ", sh(exp));
  // messages of one rank keep their order
  bool ordered = true;
  for (int a = 0; a < c.n; a++) {
    std::vector<int64_t> x, y;
    for (auto &p : got) if (p.first == a) x.push_back(p.second);
    for (auto &p : exp) if (p.first == a) y.push_back(p.second);
    ordered = ordered && x == y;
  }
  if (mode == 2)
    g.ck(ordered && got == exp, "op ", op, ": received (rank:value) ", sh(got), "expected in order ", sh(exp));
  if (same && g.boolean()) {
    // payloads of these many bytes
    auto pay = [&](int a, int i, int64_t j) { return (char)pbt::hash(s, 3 + (uint64_t)a, i, j); };
    std::vector<std::vector<char>> rb(recv.size()), sb(send.size());
    std::vector<void *> rp, sp;
    for (size_t i = 0; i < recv.size(); i++) {
      rb[i].resize(rdat[i] + 1);
      for (int64_t j = 0; j < rdat[i]; j++)
        rb[i][j] = pay(c.r, (int)i, j);
      rp.push_back(rb[i].data());
    }
    // Expected payload per source in order of the messages.
    std::vector<std::vector<int>> idx(c.n);
    for (int a = 0; a < c.n; a++)
      for (int i = 0; i < (int)to[a].size(); i++)
        if (to[a][i] == c.r)
          idx[a].push_back(i);
    std::vector<int> next(c.n, 0);
    if (ordered) {
      for (size_t i = 0; i < send.size(); i++) {
        sb[i].assign(sdat[i] + 1, 0x33);
        sp.push_back(sb[i].data());
      }
      c.jitter(op + 3000);
    } else
      for (size_t i = 0; i < send.size(); i++) {
        sb[i].assign(sdat[i] + 1, 0x33);
        sp.push_back(sb[i].data());
      }
    ec.exchange_send_recv_data(recv, rdat, rp, send, sdat, sp);
    for (size_t i = 0; i < send.size() && ordered; i++) {
      const int a = send[i], k = idx[a][next[a]++];
      bool eq = sb[i].back() == 0x33;
      for (int64_t j = 0; j < sdat[i]; j++)
        eq = eq && sb[i][j] == pay(a, k, j);
      g.ck(eq, "op ", op, ": payload ", i, " of ", sdat[i], " bytes from rank ", a, " is not what was sent");
    }
    g.label("payload exchanged");
  }
  g.mark(c.n > 1 && expn > 0);
}

void op_pair(Ctx &c, int op) {
  auto &g = c.g;
  c.jitter(op);
  CommPair cp(c.comm);
  // ranks of the same region
  std::vector<int> node(c.n);
  int me;
  auto &l = node_layout();
  MPI_Comm_rank(MPI_COMM_WORLD, &me);
  int mine = l.empty() ? 0 : l[me];
  MPI_Allgather(&mine, 1, MPI_INT, node.data(), 1, MPI_INT, c.comm);
  int ri = 0, si = 0;
  std::vector<int> first;
  for (int i = 0; i < c.n; i++) {
    if (node[i] == mine) {
      si++;
      if (i < c.r)
        ri++;
    }
    if (std::count(node.begin(), node.begin() + i, node[i]) == 0)
      first.push_back(i);
  }
  g.ck(cp.rank_parent == c.r && cp.size_parent == c.n, "op ", op, ": CommPair parent rank ", cp.rank_parent, " of ", cp.size_parent);
  g.ck(cp.rank_intra == ri && cp.size_intra == si, "op ", op, ": CommPair intra rank ", cp.rank_intra, " of ", cp.size_intra, " expected ", ri, " of ", si);
  const bool lead = ri == 0;
  g.ck((cp.comm_inter != MPI_COMM_NULL) == lead, "op ", op, ": CommPair inter communicator on the wrong rank");
  if (lead && cp.comm_inter != MPI_COMM_NULL) {
    const int k = (int)(std::find(first.begin(), first.end(), c.r) - first.begin());
    g.ck(cp.rank_inter == k && cp.size_inter == (int)first.size(), "op ", op, ": CommPair inter rank ", cp.rank_inter, " of ", cp.size_inter, " expected ", k, " of ", first.size());
  }
  g.label("CommPair");
  g.mark(c.n > 1);
  cp.free();
}

void prop(Gen &g) {
  const int N = nranks();
  gen_nodes(g, N);
  Ctx c{g};
  c.seed = g.seed32();
  c.slow = g.chance(1, 4);
  // The communicator: the world, the world in another order, or parts of it.
  const int ck = (int)g.draw(4);
  int col = 0, key = rank();
  if (ck == 1)
    key = N - key;
  else if (ck == 2) {
    key = (int)(c.h(90, rank()) % 1000);
  } else if (ck == 3) {
    const int cut = (int)g.draw(N);
    col = rank() < cut;
    key = (int)(c.h(91, rank()) % 1000);
  }
  g.note("communicator ", ck);
  if (ck == 0)
    MPI_Comm_dup(MPI_COMM_WORLD, &c.comm);
  else
    MPI_Comm_split(MPI_COMM_WORLD, col, key, &c.comm);
  MPI_Comm_rank(c.comm, &c.r);
  MPI_Comm_size(c.comm, &c.n);
  if (ck == 3) {
    // Draws depend on the size: the parts act as if they had the smaller size
    // of choices, so that all ranks draw the same.
    g.label("part of the world");
  }
  // every draw that depends on the size uses the same bound on all ranks
  int minn;
  MPI_Allreduce(&c.n, &minn, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
  if (ck == 3 && minn != c.n) {
    // ranks beyond the smaller part leave
    MPI_Comm sub;
    MPI_Comm_split(c.comm, c.r < minn ? 0 : 1 + c.r / minn, c.r, &sub);
    // remainders may be smaller still; join those as single ranks
    int k;
    MPI_Comm_size(sub, &k);
    MPI_Comm_free(&c.comm);
    c.comm = sub;
  }
  MPI_Comm_rank(c.comm, &c.r);
  MPI_Comm_size(c.comm, &c.n);
  int lo, hi;
  MPI_Allreduce(&c.n, &lo, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
  MPI_Allreduce(&c.n, &hi, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  bool equal = lo == hi;
  if (!equal) {
    // sizes still differ: use the world
    MPI_Comm_free(&c.comm);
    MPI_Comm_dup(MPI_COMM_WORLD, &c.comm);
    MPI_Comm_rank(c.comm, &c.r);
    MPI_Comm_size(c.comm, &c.n);
  }
  std::unique_ptr<CommunicationEdgesCounter> ec;
  const int nops = (int)g.size(1, 8);
  for (int op = 0; op < nops; op++) {
    switch (g.weighted({3, 2, 3, 2, 2, 1, 1, 2, 3, 2, 4, 1})) {
    case 0: op_gather<REAL>(c, op, "REAL"); break;
    case 1: op_gather<INT>(c, op, "INT"); break;
    case 2: op_set<int>(c, op, "int"); break;
    case 3: op_set<INT>(c, op, "INT"); break;
    case 4: op_set<REAL>(c, op, "REAL"); break;
    case 5: op_gather<int>(c, op, "int"); break;
    case 6: op_pair(c, op); break;
    case 7: op_reverse(c, op); break;
    case 8: op_neighbour(c, op, true); break;
    case 9: op_dims(c, op); break;
    case 10:
      if (!ec)
        ec = std::make_unique<CommunicationEdgesCounter>(c.comm);
      op_edges(c, *ec, op);
      break;
    default: op_set<int>(c, op, "int"); break;
    }
  }
  if (ec)
    ec->free();
  MPI_Comm_free(&c.comm);
  g.sync();
}

} // namespace

PBT_MAIN("C20", prop)
