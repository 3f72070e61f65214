// P12: decision diagrams are canonical and correctly normalised.
#include "ddh.hpp"

#include <cmath>
#include <map>
#include <set>

using namespace qc;
using ddh::C;
using ddh::Mat;
using ddh::Vec;
namespace {
constexpr double TOL = 1e-9;
const C I1{0, 1};

std::string keyOf(const Vec& v) {
  std::string s;
  s.reserve(v.size() * 16);
  for (const auto& x : v) {
    for (const double d : {x.real(), x.imag()}) {
      const auto r = static_cast<std::int64_t>(std::llround(d * 1e7));
      s.append(reinterpret_cast<const char*>(&r), sizeof r);
    }
  }
  return s;
}
std::string keyOf(const Mat& m) {
  std::string s;
  for (const auto& c : m) {
    s += keyOf(c);
  }
  return s;
}
template <class Node> bool same(const dd::Edge<Node>& a, const dd::Edge<Node>& b) {
  return a.p == b.p && a.w.r == b.w.r && a.w.i == b.w.i;
}
template <class Node> std::string es(const dd::Edge<Node>& e) {
  std::ostringstream o;
  o << "(node " << (e.p == nullptr ? -1 : static_cast<int>(e.p->v)) << "@"
    << static_cast<const void*>(e.p) << ", weight " << e.w << ")";
  return o.str();
}

// one package together with everything that was built in it
struct World {
  World(mc::Ctx& ctx, std::size_t nq, std::size_t buckets)
      : c(ctx), n(nq), p(nq, ddh::smallConfig(buckets)) {}
  mc::Ctx& c;
  std::size_t n;
  dd::Package p;
  std::map<std::string, dd::vEdge> vecs;
  std::map<std::string, dd::mEdge> mats;
  std::set<const void*> checked;
  using Content = std::vector<const void*>;
  std::map<Content, const void*> vContents, mContents;

  std::map<std::pair<const void*, std::pair<const void*, const void*>>,
           std::string>
      back;

  void weight(const dd::Complex& w, const std::function<std::string()>& what) {
    const auto l = p.cn.lookup(dd::RealNumber::val(w.r), dd::RealNumber::val(w.i));
    c.checkf(l.r == w.r && l.i == w.i, "weight-not-canonical", [&] {
      std::ostringstream o;
      o << w << " is not the stored number of its value in " << what();
      return o.str();
    });
  }
  template <class Node>
  void node(const dd::Edge<Node>& e, const std::function<std::string()>& what) {
    constexpr bool vector = std::is_same_v<Node, dd::vNode>;
    weight(e.w, what);
    if (e.isTerminal() || !checked.insert(e.p).second) {
      return;
    }
    const auto& es_ = e.p->e;
    Content content{reinterpret_cast<const void*>(
        static_cast<std::uintptr_t>(e.p->v))};
    double sum = 0;
    double maxMag = 0;
    std::size_t first = 99;
    for (std::size_t i = 0; i < es_.size(); ++i) {
      const auto& k = es_[i];
      const auto w = static_cast<std::complex<double>>(k.w);
      content.insert(content.end(), {k.p, k.w.r, k.w.i});
      sum += std::norm(w);
      maxMag = std::max(maxMag, std::abs(w));
      if (first == 99 && std::norm(w) >= 1 - dd::RealNumber::eps) {
        first = i;
      }
      c.checkf(!k.w.approximatelyZero() || (k.isTerminal() && k.w.exactlyZero()),
               "zero-edge-not-terminal", [&] { return what(); });
      if (vector) {
        c.checkf(k.w.exactlyZero() ||
                     (e.p->v == 0 ? k.isTerminal()
                                  : !k.isTerminal() && k.p->v + 1 == e.p->v),
                 "vector-level-skipped", [&] { return what(); });
      } else {
        c.checkf(k.isTerminal() || k.p->v < e.p->v, "not-ordered",
                 [&] { return what(); });
      }
    }
    if (vector) {
      const auto w0 = static_cast<std::complex<double>>(es_[0].w);
      const auto w1 = static_cast<std::complex<double>>(es_[1].w);
      const auto& mx = std::norm(w0) + dd::RealNumber::eps >= std::norm(w1) ? w0 : w1;
      c.checkf(std::abs(sum - 1) < TOL, "vector-node-not-normalised",
               [&] { return what(); });
      c.checkf(mx.imag() == 0 && mx.real() > 0, "vector-node-phase-not-normalised",
               [&] { return what(); });
    } else {
      c.checkf(std::abs(maxMag - 1) < TOL && first != 99 && es_[first].w.exactlyOne(),
               "matrix-node-not-normalised", [&] { return what(); });
      if constexpr (!vector) {
        c.checkf(!(es_[0].p == es_[3].p && es_[0].w.exactlyOne() &&
                   es_[3].w.exactlyOne() && es_[1].w.exactlyZero() &&
                   es_[2].w.exactlyZero()),
                 "redundant-identity-node", [&] { return what(); });
      }
    }
    auto& cont = vector ? vContents : mContents;
    const auto [it, fresh] = cont.emplace(content, e.p);
    c.checkf(fresh || it->second == e.p, "duplicate-node", [&] { return what(); });
    for (const auto& k : es_) {
      node(k, what);
    }
  }
  template <class Node, class D, class Map>
  void reg(Map& m, const dd::Edge<Node>& e, const D& dense, const char* how,
           const std::function<std::string()>& what) {
    c.trans();
    const auto key = keyOf(dense);
    const auto [it, fresh] = m.emplace(key, e);
    if (fresh) {
      c.state(mc::hashStr(key));
      p.incRef(e);
      node(e, what);
      const auto [b, nb] = back.emplace(
          std::pair<const void*, std::pair<const void*, const void*>>(
              e.p, {e.w.r, e.w.i}),
          key);
      // terminals of vectors and matrices coincide: compare like with like
      c.checkf(nb || b->second == key || e.isTerminal(), "different-same-edge",
               [&] { return what(); });
      readout(e, dense, what);
      return;
    }
    c.checkf(same(it->second, e), "equal-but-different-edge", [&] {
      return std::string(how) + " of " + what() + " gave " + es(e) +
             " while the same object is already " + es(it->second);
    });
  }
  void readout(const dd::vEdge& e, const Vec& d,
               const std::function<std::string()>& what) {
    if (e.isTerminal()) {
      return;
    }
    const auto v = ddh::toVec(e);
    c.checkf(ref::dist(v, d) < TOL, "vector-readout", [&] { return what(); });
    const auto sv = e.getSparseVector();
    std::set<const dd::vNode*> nodes;
    std::function<void(const dd::vEdge&)> walk = [&](const dd::vEdge& x) {
      if (nodes.insert(x.p).second && !x.isTerminal()) {
        walk(x.p->e[0]);
        walk(x.p->e[1]);
      }
    };
    walk(e);
    c.checkf(e.size() == nodes.size(), "vector-size", [&] { return what(); });
    for (std::size_t i = 0; i < d.size(); ++i) {
      const auto it = sv.find(i);
      const C s = it == sv.end() ? C(0) : C(it->second);
      c.checkf(std::abs(s - d[i]) < TOL && (it != sv.end() || std::abs(d[i]) < TOL),
               "vector-sparse", [&] { return what(); });
      c.checkf(std::abs(C(e.getValueByIndex(i)) - d[i]) < TOL, "vector-by-index",
               [&] { return what(); });
      std::string path;
      for (std::size_t q = 0; q < n; ++q) {
        path.push_back(((i >> q) & 1U) != 0 ? '1' : '0');
      }
      c.checkf(std::abs(C(e.getValueByPath(n, path)) - d[i]) < TOL,
               "vector-by-path", [&] { return what() + " path " + path; });
    }
    dd::CVec acc(d.size(), C(1));
    e.addToVector(acc);
    for (std::size_t i = 0; i < d.size(); ++i) {
      c.checkf(std::abs(acc[i] - d[i] - C(1)) < TOL, "vector-add-to",
               [&] { return what(); });
    }
  }
  void readout(const dd::mEdge& e, const Mat& d,
               const std::function<std::string()>& what) {
    const auto v = ddh::toMat(e, n);
    std::set<const dd::mNode*> nodes;
    std::function<void(const dd::mEdge&)> walk = [&](const dd::mEdge& x) {
      if (nodes.insert(x.p).second && !x.isTerminal()) {
        for (const auto& k : x.p->e) {
          walk(k);
        }
      }
    };
    walk(e);
    c.checkf(e.size() == nodes.size(), "matrix-size", [&] { return what(); });
    const auto sm = e.getSparseMatrix(n);
    for (std::size_t j = 0; j < d.size(); ++j) {
      c.checkf(ref::dist(v[j], d[j]) < TOL, "matrix-readout", [&] { return what(); });
      for (std::size_t i = 0; i < d.size(); ++i) {
        const auto it = sm.find({i, j});
        const C s = it == sm.end() ? C(0) : C(it->second);
        c.checkf(std::abs(s - d[j][i]) < TOL, "matrix-sparse",
                 [&] { return what(); });
        c.checkf(std::abs(C(e.getValueByIndex(n, i, j)) - d[j][i]) < TOL,
                 "matrix-by-index", [&] { return what(); });
        std::string path;
        for (std::size_t q = 0; q < n; ++q) {
          path.push_back(static_cast<char>('0' + ((((i >> q) & 1U) << 1U) |
                                                  ((j >> q) & 1U))));
        }
        c.checkf(std::abs(C(e.getValueByPath(n, path)) - d[j][i]) < TOL,
                 "matrix-by-path", [&] { return what() + " path " + path; });
      }
    }
  }
};
dd::CMat rows(const Mat& m) {
  dd::CMat r(m.size(), dd::CVec(m.size()));
  for (std::size_t i = 0; i < m.size(); ++i) {
    for (std::size_t j = 0; j < m.size(); ++j) {
      r[i][j] = m[j][i];
    }
  }
  return r;
}
Mat dag(const Mat& m) {
  Mat r(m);
  for (std::size_t i = 0; i < m.size(); ++i) {
    for (std::size_t j = 0; j < m.size(); ++j) {
      r[j][i] = std::conj(m[i][j]);
    }
  }
  return r;
}
circ::Alphabet gates(std::size_t n) {
  circ::Alphabet a;
  for (Qubit q = 0; q < n; ++q) {
    for (const auto t : {H, T, X, Sdg}) {
      a.push_back(circ::std1(t, q));
    }
    if (n == 2) {
      a.push_back(circ::std1(SX, q));
      a.push_back(circ::std1(Y, q));
    }
  }
  for (Qubit q = 0; q < n; ++q) {
    const auto o = static_cast<Qubit>((q + 1) % n);
    a.push_back(circ::std1(X, q, {}, {Control{o}}));
    a.push_back(circ::std1(H, q, {}, {Control{o, Control::Type::Neg}}));
  }
  a.push_back(circ::std2(SWAP, 0, static_cast<Qubit>(n - 1)));
  a.push_back(circ::std2(iSWAP, 0, 1));
  a.push_back(circ::std2(DCX, static_cast<Qubit>(n - 1), 0));
  a.push_back(circ::std2(RXX, 0, static_cast<Qubit>(n - 1), {PI_2}));
  if (n == 3) {
    a.push_back(circ::std1(X, 1, {}, {0_pc, 2_nc}));
    a.push_back(circ::std2(SWAP, 0, 2, {}, {1_pc}));
    a.push_back(circ::std1(Z, 2, {}, {0_pc, 1_pc}));
  } else {
    a.push_back(circ::gphase(PI_4));
    a.push_back(circ::std2(ECR, 0, 1));
  }
  return a;
}

// every sequence of at most `len` gates after the fixed prefix, all in one
// package: matrices, and states from every basis state
void sequences(mc::Ctx& c, std::size_t n, const std::vector<std::size_t>& prefix,
               std::size_t len, std::size_t buckets) {
  const auto alpha = gates(n);
  World w(c, n, buckets);
  auto& p = w.p;
  std::vector<dd::mEdge> g;
  std::vector<Mat> gd;
  for (const auto& o : alpha) {
    g.push_back(dd::getDD(*o, p));
    p.incRef(g.back());
    gd.push_back(ref::ident(n));
    for (auto& col : gd.back()) {
      ref::applyOp(col, *o);
    }
  }
  std::vector<std::size_t> seq;
  const auto what = [&]() {
    std::string s = "sequence";
    for (const auto i : seq) {
      s += " [" + ref::opStr(*alpha[i]) + "]";
    }
    return s;
  };
  std::function<void(const dd::mEdge&, const Mat&, std::size_t)> rec =
      [&](const dd::mEdge& m, const Mat& d, std::size_t left) {
        w.reg(w.mats, m, d, "product", what);
        // other association order
        dd::mEdge r = dd::Package::makeIdent();
        for (std::size_t k = seq.size(); k-- > 0;) {
          r = p.multiply(r, g[seq[k]]);
        }
        w.reg(w.mats, r, d, "right-to-left product", what);
        w.reg(w.mats, p.makeDDFromMatrix(rows(d)), d, "dense matrix", what);
        const auto dg = dag(d);
        w.reg(w.mats, p.conjugateTranspose(m), dg, "conjugate transpose", what);
        for (std::size_t b = 0; b < d.size(); ++b) {
          std::vector<bool> bits(n);
          for (std::size_t q = 0; q < n; ++q) {
            bits[q] = ((b >> q) & 1U) != 0;
          }
          auto s = p.makeBasisState(n, bits);
          const auto direct = p.multiply(m, s);
          for (const auto k : seq) {
            s = p.multiply(g[k], s);
          }
          w.reg(w.vecs, direct, d[b], "matrix times basis state", what);
          w.reg(w.vecs, s, d[b], "simulation", what);
          w.reg(w.vecs, p.makeStateFromVector({d[b].begin(), d[b].end()}), d[b],
                "dense vector", what);
          // normalisation is idempotent: half of the sum with itself
          if (b == 0) {
            w.reg(w.vecs, p.conjugate(p.conjugate(s)), d[b], "double conjugate",
                  what);
          }
        }
        if (left == 0) {
          return;
        }
        for (std::size_t k = 0; k < alpha.size(); ++k) {
          Mat nd = d;
          for (auto& col : nd) {
            ref::applyOp(col, *alpha[k]);
          }
          seq.push_back(k);
          rec(p.multiply(g[k], m), nd, left - 1);
          seq.pop_back();
        }
      };
  dd::mEdge m = dd::Package::makeIdent();
  Mat d = ref::ident(n);
  for (const auto k : prefix) {
    m = p.multiply(g[k], m);
    for (auto& col : d) {
      ref::applyOp(col, *alpha[k]);
    }
    seq.push_back(k);
  }
  rec(m, d, len);
}

// all vectors over an amplitude set, built densely and as sums in two orders
void vectors(mc::Ctx& c, std::size_t n, std::uint64_t from, std::uint64_t to,
             const std::vector<C>& amps) {
  World w(c, n, 64);
  auto& p = w.p;
  const std::size_t N = 1ULL << n;
  std::vector<dd::vEdge> basis;
  for (std::size_t b = 0; b < N; ++b) {
    std::vector<bool> bits(n);
    for (std::size_t q = 0; q < n; ++q) {
      bits[q] = ((b >> q) & 1U) != 0;
    }
    basis.push_back(p.makeBasisState(n, bits));
    p.incRef(basis.back());
  }
  for (auto x = from; x < to; ++x) {
    Vec v(N);
    auto y = x;
    for (auto& e : v) {
      e = amps[y % amps.size()];
      y /= amps.size();
    }
    const auto what = [&] { return "vector " + ref::vecStr(v); };
    const auto e = p.makeStateFromVector({v.begin(), v.end()});
    w.reg(w.vecs, e, v, "dense vector", what);
    for (const bool up : {true, false}) {
      auto s = dd::vEdge::zero();
      for (std::size_t k = 0; k < N; ++k) {
        const auto b = up ? k : N - 1 - k;
        const auto wt = p.cn.lookup(v[b]);
        s = p.add(s, wt.exactlyZero() ? dd::vEdge::zero()
                                      : dd::vEdge{basis[b].p, wt});
      }
      w.reg(w.vecs, s, v, "sum of basis states", what);
    }
    // multiples share the node
    for (const C f : {C(0, 1), C(-0.5, 0), C(0.6, 0.8)}) {
      Vec u(v);
      for (auto& a : u) {
        a *= f;
      }
      const auto m = p.makeStateFromVector({u.begin(), u.end()});
      c.checkf(m.p == e.p, "multiple-other-node", what);
    }
  }
}
// all block matrices over a set of one-qubit blocks
void blocks(mc::Ctx& c, std::uint64_t from, std::uint64_t to) {
  const double h = std::sqrt(0.5);
  const std::vector<std::vector<C>> bl{{0, 0, 0, 0}, {1, 0, 0, 1}, {0, 1, 1, 0},
                                       {h, h, h, -h}, {1, 0, 0, 0}, {0, -I1, I1, 0},
                                       {0.5, 0, 0, 0.5}, {0.25, -1, I1, 0.5}};
  World w(c, 2, 64);
  auto& p = w.p;
  for (auto x = from; x < to; ++x) {
    Mat m(4, Vec(4));
    auto y = x;
    std::array<std::size_t, 4> pick{};
    for (std::size_t k = 0; k < 4; ++k) {
      pick[k] = y % bl.size();
      y /= bl.size();
      for (std::size_t e = 0; e < 4; ++e) {
        m[(k % 2) * 2 + e % 2][(k / 2) * 2 + e / 2] = bl[pick[k]][e];
      }
    }
    const auto what = [&] { return "matrix " + ddh::matStr(m); };
    const auto e = p.makeDDFromMatrix(rows(m));
    w.reg(w.mats, e, m, "dense matrix", what);
    // sum of |i><j| (x) block
    for (const bool up : {true, false}) {
      auto s = dd::mEdge::zero();
      for (std::size_t kk = 0; kk < 4; ++kk) {
        const auto k = up ? kk : 3 - kk;
        dd::GateMatrix unit{};
        unit[k] = 1;
        dd::CMat b{{bl[pick[k]][0], bl[pick[k]][1]}, {bl[pick[k]][2], bl[pick[k]][3]}};
        const auto be = p.makeDDFromMatrix(b);
        if (be.isZeroTerminal()) {
          continue;
        }
        const auto term = p.kronecker(p.makeGateDD(unit, 0), be, 1);
        s = p.add(s, term);
      }
      w.reg(w.mats, s, m, "sum of blocks", what);
    }
    w.reg(w.mats, p.conjugateTranspose(p.conjugateTranspose(e)), m,
          "double conjugate transpose", what);
    for (const C f : {C(0, 1), C(-0.5, 0), C(0.6, 0.8)}) {
      Mat u(m);
      for (auto& col : u) {
        for (auto& a : col) {
          a *= f;
        }
      }
      c.checkf(p.makeDDFromMatrix(rows(u)).p == e.p, "multiple-other-node", what);
    }
  }
}
// the number table: every sequence of lookups of values that are close to each
// other, close to a bucket border or close to the fixed constants
void numbers(mc::Ctx& c, const std::vector<std::vector<double>>& seqs) {
  const double eps = dd::RealNumber::eps;
  for (const auto& seq : seqs) {
    dd::MemoryManager mm{dd::MemoryManager::create<dd::RealNumber>(16)};
    dd::RealNumberUniqueTable tab(mm);
    std::map<const dd::RealNumber*, double> stored{
        {&dd::constants::zero, 0.},
        {&dd::constants::one, 1.},
        {&dd::constants::sqrt2over2, dd::SQRT2_2}};
    stored[tab.lookup(0.5)] = 0.5; // stored by the table itself
    std::map<double, const dd::RealNumber*> last;
    const auto what = [&] {
      std::ostringstream o;
      o.precision(17);
      o << "lookups";
      for (const auto v : seq) {
        o << " " << v;
      }
      return o.str();
    };
    for (const double v : seq) {
      c.trans();
      const auto* e = tab.lookup(v);
      const auto val = dd::RealNumber::val(e);
      c.checkf(std::abs(val - v) <= eps * 1.0001, "number-value", what);
      const auto* a = dd::RealNumber::getAlignedPointer(e);
      const auto m = std::abs(v);
      if (stored.count(a) == 0) {
        for (const auto& [q, x] : stored) {
          c.checkf(std::abs(x - m) > eps * 0.999, "number-stored-twice", what);
        }
        last.clear();
        stored[a] = a->value;
      } else {
        c.checkf(a->value == stored[a], "number-changed", what);
      }
      const auto [it, fresh] = last.emplace(v, e);
      c.checkf(fresh || it->second == e, "number-not-stable", what);
    }
    c.state(mc::hashStr(what()));
  }
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P12");
  r.assume("Equality is decided by the dense values rounded to 1e-7; the values "
           "of the enumerated objects are either equal up to rounding errors or "
           "differ by more than 1e-3.");
  {
    const auto a = gates(2).size();
    const std::size_t pre = r.thorough ? 1 : 1;
    const std::size_t len = r.thorough ? 4 : 3;
    r.space("sequences-2q", a,
            "every sequence of up to " + std::to_string(len + pre) + " of " +
                std::to_string(a) +
                " gates on 2 qubits, one package per first gate; products in both "
                "association orders, dense construction, simulation from every "
                "basis state, conjugate transposes",
            [&](std::uint64_t i, mc::Ctx& c) { sequences(c, 2, {i}, len, 256); },
            600);
  }
  {
    const auto a = gates(3).size();
    const std::size_t len = r.thorough ? 3 : 2;
    r.space("sequences-3q", a,
            "the same on 3 qubits with up to " + std::to_string(len + 1) + " of " +
                std::to_string(a) + " gates",
            [&](std::uint64_t i, mc::Ctx& c) { sequences(c, 3, {i}, len, 256); },
            600);
  }
  const std::vector<C> amps{0, 1, -1, I1, 0.5, C(0.6, 0.8)};
  r.space("vectors-1q", 1, "all vectors over 6 amplitudes on 1 qubit",
          [&](std::uint64_t, mc::Ctx& c) { vectors(c, 1, 0, 36, amps); });
  r.space("vectors-2q", 12, "all 6^4 vectors over 6 amplitudes on 2 qubits",
          [&](std::uint64_t i, mc::Ctx& c) { vectors(c, 2, i * 108, (i + 1) * 108, amps); });
  const std::vector<C> amps3 = r.thorough ? std::vector<C>{0, 1, -1, I1, 0.5}
                                          : std::vector<C>{0, 1, -1};
  const std::uint64_t tot = r.thorough ? 390625 : 6561;
  r.space("vectors-3q", (tot + 511) / 512,
          "all vectors over " + std::to_string(amps3.size()) +
              " amplitudes on 3 qubits",
          [&](std::uint64_t i, mc::Ctx& c) {
            vectors(c, 3, i * 512, std::min<std::uint64_t>(tot, (i + 1) * 512), amps3);
          });
  r.space("block-matrices", 64, "all 8^4 two-qubit matrices made of 8 blocks",
          [&](std::uint64_t i, mc::Ctx& c) { blocks(c, i * 64, (i + 1) * 64); });
  {
    const double eps = dd::RealNumber::eps;
    std::vector<double> vals;
    const double cell = 1. / 65536;
    const std::vector<double> bases = {0.25, 1000.5 * cell, 0.5, 1., 1.75,
                                       std::sqrt(0.5), 65535.5 * cell, 0.5 * cell};
    // per base: the base and neighbours, and a second number of each bucket
    // that touches the base
    const std::uint64_t per = 11;
    const std::size_t L = r.thorough ? 6 : 4;
    const std::uint64_t total = bases.size() * per;
    r.space("numbers", total,
            "every sequence of up to " + std::to_string(L) +
                " lookups of 11 values around each of " +
                std::to_string(bases.size()) +
                " base values (bucket borders, constants, values above one)",
            [&](std::uint64_t i, mc::Ctx& c) {
              const double b = bases[i / per];
              std::vector<double> v;
              for (int k = -3; k <= 3; ++k) {
                v.push_back(b + k * 0.6 * eps);
              }
              v.push_back(b - 0.3 * cell);
              v.push_back(b + 0.3 * cell);
              v.push_back(b - 0.1 * cell);
              v.push_back(-b);
              const std::size_t len = L - 1;
              std::uint64_t n = 1;
              for (std::size_t k = 0; k < len; ++k) {
                n *= per;
              }
              std::vector<double> seq(L);
              seq[0] = v[i % per];
              for (std::uint64_t x = 0; x < n; ++x) {
                auto y = x;
                for (std::size_t k = 0; k < len; ++k) {
                  seq[k + 1] = v[y % per];
                  y /= per;
                }
                numbers(c, {seq});
              }
            });
  }
  return r.finish();
}
