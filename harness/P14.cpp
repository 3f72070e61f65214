// P14: decision-diagram algebra equals linear algebra.
#include "ddh.hpp"

#include <array>
#include <deque>

using namespace qc;
using ddh::C;
using ddh::Mat;
using ddh::Vec;
namespace {
constexpr double TOL = 1e-9;
const C I1{0, 1};

dd::CMat rows(const Mat& m) { // columns -> rows
  const std::size_t n = m.size();
  dd::CMat r(n, dd::CVec(n));
  for (std::size_t i = 0; i < n; ++i) {
    for (std::size_t j = 0; j < n; ++j) {
      r[i][j] = m[j][i];
    }
  }
  return r;
}
Vec addV(const Vec& a, const Vec& b) {
  Vec r(a);
  for (std::size_t i = 0; i < r.size(); ++i) {
    r[i] += b[i];
  }
  return r;
}
Mat addM(const Mat& a, const Mat& b) {
  Mat r(a);
  for (std::size_t i = 0; i < r.size(); ++i) {
    r[i] = addV(r[i], b[i]);
  }
  return r;
}
Vec mulV(const Mat& a, const Vec& x) {
  Vec r(x.size());
  for (std::size_t j = 0; j < x.size(); ++j) {
    for (std::size_t i = 0; i < r.size(); ++i) {
      r[i] += a[j][i] * x[j];
    }
  }
  return r;
}
Vec kronV(const Vec& a, const Vec& b) {
  Vec r;
  for (const auto& x : a) {
    for (const auto& y : b) {
      r.push_back(x * y);
    }
  }
  return r;
}
Mat kronM(const Mat& a, const Mat& b) {
  Mat r;
  for (const auto& x : a) {
    for (const auto& y : b) {
      r.push_back(kronV(x, y));
    }
  }
  return r;
}
Vec conjV(const Vec& a) {
  Vec r(a);
  for (auto& x : r) {
    x = std::conj(x);
  }
  return r;
}
C inner(const Vec& a, const Vec& b) {
  C s = 0;
  for (std::size_t i = 0; i < a.size(); ++i) {
    s += std::conj(a[i]) * b[i];
  }
  return s;
}
C traceN(const Mat& m) {
  C s = 0;
  for (std::size_t i = 0; i < m.size(); ++i) {
    s += m[i][i];
  }
  return s / static_cast<double>(m.size());
}
bool isZeroV(const Vec& v) { return ref::dist(v, Vec(v.size())) < 1e-12; }
bool isZeroM(const Mat& m) {
  for (const auto& c : m) {
    if (!isZeroV(c)) {
      return false;
    }
  }
  return true;
}
// dense values of possibly zero or scalar diagrams
Vec vec(const dd::vEdge& e, std::size_t n) {
  if (e.isZeroTerminal()) {
    return Vec(1ULL << n);
  }
  return ddh::toVec(e);
}
Mat mat(const dd::mEdge& e, std::size_t n) {
  if (e.isZeroTerminal()) {
    return Mat(1ULL << n, Vec(1ULL << n));
  }
  return ddh::toMat(e, n);
}
Vec digitsVec(std::uint64_t x, const std::vector<C>& alpha, std::size_t len) {
  Vec r(len);
  for (auto& e : r) {
    e = alpha[x % alpha.size()];
    x /= alpha.size();
  }
  return r;
}
Mat fromRows(std::initializer_list<C> l) {
  const std::size_t n = l.size() == 4 ? 2 : 4;
  Mat r(n, Vec(n));
  std::size_t k = 0;
  for (const auto& x : l) {
    r[k % n][k / n] = x;
    ++k;
  }
  return r;
}
// one-qubit matrices
std::vector<Mat> singles() {
  const double s = std::sqrt(0.5);
  return {ref::ident(1),
          fromRows({0, 1, 1, 0}),
          fromRows({1, 0, 0, -1}),
          fromRows({s, s, s, -s}),
          fromRows({1, 0, 0, 0}),
          fromRows({0, 0, 1, 0}),
          fromRows({1, 0, 0, I1}),
          fromRows({0, -I1, I1, 0}),
          fromRows({0.5, 1, 0, -0.25 * I1}),
          fromRows({0, 1, 0, 0}),
          fromRows({0.3, 0, 0, 0.3})};
}
// two-qubit matrices
std::vector<Mat> doubles() {
  std::vector<Mat> r;
  const auto s = singles();
  for (const auto& a : s) {
    for (const auto& b : s) {
      r.push_back(kronM(a, b));
    }
  }
  auto ctl = [&](const Mat& u, bool high, bool pos) {
    const auto p0 = fromRows({1, 0, 0, 0});
    const auto p1 = fromRows({0, 0, 0, 1});
    const auto& on = pos ? p1 : p0;
    const auto& off = pos ? p0 : p1;
    return high ? addM(kronM(on, u), kronM(off, ref::ident(1)))
                : addM(kronM(u, on), kronM(ref::ident(1), off));
  };
  for (const auto k : {1U, 2U, 3U, 6U, 8U}) {
    for (int b = 0; b < 4; ++b) {
      r.push_back(ctl(s[k], (b & 1) != 0, (b & 2) != 0));
    }
  }
  r.push_back(fromRows({1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1}));
  r.push_back(fromRows({1, 0, 0, 0, 0, 0, I1, 0, 0, I1, 0, 0, 0, 0, 0, 1}));
  r.push_back(fromRows({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}));
  r.push_back(fromRows({0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}));
  r.push_back(Mat(4, Vec(4)));
  return r;
}
struct Pk {
  explicit Pk(std::size_t n, std::size_t b = 64)
      : p(std::make_unique<dd::Package>(n, ddh::smallConfig(b))) {}
  std::unique_ptr<dd::Package> p;
  dd::Package* operator->() const { return p.get(); }
  dd::Package& operator*() const { return *p; }
};
std::string ms(const Mat& m) { return ddh::matStr(m); }
bool close(C a, C b) { return std::abs(a - b) < TOL; }
std::string cs(C a) {
  return "(" + std::to_string(a.real()) + "," + std::to_string(a.imag()) + ")";
}
void vecUnary(mc::Ctx& c, dd::Package& p, const Vec& x, std::size_t n) {
  const auto e = p.makeStateFromVector({x.begin(), x.end()});
  c.trans();
  c.state(ref::hashVec(x));
  auto cmp = [&](const dd::vEdge& g, const Vec& w, const char* k) {
    const auto got = vec(g, n);
    c.checkf(ref::dist(got, w) < TOL, k, [&] {
      return "of " + ref::vecStr(x) + " gave " + ref::vecStr(got);
    });
  };
  cmp(e, x, "vector:construct");
  cmp(p.conjugate(e), conjV(x), "vector:conjugate");
  cmp(p.conjugate(p.conjugate(e)), x, "vector:conjugate-twice");
  const auto ip = static_cast<std::complex<double>>(p.innerProduct(e, e));
  c.checkf(close(ip, inner(x, x)), "vector:norm",
           [&] { return "of " + ref::vecStr(x) + " gave " + cs(ip); });
  p.decRef(e);
}
void vecPair(mc::Ctx& c, dd::Package& p, const dd::vEdge& a, const Vec& x,
             const dd::vEdge& b, const Vec& y, std::size_t n) {
  c.trans();
  auto what = [&] { return ref::vecStr(x) + " and " + ref::vecStr(y); };
  const auto s = vec(p.add(a, b), n);
  c.checkf(ref::dist(s, addV(x, y)) < TOL, "vector:add",
           [&] { return "of " + what() + " gave " + ref::vecStr(s); });
  const auto ip = static_cast<std::complex<double>>(p.innerProduct(a, b));
  c.checkf(close(ip, inner(x, y)), "vector:inner-product",
           [&] { return "of " + what() + " gave " + cs(ip); });
  const auto f = p.fidelity(a, b);
  c.checkf(std::abs(f - std::norm(inner(x, y))) < TOL, "vector:fidelity",
           [&] { return "of " + what() + " gave " + std::to_string(f); });
}
void matUnary(mc::Ctx& c, dd::Package& p, const Mat& x, std::size_t n) {
  const auto e = p.makeDDFromMatrix(rows(x));
  c.trans();
  c.state(ref::hashU(x));
  auto cmp = [&](const dd::mEdge& g, const Mat& w, const char* k) {
    const auto got = mat(g, n);
    c.checkf(ref::dist(got, w) < TOL, k,
             [&] { return "of " + ms(x) + " gave " + ms(got); });
  };
  cmp(e, x, "matrix:construct");
  cmp(p.conjugateTranspose(e), ref::adj(x), "matrix:conjugate-transpose");
  cmp(p.conjugateTranspose(p.conjugateTranspose(e)), x,
      "matrix:conjugate-transpose-twice");
  const auto t = static_cast<std::complex<double>>(p.trace(e, n));
  c.checkf(close(t, traceN(x)), "matrix:trace",
           [&] { return "of " + ms(x) + " gave " + cs(t); });
}
void matPair(mc::Ctx& c, dd::Package& p, const dd::mEdge& a, const Mat& x,
             const dd::mEdge& b, const Mat& y, std::size_t n) {
  c.trans();
  auto what = [&] { return ms(x) + " and " + ms(y); };
  const auto s = mat(p.add(a, b), n);
  c.checkf(ref::dist(s, addM(x, y)) < TOL, "matrix:add",
           [&] { return "of " + what() + " gave " + ms(s); });
  const auto m = mat(p.multiply(a, b), n);
  c.checkf(ref::dist(m, ref::mul(x, y)) < TOL, "matrix:multiply",
           [&] { return "of " + what() + " gave " + ms(m); });
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P14");
  r.assume("dense oracle: the entries given to the constructors and plain loops "
           "over them; numbers compared to 1e-9");
  r.assume("the trace of a matrix diagram is its normalised trace, as documented");
  r.assume("unique and compute tables with 64 buckets, so that entries collide; "
           "cases of one batch share one package and its tables");

  // ---- vectors
  const std::vector<C> al5{0, 1, -1, I1, 0.5};
  const std::vector<C> al4{0, 1, I1, -0.5};
  {
    const std::vector<std::size_t> lens =
        std::vector<std::size_t>{2, 4, 8};
    for (const auto len : lens) {
      const auto& al = len == 8 ? al4 : al5;
      std::uint64_t total = 1;
      for (std::size_t i = 0; i < len; ++i) {
        total *= al.size();
      }
      const std::size_t n = len == 2 ? 1 : (len == 4 ? 2 : 3);
      const std::uint64_t B = 128;
      r.space("vectors-" + std::to_string(n), (total + B - 1) / B,
              "all vectors with " + std::to_string(len) + " entries from " +
                  std::to_string(al.size()) + " values",
              [=](std::uint64_t i, mc::Ctx& c) {
                const Pk p(n);
                for (auto k = i * B; k < std::min(total, (i + 1) * B); ++k) {
                  vecUnary(c, *p, digitsVec(k, al, len), n);
                }
              });
    }
  }
  {
    const std::size_t n = 2;
    const auto& al = al5;
    std::uint64_t total = 1;
    for (std::size_t i = 0; i < 4; ++i) {
      total *= al.size();
    }
    r.space("vector-pairs", total,
            "all ordered pairs of 2-qubit vectors with entries from " +
                std::to_string(al.size()) + " values",
            [=](std::uint64_t i, mc::Ctx& c) {
              const Pk p(n);
              const auto x = digitsVec(i, al, 4);
              const auto a = p->makeStateFromVector({x.begin(), x.end()});
              for (std::uint64_t k = 0; k < total; ++k) {
                const auto y = digitsVec(k, al, 4);
                const auto b = p->makeStateFromVector({y.begin(), y.end()});
                vecPair(c, *p, a, x, b, y, n);
                vecPair(c, *p, b, y, a, x, n);
              }
              c.state(ref::hashVec(x));
            });
  }
  // the same on three qubits: pairs of permuted and re-weighted states
  {
    const std::vector<C> w{0, 1, I1};
    const std::uint64_t total = 6561;
    const std::uint64_t step = r.thorough ? 1 : 29;
    r.space("vector-pairs-3", (total + step - 1) / step,
            "3-qubit vectors with entries {0,1,i}: every " +
                std::to_string(step) + "th with all 6561",
            [=](std::uint64_t i, mc::Ctx& c) {
              const Pk p(3);
              const auto x = digitsVec(i * step, w, 8);
              const auto a = p->makeStateFromVector({x.begin(), x.end()});
              for (std::uint64_t k = 0; k < total; ++k) {
                const auto y = digitsVec(k, w, 8);
                const auto b = p->makeStateFromVector({y.begin(), y.end()});
                vecPair(c, *p, a, x, b, y, 3);
              }
              c.state(ref::hashVec(x));
            });
  }
  // ---- matrices
  {
    const std::vector<C> al{0, 1, -1, I1, 0.5};
    const std::uint64_t total = 625;
    r.space("matrix-pairs-1", total,
            "all ordered pairs of 2x2 matrices with entries from 5 values",
            [=](std::uint64_t i, mc::Ctx& c) {
              const Pk p(1);
              auto get = [&](std::uint64_t k) {
                const auto v = digitsVec(k, al, 4);
                return Mat{{v[0], v[1]}, {v[2], v[3]}};
              };
              const auto x = get(i);
              matUnary(c, *p, x, 1);
              const auto a = p->makeDDFromMatrix(rows(x));
              for (std::uint64_t k = 0; k < total; ++k) {
                const auto y = get(k);
                matPair(c, *p, a, x, p->makeDDFromMatrix(rows(y)), y, 1);
              }
              // all vectors
              for (std::uint64_t k = 0; k < 25; ++k) {
                const auto y = digitsVec(k, al, 2);
                const auto b = p->makeStateFromVector({y.begin(), y.end()});
                const auto g = vec(p->multiply(a, b), 1);
                c.trans();
                c.checkf(ref::dist(g, mulV(x, y)) < TOL, "matrix:vector", [&] {
                  return ms(x) + " times " + ref::vecStr(y) + " gave " +
                         ref::vecStr(g);
                });
              }
            });
  }
  {
    const std::uint64_t total = 65536;
    const std::uint64_t B = r.thorough ? 64 : 64;
    const std::uint64_t step = 1;
    const auto ds = doubles();
    r.space(
        "matrices-2", (total / step + B) / B,
        (step == 1 ? std::string("all") : "every 7th of the") +
            " 4x4 matrices with entries {0,1}: unary operations, sums and "
            "products with structured matrices, products with all 0/1 vectors",
        [=](std::uint64_t i, mc::Ctx& c) {
          const Pk p(2);
          std::size_t pick = i % ds.size();
          for (auto k = i * B; k < (i + 1) * B && k * step < total; ++k) {
            const auto bits = k * step;
            Mat x(4, Vec(4));
            for (std::size_t b = 0; b < 16; ++b) {
              x[b / 4][b % 4] = ((bits >> b) & 1U) != 0 ? 1. : 0.;
            }
            matUnary(c, *p, x, 2);
            const auto a = p->makeDDFromMatrix(rows(x));
            for (int t = 0; t < 4; ++t) {
              const auto& y = ds[pick];
              pick = (pick + 37) % ds.size();
              const auto b = p->makeDDFromMatrix(rows(y));
              matPair(c, *p, a, x, b, y, 2);
              matPair(c, *p, b, y, a, x, 2);
            }
            for (std::uint64_t v = 1; v < 16; ++v) {
              const auto y = digitsVec(v, {0, 1}, 4);
              const auto b = p->makeStateFromVector({y.begin(), y.end()});
              const auto g = vec(p->multiply(a, b), 2);
              c.trans();
              c.checkf(ref::dist(g, mulV(x, y)) < TOL, "matrix:vector", [&] {
                return ms(x) + " times " + ref::vecStr(y) + " gave " +
                       ref::vecStr(g);
              });
            }
          }
        });
    r.space("matrix-pairs-2", ds.size(),
            "all ordered pairs of " + std::to_string(ds.size()) +
                " structured 4x4 matrices (products, controlled, dense)",
            [=](std::uint64_t i, mc::Ctx& c) {
              const Pk p(2);
              const auto& x = ds[i];
              matUnary(c, *p, x, 2);
              const auto a = p->makeDDFromMatrix(rows(x));
              for (const auto& y : ds) {
                const auto b = p->makeDDFromMatrix(rows(y));
                matPair(c, *p, a, x, b, y, 2);
                matPair(c, *p, b, y, a, x, 2);
              }
            });
  }
  // ---- Kronecker products, in all orders within one package
  {
    const auto s = singles();
    const auto d = doubles();
    // operands: (matrix, qubits)
    std::vector<std::pair<Mat, std::size_t>> ops;
    for (const auto& m : s) {
      ops.emplace_back(m, 1);
    }
    for (std::size_t k = 0; k < d.size(); ++k) {
      ops.emplace_back(d[k], 2);
    }
    ops.emplace_back(ref::ident(2), 2);
    for (const auto k : {1U, 3U}) { // acts on the lowest of three qubits
      ops.emplace_back(kronM(ref::ident(2), s[k]), 3);
      ops.emplace_back(kronM(s[k], ref::ident(2)), 3);
      ops.emplace_back(kronM(kronM(ref::ident(1), s[k]), ref::ident(1)), 3);
    }
    r.space("kronecker-matrices", ops.size(),
            "all ordered pairs of " + std::to_string(ops.size()) +
                " matrices on 1 to 3 qubits, each pair computed twice around "
                "the other pairs of its batch",
            [=](std::uint64_t i, mc::Ctx& c) {
              const Pk p(6);
              const auto& [x, nx] = ops[i];
              const auto a = p->makeDDFromMatrix(rows(x));
              for (int round = 0; round < 2; ++round) {
                for (std::size_t k = 0; k < ops.size(); ++k) {
                  const auto& [y, ny] =
                      ops[round == 0 ? k : ops.size() - 1 - k];
                  const auto b = p->makeDDFromMatrix(rows(y));
                  const auto g = mat(p->kronecker(a, b, ny), nx + ny);
                  c.trans();
                  c.checkf(ref::dist(g, kronM(x, y)) < TOL, "matrix:kronecker",
                           [&, &y = y, &ny = ny, &x = x, &nx = nx] {
                             return "of " + ms(x) + " (" + std::to_string(nx) +
                                    " qubits) and " + ms(y) + " (" +
                                    std::to_string(ny) + " qubits) gave " +
                                    ms(g);
                           });
                }
              }
              c.state(ref::hashU(x));
            });
    // one step with, one without shifted index
    const std::size_t ns = s.size();
    r.space("kronecker-shift", ns * ns,
            "one-qubit matrices on a shifted qubit with and without index shift",
            [=](std::uint64_t i, mc::Ctx& c) {
              const auto& x = s[i % ns];
              const auto& y = s[i / ns];
              const Pk p(4);
              // x given on qubit 1 with lower identity
              const auto a = p->makeDDFromMatrix(rows(kronM(x, ref::ident(1))));
              const auto b = p->makeDDFromMatrix(rows(y));
              const auto w = kronM(x, y);
              const auto a0 = p->makeDDFromMatrix(rows(x));
              for (int round = 0; round < 2; ++round) {
                c.trans(2);
                const auto g0 = mat(p->kronecker(a0, b, 1), 2);
                c.checkf(ref::dist(g0, w) < TOL, "matrix:kronecker-shift",
                         [&] { return ms(x) + ms(y) + " gave " + ms(g0); });
                if (!isZeroM(x)) {
                  const auto g1 = mat(p->kronecker(a, b, 1, false), 2);
                  c.checkf(ref::dist(g1, w) < TOL, "matrix:kronecker-no-shift",
                           [&] { return ms(x) + ms(y) + " gave " + ms(g1); });
                  const auto g2 = mat(p->kronecker(a, b, 1, true), 3);
                  c.checkf(ref::dist(g2, kronM(kronM(x, ref::ident(1)), y)) <
                               TOL,
                           "matrix:kronecker-after-no-shift",
                           [&] { return ms(x) + ms(y) + " gave " + ms(g2); });
                }
              }
            });
    const std::vector<C> al{0, 1, I1, -0.5};
    std::vector<std::pair<Vec, std::size_t>> vs;
    vs.emplace_back(Vec{1}, 0);
    for (std::uint64_t k = 0; k < 16; ++k) {
      vs.emplace_back(digitsVec(k, al, 2), 1);
    }
    for (std::uint64_t k = 0; k < 256; k += 1) {
      vs.emplace_back(digitsVec(k, al, 4), 2);
    }
    r.space("kronecker-vectors", vs.size(),
            "all ordered pairs of " + std::to_string(vs.size()) +
                " vectors on 0 to 2 qubits",
            [=](std::uint64_t i, mc::Ctx& c) {
              const Pk p(4);
              const auto& [x, nx] = vs[i];
              const auto a = p->makeStateFromVector({x.begin(), x.end()});
              for (const auto& [y, ny] : vs) {
                const auto b = p->makeStateFromVector({y.begin(), y.end()});
                const auto e = p->kronecker(a, b, ny);
                const auto g = vec(e, nx + ny);
                c.trans();
                c.checkf(ref::dist(g, kronV(x, y)) < TOL, "vector:kronecker",
                         [&, &x = x, &y = y] {
                           return "of " + ref::vecStr(x) + " and " +
                                  ref::vecStr(y) + " gave " + ref::vecStr(g);
                         });
              }
              c.state(ref::hashVec(x));
            });
  }
  // ---- expectation values and fidelity of outcomes
  {
    const std::vector<C> al{0, 1, I1, -0.5};
    std::vector<Mat> herm{ref::ident(2)};
    for (const auto& a : doubles()) {
      herm.push_back(addM(a, ref::adj(a)));
    }
    r.space("expectation", 256,
            "all 255 2-qubit states with entries from 4 values (normalised) x " +
                std::to_string(herm.size()) +
                " Hermitian observables, outcome fidelities with every basis "
                "distribution and permutation",
            [=](std::uint64_t i, mc::Ctx& c) {
              auto x = digitsVec(i, al, 4);
              if (isZeroV(x)) {
                c.skip();
                return;
              }
              const auto nrm = std::sqrt(inner(x, x).real());
              for (auto& e : x) {
                e /= nrm;
              }
              const Pk p(3);
              const auto v = p->makeStateFromVector({x.begin(), x.end()});
              for (const auto& h : herm) {
                if (isZeroM(h)) {
                  continue;
                }
                const auto m = p->makeDDFromMatrix(rows(h));
                const auto got = p->expectationValue(m, v);
                const auto want = inner(x, mulV(h, x)).real();
                c.trans();
                c.checkf(std::abs(got - want) < TOL, "expectation", [&] {
                  return "of " + ms(h) + " in " + ref::vecStr(x) + " gave " +
                         std::to_string(got);
                });
              }
              c.state(ref::hashVec(x));
              bool thrown = false;
              try {
                p->expectationValue(
                    p->makeGateDD(dd::opToSingleQubitGateMatrix(qc::X), 2), v);
              } catch (const std::invalid_argument&) {
                thrown = true;
              }
              c.check(thrown, "expectation:refuse",
                      "observable on a missing qubit accepted");
              // outcome fidelity: sum_i |x_i| sqrt(q_i)
              const std::vector<std::array<double, 4>> qs{
                  {1, 0, 0, 0}, {0, 1, 0, 0},     {0, 0, 1, 0},
                  {0, 0, 0, 1}, {.1, .2, .3, .4}, {0, .25, .75, 0}};
              const std::vector<Permutation> perms{
                  Permutation{}, Permutation{{0, 0}, {1, 1}}, Permutation{{0, 1}, {1, 0}}};
              for (const auto& q : qs) {
                dd::SparsePVec sp;
                for (std::size_t k = 0; k < 4; ++k) {
                  if (q[k] > 0) {
                    sp[k] = q[k];
                  }
                }
                for (std::size_t pi = 0; pi < perms.size(); ++pi) {
                  const auto& pm = perms[pi];
                  double want = 0;
                  for (std::size_t k = 0; k < 4; ++k) {
                    const auto idx = pi == 2 ? ((k & 1) << 1) | (k >> 1) : k;
                    want += std::abs(x[k]) * std::sqrt(q[idx]);
                  }
                  const auto got =
                      dd::Package::fidelityOfMeasurementOutcomes(v, sp, pm);
                  c.trans();
                  c.checkf(std::abs(got - want) < TOL, "outcome-fidelity", [&] {
                    return "of " + ref::vecStr(x) + " permutation " +
                           std::to_string(pi) + " gave " + std::to_string(got) +
                           " wanted " + std::to_string(want);
                  });
                }
              }
            });
    // three qubits, all permutations
    r.space("outcome-fidelity-3", 8 * 6,
            "three-qubit basis states x all 6 permutations x all outcomes",
            [=](std::uint64_t i, mc::Ctx& c) {
              const Pk p(3);
              const auto s = i % 8;
              std::vector<Qubit> a{0, 1, 2};
              for (std::uint64_t k = 0; k < i / 8; ++k) {
                std::next_permutation(a.begin(), a.end());
              }
              Permutation pm;
              std::size_t want = 0;
              for (Qubit q = 0; q < 3; ++q) {
                pm[q] = a[q];
                want |= ((s >> q) & 1U) << a[q];
              }
              const auto v = p->makeBasisState(
                  3, std::vector<bool>{(s & 1) != 0, (s & 2) != 0, (s & 4) != 0});
              for (std::size_t o = 0; o < 8; ++o) {
                const auto got = dd::Package::fidelityOfMeasurementOutcomes(
                    v, {{o, 1.}}, pm);
                c.trans();
                c.checkf(std::abs(got - (o == want ? 1. : 0.)) < TOL,
                         "outcome-fidelity-3", [&] {
                           return "basis state " + std::to_string(s) +
                                  " permutation " + ref::permStr(pm) +
                                  " outcome " + std::to_string(o) + " gave " +
                                  std::to_string(got);
                         });
              }
            });
  }
  // ---- sequences of operations: results feed later operations, all orders
  {
    struct Item {
      dd::mEdge e;
      Mat m;
    };
    const auto s = singles();
    auto pool = [s](dd::Package& p) {
      std::vector<Item> r;
      auto put = [&](const Mat& m) {
        r.push_back({p.makeDDFromMatrix(rows(m)), m});
      };
      const auto id1 = ref::ident(1);
      put(kronM(kronM(s[3], id1), id1)); // H on the top qubit
      put(kronM(id1, kronM(id1, s[6]))); // S on the lowest
      put(kronM(id1, kronM(s[1], id1))); // X in the middle
      put(kronM(fromRows({1, 0, 0, 0}), kronM(id1, s[8])));
      const auto ds = doubles();
      put(kronM(ds[121], id1)); // controlled
      put(kronM(id1, ds[ds.size() - 5])); // SWAP
      return r;
    };
    const std::size_t k = 6;
    // op code: 0..35 mul(i,j); 36..71 add(i,j); 72..77 adj(i)
    const std::size_t nops = 2 * k * k + k;
    const std::size_t extra = k + 1; // operands including the last result
    const std::size_t nops2 = 2 * extra * extra + extra;
    const std::size_t nops3 = 2 * (k + 2) * (k + 2) + (k + 2);
    r.space("sequences-2", nops,
            "all sequences of two operations (product, sum, adjoint) over 6 "
            "three-qubit matrices and the first result" +
                std::string(r.thorough ? ", each followed by all third "
                                         "operations"
                                       : ""),
            [=, thorough = r.thorough](std::uint64_t i, mc::Ctx& c) {
              Pk pk(3);
              auto items = pool(*pk);
              auto apply = [&](std::size_t code,
                               const std::vector<Item>& it) -> Item {
                const std::size_t n = it.size();
                if (code < n * n) {
                  const auto& a = it[code / n];
                  const auto& b = it[code % n];
                  return {pk->multiply(a.e, b.e), ref::mul(a.m, b.m)};
                }
                code -= n * n;
                if (code < n * n) {
                  const auto& a = it[code / n];
                  const auto& b = it[code % n];
                  return {pk->add(a.e, b.e), addM(a.m, b.m)};
                }
                code -= n * n;
                return {pk->conjugateTranspose(it[code].e),
                        ref::adj(it[code].m)};
              };
              auto check = [&](const Item& x, const char* key,
                               const std::string& what) {
                c.trans();
                const auto g = mat(x.e, 3);
                c.checkf(ref::dist(g, x.m) < TOL, key, [&] {
                  return what + " gave " + ms(g) + " wanted " + ms(x.m);
                });
              };
              const auto r1 = apply(i, items);
              check(r1, "sequence:1", "operation " + std::to_string(i));
              items.push_back(r1);
              for (std::size_t j = 0; j < nops2; ++j) {
                const auto r2 = apply(j, items);
                check(r2, "sequence:2",
                      "operations " + std::to_string(i) + "," +
                          std::to_string(j));
                c.state(ref::hashU(r2.m));
                if (thorough) {
                  items.push_back(r2);
                  for (std::size_t l = 0; l < nops3; ++l) {
                    check(apply(l, items), "sequence:3",
                          "operations " + std::to_string(i) + "," +
                              std::to_string(j) + "," +
                              std::to_string(l));
                  }
                  items.pop_back();
                }
              }
            });
  }
  { // states that the package builds itself
    const std::size_t nb = r.thorough ? 6 : 5;
    std::uint64_t total = 1;
    for (std::size_t k = 0; k < nb; ++k) {
      total *= 6;
    }
    r.space("product-states", total / 6,
            "all products of the six one-qubit basis states on up to " +
                std::to_string(nb) + " qubits",
            [=](std::uint64_t hi, mc::Ctx& c) {
              static const C s2 = std::sqrt(0.5);
              static const std::array<Vec, 6> one{
                  {{1, 0}, {0, 1}, {s2, s2}, {s2, -s2}, {s2, I1 * s2}, {s2, -I1 * s2}}};
              dd::Package p(nb);
              for (std::uint64_t lo = 0; lo < 6; ++lo) {
                for (std::size_t n = nb; n > 0; --n) {
                  std::vector<dd::BasisStates> st;
                  std::vector<bool> bits;
                  bool classical = true;
                  Vec want{1};
                  auto x = (hi * 6) + lo;
                  for (std::size_t k = 0; k < n; ++k, x /= 6) {
                    st.push_back(static_cast<dd::BasisStates>(x % 6));
                    bits.push_back(x % 6 == 1);
                    classical = classical && x % 6 < 2;
                    want = kronV(one[x % 6], want);
                  }
                  if (x != 0) {
                    continue; // longer states are listed once
                  }
                  c.trans();
                  c.state(ref::hashVec(want));
                  const auto check = [&](const dd::vEdge& e, const char* key) {
                    const auto g = e.getVector();
                    double d = g.size() == want.size() ? 0 : 1;
                    for (std::size_t i = 0; i < want.size() && d < 1; ++i) {
                      d = std::max(d, std::abs(g[i] - want[i]));
                    }
                    c.checkf(d < TOL, key, [&] {
                      return "state " + ref::vecStr(g) + " instead of " + ref::vecStr(want);
                    });
                  };
                  check(p.makeBasisState(n, st), "product-state");
                  if (classical) {
                    check(p.makeBasisState(n, bits), "basis-state");
                  }
                }
              }
            });
    const std::size_t nw = 63;
    r.space("named-states", (nw + 1) * 3,
            "zero, GHZ and W states on up to 63 qubits: the amplitudes that are "
            "not zero, and 200 others; too small packages",
            [=](std::uint64_t i, mc::Ctx& c) {
              const auto n = i / 3;
              const auto kind = i % 3;
              dd::Package p(nw);
              const auto make = [&](dd::Package& q, std::size_t k) {
                return kind == 0   ? q.makeZeroState(k)
                       : kind == 1 ? q.makeGHZState(k)
                                   : q.makeWState(k);
              };
              const auto e = make(p, n);
              c.trans();
              c.state(i);
              const auto amplitude = [&](std::uint64_t x) -> C {
                if (n == 0) {
                  return 1;
                }
                const auto all = (std::uint64_t{1} << n) - 1;
                const auto ones = __builtin_popcountll(x);
                return kind == 0   ? (x == 0 ? 1. : 0.)
                       : kind == 1 ? (n == 0 ? 1. : x == 0 || x == all ? std::sqrt(0.5) : 0.)
                                   : (ones == 1 ? 1 / std::sqrt(static_cast<double>(n)) : 0.);
              };
              const auto check = [&](std::uint64_t x) {
                auto want = amplitude(x);
                if (kind == 1 && n == 1) {
                  want = std::sqrt(0.5);
                }
                const auto got = n == 0 ? static_cast<std::complex<double>>(e.w)
                                        : e.getValueByIndex(x);
                c.checkf(std::abs(got - want) < 1e-9, "named-state", [&] {
                  return "kind " + std::to_string(kind) + " n=" + std::to_string(n) +
                         " amplitude " + std::to_string(x) + " is " +
                         std::to_string(got.real());
                });
              };
              const auto all = n == 0 ? 0 : (std::uint64_t{1} << n) - 1;
              check(0);
              check(all);
              for (std::size_t k = 0; k < n; ++k) {
                check(std::uint64_t{1} << k);
                check(all ^ (std::uint64_t{1} << k));
                check((std::uint64_t{1} << k) | 1U);
              }
              for (std::uint64_t k = 0; k < 200; ++k) {
                check((k * 0x9E3779B97F4A7C15ULL) & all);
              }
              c.checkf(n == 0 || (e.p->v + 1U == n),
                       "named-state-size", [&] { return std::to_string(i); });
              bool refused = false;
              if (n > 0) {
                dd::Package small(n - 1);
                try {
                  make(small, n);
                } catch (const std::exception&) {
                  refused = true;
                }
                c.checkf(refused, "named-state-refused", [&] { return std::to_string(i); });
              }
            });
  }
  return r.finish();
}
