// P25: the circuits of the algorithm generators against the textbook outcome.
#include "algorithms/BernsteinVazirani.hpp"
#include "algorithms/GHZState.hpp"
#include "algorithms/Grover.hpp"
#include "algorithms/QFT.hpp"
#include "algorithms/QPE.hpp"
#include "algorithms/RandomCliffordCircuit.hpp"
#include "algorithms/StatePreparation.hpp"
#include "algorithms/WState.hpp"
#include "mc.hpp"
#include "ref.hpp"

using namespace qc;
using ref::Bits;
using ref::Branch;
using ref::C;
using ref::Dist;
using ref::Vec;
namespace {
constexpr double TOL = 1e-9;
const double PIX = std::acos(-1.);

Vec zero(std::size_t n) {
  Vec v(1ULL << n);
  v[0] = 1;
  return v;
}
std::vector<Branch> run(const QuantumComputation& q, Vec init) {
  std::vector<Branch> br(1);
  br[0].v = std::move(init);
  for (const auto& op : q) {
    ref::stepDyn(br, *op);
  }
  return br;
}
std::vector<Branch> run(const QuantumComputation& q) {
  return run(q, zero(q.getNqubits()));
}
Bits rev(Bits x, std::size_t n) {
  Bits r = 0;
  for (std::size_t i = 0; i < n; ++i) {
    r |= ((x >> i) & 1U) << (n - 1 - i);
  }
  return r;
}
std::string bits(Bits b, std::size_t n) {
  std::string s;
  for (std::size_t i = n; i-- > 0;) {
    s += ((b >> i) & 1U) != 0 ? '1' : '0';
  }
  return s;
}
void compare(mc::Ctx& c, const QuantumComputation& q, const Dist& got,
             const Dist& want, const char* key, double tol = TOL) {
  std::uint64_t h = 1469;
  for (const auto& [k, p] : got) {
    h = h * 1099511628211ULL + k * 131 +
        static_cast<std::uint64_t>(std::llround(p * 1e7));
  }
  c.state(h);
  c.trans(q.size());
  c.checkf(ref::distD(got, want) < tol, key, [&] {
    return q.getName() + ": outcomes " + ref::distStr(got) + " instead of " +
           ref::distStr(want);
  });
}
// measured circuits list every result as an output of the measured qubit
void outputs(mc::Ctx& c, const QuantumComputation& q) {
  for (const auto& op : q) {
    if (op->getType() != Measure) {
      continue;
    }
    const auto& m = dynamic_cast<const NonUnitaryOperation&>(*op);
    for (std::size_t i = 0; i < m.getTargets().size(); ++i) {
      const auto it = q.outputPermutation.find(m.getTargets()[i]);
      c.checkf(it != q.outputPermutation.end() && it->second == m.getClassics()[i],
               "output-permutation", [&] {
                 return q.getName() + ": output permutation " +
                        ref::permStr(q.outputPermutation);
               });
    }
  }
}
// distribution of phase estimation for the eigenvalue exp(i*pi*lambda)
Dist qpeIdeal(double lambda, std::size_t n) {
  const std::size_t nn = 1ULL << n;
  Dist d;
  for (std::size_t y = 0; y < nn; ++y) {
    C s = 0;
    for (std::size_t k = 0; k < nn; ++k) {
      const auto kk = static_cast<double>(k);
      s += std::polar(1., PIX * kk *
                              (lambda - 2. * static_cast<double>(y) /
                                            static_cast<double>(nn)));
    }
    const auto p = std::norm(s / static_cast<double>(nn));
    if (p > 1e-12) {
      d[y] = p;
    }
  }
  return d;
}
void bv(mc::Ctx& c, const QuantumComputation& q, Bits want, std::size_t n,
        bool iterative) {
  compare(c, q, ref::distribution(run(q)), {{want, 1.}},
          iterative ? "iterative-bv" : "bv");
  const auto expect =
      std::string(iterative ? "iterative_bv_" : "bv_") + bits(want, n);
  c.checkf(q.getName() == expect, "bv-name",
           [&] { return q.getName() + " instead of " + expect; });
  c.checkf(q.getNcbits() == n, "bv-bits", [&] { return q.getName(); });
  if (!iterative) {
    outputs(c, q);
  }
}
// Simulation of many qubits that stay in a product state: in every gate all but
// one of the qubits is in a basis state
struct Product {
  std::vector<std::array<C, 2>> s;
  std::map<Bit, bool> bits; // measured with certainty
  bool supported = true;
  bool certain = true;
  explicit Product(std::size_t n) : s(n, {C(1), C(0)}) {}
  // the value of a qubit in a basis state, or -1
  [[nodiscard]] int basis(Qubit q) const {
    return std::norm(s[q][1]) < 1e-16 ? 0 : std::norm(s[q][0]) < 1e-16 ? 1 : -1;
  }
  void one(Qubit q, const Vec& m) {
    s[q] = {m[0] * s[q][0] + m[1] * s[q][1], m[2] * s[q][0] + m[3] * s[q][1]};
  }
  void run(const QuantumComputation& qc) {
    for (const auto& op : qc) {
      step(*op);
    }
  }
  void step(const Operation& op) {
    const auto t = op.getType();
    if (t == Barrier) {
      return;
    }
    if (t == Measure) {
      const auto& m = dynamic_cast<const NonUnitaryOperation&>(op);
      for (std::size_t i = 0; i < m.getTargets().size(); ++i) {
        const auto b = basis(m.getTargets()[i]);
        certain = certain && b >= 0;
        bits[m.getClassics()[i]] = b == 1;
      }
      return;
    }
    if (t == SWAP && op.getControls().empty()) {
      std::swap(s[op.getTargets()[0]], s[op.getTargets()[1]]);
      return;
    }
    if (!op.isStandardOperation() || op.getTargets().size() != 1) {
      supported = false;
      return;
    }
    const auto q = op.getTargets()[0];
    const auto m = ref::gateMatrix(t, op.getParameter());
    std::vector<Control> open;
    for (const auto& c : op.getControls()) {
      const auto b = basis(c.qubit);
      if (b < 0) {
        open.push_back(c);
      } else if ((b == 1) != (c.type == Control::Type::Pos)) {
        return; // not active
      }
    }
    if (open.empty()) {
      one(q, m);
      return;
    }
    const auto b = basis(q);
    if (open.size() > 1 || b < 0 || std::abs(m[1]) + std::abs(m[2]) > 1e-12) {
      supported = false;
      return;
    }
    const auto ph = m[b == 0 ? 0 : 3];
    s[open[0].qubit][open[0].type == Control::Type::Pos ? 1 : 0] *= ph;
  }
  // overlap of one qubit with a state, the phase being ignored
  [[nodiscard]] bool is(Qubit q, C a, C b) const {
    return std::abs(std::abs(std::conj(a) * s[q][0] + std::conj(b) * s[q][1]) - 1) < 1e-12;
  }
};
// Simulation of states with few basis states on many qubits
struct Sparse {
  std::map<std::vector<bool>, C> a;
  bool supported = true;
  explicit Sparse(const std::vector<bool>& x) { a[x] = 1; }
  void run(const QuantumComputation& qc) {
    for (const auto& op : qc) {
      step(*op);
    }
  }
  void step(const Operation& op) {
    const auto t = op.getType();
    if (t == Barrier || t == I) {
      return;
    }
    if (!op.isStandardOperation() || op.getTargets().empty() ||
        (op.getTargets().size() != 1 && t != SWAP) || a.size() > 4096) {
      supported = false;
      return;
    }
    std::map<std::vector<bool>, C> r;
    const auto m = t == SWAP ? Vec{} : ref::gateMatrix(t, op.getParameter());
    for (const auto& [x, v] : a) {
      bool on = true;
      for (const auto& c : op.getControls()) {
        on = on && x[c.qubit] == (c.type == Control::Type::Pos);
      }
      if (!on) {
        r[x] += v;
        continue;
      }
      auto y = x;
      const auto q = op.getTargets()[0];
      if (t == SWAP) {
        y[q] = x[op.getTargets()[1]];
        y[op.getTargets()[1]] = x[q];
        r[y] += v;
        continue;
      }
      const std::size_t in = x[q] ? 1 : 0;
      for (std::size_t o = 0; o < 2; ++o) {
        y[q] = o != 0;
        r[y] += m[(2 * o) + in] * v;
      }
    }
    a.clear();
    for (const auto& [x, v] : r) {
      if (std::abs(v) > 1e-13) {
        a[x] = v;
      }
    }
  }
};
// a family of bit strings: one bit, all bits from k up, every third bit from k
std::vector<bool> family(std::size_t n, std::size_t k, std::size_t kind) {
  std::vector<bool> x(n);
  for (std::size_t i = 0; i < n; ++i) {
    x[i] = kind == 0 ? i == k : kind == 1 ? i >= k : i >= k && (i - k) % 3 == 0;
  }
  return x;
}
// U P U^dagger of a Clifford U and a Pauli P is a Pauli up to sign
bool isPauli(const std::vector<Vec>& m) {
  const auto n = m.size();
  std::size_t x = n;
  for (std::size_t i = 0; i < n; ++i) {
    if (std::abs(m[0][i]) > 0.5) {
      x = i;
    }
  }
  if (x == n) {
    return false;
  }
  const C f = m[0][x];
  std::size_t z = 0;
  for (std::size_t b = 1; b < n; b <<= 1U) {
    z |= std::abs(m[b][b ^ x] + f) < 1e-6 ? b : 0;
  }
  for (std::size_t i = 0; i < n; ++i) {
    for (std::size_t o = 0; o < n; ++o) {
      C want = 0;
      if (o == (i ^ x)) {
        want = __builtin_parityll(i & z) != 0 ? -f : f;
      }
      if (std::abs(m[i][o] - want) > 1e-6) {
        return false;
      }
    }
  }
  return std::abs(std::abs(f) - 1) < 1e-6;
}
void clifford(mc::Ctx& c, Qubit n, std::size_t depth, std::size_t seed) {
  const auto q = createRandomCliffordCircuit(n, depth, seed);
  c.trans();
  const auto at = [&] {
    return "random Clifford " + std::to_string(n) + " qubits, depth " +
           std::to_string(depth) + ", seed " + std::to_string(seed) + ": " +
           ref::qcStr(q);
  };
  const auto q2 = createRandomCliffordCircuit(n, depth, seed);
  c.checkf(ref::qcStr(q) == ref::qcStr(q2), "clifford-reproducible", at);
  c.checkf(q.getNqubits() == n && q.getNcbits() == n, "clifford-size", at);
  bool unit = true;
  for (const auto& op : q) {
    unit = unit && op->isUnitary();
  }
  c.checkf(unit, "clifford-unitary", at);
  if (!unit) {
    return;
  }
  const auto u = ref::unitary(q, n);
  c.state(ref::hashU(u));
  const auto ud = ref::adj(u);
  for (Qubit i = 0; i < n; ++i) {
    for (const auto t : {X, Z}) {
      const StandardOperation p(i, t);
      const auto pm = ref::unitaryOp(p, n);
      // columns: m[in] = U P U^dagger |in>
      const auto a = ref::mul(ref::mul(u, pm), ud);
      const auto b = ref::mul(ref::mul(ud, pm), u);
      c.checkf(isPauli(a) && isPauli(b), "clifford", at);
    }
  }
}
void prep(mc::Ctx& c, const Vec& amps, std::size_t n, double tol = 1e-6) {
  const auto q = createStatePreparationCircuit(amps);
  c.trans(q.size());
  c.checkf(q.getNqubits() == n, "state-preparation-size",
           [&] { return ref::vecStr(amps); });
  const auto u = ref::unitary(q, n);
  c.state(ref::hashVec(u[0]));
  c.checkf(ref::dist(u[0], amps) < tol, "state-preparation", [&] {
    return "asked for " + ref::vecStr(amps) + " got " + ref::vecStr(u[0]) + ": " +
           ref::qcStr(q);
  });
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P25");
  const bool th = r.thorough;
  r.assume("sizes of at least one qubit; the QFT circuit without measurements is "
           "the Fourier transform on its physical qubits, most significant "
           "qubit first");

  const std::size_t ns = th ? 14 : 12;
  r.space("ghz-w", 2 * ns, "GHZ and W states up to " + std::to_string(ns) + " qubits",
          [&](std::uint64_t idx, mc::Ctx& c) {
            const auto n = static_cast<Qubit>(idx / 2 + 1);
            const bool w = idx % 2 != 0;
            const auto q = w ? createWState(n) : createGHZState(n);
            Vec want(1ULL << n);
            if (w) {
              for (Qubit i = 0; i < n; ++i) {
                want[1ULL << i] = 1 / std::sqrt(static_cast<double>(n));
              }
            } else {
              want.front() = std::sqrt(0.5);
              want.back() = std::sqrt(0.5);
            }
            const auto br = run(q);
            c.trans(q.size());
            c.state(ref::hashVec(br[0].v));
            c.checkf(q.getNqubits() == n && br.size() == 1 &&
                         std::abs(std::abs([&] {
                                    C s = 0;
                                    for (std::size_t i = 0; i < want.size(); ++i) {
                                      s += std::conj(want[i]) * br[0].v[i];
                                    }
                                    return s;
                                  }()) -
                                  1) < TOL,
                     w ? "w-state" : "ghz-state", [&] { return ref::qcStr(q); });
          });

  const std::size_t nf = th ? 9 : 8;
  r.space("qft", nf + 1, "QFT matrix up to " + std::to_string(nf) + " qubits",
          [&](std::uint64_t n, mc::Ctx& c) {
            const auto q = createQFT(static_cast<Qubit>(n), false);
            c.trans(q.size());
            const auto u = ref::unitary(q, n);
            c.state(ref::hashU(u));
            const auto nn = 1ULL << n;
            double d = 0;
            for (std::size_t x = 0; x < nn; ++x) {
              for (std::size_t y = 0; y < nn; ++y) {
                const auto want =
                    std::polar(1 / std::sqrt(static_cast<double>(nn)),
                               2 * PIX *
                                   static_cast<double>(rev(x, n) * rev(y, n) % nn) /
                                   static_cast<double>(nn));
                d = std::max(d, std::abs(u[x][y] - want));
              }
            }
            c.checkf(d < TOL, "qft-matrix", [&] {
              return "QFT on " + std::to_string(n) + " qubits differs by " +
                     std::to_string(d) + ": " + ref::qcStr(q);
            });
          });

  // inputs whose Fourier transform is a basis state are product states; the
  // iterative circuit takes them one qubit at a time
  const std::size_t nm = th ? 11 : 9;
  r.space(
      "qft-measured", 1ULL << (nm + 1),
      "QFT with measurements and iterative QFT up to " + std::to_string(nm) +
          " qubits, all inputs that transform to basis states, and |0..0>",
      [&](std::uint64_t idx, mc::Ctx& c) {
        std::size_t n = 0;
        auto y = idx;
        while (y >= (1ULL << n)) {
          y -= 1ULL << n;
          ++n;
        }
        if (n == 0 || n > nm) {
          return;
        }
        const auto ry = static_cast<double>(rev(y, n));
        const auto phase = [&](std::size_t q) {
          return -2 * PIX * ry / static_cast<double>(2ULL << q);
        };
        const auto q = createQFT(static_cast<Qubit>(n), true);
        const auto it = createIterativeQFT(static_cast<Qubit>(n));
        QuantumComputation pre(n);
        for (Qubit i = 0; i < n; ++i) {
          pre.h(i);
          pre.p(phase(i), i);
        }
        auto v = zero(n);
        for (const auto& op : pre) {
          ref::applyOp(v, *op);
        }
        const Dist want{{y, 1.}};
        compare(c, q, ref::distribution(run(q, v)), want, "qft-outcome");
        outputs(c, q);
        c.checkf(it.getNqubits() == 1 && it.getNcbits() == n, "iterative-qft-size",
                 [&] { return ref::qcStr(it); });
        std::vector<Branch> br(1);
        br[0].v = zero(1);
        std::size_t k = 0;
        const auto prepare = [&] {
          QuantumComputation p(1);
          p.h(0);
          p.p(phase(k++), 0);
          for (const auto& op : p) {
            ref::stepDyn(br, *op);
          }
        };
        prepare();
        for (const auto& op : it) {
          ref::stepDyn(br, *op);
          if (op->getType() == Reset) {
            prepare();
          }
        }
        c.checkf(k == n, "iterative-qft-size", [&] { return ref::qcStr(it); });
        compare(c, it, ref::distribution(br), want, "iterative-qft");
        if (y == 0) {
          compare(c, it, ref::distribution(run(it)), ref::distribution(run(q)),
                  "iterative-qft-zero");
        }
      });

  // phase estimation
  const std::size_t np = th ? 8 : 7;
  struct Qpe {
    std::size_t n;
    double lambda;
  };
  std::vector<Qpe> ph;
  for (std::size_t n = 1; n <= np; ++n) {
    const auto den = 1ULL << (n + 1); // lambda in (-2, 2) and beyond one period
    for (std::int64_t k = -static_cast<std::int64_t>(den);
         k <= static_cast<std::int64_t>(2 * den); ++k) {
      ph.push_back({n, 2. * static_cast<double>(k) / static_cast<double>(den)});
    }
    for (const double l : {1. / 3, 0.1, 1.9999, -0.7, 1e-3, 2. / 7, 1e-12}) {
      ph.push_back({n, l});
    }
  }
  r.space("qpe-phase", ph.size(),
          "phase estimation, up to " + std::to_string(np) +
              " bits, all phases of one bit more than the precision over three "
              "periods and 7 others; standard and iterative",
          [&](std::uint64_t i, mc::Ctx& c) {
            const auto [n, l] = ph[i];
            const auto want = qpeIdeal(l, n);
            const auto q = createQPE(l, static_cast<Qubit>(n));
            compare(c, q, ref::distribution(run(q)), want, "qpe");
            outputs(c, q);
            const auto it = createIterativeQPE(l, static_cast<Qubit>(n));
            compare(c, it, ref::distribution(run(it)), want, "iterative-qpe");
          });
  const std::size_t seeds = th ? 400 : 60;
  r.space("qpe-seed", seeds * np * 2,
          "random exact and inexact phases, " + std::to_string(seeds) + " seeds",
          [&](std::uint64_t idx, mc::Ctx& c) {
            const bool exact = idx % 2 == 0;
            const auto n = static_cast<Qubit>(idx / 2 % np + 1);
            const auto seed = idx / 2 / np + 1;
            for (const bool iter : {false, true}) {
              const auto q =
                  iter ? createIterativeQPE(n, exact, seed) : createQPE(n, exact, seed);
              const auto l = q.getGlobalPhase();
              const auto got = ref::distribution(run(q));
              compare(c, q, got, qpeIdeal(l, n), iter ? "iterative-qpe" : "qpe");
              const auto k = l / 2 * std::pow(2., n);
              c.checkf(l > 0 && l < 2 &&
                           (exact ? std::abs(k - std::round(k)) < 1e-9 &&
                                        got.size() == 1
                                  : std::abs(std::abs(k - std::floor(k)) - 0.5) <
                                        1e-9),
                       "qpe-exactness", [&] {
                         return q.getName() + (exact ? " exact" : " inexact") +
                                " has the phase " + std::to_string(l);
                       });
              const auto q2 =
                  iter ? createIterativeQPE(n, exact, seed) : createQPE(n, exact, seed);
              c.checkf(ref::qcStr(q) == ref::qcStr(q2), "qpe-reproducible",
                       [&] { return q.getName(); });
            }
          });

  const std::size_t nb = th ? 9 : 8;
  r.space("bv", 1ULL << (nb + 1),
          "Bernstein-Vazirani, all hidden strings up to " + std::to_string(nb) +
              " bits, with explicit and implied size",
          [&](std::uint64_t idx, mc::Ctx& c) {
            std::size_t n = 0;
            auto s = idx;
            while (s >= (1ULL << n)) {
              s -= 1ULL << n;
              ++n;
            }
            if (n == 0 || n > nb) {
              return;
            }
            const BVBitString b(s);
            const auto nq = static_cast<Qubit>(n);
            bv(c, createBernsteinVazirani(b, nq), s, n, false);
            bv(c, createIterativeBernsteinVazirani(b, nq), s, n, true);
            if ((s >> (n - 1)) != 0 || n == 1) {
              bv(c, createBernsteinVazirani(b), s, n, false);
              bv(c, createIterativeBernsteinVazirani(b), s, n, true);
            }
          });
  r.space("bv-long", 63 * 64,
          "iterative Bernstein-Vazirani, sizes up to 63, strings of one run of "
          "ones from bit k up",
          [&](std::uint64_t idx, mc::Ctx& c) {
            const auto n = idx / 64 + 1;
            const auto k = idx % 64;
            if (k >= n) {
              return;
            }
            const Bits all = n == 64 ? ~0ULL : (1ULL << n) - 1;
            for (const Bits s : {Bits{1} << k, all & ~((Bits{1} << k) - 1)}) {
              bv(c,
                 createIterativeBernsteinVazirani(BVBitString(s),
                                                  static_cast<Qubit>(n)),
                 s, n, true);
            }
          });
  r.space("bv-seed", seeds * nb, "random hidden strings",
          [&](std::uint64_t idx, mc::Ctx& c) {
            const auto n = static_cast<Qubit>(idx % nb + 1);
            const auto seed = idx / nb + 1;
            for (const bool iter : {false, true}) {
              const auto mk = [&] {
                return iter ? createIterativeBernsteinVazirani(n, seed)
                            : createBernsteinVazirani(n, seed);
              };
              const auto q = mk();
              const auto d = ref::distribution(run(q));
              c.checkf(d.size() == 1, "bv-deterministic", [&] {
                return q.getName() + ": " + ref::distStr(d);
              });
              bv(c, q, d.begin()->first, n, iter);
              c.checkf(ref::qcStr(q) == ref::qcStr(mk()), "bv-reproducible",
                       [&] { return q.getName(); });
            }
          });

  const auto ideal = [](std::size_t n, std::size_t k, Bits t) {
    const auto nn = static_cast<double>(1ULL << n);
    const auto s = std::sin(static_cast<double>(2 * k + 1) * std::asin(1 / std::sqrt(nn)));
    Dist d;
    for (Bits b = 0; b < (1ULL << n); ++b) {
      const auto p = b == t ? s * s : (1 - s * s) / (nn - 1);
      if (p > 1e-12) {
        d[b] = p;
      }
    }
    return d;
  };
  const std::size_t ng = th ? 8 : 7;
  r.space("grover", 1ULL << (ng + 1),
          "Grover search, all targets up to " + std::to_string(ng) + " bits",
          [&](std::uint64_t idx, mc::Ctx& c) {
            std::size_t n = 0;
            auto t = idx;
            while (t >= (1ULL << n)) {
              t -= 1ULL << n;
              ++n;
            }
            if (n == 0 || n > ng) {
              return;
            }
            const auto nq = static_cast<Qubit>(n);
            const auto k = computeNumberOfIterations(nq);
            const auto q = createGrover(nq, GroverBitString(t));
            compare(c, q, ref::distribution(run(q)), ideal(n, k, t), "grover");
            outputs(c, q);
            // step by step
            QuantumComputation g(n + 1, n);
            appendGroverInitialization(g);
            for (std::size_t j = 0; j <= std::min<std::size_t>(k + 2, 6); ++j) {
              Dist d;
              const auto br = run(g);
              for (std::size_t i = 0; i < br[0].v.size(); ++i) {
                if (std::norm(br[0].v[i]) > 1e-13) {
                  d[i & ((1ULL << n) - 1)] += std::norm(br[0].v[i]);
                }
              }
              compare(c, g, d, ideal(n, j, t), "grover-step");
              appendGroverOracle(g, GroverBitString(t));
              appendGroverDiffusion(g);
            }
          });
  r.space("grover-iterations", 100, "number of iterations for 1..100 qubits",
          [&](std::uint64_t i, mc::Ctx& c) {
            const auto n = static_cast<Qubit>(i + 1);
            const auto k = computeNumberOfIterations(n);
            c.trans();
            c.state(k);
            const auto opt = PIX / 4 * std::pow(2., n / 2.);
            c.checkf(n <= 2 ? k == 1
                            : std::abs(static_cast<double>(k) - opt) <=
                                  0.5 + 1e-9 * opt,
                     "grover-iterations", [&] {
                       return std::to_string(n) + " qubits: " + std::to_string(k);
                     });
          });
  r.space("grover-seed", seeds * 5, "random targets",
          [&](std::uint64_t idx, mc::Ctx& c) {
            const auto n = static_cast<Qubit>(idx % 5 + 1);
            const auto q = createGrover(n, idx / 5 + 1);
            const auto d = ref::distribution(run(q));
            double best = 1e9;
            for (Bits t = 0; t < (1ULL << n); ++t) {
              best = std::min(best, ref::distD(d, ideal(n, computeNumberOfIterations(n), t)));
            }
            c.trans(q.size());
            c.checkf(best < TOL, "grover-random",
                     [&] { return q.getName() + ": " + ref::distStr(d); });
            c.checkf(ref::qcStr(q) == ref::qcStr(createGrover(n, idx / 5 + 1)),
                     "grover-reproducible", [&] { return q.getName(); });
          });

  // state preparation
  const std::vector<C> coarse{0., 1., -1., {0, 1}};
  const std::vector<C> fine{0.,      1.,      -1.,       {0, 1},   {0, -1},
                            2.,      {1, 1},  {-1, 0.5}, {0.3, -2}, 1e-5,
                            {0, 1e-7}};
  const auto prepSpace = [&](const std::string& name, std::size_t n,
                             const std::vector<C>& grid, double tol) {
    std::uint64_t size = 1;
    for (std::size_t i = 0; i < (1ULL << n); ++i) {
      size *= grid.size();
    }
    r.space(name, size,
            "all amplitude vectors of " + std::to_string(n) + " qubits over " +
                std::to_string(grid.size()) + " values, normalised",
            [=](std::uint64_t idx, mc::Ctx& c) {
              Vec v;
              for (std::size_t i = 0; i < (1ULL << n); ++i) {
                v.push_back(grid[idx % grid.size()]);
                idx /= grid.size();
              }
              const auto s = std::sqrt(ref::norm2(v));
              if (s < 1e-9) {
                return;
              }
              for (auto& x : v) {
                x /= s;
              }
              prep(c, v, n, tol);
            });
  };
  prepSpace("prepare-0", 0, fine, 1e-6);
  prepSpace("prepare-1", 1, fine, 1e-6);
  prepSpace("prepare-2", 2, fine, 1e-6);
  prepSpace("prepare-3", 3, th ? std::vector<C>{0., 1., -1., {0, 1}, {2, -1}} : coarse,
            1e-6);
  prepSpace("prepare-4", 4, {1., {0, 1}}, 1e-6);
  if (th) {
    prepSpace("prepare-4-zero", 4, {0., {-1, 1}}, 1e-6);
  }
  r.space("prepare-5", 1ULL << 10, "5-qubit vectors: one or two entries of "
                                   "different phase, others zero",
          [&](std::uint64_t idx, mc::Ctx& c) {
            Vec v(32);
            v[idx & 31U] += 1;
            v[idx >> 5U] += C(0.5, 0.75);
            const auto s = std::sqrt(ref::norm2(v));
            for (auto& x : v) {
              x /= s;
            }
            prep(c, v, 5);
          });
  r.space("prepare-refused", 40, "vectors that are no states", [&](std::uint64_t i, mc::Ctx& c) {
    Vec v(i % 20);
    bool ok = false;
    if (!v.empty()) {
      v[0] = i < 20 ? 1. : 0.7;
    }
    const bool bad = v.empty() || (v.size() & (v.size() - 1)) != 0 || i >= 20;
    try {
      const auto q = createStatePreparationCircuit(v);
      ok = !bad;
    } catch (const std::invalid_argument&) {
      ok = bad;
    }
    c.trans();
    c.checkf(ok, "state-preparation-refusal", [&] { return ref::vecStr(v); });
  });

  // random Clifford circuits
  const std::size_t s1 = th ? 200 : 60;
  const std::size_t s2 = th ? 30000 : 6000;
  r.space("clifford-1", s1, "one qubit, depth 0..3", [&](std::uint64_t i, mc::Ctx& c) {
    for (std::size_t d = 0; d <= 3; ++d) {
      clifford(c, 1, d, i + 1);
    }
  });
  r.space("clifford-2", s2, "two qubits, depth 1 and 2, " + std::to_string(s2) + " seeds",
          [&](std::uint64_t i, mc::Ctx& c) {
            clifford(c, 2, 1, i + 1);
            if (i % 8 == 0) {
              clifford(c, 2, 2, i + 1);
            }
          });
  r.space("clifford-3", s1 * 4, "3 to 5 qubits, depth 1..4",
          [&](std::uint64_t i, mc::Ctx& c) {
            for (Qubit n = 3; n <= (i % 8 == 0 ? 5 : 4); ++n) {
              for (std::size_t d = 1; d <= 4; ++d) {
                clifford(c, n, d, i + 1);
              }
            }
          });
  const std::size_t wide = th ? 110 : 70;
  const std::string ws = std::to_string(wide);
  r.space("wide-bv", wide * wide, "Bernstein-Vazirani on up to " + ws +
          " qubits, three families of hidden strings, by a product state",
          [&](std::uint64_t idx, mc::Ctx& c) {
            const auto n = idx / wide + 1;
            const auto k = idx % wide;
            if (k >= n) {
              return;
            }
            for (std::size_t kind = 0; kind < 3; ++kind) {
              const auto x = family(n, k, kind);
              BVBitString b;
              std::string text;
              for (std::size_t i = 0; i < n; ++i) {
                b[i] = x[i];
                text.insert(text.begin(), x[i] ? '1' : '0');
              }
              for (const bool implied : {false, true}) {
                if (implied && !x.back()) {
                  continue;
                }
                const auto q = implied ? createBernsteinVazirani(b)
                                       : createBernsteinVazirani(b, static_cast<Qubit>(n));
                c.trans(q.size());
                c.state(mc::hashStr(text));
                Product p(q.getNqubits());
                p.run(q);
                if (!p.supported) {
                  c.skip();
                  continue;
                }
                bool ok = p.certain && q.getNcbits() == n && p.bits.size() == n;
                for (std::size_t i = 0; ok && i < n; ++i) {
                  ok = p.bits.at(i) == x[i];
                }
                c.checkf(ok, "bv-wide", [&] { return "hidden string " + text; });
                c.checkf(q.getName() == "bv_" + text, "bv-wide-name",
                         [&] { return q.getName() + " for " + text; });
              }
            }
          });
  r.space("wide-ghz-w", 2 * wide, "GHZ and W states on up to " + ws +
          " qubits, by the amplitudes that are not zero",
          [&](std::uint64_t idx, mc::Ctx& c) {
            const auto n = static_cast<Qubit>(idx / 2 + 1);
            const bool w = idx % 2 != 0;
            const auto q = w ? createWState(n) : createGHZState(n);
            Sparse p(std::vector<bool>(n, false));
            p.run(q);
            c.trans(q.size());
            c.state(idx);
            if (!p.supported) {
              c.skip();
              return;
            }
            C overlap = 0;
            const double f = 1 / std::sqrt(w ? static_cast<double>(n) : 2.);
            for (const auto& [x, v] : p.a) {
              const auto ones = static_cast<std::size_t>(std::count(x.begin(), x.end(), true));
              if (w ? ones == 1 : ones == 0 || ones == n) {
                overlap += f * v;
              }
            }
            c.checkf(std::abs(std::abs(overlap) - 1) < 1e-9, w ? "w-wide" : "ghz-wide",
                     [&] { return q.getName(); });
          });
  r.space("wide-qft", wide * wide, "QFT on up to " + ws +
          " qubits: three families of basis states, and of product states that "
          "are measured with certainty; iterative up to 63 qubits",
          [&](std::uint64_t idx, mc::Ctx& c) {
            const auto n = idx / wide + 1;
            const auto k = idx % wide;
            if (k >= n) {
              return;
            }
            const auto q = createQFT(static_cast<Qubit>(n), false);
            const auto qm = createQFT(static_cast<Qubit>(n), true);
            const auto it = createIterativeQFT(static_cast<Qubit>(n));
            for (std::size_t kind = 0; kind < 3; ++kind) {
              const auto x = family(n, k, kind);
              // fraction of (the reversed x) / 2^(j + 1)
              const auto frac = [&](std::size_t j) {
                double f = 0;
                for (std::size_t m = n - 1 - j; m < n; ++m) {
                  f += x[m] ? std::ldexp(1., static_cast<int>(n - 1 - m) - static_cast<int>(j) - 1)
                            : 0;
                }
                return f;
              };
              c.trans(q.size());
              const auto where = [&] {
                return "n=" + std::to_string(n) + " k=" + std::to_string(k) +
                       " kind=" + std::to_string(kind);
              };
              Product p(n);
              for (std::size_t i = 0; i < n; ++i) {
                if (x[i]) {
                  std::swap(p.s[i][0], p.s[i][1]);
                }
              }
              p.run(q);
              if (p.supported) {
                bool ok = true;
                for (std::size_t j = 0; j < n; ++j) {
                  ok = ok && p.is(static_cast<Qubit>(j), std::sqrt(0.5),
                                  std::sqrt(0.5) * ref::ex(2 * PIX * frac(j)));
                }
                c.checkf(ok, "qft-wide", where);
              } else {
                c.skip();
              }
              Product pm(n);
              for (std::size_t j = 0; j < n; ++j) {
                pm.s[j] = {std::sqrt(0.5), std::sqrt(0.5) * ref::ex(-2 * PIX * frac(j))};
              }
              const auto in = pm.s;
              pm.run(qm);
              if (pm.supported) {
                bool ok = pm.certain && pm.bits.size() == n;
                for (std::size_t i = 0; ok && i < n; ++i) {
                  ok = pm.bits.at(i) == x[i];
                }
                c.checkf(ok, "qft-wide-measured", where);
              } else {
                c.skip();
              }
              if (n > 63) {
                continue;
              }
              std::vector<Branch> br(1);
              std::size_t next = 0;
              const auto prepare = [&] {
                for (auto& b : br) {
                  b.v = {in[next % n][0], in[next % n][1]};
                }
                ++next;
              };
              prepare();
              for (const auto& op : it) {
                ref::stepDyn(br, *op);
                if (op->getType() == Reset) {
                  prepare();
                }
              }
              Bits want = 0;
              for (std::size_t i = 0; i < n; ++i) {
                want |= x[i] ? Bits{1} << i : 0;
              }
              double got = 0;
              for (const auto& b : br) {
                got += b.b == want ? ref::norm2(b.v) : 0.;
              }
              c.checkf(next == n && std::abs(got - 1) < 1e-9, "iterative-qft-wide", where);
            }
          });
  const std::size_t wg = th ? 120 : 60;
  r.space("wide-grover", wg * wg, "oracle of Grover's search on up to " +
          std::to_string(wg) + " qubits: the marked string of three families and its neighbours",
          [&](std::uint64_t idx, mc::Ctx& c) {
            const auto n = idx / wg + 1;
            const auto k = idx % wg;
            if (k >= n) {
              return;
            }
            for (std::size_t kind = 0; kind < 3; ++kind) {
              const auto x = family(n, k, kind);
              GroverBitString b;
              for (std::size_t i = 0; i < n; ++i) {
                b[i] = x[i];
              }
              QuantumComputation q(n + 1);
              appendGroverOracle(q, b);
              c.trans(n + 1);
              // the marked string, and all strings that differ in one bit
              for (std::size_t d = 0; d <= n; ++d) {
                auto y = x;
                y.push_back(true);
                if (d < n) {
                  y[d] = !y[d];
                }
                Sparse p(y);
                p.run(q);
                if (!p.supported) {
                  c.skip();
                  continue;
                }
                c.checkf(p.a.size() == 1 && p.a.begin()->first == y &&
                             std::abs(p.a.begin()->second - (d < n ? 1. : -1.)) < TOL,
                         "grover-oracle-wide", [&] {
                           return "n=" + std::to_string(n) + " k=" + std::to_string(k) +
                                  " kind=" + std::to_string(kind) +
                                  " bit=" + std::to_string(d);
                         });
              }
            }
          });
  return r.finish();
}
