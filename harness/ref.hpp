// Reference semantics: dense vectors/operators with classical-bit branching.
// Written from the gate definitions (OpenQASM 3 stdgates / Qiskit); uses the
// library only to read the circuit (types, targets, controls, parameters).
#pragma once
#include "ir/Definitions.hpp"
#include "ir/Permutation.hpp"
#include "ir/QuantumComputation.hpp"
#include "ir/operations/ClassicControlledOperation.hpp"
#include "ir/operations/CompoundOperation.hpp"
#include "ir/operations/NonUnitaryOperation.hpp"
#include "ir/operations/OpType.hpp"
#include "ir/operations/Operation.hpp"
#include "ir/operations/StandardOperation.hpp"

#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace ref {
using C = std::complex<double>;
using Vec = std::vector<C>;
using Bits = std::uint64_t;
constexpr double RPI = 3.14159265358979323846;
const C I1(0, 1);
inline C ex(double a) { return {std::cos(a), std::sin(a)}; }

// 2x2 (row-major, 4 entries) or 4x4 (16 entries; index bit1 = first target,
// bit0 = second target)
inline Vec gateMatrix(qc::OpType t, const std::vector<double>& p) {
  const double r = std::sqrt(0.5);
  auto u3 = [](double th, double ph, double la) {
    return Vec{std::cos(th / 2), -ex(la) * std::sin(th / 2),
               ex(ph) * std::sin(th / 2), ex(ph + la) * std::cos(th / 2)};
  };
  // exp(-i th/2 A (x) B) with A,B Paulis
  auto pauli = [](char c) -> Vec {
    switch (c) {
    case 'X':
      return {0, 1, 1, 0};
    case 'Y':
      return {0, -I1, I1, 0};
    case 'Z':
      return {1, 0, 0, -1};
    default:
      return {1, 0, 0, 1};
    }
  };
  auto rpp = [&](char a, char b, double th) {
    const auto A = pauli(a);
    const auto B = pauli(b);
    Vec m(16);
    for (int i = 0; i < 4; ++i) {
      for (int j = 0; j < 4; ++j) {
        const C k = A[((i >> 1) * 2) + (j >> 1)] * B[((i & 1) * 2) + (j & 1)];
        m[(i * 4) + j] =
            (i == j ? C(std::cos(th / 2)) : C(0)) - I1 * std::sin(th / 2) * k;
      }
    }
    return m;
  };
  // permutation/phase matrix from column images: col -> (row, phase)
  auto perm = [](std::array<std::pair<int, C>, 4> im) {
    Vec m(16, 0);
    for (int c = 0; c < 4; ++c) {
      m[(im[c].first * 4) + c] = im[c].second;
    }
    return m;
  };
  auto dag = [](const Vec& m) {
    const int d = m.size() == 4 ? 2 : 4;
    Vec o(m.size());
    for (int i = 0; i < d; ++i) {
      for (int j = 0; j < d; ++j) {
        o[(i * d) + j] = std::conj(m[(j * d) + i]);
      }
    }
    return o;
  };
  switch (t) {
  case qc::I:
    return {1, 0, 0, 1};
  case qc::H:
    return {r, r, r, -r};
  case qc::X:
    return pauli('X');
  case qc::Y:
    return pauli('Y');
  case qc::Z:
    return pauli('Z');
  case qc::S:
    return {1, 0, 0, I1};
  case qc::Sdg:
    return {1, 0, 0, -I1};
  case qc::T:
    return {1, 0, 0, ex(RPI / 4)};
  case qc::Tdg:
    return {1, 0, 0, ex(-RPI / 4)};
  case qc::V: // rx(pi/2)
    return {r, -I1 * r, -I1 * r, r};
  case qc::Vdg:
    return {r, I1 * r, I1 * r, r};
  case qc::SX:
    return {C(.5, .5), C(.5, -.5), C(.5, -.5), C(.5, .5)};
  case qc::SXdg:
    return {C(.5, -.5), C(.5, .5), C(.5, .5), C(.5, -.5)};
  case qc::U:
    return u3(p.at(0), p.at(1), p.at(2));
  case qc::U2:
    return u3(RPI / 2, p.at(0), p.at(1));
  case qc::P:
    return {1, 0, 0, ex(p.at(0))};
  case qc::RX:
    return {std::cos(p.at(0) / 2), -I1 * std::sin(p.at(0) / 2),
            -I1 * std::sin(p.at(0) / 2), std::cos(p.at(0) / 2)};
  case qc::RY:
    return {std::cos(p.at(0) / 2), -std::sin(p.at(0) / 2),
            std::sin(p.at(0) / 2), std::cos(p.at(0) / 2)};
  case qc::RZ:
    return {ex(-p.at(0) / 2), 0, 0, ex(p.at(0) / 2)};
  case qc::SWAP:
    return perm({{{0, 1}, {2, 1}, {1, 1}, {3, 1}}});
  case qc::iSWAP:
    return perm({{{0, 1}, {2, I1}, {1, I1}, {3, 1}}});
  case qc::iSWAPdg:
    return perm({{{0, 1}, {2, -I1}, {1, -I1}, {3, 1}}});
  case qc::DCX: // cx(a,b); cx(b,a)
    return perm({{{0, 1}, {3, 1}, {1, 1}, {2, 1}}});
  case qc::Peres: // cx(a,b); x(a)
    return perm({{{2, 1}, {3, 1}, {1, 1}, {0, 1}}});
  case qc::Peresdg:
    return dag(gateMatrix(qc::Peres, p));
  case qc::ECR: {
    // Qiskit: (IX - XY)/sqrt2 (little endian: X on first / XY on first,second)
    // little-endian matrix rows (second,first):
    const Vec le = {0, 1, 0, I1, 1, 0, -I1, 0, 0, I1, 0, 1, -I1, 0, 1, 0};
    Vec m(16);
    auto sw = [](int i) { return ((i & 1) << 1) | (i >> 1); };
    for (int i = 0; i < 4; ++i) {
      for (int j = 0; j < 4; ++j) {
        m[(sw(i) * 4) + sw(j)] = le[(i * 4) + j] * r;
      }
    }
    return m;
  }
  case qc::RXX:
    return rpp('X', 'X', p.at(0));
  case qc::RYY:
    return rpp('Y', 'Y', p.at(0));
  case qc::RZZ:
    return rpp('Z', 'Z', p.at(0));
  case qc::RZX:
    return rpp('Z', 'X', p.at(0));
  case qc::XXminusYY: {
    const double c = std::cos(p.at(0) / 2);
    const double s = std::sin(p.at(0) / 2);
    const double b = p.at(1);
    return {c, 0, 0, -I1 * s * ex(-b), 0, 1, 0, 0,
            0, 0, 1, 0,                -I1 * s * ex(b), 0, 0, c};
  }
  case qc::XXplusYY: {
    const double c = std::cos(p.at(0) / 2);
    const double s = std::sin(p.at(0) / 2);
    const double b = p.at(1);
    return {1, 0, 0, 0, 0, c, -I1 * s * ex(b), 0,
            0, -I1 * s * ex(-b), c, 0, 0, 0, 0, 1};
  }
  default:
    throw std::logic_error("ref: no matrix for " + qc::toString(t));
  }
}

inline void applyMatrix(Vec& v, const Vec& m,
                        const std::vector<std::uint32_t>& targets,
                        std::uint64_t posMask, std::uint64_t negMask) {
  const std::size_t N = v.size();
  const std::size_t k = targets.size();
  const std::size_t d = 1U << k;
  std::uint64_t tm = 0;
  for (const auto t : targets) {
    tm |= 1ULL << t;
  }
  std::array<std::size_t, 4> id{};
  std::array<C, 4> in{};
  for (std::size_t b = 0; b < N; ++b) {
    if ((b & tm) != 0 || (b & posMask) != posMask || (b & negMask) != 0) {
      continue;
    }
    for (std::size_t i = 0; i < d; ++i) {
      std::size_t x = b;
      for (std::size_t j = 0; j < k; ++j) {
        if (((i >> (k - 1 - j)) & 1U) != 0) {
          x |= 1ULL << targets[j];
        }
      }
      id[i] = x;
      in[i] = v[x];
    }
    for (std::size_t i = 0; i < d; ++i) {
      C s = 0;
      for (std::size_t j = 0; j < d; ++j) {
        s += m[(i * d) + j] * in[j];
      }
      v[id[i]] = s;
    }
  }
}

struct Unsupported : std::runtime_error {
  using std::runtime_error::runtime_error;
};

// apply a unitary operation with a qubit relabelling q -> q + shift
inline void applyOp(Vec& v, const qc::Operation& op, std::uint32_t shift = 0) {
  const auto t = op.getType();
  if (t == qc::Barrier) {
    return;
  }
  if (op.isCompoundOperation()) {
    for (const auto& o : dynamic_cast<const qc::CompoundOperation&>(op)) {
      applyOp(v, *o, shift);
    }
    return;
  }
  if (op.isClassicControlledOperation() || op.isNonUnitaryOperation() ||
      op.isSymbolicOperation()) {
    throw Unsupported("ref: not a concrete unitary: " + op.getName());
  }
  std::uint64_t pos = 0;
  std::uint64_t neg = 0;
  for (const auto& c : op.getControls()) {
    (c.type == qc::Control::Type::Pos ? pos : neg) |= 1ULL
                                                      << (c.qubit + shift);
  }
  if (t == qc::GPhase) {
    const C f = ex(op.getParameter().at(0));
    for (std::size_t b = 0; b < v.size(); ++b) {
      if ((b & pos) == pos && (b & neg) == 0) {
        v[b] *= f;
      }
    }
    return;
  }
  std::vector<std::uint32_t> tg;
  for (const auto q : op.getTargets()) {
    tg.push_back(q + shift);
    if ((1ULL << (q + shift)) >= v.size()) {
      throw Unsupported("ref: target out of range");
    }
  }
  if ((pos | neg) >= v.size()) {
    throw Unsupported("ref: control out of range");
  }
  const auto m = gateMatrix(t, op.getParameter());
  if ((m.size() == 4) != (tg.size() == 1)) {
    if (m.size() == 4) { // same single-qubit gate on every target
      for (const auto q : tg) {
        applyMatrix(v, m, {q}, pos, neg);
      }
      return;
    }
    throw Unsupported("ref: target count");
  }
  applyMatrix(v, m, tg, pos, neg);
}

// full matrix, column-major list of columns
inline std::vector<Vec> unitary(const qc::QuantumComputation& qc,
                                std::size_t n) {
  const std::size_t N = 1ULL << n;
  std::vector<Vec> cols(N, Vec(N));
  for (std::size_t c = 0; c < N; ++c) {
    cols[c][c] = 1;
    for (const auto& op : qc) {
      applyOp(cols[c], *op);
    }
    const C f = ex(qc.getGlobalPhase());
    for (auto& x : cols[c]) {
      x *= f;
    }
  }
  return cols;
}
inline std::vector<Vec> unitaryOp(const qc::Operation& op, std::size_t n) {
  const std::size_t N = 1ULL << n;
  std::vector<Vec> cols(N, Vec(N));
  for (std::size_t c = 0; c < N; ++c) {
    cols[c][c] = 1;
    applyOp(cols[c], op);
  }
  return cols;
}
inline double dist(const Vec& a, const Vec& b) {
  double d = 0;
  for (std::size_t i = 0; i < a.size(); ++i) {
    d = std::max(d, std::abs(a[i] - b[i]));
  }
  return a.size() == b.size() ? d : 1e9;
}
inline double dist(const std::vector<Vec>& a, const std::vector<Vec>& b) {
  if (a.size() != b.size()) {
    return 1e9;
  }
  double d = 0;
  for (std::size_t i = 0; i < a.size(); ++i) {
    d = std::max(d, dist(a[i], b[i]));
  }
  return d;
}
// distance up to a global phase
inline double distPhase(const std::vector<Vec>& a, const std::vector<Vec>& b) {
  if (a.size() != b.size()) {
    return 1e9;
  }
  C ip = 0;
  for (std::size_t i = 0; i < a.size(); ++i) {
    if (a[i].size() != b[i].size()) {
      return 1e9;
    }
    for (std::size_t j = 0; j < a[i].size(); ++j) {
      ip += std::conj(a[i][j]) * b[i][j];
    }
  }
  if (std::abs(ip) < 1e-9) {
    return 1e3;
  }
  const C ph = ip / std::abs(ip);
  double d = 0;
  for (std::size_t i = 0; i < a.size(); ++i) {
    for (std::size_t j = 0; j < a[i].size(); ++j) {
      d = std::max(d, std::abs(a[i][j] * ph - b[i][j]));
    }
  }
  return d;
}
inline std::vector<Vec> mul(const std::vector<Vec>& a,
                            const std::vector<Vec>& b) { // a*b, columns
  const std::size_t N = a.size();
  std::vector<Vec> r(N, Vec(N));
  for (std::size_t c = 0; c < N; ++c) {
    for (std::size_t k = 0; k < N; ++k) {
      if (b[c][k] != C(0)) {
        for (std::size_t i = 0; i < N; ++i) {
          r[c][i] += a[k][i] * b[c][k];
        }
      }
    }
  }
  return r;
}
inline std::vector<Vec> ident(std::size_t n) {
  const std::size_t N = 1ULL << n;
  std::vector<Vec> r(N, Vec(N));
  for (std::size_t i = 0; i < N; ++i) {
    r[i][i] = 1;
  }
  return r;
}
inline std::vector<Vec> adj(const std::vector<Vec>& a) {
  const std::size_t N = a.size();
  std::vector<Vec> r(N, Vec(N));
  for (std::size_t i = 0; i < N; ++i) {
    for (std::size_t j = 0; j < N; ++j) {
      r[i][j] = std::conj(a[j][i]);
    }
  }
  return r;
}

// ---- dynamic circuits ------------------------------------------------------
struct Branch {
  Vec v; // unnormalised
  Bits b = 0;
};
inline bool condition(const qc::ClassicControlledOperation& c, Bits b) {
  std::uint64_t val = 0;
  if (c.getControlRegister().has_value()) {
    const auto& r = *c.getControlRegister();
    for (std::size_t i = 0; i < r.getSize(); ++i) {
      val |= ((b >> (r.getStartIndex() + i)) & 1ULL) << i;
    }
  } else {
    val = (b >> *c.getControlBit()) & 1ULL;
  }
  const auto e = c.getExpectedValue();
  switch (c.getComparisonKind()) {
  case qc::Eq:
    return val == e;
  case qc::Neq:
    return val != e;
  case qc::Lt:
    return val < e;
  case qc::Leq:
    return val <= e;
  case qc::Gt:
    return val > e;
  case qc::Geq:
    return val >= e;
  }
  return false;
}
inline double norm2(const Vec& v) {
  double s = 0;
  for (const auto& x : v) {
    s += std::norm(x);
  }
  return s;
}
inline void project(Vec& v, std::uint32_t q, int out) {
  for (std::size_t i = 0; i < v.size(); ++i) {
    if (static_cast<int>((i >> q) & 1U) != out) {
      v[i] = 0;
    }
  }
}
inline void flip(Vec& v, std::uint32_t q) {
  for (std::size_t i = 0; i < v.size(); ++i) {
    if (((i >> q) & 1U) == 0) {
      std::swap(v[i], v[i | (1ULL << q)]);
    }
  }
}
// where the conditional probabilities of random events are reported, if set
inline std::vector<double>*& conditionals() {
  static thread_local std::vector<double>* p = nullptr;
  return p;
}
inline void reportConditional(const Vec& v, std::uint32_t q) {
  if (conditionals() == nullptr) {
    return;
  }
  Vec z = v;
  project(z, q, 0);
  const auto p = norm2(z) / norm2(v);
  conditionals()->push_back(p);
  conditionals()->push_back(1 - p);
}
inline void stepDyn(std::vector<Branch>& br, const qc::Operation& op,
                    std::uint32_t shift = 0) {
  if (op.isCompoundOperation()) {
    for (const auto& o : dynamic_cast<const qc::CompoundOperation&>(op)) {
      stepDyn(br, *o, shift);
    }
    return;
  }
  if (op.isClassicControlledOperation()) {
    const auto& cc = dynamic_cast<const qc::ClassicControlledOperation&>(op);
    std::vector<Branch> out;
    for (auto& b : br) {
      if (condition(cc, b.b)) {
        std::vector<Branch> one{std::move(b)};
        stepDyn(one, *cc.getOperation(), shift);
        for (auto& o : one) {
          out.push_back(std::move(o));
        }
      } else {
        out.push_back(std::move(b));
      }
    }
    br = std::move(out);
    return;
  }
  if (op.getType() == qc::Measure) {
    const auto& m = dynamic_cast<const qc::NonUnitaryOperation&>(op);
    for (std::size_t i = 0; i < m.getTargets().size(); ++i) {
      std::vector<Branch> out;
      for (auto& b : br) {
        reportConditional(b.v, m.getTargets()[i] + shift);
        for (int o = 0; o < 2; ++o) {
          Branch n = b;
          project(n.v, m.getTargets()[i] + shift, o);
          if (norm2(n.v) < 1e-20) {
            continue;
          }
          const Bits bit = 1ULL << m.getClassics().at(i);
          n.b = o != 0 ? (n.b | bit) : (n.b & ~bit);
          out.push_back(std::move(n));
        }
      }
      br = std::move(out);
    }
    return;
  }
  if (op.getType() == qc::Reset) {
    for (const auto q : op.getTargets()) {
      std::vector<Branch> out;
      for (auto& b : br) {
        reportConditional(b.v, q + shift);
        for (int o = 0; o < 2; ++o) {
          Branch n = b;
          project(n.v, q + shift, o);
          if (norm2(n.v) < 1e-20) {
            continue;
          }
          if (o != 0) {
            flip(n.v, q + shift);
          }
          out.push_back(std::move(n));
        }
      }
      br = std::move(out);
    }
    return;
  }
  for (auto& b : br) {
    applyOp(b.v, op, shift);
  }
}
// run from |0...0> on n qubits
inline std::vector<Branch> runZero(const qc::QuantumComputation& qc,
                                   std::size_t n) {
  std::vector<Branch> br(1);
  br[0].v.assign(1ULL << n, 0);
  br[0].v[0] = 1;
  for (const auto& op : qc) {
    stepDyn(br, *op);
  }
  return br;
}
// run on a maximally entangled input (n system qubits low, n reference high):
// captures the full channel
inline std::vector<Branch> runChoi(const qc::QuantumComputation& qc,
                                   std::size_t n) {
  std::vector<Branch> br(1);
  br[0].v.assign(1ULL << (2 * n), 0);
  for (std::size_t i = 0; i < (1ULL << n); ++i) {
    br[0].v[i | (i << n)] = 1;
  }
  for (const auto& op : qc) {
    stepDyn(br, *op);
  }
  return br;
}
// a product state with different amplitudes on every qubit
inline Vec genericState(std::size_t n) {
  Vec v(1ULL << n, 1);
  for (std::size_t q = 0; q < n; ++q) {
    const double th = 0.5 + (0.37 * static_cast<double>(q % 3)) +
                      (0.041 * static_cast<double>(q));
    const auto ph = ex(0.3 + (0.23 * static_cast<double>(q)));
    for (std::size_t i = 0; i < v.size(); ++i) {
      v[i] *= ((i >> q) & 1U) != 0 ? std::sin(th) * ph : C(std::cos(th));
    }
  }
  return v;
}
inline std::vector<Branch> runFrom(const Vec& v,
                                   const qc::QuantumComputation& qc) {
  std::vector<Branch> br(1);
  br[0].v = v;
  for (const auto& op : qc) {
    stepDyn(br, *op);
  }
  return br;
}
using Dist = std::map<Bits, double>;
inline Dist distribution(const std::vector<Branch>& br) {
  Dist d;
  for (const auto& b : br) {
    d[b.b] += norm2(b.v);
  }
  for (auto it = d.begin(); it != d.end();) {
    it = it->second < 1e-12 ? d.erase(it) : std::next(it);
  }
  return d;
}
inline double distD(const Dist& a, const Dist& b) {
  double r = 0;
  for (const auto& [k, v] : a) {
    const auto it = b.find(k);
    r = std::max(r, std::abs(v - (it == b.end() ? 0. : it->second)));
  }
  for (const auto& [k, v] : b) {
    if (a.find(k) == a.end()) {
      r = std::max(r, v);
    }
  }
  return r;
}
using Rho = std::map<Bits, Vec>; // per classical outcome: dense rho (row-major)
inline Rho densities(const std::vector<Branch>& br) {
  Rho r;
  for (const auto& b : br) {
    auto& m = r[b.b];
    const std::size_t N = b.v.size();
    m.resize(N * N);
    for (std::size_t i = 0; i < N; ++i) {
      if (b.v[i] != C(0)) {
        for (std::size_t j = 0; j < N; ++j) {
          m[(i * N) + j] += b.v[i] * std::conj(b.v[j]);
        }
      }
    }
  }
  return r;
}
inline double distR(const Rho& a, const Rho& b) {
  double r = 0;
  auto mx = [](const Vec& v) {
    double d = 0;
    for (const auto& x : v) {
      d = std::max(d, std::abs(x));
    }
    return d;
  };
  for (const auto& [k, v] : a) {
    const auto it = b.find(k);
    r = std::max(r, it == b.end() ? mx(v) : dist(v, it->second));
  }
  for (const auto& [k, v] : b) {
    if (a.find(k) == a.end()) {
      r = std::max(r, mx(v));
    }
  }
  return r;
}
inline std::uint64_t hashVec(const Vec& v, std::uint64_t h = 17) {
  for (const auto& x : v) {
    const auto a = static_cast<std::int64_t>(std::llround(x.real() * 1e6));
    const auto b = static_cast<std::int64_t>(std::llround(x.imag() * 1e6));
    h = (h ^ static_cast<std::uint64_t>(a)) * 0x9e3779b97f4a7c15ULL;
    h ^= h >> 29U;
    h = (h ^ static_cast<std::uint64_t>(b)) * 0xbf58476d1ce4e5b9ULL;
    h ^= h >> 31U;
  }
  return h;
}
inline std::uint64_t hashU(const std::vector<Vec>& u) {
  std::uint64_t h = 5;
  for (const auto& c : u) {
    h = hashVec(c, h);
  }
  return h;
}
inline std::uint64_t hashBr(const std::vector<Branch>& br) {
  std::uint64_t h = 7;
  for (const auto& b : br) {
    h = hashVec(b.v, h ^ (b.b * 0x94d049bb133111ebULL));
  }
  return h;
}

// ---- description -----------------------------------------------------------
inline std::string opStr(const qc::Operation& op) {
  std::stringstream ss;
  ss.precision(17);
  if (op.isClassicControlledOperation()) {
    const auto& c = dynamic_cast<const qc::ClassicControlledOperation&>(op);
    ss << "if(";
    if (c.getControlRegister().has_value()) {
      ss << "reg[" << c.getControlRegister()->getStartIndex() << "+"
         << c.getControlRegister()->getSize() << "]";
    } else {
      ss << "bit" << *c.getControlBit();
    }
    ss << qc::toString(c.getComparisonKind()) << c.getExpectedValue() << ") "
       << opStr(*c.getOperation());
    return ss.str();
  }
  if (op.isCompoundOperation()) {
    ss << "{";
    for (const auto& o : dynamic_cast<const qc::CompoundOperation&>(op)) {
      ss << opStr(*o) << "; ";
    }
    ss << "}";
    return ss.str();
  }
  ss << qc::toString(op.getType());
  if (!op.getParameter().empty()) {
    ss << "(";
    for (std::size_t i = 0; i < op.getParameter().size(); ++i) {
      ss << (i != 0 ? "," : "") << op.getParameter()[i];
    }
    ss << ")";
  }
  for (const auto& c : op.getControls()) {
    ss << (c.type == qc::Control::Type::Pos ? " +" : " -") << c.qubit;
  }
  for (const auto& t : op.getTargets()) {
    ss << " q" << t;
  }
  if (op.getType() == qc::Measure) {
    ss << " ->";
    for (const auto& b :
         dynamic_cast<const qc::NonUnitaryOperation&>(op).getClassics()) {
      ss << " c" << b;
    }
  }
  return ss.str();
}
inline std::string permStr(const qc::Permutation& p) {
  std::stringstream ss;
  ss << "{";
  for (const auto& [a, b] : p) {
    ss << a << ":" << b << " ";
  }
  ss << "}";
  return ss.str();
}
inline std::string qcStr(const qc::QuantumComputation& qc) {
  std::stringstream ss;
  ss.precision(17);
  ss << "n=" << qc.getNqubits() << " c=" << qc.getNcbits()
     << " gp=" << qc.getGlobalPhase() << " init=" << permStr(qc.initialLayout)
     << " out=" << permStr(qc.outputPermutation) << " :: ";
  for (const auto& op : qc) {
    ss << opStr(*op) << "; ";
  }
  return ss.str();
}
inline std::string vecStr(const Vec& v) {
  std::stringstream ss;
  ss << "[";
  for (const auto& x : v) {
    ss << "(" << x.real() << "," << x.imag() << ") ";
  }
  ss << "]";
  return ss.str();
}
inline std::string distStr(const Dist& d) {
  std::stringstream ss;
  for (const auto& [k, v] : d) {
    ss << k << ":" << v << " ";
  }
  return ss.str();
}
} // namespace ref
