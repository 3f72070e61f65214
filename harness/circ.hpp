// Circuit alphabets for enumeration.
#pragma once
#include "mc.hpp"
#include "ref.hpp"

#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace circ {
using OpPtr = std::unique_ptr<qc::Operation>;
using Maker = std::function<OpPtr()>;
using Alphabet = std::vector<OpPtr>; // prototypes, cloned into circuits

inline OpPtr std1(qc::OpType t, qc::Qubit q, std::vector<double> p = {},
                  qc::Controls c = {}) {
  return std::make_unique<qc::StandardOperation>(c, q, t, p);
}
inline OpPtr std2(qc::OpType t, qc::Qubit a, qc::Qubit b,
                  std::vector<double> p = {}, qc::Controls c = {}) {
  return std::make_unique<qc::StandardOperation>(c, qc::Targets{a, b}, t, p);
}
inline OpPtr gphase(double a, qc::Controls c = {}) {
  return std::make_unique<qc::StandardOperation>(c, qc::Targets{}, qc::GPhase,
                                                 std::vector<double>{a});
}
inline OpPtr meas(std::vector<qc::Qubit> q, std::vector<qc::Bit> b) {
  return std::make_unique<qc::NonUnitaryOperation>(std::move(q), std::move(b));
}
inline OpPtr reset(qc::Targets q) {
  return std::make_unique<qc::NonUnitaryOperation>(std::move(q), qc::Reset);
}
inline OpPtr barrier(qc::Targets q) {
  return std::make_unique<qc::StandardOperation>(q, qc::Barrier);
}
inline OpPtr ifBit(OpPtr op, qc::Bit b, std::uint64_t v = 1,
                   qc::ComparisonKind k = qc::Eq) {
  return std::make_unique<qc::ClassicControlledOperation>(std::move(op), b, v,
                                                          k);
}
inline OpPtr ifReg(OpPtr op, const qc::ClassicalRegister& r, std::uint64_t v,
                   qc::ComparisonKind k = qc::Eq) {
  return std::make_unique<qc::ClassicControlledOperation>(std::move(op), r, v,
                                                          k);
}
template <class... T> OpPtr compound(T... ops) {
  std::vector<OpPtr> v;
  (v.push_back(std::move(ops)), ...);
  return std::make_unique<qc::CompoundOperation>(std::move(v));
}

inline const std::vector<qc::OpType>& singleTypes() {
  static const std::vector<qc::OpType> t{
      qc::I,  qc::H,  qc::X,    qc::Y, qc::Z,  qc::S,  qc::Sdg, qc::T, qc::Tdg,
      qc::V,  qc::Vdg, qc::SX, qc::SXdg, qc::U, qc::U2, qc::P, qc::RX, qc::RY,
      qc::RZ};
  return t;
}
inline const std::vector<qc::OpType>& doubleTypes() {
  static const std::vector<qc::OpType> t{
      qc::SWAP, qc::iSWAP, qc::iSWAPdg, qc::Peres, qc::Peresdg,
      qc::DCX,  qc::ECR,   qc::RXX,     qc::RYY,   qc::RZZ,
      qc::RZX,  qc::XXminusYY, qc::XXplusYY};
  return t;
}
inline std::size_t nparams(qc::OpType t) {
  switch (t) {
  case qc::U:
    return 3;
  case qc::U2:
  case qc::XXminusYY:
  case qc::XXplusYY:
    return 2;
  case qc::P:
  case qc::RX:
  case qc::RY:
  case qc::RZ:
  case qc::RXX:
  case qc::RYY:
  case qc::RZZ:
  case qc::RZX:
  case qc::GPhase:
    return 1;
  default:
    return 0;
  }
}
// all control assignments (none/pos/neg per qubit) on the free qubits
inline std::vector<qc::Controls>
allControls(std::size_t n, const std::vector<qc::Qubit>& used,
            std::size_t maxControls) {
  std::vector<qc::Controls> r;
  std::size_t total = 1;
  for (std::size_t i = 0; i < n; ++i) {
    total *= 3;
  }
  for (std::size_t k = 0; k < total; ++k) {
    std::size_t x = k;
    qc::Controls c;
    bool ok = true;
    for (qc::Qubit q = 0; q < n; ++q) {
      const auto d = x % 3;
      x /= 3;
      if (d == 0) {
        continue;
      }
      for (const auto u : used) {
        ok = ok && u != q;
      }
      c.emplace(q, d == 1 ? qc::Control::Type::Pos : qc::Control::Type::Neg);
    }
    if (ok && c.size() <= maxControls) {
      r.push_back(c);
    }
  }
  return r;
}
inline std::vector<std::vector<double>> paramGrid(std::size_t k,
                                                  const std::vector<double>& g) {
  std::vector<std::vector<double>> r{{}};
  for (std::size_t i = 0; i < k; ++i) {
    std::vector<std::vector<double>> n;
    for (const auto& x : r) {
      for (const auto v : g) {
        auto y = x;
        y.push_back(v);
        n.push_back(y);
      }
    }
    r = n;
  }
  return r;
}
inline void setOps(qc::QuantumComputation& qc, const Alphabet& a,
                   const std::vector<std::uint32_t>& seq) {
  for (const auto s : seq) {
    qc.emplace_back(a[s]->clone());
  }
}
} // namespace circ
