// helpers shared by the decision-diagram checks
#pragma once
#include "circ.hpp"
#include "dd/FunctionalityConstruction.hpp"
#include "dd/Operations.hpp"
#include "dd/Package.hpp"
#include "dd/Simulation.hpp"
#include "mc.hpp"
#include "ref.hpp"

namespace ddh {
using ref::C;
using ref::Vec;
using Mat = std::vector<Vec>; // list of columns

inline dd::DDPackageConfig smallConfig(std::size_t b = 64) {
  dd::DDPackageConfig c{};
  c.utVecNumBucket = c.utMatNumBucket = b;
  c.utVecInitialAllocationSize = c.utMatInitialAllocationSize = 64;
  c.ctVecAddNumBucket = c.ctMatAddNumBucket = c.ctVecAddMagNumBucket =
      c.ctMatAddMagNumBucket = c.ctVecConjNumBucket = c.ctMatConjTransNumBucket =
          c.ctMatVecMultNumBucket = c.ctMatMatMultNumBucket =
              c.ctVecKronNumBucket = c.ctMatKronNumBucket =
                  c.ctMatTraceNumBucket = c.ctVecInnerProdNumBucket = b;
  return c;
}
inline Mat toMat(const dd::mEdge& e, std::size_t n) {
  const auto m = e.getMatrix(n);
  const std::size_t N = 1ULL << n;
  Mat r(N, Vec(N));
  for (std::size_t i = 0; i < N; ++i) {
    for (std::size_t j = 0; j < N; ++j) {
      r[j][i] = m.at(i).at(j);
    }
  }
  return r;
}
inline Vec toVec(const dd::vEdge& e) {
  const auto v = e.getVector();
  return {v.begin(), v.end()};
}
inline std::string matStr(const Mat& m) {
  std::string s;
  for (const auto& c : m) {
    s += ref::vecStr(c) + " | ";
  }
  return s;
}
inline std::size_t permuteBits(std::size_t x, const qc::Permutation& p) {
  std::size_t r = 0;
  for (const auto& [phys, log] : p) {
    if (((x >> phys) & 1U) != 0) {
      r |= 1ULL << log;
    }
  }
  return r;
}
// the map from logical inputs to logical outputs of a circuit without
// ancillary and garbage qubits: physical qubit p holds logical qubit init[p] at
// the start and out[p] at the end
inline Mat logicalMap(const qc::QuantumComputation& q, std::size_t n) {
  const auto u = ref::unitary(q, n);
  const std::size_t N = 1ULL << n;
  Mat r(N, Vec(N));
  for (std::size_t c = 0; c < N; ++c) {
    auto& col = r[permuteBits(c, q.initialLayout)];
    for (std::size_t k = 0; k < N; ++k) {
      col[permuteBits(k, q.outputPermutation)] = u[c][k];
    }
  }
  return r;
}
} // namespace ddh
