// P15: trace, ancilla and garbage reductions act on exactly the given qubits.
#include "ddh.hpp"

#include <array>

using namespace qc;
using ddh::C;
using ddh::Mat;
using ddh::Vec;
namespace {
constexpr double TOL = 1e-9;
const C I1{0, 1};

dd::CMat rows(const Mat& m) {
  dd::CMat r(m.size(), dd::CVec(m.size()));
  for (std::size_t i = 0; i < m.size(); ++i) {
    for (std::size_t j = 0; j < m.size(); ++j) {
      r[i][j] = m[j][i];
    }
  }
  return r;
}
Mat kronM(const Mat& a, const Mat& b) {
  Mat r;
  for (const auto& x : a) {
    for (const auto& y : b) {
      Vec c;
      for (const auto& p : x) {
        for (const auto& q : y) {
          c.push_back(p * q);
        }
      }
      r.push_back(c);
    }
  }
  return r;
}
Mat addM(Mat a, const Mat& b, C f = 1) {
  for (std::size_t i = 0; i < a.size(); ++i) {
    for (std::size_t j = 0; j < a.size(); ++j) {
      a[i][j] += f * b[i][j];
    }
  }
  return a;
}
Mat mulM(const Mat& a, const Mat& b) {
  Mat r(a.size(), Vec(a.size()));
  for (std::size_t c = 0; c < a.size(); ++c) {
    for (std::size_t k = 0; k < a.size(); ++k) {
      for (std::size_t i = 0; i < a.size(); ++i) {
        r[c][i] += a[k][i] * b[c][k];
      }
    }
  }
  return r;
}
Mat scale(Mat a, C f) {
  for (auto& c : a) {
    for (auto& x : c) {
      x *= f;
    }
  }
  return a;
}
Mat fromRows(const std::array<C, 4>& l) {
  return {{l[0], l[2]}, {l[1], l[3]}};
}
const std::vector<Mat>& singles() {
  static const double s = std::sqrt(0.5);
  static const std::vector<Mat> r{
      ref::ident(1),           fromRows({0, 1, 1, 0}),
      fromRows({1, 0, 0, I1}), fromRows({s, s, s, -s}),
      fromRows({1, 0, 0, 0}),  fromRows({0, 0, 1, 0}),
      fromRows({0.5, 1, -0.3, -0.25 * I1}), fromRows({0.3, 0, 0, 0.3}),
      fromRows({0, -I1, I1, 0})};
  return r;
}
Mat ctl(std::size_t n, std::size_t ctrl, bool pos, std::size_t tgt, const Mat& u) {
  const std::size_t N = 1ULL << n;
  Mat r(N, Vec(N));
  for (std::size_t c = 0; c < N; ++c) {
    if ((((c >> ctrl) & 1U) != 0) != pos) {
      r[c][c] = 1;
      continue;
    }
    const std::size_t b = (c >> tgt) & 1U;
    for (std::size_t k = 0; k < 2; ++k) {
      r[c][(c & ~(1ULL << tgt)) | (k << tgt)] = u[b][k];
    }
  }
  return r;
}
// operands on n qubits
std::vector<Mat> operands(std::size_t n) {
  std::vector<Mat> r;
  const auto& s = singles();
  if (n == 1) {
    r = s;
  } else if (n == 2) {
    for (const auto& a : s) {
      for (const auto& b : s) {
        r.push_back(kronM(a, b));
      }
    }
  } else {
    for (const auto& a : s) {
      for (const auto& b : s) {
        for (const auto& c : s) {
          r.push_back(kronM(a, kronM(b, c)));
        }
      }
    }
  }
  std::vector<Mat> cs;
  for (std::size_t a = 0; a < n; ++a) {
    for (std::size_t b = 0; b < n; ++b) {
      if (a != b) {
        for (const auto k : {1U, 2U, 3U, 6U}) {
          cs.push_back(ctl(n, a, ((a + k) & 1U) != 0, b, s[k]));
        }
      }
    }
  }
  r.insert(r.end(), cs.begin(), cs.end());
  for (std::size_t i = 0; i < cs.size(); ++i) {
    for (std::size_t j = 0; j < cs.size(); ++j) {
      r.push_back(mulM(cs[i], cs[j]));
      r.push_back(addM(cs[i], cs[j], 0.5 * I1));
    }
  }
  const std::size_t base = r.size();
  for (std::size_t i = 0; i < base; i += 3) {
    r.push_back(scale(r[i], i % 2 == 0 ? C(-1) : C(0, 0.3)));
  }
  r.push_back(Mat(1ULL << n, Vec(1ULL << n)));
  return r;
}
std::vector<bool> bits(std::size_t x, std::size_t n) {
  std::vector<bool> r(n);
  for (std::size_t i = 0; i < n; ++i) {
    r[i] = ((x >> i) & 1U) != 0;
  }
  return r;
}
std::string what(const Mat& m, std::size_t sub, const char* f) {
  return std::string(f) + " qubits " + std::to_string(sub) + " of " + ddh::matStr(m);
}
double distM(const Mat& a, const Mat& b) {
  double d = 0;
  for (std::size_t i = 0; i < a.size(); ++i) {
    d = std::max(d, ref::dist(a[i], b[i]));
  }
  return d;
}
Mat absM(Mat m) {
  for (auto& c : m) {
    for (auto& x : c) {
      x = std::abs(x);
    }
  }
  return m;
}
// compress the bits of x that are not in sub
std::size_t squeeze(std::size_t x, std::size_t sub, std::size_t n) {
  std::size_t r = 0;
  std::size_t k = 0;
  for (std::size_t i = 0; i < n; ++i) {
    if (((sub >> i) & 1U) == 0) {
      r |= ((x >> i) & 1U) << k++;
    }
  }
  return r;
}
std::string nums(const dd::Package& p) {
  return std::to_string(p.vUniqueTable.getNumEntries()) + "/" +
         std::to_string(p.mUniqueTable.getNumEntries()) + "/" +
         std::to_string(p.cn.realCount());
}
// results are owned by the caller, the operand is consumed: afterwards
// everything must be collectable
template <class E>
void release(mc::Ctx& c, dd::Package& p, const E& e, const char* k,
             const std::function<std::string()>& w) {
  p.decRef(e);
  p.garbageCollect(true);
  c.checkf(p.vUniqueTable.getNumEntries() == 0 &&
               p.mUniqueTable.getNumEntries() == 0 && p.cn.realCount() <= 1,
           k, [&] { return w() + ": left " + nums(p); });
}

void matrixCase(mc::Ctx& c, std::size_t n, const Mat& m, dd::Package& p,
                dd::Package& q) {
  const std::size_t N = 1ULL << n;
  const auto e0 = p.makeDDFromMatrix(rows(m));
  p.incRef(e0);
  c.state(mc::hashStr(ddh::matStr(m)));
  {
    C t = 0;
    for (std::size_t i = 0; i < N; ++i) {
      t += m[i][i];
    }
    t /= static_cast<double>(N);
    const auto g = static_cast<std::complex<double>>(p.trace(e0, n));
    c.checkf(std::abs(g - t) < TOL, "trace", [&] { return what(m, N - 1, "trace"); });
  }
  for (std::size_t sub = 0; sub < N; ++sub) {
    c.trans();
    const auto b = bits(sub, n);
    // partial trace
    {
      const auto k = static_cast<std::size_t>(__builtin_popcountll(sub));
      const std::size_t R = 1ULL << (n - k);
      Mat w(R, Vec(R));
      for (std::size_t j = 0; j < N; ++j) {
        for (std::size_t i = 0; i < N; ++i) {
          if (((i ^ j) & sub) == 0) {
            w[squeeze(j, sub, n)][squeeze(i, sub, n)] +=
                m[j][i] / static_cast<double>(1ULL << k);
          }
        }
      }
      const auto r = p.partialTrace(e0, b);
      const auto g = ddh::toMat(r, n - k);
      c.checkf(distM(g, w) < TOL, "partial-trace", [&] {
        return what(m, sub, "tracing out") + " gave " + ddh::matStr(g);
      });
    }
    // the reductions consume a reference
    for (const bool regular : {true, false}) {
      Mat w(m);
      for (std::size_t j = 0; j < N; ++j) {
        for (std::size_t i = 0; i < N; ++i) {
          if (((regular ? j : i) & sub) != 0) {
            w[j][i] = 0;
          }
        }
      }
      const auto e = q.makeDDFromMatrix(rows(m));
      q.incRef(e);
      const auto r = q.reduceAncillae(e, b, regular);
      const auto g = ddh::toMat(r, n);
      const auto say = [&] {
        return what(m, sub, regular ? "reducing ancillae" : "reducing ancillae (inverse)") +
               " gave " + ddh::matStr(g);
      };
      c.checkf(distM(g, w) < TOL, "reduce-ancillae", say);
      release(c, q, r, "reduce-ancillae-references", say);
      for (const bool norm : {false, true}) {
        Mat s(N, Vec(N));
        for (std::size_t j = 0; j < N; ++j) {
          for (std::size_t i = 0; i < N; ++i) {
            auto& t = regular ? s[j][i & ~sub] : s[j & ~sub][i];
            t += std::norm(m[j][i]);
          }
        }
        for (auto& col : s) {
          for (auto& x : col) {
            x = std::sqrt(x.real());
          }
        }
        const auto e2 = q.makeDDFromMatrix(rows(m));
        q.incRef(e2);
        const auto r2 = q.reduceGarbage(e2, b, regular, norm);
        const auto g2 = ddh::toMat(r2, n);
        const auto say2 = [&] {
          return what(m, sub, regular ? "reducing garbage" : "reducing garbage (inverse)") +
                 (norm ? " with normalized weights" : "") + " gave " +
                 ddh::matStr(g2);
        };
        if (norm) {
          c.checkf(distM(g2, s) < TOL, "reduce-garbage-normalized", say2);
        } else if (sub == 0) {
          c.checkf(distM(g2, m) < TOL, "reduce-garbage-none", say2);
        } else {
          c.checkf(distM(absM(g2), s) < TOL, "reduce-garbage", say2);
        }
        release(c, q, r2, "reduce-garbage-references", say2);
      }
    }
  }
  p.decRef(e0);
}
void vectorCase(mc::Ctx& c, std::size_t n, const Vec& v, dd::Package& q) {
  const std::size_t N = 1ULL << n;
  c.state(ref::hashVec(v));
  for (std::size_t sub = 0; sub < N; ++sub) {
    for (const bool norm : {false, true}) {
      c.trans();
      Vec w(N);
      for (std::size_t i = 0; i < N; ++i) {
        w[i & ~sub] += std::norm(v[i]);
      }
      for (auto& x : w) {
        x = std::sqrt(x.real());
      }
      auto e = q.makeStateFromVector({v.begin(), v.end()});
      const auto r = q.reduceGarbage(e, bits(sub, n), norm);
      auto g = r.isZeroTerminal() ? Vec(N) : ddh::toVec(r);
      const auto say = [&] {
        return "reducing garbage " + std::to_string(sub) + " of " +
               ref::vecStr(v) + (norm ? " with normalized weights" : "") +
               " gave " + ref::vecStr(g);
      };
      if (sub == 0 && !norm) {
        c.checkf(ref::dist(g, v) < TOL, "reduce-garbage-vector-none", say);
      } else {
        if (!norm) {
          for (auto& x : g) {
            x = std::abs(x);
          }
        }
        c.checkf(ref::dist(g, w) < TOL, "reduce-garbage-vector", say);
      }
      release(c, q, r, "reduce-garbage-vector-references", say);
    }
  }
}
// closeness to the identity: G on the garbage qubits, D on the others
void identityCase(mc::Ctx& c, std::size_t n, std::size_t garbage) {
  const std::size_t N = 1ULL << n;
  const auto b = bits(garbage, n);
  const auto k = static_cast<std::size_t>(__builtin_popcountll(garbage));
  dd::Package p(n, ddh::smallConfig(64));
  const std::size_t GN = 1ULL << k;
  const std::size_t DN = 1ULL << (n - k);
  // unitaries on the garbage qubits
  std::vector<Mat> gs{ref::ident(k)};
  if (k == 1) {
    gs = {singles()[0], singles()[1], singles()[2], singles()[3]};
  } else if (k == 2) {
    gs = {ref::ident(2), kronM(singles()[3], singles()[1]),
          ctl(2, 0, true, 1, singles()[1]), ctl(2, 1, false, 0, singles()[3])};
  }
  struct D {
    Mat m;
    int diag;  // is it diagonal
    int ident; // is it a multiple of the identity
  };
  std::vector<D> ds;
  const auto nd = n - k;
  const auto I = ref::ident(nd);
  for (const C f : {C(1), C(-1), C(0, 1), C(0.6, 0.8)}) {
    ds.push_back({scale(I, f), 1, 1});
  }
  if (nd > 0) {
    for (std::size_t q = 0; q < nd; ++q) {
      for (const double a : {1e-13, 1e-3, 0.5, 1.5707963267948966, 3.141592653589793, -0.01}) {
        auto m = I;
        for (std::size_t i = 0; i < DN; ++i) {
          if (((i >> q) & 1U) != 0) {
            m[i][i] = std::polar(1., a);
          }
        }
        ds.push_back({m, 1, std::abs(a) < 1e-12 ? 1 : 0});
      }
      for (const double a : {1e-13, 1e-3, 0.5, 3.141592653589793}) { // rotation
        Mat u = I;
        for (std::size_t i = 0; i < DN; ++i) {
          const auto bq = (i >> q) & 1U;
          u[i][i] = std::cos(a / 2);
          u[i][i ^ (1ULL << q)] = bq != 0 ? -std::sin(a / 2) : std::sin(a / 2);
        }
        ds.push_back({u, std::abs(a) < 1e-12 ? 1 : 0, std::abs(a) < 1e-12 ? 1 : 0});
      }
      for (std::size_t t = 0; t < nd; ++t) {
        if (t != q) {
          ds.push_back({ctl(nd, q, true, t, singles()[1]), 0, 0});
          ds.push_back({ctl(nd, q, true, t, singles()[2]), 1, 0});
          ds.push_back({ctl(nd, q, false, t, fromRows({1, 0, 0, -1})), 1, 0});
        }
      }
    }
  }
  for (const auto& g : gs) {
    for (const auto& d : ds) {
      Mat m(N, Vec(N));
      for (std::size_t j = 0; j < N; ++j) {
        for (std::size_t i = 0; i < N; ++i) {
          // garbage part: complement mask
          m[j][i] = g[squeeze(j, ~garbage & (N - 1), n)][squeeze(i, ~garbage & (N - 1), n)] *
                    d.m[squeeze(j, garbage, n)][squeeze(i, garbage, n)];
        }
      }
      c.trans();
      c.state(mc::hashStr(ddh::matStr(m)));
      const auto e = p.makeDDFromMatrix(rows(m));
      const auto say = [&] { return what(m, garbage, "closeness to identity, garbage"); };
      const auto one = p.isCloseToIdentity(e, 1e-10, b, true);
      const auto diag = p.isCloseToIdentity(e, 1e-10, b, false);
      c.checkf(one == (d.ident != 0), "close-to-identity", say);
      c.checkf(diag == (d.diag != 0), "close-to-diagonal", say);
      if (garbage == 0) {
        c.checkf(p.isCloseToIdentity(e) == (d.ident != 0), "close-to-identity", say);
      }
    }
  }
  (void)GN;
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P15");
  r.assume("Reducing garbage without normalized weights fixes only the "
           "magnitudes of the resulting entries.");
  r.assume("Closeness to the identity is decided for products of a unitary on "
           "the garbage qubits and one on the others; zero matrices and "
           "ancillary projections count as identity by design and are left out.");
  for (std::size_t n = 1; n <= 3; ++n) {
    const auto ops = operands(n);
    const std::uint64_t step = (n == 3 && !r.thorough) ? 4 : 1;
    const std::uint64_t cnt = (ops.size() + step - 1) / step;
    r.space("matrices-" + std::to_string(n) + "q", (cnt + 15) / 16,
            std::to_string(cnt) + " operands (products, controlled gates, their "
                                  "products and sums, multiples, zero) on " +
                std::to_string(n) +
                " qubits x all qubit subsets x both orientations x both weight modes",
            [&](std::uint64_t i, mc::Ctx& c) {
              dd::Package p(n, ddh::smallConfig(64));
              dd::Package q(n, ddh::smallConfig(64));
              for (auto k = i * 16; k < std::min(cnt, (i + 1) * 16); ++k) {
                matrixCase(c, n, ops[k * step], p, q);
              }
            });
  }
  const std::vector<C> amps{0, 1, -0.5, 0.6 * I1};
  for (std::size_t n = 1; n <= 3; ++n) {
    std::uint64_t tot = 1;
    const std::size_t na = n == 3 && !r.thorough ? 3 : 4;
    for (std::size_t i = 0; i < (1ULL << n); ++i) {
      tot *= na;
    }
    r.space("vectors-" + std::to_string(n) + "q", (tot + 63) / 64,
            "all vectors over " + std::to_string(na) + " amplitudes on " +
                std::to_string(n) + " qubits x all qubit subsets",
            [&](std::uint64_t i, mc::Ctx& c) {
              dd::Package q(n, ddh::smallConfig(64));
              for (auto k = i * 64; k < std::min(tot, (i + 1) * 64); ++k) {
                Vec v(1ULL << n);
                auto y = k;
                for (auto& e : v) {
                  e = amps[y % na];
                  y /= na;
                }
                vectorCase(c, n, v, q);
              }
            });
  }
  r.space("identity", 2 + 4 + 8,
          "unitaries on 1-3 qubits that are (not) the identity or diagonal "
          "apart from the garbage qubits, for all garbage subsets",
          [&](std::uint64_t i, mc::Ctx& c) {
            if (i < 2) {
              identityCase(c, 1, i);
            } else if (i < 6) {
              identityCase(c, 2, i - 2);
            } else {
              identityCase(c, 3, i - 6);
            }
          });
  return r.finish();
}
