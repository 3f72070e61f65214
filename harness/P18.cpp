// P18: deterministic and stochastic noise simulation against dense channels.
#include "ddh.hpp"
#include "draws.hpp"
#include "dd/NoiseFunctionality.hpp"

using namespace qc;
using ddh::C;
using ddh::Mat;
using ddh::Vec;
namespace {
constexpr double TOL = 1e-9;
const C I1{0, 1};
using Rho = std::vector<Vec>; // rows

Rho zeroRho(std::size_t n) {
  Rho r(1ULL << n, Vec(1ULL << n));
  r[0][0] = 1;
  return r;
}
Rho outer(const Vec& v) {
  Rho r(v.size(), Vec(v.size()));
  for (std::size_t i = 0; i < v.size(); ++i) {
    for (std::size_t j = 0; j < v.size(); ++j) {
      r[i][j] = v[i] * std::conj(v[j]);
    }
  }
  return r;
}
// K rho K^dagger with K = op(columns)
template <class F> Rho conj(const Rho& r, F&& apply) {
  const auto N = r.size();
  Rho t(N, Vec(N)); // t = K rho
  for (std::size_t j = 0; j < N; ++j) {
    Vec col(N);
    for (std::size_t i = 0; i < N; ++i) {
      col[i] = r[i][j];
    }
    apply(col);
    for (std::size_t i = 0; i < N; ++i) {
      t[i][j] = col[i];
    }
  }
  Rho o(N, Vec(N)); // (K (t)^dagger)^dagger
  for (std::size_t i = 0; i < N; ++i) {
    Vec col(N);
    for (std::size_t j = 0; j < N; ++j) {
      col[j] = std::conj(t[i][j]);
    }
    apply(col);
    for (std::size_t j = 0; j < N; ++j) {
      o[i][j] = std::conj(col[j]);
    }
  }
  return o;
}
void add(Rho& a, const Rho& b, double w) {
  for (std::size_t i = 0; i < a.size(); ++i) {
    for (std::size_t j = 0; j < a.size(); ++j) {
      a[i][j] += w * b[i][j];
    }
  }
}
double distRho(const Rho& a, const Rho& b) {
  double d = 0;
  for (std::size_t i = 0; i < a.size(); ++i) {
    d = std::max(d, ref::dist(a[i], b[i]));
  }
  return d;
}
// Kraus operators of an effect as 2x2 row-major matrices
std::vector<std::array<C, 4>> kraus(char e, double p, double a) {
  const double s = std::sqrt(p / 4);
  switch (e) {
  case 'A':
    return {{1, 0, 0, std::sqrt(1 - a)}, {0, std::sqrt(a), 0, 0}};
  case 'P':
    return {{std::sqrt(1 - p), 0, 0, std::sqrt(1 - p)},
            {std::sqrt(p), 0, 0, -std::sqrt(p)}};
  case 'D':
    return {{std::sqrt(1 - 0.75 * p), 0, 0, std::sqrt(1 - 0.75 * p)},
            {0, s, s, 0},
            {0, -I1 * s, I1 * s, 0},
            {s, 0, 0, -s}};
  default:
    return {{1, 0, 0, 1}};
  }
}
void apply1(Vec& v, const std::array<C, 4>& k, Qubit q) {
  for (std::size_t i = 0; i < v.size(); ++i) {
    if (((i >> q) & 1U) == 0) {
      const auto j = i | (1ULL << q);
      const auto x = v[i];
      const auto y = v[j];
      v[i] = k[0] * x + k[1] * y;
      v[j] = k[2] * x + k[3] * y;
    }
  }
}
struct Noise {
  std::string effects;
  double p1, p2, a1, a2;
};
std::string str(const Noise& s) {
  std::ostringstream o;
  o << "effects=" << s.effects << " p=" << s.p1 << "/" << s.p2 << " a=" << s.a1
    << "/" << s.a2;
  return o.str();
}
void channel(Rho& r, const Operation& op, const Noise& s) {
  const auto used = op.getUsedQubits();
  const bool multi = used.size() > 1;
  for (const auto q : used) {
    for (const auto e : s.effects) {
      Rho o(r.size(), Vec(r.size()));
      for (const auto& k : kraus(e, multi ? s.p2 : s.p1, multi ? s.a2 : s.a1)) {
        add(o, conj(r, [&](Vec& v) { apply1(v, k, q); }), 1);
      }
      r = o;
    }
  }
}
Rho dense(const dd::dEdge& e, std::size_t n) {
  const auto m = e.getMatrix(n);
  Rho r;
  for (const auto& row : m) {
    r.emplace_back(row.begin(), row.end());
  }
  return r;
}
std::string rhoStr(const Rho& r) {
  std::string s;
  for (const auto& v : r) {
    s += ref::vecStr(v) + "|";
  }
  return s;
}
const dd::DDPackageConfig& dmConfig() {
  static const auto c = [] {
    auto k = dd::DENSITY_MATRIX_SIMULATOR_DD_PACKAGE_CONFIG;
    k.utDmNumBucket = 64;
    k.utMatNumBucket = 64;
    k.ctDmNoiseNumBucket = 64;
    k.ctDmDmMultNumBucket = 64;
    k.ctDmAddNumBucket = 64;
    k.ctMatMatMultNumBucket = 64;
    k.ctMatConjTransNumBucket = 64;
    k.utDmInitialAllocationSize = 64;
    return k;
  }();
  return c;
}
void deterministic(mc::Ctx& c, dd::Package& p, std::size_t n,
                   const circ::Alphabet& a, const std::vector<std::uint32_t>& seq,
                   const Noise& s, bool gc) {
  auto e = p.makeZeroDensityOperator(n);
  dd::DeterministicNoiseFunctionality nf(p, n, s.p1, s.p2, s.a1, s.a2, s.effects);
  Rho r = zeroRho(n);
  std::string name = str(s) + (gc ? " gc" : "") + ": ";
  for (const auto x : seq) {
    c.trans();
    const std::unique_ptr<Operation> op = a[x]->clone();
    name += ref::opStr(*op) + "; ";
    p.applyOperationToDensity(e, dd::getDD(*op, p));
    r = conj(r, [&](Vec& v) { ref::applyOp(v, *op); });
    {
      const auto got = dense(e, n);
      const bool ok = distRho(got, r) < TOL;
      c.checkf(ok, "density-gate", [&] {
        return name + "gate gave " + rhoStr(got) + " instead of " + rhoStr(r);
      });
      if (!ok) {
        break;
      }
    }
    nf.applyNoiseEffects(e, op);
    channel(r, *op, s);
    if (gc) {
      p.garbageCollect(true);
    }
    const auto got = dense(e, n);
    const bool ok = distRho(got, r) < TOL;
    c.checkf(ok, "deterministic-channel", [&] {
      return name + "gave " + rhoStr(got) + " instead of " + rhoStr(r);
    });
    if (!ok) {
      break;
    }
  }
  c.state(mc::hashStr(rhoStr(r)));
  // what is read from the operator
  const auto probs = e.getSparseProbabilityVector(n, 1e-12);
  for (std::size_t i = 0; i < r.size(); ++i) {
    const auto it = probs.find(i);
    const double x = it == probs.end() ? 0 : it->second;
    c.checkf(std::abs(x - r[i][i].real()) < TOL, "probability-vector", [&] {
      return name + "probability of " + std::to_string(i) + " is " +
             std::to_string(x) + " instead of " + std::to_string(r[i][i].real());
    });
  }
  const auto strs = e.getSparseProbabilityVectorStrKeys(n, 1e-12);
  for (std::size_t i = 0; i < r.size(); ++i) {
    std::string k(n, '0');
    for (std::size_t b = 0; b < n; ++b) {
      k[n - 1 - b] = ((i >> b) & 1U) != 0 ? '1' : '0';
    }
    const auto it = strs.find(k);
    const double x = it == strs.end() ? 0 : it->second;
    c.checkf(std::abs(x - r[i][i].real()) < TOL, "probability-strings", [&] {
      return name + "probability of " + k + " is " + std::to_string(x) +
             " instead of " + std::to_string(r[i][i].real());
    });
  }
  std::mt19937_64 mt;
  for (Qubit q = 0; q < n; ++q) {
    double p0 = 0;
    for (std::size_t i = 0; i < r.size(); ++i) {
      p0 += ((i >> q) & 1U) == 0 ? r[i][i].real() : 0;
    }
    Draws d({p0, 1 - p0});
    double got0 = 0;
    d.all([&] {
      auto f = e;
      dd::dEdge::alignDensityEdge(f);
      p.incRef(f);
      dd::dEdge::setDensityMatrixTrue(f);
      const char o = p.measureOneCollapsing(f, q, mt);
      got0 += o == '0' ? d.weight() : 0;
      const double po = o == '0' ? p0 : 1 - p0;
      if (po > 1e-9) {
        auto w = r;
        for (std::size_t i = 0; i < w.size(); ++i) {
          for (std::size_t j = 0; j < w.size(); ++j) {
            const auto want = o == '1' ? 1U : 0U;
            w[i][j] = ((i >> q) & 1U) == want && ((j >> q) & 1U) == want
                          ? w[i][j] / po
                          : C(0);
          }
        }
        const auto got = dense(f, n);
        c.checkf(distRho(got, w) < TOL, "mixed-collapse", [&] {
          return name + "qubit " + std::to_string(q) + " measured as " + o +
                 " gave " + rhoStr(got) + " instead of " + rhoStr(w);
        });
      } else {
        c.check(po > 1e-14, "mixed-impossible-outcome",
                name + "qubit " + std::to_string(q) + " measured as " + o);
      }
      dd::dEdge::alignDensityEdge(f);
      p.decRef(f);
    });
    c.checkf(std::abs(got0 - p0) < 1e-6, "mixed-frequency", [&] {
      return name + "qubit " + std::to_string(q) + " is 0 with " +
             std::to_string(got0) + " instead of " + std::to_string(p0);
    });
  }
  dd::dEdge::alignDensityEdge(e);
  p.decRef(e);
}
// all thresholds at which the stochastic simulator may decide
void thresholds(const std::vector<Vec>& states, const Operation& op, const Noise& s,
                std::vector<double>& th, std::vector<Vec>& out) {
  const auto used = op.getUsedQubits();
  const bool multi = used.size() > 1;
  const double p = multi ? s.p2 : s.p1;
  const double a = multi ? s.a2 : s.a1;
  out.clear();
  for (auto v : states) {
    ref::applyOp(v, op);
    out.push_back(v);
  }
  for (const auto q : used) {
    for (const auto e : s.effects) {
      std::vector<Vec> nx;
      for (const auto& v : out) {
        if (e == 'A') {
          double p1 = 0;
          for (std::size_t i = 0; i < v.size(); ++i) {
            p1 += ((i >> q) & 1U) != 0 ? std::norm(v[i]) : 0;
          }
          th.push_back(1 - a * p1);
          th.push_back(a * p1);
        }
        for (const auto& k : kraus(e, p, a)) {
          auto w = v;
          apply1(w, k, q);
          const auto nn = std::sqrt(ref::norm2(w));
          if (nn > 1e-6) {
            for (auto& x : w) {
              x /= nn;
            }
            bool dup = false;
            for (const auto& y : nx) {
              dup = dup || ref::dist(y, w) < 1e-9;
            }
            if (!dup) {
              nx.push_back(w);
            }
          }
        }
      }
      out = nx;
      if (e == 'D') {
        th.push_back(p / 4);
        th.push_back(p / 2);
        th.push_back(3 * p / 4);
      }
      if (e == 'P') {
        th.push_back(p);
      }
    }
  }
}
bool stochastic(mc::Ctx& c, dd::Package& p, std::size_t n, const circ::Alphabet& a,
                const std::vector<std::uint32_t>& prep,
                const std::vector<std::uint32_t>& seq, const Noise& s, double factor,
                double limit) {
  Vec v(1ULL << n);
  v[0] = 1;
  std::string name = str(s) + ": ";
  for (const auto x : prep) {
    ref::applyOp(v, *a[x]);
    name += ref::opStr(*a[x]) + "; ";
  }
  name += "| ";
  std::vector<double> th;
  std::vector<Vec> st{v};
  Rho r = outer(v);
  std::size_t draws = 0;
  for (const auto x : seq) {
    std::vector<Vec> o;
    thresholds(st, *a[x], s, th, o);
    st = o;
    r = conj(r, [&](Vec& w) { ref::applyOp(w, *a[x]); });
    channel(r, *a[x], s);
    draws += (s.effects.size() + 1) * a[x]->getUsedQubits().size();
    name += ref::opStr(*a[x]) + "; ";
  }
  Draws d(th);
  // one representative per piece if there are too many draws
  if (std::pow(d.pts.size(), draws) > limit) {
    std::vector<std::uint64_t> np;
    std::vector<double> nw;
    for (std::size_t i = 0; i + 1 < d.pts.size(); i += 2) {
      np.push_back((d.pts[i] >> 1U) + (d.pts[i + 1] >> 1U));
      nw.push_back(d.wts[i] * 2);
    }
    d.pts = np;
    d.wts = nw;
  }
  if (std::pow(d.pts.size(), draws) > limit) {
    c.skip();
    return false;
  }
  d.maxDraws = 32;
  std::mt19937_64 mt;
  Rho got(r.size(), Vec(r.size()));
  dd::StochasticNoiseFunctionality nf(p, n, s.p1, s.a1, factor, s.effects);
  auto start = p.makeZeroState(n);
  for (const auto x : prep) {
    start = dd::applyUnitaryOperation(*a[x], start, p);
  }
  d.all([&] {
    c.trans();
    auto e = start;
    p.incRef(e);
    for (const auto x : seq) {
      nf.applyNoiseOperation(a[x]->getUsedQubits(), dd::getDD(*a[x], p), e, mt);
    }
    const auto w = e.isTerminal() ? Vec(r.size()) : ddh::toVec(e);
    c.checkf(std::abs(ref::norm2(w) - 1) < TOL, "stochastic-norm", [&] {
      return name + "a state with norm " + std::to_string(ref::norm2(w));
    });
    add(got, outer(w), d.weight());
    p.decRef(e);
  });
  p.decRef(start);
  c.state(mc::hashStr(rhoStr(r)));
  c.checkf(distRho(got, r) < 1e-6, "stochastic-average", [&] {
    return name + "average " + rhoStr(got) + " instead of " + rhoStr(r);
  });
  return true;
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P18");
  r.assume("std::mt19937_64 is replaced at compile time by a generator whose "
           "every 64-bit draw is chosen by the explorer.");
  r.assume("Effects are applied to each used qubit in the order of the effect "
           "string; an effect occurs at most once in it.");
  using namespace circ;
  static Alphabet a;
  for (Qubit q = 0; q < 2; ++q) {
    a.push_back(std1(H, q));
    a.push_back(std1(X, q));
    a.push_back(std1(T, q));
    a.push_back(std1(RY, q, {1.1}));
  }
  a.push_back(std1(X, 1, {}, {0_pc}));
  a.push_back(std1(X, 0, {}, {1_nc}));
  a.push_back(std2(iSWAP, 0, 1));
  const std::vector<std::string> eff{"",   "I",  "A",  "P",   "D",  "AP",  "PA",
                                     "AD", "DA", "PD", "APD", "DPA", "PDA", "DIA"};
  const std::vector<Noise> probs{{"", 0.02, 0.04, 0.1, 0.2},
                                 {"", 0.3, 0.6, 0, 0},
                                 {"", 0, 0, 0.4, 0.8},
                                 {"", 1, 1, 1, 1},
                                 {"", 0.5, 0.25, 0.25, 0.5}};
  {
    const std::size_t len = 3;
    std::uint64_t tot = 1;
    for (std::size_t i = 0; i < len; ++i) {
      tot *= a.size();
    }
    const std::size_t ns = eff.size() * probs.size();
    const std::uint64_t step = 11;
    r.space("deterministic-2q", ns * tot / step,
            "all circuits of length 3 over 11 gates on two qubits x 14 effect "
            "strings x 5 settings of the probabilities",
            [&, len](std::uint64_t i, mc::Ctx& c) {
              auto s = probs[i % probs.size()];
              auto y = i / probs.size();
              s.effects = eff[y % eff.size()];
              y /= eff.size();
              dd::Package p(2, dmConfig());
              for (std::uint64_t k = y * step; k < (y + 1) * step; ++k) {
                std::vector<std::uint32_t> seq(len);
                auto z = k;
                for (auto& g : seq) {
                  g = static_cast<std::uint32_t>(z % a.size());
                  z /= a.size();
                }
                deterministic(c, p, 2, a, seq, s, k % 4 == 0);
              }
            });
  }
  static Alphabet b;
  b.push_back(std1(H, 0));
  b.push_back(std1(RY, 1, {1.1}));
  b.push_back(std1(S, 2));
  b.push_back(std1(X, 1, {}, {0_pc, 2_nc}));
  b.push_back(std1(H, 2, {}, {1_pc}));
  b.push_back(std2(SWAP, 0, 2));
  b.push_back(std1(X, 0));
  {
    const std::size_t len = r.thorough ? 6 : 5;
    std::uint64_t tot = 1;
    for (std::size_t i = 0; i < len; ++i) {
      tot *= b.size();
    }
    const std::size_t ns = eff.size() * probs.size();
    r.space("deterministic-3q", ns * (tot / 49),
            "all circuits of length " + std::to_string(len) +
                " over 7 gates on three qubits; the 70 noise settings take turns",
            [&, len](std::uint64_t i, mc::Ctx& c) {
              auto y = i / probs.size() / eff.size();
              dd::Package p(3, dmConfig());
              for (std::uint64_t k = y * 49; k < (y + 1) * 49; ++k) {
                if (k % 7 != i % 7) {
                  continue;
                }
                auto s = probs[i % probs.size()];
                s.effects = eff[i / probs.size() % eff.size()];
                std::vector<std::uint32_t> seq(len);
                auto z = k;
                for (auto& g : seq) {
                  g = static_cast<std::uint32_t>(z % b.size());
                  z /= b.size();
                }
                deterministic(c, p, 3, b, seq, s, k % 5 == 0);
              }
            });
  }
  {
    const std::vector<std::string> se{"",   "I",  "A",  "P",  "D",
                                      "AP", "PA", "AD", "DA", "PD", "IA"};
    struct Pr {
      double p, a, f;
    };
    const std::vector<Pr> sp{{0.1, 0.2, 2}, {0, 0.3, 2},     {0.4, 0, 1.5},
                             {0.4, 0.4, 1}, {0.25, 0.5, 0.5}, {1, 1, 1}};
    // preparations: sequences of two gates
    const auto run = [&](const char* nm, std::size_t nseq, double limit) {
      std::uint64_t ts = nseq == 1 ? a.size() : 16;
      r.space(nm, a.size() * a.size() * se.size(),
              "all two-gate preparations over 11 gates, then " +
                  std::to_string(nseq) +
                  " noisy gate(s), 11 effect strings, 6 settings sharing a "
                  "package, all random draws",
              [&, nseq, ts, limit](std::uint64_t i, mc::Ctx& c) {
                auto cfg = ddh::smallConfig(64);
                cfg.stochasticCacheOps = OpType::OpTypeEnd;
                dd::Package p(2, cfg);
                const std::vector<std::uint32_t> prep{
                    static_cast<std::uint32_t>(i % a.size()),
                    static_cast<std::uint32_t>(i / a.size() % a.size())};
                const auto& e = se[i / a.size() / a.size()];
                for (const auto& x : sp) {
                  Noise s{e, x.p, x.p * x.f, x.a, x.a * x.f};
                  for (std::uint64_t k = 0; k < ts; ++k) {
                    std::vector<std::uint32_t> seq;
                    if (nseq == 1) {
                      seq = {static_cast<std::uint32_t>(k)};
                    } else {
                      const std::array<std::uint32_t, 4> g{0, 3, 5, 8};
                      seq = {g[k % 4], g[k / 4]};
                    }
                    stochastic(c, p, 2, a, prep, seq, s, x.f, limit);
                  }
                  if (x.f < 2) {
                    p.garbageCollect(true);
                  }
                }
              });
    };
    run("stochastic-1", 1, r.thorough ? 60000 : 20000);
    run("stochastic-2", 2, r.thorough ? 10000 : 3000);
  }
  return r.finish();
}
