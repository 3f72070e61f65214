// P17: measuring, collapsing and sampling, with every random draw enumerated.
#include "ddh.hpp"
#include "draws.hpp"

using namespace qc;
using ddh::C;
using ddh::Vec;
namespace {
constexpr double TOL = 1e-9;
constexpr double PTOL = 1e-6;
const C I1{0, 1};

Vec normalised(Vec v) {
  const double s = std::sqrt(ref::norm2(v));
  for (auto& x : v) {
    x /= s;
  }
  return v;
}
double p0of(const Vec& v, std::size_t q) {
  double s = 0;
  for (std::size_t i = 0; i < v.size(); ++i) {
    s += ((i >> q) & 1U) == 0 ? std::norm(v[i]) : 0;
  }
  return s;
}
// the thresholds of measuring all qubits one after the other
void chain(const Vec& v, std::size_t n, std::vector<double>& c) {
  for (const bool down : {false, true}) {
    const std::function<void(const Vec&, std::size_t)> rec = [&](const Vec& w,
                                                               std::size_t k) {
      if (k == n) {
        return;
      }
      const auto q = down ? n - 1 - k : k;
      const auto t = ref::norm2(w);
      const auto p = p0of(w, q) / t;
      c.push_back(p);
      c.push_back(1 - p);
      for (int o = 0; o < 2; ++o) {
        auto x = w;
        ref::project(x, static_cast<std::uint32_t>(q), o);
        if (ref::norm2(x) > 1e-12) {
          rec(x, k + 1);
        }
      }
    };
    rec(v, 0);
  }
}
std::string bitsStr(std::uint64_t b, std::size_t n) {
  std::string s(n, '0');
  for (std::size_t i = 0; i < n; ++i) {
    if (((b >> i) & 1U) != 0) {
      s[n - 1 - i] = '1';
    }
  }
  return s;
}
using SDist = std::map<std::string, double>;
double distS(const SDist& a, const SDist& b) {
  double d = 0;
  for (const auto& [k, v] : a) {
    const auto it = b.find(k);
    d = std::max(d, std::abs(v - (it == b.end() ? 0 : it->second)));
  }
  for (const auto& [k, v] : b) {
    if (a.count(k) == 0) {
      d = std::max(d, v);
    }
  }
  return d;
}
std::string str(const SDist& d) {
  std::string s;
  for (const auto& [k, v] : d) {
    s += k + ":" + std::to_string(v) + " ";
  }
  return s;
}

// ---- states ----------------------------------------------------------------
void state(mc::Ctx& c, dd::Package& p, const Vec& v, std::size_t n) {
  c.state(ref::hashVec(v));
  const auto mk = [&] { return p.makeStateFromVector({v.begin(), v.end()}); };
  std::mt19937_64 mt;
  for (Qubit q = 0; q < n; ++q) {
    const auto p0 = p0of(v, q);
    {
      auto e = mk();
      const auto pr = p.determineMeasurementProbabilities(e, q);
      c.checkf(std::abs(pr.first - p0) < TOL && std::abs(pr.second - 1 + p0) < TOL,
               "probabilities", [&] {
                 return "qubit " + std::to_string(q) + " of " + ref::vecStr(v) +
                        ": " + std::to_string(pr.first) + " " +
                        std::to_string(pr.second);
               });
      p.decRef(e);
    }
    Draws d({p0, 1 - p0});
    double got0 = 0;
    d.all([&] {
      auto e = mk();
      const char o = p.measureOneCollapsing(e, q, mt);
      c.trans();
      auto w = v;
      ref::project(w, q, o == '1' ? 1 : 0);
      const auto nn = ref::norm2(w);
      c.checkf(nn > 1e-9, "impossible-outcome", [&] {
        return "qubit " + std::to_string(q) + " of " + ref::vecStr(v) +
               " measured as " + o;
      });
      if (nn > 1e-9) {
        c.checkf(ref::dist(ddh::toVec(e), normalised(w)) < TOL, "collapse", [&] {
          return "qubit " + std::to_string(q) + " of " + ref::vecStr(v) +
                 " measured as " + o + ": " + ref::vecStr(ddh::toVec(e));
        });
      }
      got0 += o == '0' ? d.weight() : 0;
      p.decRef(e);
    });
    c.checkf(std::abs(got0 - p0) < PTOL, "measure-one-frequency", [&] {
      return "qubit " + std::to_string(q) + " of " + ref::vecStr(v) + " is 0 with " +
             std::to_string(got0);
    });
  }
  std::vector<double> th;
  chain(v, n, th);
  SDist want;
  for (std::size_t i = 0; i < v.size(); ++i) {
    if (std::norm(v[i]) > 1e-12) {
      want[bitsStr(i, n)] = std::norm(v[i]);
    }
  }
  for (const bool collapse : {false, true}) {
    Draws d(th);
    SDist got;
    d.all([&] {
      auto e = mk();
      const auto before = e;
      const auto s = p.measureAll(e, collapse, mt);
      c.trans();
      got[s] += d.weight();
      c.checkf(want.count(s) != 0, "impossible-outcome", [&] {
        return ref::vecStr(v) + " measured as " + s;
      });
      if (collapse) {
        Vec b(v.size());
        std::size_t k = 0;
        for (std::size_t i = 0; i < n && s.size() == n; ++i) {
          k |= s[n - 1 - i] == '1' ? 1ULL << i : 0;
        }
        b[k] = 1;
        c.checkf(ref::dist(ddh::toVec(e), b) < TOL, "collapse-all", [&] {
          return ref::vecStr(v) + " measured as " + s + " became " +
                 ref::vecStr(ddh::toVec(e));
        });
      } else {
        c.checkf(e == before, "measure-changes", [&] {
          return ref::vecStr(v) + " changed by measuring without collapse";
        });
      }
      p.decRef(e);
    });
    c.checkf(distS(got, want) < PTOL, "measure-all-frequency", [&] {
      return ref::vecStr(v) + (collapse ? " collapsing" : "") + ": " + str(got);
    });
  }
}
// density operators of circuits: measuring one qubit
void density(mc::Ctx& c, dd::Package& p, const circ::Alphabet& a,
             const std::vector<std::uint32_t>& seq, std::size_t n) {
  Vec v(1ULL << n);
  v[0] = 1;
  std::string name;
  for (const auto s : seq) {
    ref::applyOp(v, *a[s]);
    name += ref::opStr(*a[s]) + "; ";
  }
  std::mt19937_64 mt;
  for (Qubit q = 0; q < n; ++q) {
    const auto p0 = p0of(v, q);
    Draws d({p0, 1 - p0});
    double got0 = 0;
    d.all([&] {
      auto e = p.makeZeroDensityOperator(n);
      for (const auto s : seq) {
        auto g = dd::getDD(*a[s], p);
        p.applyOperationToDensity(e, g);
      }
      const char o = p.measureOneCollapsing(e, q, mt);
      c.trans();
      got0 += o == '0' ? d.weight() : 0;
      auto w = v;
      ref::project(w, q, o == '1' ? 1 : 0);
      if (ref::norm2(w) > 1e-9) {
        w = normalised(w);
        const auto m = e.getMatrix(n);
        double diff = 0;
        for (std::size_t i = 0; i < w.size(); ++i) {
          for (std::size_t j = 0; j < w.size(); ++j) {
            diff = std::max(diff, std::abs(m[i][j] - w[i] * std::conj(w[j])));
          }
        }
        c.checkf(diff < TOL, "density-collapse", [&] {
          return name + "qubit " + std::to_string(q) + " measured as " + o +
                 ": density operator off by " + std::to_string(diff);
        });
      } else {
        c.check(false, "density-impossible-outcome",
                name + "qubit " + std::to_string(q) + " measured as " + o);
      }
      dd::dEdge::alignDensityEdge(e);
      p.decRef(e);
    });
    c.checkf(std::abs(got0 - p0) < PTOL, "density-frequency", [&] {
      return name + "qubit " + std::to_string(q) + " is 0 with " +
             std::to_string(got0) + " instead of " + std::to_string(p0);
    });
  }
}
// ---- circuits --------------------------------------------------------------
struct Layout {
  const char* name;
  std::vector<std::pair<Qubit, Qubit>> init;
  std::vector<std::pair<Qubit, Qubit>> out;
};
void circuit(mc::Ctx& c, dd::Package& p, QuantumComputation& q, std::size_t n,
             std::size_t shots) {
  bool measured = false;
  bool simple = true; // measurements only at the end
  std::size_t events = 0;
  const std::function<void(const Operation&)> look = [&](const Operation& o) {
    if (o.isCompoundOperation()) {
      for (const auto& x : dynamic_cast<const CompoundOperation&>(o)) {
        look(*x);
      }
    }
    if (o.getType() == Measure || o.getType() == Reset) {
      events += o.getNtargets();
    }
    simple = simple && o.getType() != Reset && !o.isClassicControlledOperation() &&
             !(measured && o.isUnitary());
    measured = measured || o.getType() == Measure ||
               o.isClassicControlledOperation() || o.getType() == Reset;
  };
  std::vector<double> th;
  ref::conditionals() = &th;
  const auto br = ref::runZero(q, n);
  ref::conditionals() = nullptr;
  for (const auto& o : q) {
    look(*o);
  }
  if (simple) {
    // all qubits may be measured at once, at the end
    Vec v(1ULL << n);
    v[0] = 1;
    for (const auto& o : q) {
      if (o->isUnitary()) {
        ref::applyOp(v, *o);
      }
    }
    chain(v, n, th);
    events = n;
  }
  SDist one;
  if (measured) {
    for (const auto& [b, pr] : ref::distribution(br)) {
      one[bitsStr(b, q.getNcbits())] += pr;
    }
  } else {
    for (std::size_t i = 0; i < br[0].v.size(); ++i) {
      if (std::norm(br[0].v[i]) > 1e-12) {
        one[bitsStr(ddh::permuteBits(i, q.outputPermutation), n)] +=
            std::norm(br[0].v[i]);
      }
    }
  }
  SDist want;
  if (shots == 1) {
    want = one;
  } else {
    for (const auto& [x, px] : one) {
      for (const auto& [y, py] : one) {
        want[std::min(x, y) + "," + std::max(x, y)] += px * py;
      }
    }
  }
  Draws d(th);
  d.maxDraws = 24;
  if (std::pow(d.pts.size(), events * shots) > 5000) {
    c.skip();
    return;
  }
  SDist got;
  d.all([&] {
    c.trans();
    const auto r = dd::sample(q, p.makeZeroState(n), p, shots, 1);
    std::string k;
    for (const auto& [s, m] : r) {
      for (std::size_t i = 0; i < m; ++i) {
        k += (k.empty() ? "" : ",") + s;
      }
    }
    // unused bits beyond the qubits may be reported
    if (!measured && shots == 1 && k.size() > n &&
        k.find_first_not_of('0') >= k.size() - n) {
      k = k.substr(k.size() - n);
    }
    got[k] += d.weight();
  });
  c.state(mc::hashStr(str(want)));
  c.checkf(distS(got, want) < PTOL,
           measured ? "sample-distribution" : "sample-output-distribution", [&] {
             return ref::qcStr(q) + "\nsampled " + str(got) + "\nexpected " +
                    str(want);
           });
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P17");
  r.assume("std::mt19937_64 is replaced at compile time by a generator whose "
           "every 64-bit draw is chosen by the explorer.");
  r.assume("The interval [0,1) of a draw is represented by points just inside "
           "every boundary that follows from the Born rule, weighted by the "
           "lengths of the pieces.");
  const std::vector<C> amps{0, 1, -1, C(0, 0.5), C(0.3, -0.7), 3};
  const auto states = [&](std::size_t n, std::size_t na, const std::string& name) {
    std::uint64_t tot = 1;
    for (std::size_t i = 0; i < (1ULL << n); ++i) {
      tot *= na;
    }
    constexpr std::uint64_t B = 64;
    r.space(name, (tot + B - 1) / B,
            "all normalised vectors over " + std::to_string(na) +
                " amplitudes on " + std::to_string(n) +
                " qubits, every outcome of every measurement",
            [&, n, na, tot](std::uint64_t i, mc::Ctx& c) {
              dd::Package p(n, ddh::smallConfig(64));
              for (auto k = std::max<std::uint64_t>(1, i * B);
                   k < std::min(tot, (i + 1) * B); ++k) {
                Vec v(1ULL << n);
                auto y = k;
                for (auto& e : v) {
                  e = amps[y % na];
                  y /= na;
                }
                state(c, p, normalised(v), n);
              }
            });
  };
  states(1, 6, "states-1q");
  states(2, 6, "states-2q");
  states(3, r.thorough ? 4 : 2, "states-3q");

  using namespace circ;
  const double t = 2 * M_PI / 3;
  {
    Alphabet a;
    for (Qubit q = 0; q < 2; ++q) {
      a.push_back(std1(H, q));
      a.push_back(std1(S, q));
      a.push_back(std1(X, q));
      a.push_back(std1(RY, q, {t}));
    }
    a.push_back(std1(X, 1, {}, {0_pc}));
    a.push_back(std1(X, 0, {}, {1_nc}));
    const std::size_t len = r.thorough ? 4 : 3;
    std::uint64_t tot = 1;
    for (std::size_t i = 0; i < len; ++i) {
      tot *= a.size();
    }
    r.space("density", tot / 10,
            "all circuits of length " + std::to_string(len) +
                " over 10 gates on two qubits as density operators, measuring "
                "each qubit",
            [&, len](std::uint64_t i, mc::Ctx& c) {
              dd::DDPackageConfig cfg = dd::DENSITY_MATRIX_SIMULATOR_DD_PACKAGE_CONFIG;
              dd::Package p(2, cfg);
              for (std::uint64_t k = i * 10; k < (i + 1) * 10; ++k) {
                std::vector<std::uint32_t> seq(len);
                auto y = k;
                for (auto& s : seq) {
                  s = static_cast<std::uint32_t>(y % a.size());
                  y /= a.size();
                }
                density(c, p, a, seq, 2);
              }
            });
  }
  {
    // dynamic circuits on two qubits and two bits
    static const ClassicalRegister reg(0, 2, "c");
    static Alphabet a;
    a.push_back(std1(H, 0));
    a.push_back(std1(RY, 1, {t}));
    a.push_back(std1(X, 0));
    a.push_back(std1(X, 1, {}, {0_pc}));
    a.push_back(std2(SWAP, 0, 1));
    a.push_back(meas({0}, {0}));
    a.push_back(meas({1}, {1}));
    a.push_back(meas({0}, {1}));
    a.push_back(meas({0, 1}, {1, 0}));
    a.push_back(reset({0}));
    a.push_back(reset({0, 1}));
    a.push_back(ifBit(std1(X, 1), 0));
    a.push_back(ifReg(std1(H, 0), reg, 2, Geq));
    a.push_back(ifReg(std2(SWAP, 0, 1), reg, 1, Lt));
    a.push_back(barrier({0, 1}));
    a.push_back(compound(std1(H, 0), meas({0}, {0})));
    a.push_back(compound(std1(H, 1), std1(X, 0, {}, {1_pc})));
    a.push_back(ifBit(std1(X, 0), 1, 1, Neq));
    const std::vector<Layout> lay{
        {"plain", {{0, 0}, {1, 1}}, {{0, 0}, {1, 1}}},
        {"swapped", {{0, 1}, {1, 0}}, {{0, 1}, {1, 0}}},
        {"output swapped", {{0, 0}, {1, 1}}, {{0, 1}, {1, 0}}}};
    for (const std::size_t len : {std::size_t{1}, std::size_t{2}, std::size_t{3},
                                  std::size_t{4},
                                  r.thorough ? std::size_t{5} : std::size_t{0}}) {
      if (len == 0) {
        continue;
      }
      const std::size_t nl = len == 5 ? 1 : lay.size();
      std::uint64_t tot = nl;
      for (std::size_t i = 0; i < len; ++i) {
        tot *= a.size();
      }
      const std::uint64_t B = tot > 1000 ? 54 : 3;
      r.space("dynamic-" + std::to_string(len), tot / B,
              "all circuits of length " + std::to_string(len) +
                  " over 18 operations x " + std::to_string(nl) + " layouts, one shot" +
                  (len <= 2 ? " and two shots" : "") + ", every draw",
              [&, len, B, nl](std::uint64_t i, mc::Ctx& c) {
                dd::Package p(2, ddh::smallConfig(64));
                for (std::uint64_t k = i * B; k < (i + 1) * B; ++k) {
                  auto y = k;
                  const auto& l = lay[y % nl];
                  y /= nl;
                  QuantumComputation q(2, 2, 1);
                  for (std::size_t s = 0; s < len; ++s) {
                    q.emplace_back(a[y % a.size()]->clone());
                    y /= a.size();
                  }
                  for (const auto& [x, z] : l.init) {
                    q.initialLayout[x] = z;
                  }
                  for (const auto& [x, z] : l.out) {
                    q.outputPermutation[x] = z;
                  }
                  circuit(c, p, q, 2, 1);
                  if (len <= 2) {
                    circuit(c, p, q, 2, 2);
                  }
                }
              });
    }
    // more bits or fewer bits than qubits
    static Alphabet b;
    b.push_back(std1(H, 0));
    b.push_back(std1(X, 1, {}, {0_pc}));
    b.push_back(std1(X, 2));
    b.push_back(std2(SWAP, 1, 2));
    b.push_back(meas({0}, {0}));
    b.push_back(meas({2}, {0}));
    b.push_back(meas({1, 2}, {0, 0}));
    b.push_back(reset({1}));
    b.push_back(ifBit(std1(X, 2), 0));
    for (const std::size_t bits : {0, 1, 4}) {
      r.space("bits-" + std::to_string(bits), 81,
              "all circuits of length 4 over 9 operations on three qubits with " +
                  std::to_string(bits) + " bits",
              [&, bits](std::uint64_t i, mc::Ctx& c) {
                dd::Package p(3, ddh::smallConfig(64));
                for (std::uint64_t k = i * 81; k < (i + 1) * 81; ++k) {
                  auto y = k;
                  QuantumComputation q(3, bits, 1);
                  bool ok = true;
                  for (std::size_t s = 0; s < 4; ++s) {
                    const auto x = y % b.size();
                    ok = ok && (bits > 0 || x < 4 || x == 7);
                    q.emplace_back(b[x]->clone());
                    y /= b.size();
                  }
                  if (ok) {
                    circuit(c, p, q, 3, 1);
                  }
                }
              });
    }
  }
  r.space("wide", 70 * 4,
          "basis and GHZ-like states on 1 to 70 qubits: every way of measuring, "
          "both outcomes; circuits with as many bits",
          [&](std::uint64_t i, mc::Ctx& c) {
            mc::Digits d(i);
            const auto n = d.take(70) + 1;
            const auto kind = d.take(4); // basis, GHZ, rotated layouts, reversed bits
            dd::Package p(n, ddh::smallConfig(64));
            std::vector<bool> bits(n);
            for (std::size_t k = 0; k < n; ++k) {
              bits[k] = (k * k + n) % 3 == 0;
            }
            const auto text = [&](const std::vector<bool>& b) {
              std::string s;
              for (std::size_t k = b.size(); k-- > 0;) {
                s += b[k] ? '1' : '0';
              }
              return s;
            };
            std::mt19937_64 mt;
            if (kind < 2) {
              auto inv = bits;
              inv.flip();
              for (std::size_t q = 0; q < n; ++q) {
                Draws dr({0.36, 0.64});
                dr.all([&] {
                  mcrng::next = &Draws::draw;
                  auto e = p.makeBasisState(n, bits);
                  if (kind == 1) {
                    auto w = p.makeBasisState(n, inv);
                    e.w = p.cn.lookup(0.6, 0.);
                    w.w = p.cn.lookup(0., -0.8);
                    e = p.add(e, w);
                  }
                  p.incRef(e);
                  const auto pr = p.determineMeasurementProbabilities(e, static_cast<Qubit>(q));
                  const double one = kind == 0 ? (bits[q] ? 1. : 0.) : bits[q] ? 0.36 : 0.64;
                  c.checkf(std::abs(pr.second - one) < 1e-9, "wide:probability", [&] {
                    return std::to_string(n) + " qubits, qubit " + std::to_string(q);
                  });
                  if (dr.path.empty()) { // once: all at once, uncollapsed
                    mcrng::next = nullptr;
                    const auto s = p.measureAll(e, false, mt);
                    c.checkf(s == text(bits) || (kind == 1 && s == text(inv)),
                             "wide:measure-all", [&] { return s; });
                    mcrng::next = &Draws::draw;
                  }
                  const char o = p.measureOneCollapsing(e, static_cast<Qubit>(q), mt);
                  const auto& now = (o == '1') == bits[q] ? bits : inv;
                  // every qubit costs a draw, but nothing is left to chance
                  mcrng::next = nullptr;
                  const auto s = p.measureAll(e, false, mt);
                  c.checkf(s == text(now) && (kind == 1 || now == bits), "wide:collapse", [&] {
                    return std::to_string(n) + " qubits, qubit " + std::to_string(q) +
                           " measured as " + o + ", then all as " + s;
                  });
                  p.decRef(e);
                  c.trans();
                });
              }
            } else {
              QuantumComputation q(n, n);
              std::vector<bool> want(n);
              for (std::size_t k = 0; k < n; ++k) {
                if (bits[k]) {
                  q.x(static_cast<Qubit>(k));
                }
              }
              for (std::size_t k = 0; k < n; ++k) {
                const auto b = kind == 2 ? (k + n / 2) % n : n - 1 - k;
                q.measure(static_cast<Qubit>(k), b);
                want[b] = bits[k];
              }
              if (kind == 3) { // conditions on the highest and lowest bits
                q.emplace_back(ifBit(std1(X, 0), n - 1));
                q.measure(0, 0);
                want[0] = bits[0] != want[n - 1];
              }
              mcrng::next = nullptr; // nothing is random here
              {
                const auto r2 = dd::sample(q, p.makeZeroState(n), p, 3, 1);
                c.checkf(r2.size() == 1 && r2.count(text(want)) == 1 && r2.at(text(want)) == 3,
                         "wide:sample", [&] {
                           return std::to_string(n) + " qubits sampled as " +
                                  r2.begin()->first + " instead of " + text(want);
                         });
              }
            }
            c.state(i);
          });
  return r.finish();
}
