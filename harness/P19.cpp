// P19: ZX diagrams of circuits represent the circuits.
#include "zxh.hpp"

#include "ir/operations/SymbolicOperation.hpp"

using namespace circ;
using qc::Qubit;
using zxh::C;
namespace {
constexpr double TOL = 1e-6;

// the action of a circuit on logical qubits
std::vector<ref::Vec> expected(const qc::QuantumComputation& q) {
  const auto phys = ref::unitary(q, q.getNqubits());
  const auto n = q.getNqubits();
  std::vector<ref::Vec> r(phys.size(), ref::Vec(phys.size()));
  const auto map = [&](std::size_t x) {
    std::size_t y = 0;
    for (const auto& [p, l] : q.initialLayout) {
      y |= ((x >> p) & 1U) << l;
    }
    return y;
  };
  for (std::size_t i = 0; i < (std::size_t{1} << n); ++i) {
    for (std::size_t j = 0; j < (std::size_t{1} << n); ++j) {
      r[map(i)][map(j)] = phys[i][j];
    }
  }
  return r;
}

constexpr const char* SIGN = "xx_minus_yy:negated-theta";
// whether the map differs from the circuit only in that the angle theta of
// all XXminusYY gates is negated
bool signOnly(const qc::QuantumComputation& q, const std::vector<ref::Vec>& m) {
  auto p = q;
  bool any = false;
  for (auto& op : p) {
    if (op->getType() == qc::XXminusYY) {
      auto ps = op->getParameter();
      ps[0] = -ps[0];
      op->setParameter(ps);
      any = true;
    }
  }
  return any && zxh::distScalar(m, expected(p)) < TOL;
}

void judge(mc::Ctx& c, const std::string& key, const qc::QuantumComputation& q,
           bool unitary = true) {
  c.trans();
  c.state(mc::hashStr(ref::qcStr(q)));
  const auto yes = zx::FunctionalityConstruction::transformableToZX(&q);
  try {
    const auto d = zx::FunctionalityConstruction::buildFunctionality(&q);
    if (!unitary) {
      c.check(false, key + ":not-refused", ref::qcStr(q));
      return;
    }
    const auto bad = zxh::inconsistent(d);
    c.checkf(bad.empty(), (key + ":inconsistent").c_str(), [&] {
      return ref::qcStr(q) + "\n" + bad + ": " + zxh::str(d);
    });
    if (!bad.empty()) {
      return;
    }
    const auto m = zxh::toMap(d);
    const auto e = expected(q);
    const auto good = zxh::distScalar(m, e) < TOL;
    if (!good && signOnly(q, m)) {
      c.check(false, SIGN, ref::qcStr(q));
      return;
    }
    c.checkf(good, key.c_str(), [&] {
      return ref::qcStr(q) + "\nbecomes " + zxh::str(d) + "\nmap " +
             zxh::str(m) + "\ninstead of " + zxh::str(e);
    });
  } catch (const std::exception& e) {
    c.checkf(!yes, (key + ":declared-convertible").c_str(),
             [&] { return ref::qcStr(q) + "\n" + e.what(); });
  }
}
void judgeOps(mc::Ctx& c, const std::string& key, std::size_t n,
              std::vector<OpPtr> ops, const qc::Permutation* layout = nullptr) {
  qc::QuantumComputation q(n, n, 1);
  for (auto& o : ops) {
    q.emplace_back(std::move(o));
  }
  if (layout != nullptr) {
    q.initialLayout = *layout;
  }
  judge(c, key, q);
}
std::vector<qc::Permutation> layouts(std::size_t n) {
  std::vector<Qubit> p(n);
  for (Qubit i = 0; i < n; ++i) {
    p[i] = i;
  }
  std::vector<qc::Permutation> r;
  do {
    qc::Permutation x;
    for (Qubit i = 0; i < n; ++i) {
      x[i] = p[i];
    }
    r.push_back(x);
  } while (std::next_permutation(p.begin(), p.end()));
  return r;
}
const std::vector<double>& grid() {
  static const std::vector<double> g{0.,  qc::PI / 4,  -qc::PI / 4, qc::PI / 2,
                                     -qc::PI / 2, qc::PI, -qc::PI,
                                     3 * qc::PI / 4, 0.3, -1.7, 2 * qc::PI,
                                     5.1, 7 * qc::PI / 2};
  return g;
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P19");
  r.assume("maps are compared up to a non-zero scalar, as the conversion tracks "
           "scalars other than global phases nowhere");
  r.assume("the diagram acts on logical qubits: the initial layout names the "
           "qubits of both ends, the output permutation is left to the user");
  // every gate in every place with every controls and parameters
  {
    std::vector<std::function<std::pair<std::size_t, OpPtr>()>> ms;
    for (const std::size_t n : {1U, 2U, 3U, 4U}) {
      const auto maxC = n == 4 ? 3U : 2U;
      const auto perms = [&](std::size_t k) {
        std::vector<std::vector<Qubit>> t;
        for (Qubit a = 0; a < n; ++a) {
          if (k == 1) {
            t.push_back({a});
            continue;
          }
          for (Qubit b = 0; b < n; ++b) {
            if (a != b) {
              t.push_back({a, b});
            }
          }
        }
        return t;
      };
      for (const auto* types : {&singleTypes(), &doubleTypes()}) {
        const std::size_t k = types == &singleTypes() ? 1 : 2;
        for (const auto t : *types) {
          const auto np = nparams(t);
          const auto ps =
              np <= 1 || (r.thorough && n < 3)
                  ? paramGrid(np, grid())
                  : paramGrid(np, {0., qc::PI / 2, -qc::PI / 4, 0.3, qc::PI});
          for (const auto& q : perms(k)) {
            for (const auto& ctl : allControls(n, q, maxC)) {
              if (n == 4 && ctl.size() < 2) {
                continue;
              }
              for (const auto& p : ps) {
                ms.emplace_back([=]() -> std::pair<std::size_t, OpPtr> {
                  return {n, k == 1 ? std1(t, q[0], p, ctl)
                                             : std2(t, q[0], q[1], p, ctl)};
                });
              }
            }
          }
        }
      }
      for (const auto& ctl : allControls(n, {}, maxC)) {
        for (const auto a : grid()) {
          ms.emplace_back([=]() -> std::pair<std::size_t, OpPtr> { return {n, gphase(a, ctl)}; });
        }
      }
    }
    r.space("single", ms.size(),
            "every gate on 1 to 4 qubits in every arrangement with up to 3 "
            "positive and negative controls and parameters from a grid of 13",
            [&, ms](std::uint64_t i, mc::Ctx& c) {
              auto [n, op] = ms[i]();
              std::vector<OpPtr> v;
              const std::string key =
                  "single:" + qc::toString(op->getType()) + ":" +
                  std::to_string(op->getNcontrols());
              v.push_back(std::move(op));
              judgeOps(c, key, n, std::move(v));
            });
  }
  // sequences, with the patterns the conversion recognises, under layouts
  const auto alphabet = [](std::size_t n) {
    std::vector<Maker> m;
    for (Qubit a = 0; a < n; ++a) {
      m.emplace_back([a] { return std1(qc::H, a); });
      m.emplace_back([a] { return std1(qc::T, a); });
      m.emplace_back([a] { return std1(qc::SX, a); });
      for (Qubit b = 0; b < n; ++b) {
        if (a == b) {
          continue;
        }
        m.emplace_back([a, b] { return std1(qc::X, b, {}, {a}); });
        m.emplace_back([a, b] { return std1(qc::S, b, {}, {a}); });
        m.emplace_back([a, b] {
          return std1(qc::X, b, {}, {qc::Control{a, qc::Control::Type::Neg}});
        });
        if (a < b) {
          m.emplace_back([a, b] { return std2(qc::SWAP, a, b); });
          m.emplace_back([a, b] { return std2(qc::iSWAP, a, b); });
        } else {
          m.emplace_back([a, b] { return std2(qc::RZX, a, b, {0.7}); });
        }
      }
    }
    m.emplace_back([] { return barrier({0, 1}); });
    m.emplace_back([] { return gphase(0.4); });
    m.emplace_back([] { return compound(std1(qc::X, 1, {}, {0}), std1(qc::X, 0, {}, {1})); });
    if (n > 2) {
      m.emplace_back([] { return std1(qc::X, 0, {}, {2, 1}); });
      m.emplace_back([] { return std2(qc::SWAP, 0, 1, {}, {2}); });
    }
    return m;
  };
  for (const std::size_t n : {2U, 3U}) {
    const auto m = alphabet(n);
    const auto ls = layouts(n);
    const std::size_t len = n == 2 ? (r.thorough ? 5 : 4) : (r.thorough ? 4 : 3);
    std::uint64_t total = 1;
    for (std::size_t i = 0; i < len; ++i) {
      total *= m.size();
    }
    r.space("sequences-" + std::to_string(n), total,
            "all sequences of " + std::to_string(len) + " of " +
                std::to_string(m.size()) + " operations on " +
                std::to_string(n) + " qubits, one of the layouts each",
            [&, m, ls, len, n](std::uint64_t i, mc::Ctx& c) {
              std::vector<OpPtr> v;
              auto x = i;
              for (std::size_t k = 0; k < len; ++k) {
                v.push_back(m[x % m.size()]());
                x /= m.size();
              }
              judgeOps(c, "sequence", n, std::move(v),
                       &ls[(i ^ (i / m.size())) % ls.size()]);
            });
  }
  // three controlled NOTs in a row: all of them, under all layouts
  {
    std::vector<Maker> m;
    for (Qubit a = 0; a < 3; ++a) {
      for (Qubit b = 0; b < 3; ++b) {
        if (a != b) {
          for (const auto t : {qc::Control::Type::Pos, qc::Control::Type::Neg}) {
            m.emplace_back([=] { return std1(qc::X, b, {}, {qc::Control{a, t}}); });
          }
        }
      }
    }
    m.emplace_back([] { return barrier({0, 1, 2}); });
    m.emplace_back([] { return std1(qc::X, 0); });
    const auto ls = layouts(3);
    const auto k = m.size();
    // 4 operations, optionally split into compound operations, or ended early
    const std::size_t nl = r.thorough ? ls.size() : 1;
    r.space("swaps", k * k * k * k * nl * 4,
            "all sequences of 3 and 4 controlled NOTs on 3 qubits under " +
                std::to_string(nl) + " of the 6 layouts each, grouped in 4 ways",
            [&, m, ls, k, nl](std::uint64_t i, mc::Ctx& c) {
              const auto g = i % 4;
              i /= 4;
              const auto& l = ls[(i % nl + i / nl % 7) % ls.size()];
              i /= nl;
              std::vector<OpPtr> v;
              for (int j = 0; j < 4; ++j) {
                v.push_back(m[i % k]());
                i /= k;
              }
              std::vector<OpPtr> w;
              if (g == 0) {
                w = std::move(v);
              } else if (g == 1) {
                w.push_back(compound(std::move(v[0]), std::move(v[1]),
                                     std::move(v[2])));
                w.push_back(std::move(v[3]));
              } else if (g == 2) {
                w.push_back(std::move(v[0]));
                w.push_back(compound(std::move(v[1]), std::move(v[2])));
                w.push_back(std::move(v[3]));
              } else {
                w.push_back(compound(
                    compound(std::move(v[0]), std::move(v[1])), std::move(v[2])));
              }
              judgeOps(c, "swaps", 3, std::move(w), &l);
            });
  }
  // operations that have no unitary meaning
  {
    std::vector<std::function<void(qc::QuantumComputation&)>> fs;
    fs.emplace_back([](auto& q) { q.reset(0); });
    fs.emplace_back([](auto& q) { q.classicControlled(qc::X, 1, 0); });
    fs.emplace_back([](auto& q) { q.emplace_back(compound(reset({1}), std1(qc::H, 0))); });
    fs.emplace_back([](auto& q) {
      q.emplace_back(compound(ifBit(std1(qc::X, 1), 0), std1(qc::H, 0)));
    });
    r.space("refused", fs.size() * 3 * 3,
            "resets and classically controlled gates between two gates",
            [&, fs](std::uint64_t i, mc::Ctx& c) {
              qc::QuantumComputation q(2, 2, 1);
              const auto put = [&](std::uint64_t k) {
                if (k == 1) {
                  q.h(0);
                } else if (k == 2) {
                  q.cx(0, 1);
                }
              };
              put(i / 3 % 3);
              fs[i / 9](q);
              put(i % 3);
              judge(c, "refused", q, false);
            });
  }
  // symbolic parameters: the instances of the diagram are the diagrams of the
  // instances
  {
    const std::vector<qc::OpType> types{qc::P,   qc::RX,  qc::RY,  qc::RZ,
                                        qc::U2,  qc::U,   qc::RXX, qc::RYY,
                                        qc::RZZ, qc::RZX, qc::XXminusYY,
                                        qc::XXplusYY, qc::GPhase};
    const sym::Variable x("x");
    const sym::Variable y("y");
    const std::vector<qc::SymbolOrNumber> vals{
        qc::Symbolic(sym::Term<double>(x, 1.)),
        qc::Symbolic(sym::Term<double>(x, -0.5)),
        qc::Symbolic(sym::Term<double>(x, 2.)) + qc::Symbolic(sym::Term<double>(y, 1.)),
        qc::Symbolic(sym::Term<double>(y, 1.)) + qc::PI / 2,
        qc::Symbolic(sym::Term<double>(y, 1.)) + 4.,
        0.3};
    std::vector<std::function<void(qc::QuantumComputation&)>> fs;
    for (const auto t : types) {
      const auto np = nparams(t);
      std::uint64_t total = 1;
      for (std::size_t i = 0; i < np; ++i) {
        total *= vals.size();
      }
      const std::size_t k =
          t == qc::GPhase ? 0
          : std::find(doubleTypes().begin(), doubleTypes().end(), t) !=
                  doubleTypes().end()
              ? 2
              : 1;
      for (std::uint64_t v = 0; v < total; ++v) {
        for (const auto& ctl :
             allControls(3, k == 2 ? std::vector<Qubit>{0, 1} : std::vector<Qubit>{1}, 2)) {
          for (const bool flip : {false, true}) {
            if (flip && k != 2) {
              continue;
            }
            fs.emplace_back([=](qc::QuantumComputation& q) {
              std::vector<qc::SymbolOrNumber> p;
              auto w = v;
              for (std::size_t i = 0; i < np; ++i) {
                p.push_back(vals[w % vals.size()]);
                w /= vals.size();
              }
              qc::Targets tg;
              if (k == 1) {
                tg = {1};
              } else if (k == 2) {
                tg = flip ? qc::Targets{1, 0} : qc::Targets{0, 1};
              }
              q.emplace_back(std::make_unique<qc::SymbolicOperation>(ctl, tg, t, p));
            });
          }
        }
      }
    }
    r.space("symbolic", fs.size(),
            "all parametrised gates with symbolic parameters, linear in up to two "
            "variables, under 9 assignments",
            [&, fs](std::uint64_t i, mc::Ctx& c) {
              qc::QuantumComputation q(3, 0, 1);
              fs[i](q);
              c.trans();
              const auto key = "symbolic:" + qc::toString(q.at(0)->getType()) +
                               ":" + std::to_string(q.at(0)->getNcontrols());
              const auto yes =
                  zx::FunctionalityConstruction::transformableToZX(&q);
              try {
                const auto d =
                    zx::FunctionalityConstruction::buildFunctionality(&q);
                c.state(zxh::hash(d));
                for (const double a : {0.3, -1.1, qc::PI / 2}) {
                  for (const double b : {0.8, -2.3, qc::PI}) {
                    const auto m = zxh::toMap(d, {{"x", a}, {"y", b}});
                    auto inst = q;
                    inst.instantiateInplace({{sym::Variable("x"), a},
                                             {sym::Variable("y"), b}});
                    const auto e = ref::unitary(inst, inst.getNqubits());
                    const auto good = zxh::distScalar(m, e) < TOL;
                    if (!good && signOnly(inst, m)) {
                      c.check(false, SIGN, ref::qcStr(inst));
                      continue;
                    }
                    c.checkf(good, key.c_str(), [&] {
                      return ref::qcStr(inst) + "\nbecomes " + zxh::str(d) +
                             "\nmap " + zxh::str(m) + "\ninstead of " +
                             zxh::str(e);
                    });
                  }
                }
              } catch (const std::exception& e) {
                c.check(!yes, key + ":declared-convertible", e.what());
              }
            });
  }
  // composition, adjoint and ancillas
  {
    // gates, and what is done with the diagrams of two circuits
    std::vector<Maker> m;
    for (Qubit a = 0; a < 2; ++a) {
      m.emplace_back([a] { return std1(qc::H, a); });
      m.emplace_back([a] { return std1(qc::T, a); });
      m.emplace_back([a] { return std1(qc::Y, a); });
      m.emplace_back([a] { return std1(qc::RX, a, {0.7}); });
      m.emplace_back([a] { return std1(qc::U, a, {0.7, 0.2, 1.3}); });
      m.emplace_back([a] { return std1(qc::X, a, {}, {1 - a}); });
      m.emplace_back([a] { return std2(qc::iSWAP, a, 1 - a); });
      m.emplace_back([a] { return std2(qc::RZX, a, 1 - a, {0.7}); });
    }
    m.emplace_back([] { return std2(qc::SWAP, 0, 1); });
    m.emplace_back([] { return gphase(0.4); });
    m.emplace_back([] { return barrier({0}); });
    const auto k = m.size();
    const auto build = [m, k](std::uint64_t i) {
      qc::QuantumComputation q(2, 0, 1);
      q.emplace_back(m[i % k]());
      q.emplace_back(m[i / k]());
      return q;
    };
    const auto diag = [](const qc::QuantumComputation& q) {
      return zx::FunctionalityConstruction::buildFunctionality(&q);
    };
    // preparation of a diagram before it is used
    const std::vector<std::pair<const char*, std::function<void(zx::ZXDiagram&)>>>
        prep{{"plain", [](auto&) {}},
             {"graph-like", [](auto& d) { d.toGraphlike(); }},
             {"reduced", [](auto& d) { zx::fullReduce(d); }},
             {"adjoint", [](auto& d) { d = d.adjoint(); }},
             {"fused", [](auto& d) { zx::spiderSimp(d); zx::idSimp(d); }}};
    const auto np = prep.size();
    const auto nb = r.thorough ? k * k : k;
    r.space("compositions", k * k * nb * np * np,
            "all pairs of circuits of two gates, and of two and one, composed "
            "after each of 5 transformations of both",
            [&, k, nb, build, diag, prep, np](std::uint64_t i, mc::Ctx& c) {
              const auto& pa = prep[i % np];
              const auto& pb = prep[i / np % np];
              i /= np * np;
              const auto qa = build(i % (k * k));
              const auto qb = build(i / (k * k));
              auto a = diag(qa);
              pa.second(a);
              auto b = diag(qb);
              pb.second(b);
              c.trans();
              auto ua = zxh::toMap(a);
              auto ub = zxh::toMap(b);
              const auto say = [&](const zx::ZXDiagram& d) {
                return std::string(pa.first) + " " + ref::qcStr(qa) + " then " +
                       pb.first + " " + ref::qcStr(qb) + "\ngives " +
                       zxh::str(d) + "\nmap " + zxh::str(zxh::toMap(d)) +
                       "\ninstead of " + zxh::str(ref::mul(ub, ua));
              };
              auto d = a;
              d.concat(b);
              c.state(zxh::hash(d));
              const auto bad = zxh::inconsistent(d);
              c.checkf(bad.empty(), "concat:inconsistent",
                       [&] { return bad + ": " + zxh::str(d); });
              if (!bad.empty()) {
                return;
              }
              c.checkf(zxh::distScalar(zxh::toMap(d), ref::mul(ub, ua)) < TOL,
                       "concat", [&] { return say(d); });
              // the adjoint of the result
              const auto h = d.adjoint();
              c.checkf(zxh::distScalar(zxh::toMap(h),
                                       ref::adj(ref::mul(ub, ua))) < TOL,
                       "adjoint", [&] { return "adjoint of " + say(d); });
              // and reduced
              zx::fullReduce(d);
              const auto worse = zxh::inconsistent(d);
              c.checkf(worse.empty(), "reduced:inconsistent",
                       [&] { return worse + ": " + zxh::str(d); });
              if (worse.empty()) {
                c.checkf(zxh::distScalar(zxh::toMap(d), ref::mul(ub, ua)) < TOL,
                         "concat:reduced", [&] { return say(d); });
              }
            });
    // inverses compose to the identity
    r.space("inverses", k * k,
            "all circuits of two gates followed by their adjoint",
            [&, build, diag](std::uint64_t i, mc::Ctx& c) {
              const auto q = build(i);
              auto d = diag(q);
              const auto e = d.adjoint();
              d.concat(e);
              c.trans();
              c.state(zxh::hash(d));
              c.checkf(zxh::distScalar(zxh::toMap(d), ref::ident(2)) < TOL,
                       "inverse", [&] { return ref::qcStr(q) + zxh::str(d); });
              zx::fullReduce(d);
              if (d.isIdentity()) {
                c.checkf(zxh::distScalar(zxh::toMap(d), ref::ident(2)) < TOL,
                         "isIdentity", [&] { return zxh::str(d); });
              }
            });
    // qubits fixed to zero
    r.space("ancillas", k * k * k * 13,
            "all circuits of two gates and a gate, every pair of ends turned into "
            "an ancilla, by both functions, or two in a row",
            [&, k, build, diag, m](std::uint64_t i, mc::Ctx& c) {
              const auto mode = i % 13;
              i /= 13;
              qc::QuantumComputation q(3, 0, 1);
              q.emplace_back(m[i % k]());
              auto g = m[i / k % k]();
              if (g->getType() != qc::GPhase) {
                auto t = g->getTargets();
                for (auto& x : t) {
                  x += 1;
                }
                g->setTargets(t);
                if (g->isControlled()) {
                  const auto cq = g->getControls().begin()->qubit;
                  g->clearControls();
                  g->addControl({cq + 1});
                }
              }
              q.emplace_back(std::move(g));
              q.emplace_back(m[i / k / k]());
              const auto full = ref::unitary(q, q.getNqubits());
              auto d = diag(q);
              std::vector<Qubit> in{0, 1, 2};
              std::vector<Qubit> out{0, 1, 2};
              const auto anc = [&](Qubit a, Qubit b, bool one) {
                if (one) {
                  d.makeAncilla(static_cast<zx::Qubit>(a));
                } else {
                  d.makeAncilla(static_cast<zx::Qubit>(a),
                                static_cast<zx::Qubit>(b));
                }
                in.erase(in.begin() + a);
                out.erase(out.begin() + b);
              };
              if (mode < 9) {
                anc(mode % 3, mode / 3, false);
              } else if (mode < 12) {
                anc(mode - 9, mode - 9, true);
              } else {
                anc(2, 2, true);
                anc(0, 1, false);
              }
              c.trans();
              c.state(zxh::hash(d));
              const auto bad = zxh::inconsistent(d);
              c.checkf(bad.empty(), "ancilla:inconsistent",
                       [&] { return bad + ": " + zxh::str(d); });
              if (!bad.empty()) {
                return;
              }
              std::vector<ref::Vec> e(std::size_t{1} << in.size(),
                                      ref::Vec(std::size_t{1} << out.size()));
              const auto spread = [](std::size_t x, const std::vector<Qubit>& p) {
                std::size_t y = 0;
                for (std::size_t j = 0; j < p.size(); ++j) {
                  y |= ((x >> j) & 1U) << p[j];
                }
                return y;
              };
              for (std::size_t x = 0; x < e.size(); ++x) {
                for (std::size_t y = 0; y < e[x].size(); ++y) {
                  e[x][y] = full[spread(x, in)][spread(y, out)];
                }
              }
              c.checkf(zxh::distScalar(zxh::toMap(d), e) < TOL, "ancilla", [&] {
                return ref::qcStr(q) + zxh::str(d) + "\nmap " +
                       zxh::str(zxh::toMap(d)) + "\ninstead of " + zxh::str(e);
              });
              // simplified, unless the map vanishes
              if (zxh::normOf(e) > 1e-6) {
                zx::fullReduce(d);
                c.checkf(zxh::distScalar(zxh::toMap(d), e) < TOL,
                         "ancilla:reduced",
                         [&] { return ref::qcStr(q) + zxh::str(d); });
              }
            });
  }
  return r.finish();
}
