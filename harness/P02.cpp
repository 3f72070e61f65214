// P02: inversion is the adjoint.
#include "circ.hpp"
#include "ir/operations/SymbolicOperation.hpp"

using namespace circ;
using qc::PI;

namespace {
struct OpSpec {
  qc::OpType t;
  qc::Targets tg;
  qc::Controls c;
  std::vector<double> p;
};
OpPtr make(const OpSpec& s) {
  return std::make_unique<qc::StandardOperation>(s.c, s.tg, s.t, s.p);
}
std::vector<OpSpec> allOps(qc::Qubit n, std::size_t maxC,
                           const std::vector<double>& g) {
  std::vector<OpSpec> r;
  auto add = [&](qc::OpType t, const qc::Targets& tg) {
    for (const auto& c : allControls(n, tg, maxC)) {
      for (const auto& p : paramGrid(nparams(t), g)) {
        r.push_back({t, tg, c, p});
      }
    }
  };
  for (const auto t : singleTypes()) {
    for (qc::Qubit q = 0; q < n; ++q) {
      add(t, {q});
    }
  }
  for (const auto t : doubleTypes()) {
    for (qc::Qubit a = 0; a < n; ++a) {
      for (qc::Qubit b = 0; b < n; ++b) {
        if (a != b) {
          add(t, {a, b});
        }
      }
    }
  }
  add(qc::GPhase, {});
  return r;
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "P02");
  const bool T = R.thorough;
  R.assume("matrices are compared with tolerance 1e-9");

  const std::vector<double> grid =
      T ? std::vector<double>{0, PI / 4, -PI / 4, PI / 2, -PI / 2, PI, -PI,
                              1.1, -2.3, 0.3, 7.0, 2 * PI}
        : std::vector<double>{0, PI / 4, -PI / 2, PI, 1.1, -2.3};
  const auto ops = allOps(3, 2, grid);
  R.space("ops", ops.size(),
          "every gate x targets on 3 qubits x <=2 signed controls x parameter "
          "grid of " +
              std::to_string(grid.size()),
          [&](std::uint64_t i, mc::Ctx& c) {
            const auto op = make(ops[i]);
            const auto u = ref::unitaryOp(*op, 3);
            // the operation must denote the requested gate
            c.state(ref::hashU(u));
            c.trans(2);
            auto inv = op->getInverted();
            const auto d = ref::opStr(*op) + " inverse: " + ref::opStr(*inv);
            c.sample(d);
            c.check(ref::dist(ref::unitaryOp(*inv, 3), ref::adj(u)) < 1e-9,
                    "op-adjoint", d);
            c.check(ref::dist(ref::unitaryOp(*op, 3), u) < 1e-9,
                    "op-getInverted-changes-original", d);
            c.check(inv->getName() == qc::toString(inv->getType()), "op-name",
                    d + " name " + inv->getName());
            c.check(inv->getControls() == op->getControls(), "op-controls", d);
            inv->invert();
            c.check(ref::dist(ref::unitaryOp(*inv, 3), u) < 1e-9, "op-twice",
                    d);
            c.check(inv->getName() == qc::toString(inv->getType()),
                    "op-name-twice", d + " name " + inv->getName());
          });

  // symbolic operations: instantiate(invert(op)) = adjoint of instantiate(op)
  {
    const sym::Variable x("x");
    const sym::Variable y("y");
    const sym::Expression<double, double> ex(sym::Term<double>(x, 1.));
    const sym::Expression<double, double> e2 =
        sym::Expression<double, double>(sym::Term<double>(x, 2.),
                                        sym::Term<double>(y, -1.)) +
        0.5;
    const std::vector<qc::SymbolOrNumber> ps{ex, e2, 0.0, PI / 4, 1.1};
    struct S {
      qc::OpType t;
      std::vector<qc::SymbolOrNumber> p;
      std::size_t ctl;
    };
    std::vector<S> sp;
    std::vector<qc::OpType> ts = singleTypes();
    ts.insert(ts.end(), doubleTypes().begin(), doubleTypes().end());
    ts.push_back(qc::GPhase);
    for (const auto t : ts) {
      const auto k = nparams(t);
      std::size_t tot = 1;
      for (std::size_t j = 0; j < k; ++j) {
        tot *= ps.size();
      }
      for (std::size_t j = 0; j < tot && k > 0; ++j) {
        mc::Digits dg(j);
        S s{t, {}, 0};
        bool symb = false;
        bool special = false;
        for (std::size_t m = 0; m < k; ++m) {
          const auto z = dg.take(ps.size());
          s.p.push_back(ps[z]);
          symb = symb || z < 2;
        }
        (void)special;
        if (symb) {
          for (s.ctl = 0; s.ctl < 3; ++s.ctl) {
            sp.push_back(s);
          }
        }
      }
    }
    const std::vector<std::pair<double, double>> vals{
        {0.3, -0.8}, {1.7, 0.45}, {-2.2, 0}};
    R.space("symbolic", sp.size(),
            "every parametrised gate with every mix of symbolic/number "
            "parameters x 3 control patterns x 3 valuations",
            [&](std::uint64_t i, mc::Ctx& c) {
              const auto& s = sp[i];
              qc::Controls ct;
              if (s.ctl == 1) {
                ct.emplace(2, qc::Control::Type::Pos);
              } else if (s.ctl == 2) {
                ct.emplace(2, qc::Control::Type::Neg);
              }
              const qc::Targets tg =
                  s.t == qc::GPhase
                      ? qc::Targets{}
                      : (qc::isTwoQubitGate(s.t) ? qc::Targets{1, 0}
                                                 : qc::Targets{1});
              const qc::SymbolicOperation op(ct, tg, s.t, s.p);
              auto inv = op.getInverted();
              auto twice = inv->getInverted();
              const auto* si = dynamic_cast<qc::SymbolicOperation*>(inv.get());
              const auto* s2 =
                  dynamic_cast<qc::SymbolicOperation*>(twice.get());
              c.trans(2);
              for (const auto& [vx, vy] : vals) {
                const sym::VariableAssignment as{{x, vx}, {y, vy}};
                // what the parameters say the gate is
                std::vector<double> pv;
                for (const auto& q : s.p) {
                  pv.push_back(std::holds_alternative<double>(q)
                                   ? std::get<double>(q)
                                   : std::get<qc::Symbolic>(q).evaluate(as));
                }
                const auto d = qc::toString(s.t) + " ctl" +
                               std::to_string(s.ctl) + " values " +
                               ref::vecStr(ref::Vec(pv.begin(), pv.end()));
                c.sample(d);
                ref::Vec dummy;
                std::vector<ref::Vec> want(8, ref::Vec(8));
                for (std::size_t b = 0; b < 8; ++b) {
                  want[b][b] = 1;
                  const std::uint64_t pos = s.ctl == 1 ? 4 : 0;
                  const std::uint64_t neg = s.ctl == 2 ? 4 : 0;
                  if (s.t == qc::GPhase) {
                    if ((b & pos) == pos && (b & neg) == 0) {
                      want[b][b] = ref::ex(pv[0]);
                    }
                  } else {
                    ref::applyMatrix(want[b], ref::gateMatrix(s.t, pv), tg, pos,
                                     neg);
                  }
                }
                c.state(ref::hashU(want));
                c.check(ref::dist(ref::unitaryOp(op.getInstantiatedOperation(as),
                                                 3),
                                  want) < 1e-9,
                        "sym-instantiate", d);
                c.check(ref::dist(ref::unitaryOp(
                                      si->getInstantiatedOperation(as), 3),
                                  ref::adj(want)) < 1e-9,
                        "sym-adjoint", d);
                c.check(ref::dist(ref::unitaryOp(
                                      s2->getInstantiatedOperation(as), 3),
                                  want) < 1e-9,
                        "sym-twice", d);
              }
            });
  }

  // circuits
  {
    Alphabet a;
    auto add = [&](OpPtr p) { a.push_back(std::move(p)); };
    using Ctl = qc::Control;
    const auto Neg = Ctl::Type::Neg;
    add(std1(qc::H, 0));
    add(std1(qc::S, 1));
    add(std1(qc::Tdg, 0, {}, {Ctl{1}}));
    add(std1(qc::X, 1, {}, {Ctl{0, Neg}}));
    add(std1(qc::SX, 2, {}, {Ctl{0}, Ctl{1, Neg}}));
    add(std1(qc::RX, 2, {0.7}));
    add(std1(qc::U, 1, {0.4, 1.3, -0.6}));
    add(std1(qc::U2, 0, {0.9, 0.2}, {Ctl{2}}));
    add(std1(qc::P, 2, {-1.9}));
    add(std1(qc::V, 0));
    add(std2(qc::iSWAP, 0, 2));
    add(std2(qc::Peres, 1, 2));
    add(std2(qc::DCX, 2, 1, {}, {Ctl{0}}));
    add(std2(qc::ECR, 0, 1));
    add(std2(qc::XXplusYY, 1, 0, {0.8, 0.3}));
    add(std2(qc::XXminusYY, 0, 2, {1.2, -0.4}, {Ctl{1, Neg}}));
    add(std2(qc::RZX, 2, 0, {0.55}));
    add(gphase(0.6));
    add(gphase(-1.1, {Ctl{1}}));
    add(barrier({0, 1, 2}));
    add(compound(std1(qc::T, 0), std1(qc::X, 1, {}, {Ctl{0}}),
                 std1(qc::RY, 1, {0.5})));
    add(compound(std1(qc::S, 2),
                 compound(std1(qc::H, 2), std2(qc::iSWAP, 1, 2)),
                 gphase(0.35)));
    add(ifBit(std1(qc::S, 0), 0));
    add(ifBit(compound(std1(qc::T, 1), std1(qc::H, 1)), 1, 0));
    const std::size_t L = T ? 4 : 3;
    const std::vector<double> gps{0, 0.7};
    const std::size_t nLay = 4;
    const std::uint64_t per = gps.size() * nLay;
    R.space(
        "circuits", mc::seqCount(a.size(), L) * per,
        "all circuits of <= " + std::to_string(L) +
            " operations over a 24-letter alphabet x global phase x 4 layouts",
        [&](std::uint64_t i, mc::Ctx& c) {
          mc::Digits dg(i);
          const auto gp = gps[dg.take(gps.size())];
          const auto lay = dg.take(nLay);
          const auto seq = mc::seqAt(dg.v, a.size());
          qc::QuantumComputation q(3, 2, 1);
          setOps(q, a, seq);
          if (gp != 0) {
            q.gphase(gp);
          }
          if (lay == 1) {
            q.initialLayout = {};
            q.initialLayout[0] = 2;
            q.initialLayout[1] = 0;
            q.initialLayout[2] = 1;
          } else if (lay == 2) {
            q.outputPermutation = {};
            q.outputPermutation[0] = 1;
            q.outputPermutation[1] = 0;
            q.outputPermutation[2] = 2;
          } else if (lay == 3) {
            q.outputPermutation = {};
            q.outputPermutation[1] = 0;
          }
          auto inv = q;
          inv.invert();
          const auto d = ref::qcStr(q) + " inverse: " + ref::qcStr(inv);
          c.sample(d);
          c.trans(seq.size());
          // initial classical values are free: compare for each
          for (ref::Bits b = 0; b < 4; ++b) {
            auto run = [&](const qc::QuantumComputation& x,
                           std::vector<ref::Branch> br) {
              for (const auto& op : x) {
                ref::stepDyn(br, *op);
              }
              for (auto& z : br) {
                for (auto& y : z.v) {
                  y *= ref::ex(x.getGlobalPhase());
                }
              }
              return br;
            };
            std::vector<ref::Branch> start(1);
            start[0].b = b;
            start[0].v.assign(64, 0);
            for (std::size_t k = 0; k < 8; ++k) {
              start[0].v[k | (k << 3U)] = 1;
            }
            const auto mid = run(q, start);
            c.state(ref::hashBr(mid));
            const auto end = run(inv, mid);
            c.check(end.size() == 1 && end[0].b == b &&
                        ref::dist(end[0].v, start[0].v) < 1e-9,
                    "circuit-adjoint", d);
            const auto back = run(q, run(inv, start));
            c.check(back.size() == 1 &&
                        ref::dist(back[0].v, start[0].v) < 1e-9,
                    "circuit-adjoint-left", d);
            auto two = inv;
            two.invert();
            const auto again = run(two, start);
            c.check(again.size() == 1 &&
                        ref::dist(again[0].v, mid[0].v) < 1e-9,
                    "circuit-twice", d);
            c.check(two.initialLayout == q.initialLayout &&
                        two.outputPermutation == q.outputPermutation,
                    "layout-twice", d);
          }
          if (lay != 3) {
            c.check(inv.initialLayout == q.outputPermutation &&
                        inv.outputPermutation == q.initialLayout,
                    "layout-swap", d);
          }
          c.check(inv.getNops() == q.getNops() &&
                      inv.getNqubits() == q.getNqubits(),
                  "circuit-size", d);
        });
  }

  // operations without inverse
  {
    std::vector<std::function<OpPtr()>> mk{
        [] { return meas({0}, {0}); },
        [] { return meas({0, 1}, {1, 0}); },
        [] { return reset({1}); },
        [] { return compound(std1(qc::H, 0), meas({0}, {0})); },
        [] { return compound(compound(reset({0})), std1(qc::X, 1)); },
        [] { return ifBit(meas({1}, {1}), 0); },
    };
    R.space("refused", mk.size() * 2, "operations without an inverse",
            [&](std::uint64_t i, mc::Ctx& c) {
              auto op = mk[i / 2]();
              const auto d = ref::opStr(*op);
              bool threw = false;
              if (i % 2 == 0) {
                try {
                  op->invert();
                } catch (const std::exception&) {
                  threw = true;
                }
              } else {
                qc::QuantumComputation q(2, 2);
                q.h(0);
                q.emplace_back(std::move(op));
                try {
                  q.invert();
                } catch (const std::exception&) {
                  threw = true;
                }
              }
              c.check(threw, "refuse", d);
            });
  }
  return R.finish();
}
