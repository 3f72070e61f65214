// P01: written OpenQASM is read back as the same circuit.
#include "circ.hpp"
#include "circuit_optimizer/CircuitOptimizer.hpp"
#include "qasm3/Importer.hpp"

#include <iostream>

using namespace circ;
using qc::Control;
using qc::Qubit;
using ref::C;
namespace {
constexpr double TOL = 1e-9;
std::string regs(const qc::QuantumComputation& q, bool quantum) {
  std::map<std::size_t, std::string> m;
  if (quantum) {
    for (const auto* regs : {&q.getQuantumRegisters(), &q.getAncillaRegisters()}) {
      for (const auto& [name, reg] : *regs) {
        m[reg.getStartIndex()] = name + "[" + std::to_string(reg.getSize()) + "]";
      }
    }
  } else {
    for (const auto& [name, reg] : q.getClassicalRegisters()) {
      m[reg.getStartIndex()] = name + "[" + std::to_string(reg.getSize()) + "]";
    }
  }
  std::string s;
  for (const auto& [i, t] : m) {
    s += std::to_string(i) + ":" + t + " ";
  }
  return s;
}
// is the circuit one that OpenQASM 2 can describe?
void visit(const qc::Operation& op, bool inIf, bool& ok2, bool& nongate) {
  if (const auto* c = dynamic_cast<const qc::CompoundOperation*>(&op)) {
    for (const auto& o : *c) {
      visit(*o, inIf, ok2, nongate);
    }
    return;
  }
  if (const auto* c = dynamic_cast<const qc::ClassicControlledOperation*>(&op)) {
    // whole registers only, compared for equality
    if (!c->getControlRegister().has_value() || c->getComparisonKind() != qc::Eq) {
      ok2 = false;
    }
    visit(*c->getOperation(), true, ok2, nongate);
    return;
  }
  if (op.getType() == qc::GPhase) {
    ok2 = false;
  }
  if (inIf && (!op.isUnitary() || op.getType() == qc::Barrier)) {
    nongate = true;
  }
}
// the qubits of all barriers, in order
std::string barriers(const qc::QuantumComputation& q) {
  std::string s;
  const std::function<void(const qc::Operation&)> f = [&](const auto& o) {
    if (const auto* c = dynamic_cast<const qc::CompoundOperation*>(&o)) {
      for (const auto& x : *c) {
        f(*x);
      }
    } else if (o.getType() == qc::Barrier) {
      for (const auto x : o.getUsedQubits()) {
        s += std::to_string(x) + ",";
      }
      s += " ";
    }
  };
  for (const auto& o : q) {
    f(*o);
  }
  return s;
}
// large circuits are compared on one state: a generic product state, or |0..0>
// if qubits are measured or reset
std::vector<ref::Branch> run(const qc::QuantumComputation& q, std::size_t n) {
  if (n <= 5) {
    return ref::runChoi(q, n);
  }
  for (const auto& op : q) {
    if (op->getType() == qc::Measure || op->getType() == qc::Reset) {
      return ref::runZero(q, n);
    }
  }
  static std::map<std::size_t, ref::Vec> start;
  auto& v = start[n];
  if (v.empty()) {
    v = ref::genericState(n);
  }
  return ref::runFrom(v, q);
}
void check(mc::Ctx& c, const qc::QuantumComputation& q) {
  bool ok2 = true;
  bool nongate = false;
  for (const auto& o : q) {
    visit(*o, false, ok2, nongate);
  }
  const auto n = q.getNqubits();
  const auto before = run(q, n);
  for (const bool three : {true, false}) {
    if (!three && !ok2) {
      continue;
    }
    const std::string name = three ? "qasm3" : "qasm2";
    c.trans();
    std::string text;
    const auto where = [&] {
      return name + " of " + ref::qcStr(q) + " is\n" + text;
    };
    qc::QuantumComputation r;
    try {
      text = q.toQASM(three);
    } catch (const std::exception& e) {
      c.check(false, name + ":not-written", ref::qcStr(q) + ": " + e.what());
      continue;
    }
    c.state(mc::hashStr(text));
    try {
      r = qasm3::Importer::imports(text);
    } catch (const std::exception& e) {
      if (nongate) {
        continue; // only gates can be read under a condition
      }
      c.check(false, name + ":not-read", where() + ": " + e.what());
      continue;
    }
    c.checkf(r.getNqubits() == n && r.getNcbits() == q.getNcbits() &&
                 regs(r, false) == regs(q, false) && regs(r, true) == regs(q, true),
             (name + ":registers").c_str(), [&] {
               return where() + "read as " + regs(r, true) + regs(r, false) +
                      " instead of " + regs(q, true) + regs(q, false);
             });
    if (r.getNqubits() != n) {
      continue;
    }
    // reading a circuit relates the outputs to the measurements
    auto e = q;
    qc::CircuitOptimizer::flattenOperations(e);
    e.initializeIOMapping();
    // ancillary qubits are read as ordinary ones and may become outputs
    bool outs = r.outputPermutation.size() == e.outputPermutation.size() ||
                q.getNancillae() != 0;
    for (const auto& [ph, lo] : e.outputPermutation) {
      const auto it = r.outputPermutation.find(ph);
      outs = outs && it != r.outputPermutation.end() && it->second == lo;
    }
    c.checkf(r.initialLayout == e.initialLayout && outs,
             (name + ":layout").c_str(), [&] {
               return where() + "read with layout " + ref::permStr(r.initialLayout) +
                      " output " + ref::permStr(r.outputPermutation) +
                      " instead of " + ref::permStr(e.initialLayout) + " output " +
                      ref::permStr(e.outputPermutation);
             });
    c.checkf(barriers(r) == barriers(q), (name + ":barriers").c_str(),
             [&] { return where() + "read as " + ref::qcStr(r); });
    std::vector<ref::Branch> after;
    try {
      after = run(r, n);
    } catch (const std::exception& e) {
      c.check(false, name + ":malformed", where() + ": " + e.what());
      continue;
    }
    bool same = false;
    if (before.size() == 1 && after.size() == 1 && before[0].b == after[0].b) {
      auto u = before[0].v;
      auto v = after[0].v;
      if (three) {
        for (auto& x : u) {
          x *= std::polar(1., q.getGlobalPhase());
        }
        for (auto& x : v) {
          x *= std::polar(1., r.getGlobalPhase());
        }
        same = ref::dist(u, v) < TOL;
      } else {
        same = ref::distPhase({u}, {v}) < TOL;
      }
    } else {
      same = ref::distR(ref::densities(before), ref::densities(after)) < TOL;
    }
    c.checkf(same, (name + ":behaviour").c_str(),
             [&] { return where() + "read as " + ref::qcStr(r); });
  }
}
qc::QuantumComputation base(int shape) {
  qc::QuantumComputation q;
  switch (shape) {
  case 0:
    q.addQubitRegister(3, "q");
    q.addClassicalRegister(3, "c");
    break;
  case 1:
    q.addQubitRegister(1, "a");
    q.addQubitRegister(2, "b");
    q.addClassicalRegister(1, "x");
    q.addClassicalRegister(2, "y");
    break;
  default:
    q.addQubitRegister(2, "zz");
    q.addAncillaryRegister(1, "anc");
    q.addClassicalRegister(2, "m");
    q.addClassicalRegister(1, "l");
  }
  return q;
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P01");
  std::cout.setstate(std::ios::failbit);
  r.assume("Angles of moderate size: the library writes 15 significant digits.");
  r.assume("Partial output permutations map to the logical qubits 0..k-1.");
  const auto neg = [](Qubit q) { return Control{q, Control::Type::Neg}; };
  {
    static std::vector<OpPtr> ops;
    const std::vector<double> grid{0.,     0.3,  -1.25,     1e-7,
                                   3.14159265358979, 12.5, -1.5e-9, 2.0};
    const std::vector<double> small{0.3, -1.25, 0., 5.};
    for (const auto t : singleTypes()) {
      for (Qubit q = 0; q < 3; ++q) {
        for (const auto& ctl : allControls(3, {q}, 2)) {
          for (const auto& p :
               paramGrid(nparams(t), nparams(t) > 1 ? small : grid)) {
            ops.push_back(std1(t, q, p, ctl));
          }
        }
      }
    }
    for (const auto t : doubleTypes()) {
      for (Qubit a = 0; a < 3; ++a) {
        for (Qubit b = 0; b < 3; ++b) {
          if (a == b) {
            continue;
          }
          for (const auto& ctl : allControls(3, {a, b}, 1)) {
            for (const auto& p :
                 paramGrid(nparams(t), nparams(t) > 1 ? small : grid)) {
              ops.push_back(std2(t, a, b, p, ctl));
            }
          }
        }
      }
    }
    for (const auto& ctl : allControls(3, {}, 3)) {
      for (const auto x : grid) {
        ops.push_back(gphase(x, ctl));
      }
    }
    r.space("single", ops.size(),
            "every gate x all targets, control patterns and a parameter grid on "
            "three qubits, alone, under every register condition, and grouped",
            [&](std::uint64_t i, mc::Ctx& c) {
              for (int s = 0; s < 3; ++s) {
                auto q = base(s);
                q.emplace_back(ops[i]->clone());
                check(c, q);
                if (s == 0) {
                  auto f = base(0);
                  f.x(0);
                  f.measure({0, 1, 2}, {0, 1, 2});
                  f.emplace_back(ifReg(ops[i]->clone(),
                                       f.getClassicalRegisters().at("c"), 1));
                  check(c, f);
                  auto g = base(0);
                  g.measure(0, 1);
                  g.emplace_back(ifBit(ops[i]->clone(), 1, 0));
                  check(c, g);
                }
              }
            });
  }
  {
    // four qubits: up to three controls of mixed polarity
    static std::vector<OpPtr> ops;
    for (const auto t : {qc::X, qc::Z, qc::H, qc::S, qc::V, qc::P, qc::RY, qc::SX}) {
      for (const auto& ctl : allControls(4, {2}, 3)) {
        ops.push_back(std1(t, 2, std::vector<double>(nparams(t), 0.7), ctl));
      }
    }
    for (const auto t : {qc::SWAP, qc::iSWAP, qc::Peres, qc::RZX, qc::ECR}) {
      for (const auto& ctl : allControls(4, {2, 0}, 2)) {
        ops.push_back(std2(t, 2, 0, std::vector<double>(nparams(t), 0.7), ctl));
        ops.push_back(std2(t, 0, 2, std::vector<double>(nparams(t), 0.7), ctl));
      }
    }
    r.space("controls", ops.size(),
            "gates with up to three controls of every polarity on four qubits",
            [&](std::uint64_t i, mc::Ctx& c) {
              qc::QuantumComputation q(4, 0);
              q.emplace_back(ops[i]->clone());
              check(c, q);
            });
  }
  static Alphabet a;
  const auto add = [](OpPtr p) { a.push_back(std::move(p)); };
  add(std1(qc::H, 0));
  add(std1(qc::RY, 1, {0.4}));
  add(std1(qc::X, 2, {}, {Control{0}, neg(1)}));
  add(std2(qc::XXplusYY, 2, 0, {0.3, 0.8}));
  add(std2(qc::Peres, 0, 2));
  add(std2(qc::SWAP, 1, 2, {}, {neg(0)}));
  add(gphase(0.6));
  add(gphase(0.6, {neg(1)}));
  for (const qc::Targets& t :
       std::vector<qc::Targets>{{0}, {1, 2}, {0, 1, 2}, {2, 1}, {0, 2}, {1, 0, 2},
                                {2, 0, 1}, {0, 1}, {2, 1, 0}}) {
    add(barrier(t));
    add(reset(t));
    std::vector<qc::Bit> id(t.begin(), t.end());
    add(meas(t, id));
    std::vector<qc::Bit> rot;
    for (const auto q : t) {
      rot.push_back((q + 1) % 3);
    }
    add(meas(t, rot));
    std::vector<qc::Bit> up;
    for (std::size_t k = 0; k < t.size(); ++k) {
      up.push_back(k);
    }
    add(meas(t, up));
  }
  for (int k = 0; k < 6; ++k) {
    const auto kind = static_cast<qc::ComparisonKind>(k);
    add(ifReg(std1(qc::H, 1), qc::ClassicalRegister(0, 3, "c"), 3, kind));
    add(ifReg(std1(qc::X, 0, {}, {neg(2)}), qc::ClassicalRegister(0, 3, "c"), 5,
              kind));
  }
  add(ifBit(std1(qc::X, 0), 2));
  add(ifBit(std1(qc::Y, 1), 1, 0));
  add(ifBit(std1(qc::Z, 1), 0, 1, qc::Neq));
  add(ifBit(std1(qc::H, 1), 0, 0, qc::Neq));
  add(ifReg(compound(std1(qc::X, 0), std1(qc::H, 1)),
            qc::ClassicalRegister(0, 3, "c"), 1));
  add(ifReg(compound(std1(qc::H, 0), std1(qc::X, 1, {}, {neg(0)})),
            qc::ClassicalRegister(0, 3, "c"), 2));
  add(ifReg(std2(qc::Peres, 1, 0), qc::ClassicalRegister(0, 3, "c"), 1));
  add(ifReg(meas({0, 1}, {1, 0}), qc::ClassicalRegister(0, 3, "c"), 1));
  add(ifReg(reset({0, 2}), qc::ClassicalRegister(0, 3, "c"), 1));
  add(ifBit(compound(meas({0}, {2}), std1(qc::X, 1)), 0));
  add(ifBit(meas({0, 2}, {2, 1}), 0));
  add(ifBit(barrier({0, 2}), 0));
  add(ifBit(gphase(0.6), 0));
  add(compound(std1(qc::X, 1), compound(meas({1}, {1}), std1(qc::H, 1))));
  add(compound(std1(qc::X, 1), ifBit(std1(qc::H, 0), 1)));
  const auto N = a.size();
  // measurements and conditions that fit other shapes
  r.space("pairs", N * N, "all pairs of " + std::to_string(N) +
                              " operations after a superposition is measured",
          [&](std::uint64_t i, mc::Ctx& c) {
            auto q = base(0);
            setOps(q, a, {static_cast<std::uint32_t>(i % N),
                          static_cast<std::uint32_t>(i / N)});
            check(c, q);
            auto p = base(0);
            p.h(0);
            p.ry(0.7, 1);
            p.measure(1, 0);
            setOps(p, a, {static_cast<std::uint32_t>(i % N),
                          static_cast<std::uint32_t>(i / N)});
            check(c, p);
            if (r.thorough) {
              for (std::uint32_t x = 0; x < N; ++x) {
                auto t = base(0);
                setOps(t, a, {x, static_cast<std::uint32_t>(i % N),
                              static_cast<std::uint32_t>(i / N)});
                check(c, t);
              }
            }
          });
  {
    static Alphabet b;
    const auto addB = [](OpPtr p) { b.push_back(std::move(p)); };
    addB(std1(qc::H, 0));
    addB(std1(qc::X, 2, {}, {Control{1}, neg(0)}));
    std::vector<qc::Targets> ts;
    for (Qubit x = 0; x < 3; ++x) {
      ts.push_back({x});
      for (Qubit y = 0; y < 3; ++y) {
        if (x != y) {
          ts.push_back({x, y});
          ts.push_back({x, y, static_cast<Qubit>(3 - x - y)});
        }
      }
    }
    for (const auto& t : ts) {
      addB(barrier(t));
      addB(reset(t));
      for (const auto& u : ts) {
        if (u.size() == t.size()) {
          addB(meas(t, std::vector<qc::Bit>(u.begin(), u.end())));
        }
      }
    }
    r.space("registers", b.size() * 3,
            "barriers, resets and measurements of all ordered qubit and bit lists, "
            "x three register structures",
            [&](std::uint64_t i, mc::Ctx& c) {
              auto q = base(static_cast<int>(i % 3));
              q.h(0);
              q.emplace_back(b[i / 3]->clone());
              q.x(1);
              check(c, q);
              for (const auto& [name, reg] : q.getClassicalRegisters()) {
                for (std::uint64_t v = 0; v < (1ULL << reg.getSize()); ++v) {
                  for (int k = 0; k < 6; ++k) {
                    auto p = q;
                    p.emplace_back(ifReg(std1(qc::H, 2), reg, v,
                                         static_cast<qc::ComparisonKind>(k)));
                    check(c, p);
                  }
                }
              }
              for (qc::Bit x = 0; x < 3; ++x) {
                auto p = q;
                p.emplace_back(ifBit(std1(qc::H, 2), x));
                p.emplace_back(ifBit(std1(qc::Y, 0), x, 0));
                check(c, p);
              }
            });
  }
  {
    static std::vector<qc::Permutation> full;
    static std::vector<qc::Permutation> outs;
    std::vector<Qubit> v{0, 1, 2};
    do {
      qc::Permutation p;
      for (Qubit x = 0; x < 3; ++x) {
        p[x] = v[x];
      }
      full.push_back(p);
      outs.push_back(p);
      qc::Permutation one;
      qc::Permutation two;
      for (Qubit x = 0; x < 3; ++x) {
        if (v[x] == 0) {
          one[x] = 0;
        }
        if (v[x] < 2) {
          two[x] = v[x];
        }
      }
      outs.push_back(one);
      outs.push_back(two);
    } while (std::next_permutation(v.begin(), v.end()));
    r.space("layouts", full.size() * outs.size() * 3,
            "all initial layouts x complete and partial output permutations x "
            "three register structures",
            [&](std::uint64_t i, mc::Ctx& c) {
              auto q = base(static_cast<int>(i % 3));
              q.initialLayout = full[i / 3 % full.size()];
              q.outputPermutation = outs[i / 3 / full.size()];
              q.h(0);
              q.cx(0, 2);
              check(c, q);
              for (Qubit x = 0; x < 3; ++x) {
                for (Qubit b = 0; b < 3; ++b) {
                  auto p = q;
                  p.measure(x, b);
                  p.initializeIOMapping();
                  auto o = p.outputPermutation;
                  bool prefix = o.size() <= 1 || true;
                  std::set<Qubit> l;
                  for (const auto& [ph, lo] : o) {
                    l.insert(lo);
                  }
                  prefix = l.size() == o.size() &&
                           (l.empty() || *l.rbegin() + 1 == l.size());
                  if (prefix) {
                    check(c, p);
                  }
                }
              }
            });
  }
  {
    const std::vector<double> g{0.4, -2., 3.14159265358979, 1e-6};
    r.space("phase", g.size() * N, "circuits with a global phase",
            [&, g](std::uint64_t i, mc::Ctx& c) {
              auto q = base(0);
              q.gphase(g[i % g.size()]);
              q.emplace_back(a[i / g.size()]->clone());
              check(c, q);
            });
  }
  // ---- many qubits and bits -------------------------------------------------
  const auto wide = [](int s) {
    qc::QuantumComputation q;
    const std::vector<std::vector<std::size_t>> qr{{13}, {11, 2}, {1, 10, 2}};
    const std::vector<std::vector<std::size_t>> br{{13}, {2, 11}, {40, 12, 1}};
    for (const auto n : qr[static_cast<std::size_t>(s)]) {
      q.addQubitRegister(n, "q" + std::to_string(q.getNqubits()));
    }
    for (const auto n : br[static_cast<std::size_t>(s)]) {
      q.addClassicalRegister(n, "c" + std::to_string(q.getNcbits()));
    }
    return q;
  };
  constexpr Qubit W = 13;
  {
    static Alphabet w;
    const std::vector<std::vector<Qubit>> sites{{0, 12}, {12, 1}, {10, 11},
                                                {11, 10}, {9, 2}, {2, 12}};
    const auto controls = [&neg](const std::vector<Qubit>& used) {
      std::vector<qc::Controls> l{{}};
      for (std::size_t k = 1; k <= W - used.size(); ++k) {
        for (const int mode : {0, 1, 2, 3}) { // lowest or highest, +, -, mixed
          qc::Controls c;
          for (Qubit x = 0; x < W; ++x) {
            const Qubit q = mode % 2 == 0 ? x : W - 1 - x;
            if (c.size() < k && std::find(used.begin(), used.end(), q) == used.end()) {
              c.insert(mode == 1 || (mode >= 2 && x % 2 == 1) ? neg(q) : Control{q});
            }
          }
          l.push_back(c);
        }
      }
      return l;
    };
    for (const auto& s : sites) {
      for (const auto& ctl : controls({s[0]})) {
        for (const auto t : singleTypes()) {
          w.push_back(std1(t, s[0], std::vector<double>(nparams(t), 0.7), ctl));
        }
      }
      for (const auto& ctl : controls(s)) {
        for (const auto t : doubleTypes()) {
          w.push_back(std2(t, s[0], s[1], std::vector<double>(nparams(t), 0.7), ctl));
        }
      }
    }
    r.space("wide-gates", w.size() * 3,
            "every gate with 0 to 12 controls (four patterns) at 6 places of 13 "
            "qubits in one to three registers",
            [&](std::uint64_t i, mc::Ctx& c) {
              auto q = wide(static_cast<int>(i % 3));
              q.emplace_back(w[i / 3]->clone());
              check(c, q);
            });
  }
  r.space("wide-bits", 13 * 13 * 3,
          "a qubit of 13 measured into any of up to 53 bits, conditions on bits "
          "and registers with values up to 2^39, barriers and resets",
          [&](std::uint64_t i, mc::Ctx& c) {
            const auto s = static_cast<int>(i % 3);
            const auto x = static_cast<Qubit>(i / 3 % W);
            const auto k = i / 3 / W;
            auto q = wide(s);
            const auto bit = (k * q.getNcbits()) / W + (k % 2);
            q.x(x);
            q.measure(x, bit);
            q.barrier({x, (x + 3) % W, (x + 7) % W});
            check(c, q);
            auto all = q;
            std::vector<Qubit> qs;
            std::vector<qc::Bit> bs;
            for (Qubit y = 0; y < W; ++y) {
              qs.push_back((y + x) % W);
              bs.push_back((static_cast<qc::Bit>(y) + k) % W);
            }
            all.measure(qs, bs);
            check(c, all);
            q.reset(x);
            q.emplace_back(ifBit(std1(qc::X, (x + 1) % W), bit, k % 2));
            for (const auto& [name, reg] : q.getClassicalRegisters()) {
              const auto one =
                  bit >= reg.getStartIndex() && bit - reg.getStartIndex() < reg.getSize()
                      ? 1ULL << (bit - reg.getStartIndex())
                      : 0ULL;
              for (const auto cmp : {qc::Eq, qc::Neq, qc::Lt, qc::Geq}) {
                auto p = q;
                p.emplace_back(ifReg(std1(qc::X, (x + 2) % W), reg, one, cmp));
                check(c, p);
              }
            }
          });
  r.space("wide-layouts", 13 * 13 * 3,
          "every transposition, rotation and reversal of 13 qubits as initial "
          "layout and output permutation",
          [&](std::uint64_t i, mc::Ctx& c) {
            const auto s = static_cast<int>(i % 3);
            const auto x = static_cast<Qubit>(i / 3 % W);
            const auto y = static_cast<Qubit>(i / 3 / W);
            qc::Permutation swap;
            qc::Permutation rot;
            for (Qubit k = 0; k < W; ++k) {
              swap[k] = k == x ? y : k == y ? x : k;
              rot[k] = (x <= y ? k + y : 2 * W - 1 - k - y) % W;
            }
            for (const auto& [a, b] : {std::pair{swap, rot}, std::pair{rot, swap},
                                       std::pair{swap, swap}}) {
              auto q = wide(s);
              q.initialLayout = a;
              q.outputPermutation = b;
              q.cx(x, (x + 5) % W);
              check(c, q);
            }
          });
  std::cout.clear();
  return r.finish();
}
