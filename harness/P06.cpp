// P06: reordering preserves the circuit.
#include "circ.hpp"
#include "ir/operations/SymbolicOperation.hpp"

using namespace circ;
namespace {
struct Fp { // qubits and classical bits of an operation
  std::set<int> w;
};
void wires(const qc::Operation& op, std::set<int>& w) {
  if (op.isCompoundOperation()) {
    for (const auto& o : dynamic_cast<const qc::CompoundOperation&>(op)) {
      wires(*o, w);
    }
    return;
  }
  if (op.isClassicControlledOperation()) {
    const auto& cc = dynamic_cast<const qc::ClassicControlledOperation&>(op);
    if (cc.getControlBit().has_value()) {
      w.insert(100 + static_cast<int>(*cc.getControlBit()));
    } else {
      for (std::size_t i = 0; i < cc.getControlRegister()->getSize(); ++i) {
        w.insert(100 +
                 static_cast<int>(cc.getControlRegister()->getStartIndex() + i));
      }
    }
    wires(*cc.getOperation(), w);
    return;
  }
  for (const auto q : op.getTargets()) {
    w.insert(static_cast<int>(q));
  }
  for (const auto& c : op.getControls()) {
    w.insert(static_cast<int>(c.qubit));
  }
  if (op.getType() == qc::Measure) {
    for (const auto b :
         dynamic_cast<const qc::NonUnitaryOperation&>(op).getClassics()) {
      w.insert(100 + static_cast<int>(b));
    }
  }
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "P06");
  const bool T = R.thorough;
  using Ctl = qc::Control;
  const qc::ClassicalRegister creg(0, 2, "c");
  auto cx = [](qc::Qubit c, qc::Qubit t) {
    return std1(qc::X, t, {}, {Ctl{c}});
  };
  auto alphabet = [&](bool wide) {
    Alphabet a;
    auto add = [&](OpPtr p) { a.push_back(std::move(p)); };
    add(std1(qc::H, 0));
    add(std1(qc::RY, 1, {0.7}));
    add(std1(qc::SX, 2));
    add(cx(0, 1));
    add(cx(2, 0));
    add(std2(qc::iSWAP, 1, 2));
    add(barrier({0, 1, 2}));
    add(barrier({0, 2}));
    add(meas({0}, {0}));
    add(meas({2}, {0}));
    add(meas({1, 2}, {1, 0}));
    add(reset({0}));
    add(reset({1, 2}));
    add(ifBit(std1(qc::X, 2), 0));
    add(ifBit(std1(qc::X, 0), 1, 0));
    add(ifReg(cx(2, 1), creg, 2, qc::Neq));
    add(ifBit(compound(std1(qc::X, 0), std1(qc::H, 1)), 0));
    add(compound(cx(1, 0), std1(qc::RX, 0, {0.3})));
    add(compound(meas({1}, {0}), std1(qc::X, 1)));
    add(gphase(0.4));
    if (wide) {
      add(ifReg(meas({0}, {1}), creg, 1));
      add(ifBit(reset({2}), 1));
      add(ifBit(gphase(0.9), 0));
      add(compound(ifBit(std1(qc::X, 2), 1), cx(0, 2)));
      add(compound(compound(meas({0}, {1})), compound(std1(qc::H, 2))));
      add(std1(qc::T, 2, {}, {Ctl{0}, Ctl{1, Ctl::Type::Neg}}));
      add(gphase(-0.6, {Ctl{2}}));
      add(compound());
      add(barrier({}));
    }
    return a;
  };
  auto run = [&](const std::string& name, const Alphabet& a, std::size_t L,
                 bool compare) {
    R.space(
        name, mc::seqCount(a.size(), L),
        "all circuits of <= " + std::to_string(L) + " operations over " +
            std::to_string(a.size()) + " letters on 3 qubits and 2 bits",
        [&a, compare](std::uint64_t i, mc::Ctx& c) {
          const auto seq = mc::seqAt(i, a.size());
          qc::QuantumComputation q(3, 0, 1);
          q.addClassicalRegister(2, "c");
          setOps(q, a, seq);
          std::vector<const qc::Operation*> before;
          for (const auto& op : q) {
            before.push_back(op.get());
          }
          std::vector<std::set<int>> w(before.size());
          for (std::size_t k = 0; k < before.size(); ++k) {
            wires(*before[k], w[k]);
          }
          const auto d0 = ref::qcStr(q);
          const auto B = compare ? ref::runChoi(q, 3)
                                 : std::vector<ref::Branch>{};
          const auto orig = q;
          q.reorderOperations();
          c.trans(seq.size());
          auto d = [&] { return d0 + "  reordered: " + ref::qcStr(q); };
          if (c.wantSample()) {
            c.sample(d());
          }
          // every operation object exactly once
          std::map<const qc::Operation*, std::size_t> pos;
          std::size_t k = 0;
          bool null = false;
          for (const auto& op : q) {
            null = null || op == nullptr;
            pos[op.get()] = k++;
          }
          bool ok = !null && k == before.size() && pos.size() == k;
          if (ok) {
            // objects may be moved or rebuilt: match by position of equal ops
            bool byPtr = true;
            for (const auto* p : before) {
              byPtr = byPtr && pos.count(p) != 0;
            }
            if (byPtr) {
              for (std::size_t x = 0; x < before.size(); ++x) {
                for (std::size_t y = x + 1; y < before.size(); ++y) {
                  bool dep = false;
                  for (const int e : w[x]) {
                    dep = dep || w[y].count(e) != 0;
                  }
                  if (dep && pos[before[x]] > pos[before[y]]) {
                    // reading the same bit does not create a dependency
                    bool hard = false;
                    for (const int e : w[x]) {
                      hard = hard || (w[y].count(e) != 0 && e < 100);
                    }
                    auto writes = [](const qc::Operation& o) {
                      const std::function<bool(const qc::Operation&)> f =
                          [&f](const qc::Operation& p) -> bool {
                        if (p.getType() == qc::Measure) {
                          return true;
                        }
                        if (p.isCompoundOperation()) {
                          for (const auto& s :
                               dynamic_cast<const qc::CompoundOperation&>(p)) {
                            if (f(*s)) {
                              return true;
                            }
                          }
                          return false;
                        }
                        if (p.isClassicControlledOperation()) {
                          return f(*dynamic_cast<
                                        const qc::ClassicControlledOperation&>(
                                        p)
                                        .getOperation());
                        }
                        return false;
                      };
                      return f(o);
                    };
                    hard = hard || writes(*before[x]) || writes(*before[y]);
                    if (hard) {
                      ok = false;
                    }
                  }
                }
              }
              c.checkf(ok, "dependent-order", d);
            }
          } else {
            c.checkf(false, "operations-lost", d);
            return;
          }
          c.checkf(q.getNindividualOps() == orig.getNindividualOps() &&
                       q.getNqubits() == orig.getNqubits() &&
                       q.initialLayout == orig.initialLayout &&
                       q.outputPermutation == orig.outputPermutation &&
                       q.getGlobalPhase() == orig.getGlobalPhase(),
                   "bookkeeping", d);
          if (compare) {
            c.state(ref::hashBr(B));
            c.checkf(ref::distR(ref::densities(B),
                                ref::densities(ref::runChoi(q, 3))) < 1e-9,
                     "behaviour", d);
          }
        });
  };
  const auto a1 = alphabet(false);
  const auto a2 = alphabet(true);
  run("behaviour", a2, T ? 4 : 3, true);
  run("order", a1, T ? 6 : 5, false);
  run("order-wide", a2, T ? 5 : 4, false);
  return R.finish();
}
