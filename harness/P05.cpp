// P05: eliminating resets and deferring measurements keep the distribution of
// the classical bits, or refuse.
#include "circ.hpp"
#include "circuit_optimizer/CircuitOptimizer.hpp"

using namespace circ;
using qc::CircuitOptimizer;
using qc::Control;
using qc::Qubit;
namespace {
constexpr double TOL = 1e-9;
using Fn = std::function<void(const qc::Operation&)>;
// visits operations without compounds, but with the operations under classical
// control kept together with it
void each(const qc::Operation& op, const Fn& f) {
  if (op.isCompoundOperation()) {
    for (const auto& o : dynamic_cast<const qc::CompoundOperation&>(op)) {
      each(*o, f);
    }
  } else {
    f(op);
  }
}
void each(const qc::QuantumComputation& q, const Fn& f) {
  for (const auto& o : q) {
    each(*o, f);
  }
}
const qc::Operation* inner(const qc::Operation& op) {
  const auto* c = dynamic_cast<const qc::ClassicControlledOperation*>(&op);
  return c == nullptr ? nullptr : c->getOperation();
}
bool diagonalOn(const qc::Operation& op, Qubit q) {
  if (!op.actsOn(q) || op.isDiagonalGate()) {
    return true;
  }
  for (const auto& c : op.getControls()) {
    if (c.qubit == q) {
      return true;
    }
  }
  return false;
}
struct Shape {
  bool reset = false;          // any reset
  bool resetInIf = false;      // a reset under classical control
  bool reused = false;         // something changes a qubit after its measurement
  bool multiMeasure = false;   // a measurement of several qubits
  bool hardIf = false;         // a condition that need not be supported
};
Shape shape(const qc::QuantumComputation& q) {
  Shape s;
  std::set<Qubit> measured;
  each(q, [&](const qc::Operation& o) {
    const qc::Operation* op = &o;
    if (const auto* in = inner(o); in != nullptr) {
      op = in;
      const auto& c = dynamic_cast<const qc::ClassicControlledOperation&>(o);
      if (c.getControlRegister().has_value() || !in->isStandardOperation()) {
        s.hardIf = true;
      }
      for (const auto t : in->getTargets()) {
        s.hardIf = s.hardIf || measured.count(t) > 0;
      }
      each(*in, [&](const qc::Operation& x) {
        s.resetInIf = s.resetInIf || x.getType() == qc::Reset;
      });
    }
    if (op->getType() == qc::Measure) {
      s.multiMeasure = s.multiMeasure || op->getNtargets() > 1;
      measured.insert(op->getTargets().begin(), op->getTargets().end());
      return;
    }
    if (op->getType() == qc::Reset) {
      s.reset = true;
    }
    for (const auto m : measured) {
      each(*op, [&](const qc::Operation& x) {
        if (!diagonalOn(x, m)) {
          s.reused = true;
        }
      });
    }
  });
  return s;
}
ref::Dist dist(const qc::QuantumComputation& q) {
  return ref::distribution(ref::runZero(q, q.getNqubits()));
}
std::string show(const ref::Dist& d) {
  std::string s;
  for (const auto& [b, p] : d) {
    s += " " + std::to_string(b) + ":" + std::to_string(p);
  }
  return s;
}
bool resetLeft(const qc::QuantumComputation& q) {
  bool left = false;
  each(q, [&](const qc::Operation& o) {
    const auto* in = inner(o);
    each(in == nullptr ? o : *in, [&](const qc::Operation& x) {
      left = left || x.getType() == qc::Reset;
    });
  });
  return left;
}
// after deferring: nothing after a measurement, except for measurements
bool deferred(const qc::QuantumComputation& q) {
  bool ok = true;
  std::set<Qubit> measured;
  std::set<qc::Bit> bits;
  each(q, [&](const qc::Operation& o) {
    if (o.getType() == qc::Measure) {
      measured.insert(o.getTargets().begin(), o.getTargets().end());
      for (const auto b :
           dynamic_cast<const qc::NonUnitaryOperation&>(o).getClassics()) {
        bits.insert(b);
      }
      return;
    }
    for (const auto x : o.getUsedQubits()) {
      ok = ok && measured.count(x) == 0;
    }
    if (const auto* c = dynamic_cast<const qc::ClassicControlledOperation*>(&o);
        c != nullptr) {
      if (c->getControlBit().has_value()) {
        ok = ok && bits.count(*c->getControlBit()) == 0;
      } else {
        const auto& r = *c->getControlRegister();
        for (std::size_t i = 0; i < r.getSize(); ++i) {
          ok = ok && bits.count(r.getStartIndex() + i) == 0;
        }
      }
    }
  });
  return ok;
}
void judge(mc::Ctx& c, const char* name, const qc::QuantumComputation& q,
           const qc::QuantumComputation& r) {
  ref::Dist a;
  ref::Dist b;
  try {
    a = dist(q);
    b = dist(r);
  } catch (const std::exception& e) {
    c.check(false, std::string(name) + ":malformed",
            ref::qcStr(q) + " gave " + ref::qcStr(r) + ": " + e.what());
    return;
  }
  c.state(mc::hashStr(show(b)));
  c.checkf(ref::distD(a, b) < TOL, name, [&] {
    return ref::qcStr(q) + " with results" + show(a) + " gave " + ref::qcStr(r) +
           " with results" + show(b);
  });
}
void check(mc::Ctx& c, const qc::QuantumComputation& q) {
  const auto s = shape(q);
  auto r = q;
  c.trans();
  try {
    CircuitOptimizer::eliminateResets(r);
    judge(c, "eliminateResets", q, r);
    c.checkf(!resetLeft(r), "eliminateResets:left",
             [&] { return ref::qcStr(q) + " gave " + ref::qcStr(r); });
  } catch (const std::exception& e) {
    c.check(s.resetInIf, "eliminateResets:refused",
            ref::qcStr(q) + ": " + e.what());
    return;
  }
  const auto t = shape(r);
  if (t.reused) {
    // the pass is known not to support this, see known_findings.txt
    c.skip();
    return;
  }
  auto d = r;
  c.trans();
  try {
    CircuitOptimizer::deferMeasurements(d);
  } catch (const std::exception& e) {
    c.check(t.multiMeasure || t.hardIf || t.reset, "deferMeasurements:refused",
            ref::qcStr(r) + ": " + e.what());
    return;
  }
  judge(c, "deferMeasurements", r, d);
  c.checkf(deferred(d), "deferMeasurements:left",
           [&] { return ref::qcStr(r) + " gave " + ref::qcStr(d); });
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P05");
  r.assume("Circuits start in the all-zero state with all bits zero.");
  using qc::Neq;
  const auto neg = [](Qubit q) { return Control{q, Control::Type::Neg}; };
  const auto cx = [](Qubit a, Qubit b) {
    return std1(qc::X, b, {}, {Control{a}});
  };
  static Alphabet a;
  const auto add = [](OpPtr p) { a.push_back(std::move(p)); };
  for (Qubit q = 0; q < 2; ++q) {
    const Qubit o = 1 - q;
    add(std1(qc::H, q));
    add(cx(q, o));
    add(std1(qc::RX, o, {0.7}, {neg(q)}));
    add(meas({q}, {q}));
    add(reset({q}));
    add(ifBit(std1(qc::X, q), o));
    add(ifBit(std1(qc::RY, q, {0.9}), o, 1, Neq));
    add(ifBit(std1(qc::X, q), o, 0));
    add(compound(std1(qc::RY, q, {0.4}), reset({q}), std1(qc::H, q)));
  }
  const auto nBasic = a.size();
  add(std1(qc::Z, 0));
  add(std1(qc::T, 1));
  add(std2(qc::SWAP, 0, 1));
  add(std1(qc::Z, 1, {}, {Control{0}}));
  add(meas({0}, {1}));
  add(meas({1}, {0}));
  add(meas({0, 1}, {0, 1}));
  add(reset({0, 1}));
  add(ifBit(std1(qc::X, 1), 1));
  add(ifBit(std1(qc::Z, 0), 0));
  add(ifBit(cx(0, 1), 0));
  add(ifBit(std1(qc::X, 1, {}, {neg(0)}), 0));
  add(ifBit(std1(qc::H, 0, {}, {Control{1}}), 1, 0, Neq));
  add(ifBit(compound(std1(qc::X, 1), std1(qc::H, 1)), 0));
  add(ifBit(compound(cx(1, 0), std1(qc::S, 1)), 1));
  add(ifBit(reset({1}), 0));
  add(ifBit(compound(reset({0}), std1(qc::X, 0)), 1));
  add(ifReg(std1(qc::X, 1), qc::ClassicalRegister(0, 1, "a"), 1));
  add(ifReg(std1(qc::X, 0), qc::ClassicalRegister(1, 1, "b"), 1, qc::Lt));
  add(ifReg(std1(qc::H, 1), qc::ClassicalRegister(0, 2, "c"), 2));
  add(ifReg(std1(qc::RY, 1, {0.9}), qc::ClassicalRegister(0, 1, "a"), 0, qc::Gt));
  add(ifReg(std1(qc::X, 1), qc::ClassicalRegister(0, 1, "a"), 1, qc::Leq));
  add(ifReg(std1(qc::X, 1), qc::ClassicalRegister(0, 1, "a"), 0, qc::Geq));
  add(compound(meas({0}, {0}), ifBit(std1(qc::X, 1), 0)));
  add(compound(cx(0, 1), compound(reset({0}), std1(qc::H, 0))));
  add(compound(std1(qc::H, 1), cx(1, 0)));
  add(compound(reset({1}), ifBit(std1(qc::X, 1), 0)));
  add(barrier({0, 1}));
  const auto N = a.size();
  const auto run = [&](mc::Ctx& c, const std::vector<std::uint32_t>& s) {
    for (int m = 0; m < 3; ++m) {
      qc::QuantumComputation q(2, 0, 1);
      q.addClassicalRegister(2, "c");
      q.addClassicalRegister(2, "d");
      setOps(q, a, s);
      if (m == 1) {
        q.measure(0, 2);
        q.measure(1, 3);
      }
      if (m == 2) {
        q.measure({1, 0}, {3, 2});
      }
      check(c, q);
    }
  };
  r.space("circuits", N * N * (r.thorough ? N : 1),
          "all circuits of " + std::string(r.thorough ? "4" : "3") + " out of " +
              std::to_string(N) +
              " operations on two qubits and two bits, with and without final "
              "measurements into two further bits",
          [&](std::uint64_t i, mc::Ctx& c) {
            std::vector<std::uint32_t> s{static_cast<std::uint32_t>(i % N),
                                         static_cast<std::uint32_t>(i / N % N), 0};
            if (r.thorough) {
              s.push_back(static_cast<std::uint32_t>(i / N / N));
            }
            for (std::uint32_t x = 0; x < N; ++x) {
              s[2] = x;
              run(c, s);
            }
          });
  {
    const std::size_t len = r.thorough ? 6 : 5;
    std::uint64_t tot = 1;
    for (std::size_t k = 0; k < len; ++k) {
      tot *= nBasic;
    }
    r.space("long", tot / nBasic,
            "all circuits of " + std::to_string(len) + " out of " +
                std::to_string(nBasic) + " operations on two qubits",
            [&, len](std::uint64_t i, mc::Ctx& c) {
              for (std::uint64_t k = i * nBasic; k < (i + 1) * nBasic; ++k) {
                std::vector<std::uint32_t> s(len);
                auto v = k;
                for (auto& x : s) {
                  x = static_cast<std::uint32_t>(v % nBasic);
                  v /= nBasic;
                }
                run(c, s);
              }
            });
  }
  {
    // three qubits: measure, then every order of conditional operations
    static Alphabet b;
    const auto addB = [](OpPtr p) { b.push_back(std::move(p)); };
    for (Qubit q = 0; q < 3; ++q) {
      const auto n = static_cast<Qubit>((q + 1) % 3);
      addB(std1(qc::H, q));
      addB(cx(q, n));
      addB(meas({q}, {q}));
      addB(ifBit(std1(qc::X, n), q));
      addB(ifBit(cx(q, n), n));
    }
    addB(std1(qc::P, 2, {0.8}, {Control{0}, Control{1}}));
    addB(reset({2}));
    addB(ifBit(std1(qc::H, 2), 0, 0));
    addB(meas({2}, {0}));
    const std::size_t len = 5;
    const std::uint64_t M = b.size();
    std::uint64_t tot = 1;
    for (std::size_t k = 0; k < len; ++k) {
      tot *= M;
    }
    r.space("three", tot / M,
            "all circuits of " + std::to_string(len) + " out of " +
                std::to_string(M) +
                " operations on three qubits, prepared in a superposition, with "
                "and without final measurements",
            [&, len, M](std::uint64_t i, mc::Ctx& c) {
              for (std::uint64_t k = i * M; k < (i + 1) * M; ++k) {
                for (int m = 0; m < 2; ++m) {
                  qc::QuantumComputation q(3, 0, 1);
                  q.addClassicalRegister(3, "c");
                  q.addClassicalRegister(3, "d");
                  for (Qubit x = 0; x < 3; ++x) {
                    q.ry(0.5 + (0.4 * x), x);
                  }
                  auto v = k;
                  for (std::size_t x = 0; x < len; ++x) {
                    q.emplace_back(b[v % M]->clone());
                    v /= M;
                  }
                  if (m == 1) {
                    for (Qubit x = 0; x < 3; ++x) {
                      q.measure(x, x + 3);
                    }
                  }
                  check(c, q);
                }
              }
            });
  }
  r.space("reused-qubit", 1,
          "the measurement of a qubit that is changed afterwards",
          [&](std::uint64_t, mc::Ctx& c) {
            qc::QuantumComputation q(1, 1, 1);
            q.h(0);
            q.measure(0, 0);
            q.h(0);
            auto d = q;
            c.trans();
            try {
              CircuitOptimizer::deferMeasurements(d);
            } catch (const std::exception&) {
              return;
            }
            judge(c, "deferMeasurements:reused-qubit", q, d);
          });
  return r.finish();
}
