// P23: every schedule offered by the layering reproduces the circuit.
#include "circ.hpp"
#include "datastructures/Layer.hpp"
#include "mc.hpp"
#include "ref.hpp"

#include <set>

using namespace qc;
using ref::Vec;
namespace {
using Maker = std::function<void(QuantumComputation&)>;
struct Named {
  std::string name;
  Maker make;
};
std::string names(const QuantumComputation& q) { return ref::qcStr(q); }
// the operations offered after executing `done`, by index; nothing if the
// layering refused to execute one of them
struct Offer {
  std::set<std::size_t> exec;
  std::unique_ptr<Layer> layer;
};
Offer replay(const QuantumComputation& q, bool comm,
             const std::vector<std::size_t>& done) {
  Offer o;
  o.layer = std::make_unique<Layer>(q, comm);
  const auto index = [&](const Operation* op) {
    for (std::size_t i = 0; i < q.size(); ++i) {
      if (q.at(i).get() == op) {
        return i;
      }
    }
    return q.size();
  };
  for (const auto d : done) {
    for (const auto& v : o.layer->getExecutableSet()) {
      if (index(v->getOperation()) == d) {
        const auto keep = v;
        keep->execute();
        break;
      }
    }
  }
  for (const auto& v : o.layer->getExecutableSet()) {
    o.exec.insert(index(v->getOperation()));
  }
  return o;
}
void queries(mc::Ctx& c, const QuantumComputation& q, const Offer& o) {
  for (const auto& [type, nc] : std::vector<std::pair<OpType, std::size_t>>{
           {X, 0}, {X, 1}, {Z, 1}, {H, 0}, {RZ, 0}, {RY, 0}, {Z, 0}, {RZ, 1}}) {
    std::multiset<const Operation*> want;
    std::multiset<const Operation*> got;
    for (const auto i : o.exec) {
      if (q.at(i)->getType() == type && q.at(i)->getNcontrols() == nc) {
        want.insert(q.at(i).get());
      }
    }
    for (const auto& v : o.layer->getExecutablesOfType(type, nc)) {
      got.insert(v->getOperation());
    }
    c.checkf(got == want, "executables-of-type", [&] {
      return names(q) + ": " + qc::toString(type) + " with " + std::to_string(nc) +
             " controls";
    });
    if (nc != 1) {
      continue;
    }
    // pairs occurring twice have no place in a graph
    std::set<std::pair<Qubit, Qubit>> pairs;
    bool dup = false;
    bool two = true;
    for (const auto* op : want) {
      const auto u = op->getUsedQubits();
      two = two && u.size() == 2;
      dup = dup || !pairs.emplace(*u.begin(), *u.rbegin()).second;
    }
    if (dup || !two) {
      continue;
    }
    const auto g = o.layer->constructInteractionGraph(type, nc);
    bool ok = g.getNEdges() == pairs.size();
    for (const auto& [a, b] : pairs) {
      bool in = true;
      for (const auto x : {a, b}) {
        const auto& vs = g.getVertices();
        in = in && vs.find(x) != vs.end();
      }
      ok = ok && in && g.isAdjacent(a, b) && g.isAdjacent(b, a);
      if (in && g.isAdjacent(a, b)) {
        const auto* op = g.getEdge(a, b)->getOperation();
        const auto u = op->getUsedQubits();
        ok = ok && want.count(op) == 1 && *u.begin() == a && *u.rbegin() == b;
      }
    }
    c.checkf(ok, "interaction-graph",
             [&] { return names(q) + ": " + qc::toString(type); });
  }
}
std::string orderStr(const std::vector<std::size_t>& o) {
  std::string s = "[";
  for (const auto i : o) {
    s += std::to_string(i) + " ";
  }
  return s + "]";
}
// do two operations on the circuit cancel on a qubit they share?
bool anyInverse(const QuantumComputation& q) {
  for (std::size_t i = 0; i < q.size(); ++i) {
    for (std::size_t j = i + 1; j < q.size(); ++j) {
      if (q.at(i)->isInverseOf(*q.at(j)) || q.at(j)->isInverseOf(*q.at(i))) {
        return true;
      }
    }
  }
  return false;
}
void circuit(mc::Ctx& c, const QuantumComputation& q, std::size_t n) {
  const auto want = ref::unitary(q, n);
  c.state(ref::hashU(want));
  const bool inv = anyInverse(q);
  for (const bool comm : {true, false}) {
    const char* mode = comm ? " (commuting)" : " (in order)";
    std::function<void(std::vector<std::size_t>&)> rec =
        [&](std::vector<std::size_t>& done) {
          const auto o = replay(q, comm, done);
          queries(c, q, o);
          for (const auto d : done) {
            c.checkf(o.exec.count(d) == 0, "offered-again", [&] {
              return names(q) + mode + ": " + orderStr(done);
            });
          }
          if (done.size() == q.size()) {
            std::vector<Vec> got = ref::ident(n);
            for (auto& col : got) {
              for (const auto i : done) {
                ref::applyOp(col, *q.at(i));
              }
            }
            c.checkf(ref::dist(got, want) < 1e-9, comm ? "action" : "action-in-order",
                     [&] {
                       return names(q) + mode + ": schedule " + orderStr(done);
                     });
            if (!comm && !inv) {
              bool ok = true;
              for (std::size_t a = 0; a < done.size(); ++a) {
                for (std::size_t b = a + 1; b < done.size(); ++b) {
                  if (done[b] > done[a]) {
                    continue;
                  }
                  const auto u = q.at(done[a])->getUsedQubits();
                  for (const auto x : q.at(done[b])->getUsedQubits()) {
                    ok = ok && u.count(x) == 0;
                  }
                }
              }
              c.checkf(ok, "order", [&] {
                return names(q) + ": schedule " + orderStr(done);
              });
            }
            return;
          }
          bool any = false;
          for (const auto e : o.exec) {
            if (std::find(done.begin(), done.end(), e) != done.end() ||
                e >= q.size()) {
              continue;
            }
            any = true;
            done.push_back(e);
            c.trans();
            rec(done);
            done.pop_back();
          }
          c.checkf(any, "stuck", [&] {
            return names(q) + mode + ": after " + orderStr(done);
          });
        };
    std::vector<std::size_t> done;
    rec(done);
  }
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P23");
  const bool th = r.thorough;
  r.assume("unitary circuits of standard operations");
  const auto seqs = [&](const std::string& name, std::size_t n,
                        std::vector<Named> al, std::size_t len) {
    std::uint64_t size = 0;
    std::uint64_t p = 1;
    for (std::size_t i = 0; i <= len; ++i, p *= al.size()) {
      size += p;
    }
    std::string what;
    for (const auto& a : al) {
      what += a.name + " ";
    }
    r.space(name, size,
            "all circuits of up to " + std::to_string(len) + " operations on " +
                std::to_string(n) + " qubits, all schedules: " + what,
            [=](std::uint64_t idx, mc::Ctx& c) {
              std::uint64_t blk = 1;
              std::size_t l = 0;
              while (idx >= blk) {
                idx -= blk;
                blk *= al.size();
                ++l;
              }
              QuantumComputation q(n);
              for (std::size_t i = 0; i < l; ++i) {
                al[idx % al.size()].make(q);
                idx /= al.size();
              }
              circuit(c, q, n);
            });
  };
  const auto g1 = [](const char* nm, OpType t, std::vector<double> p, Qubit q) {
    return Named{std::string(nm) + std::to_string(q), [=](QuantumComputation& c) {
                   c.emplace_back<StandardOperation>(q, t, p);
                 }};
  };
  const auto ctl = [](const char* nm, OpType t, std::vector<double> p, Control a,
                      Qubit b) {
    return Named{std::string(nm) + std::to_string(a.qubit) + std::to_string(b),
                 [=](QuantumComputation& c) {
                   c.emplace_back<StandardOperation>(a, b, t, p);
                 }};
  };
  const auto two = [](const char* nm, OpType t, std::vector<double> p, Qubit a,
                      Qubit b) {
    return Named{nm, [=](QuantumComputation& c) {
                   c.emplace_back<StandardOperation>(Targets{a, b}, t, p);
                 }};
  };
  // one qubit
  seqs("one-qubit", 1,
       {g1("h", H, {}, 0), g1("x", X, {}, 0), g1("z", Z, {}, 0), g1("s", S, {}, 0),
        g1("sdg", Sdg, {}, 0), g1("rz", RZ, {0.5}, 0), g1("ry", RY, {0.5}, 0),
        g1("ry-", RY, {-0.5}, 0), g1("id", I, {}, 0)},
       th ? 6 : 5);
  // two qubits
  seqs("two-qubits", 2,
       {g1("h", H, {}, 0), g1("h", H, {}, 1), g1("x", X, {}, 0), g1("s", S, {}, 1),
        ctl("cx", X, {}, 0, 1), ctl("cx", X, {}, 1, 0), ctl("cz", Z, {}, 0, 1),
        g1("ry", RY, {0.5}, 1), g1("ry-", RY, {-0.5}, 1)},
       th ? 6 : 5);
  seqs("two-qubits-other", 2,
       {two("swap", SWAP, {}, 0, 1), two("rzz", RZZ, {0.5}, 0, 1),
        two("rzz-", RZZ, {-0.5}, 0, 1), two("iswap", iSWAP, {}, 1, 0),
        two("iswapdg", iSWAPdg, {}, 1, 0), g1("x", X, {}, 0), g1("rz", RZ, {0.5}, 1),
        ctl("crz", RZ, {0.5}, 1, 0), ctl("crz-", RZ, {-0.5}, 1, 0)},
       th ? 5 : 4);
  // gates on many qubits at once
  const auto glob = [](const char* nm, OpType t, std::vector<double> p, Targets ts) {
    return Named{nm, [=](QuantumComputation& c) {
                   c.emplace_back<StandardOperation>(ts, t, p);
                 }};
  };
  seqs("global", 2,
       {glob("ryg", RY, {0.5}, {0, 1}), glob("ryg-", RY, {-0.5}, {0, 1}),
        glob("hg", H, {}, {0, 1}), g1("rz", RZ, {0.5}, 0), g1("x", X, {}, 1),
        ctl("cz", Z, {}, 0, 1), ctl("cx", X, {}, 1, 0)},
       th ? 6 : 5);
  // three qubits
  seqs("three-qubits", 3,
       {ctl("cx", X, {}, 0, 1), ctl("cx", X, {}, 1, 2), ctl("cz", Z, {}, 2, 0),
        ctl("cx", X, {}, 2, 1), g1("h", H, {}, 1), g1("x", X, {}, 0),
        g1("rz", RZ, {0.5}, 2)},
       th ? 6 : 5);
  seqs("global-three-qubits", 3,
       {glob("ryg01", RY, {0.5}, {0, 1}), glob("ryg01-", RY, {-0.5}, {0, 1}),
        glob("ryg012", RY, {0.25}, {0, 1, 2}), glob("ryg012-", RY, {-0.25}, {2, 1, 0}),
        ctl("cx", X, {}, 1, 2), ctl("cx", X, {}, 2, 0), ctl("cz", Z, {}, 0, 1),
        g1("rz", RZ, {0.5}, 0)},
       th ? 5 : 4);
  return r.finish();
}
