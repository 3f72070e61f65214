// P04: circuit optimisation passes keep the action of circuits.
#include "circ.hpp"
#include "circuit_optimizer/CircuitOptimizer.hpp"

using namespace circ;
using qc::CircuitOptimizer;
using qc::Control;
using qc::Qubit;
using ref::C;
using ref::Vec;
namespace {
constexpr double TOL = 1e-9;
std::size_t perm(std::size_t k, const qc::Permutation& p, std::size_t n) {
  std::size_t r = 0;
  for (std::size_t q = 0; q < n; ++q) {
    const auto it = p.find(static_cast<Qubit>(q));
    if (it != p.end() && ((k >> q) & 1U) != 0) {
      r |= 1ULL << it->second;
    }
  }
  return r;
}
bool complete(const qc::Permutation& p, std::size_t n) {
  if (p.size() != n) {
    return false;
  }
  std::size_t seen = 0;
  for (const auto& [a, b] : p) {
    if (a >= n || b >= n) {
      return false;
    }
    seen |= 1ULL << b;
  }
  return seen + 1 == (1ULL << n);
}
// What a circuit does, from logical inputs to logical outputs
struct Action {
  bool ok = true;
  bool pure = false;   // unitary with complete output permutation
  Vec u;               // pure: [out + in * N]
  ref::Rho r;          // otherwise: per bits, over (logical out, in)
};
Action action(const qc::QuantumComputation& q, std::size_t n, bool povm) {
  Action a;
  const std::size_t N = 1ULL << n;
  if (!complete(q.initialLayout, n)) {
    a.ok = false;
    return a;
  }
  auto br = ref::runChoi(q, n);
  const bool full = complete(q.outputPermutation, n);
  std::vector<std::size_t> in(N);
  std::vector<std::size_t> out(N);
  std::vector<std::size_t> rest(N);
  for (std::size_t k = 0; k < N; ++k) {
    in[k] = perm(k, q.initialLayout, n);
    out[k] = povm ? 0 : perm(k, q.outputPermutation, n);
    std::size_t m = 0;
    for (std::size_t p = 0; p < n; ++p) {
      const auto it = q.outputPermutation.find(static_cast<Qubit>(p));
      if (povm || it == q.outputPermutation.end()) {
        m |= 1ULL << p;
      }
    }
    rest[k] = k & m;
  }
  if (full && !povm && br.size() == 1) {
    a.pure = true;
    a.u.assign(N * N, 0);
    for (std::size_t i = 0; i < N; ++i) {
      for (std::size_t k = 0; k < N; ++k) {
        a.u[out[k] + in[i] * N] = br[0].v[k + i * N];
      }
    }
    return a;
  }
  const std::size_t R = povm ? N : N * N;
  for (const auto& b : br) {
    // amplitude by (environment, (out, in))
    std::map<std::size_t, Vec> env;
    for (std::size_t i = 0; i < N; ++i) {
      for (std::size_t k = 0; k < N; ++k) {
        const auto x = b.v[k + i * N];
        if (x == C(0)) {
          continue;
        }
        auto& v = env[rest[k]];
        v.resize(R);
        v[povm ? in[i] : out[k] + in[i] * N] += x;
      }
    }
    auto& m = a.r[b.b];
    m.resize(R * R);
    for (const auto& [e, v] : env) {
      for (std::size_t i = 0; i < R; ++i) {
        if (v[i] != C(0)) {
          for (std::size_t j = 0; j < R; ++j) {
            m[i * R + j] += v[i] * std::conj(v[j]);
          }
        }
      }
    }
  }
  return a;
}
bool same(const Action& a, const Action& b) {
  if (!a.ok || !b.ok || a.pure != b.pure) {
    return false;
  }
  return a.pure ? ref::dist(a.u, b.u) < TOL : ref::distR(a.r, b.r) < TOL;
}
using Post = std::function<std::string(const qc::QuantumComputation&)>;
struct Pass {
  std::string name;
  std::function<void(qc::QuantumComputation&)> run;
  Post post;
};
void forEach(const qc::Operation& op, const std::function<void(const qc::Operation&)>& f) {
  if (op.isCompoundOperation()) {
    for (const auto& o : dynamic_cast<const qc::CompoundOperation&>(op)) {
      forEach(*o, f);
    }
  } else {
    f(op);
  }
}
std::string none(const qc::QuantumComputation& q, const char* what,
                 const std::function<bool(const qc::Operation&)>& bad) {
  std::string r;
  for (const auto& o : q) {
    forEach(*o, [&](const qc::Operation& x) {
      if (bad(x)) {
        r = std::string(what) + " left in the result";
      }
    });
  }
  return r;
}
bool plain(const qc::Operation& o, qc::OpType t) {
  return o.getType() == t && !o.isControlled();
}
const std::vector<Pass>& passes() {
  static const std::vector<Pass> p = [] {
    std::vector<Pass> v;
    const Post ok = [](const qc::QuantumComputation&) { return std::string(); };
    v.push_back({"removeIdentities", CircuitOptimizer::removeIdentities,
                 [](const auto& q) {
                   return none(q, "identity",
                               [](const auto& o) { return plain(o, qc::I); });
                 }});
    v.push_back({"swapReconstruction", CircuitOptimizer::swapReconstruction, ok});
    v.push_back(
        {"singleQubitGateFusion", CircuitOptimizer::singleQubitGateFusion, ok});
    v.push_back({"cancelCNOTs", CircuitOptimizer::cancelCNOTs, ok});
    for (const bool d : {false, true}) {
      v.push_back({d ? "decomposeSWAP(directed)" : "decomposeSWAP",
                   [d](auto& q) { CircuitOptimizer::decomposeSWAP(q, d); },
                   [](const auto& q) {
                     return none(q, "SWAP",
                                 [](const auto& o) { return plain(o, qc::SWAP); });
                   }});
    }
    v.push_back({"replaceMCXWithMCZ", CircuitOptimizer::replaceMCXWithMCZ,
                 [](const auto& q) {
                   return none(q, "controlled X", [](const auto& o) {
                     return o.getType() == qc::X && o.isControlled();
                   });
                 }});
    v.push_back({"flattenOperations",
                 [](auto& q) { CircuitOptimizer::flattenOperations(q); },
                 [](const auto& q) {
                   for (const auto& o : q) {
                     if (o->isCompoundOperation()) {
                       return std::string("grouped operation left");
                     }
                   }
                   return std::string();
                 }});
    v.push_back({"flattenOperations(custom)",
                 [](auto& q) { CircuitOptimizer::flattenOperations(q, true); }, ok});
    for (const std::size_t k : {1U, 2U, 3U}) {
      v.push_back({"collectBlocks(" + std::to_string(k) + ")",
                   [k](auto& q) { CircuitOptimizer::collectBlocks(q, k); },
                   ok});
    }
    v.push_back({"elidePermutations", CircuitOptimizer::elidePermutations,
                 [](const auto& q) {
                   return none(q, "SWAP", [](const auto& o) {
                     return plain(o, qc::SWAP);
                   });
                 }});
    v.push_back({"removeDiagonalGatesBeforeMeasure",
                 CircuitOptimizer::removeDiagonalGatesBeforeMeasure, ok});
    v.push_back({"removeBarriers",
                 [](auto& q) {
                   CircuitOptimizer::removeOperation(q, {qc::Barrier}, 0);
                 },
                 [](const auto& q) {
                   return none(q, "barrier", [](const auto& o) {
                     return o.getType() == qc::Barrier;
                   });
                 }});
    return v;
  }();
  return p;
}
void check(mc::Ctx& c, const qc::QuantumComputation& q, std::size_t n, bool measured,
           const std::function<bool(const std::string&)>& want = nullptr) {
  const auto before = action(q, n, measured);
  c.state(before.pure ? ref::hashVec(before.u)
                      : mc::hashStr(std::to_string(before.r.size())));
  for (const auto& p : passes()) {
    if (want && !want(p.name)) {
      continue;
    }
    if (!measured && p.name == "removeDiagonalGatesBeforeMeasure") {
      continue;
    }
    c.trans();
    qc::QuantumComputation r = q;
    const auto where = [&] {
      return p.name + " on " + ref::qcStr(q) + " init " +
             ref::permStr(q.initialLayout) + " out " +
             ref::permStr(q.outputPermutation) + " gave " + ref::qcStr(r) +
             " init " + ref::permStr(r.initialLayout) + " out " +
             ref::permStr(r.outputPermutation);
    };
    try {
      p.run(r);
    } catch (const std::exception& e) {
      if (p.name[0] == 'c' && std::any_of(q.begin(), q.end(), [](const auto& o) {
            return o->getType() == qc::Measure && o->getNtargets() > 1;
          })) {
        continue; // refused: multi-qubit measurements cannot be deferred
      }
      c.check(false, p.name + ":exception", where() + " threw " + e.what());
      continue;
    }
    bool ok = false;
    try {
      ok = same(before, action(r, n, measured));
    } catch (const std::exception& e) {
      c.check(false, p.name + ":malformed", where() + ": " + e.what());
      continue;
    }
    c.checkf(ok, p.name.c_str(), where);
    const auto post = p.post(r);
    c.checkf(post.empty(), (p.name + ":post").c_str(), [&] { return where() + ": " + post; });
    if (p.name.rfind("collectBlocks", 0) == 0) {
      const std::size_t k = static_cast<std::size_t>(p.name[14] - '0');
      for (const auto& o : r) {
        const auto used = o->getUsedQubits().size();
        const bool small =
            used <= k || !o->isCompoundOperation() ||
            std::any_of(q.begin(), q.end(), [&](const auto& x) {
              return x->isCompoundOperation() && x->getUsedQubits().size() > k;
            });
        c.checkf(small, (p.name + ":size").c_str(), where);
      }
    }
  }
}
void add(Alphabet& a, OpPtr p) { a.push_back(std::move(p)); }
OpPtr cx(Qubit c, Qubit t) { return std1(qc::X, t, {}, {Control{c}}); }
OpPtr nx(Qubit c, Qubit t) {
  return std1(qc::X, t, {}, {Control{c, Control::Type::Neg}});
}
OpPtr sw(Qubit a, Qubit b, qc::Controls c = {}) {
  return std::make_unique<qc::StandardOperation>(c, qc::Targets{a, b}, qc::SWAP);
}
OpPtr custom(OpPtr p) {
  std::vector<OpPtr> v;
  v.push_back(std::move(p));
  return std::make_unique<qc::CompoundOperation>(std::move(v), true);
}
std::vector<std::uint32_t> seqOf(std::uint64_t k, std::size_t len, std::size_t base) {
  std::vector<std::uint32_t> s(len);
  for (auto& x : s) {
    x = static_cast<std::uint32_t>(k % base);
    k /= base;
  }
  return s;
}
qc::Permutation mk(std::vector<Qubit> v) {
  qc::Permutation p;
  for (Qubit i = 0; i < v.size(); ++i) {
    p[i] = v[i];
  }
  return p;
}
// is the operation a measurement or barrier with nothing to do afterwards?
// must: nothing at all comes later on its qubits, may: only barriers do
void finals(const std::vector<const qc::Operation*>& ops, std::vector<bool>& must,
            std::vector<bool>& may) {
  std::set<Qubit> blockedAny;
  std::set<Qubit> blockedReal;
  must.assign(ops.size(), false);
  may.assign(ops.size(), false);
  for (auto i = ops.size(); i-- > 0;) {
    const auto& o = *ops[i];
    bool any = false;
    bool real = false;
    for (const auto q : o.getUsedQubits()) {
      any = any || blockedAny.count(q) > 0;
      real = real || blockedReal.count(q) > 0;
    }
    const bool m = o.getType() == qc::Measure;
    const bool b = o.getType() == qc::Barrier;
    must[i] = m && !any;
    may[i] = (m && !real) || b || o.getType() == qc::I;
    if ((m || b) && !any) {
      continue;
    }
    for (const auto q : o.getUsedQubits()) {
      blockedAny.insert(q);
      if (!(m && !real) && !b) {
        blockedReal.insert(q);
      }
    }
  }
}
void removeFinal(mc::Ctx& c, const qc::QuantumComputation& q) {
  c.trans();
  qc::QuantumComputation r = q;
  const auto where = [&] {
    return "removeFinalMeasurements on " + ref::qcStr(q) + " gave " + ref::qcStr(r);
  };
  try {
    CircuitOptimizer::removeFinalMeasurements(r);
  } catch (const std::exception& e) {
    c.check(false, "removeFinalMeasurements:exception", where() + e.what());
    return;
  }
  const auto flat = [](const qc::QuantumComputation& x) {
    std::vector<const qc::Operation*> v;
    for (const auto& o : x) {
      forEach(*o, [&](const qc::Operation& y) { v.push_back(&y); });
    }
    return v;
  };
  const auto a = flat(q);
  const auto b = flat(r);
  std::vector<bool> must;
  std::vector<bool> may;
  finals(a, must, may);
  std::size_t j = 0;
  bool ok = true;
  // greedy matching with backtracking is not needed: an operation that may be
  // dropped equals its copy, so dropping the later one is the same
  std::function<bool(std::size_t, std::size_t)> match = [&](std::size_t i,
                                                            std::size_t k) {
    if (i == a.size()) {
      return k == b.size();
    }
    if (!must[i] && k < b.size() && a[i]->equals(*b[k]) && match(i + 1, k + 1)) {
      return true;
    }
    return (must[i] || may[i]) && match(i + 1, k);
  };
  ok = match(0, j);
  c.checkf(ok, "removeFinalMeasurements", where);
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P04");
  r.assume("Dense reference matrices for every gate; three qubits.");
  constexpr std::size_t n = 3;
  static Alphabet a;
  for (Qubit q = 0; q < 3; ++q) {
    add(a, std1(qc::H, q));
    add(a, std1(qc::X, q));
    for (Qubit t = 0; t < 3; ++t) {
      if (t != q) {
        add(a, cx(q, t));
      }
    }
  }
  const auto nBasic = a.size();
  add(a, sw(0, 1));
  add(a, sw(2, 0));
  add(a, sw(1, 2));
  add(a, std1(qc::S, 0));
  add(a, std1(qc::Sdg, 0));
  add(a, std1(qc::RZ, 0, {0.7}));
  add(a, std1(qc::Z, 1));
  add(a, std1(qc::I, 1));
  add(a, nx(0, 1));
  add(a, nx(1, 0));
  add(a, std1(qc::X, 2, {}, {Control{0}, Control{1}}));
  add(a, std1(qc::X, 0, {}, {Control{1}, Control{2, Control::Type::Neg}}));
  add(a, sw(0, 1, {Control{2}}));
  add(a, sw(1, 2, {Control{0, Control::Type::Neg}}));
  add(a, std1(qc::Z, 1, {}, {Control{0}}));
  add(a, std1(qc::P, 2, {0.9}, {Control{0}}));
  add(a, std1(qc::H, 0, {}, {Control{1}}));
  add(a, std2(qc::iSWAP, 0, 1));
  add(a, std2(qc::RZZ, 1, 2, {0.6}));
  add(a, gphase(0.4));
  add(a, gphase(0.8, {Control{1}}));
  add(a, barrier({0, 1, 2}));
  add(a, barrier({0}));
  add(a, compound(std1(qc::X, 0), std1(qc::H, 0)));
  add(a, compound(std1(qc::S, 0), std1(qc::H, 1)));
  add(a, compound(std1(qc::H, 0)));
  add(a, compound(cx(0, 1), cx(1, 0), cx(0, 1)));
  add(a, compound(sw(0, 1), std1(qc::H, 1)));
  add(a, compound(sw(1, 2)));
  add(a, compound(std1(qc::I, 0), std1(qc::T, 1)));
  add(a, compound(compound(sw(0, 2), cx(0, 1)), std1(qc::T, 1)));
  add(a, compound(compound(std1(qc::I, 0), barrier({1})), std1(qc::T, 1)));
  add(a, custom(compound(cx(2, 1), std1(qc::X, 2))));
  add(a, custom(cx(1, 2)));
  const auto N = a.size();
  const auto build = [&](const std::vector<std::uint32_t>& s, std::size_t nc = 0) {
    qc::QuantumComputation q(n, nc, 1);
    setOps(q, a, s);
    return q;
  };
  r.space("circuits", N * N,
          "all circuits of up to " + std::string(r.thorough ? "4" : "3") +
              " operations out of " + std::to_string(N) +
              " on three qubits, 14 passes",
          [&](std::uint64_t i, mc::Ctx& c) {
            const auto x = static_cast<std::uint32_t>(i % N);
            const auto y = static_cast<std::uint32_t>(i / N);
            if (x == 0) {
              check(c, build({y}), n, false);
            }
            check(c, build({x, y}), n, false);
            for (std::uint32_t z = 0; z < N; ++z) {
              check(c, build({x, y, z}), n, false);
              for (std::uint32_t w = 0; r.thorough && w < N; ++w) {
                check(c, build({x, y, z, w}), n, false);
              }
            }
          });
  {
    // CNOTs, SWAPs and a few more
    static const std::vector<std::uint32_t> sub = [&] {
      std::vector<std::uint32_t> s;
      for (std::uint32_t i = 0; i < N; ++i) {
        const auto& o = *a[i];
        if (i < nBasic + 3 && o.getUsedQubits().size() == 2) {
          s.push_back(i);
        }
      }
      s.push_back(1); // X on 0
      return s;
    }();
    const std::size_t len = r.thorough ? 7 : 6;
    std::uint64_t tot = 1;
    for (std::size_t k = 0; k < len; ++k) {
      tot *= sub.size();
    }
    r.space("cnot-swap", tot / 100,
            "all circuits of " + std::to_string(len) +
                " CNOT, SWAP and X gates on three qubits",
            [&, len](std::uint64_t i, mc::Ctx& c) {
              for (std::uint64_t k = i * 100; k < (i + 1) * 100; ++k) {
                auto s = seqOf(k, len, sub.size());
                for (auto& x : s) {
                  x = sub[x];
                }
                check(c, build(s), n, false, [](const std::string& p) {
                  return p[0] == 'c' || p[0] == 's' || p[0] == 'e';
                });
              }
            });
  }
  {
    // one-qubit gates on one qubit plus something on a second
    static Alphabet b;
    for (const auto t : {qc::X, qc::H, qc::S, qc::Sdg, qc::T, qc::SX, qc::SXdg,
                         qc::I}) {
      add(b, std1(t, 0));
    }
    add(b, std1(qc::RX, 0, {0.5}));
    add(b, cx(0, 1));
    add(b, std1(qc::H, 1));
    add(b, compound(std1(qc::H, 0), std1(qc::S, 0)));
    add(b, barrier({0, 1}));
    add(b, barrier({0}));
    const std::size_t len = r.thorough ? 5 : 4;
    std::uint64_t tot = 1;
    for (std::size_t k = 0; k < len; ++k) {
      tot *= b.size();
    }
    r.space("fusion", tot / 196,
            "all circuits of " + std::to_string(len) + " out of 14 operations on two "
            "qubits, mostly single-qubit gates",
            [&, len](std::uint64_t i, mc::Ctx& c) {
              for (std::uint64_t k = i * 196; k < (i + 1) * 196; ++k) {
                qc::QuantumComputation q(2, 0, 1);
                setOps(q, b, seqOf(k, len, b.size()));
                check(c, q, 2, false, [](const std::string& p) {
                  return p[0] == 's' || p[0] == 'c' || p == "removeIdentities";
                });
              }
            });
  }
  static const std::vector<qc::Permutation> full{
      mk({0, 1, 2}), mk({0, 2, 1}), mk({1, 0, 2}),
      mk({1, 2, 0}), mk({2, 0, 1}), mk({2, 1, 0})};
  static std::vector<qc::Permutation> outs = full;
  for (Qubit p0 = 0; p0 < 3; ++p0) {
    for (Qubit l0 = 0; l0 < 3; ++l0) {
      qc::Permutation x;
      x[p0] = l0;
      outs.push_back(x);
      qc::Permutation y;
      for (Qubit p = 0; p < 3; ++p) {
        if (p != p0) {
          y[p] = (l0 + p) % 3;
        }
      }
      outs.push_back(y);
    }
  }
  {
    static const std::vector<std::uint32_t> sub = [&] {
      std::vector<std::uint32_t> s;
      for (std::uint32_t i = static_cast<std::uint32_t>(nBasic); i < N; ++i) {
        if (a[i]->getUsedQubits().size() > 1) {
          s.push_back(i);
        }
      }
      s.push_back(0);
      return s;
    }();
    r.space("layouts", full.size() * outs.size() * sub.size(),
            "all pairs of operations out of " + std::to_string(sub.size()) +
                " x all 6 initial layouts x 24 complete and partial output "
                "permutations",
            [&](std::uint64_t i, mc::Ctx& c) {
              const auto& in = full[i % full.size()];
              const auto& out = outs[i / full.size() % outs.size()];
              const auto y = sub[i / full.size() / outs.size()];
              for (const auto x : sub) {
                auto q = build({y, x});
                q.initialLayout = in;
                q.outputPermutation = out;
                check(c, q, n, false,
                      r.thorough ? nullptr
                                 : std::function<bool(const std::string&)>(
                                       [](const std::string& p) {
                                         return p[0] == 'e' || p[0] == 'c';
                                       }));
              }
            });
  }
  {
    // back-propagation: gates and output permutation stay; following the SWAPs
    // from the new initial layout leads to the output permutation
    static Alphabet b;
    add(b, sw(0, 1));
    add(b, sw(1, 2));
    add(b, sw(2, 0));
    add(b, cx(0, 1));
    add(b, compound(sw(0, 1), cx(1, 2), sw(1, 2)));
    add(b, compound(std1(qc::H, 0), compound(sw(2, 1))));
    add(b, sw(0, 1, {Control{2}}));
    const std::size_t len = 4;
    std::uint64_t tot = 7 * 7 * 7 * 7;
    r.space("backpropagation", tot / 7,
            "all circuits of 4 out of 7 operations x 24 output permutations",
            [&, len](std::uint64_t i, mc::Ctx& c) {
              for (std::uint64_t k = i * 7; k < (i + 1) * 7; ++k) {
                for (const auto& o : outs) {
                  qc::QuantumComputation q(n, 0, 1);
                  setOps(q, b, seqOf(k, len, b.size()));
                  q.outputPermutation = o;
                  qc::QuantumComputation s = q;
                  c.trans();
                  CircuitOptimizer::backpropagateOutputPermutation(s);
                  const auto where = [&] {
                    return "backpropagateOutputPermutation on " + ref::qcStr(q) +
                           " out " + ref::permStr(o) + " gave init " +
                           ref::permStr(s.initialLayout) + " out " +
                           ref::permStr(s.outputPermutation);
                  };
                  bool ok = s.size() == q.size() && s.outputPermutation == o &&
                            complete(s.initialLayout, n);
                  for (std::size_t x = 0; ok && x < q.size(); ++x) {
                    ok = q.at(x)->equals(*s.at(x));
                  }
                  c.checkf(ok, "backpropagate:kept", where);
                  if (!ok) {
                    continue;
                  }
                  auto p = s.initialLayout;
                  for (const auto& op : q) {
                    forEach(*op, [&](const qc::Operation& z) {
                      if (plain(z, qc::SWAP)) {
                        std::swap(p[z.getTargets()[0]], p[z.getTargets()[1]]);
                      }
                    });
                  }
                  for (const auto& [phys, log] : o) {
                    ok = ok && p[phys] == log;
                  }
                  c.state(mc::hashStr(ref::permStr(s.initialLayout)));
                  c.checkf(ok, "backpropagate", where);
                }
              }
            });
  }
  // circuits that end with measurements
  static std::vector<std::vector<std::uint32_t>> tails;
  {
    const auto first = static_cast<std::uint32_t>(a.size());
    add(a, meas({0}, {0}));                         // 0
    add(a, meas({1}, {1}));                         // 1
    add(a, meas({2}, {2}));                         // 2
    add(a, meas({0, 1, 2}, {0, 1, 2}));             // 3
    add(a, meas({1, 0}, {0, 2}));                   // 4
    add(a, compound(meas({0}, {0}), meas({1}, {1}))); // 5
    add(a, barrier({0, 1, 2}));                     // 6
    add(a, barrier({1}));                           // 7
    add(a, compound(std1(qc::Z, 0), meas({0}, {0}))); // 8
    add(a, meas({2}, {0}));                         // 9
    for (const std::vector<std::uint32_t>& t :
         std::vector<std::vector<std::uint32_t>>{
             {0},       {1},       {2},       {0, 1},    {0, 1, 2}, {1, 0},
             {3},       {4},       {4, 2},    {5},       {5, 2},    {6, 3},
             {6, 0},    {0, 6},    {6, 0, 6}, {0, 6, 1}, {7, 1},    {1, 7},
             {0, 7, 1}, {8},       {8, 1},    {9, 1},    {0, 6, 2}}) {
      std::vector<std::uint32_t> s;
      for (const auto x : t) {
        s.push_back(first + x);
      }
      tails.push_back(s);
    }
  }
  r.space("measured", N * tails.size(),
          "all pairs of operations out of " + std::to_string(N) +
              " followed by 23 patterns of measurements and barriers",
          [&](std::uint64_t i, mc::Ctx& c) {
            const auto x = static_cast<std::uint32_t>(i % N);
            const auto& t = tails[i / N];
            for (std::uint32_t y = 0; y < N; ++y) {
              std::vector<std::uint32_t> s{x, y};
              s.insert(s.end(), t.begin(), t.end());
              const auto q = build(s, 3);
              check(c, q, n, true, [&](const std::string& p) {
                return p != "collectBlocks(1)" && p != "collectBlocks(3)";
              });
              removeFinal(c, q);
            }
          });
  {
    // measurements, resets and classically controlled operations anywhere
    static Alphabet b;
    add(b, std1(qc::H, 0));
    add(b, std1(qc::H, 1));
    add(b, std1(qc::Z, 0));
    add(b, std1(qc::S, 1));
    add(b, cx(0, 1));
    add(b, cx(1, 0));
    add(b, sw(0, 1));
    add(b, std1(qc::Z, 1, {}, {Control{0}}));
    add(b, meas({0}, {0}));
    add(b, meas({1}, {1}));
    add(b, meas({1}, {0}));
    add(b, meas({0, 1}, {1, 0}));
    add(b, reset({0}));
    add(b, reset({0, 1}));
    add(b, ifBit(std1(qc::X, 0), 0));
    add(b, ifBit(std1(qc::Z, 1), 1));
    add(b, ifBit(cx(1, 0), 0));
    add(b, ifBit(sw(0, 1), 1));
    add(b, ifBit(compound(sw(0, 1), std1(qc::H, 0)), 0));
    add(b, ifReg(std1(qc::H, 1), qc::ClassicalRegister(0, 2, "c"), 2));
    add(b, compound(meas({0}, {0}), sw(0, 1)));
    add(b, compound(sw(0, 1), ifBit(std1(qc::X, 1), 0)));
    add(b, compound(std1(qc::Z, 0), reset({1})));
    add(b, compound(std1(qc::Z, 0), meas({1}, {1}), std1(qc::S, 0)));
    add(b, compound(std1(qc::H, 0)));
    add(b, barrier({0, 1}));
    const std::size_t len = r.thorough ? 4 : 3;
    std::uint64_t tot = 1;
    for (std::size_t k = 0; k < len; ++k) {
      tot *= b.size();
    }
    r.space("dynamic", tot / 26,
            "all circuits of " + std::to_string(len) +
                " out of 26 operations on two qubits and two bits with "
                "measurements, resets and classical control, up to two final "
                "measurements",
            [&, len](std::uint64_t i, mc::Ctx& c) {
              for (std::uint64_t k = i * 26; k < (i + 1) * 26; ++k) {
                for (int m = 0; m < 4; ++m) {
                  qc::QuantumComputation q(2, 0, 1);
                  q.addClassicalRegister(2, "c");
                  setOps(q, b, seqOf(k, len, b.size()));
                  for (Qubit x = 0; x < 2; ++x) {
                    if (((m >> x) & 1) != 0) {
                      q.measure(x, x);
                    }
                  }
                  {
                    // without the final measurements, the qubits still show the
                    // same results
                    auto s = q;
                    CircuitOptimizer::removeFinalMeasurements(s);
                    const auto seen = [](qc::QuantumComputation x) {
                      x.addClassicalRegister(2, "f");
                      x.measure({0, 1}, {2, 3});
                      const auto act = action(x, 2, true);
                      ref::Rho sum;
                      for (const auto& [bits, rho] : act.r) {
                        auto& t = sum[bits & 12U];
                        t.resize(rho.size());
                        for (std::size_t e = 0; e < rho.size(); ++e) {
                          t[e] += rho[e];
                        }
                      }
                      return sum;
                    };
                    c.trans();
                    c.checkf(ref::distR(seen(q), seen(s)) < TOL,
                             "removeFinalMeasurements:dynamic", [&] {
                               return ref::qcStr(q) + " gave " + ref::qcStr(s);
                             });
                  }
                  if (m == 0) {
                    check(c, q, 2, false, [](const std::string& p) {
                      return p.rfind("collect", 0) != 0 &&
                             p.rfind("removeDiag", 0) != 0;
                    });
                  } else {
                    check(c, q, 2, true, [](const std::string& p) {
                      return p == "removeDiagonalGatesBeforeMeasure";
                    });
                  }
                }
              }
            });
  }
  {
    static Alphabet b;
    add(b, std1(qc::H, 0));
    add(b, std1(qc::Z, 0));
    add(b, std1(qc::T, 1));
    add(b, std1(qc::Z, 1, {}, {Control{0}}));
    add(b, std1(qc::Z, 0, {}, {Control{1, Control::Type::Neg}}));
    add(b, std1(qc::P, 2, {0.9}, {Control{0}, Control{1}}));
    add(b, std1(qc::P, 1, {0.4}, {Control{2}}));
    add(b, std2(qc::RZZ, 1, 2, {0.6}));
    add(b, cx(0, 1));
    add(b, cx(2, 0));
    add(b, std1(qc::H, 2));
    add(b, compound(std1(qc::S, 0), std1(qc::Z, 1, {}, {Control{2}})));
    add(b, compound(std1(qc::S, 0), std1(qc::H, 1)));
    add(b, compound(std1(qc::H, 0), std1(qc::S, 0)));
    add(b, barrier({0, 1}));
    add(b, gphase(0.3));
    const std::vector<std::vector<Qubit>> ms{{0}, {1}, {2}, {0, 1}, {0, 2}, {1, 2},
                                             {0, 1, 2}};
    const std::uint64_t M = b.size();
    r.space("diagonal", M * M * M * (r.thorough ? M : 1),
            "all circuits of " + std::string(r.thorough ? "5" : "4") +
                " out of 16 mostly diagonal operations on three qubits, "
                "measurements of every subset",
            [&, ms](std::uint64_t i, mc::Ctx& c) {
              for (std::uint64_t k = 0; k < M; ++k) {
                for (const auto& m : ms) {
                  qc::QuantumComputation q(n, 3, 1);
                  setOps(q, b, seqOf(i, r.thorough ? 4 : 3, M));
                  q.emplace_back(b[k]->clone());
                  for (const auto x : m) {
                    q.measure(x, x);
                  }
                  check(c, q, n, true, [](const std::string& p) {
                    return p == "removeDiagonalGatesBeforeMeasure";
                  });
                }
              }
            });
  }
  {
    static Alphabet b;
    for (Qubit q = 0; q < 4; ++q) {
      add(b, cx(q, (q + 1) % 4));
      add(b, std1(qc::H, q));
    }
    add(b, std1(qc::X, 3, {}, {Control{0}, Control{1}}));
    add(b, std1(qc::X, 0, {}, {Control{1}, Control{2}, Control{3}}));
    add(b, compound(cx(0, 2), cx(1, 3)));
    add(b, barrier({1, 2}));
    const std::size_t len = r.thorough ? 6 : 5;
    std::uint64_t tot = 1;
    for (std::size_t k = 0; k < len; ++k) {
      tot *= b.size();
    }
    r.space("blocks", tot / 144,
            "all circuits of " + std::to_string(len) +
                " out of 12 operations on four qubits, block sizes 1 to 3",
            [&, len](std::uint64_t i, mc::Ctx& c) {
              for (std::uint64_t k = i * 144; k < (i + 1) * 144; ++k) {
                qc::QuantumComputation q(4, 0, 1);
                setOps(q, b, seqOf(k, len, b.size()));
                check(c, q, 4, false,
                      [](const std::string& p) { return p[1] == 'o'; });
              }
            });
  }
  { // wider operations, larger blocks
    Alphabet b;
    add(b, std1(qc::RY, 0, {0.7}));
    add(b, std1(qc::T, 3));
    add(b, cx(0, 1));
    add(b, cx(2, 1));
    add(b, cx(3, 4));
    add(b, nx(5, 2));
    add(b, sw(4, 5));
    add(b, sw(0, 5));
    add(b, std1(qc::X, 2, {}, {Control{0}, Control{3, Control::Type::Neg}}));
    add(b, std1(qc::RX, 5, {0.4}, {Control{4}, Control{1}}));
    add(b, sw(1, 3, {Control{0}, Control{2}}));
    add(b, std1(qc::X, 0, {}, {Control{1}, Control{2}, Control{4}, Control{5}}));
    const std::size_t len = r.thorough ? 6 : 5;
    std::uint64_t tot = 1;
    for (std::size_t k = 0; k < len; ++k) {
      tot *= b.size();
    }
    const auto in = ref::genericState(6);
    r.space("wide-blocks", tot / 144,
            "all circuits of " + std::to_string(len) +
                " out of 12 operations on one to five of six qubits, block "
                "sizes 1 to 6, on a generic input",
            [&, len](std::uint64_t i, mc::Ctx& c) {
              for (std::uint64_t k = i * 144; k < (i + 1) * 144; ++k) {
                qc::QuantumComputation q(6);
                setOps(q, b, seqOf(k, len, b.size()));
                const auto before = ref::runFrom(in, q).at(0).v;
                c.state(ref::hashVec(before));
                for (std::size_t size = 1; size <= 6; ++size) {
                  c.trans();
                  auto x = q;
                  CircuitOptimizer::collectBlocks(x, size);
                  const auto where = [&] {
                    return "collectBlocks(" + std::to_string(size) + ") on " +
                           ref::qcStr(q) + " gave " + ref::qcStr(x);
                  };
                  const auto after = ref::runFrom(in, x);
                  c.checkf(after.size() == 1 &&
                               ref::dist(before, after[0].v) < TOL,
                           "collectBlocks:wide", where);
                  bool small = true;
                  for (const auto& o : x) {
                    small = small && (!o->isCompoundOperation() ||
                                      o->getUsedQubits().size() <= size);
                  }
                  c.checkf(small, "collectBlocks:wide:size", where);
                }
              }
            });
  }
  return r.finish();
}
