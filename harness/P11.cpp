// P11: decision-diagram functionality and simulation equal the matrices they
// represent.
#include "ddh.hpp"

using namespace qc;
namespace {
const double TOL = 1e-9;
struct OpCase {
  OpType t;
  std::vector<double> p;
  std::vector<Qubit> tg;
  Controls c;
};
std::string str(const OpCase& k) {
  return ref::opStr(StandardOperation(k.c, Targets(k.tg.begin(), k.tg.end()),
                                      k.t, k.p));
}
std::vector<Permutation> perms(std::size_t n) {
  std::vector<Qubit> a(n);
  for (Qubit i = 0; i < n; ++i) {
    a[i] = i;
  }
  std::vector<Permutation> r;
  do {
    Permutation p;
    for (Qubit i = 0; i < n; ++i) {
      p.emplace(i, a[i]);
    }
    r.push_back(p);
  } while (std::next_permutation(a.begin(), a.end()));
  return r;
}
circ::Alphabet alphabet(bool three) {
  using namespace circ;
  const auto neg = Control::Type::Neg;
  Alphabet a;
  a.push_back(std1(H, 0));
  a.push_back(std1(T, 1));
  a.push_back(std1(X, 1, {}, {Control{0}}));
  a.push_back(std1(SX, 0, {}, {Control{1, neg}}));
  a.push_back(std2(SWAP, 0, 1));
  a.push_back(std2(iSWAP, 1, 0));
  a.push_back(std1(U, 1, {0.3, -1.1, 2.0}));
  a.push_back(gphase(0.9));
  a.push_back(compound(std2(SWAP, 1, 0), std1(RY, 0, {0.7})));
  a.push_back(barrier({0, 1}));
  if (three) {
    a.push_back(std2(SWAP, 2, 0));
    a.push_back(std2(SWAP, 1, 2, {}, {Control{0, neg}}));
    a.push_back(std1(Y, 2, {}, {Control{0}, Control{1, neg}}));
    a.push_back(std2(RZX, 2, 0, {1.3}));
    a.push_back(gphase(-0.4, {Control{2}, Control{0, neg}}));
    a.push_back(compound(compound(std1(V, 2), std1(Z, 0, {}, {Control{2}})),
                         std2(DCX, 2, 1)));
  } else {
    a.push_back(gphase(-0.4, {Control{1, neg}}));
  }
  return a;
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P11");
  r.assume("documented gate matrices of harness/ref.hpp; tolerance 1e-9 per "
           "entry");
  const auto cfg = ddh::smallConfig();
  // single operations
  {
    const std::size_t n = 4;
    std::vector<double> grid{0, PI / 4, PI / 2, PI, -0.7};
    if (r.thorough) {
      grid = {0, PI / 4, -PI / 2, PI, -0.7, 2.1, 2 * PI};
    }
    std::vector<std::vector<OpCase>> batches;
    auto add = [&](OpType t, const std::vector<Qubit>& tg) {
      auto np = circ::nparams(t);
      std::vector<OpCase> b;
      for (const auto& c : circ::allControls(n, tg, n)) {
        for (const auto& p : circ::paramGrid(np, grid)) {
          b.push_back({t, p, tg, c});
          if (b.size() == 48) {
            batches.push_back(b);
            b.clear();
          }
        }
      }
      if (!b.empty()) {
        batches.push_back(b);
      }
    };
    for (const auto t : circ::singleTypes()) {
      for (Qubit q = 0; q < n; ++q) {
        add(t, {q});
      }
    }
    for (const auto t : circ::doubleTypes()) {
      for (Qubit q = 0; q < n; ++q) {
        for (Qubit s = 0; s < n; ++s) {
          if (s != q) {
            add(t, {q, s});
          }
        }
      }
    }
    add(GPhase, {});
    const auto ps = perms(n);
    r.space(
        "operations", batches.size(),
        "every gate x target order x control set with polarities on " +
            std::to_string(n) +
            " qubits x parameter grid (batches of 48 in one package): diagram, "
            "inverse diagram, all qubit relabellings, application to a state "
            "and to a matrix from both sides",
        [&, n](std::uint64_t i, mc::Ctx& c) {
          dd::Package p(n, cfg);
          const std::size_t N = 1ULL << n;
          std::size_t cnt = 0;
          for (const auto& k : batches[i]) {
            const StandardOperation op(k.c, Targets(k.tg.begin(), k.tg.end()),
                                       k.t, k.p);
            const auto want = ref::unitaryOp(op, n);
            c.trans();
            auto cmp = [&](const dd::mEdge& e, const ddh::Mat& w,
                           const char* key, const std::string& extra = "") {
              const auto got = ddh::toMat(e, n);
              c.checkf(ref::dist(got, w) < TOL, key, [&] {
                return str(k) + extra + " gave " + ddh::matStr(got) +
                       " wanted " + ddh::matStr(w);
              });
            };
            const auto e = dd::getDD(op, p);
            cmp(e, want, "op:matrix");
            cmp(dd::getInverseDD(op, p), ref::adj(want), "op:inverse");
            // a relabelling
            const auto& pm = ps[(i * 48 + cnt++) % ps.size()];
            const auto moved = op.clone();
            moved->setTargets(pm.apply(op.getTargets()));
            auto mc_ = pm.apply(op.getControls());
            moved->setControls(mc_);
            cmp(dd::getDD(op, p, pm), ref::unitaryOp(*moved, n), "op:permuted",
                " with permutation " + ref::permStr(pm));
            // application to vectors
            const std::size_t col = (i + cnt) % N;
            std::vector<bool> bits(n);
            for (std::size_t q = 0; q < n; ++q) {
              bits[q] = ((col >> q) & 1U) != 0;
            }
            auto v = p.makeBasisState(n, bits);
            v = dd::applyUnitaryOperation(op, v, p);
            const auto gv = ddh::toVec(v);
            c.checkf(ref::dist(gv, want[col]) < TOL, "op:state", [&] {
              return str(k) + " on basis state " + std::to_string(col) +
                     " gave " + ref::vecStr(gv);
            });
            p.decRef(v);
            // application to matrices
            const StandardOperation h(cnt % n, RY, {0.8});
            auto m = dd::getDD(h, p);
            p.incRef(m);
            const bool left = cnt % 2 == 0;
            m = dd::applyUnitaryOperation(op, m, p, {}, left);
            const auto hm = ref::unitaryOp(h, n);
            cmp(m, left ? ref::mul(want, hm) : ref::mul(hm, want), "op:apply",
                left ? " from the left" : " from the right");
            p.decRef(m);
            c.state(ref::hashU(want));
            if (c.wantSample()) {
              c.sample(str(k));
            }
          }
        });
  }
  // circuits
  auto circuits = [&](const std::string& name, std::size_t n, std::size_t L,
                      const circ::Alphabet& a,
                      const std::vector<std::pair<Permutation, Permutation>>&
                          layouts) {
    const std::size_t total = mc::seqCount(a.size(), L, 0);
    const std::size_t B = 64;
    const std::size_t nb = (total + B - 1) / B;
    r.space(
        name, nb * layouts.size(),
        "all circuits of up to " + std::to_string(L) + " of " +
            std::to_string(a.size()) + " operations on " + std::to_string(n) +
            " qubits x " + std::to_string(layouts.size()) +
            " layout pairs (batches of 64 in one package): sequential, "
            "recursive, simulation of every basis state",
        [&, n, total, B, nb](std::uint64_t i, mc::Ctx& c) {
          const auto& lay = layouts[i / nb];
          dd::Package p(n, cfg);
          const std::size_t N = 1ULL << n;
          for (std::size_t k = (i % nb) * B; k < std::min(total, (i % nb + 1) * B);
               ++k) {
            QuantumComputation q(n, 0, 1);
            circ::setOps(q, a, mc::seqAt(k, a.size(), 0));
            q.initialLayout = lay.first;
            q.outputPermutation = lay.second;
            q.gphase(k % 2 == 0 ? 0.6 : 0.);
            const auto want = ddh::logicalMap(q, n);
            c.trans();
            auto cmp = [&](dd::mEdge e, const char* key) {
              const auto got = ddh::toMat(e, n);
              c.checkf(ref::dist(got, want) < TOL, key, [&] {
                return ref::qcStr(q) + " gave " + ddh::matStr(got) +
                       " wanted " + ddh::matStr(want);
              });
              p.decRef(e);
            };
            cmp(dd::buildFunctionality(q, p), "circuit:sequential");
            cmp(dd::buildFunctionalityRecursive(q, p), "circuit:recursive");
            for (std::size_t col = 0; col < N; ++col) {
              std::vector<bool> bits(n);
              for (std::size_t b = 0; b < n; ++b) {
                bits[b] = ((col >> b) & 1U) != 0;
              }
              const auto v = dd::simulate(q, p.makeBasisState(n, bits), p);
              const auto gv = ddh::toVec(v);
              c.checkf(ref::dist(gv, want[col]) < TOL, "circuit:simulate", [&] {
                return ref::qcStr(q) + " on " + std::to_string(col) + " gave " +
                       ref::vecStr(gv) + " wanted " + ref::vecStr(want[col]);
              });
              p.decRef(v);
            }
            c.state(ref::hashU(want));
            if (c.wantSample()) {
              c.sample(ref::qcStr(q));
            }
          }
        });
  };
  auto pairs = [](std::size_t n, bool all) {
    std::vector<std::pair<Permutation, Permutation>> l;
    const auto p = perms(n);
    for (std::size_t i = 0; i < p.size(); ++i) {
      for (std::size_t j = 0; j < p.size(); ++j) {
        if (all || i == j || i == 0 || j + 1 == p.size()) {
          l.emplace_back(p[i], p[j]);
        }
      }
    }
    return l;
  };
  const auto a2 = alphabet(false);
  const auto a3 = alphabet(true);
  const auto id2 = perms(2).front();
  const auto id3 = perms(3).front();
  circuits("circuits-2", 2, r.thorough ? 7 : 5, a2, {{id2, id2}});
  circuits("circuits-3", 3, r.thorough ? 5 : 4, a3, {{id3, id3}});
  circuits("layouts-2", 2, r.thorough ? 6 : 4, a2, pairs(2, true));
  circuits("layouts-3", 3, r.thorough ? 4 : 3, a3, pairs(3, true));

  // ---- many qubits ----------------------------------------------------------
  // up to `most` controls, from the lowest or highest qubit on, of one or both
  // polarities
  const auto manyControls = [](Qubit n, const std::vector<Qubit>& used) {
    std::vector<Controls> l{{}};
    for (std::size_t k = 1; k <= n - used.size(); ++k) {
      for (const int mode : {0, 1, 2, 3}) {
        Controls c;
        for (Qubit x = 0; x < n; ++x) {
          const Qubit q = mode % 2 == 0 ? x : n - 1 - x;
          if (c.size() < k && std::find(used.begin(), used.end(), q) == used.end()) {
            c.insert(Control{q, mode == 1 || (mode >= 2 && x % 2 == 1)
                                    ? Control::Type::Neg
                                    : Control::Type::Pos});
          }
        }
        l.push_back(c);
      }
    }
    return l;
  };
  {
    constexpr Qubit n = 9;
    static circ::Alphabet w;
    const std::vector<std::vector<Qubit>> sites{{0, 8}, {8, 0}, {4, 5},
                                                {7, 1}, {1, 6}, {3, 2}};
    for (const auto& s : sites) {
      for (const auto& ctl : manyControls(n, {s[0]})) {
        for (const auto t : circ::singleTypes()) {
          w.push_back(circ::std1(t, s[0], std::vector<double>(circ::nparams(t), 0.7), ctl));
        }
      }
      for (const auto& ctl : manyControls(n, s)) {
        for (const auto t : circ::doubleTypes()) {
          w.push_back(circ::std2(t, s[0], s[1], std::vector<double>(circ::nparams(t), 0.7), ctl));
        }
      }
    }
    constexpr std::uint64_t B = 16;
    r.space("wide-gates", (w.size() + B - 1) / B,
            "every gate with 0 to 8 controls (four patterns) at 6 places of 9 "
            "qubits, as an operation, in a circuit with rotated layouts, and on a "
            "generic state",
            [&](std::uint64_t i, mc::Ctx& c) {
              dd::Package p(n, ddh::smallConfig(256));
              const auto g = ref::genericState(n);
              auto in = p.makeStateFromVector(dd::CVec(g.begin(), g.end()));
              p.incRef(in);
              for (std::uint64_t k = i * B; k < std::min<std::uint64_t>(w.size(), (i + 1) * B); ++k) {
                c.trans();
                const auto& op = *w[k];
                auto want = g;
                ref::applyOp(want, op);
                const auto cmp = [&](const dd::vEdge& e, const ref::Vec& u, const char* key) {
                  c.checkf(ref::dist(ddh::toVec(e), u) < TOL, key,
                           [&] { return ref::opStr(op) + " on 9 qubits"; });
                };
                const auto m = dd::getDD(op, p);
                cmp(p.multiply(m, in), want, "wide:operation");
                cmp(p.multiply(dd::getInverseDD(op, p), p.multiply(m, in)), g,
                    "wide:inverse");
                QuantumComputation q(n, 0, 1);
                q.emplace_back(op.clone());
                for (Qubit x = 0; x < n; ++x) {
                  q.initialLayout[x] = static_cast<Qubit>((x + k) % n);
                  q.outputPermutation[x] = static_cast<Qubit>((x + 2 * k + 1) % n);
                }
                ref::Vec phys(g.size());
                for (std::size_t x = 0; x < phys.size(); ++x) {
                  phys[x] = g[ddh::permuteBits(x, q.initialLayout)];
                }
                ref::applyOp(phys, op);
                ref::Vec lay(g.size());
                for (std::size_t x = 0; x < phys.size(); ++x) {
                  lay[ddh::permuteBits(x, q.outputPermutation)] = phys[x];
                }
                const auto f = dd::buildFunctionality(q, p);
                cmp(p.multiply(f, in), lay, "wide:layout");
                p.decRef(f);
                p.incRef(in);
                const auto s = dd::simulate(q, in, p);
                cmp(s, lay, "wide:simulate");
                p.decRef(s);
                p.garbageCollect();
              }
              c.state(i);
            });
  }
  {
    constexpr Qubit n = 70;
    struct Case {
      OpType t;
      std::vector<Qubit> tg;
      Controls c;
    };
    static std::vector<Case> w;
    for (const auto& s : std::vector<std::vector<Qubit>>{{0, 69}, {69, 0}, {63, 64}, {33, 32}}) {
      for (const auto& ctl : manyControls(n, {s[0]})) {
        w.push_back({X, {s[0]}, ctl});
      }
      for (const auto& ctl : manyControls(n, s)) {
        w.push_back({SWAP, s, ctl});
      }
    }
    r.space("wide-reversible", w.size(),
            "X and SWAP with up to 69 controls on 70 qubits, on three basis states "
            "per gate (all controls met, the lowest missed, the highest missed), "
            "with rotated layouts",
            [&](std::uint64_t i, mc::Ctx& c) {
              const auto& k = w[i];
              dd::Package p(n, ddh::smallConfig(64));
              for (int mode = 0; mode < 3; ++mode) {
                std::vector<bool> in(n);
                for (Qubit x = 0; x < n; ++x) {
                  in[x] = (x * 7 + i) % 3 == 0;
                }
                for (const auto& ctl : k.c) {
                  in[ctl.qubit] = ctl.type == Control::Type::Pos;
                }
                if (mode != 0 && !k.c.empty()) {
                  const auto q = mode == 1 ? k.c.begin()->qubit : k.c.rbegin()->qubit;
                  in[q] = !in[q];
                }
                auto out = in;
                bool on = true;
                for (const auto& ctl : k.c) {
                  on = on && in[ctl.qubit] == (ctl.type == Control::Type::Pos);
                }
                if (on && k.t == X) {
                  out[k.tg[0]] = !out[k.tg[0]];
                } else if (on) {
                  std::vector<bool>::swap(out[k.tg[0]], out[k.tg[1]]);
                }
                // rotated layouts for the simulation, exchanged qubits for the
                // matrix (a rotation has an exponentially large diagram)
                for (const bool matrix : {false, true}) {
                QuantumComputation q(n, 0, 1);
                q.emplace_back<StandardOperation>(k.c, Targets(k.tg), k.t);
                std::vector<bool> lin(n);
                std::string path(n, '0');
                const auto lay = [&](Qubit x, std::uint64_t by) {
                  if (!matrix) {
                    return static_cast<Qubit>((x + by) % n);
                  }
                  const auto a = static_cast<Qubit>(by % n);
                  const auto b = (a + 2) % n;
                  return x == a ? b : x == b ? a : x;
                };
                for (Qubit x = 0; x < n; ++x) {
                  q.initialLayout[x] = lay(x, i);
                  q.outputPermutation[x] = lay(x, 3 * i);
                  lin[q.initialLayout[x]] = in[x];
                  path[q.outputPermutation[x]] = out[x] ? '1' : '0';
                }
                c.trans();
                const auto amp = [&](const dd::vEdge& e, const char* key) {
                  const auto a = e.getValueByPath(n, path);
                  c.checkf(std::abs(a - ref::C(1.)) < TOL, key, [&] {
                    return ref::qcStr(q) + " gives amplitude " + std::to_string(a.real());
                  });
                };
                if (!matrix) {
                  const auto s = dd::simulate(q, p.makeBasisState(n, lin), p);
                  amp(s, "wide:reversible-simulate");
                  p.decRef(s);
                  continue;
                }
                const auto f = dd::buildFunctionality(q, p);
                amp(p.multiply(f, p.makeBasisState(n, lin)), "wide:reversible-matrix");
                p.decRef(f);
                }
              }
              c.state(i);
            });
  }
  return r.finish();
}
