// P03: equality, hash, inverse and commutation queries are sound.
#include "circ.hpp"
#include "ir/operations/SymbolicOperation.hpp"

using namespace circ;
using qc::PI;

namespace {
using Den = std::vector<std::vector<ref::Branch>>; // per initial bits / valuation
const sym::Variable X("x");
const sym::Variable Y("y");
const std::vector<std::pair<double, double>> VALS{{0.3, -0.8}, {1.7, 0.45}};
constexpr std::size_t NB = 2; // classical bits

std::vector<ref::Branch> start(std::size_t n, ref::Bits b) {
  std::vector<ref::Branch> s(1);
  s[0].b = b;
  s[0].v.assign(1ULL << (2 * n), 0);
  for (std::size_t k = 0; k < (1ULL << n); ++k) {
    s[0].v[k | (k << n)] = 1;
  }
  return s;
}
void step(std::vector<ref::Branch>& br, const qc::Operation& op,
          const sym::VariableAssignment& as) {
  if (op.isCompoundOperation()) {
    for (const auto& o : dynamic_cast<const qc::CompoundOperation&>(op)) {
      step(br, *o, as);
    }
  } else if (const auto* s = dynamic_cast<const qc::SymbolicOperation*>(&op);
             s != nullptr) {
    ref::stepDyn(br, s->getInstantiatedOperation(as));
  } else {
    ref::stepDyn(br, op);
  }
}
Den denote(const std::vector<const qc::Operation*>& ops, std::size_t n) {
  Den d;
  for (const auto& [x, y] : VALS) {
    const sym::VariableAssignment as{{X, x}, {Y, y}};
    for (ref::Bits b = 0; b < (1U << NB); ++b) {
      auto br = start(n, b);
      for (const auto* op : ops) {
        step(br, *op, as);
      }
      d.push_back(std::move(br));
    }
  }
  return d;
}
std::vector<std::size_t> permIndex(std::size_t n,
                                   const std::vector<qc::Qubit>& p) {
  std::vector<std::size_t> r(1ULL << (2 * n));
  for (std::size_t i = 0; i < r.size(); ++i) {
    std::size_t o = 0;
    for (std::size_t q = 0; q < n; ++q) {
      o |= ((i >> q) & 1U) << p[q];
      o |= ((i >> (n + q)) & 1U) << (n + p[q]);
    }
    r[i] = o;
  }
  return r;
}
Den permute(const Den& d, const std::vector<std::size_t>& pi) {
  Den r = d;
  for (std::size_t k = 0; k < d.size(); ++k) {
    for (std::size_t b = 0; b < d[k].size(); ++b) {
      for (std::size_t i = 0; i < pi.size(); ++i) {
        r[k][b].v[pi[i]] = d[k][b].v[i];
      }
    }
  }
  return r;
}
bool same(const Den& a, const Den& b) {
  for (std::size_t k = 0; k < a.size(); ++k) {
    if (a[k].size() == 1 && b[k].size() == 1) {
      if (a[k][0].b != b[k][0].b || ref::dist(a[k][0].v, b[k][0].v) > 1e-9) {
        return false;
      }
    } else if (ref::distR(ref::densities(a[k]), ref::densities(b[k])) > 1e-9) {
      return false;
    }
  }
  return true;
}
bool isIdentity(const Den& a, std::size_t n) {
  for (std::size_t k = 0; k < a.size(); ++k) {
    const auto s = start(n, k % (1U << NB));
    if (a[k].size() != 1 || a[k][0].b != s[0].b ||
        ref::dist(a[k][0].v, s[0].v) > 1e-9) {
      return false;
    }
  }
  return true;
}
OpPtr symop(qc::Controls c, qc::Targets t, qc::OpType ty,
            std::vector<qc::SymbolOrNumber> p) {
  return std::make_unique<qc::SymbolicOperation>(c, t, ty, p);
}
std::vector<OpPtr> nonStd() {
  using Ctl = qc::Control;
  const auto Neg = Ctl::Type::Neg;
  std::vector<OpPtr> a;
  auto add = [&](OpPtr p) { a.push_back(std::move(p)); };
  add(barrier({0, 1, 2}));
  add(barrier({0}));
  add(barrier({1, 2}));
  add(meas({0}, {0}));
  add(meas({0}, {1}));
  add(meas({1}, {0}));
  add(meas({0, 1}, {0, 1}));
  add(meas({1, 0}, {1, 0}));
  add(meas({1, 0}, {0, 1}));
  add(meas({0, 1}, {1, 0}));
  add(meas({2}, {1}));
  add(reset({0}));
  add(reset({1}));
  add(reset({0, 1}));
  add(reset({1, 0}));
  add(reset({0, 1, 2}));
  const qc::ClassicalRegister r(0, 2, "r");
  for (const auto k : {qc::Eq, qc::Neq, qc::Lt, qc::Leq, qc::Gt, qc::Geq}) {
    for (const std::uint64_t v : {0U, 1U, 2U}) {
      add(ifReg(std1(qc::X, 0), r, v, k));
    }
  }
  add(ifReg(std1(qc::X, 0), qc::ClassicalRegister(1, 1, "q"), 1));
  for (const auto k : {qc::Eq, qc::Neq}) {
    for (const std::uint64_t v : {0U, 1U}) {
      for (const qc::Bit b : {0U, 1U}) {
        add(ifBit(std1(qc::X, 0), b, v, k));
      }
      add(ifBit(std1(qc::X, 1, {}, {Ctl{0}}), 0, v, k));
      add(ifBit(std1(qc::Z, 1, {}, {Ctl{0}}), 0, v, k));
      add(ifBit(std1(qc::Z, 0, {}, {Ctl{1}}), 0, v, k));
      add(ifBit(compound(std1(qc::X, 0), std1(qc::H, 1)), 0, v, k));
    }
  }
  add(ifBit(meas({1}, {1}), 0));
  add(ifBit(reset({1}), 0));
  add(ifBit(std1(qc::S, 0), 0));
  add(ifBit(std1(qc::Sdg, 0), 0));
  add(ifBit(std1(qc::RX, 0, {0.7}), 0));
  add(ifBit(std1(qc::RX, 0, {-0.7}), 0));
  // groups
  auto cx = [](qc::Qubit c, qc::Qubit t) {
    return std1(qc::X, t, {}, {Ctl{c}});
  };
  add(compound());
  add(compound(std1(qc::X, 0)));
  add(compound(std1(qc::X, 0), std1(qc::X, 1)));
  add(compound(std1(qc::X, 1), std1(qc::X, 0)));
  add(compound(std1(qc::H, 0), std1(qc::X, 0)));
  add(compound(std1(qc::X, 0), std1(qc::H, 0)));
  add(compound(std1(qc::H, 1), cx(0, 1), std1(qc::H, 1)));
  add(compound(std1(qc::S, 0), std1(qc::T, 0)));
  add(compound(std1(qc::Tdg, 0), std1(qc::Sdg, 0)));
  add(compound(std1(qc::S, 0), std1(qc::Tdg, 0)));
  add(compound(cx(0, 1), cx(1, 2)));
  add(compound(cx(1, 2), cx(0, 1)));
  add(compound(cx(0, 1), std1(qc::H, 2)));
  add(compound(std1(qc::H, 2), cx(0, 1)));
  add(compound(compound(std1(qc::X, 0)), std1(qc::H, 0)));
  add(compound(std1(qc::H, 0), compound(std1(qc::X, 0))));
  add(compound(compound(cx(0, 1), std1(qc::H, 2)), std1(qc::S, 0)));
  add(compound(std1(qc::Sdg, 0), compound(std1(qc::H, 2), cx(0, 1))));
  add(compound(meas({0}, {0}), std1(qc::X, 1)));
  add(compound(std1(qc::X, 1), meas({0}, {0})));
  add(compound(meas({0}, {0}), ifBit(std1(qc::X, 1), 0)));
  add(compound(ifBit(std1(qc::X, 1), 0), meas({0}, {0})));
  add(compound(meas({1}, {0}), ifBit(std1(qc::X, 0), 0)));
  add(compound(ifBit(std1(qc::X, 0), 0), meas({1}, {0})));
  add(compound(std1(qc::Z, 0), std1(qc::RZ, 0, {0.7})));
  add(compound(gphase(0.7), std1(qc::X, 0)));
  add(compound(gphase(-0.7), std1(qc::X, 0)));
  add(compound(barrier({0, 1}), std1(qc::X, 0)));
  add(compound(std1(qc::X, 0), barrier({0, 1})));
  add(compound(std1(qc::RX, 0, {0.4}), std1(qc::RX, 1, {0.9})));
  add(compound(std1(qc::RX, 1, {-0.9}), std1(qc::RX, 0, {-0.4})));
  add(compound(std1(qc::RX, 0, {-0.4}), std1(qc::RX, 1, {-0.9})));
  add(compound(std1(qc::RX, 0, {-0.9}), std1(qc::RX, 1, {-0.4})));
  {
    auto c = compound(std1(qc::X, 0), std1(qc::H, 1));
    c->addControl(Ctl{2});
    add(std::move(c));
  }
  add(compound(std1(qc::X, 0, {}, {Ctl{2}}), std1(qc::H, 1, {}, {Ctl{2}})));
  add(compound(std1(qc::X, 0, {}, {Ctl{2, Neg}}),
               std1(qc::H, 1, {}, {Ctl{2, Neg}})));
  // symbolic
  using E = sym::Expression<double, double>;
  const E x(sym::Term<double>(X, 1.));
  const E y(sym::Term<double>(Y, 1.));
  const E x2(sym::Term<double>(X, 2.));
  const E x1 = x + 1.;
  const E y1 = y + 1.;
  const E mx = x * -1.;
  for (const auto& e : {x, y, x2, x1, y1, mx}) {
    add(symop({}, {0}, qc::RX, {e}));
    add(symop({}, {1}, qc::RX, {e}));
    add(symop({}, {0}, qc::RZ, {e}));
    add(symop({Ctl{0}}, {1}, qc::RX, {e}));
    add(symop({Ctl{0, Neg}}, {1}, qc::RX, {e}));
    add(symop({Ctl{0}}, {1}, qc::P, {e}));
    add(symop({Ctl{1}}, {0}, qc::P, {e}));
    add(symop({}, {0, 1}, qc::RZX, {e}));
    add(symop({}, {1, 0}, qc::RZX, {e}));
    add(symop({}, {0}, qc::U, {e, 0.4, 0.9}));
    add(symop({}, {0}, qc::U, {e, 0.9, 0.4}));
    add(symop({}, {0}, qc::U, {0.4, e, 0.9}));
    add(symop({}, {0}, qc::U, {e, y, 0.9}));
    add(symop({}, {0}, qc::U, {e, x, 0.9}));
    add(symop({}, {0}, qc::U2, {e, 0.9}));
    add(symop({}, {0}, qc::U2, {e, y}));
    add(symop({}, {0, 1}, qc::XXplusYY, {e, 0.9}));
    add(symop({}, {0, 1}, qc::XXplusYY, {e, y}));
    add(symop({}, {0, 1}, qc::XXminusYY, {0.9, e}));
    add(compound(symop({}, {0}, qc::RX, {e}), std1(qc::H, 0)));
    add(ifBit(symop({}, {0}, qc::RX, {0.5}), 0));
  }
  add(symop({}, {0}, qc::RX, {0.0}));
  add(symop({}, {0}, qc::RX, {0.7}));
  add(symop({Ctl{0}}, {1}, qc::P, {0.7}));
  return a;
}
std::vector<OpPtr> stdPool(std::size_t maxC, const std::vector<double>& g,
                           const std::vector<qc::OpType>& s,
                           const std::vector<qc::OpType>& d) {
  std::vector<OpPtr> r;
  const qc::Qubit n = 3;
  auto add = [&](qc::OpType t, const qc::Targets& tg) {
    for (const auto& c : allControls(n, tg, maxC)) {
      for (const auto& p : paramGrid(nparams(t), g)) {
        r.push_back(std::make_unique<qc::StandardOperation>(c, tg, t, p));
      }
    }
  };
  for (const auto t : s) {
    for (qc::Qubit q = 0; q < n; ++q) {
      add(t, {q});
    }
  }
  for (const auto t : d) {
    for (qc::Qubit a = 0; a < n; ++a) {
      for (qc::Qubit b = 0; b < n; ++b) {
        if (a != b) {
          add(t, {a, b});
        }
      }
    }
  }
  add(qc::GPhase, {});
  return r;
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "P03");
  const bool T = R.thorough;
  const std::hash<qc::Operation> H;

  // ---- pairs of standard operations ---------------------------------------
  {
    auto pool = stdPool(
        2, T ? std::vector<double>{0.7, -0.7, 1.9, 0.2, PI} : std::vector<double>{0.7, -0.7, 1.9},
        singleTypes(), doubleTypes());
    const std::size_t N = pool.size();
    std::vector<std::vector<ref::Vec>> U(N);
    std::vector<std::size_t> h(N);
    for (std::size_t i = 0; i < N; ++i) {
      U[i] = ref::unitaryOp(*pool[i], 3);
      h[i] = H(*pool[i]);
    }
    R.space(
        "std-pairs", N,
        "all ordered pairs of the " + std::to_string(N) +
            " standard operations on 3 qubits with <= 2 signed controls",
        [&](std::uint64_t i, mc::Ctx& c) {
          const auto& a = *pool[i];
          const auto ia = a.getInverted();
          c.state(ref::hashU(U[i]));
          const auto usedA = a.getUsedQubits();
          for (std::size_t j = 0; j < N; ++j) {
            const auto& b = *pool[j];
            auto d = [&] { return ref::opStr(a) + "  vs  " + ref::opStr(b); };
            const bool eq = a == b;
            c.trans();
            c.checkf(eq == (b == a), "eq-symmetric", d);
            if (i == j) {
              c.checkf(eq, "eq-reflexive", d);
            }
            if (eq) {
              c.checkf(ref::dist(U[i], U[j]) < 1e-9, "eq-different-action", d);
              c.checkf(h[i] == h[j], "eq-different-hash", d);
            }
            if (a.isInverseOf(b)) {
              c.checkf(ref::dist(U[i], ref::adj(U[j])) < 1e-9,
                       "isInverseOf-wrong", d);
            }
            bool all = true;
            bool any = false;
            for (const auto q : usedA) {
              if (b.actsOn(q)) {
                any = true;
                const bool x = a.commutesAtQubit(b, q);
                all = all && x;
              } else {
                c.checkf(a.commutesAtQubit(b, q), "commute-unshared", d);
              }
            }
            if (any && all) {
              auto ab = U[i];
              auto ba = U[j];
              for (auto& v : ab) {
                ref::applyOp(v, b);
              }
              for (auto& v : ba) {
                ref::applyOp(v, a);
              }
              c.checkf(ref::dist(ab, ba) < 1e-9, "commutes-wrong", d);
            }
          }
        });
  }

  // ---- pairs over everything else (with a small standard pool) ------------
  const auto small = [&] {
    auto p = nonStd();
    auto s = stdPool(
        1, {0.7, -0.7},
        T ? std::vector<qc::OpType>{qc::X, qc::H, qc::Z, qc::S, qc::P, qc::RX,
                                    qc::RZ, qc::I, qc::T, qc::Sdg, qc::RY}
          : std::vector<qc::OpType>{qc::X, qc::H, qc::Z, qc::RX, qc::RZ},
        T ? std::vector<qc::OpType>{qc::SWAP, qc::DCX, qc::RZZ, qc::iSWAP}
          : std::vector<qc::OpType>{qc::SWAP, qc::RZZ});
    for (auto& o : s) {
      p.push_back(std::move(o));
    }
    return p;
  };
  {
    const auto pool = small();
    const auto N = pool.size();
    std::vector<Den> D(N);
    for (std::size_t i = 0; i < N; ++i) {
      D[i] = denote({pool[i].get()}, 3);
    }
    R.space(
        "pairs", N,
        "all ordered pairs of " + std::to_string(N) +
            " measurements, resets, barriers, conditionals, groups, symbolic "
            "and standard operations",
        [&](std::uint64_t i, mc::Ctx& c) {
          const auto& a = *pool[i];
          c.state(ref::hashBr(D[i][1]));
          for (std::size_t j = 0; j < N; ++j) {
            const auto& b = *pool[j];
            auto d = [&] { return ref::opStr(a) + "  vs  " + ref::opStr(b); };
            c.trans();
            const bool eq = a == b;
            c.checkf(eq == (b == a), "eq-symmetric", d);
            c.checkf((a != b) == !eq, "neq", d);
            if (i == j) {
              c.checkf(eq, "eq-reflexive", d);
            }
            if (eq) {
              c.checkf(same(D[i], D[j]), "eq-different-action", d);
              c.checkf(H(a) == H(b), "eq-different-hash", d);
            }
            bool inv = false;
            try {
              inv = a.isInverseOf(b);
            } catch (const std::exception&) {
              // no inverse: refused
            }
            if (inv) {
              c.checkf(isIdentity(denote({&a, &b}, 3), 3), "isInverseOf-wrong",
                       d);
              c.checkf(isIdentity(denote({&b, &a}, 3), 3), "isInverseOf-wrong",
                       d);
            }
            bool all = true;
            bool any = false;
            for (const auto q : a.getUsedQubits()) {
              if (b.actsOn(q)) {
                any = true;
                const bool x = a.commutesAtQubit(b, q);
                all = all && x;
              }
            }
            if (any && all) {
              c.checkf(same(denote({&a, &b}, 3), denote({&b, &a}, 3)),
                       "commutes-wrong", d);
            }
          }
        });
  }

  // ---- equality under qubit relabelling ------------------------------------
  {
    auto pool = nonStd();
    auto s = stdPool(1, {0.7},
                     {qc::X, qc::Z, qc::P, qc::RZ, qc::I},
                     {qc::SWAP, qc::DCX, qc::RZZ, qc::RZX});
    for (auto& o : s) {
      pool.push_back(std::move(o));
    }
    std::vector<std::vector<qc::Qubit>> ps{{0, 1, 2}, {1, 0, 2}, {2, 0, 1},
                                           {0, 2, 1}, {1, 2, 0}, {2, 1, 0}};
    const std::size_t P2 = 6;
    std::vector<qc::Permutation> pm;
    std::vector<std::vector<std::size_t>> pi;
    for (const auto& p : ps) {
      pm.push_back(qc::Permutation({{0, p[0]}, {1, p[1]}, {2, p[2]}}));
      pi.push_back(permIndex(3, p));
    }
    const auto N = pool.size();
    std::vector<Den> D(N);
    for (std::size_t i = 0; i < N; ++i) {
      D[i] = denote({pool[i].get()}, 3);
    }
    R.space("relabel", N * 6,
            "all pairs of " + std::to_string(N) +
                " operations under 6 x " + std::to_string(P2) +
                " qubit relabellings",
            [&](std::uint64_t k, mc::Ctx& c) {
              const auto i = k / 6;
              const auto p = k % 6;
              const auto& a = *pool[i];
              const auto Da = permute(D[i], pi[p]);
              auto ad = [&] {
                return ref::opStr(a) + " under " + ref::permStr(pm[p]);
              };
              // applying a relabelling to an operation does exactly that
              auto cl = a.clone();
              cl->apply(pm[p]);
              c.checkf(same(denote({cl.get()}, 3), Da), "apply-permutation",
                       [&] { return ad() + " gives " + ref::opStr(*cl); });
              c.checkf(a.equals(a, pm[p], pm[p]), "equals-self-relabelled", ad);
              c.checkf(a.equals(*cl, pm[p], {}) == a.equals(*cl, pm[p], pm[0]),
                       "equals-empty-permutation", ad);
              c.checkf(a.equals(*cl, pm[p], {}), "equals-applied",
                       [&] { return ad() + " gives " + ref::opStr(*cl); });
              for (std::size_t j = 0; j < N; ++j) {
                for (std::size_t q = 0; q < P2; ++q) {
                  const bool e = a.equals(*pool[j], pm[p], pm[q]);
                  c.trans();
                  auto d = [&] {
                    return ad() + "  vs  " + ref::opStr(*pool[j]) + " under " +
                           ref::permStr(pm[q]);
                  };
                  if (j >= i) {
                    c.checkf(e == pool[j]->equals(a, pm[q], pm[p]),
                             "equals-symmetric", d);
                  }
                  if (e) {
                    c.checkf(same(Da, permute(D[j], pi[q])),
                             "equals-different-action", d);
                  }
                }
              }
            });
  }

  // ---- copies --------------------------------------------------------------
  {
    auto pool = small();
    R.space(
        "copies", pool.size(),
        "copying every operation of the pool and editing the copy",
        [&](std::uint64_t i, mc::Ctx& c) {
          const auto& a = *pool[i];
          const auto d = ref::opStr(a);
          const auto D = denote({&a}, 3);
          const auto h = H(a);
          auto whole = [&](const qc::Operation& o, const char* key) {
            c.check(o == a && a == o, key, d + " copy " + ref::opStr(o));
            c.check(same(denote({&o}, 3), D), key, d + " (action)");
            c.check(H(o) == h, key, d + " (hash)");
            c.check(o.getName() == a.getName(), key, d + " (name)");
          };
          auto k = a.clone();
          whole(*k, "clone");
          auto k2 = k->clone();
          whole(*k2, "clone-of-clone");
          if (const auto* s = dynamic_cast<const qc::ClassicControlledOperation*>(
                  &a)) {
            qc::ClassicControlledOperation x(*s);
            whole(x, "copy-construct");
            qc::ClassicControlledOperation y(std1(qc::H, 2), 1);
            y = *s;
            whole(y, "copy-assign");
          }
          if (const auto* s = dynamic_cast<const qc::CompoundOperation*>(&a)) {
            qc::CompoundOperation x(*s);
            whole(x, "copy-construct");
            qc::CompoundOperation y;
            y.emplace_back(std1(qc::H, 2));
            y = *s;
            whole(y, "copy-assign");
          }
          // edits of the copies leave the original alone
          const qc::Permutation p({{0, 2}, {1, 0}, {2, 1}});
          auto tryEdit = [&](const std::function<void(qc::Operation&)>& f) {
            auto e = a.clone();
            try {
              f(*e);
            } catch (const std::exception&) {
            }
            c.trans();
            c.check(same(denote({&a}, 3), D) && H(a) == h, "copy-shares-state",
                    d);
          };
          tryEdit([](qc::Operation& o) { o.invert(); });
          tryEdit([&](qc::Operation& o) { o.apply(p); });
          tryEdit([](qc::Operation& o) { o.addControl(qc::Control{2}); });
          tryEdit([](qc::Operation& o) { o.clearControls(); });
          tryEdit([](qc::Operation& o) { o.setTargets({2}); });
          tryEdit([](qc::Operation& o) {
            if (auto* cc = dynamic_cast<qc::CompoundOperation*>(&o)) {
              cc->emplace_back(std1(qc::H, 1));
            }
          });
          tryEdit([](qc::Operation& o) {
            if (auto* cc = dynamic_cast<qc::ClassicControlledOperation*>(&o)) {
              cc->getOperation()->invert();
            }
          });
        });
  }
  return R.finish();
}
