// P07: qubit, register and layout bookkeeping over edit histories.
#include "circ.hpp"
#include "mc.hpp"
#include "ref.hpp"

#include "ir/QuantumComputation.hpp"

namespace {
using qc::QuantumComputation;
using qc::Qubit;
template <class F> bool throws(F&& f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
struct Phys {
  Qubit logical;
  std::optional<Qubit> out;
  bool used = false; // an operation acts on it
};
struct Model {
  std::map<Qubit, Phys> p;
  std::set<Qubit> anc, garb; // logical
  std::set<std::string> qregNames, aregNames;
  bool namesKnown = true;
  bool flagsKnown = true;
  bool dense() const {
    std::set<Qubit> l;
    for (const auto& [k, v] : p) {
      l.insert(v.logical);
    }
    return l.size() == p.size() && (l.empty() || *l.rbegin() + 1 == l.size());
  }
  bool pdense() const {
    return p.empty() || p.rbegin()->first + 1 == p.size();
  }
  Qubit nextP() const { return p.empty() ? 0 : p.rbegin()->first + 1; }
  std::optional<Qubit> gapP() const {
    for (Qubit i = 0; i < nextP(); ++i) {
      if (p.count(i) == 0) {
        return i;
      }
    }
    return std::nullopt;
  }
  std::optional<Qubit> gapL() const {
    std::set<Qubit> l;
    for (const auto& [k, v] : p) {
      l.insert(v.logical);
    }
    for (Qubit i = 0; !l.empty() && i <= *l.rbegin(); ++i) {
      if (l.count(i) == 0) {
        return i;
      }
    }
    return std::nullopt;
  }
  bool hasL(Qubit l) const {
    for (const auto& [k, v] : p) {
      if (v.logical == l) {
        return true;
      }
    }
    return false;
  }
  Qubit physOf(Qubit l) const {
    for (const auto& [k, v] : p) {
      if (v.logical == l) {
        return k;
      }
    }
    return 999;
  }
  void markGarbage(Qubit l) {
    garb.insert(l);
    for (auto& [k, v] : p) {
      if (v.out == l) {
        v.out.reset();
      }
    }
  }
  void eraseFlags(Qubit l) {
    auto sh = [&](std::set<Qubit>& s) {
      std::set<Qubit> n;
      for (const auto x : s) {
        if (x != l) {
          n.insert(x > l ? x - 1 : x);
        }
      }
      s = n;
    };
    sh(anc);
    sh(garb);
  }
  void strip(bool force) {
    for (Qubit q = nextP(); q-- > 0;) {
      const auto it = p.find(q);
      if (it == p.end() || it->second.used) {
        continue;
      }
      const auto l = it->second.logical;
      bool inOut = it->second.out.has_value();
      for (const auto& [k, v] : p) {
        inOut = inOut || v.out == l;
      }
      if (inOut && !force) {
        continue;
      }
      p.erase(it);
      eraseFlags(l);
      for (auto& [k, v] : p) {
        if (v.logical > l) {
          --v.logical;
        }
        if (v.out.has_value() && *v.out > l) {
          --*v.out;
        }
      }
    }
  }
  std::string str() const {
    std::stringstream ss;
    for (const auto& [k, v] : p) {
      ss << k << ":" << v.logical << "/"
         << (v.out.has_value() ? std::to_string(*v.out) : "-")
         << (v.used ? "u" : "") << " ";
    }
    ss << "anc{";
    for (const auto a : anc) {
      ss << a << " ";
    }
    ss << "} garbage{";
    for (const auto a : garb) {
      ss << a << " ";
    }
    ss << "}";
    return ss.str();
  }
};
struct State {
  QuantumComputation q;
  Model m;
};
// result: 0 applied, 1 not applicable here
struct Action {
  std::string name;
  std::function<int(State&, mc::Ctx&, const std::function<std::string()>&)> f;
};

std::vector<Action> actions() {
  std::vector<Action> a;
  using H = const std::function<std::string()>&;
  for (const bool anc : {false, true}) {
    for (const std::size_t n : {1U, 2U}) {
      const std::string nm = anc ? (n == 1 ? "a" : "b") : (n == 1 ? "r" : "s");
      a.push_back(
          {std::string(anc ? "addAncillaryRegister(" : "addQubitRegister(") +
               std::to_string(n) + "," + nm + ")",
           [anc, n, nm](State& s, mc::Ctx& c, H h) {
             if (!s.m.dense() || !s.m.pdense()) {
               return 1; // only without gaps
             }
             const auto& regs = anc ? s.q.getAncillaRegisters()
                                    : s.q.getQuantumRegisters();
             const bool want =
                 regs.count(nm) == 0 && (anc || s.m.anc.empty());
             const bool t = throws([&] {
               if (anc) {
                 const auto& r = s.q.addAncillaryRegister(n, nm);
                 c.checkf(r.getSize() == n && r.getName() == nm &&
                              r.getStartIndex() == s.m.nextP(),
                          "bk:returned-register", h);
               } else {
                 const auto& r = s.q.addQubitRegister(n, nm);
                 c.checkf(r.getSize() == n && r.getName() == nm &&
                              r.getStartIndex() == s.m.nextP(),
                          "bk:returned-register", h);
               }
             });
             c.checkf(t != want, "bk:register-accept", h);
             if (!t) {
               for (std::size_t i = 0; i < n; ++i) {
                 const auto x = s.m.nextP();
                 s.m.p[x] = {x, x, false};
                 if (anc) {
                   s.m.anc.insert(x);
                 }
               }
             }
             return 0;
           }});
    }
  }
  for (Qubit l = 0; l < 4; ++l) {
    a.push_back({"removeQubit(" + std::to_string(l) + ")",
                 [l](State& s, mc::Ctx& c, H h) {
                   const bool want = s.m.hasL(l);
                   // operations must not act on the removed qubit
                   if (want && s.m.p.at(s.m.physOf(l)).used) {
                     return 1;
                   }
                   if (want && !s.m.dense()) {
                     return 1;
                   }
                   std::pair<Qubit, std::optional<Qubit>> r;
                   const bool t = throws([&] { r = s.q.removeQubit(l); });
                   c.checkf(t != want, "bk:remove-accept", h);
                   if (!want || t) {
                     return 0;
                   }
                   const auto ph = s.m.physOf(l);
                   c.checkf(r.first == ph && r.second == s.m.p[ph].out,
                            "bk:remove-result", h);
                   if (l + 1 != s.m.p.size()) {
                     s.m.flagsKnown = false;
                   }
                   s.m.p.erase(ph);
                   s.m.anc.erase(l);
                   s.m.garb.erase(l);
                   return 0;
                 }});
  }
  for (const bool out : {true, false}) {
    a.push_back(
        {std::string("re-add removed qubit") + (out ? "" : " without output"),
         [out](State& s, mc::Ctx& c, H h) {
           const auto gl = s.m.gapL();
           const auto gp = s.m.gapP();
           if (!gl.has_value() || !gp.has_value()) {
             return 1;
           }
           std::optional<Qubit> o;
           if (out) {
             o = *gl;
             for (const auto& [k, v] : s.m.p) {
               if (v.out == o) {
                 return 1;
               }
             }
           }
           const auto n = s.m.p.size() - s.m.anc.size();
           const bool want = *gl <= n;
           const bool t = throws([&] { s.q.addQubit(*gl, *gp, o); });
           c.checkf(t != want, "bk:readd-accept", h);
           if (!t) {
             s.m.p[*gp] = {*gl, o, false};
             if (s.m.dense()) {
               s.m.flagsKnown = true;
             }
           }
           return 0;
         }});
    a.push_back({std::string("addQubit at end") + (out ? "" : " without output"),
                 [out](State& s, mc::Ctx& c, H h) {
                   if (!s.m.dense()) {
                     return 1;
                   }
                   const auto l = static_cast<Qubit>(s.m.p.size());
                   const auto ph = s.m.nextP();
                   std::optional<Qubit> o;
                   if (out) {
                     o = l;
                   }
                   // refused while ancillae exist
                   const bool want = s.m.anc.empty();
                   const bool t = throws([&] { s.q.addQubit(l, ph, o); });
                   c.checkf(t != want, "bk:add-accept", h);
                   if (!t) {
                     s.m.p[ph] = {l, o, false};
                   }
                   return 0;
                 }});
    a.push_back(
        {std::string("addAncillaryQubit") + (out ? "" : " without output"),
         [out](State& s, mc::Ctx& c, H h) {
           if (!s.m.dense()) {
             return 1;
           }
           const auto l = static_cast<Qubit>(s.m.p.size());
           const auto g = s.m.gapP();
           const auto ph = g.has_value() ? *g : s.m.nextP();
           std::optional<Qubit> o;
           if (out) {
             o = l;
           }
           const bool t = throws([&] { s.q.addAncillaryQubit(ph, o); });
           c.checkf(!t, "bk:anc-accept", h);
           if (!t) {
             s.m.p[ph] = {l, o, false};
             s.m.anc.insert(l);
             if (!out) {
               s.m.garb.insert(l);
             }
           }
           return 0;
         }});
  }
  a.push_back({"addQubit with a used logical or physical index",
               [](State& s, mc::Ctx& c, H h) {
                 if (s.m.p.empty()) {
                   return 1;
                 }
                 const auto f = *s.m.p.begin();
                 c.checkf(throws([&] {
                            s.q.addQubit(f.second.logical, s.m.nextP(),
                                         std::nullopt);
                          }),
                          "bk:add-duplicate", h);
                 c.checkf(throws([&] {
                            s.q.addQubit(0, f.first, std::nullopt);
                          }),
                          "bk:add-duplicate", h);
                 c.checkf(throws([&] {
                            s.q.addAncillaryQubit(f.first, std::nullopt);
                          }),
                          "bk:add-duplicate", h);
                 return 0;
               }});
  for (Qubit l = 0; l < 3; ++l) {
    a.push_back({"setLogicalQubitAncillary(" + std::to_string(l) + ")",
                 [l](State& s, mc::Ctx&, H) {
                   if (!s.m.dense() || !s.m.hasL(l)) {
                     return 1;
                   }
                   s.q.setLogicalQubitAncillary(l);
                   s.m.anc.insert(l);
                   return 0;
                 }});
    a.push_back({"setLogicalQubitGarbage(" + std::to_string(l) + ")",
                 [l](State& s, mc::Ctx&, H) {
                   if (!s.m.dense() || !s.m.hasL(l)) {
                     return 1;
                   }
                   s.q.setLogicalQubitGarbage(l);
                   s.m.markGarbage(l);
                   return 0;
                 }});
  }
  a.push_back({"setLogicalQubitsAncillary(1,2)", [](State& s, mc::Ctx&, H) {
                 if (!s.m.dense() || s.m.p.size() < 3) {
                   return 1;
                 }
                 s.q.setLogicalQubitsAncillary(1, 2);
                 s.m.anc.insert({1, 2});
                 return 0;
               }});
  a.push_back({"setLogicalQubitsGarbage(0,1)", [](State& s, mc::Ctx&, H) {
                 if (!s.m.dense() || s.m.p.size() < 2) {
                   return 1;
                 }
                 s.q.setLogicalQubitsGarbage(0, 1);
                 s.m.markGarbage(0);
                 s.m.markGarbage(1);
                 return 0;
               }});
  for (const int which : {0, 1}) {
    a.push_back({which == 0 ? "h(first)" : "h(last)",
                 [which](State& s, mc::Ctx& c, H h) {
                   if (s.m.p.empty()) {
                     return 1;
                   }
                   auto& e =
                       which == 0 ? *s.m.p.begin() : *s.m.p.rbegin();
                   if (!s.m.flagsKnown) {
                     return 1;
                   }
                   c.checkf(!throws([&] { s.q.h(e.first); }), "bk:gate-accept",
                            h);
                   e.second.used = true;
                   return 0;
                 }});
  }
  for (const bool force : {false, true}) {
    a.push_back({std::string("stripIdleQubits(") + (force ? "true)" : "false)"),
                 [force](State& s, mc::Ctx& c, H h) {
                   if (!s.m.dense()) {
                     return 1;
                   }
                   c.checkf(!throws([&] { s.q.stripIdleQubits(force); }),
                            "bk:strip-accept", h);
                   s.m.strip(force);
                   return 0;
                 }});
  }
  a.push_back({"unifyQuantumRegisters", [](State& s, mc::Ctx& c, H h) {
                 if (!s.m.dense() || !s.m.pdense() || s.m.p.empty()) {
                   return 1;
                 }
                 const auto& r = s.q.unifyQuantumRegisters("q");
                 c.checkf(r.getSize() == s.m.p.size() && r.getStartIndex() == 0,
                          "bk:unify-result", h);
                 s.m.anc.clear();
                 return 0;
               }});
  a.push_back({"reset()", [](State& s, mc::Ctx&, H) {
                 s.q.reset();
                 s.m = Model{};
                 return 0;
               }});
  a.push_back({"copy", [](State& s, mc::Ctx&, H) {
                 QuantumComputation o(s.q);
                 s.q = o;
                 return 0;
               }});
  return a;
}

void verify(mc::Ctx& c, State& s, const std::function<std::string()>& hist) {
  const auto& q = s.q;
  const auto& m = s.m;
  auto msg = [&](const char* w) {
    return [&, w] {
      std::stringstream ss;
      ss << w << " after " << hist() << " | model " << m.str() << " | circuit "
         << ref::qcStr(q) << " nq=" << q.getNqubitsWithoutAncillae()
         << " na=" << q.getNancillae() << " regs ";
      for (const auto& [n, r] : q.getQuantumRegisters()) {
        ss << n << "[" << r.getStartIndex() << "+" << r.getSize() << "] ";
      }
      ss << "ancregs ";
      for (const auto& [n, r] : q.getAncillaRegisters()) {
        ss << n << "[" << r.getStartIndex() << "+" << r.getSize() << "] ";
      }
      return ss.str();
    };
  };
  c.checkf(q.getNqubits() == m.p.size(), "bk:nqubits", msg("qubit count"));
  c.checkf(q.getNancillae() == m.anc.size() &&
               q.getNqubitsWithoutAncillae() == m.p.size() - m.anc.size(),
           "bk:nancillae", msg("ancilla count"));
  qc::Permutation il;
  qc::Permutation op;
  for (const auto& [k, v] : m.p) {
    il[k] = v.logical;
    if (v.out.has_value()) {
      op[k] = *v.out;
    }
  }
  c.checkf(q.initialLayout == il, "bk:layout", msg("initial layout"));
  c.checkf(q.outputPermutation == op, "bk:output", msg("output permutation"));
  // registers partition the physical qubits
  std::multiset<Qubit> inReg;
  bool names = true;
  for (const auto* regs : {&q.getQuantumRegisters(), &q.getAncillaRegisters()}) {
    for (const auto& [n, r] : *regs) {
      names = names && r.getName() == n && r.getSize() > 0;
      for (std::size_t i = 0; i < r.getSize(); ++i) {
        inReg.insert(r.getStartIndex() + static_cast<Qubit>(i));
      }
    }
  }
  std::multiset<Qubit> want;
  for (const auto& [k, v] : m.p) {
    want.insert(k);
  }
  c.checkf(inReg == want && names, "bk:registers",
           msg("registers do not partition the qubits"));
  auto& mq = s.q;
  for (const auto& [k, v] : m.p) {
    bool ok = false;
    try {
      ok = mq.getQubitRegister(k).contains(k);
    } catch (const std::exception&) {
    }
    c.checkf(ok, "bk:get-register", msg("getQubitRegister"));
    c.checkf(q.getPhysicalQubitIndex(v.logical) == k, "bk:physical",
             msg("getPhysicalQubitIndex"));
    const auto cl = q.containsLogicalQubit(v.logical);
    c.checkf(cl.first && cl.second == k, "bk:contains",
             msg("containsLogicalQubit"));
  }
  if (m.dense()) {
    const auto n = static_cast<Qubit>(m.p.size());
    c.checkf(!q.containsLogicalQubit(n).first, "bk:contains",
             msg("containsLogicalQubit of a missing qubit"));
    c.checkf(throws([&] { (void)q.getPhysicalQubitIndex(n); }), "bk:physical",
             msg("getPhysicalQubitIndex of a missing qubit"));
  }
  if (!m.p.empty()) {
    Qubit hl = 0;
    for (const auto& [k, v] : m.p) {
      hl = std::max(hl, v.logical);
    }
    c.checkf(q.getHighestPhysicalQubitIndex() == m.p.rbegin()->first &&
                 q.getHighestLogicalQubitIndex() == hl,
             "bk:highest", msg("highest index"));
  }
  if (m.flagsKnown && m.dense()) {
    bool fl = q.getAncillary().size() >= m.p.size() &&
              q.getGarbage().size() >= m.p.size();
    for (std::size_t i = 0; fl && i < q.getAncillary().size(); ++i) {
      fl = q.getAncillary()[i] == (m.anc.count(static_cast<Qubit>(i)) != 0);
    }
    for (std::size_t i = 0; fl && i < q.getGarbage().size(); ++i) {
      fl = q.getGarbage()[i] == (m.garb.count(static_cast<Qubit>(i)) != 0);
    }
    for (const auto& [k, v] : m.p) {
      fl = fl &&
           q.logicalQubitIsAncillary(v.logical) ==
               (m.anc.count(v.logical) != 0) &&
           q.logicalQubitIsGarbage(v.logical) == (m.garb.count(v.logical) != 0);
    }
    c.checkf(fl, "bk:flags", msg("ancillary/garbage flags"));
    c.checkf(q.getNgarbageQubits() == m.garb.size() &&
                 q.getNmeasuredQubits() == m.p.size() - m.garb.size(),
             "bk:garbage-count", msg("garbage count"));
    // exactly the existing qubits can be used
    auto t = q;
    for (Qubit k = 0; k <= m.nextP(); ++k) {
      const bool ok = !throws([&] { t.x(k); });
      c.checkf(ok == (m.p.count(k) != 0), "bk:usable",
               msg("gate on a qubit accepted/refused wrongly"));
      c.checkf(q.isIdleQubit(k) == (m.p.count(k) == 0 || !m.p.at(k).used),
               "bk:idle", msg("isIdleQubit"));
    }
    // operations on all qubits use exactly the existing ones
    auto b = q;
    b.barrier();
    const auto& tg = b.back()->getTargets();
    c.checkf(std::multiset<Qubit>(tg.begin(), tg.end()) == want,
             "bk:barrier-all", msg("barrier() does not cover the qubits"));
    if (!m.p.empty()) {
      auto ma = q;
      ma.measureAll();
      std::multiset<Qubit> mq2;
      std::set<qc::Bit> mb;
      for (const auto& o : ma) {
        if (o->getType() == qc::Measure) {
          const auto& mo = dynamic_cast<const qc::NonUnitaryOperation&>(*o);
          mq2.insert(mo.getTargets().begin(), mo.getTargets().end());
          mb.insert(mo.getClassics().begin(), mo.getClassics().end());
        }
      }
      c.checkf(mq2 == want && mb.size() == want.size(), "bk:measure-all",
               msg("measureAll() does not cover the qubits"));
    }
  }
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P07");
  r.assume("registers are added only while the qubit indices have no gaps; a "
           "qubit removed from the middle leaves a gap (pinned by the tests) "
           "that is checked for counts, registers and layouts, not for flags, "
           "until it is filled again");
  const auto acts = actions();
  {
    // start circuits
    const std::size_t nStart = 4;
    const std::size_t L = r.thorough ? 5 : 4;
    const auto per = mc::seqCount(acts.size(), L, 1);
    r.space(
        "histories", nStart * per,
        "4 start circuits (empty, 3 qubits, 2+2 qubits, 2 qubits + 1 ancilla) "
        "x all sequences of 1.." +
            std::to_string(L) + " of " + std::to_string(acts.size()) +
            " bookkeeping calls, all queries compared with the model",
        [&](std::uint64_t i, mc::Ctx& c) {
          const auto seq = mc::seqAt(i % per, acts.size(), 1);
          State s{QuantumComputation(0, 0, 1), {}};
          auto addM = [&](std::size_t n, bool anc) {
            for (std::size_t k = 0; k < n; ++k) {
              const auto x = s.m.nextP();
              s.m.p[x] = {x, x, false};
              if (anc) {
                s.m.anc.insert(x);
              }
            }
          };
          switch (i / per) {
          case 0:
            break;
          case 1:
            s.q.addQubitRegister(3);
            addM(3, false);
            break;
          case 2:
            s.q.addQubitRegister(2, "x");
            s.q.addQubitRegister(2, "y");
            addM(4, false);
            break;
          default:
            s.q.addQubitRegister(2);
            s.q.addAncillaryRegister(1);
            addM(2, false);
            addM(1, true);
            break;
          }
          auto hist = [&] {
            std::string h = "start " + std::to_string(i / per) + ": ";
            for (const auto k : seq) {
              h += acts[k].name + "; ";
            }
            return h;
          };
          for (const auto k : seq) {
            if (s.m.p.size() > 6) {
              c.skip();
              return;
            }
            if (acts[k].f(s, c, hist) != 0) {
              c.skip(); // a shorter history covers it
              return;
            }
            c.trans();
          }
          verify(c, s, hist);
          c.state(mc::hashStr(s.m.str()));
          if (c.wantSample()) {
            c.sample(hist());
          }
        });
  }
  {
    // initializeIOMapping: all sequences of measurements / gates
    struct M {
      std::vector<Qubit> q;
      std::vector<qc::Bit> b;
    };
    std::vector<M> ms;
    for (Qubit q = 0; q < 3; ++q) {
      for (qc::Bit b = 0; b < 3; ++b) {
        ms.push_back({{q}, {b}});
      }
    }
    for (Qubit q = 0; q < 3; ++q) {
      for (Qubit q2 = 0; q2 < 3; ++q2) {
        for (qc::Bit b = 0; b < 3; ++b) {
          for (qc::Bit b2 = 0; b2 < 3; ++b2) {
            if (q != q2 && b != b2) {
              ms.push_back({{q, q2}, {b, b2}});
            }
          }
        }
      }
    }
    ms.push_back({{0, 1, 2}, {1, 2, 0}});
    ms.push_back({{2, 0, 1}, {0, 1, 2}});
    ms.push_back({{}, {}}); // gate x(1)
    const std::size_t L = 3;
    const auto per = mc::seqCount(ms.size(), L, 1);
    const std::size_t nOut = 4;
    r.space(
        "io-mapping", nOut * per,
        "4 prior output permutations (identity, none, cyclic, one garbage "
        "qubit) x all sequences of 1.." +
            std::to_string(L) + " of " + std::to_string(ms.size()) +
            " single/multi-qubit measurements and gates on 3 qubits",
        [&](std::uint64_t i, mc::Ctx& c) {
          const auto seq = mc::seqAt(i % per, ms.size(), 1);
          QuantumComputation q(3, 3, 1);
          switch (i / per) {
          case 1:
            q.outputPermutation.clear();
            break;
          case 2:
            q.outputPermutation[0] = 1;
            q.outputPermutation[1] = 2;
            q.outputPermutation[2] = 0;
            break;
          case 3:
            q.setLogicalQubitGarbage(1);
            break;
          default:
            break;
          }
          std::map<Qubit, qc::Bit> first;
          std::map<qc::Bit, Qubit> firstOf;
          bool conflict = false;
          for (const auto s : seq) {
            const auto& m = ms[s];
            if (m.q.empty()) {
              q.x(1);
              continue;
            }
            q.measure(m.q, m.b);
            for (std::size_t k = 0; k < m.q.size(); ++k) {
              if (first.emplace(m.q[k], m.b[k]).second) {
                conflict =
                    conflict || !firstOf.emplace(m.b[k], m.q[k]).second;
              }
            }
          }
          if (conflict || first.empty()) {
            c.skip(); // two qubits claim the same output
            return;
          }
          const auto before = ref::qcStr(q);
          auto msg = [&] { return before + " => " + ref::qcStr(q); };
          const bool t = throws([&] { q.initializeIOMapping(); });
          c.trans();
          if (!c.checkf(!t, "io:exception", msg)) {
            return;
          }
          qc::Permutation want;
          for (const auto& [a, b] : first) {
            want[a] = static_cast<Qubit>(b);
          }
          c.checkf(q.outputPermutation == want, "io:output", msg);
          bool g = true;
          for (Qubit l = 0; l < 3; ++l) {
            g = g && q.logicalQubitIsGarbage(l) == (firstOf.count(l) == 0);
          }
          c.checkf(g, "io:garbage", msg);
          c.state(mc::hashStr(ref::permStr(want)) ^ i / per);
          if (c.wantSample()) {
            c.sample(before);
          }
        });
  }
  {
    // appending measurements according to the output permutation
    std::vector<qc::Permutation> perms;
    std::vector<Qubit> v{0, 1, 2};
    do {
      qc::Permutation p;
      for (Qubit k = 0; k < 3; ++k) {
        p[k] = v[k];
      }
      for (unsigned mask = 0; mask < 8; ++mask) {
        auto pp = p;
        for (Qubit k = 0; k < 3; ++k) {
          if (((mask >> k) & 1U) != 0) {
            pp.erase(k);
          }
        }
        if (!pp.empty()) {
          perms.push_back(pp);
        }
      }
    } while (std::next_permutation(v.begin(), v.end()));
    r.space("append-measurements", perms.size() * 3,
            "every (partial) output permutation of 3 qubits x 0, 1 or 3 "
            "existing bits",
            [&](std::uint64_t i, mc::Ctx& c) {
              const auto& p = perms[i / 3];
              const std::size_t nb = (i % 3) == 0 ? 0 : (i % 3) == 1 ? 1 : 3;
              QuantumComputation q(3, 0, 1);
              if (nb > 0) {
                q.addClassicalRegister(nb, "old");
              }
              q.outputPermutation = p;
              q.h(0);
              const bool t = throws([&] {
                q.appendMeasurementsAccordingToOutputPermutation("meas");
              });
              c.trans();
              auto msg = [&] { return ref::qcStr(q); };
              // values beyond the number of outputs have no bit
              Qubit mx = 0;
              for (const auto& [a, b] : p) {
                mx = std::max(mx, b);
              }
              const auto have = std::max(nb, p.size());
              if (mx >= have) {
                c.skip();
                return;
              }
              if (!c.checkf(!t, "append:exception", msg)) {
                return;
              }
              std::map<Qubit, qc::Bit> got;
              bool ok = q.getNcbits() == have;
              for (const auto& o : q) {
                if (o->getType() == qc::Measure) {
                  const auto& m =
                      dynamic_cast<const qc::NonUnitaryOperation&>(*o);
                  for (std::size_t k = 0; k < m.getTargets().size(); ++k) {
                    ok = ok && got.emplace(m.getTargets()[k],
                                           m.getClassics()[k])
                                   .second;
                  }
                }
              }
              ok = ok && got.size() == p.size();
              for (const auto& [a, b] : p) {
                ok = ok && got.count(a) != 0 && got.at(a) == b;
              }
              c.checkf(ok, "append:map", msg);
              c.state(i);
              c.sample(msg());
            });
  }
  return r.finish();
}
