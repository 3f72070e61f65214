// P26: building, copying and editing circuits; statistics against a list model.
#include "circ.hpp"
#include "mc.hpp"
#include "ref.hpp"

#include "ir/QuantumComputation.hpp"
#include "ir/operations/NonUnitaryOperation.hpp"
#include "ir/operations/SymbolicOperation.hpp"

#include <cmath>
#include <numeric>

namespace {
using qc::Control;
using qc::Controls;
using qc::QuantumComputation;
using qc::Qubit;
const double PI = std::acos(-1.0);
constexpr auto NEG = Control::Type::Neg;
constexpr auto POS = Control::Type::Pos;

// ---- gate-adding calls -----------------------------------------------------
struct Gate {
  const char* name;
  qc::OpType type;
  std::size_t np, nt;
  // form: 0 plain, 1 single control, 2 control set
  std::function<void(QuantumComputation&, int, const Controls&,
                     const std::vector<Qubit>&, const std::vector<double>&)>
      call;
};
#define ARGS                                                                   \
  [[maybe_unused]] QuantumComputation &q, int f,                               \
      [[maybe_unused]] const Controls &c, const std::vector<Qubit>&t,          \
      [[maybe_unused]] const std::vector<double>&p
#define G10(op, ty)                                                            \
  Gate {                                                                       \
    #op, qc::ty, 0, 1, [](ARGS) {                                              \
      f == 0   ? q.op(t[0])                                                    \
      : f == 1 ? q.c##op(*c.begin(), t[0])                                     \
               : q.mc##op(c, t[0]);                                            \
    }                                                                          \
  }
#define G11(op, ty)                                                            \
  Gate {                                                                       \
    #op, qc::ty, 1, 1, [](ARGS) {                                              \
      f == 0   ? q.op(p[0], t[0])                                              \
      : f == 1 ? q.c##op(p[0], *c.begin(), t[0])                               \
               : q.mc##op(p[0], c, t[0]);                                      \
    }                                                                          \
  }
#define G20(op, ty)                                                            \
  Gate {                                                                       \
    #op, qc::ty, 0, 2, [](ARGS) {                                              \
      f == 0   ? q.op(t[0], t[1])                                              \
      : f == 1 ? q.c##op(*c.begin(), t[0], t[1])                               \
               : q.mc##op(c, t[0], t[1]);                                      \
    }                                                                          \
  }
#define G21(op, ty)                                                            \
  Gate {                                                                       \
    #op, qc::ty, 1, 2, [](ARGS) {                                              \
      f == 0   ? q.op(p[0], t[0], t[1])                                        \
      : f == 1 ? q.c##op(p[0], *c.begin(), t[0], t[1])                         \
               : q.mc##op(p[0], c, t[0], t[1]);                                \
    }                                                                          \
  }
#define G22(op, ty)                                                            \
  Gate {                                                                       \
    #op, qc::ty, 2, 2, [](ARGS) {                                              \
      f == 0   ? q.op(p[0], p[1], t[0], t[1])                                  \
      : f == 1 ? q.c##op(p[0], p[1], *c.begin(), t[0], t[1])                   \
               : q.mc##op(p[0], p[1], c, t[0], t[1]);                          \
    }                                                                          \
  }
const std::vector<Gate>& gates() {
  static const std::vector<Gate> g{
      G10(i, I), G10(x, X), G10(y, Y), G10(z, Z), G10(h, H), G10(s, S),
      G10(sdg, Sdg), G10(t, T), G10(tdg, Tdg), G10(v, V), G10(vdg, Vdg),
      G10(sx, SX), G10(sxdg, SXdg), G11(rx, RX), G11(ry, RY), G11(rz, RZ),
      G11(p, P),
      Gate{"u2", qc::U2, 2, 1,
           [](ARGS) {
             f == 0   ? q.u2(p[0], p[1], t[0])
             : f == 1 ? q.cu2(p[0], p[1], *c.begin(), t[0])
                      : q.mcu2(p[0], p[1], c, t[0]);
           }},
      Gate{"u", qc::U, 3, 1,
           [](ARGS) {
             f == 0   ? q.u(p[0], p[1], p[2], t[0])
             : f == 1 ? q.cu(p[0], p[1], p[2], *c.begin(), t[0])
                      : q.mcu(p[0], p[1], p[2], c, t[0]);
           }},
      G20(swap, SWAP), G20(dcx, DCX), G20(ecr, ECR), G20(iswap, iSWAP),
      G20(iswapdg, iSWAPdg), G20(peres, Peres), G20(peresdg, Peresdg),
      G21(rxx, RXX), G21(ryy, RYY), G21(rzz, RZZ), G21(rzx, RZX),
      G22(xx_minus_yy, XXminusYY), G22(xx_plus_yy, XXplusYY)};
  return g;
}
struct Call {
  std::size_t gate;
  int form;
  Controls c;
  std::vector<Qubit> t;
};
std::vector<Call> calls(std::size_t n, std::size_t maxC) {
  std::vector<Call> r;
  for (std::size_t g = 0; g < gates().size(); ++g) {
    std::vector<std::vector<Qubit>> ts;
    for (Qubit a = 0; a < n; ++a) {
      if (gates()[g].nt == 1) {
        ts.push_back({a});
      } else {
        for (Qubit b = 0; b < n; ++b) {
          if (a != b) {
            ts.push_back({a, b});
          }
        }
      }
    }
    for (const auto& t : ts) {
      r.push_back({g, 0, {}, t});
      for (const auto& c : circ::allControls(n, t, maxC)) {
        if (c.size() == 1) {
          r.push_back({g, 1, c, t});
        }
        r.push_back({g, 2, c, t});
      }
    }
  }
  return r;
}

std::string callStr(const Call& c, const std::vector<double>& p) {
  std::stringstream ss;
  ss.precision(17);
  ss << gates()[c.gate].name << " form " << c.form << " params ";
  for (const auto x : p) {
    ss << x << " ";
  }
  ss << "controls ";
  for (const auto& k : c.c) {
    ss << (k.type == POS ? "+" : "-") << k.qubit << " ";
  }
  ss << "targets ";
  for (const auto x : c.t) {
    ss << x << " ";
  }
  return ss.str();
}

// ---- list model ------------------------------------------------------------
// one entry per operation; circuits are compared structurally
bool sameOp(const qc::Operation& a, const qc::Operation& b) {
  return ref::opStr(a) == ref::opStr(b);
}
using List = std::vector<std::unique_ptr<qc::Operation>>;
List cloneList(const List& l) {
  List r;
  for (const auto& o : l) {
    r.push_back(o->clone());
  }
  return r;
}
void leaves(const qc::Operation& op, std::vector<const qc::Operation*>& out) {
  if (op.isCompoundOperation()) {
    for (const auto& o : dynamic_cast<const qc::CompoundOperation&>(op)) {
      leaves(*o, out);
    }
  } else {
    out.push_back(&op);
  }
}
void qubitsOf(const qc::Operation& op, std::set<Qubit>& out) {
  if (op.isCompoundOperation()) {
    for (const auto& o : dynamic_cast<const qc::CompoundOperation&>(op)) {
      qubitsOf(*o, out);
    }
    return;
  }
  if (op.isClassicControlledOperation()) {
    qubitsOf(*dynamic_cast<const qc::ClassicControlledOperation&>(op)
                  .getOperation(),
             out);
    return;
  }
  for (const auto t : op.getTargets()) {
    out.insert(t);
  }
  for (const auto& c : op.getControls()) {
    out.insert(c.qubit);
  }
}
void depthOf(const qc::Operation& op, std::vector<std::size_t>& d) {
  std::vector<const qc::Operation*> ls;
  leaves(op, ls);
  for (const auto* l : ls) {
    if (l->getType() == qc::Barrier) {
      continue;
    }
    if (l->isClassicControlledOperation()) {
      const auto& in =
          *dynamic_cast<const qc::ClassicControlledOperation&>(*l)
               .getOperation();
      if (in.isCompoundOperation()) {
        depthOf(in, d);
        continue;
      }
    }
    std::set<Qubit> qs;
    qubitsOf(*l, qs);
    if (l->isNonUnitaryOperation()) { // independent per qubit
      for (const auto q : qs) {
        ++d[q];
      }
      continue;
    }
    std::size_t m = 0;
    for (const auto q : qs) {
      m = std::max(m, d[q]);
    }
    for (const auto q : qs) {
      d[q] = m + 1;
    }
  }
}
struct Dyn {
  std::set<Qubit> measured;
  bool dynamic = false;
  bool ambiguous = false;
};
void dynOf(const qc::Operation& op, Dyn& d) {
  if (op.isCompoundOperation()) {
    for (const auto& o : dynamic_cast<const qc::CompoundOperation&>(op)) {
      dynOf(*o, d);
    }
    return;
  }
  if (op.getType() == qc::Reset || op.isClassicControlledOperation()) {
    d.dynamic = true;
    return;
  }
  std::set<Qubit> qs;
  qubitsOf(op, qs);
  for (const auto q : qs) {
    if (d.measured.count(q) != 0) {
      // barriers on, and repeated measurements of, measured qubits are not
      // fixed by the statement
      if (op.getType() == qc::Barrier || op.getType() == qc::Measure) {
        d.ambiguous = true;
      } else {
        d.dynamic = true;
      }
    }
  }
  if (op.getType() == qc::Measure) {
    d.measured.insert(qs.begin(), qs.end());
  }
}

void compare(mc::Ctx& c, const QuantumComputation& q, const List& l,
             std::size_t n, const std::string& tag,
             const std::function<std::string()>& hist) {
  auto msg = [&](const std::string& what) {
    return [&hist, &q, what] {
      return what + " | history: " + hist() + " | circuit " + ref::qcStr(q);
    };
  };
  bool same = q.getNops() == l.size() && q.size() == l.size() &&
              q.empty() == l.empty();
  for (std::size_t i = 0; same && i < l.size(); ++i) {
    same = q.at(i) != nullptr && sameOp(*q.at(i), *l[i]);
  }
  if (!c.checkf(same, (tag + ":contents").c_str(),
                msg("circuit contents differ from the edited list"))) {
    return;
  }
  std::size_t it = 0;
  for (const auto& o : q) {
    same = same && it < l.size() && sameOp(*o, *l[it]);
    ++it;
  }
  c.checkf(same && it == l.size(), (tag + ":iteration").c_str(),
           msg("iteration does not give the list"));
  c.checkf(q.getNqubits() == n, (tag + ":nqubits").c_str(),
           msg("number of qubits changed"));
  // statistics
  std::size_t ind = 0;
  std::size_t single = 0;
  bool nested = false;
  bool sbar = false;
  std::vector<std::size_t> dep(n, 0);
  Dyn d;
  auto isSingle = [&](const qc::Operation& o) {
    if (o.getType() == qc::Barrier && o.getTargets().size() == 1) {
      sbar = true;
    }
    return o.isUnitary() && !o.isNonUnitaryOperation() &&
           !o.isClassicControlledOperation() && o.getType() != qc::Barrier &&
           o.getControls().empty() && o.getTargets().size() == 1;
  };
  std::vector<int> used(n, 0); // 1: only barriers, 2: real operation
  for (const auto& o : l) {
    if (o->isCompoundOperation()) {
      for (const auto& s : dynamic_cast<const qc::CompoundOperation&>(*o)) {
        nested = nested || s->isCompoundOperation();
        ++ind;
        single += isSingle(*s) ? 1 : 0;
      }
    } else {
      ++ind;
      single += isSingle(*o) ? 1 : 0;
    }
    depthOf(*o, dep);
    dynOf(*o, d);
    std::vector<const qc::Operation*> ls;
    leaves(*o, ls);
    for (const auto* x : ls) {
      std::set<Qubit> qs;
      qubitsOf(*x, qs);
      for (const auto qb : qs) {
        used[qb] = std::max(used[qb], x->getType() == qc::Barrier ? 1 : 2);
      }
    }
  }
  if (!nested) {
    c.checkf(q.getNindividualOps() == ind, (tag + ":individual").c_str(),
             msg("getNindividualOps=" + std::to_string(q.getNindividualOps()) +
                 " expected " + std::to_string(ind)));
    if (!sbar) {
      c.checkf(q.getNsingleQubitOps() == single, (tag + ":single").c_str(),
               msg("getNsingleQubitOps=" +
                   std::to_string(q.getNsingleQubitOps()) + " expected " +
                   std::to_string(single)));
    }
  }
  const auto de = n == 0 ? 0 : *std::max_element(dep.begin(), dep.end());
  c.checkf(q.getDepth() == de, (tag + ":depth").c_str(),
           msg("getDepth=" + std::to_string(q.getDepth()) + " expected " +
               std::to_string(de)));
  for (Qubit i = 0; i < n; ++i) {
    if (used[i] != 1) {
      c.checkf(q.isIdleQubit(i) == (used[i] == 0), (tag + ":idle").c_str(),
               msg("isIdleQubit(" + std::to_string(i) + ") wrong"));
    }
  }
  if (d.dynamic || !d.ambiguous) {
    c.checkf(q.isDynamic() == d.dynamic, (tag + ":dynamic").c_str(),
             msg(std::string("isDynamic expected ") +
                 (d.dynamic ? "true" : "false")));
  }
  // last operation on its qubits
  for (std::size_t i = 0; i < l.size(); ++i) {
    std::set<Qubit> qs;
    qubitsOf(*l[i], qs);
    bool last = true;
    bool barrier = false;
    for (std::size_t j = 0; j < l.size(); ++j) {
      std::vector<const qc::Operation*> ls;
      leaves(*l[j], ls);
      for (const auto* x : ls) {
        barrier = barrier || (j >= i && x->getType() == qc::Barrier);
      }
    }
    for (std::size_t j = i + 1; j < l.size(); ++j) {
      std::set<Qubit> rs;
      qubitsOf(*l[j], rs);
      for (const auto x : rs) {
        last = last && qs.count(x) == 0;
      }
    }
    if (!barrier) {
      c.checkf(
          q.isLastOperationOnQubit(
              q.cbegin() + static_cast<std::ptrdiff_t>(i), q.cend()) == last,
          (tag + ":last").c_str(),
          msg("isLastOperationOnQubit(" + std::to_string(i) + ") wrong"));
    }
  }
}
template <class F> bool throws(F&& f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

// editing actions ------------------------------------------------------------
constexpr std::size_t N = 3;
struct State {
  QuantumComputation q{N, N, 1};
  List l;
  // earlier copies with what they must still contain
  std::vector<std::pair<std::unique_ptr<QuantumComputation>, List>> copies;
};
struct Action {
  std::string name;
  std::function<void(State&, mc::Ctx&)> run;
};
void ap(State& s, circ::OpPtr o) { s.l.push_back(std::move(o)); }
std::vector<Qubit> allQ() {
  std::vector<Qubit> r(N);
  std::iota(r.begin(), r.end(), 0);
  return r;
}
std::vector<Action> actions() {
  using circ::std1;
  using circ::std2;
  std::vector<Action> a;
  auto add = [&](const std::string& n, auto f) {
    a.push_back({n, [f](State& s, mc::Ctx& c) { f(s, c); }});
  };
  add("x(0)", [](State& s, mc::Ctx&) {
    s.q.x(0);
    ap(s, std1(qc::X, 0));
  });
  add("cz(-2,1)", [](State& s, mc::Ctx&) {
    s.q.cz(Control{2, NEG}, 1);
    ap(s, std1(qc::Z, 1, {}, {Control{2, NEG}}));
  });
  add("rzz(0.5,2,0)", [](State& s, mc::Ctx&) {
    s.q.rzz(0.5, 2, 0);
    ap(s, std2(qc::RZZ, 2, 0, {0.5}));
  });
  add("symbolic rz(y,1)", [](State& s, mc::Ctx&) {
    const qc::Symbolic y{sym::Term<qc::fp>(sym::Variable("y"))};
    s.q.rz(y, 1);
    ap(s, std::make_unique<qc::SymbolicOperation>(
              qc::Qubit{1}, qc::RZ, std::vector<qc::SymbolOrNumber>{y}));
  });
  add("measure(1,2)", [](State& s, mc::Ctx&) {
    s.q.measure(1, 2);
    ap(s, circ::meas({1}, {2}));
  });
  add("measure({0,2},{1,0})", [](State& s, mc::Ctx&) {
    s.q.measure({0, 2}, {1, 0});
    ap(s, circ::meas({0, 2}, {1, 0}));
  });
  add("reset(2)", [](State& s, mc::Ctx&) {
    s.q.reset(2);
    ap(s, circ::reset({2}));
  });
  add("barrier()", [](State& s, mc::Ctx&) {
    s.q.barrier();
    ap(s, circ::barrier(allQ()));
  });
  add("barrier(1)", [](State& s, mc::Ctx&) {
    s.q.barrier(1);
    ap(s, circ::barrier({1}));
  });
  add("if(c2==0)ch(0,2)", [](State& s, mc::Ctx&) {
    s.q.classicControlled(qc::H, 2, Control{0}, qc::Bit{2}, 0, qc::Eq);
    ap(s, circ::ifBit(std1(qc::H, 2, {}, {Control{0}}), 2, 0));
  });
  add("if(c>=3)rx(1)", [](State& s, mc::Ctx&) {
    const auto& r = s.q.getClassicalRegisters().at("c");
    s.q.classicControlled(qc::RX, 1, r, 3, qc::Geq, {0.25});
    ap(s, circ::ifReg(std1(qc::RX, 1, {0.25}), r, 3, qc::Geq));
  });
  add("emplace group{h0,{cx01},measure1}", [](State& s, mc::Ctx&) {
    auto g = circ::compound(std1(qc::H, 0),
                            std1(qc::X, 1, {}, {Control{0}}),
                            circ::meas({1}, {0}));
    ap(s, g->clone());
    s.q.emplace_back(std::move(g));
  });
  add("emplace group{x0,{s2}}", [](State& s, mc::Ctx&) {
    auto g =
        circ::compound(std1(qc::X, 0), circ::compound(std1(qc::S, 2)));
    ap(s, g->clone());
    s.q.emplace_back(std::move(g));
  });
  add("push_back StandardOperation", [](State& s, mc::Ctx&) {
    const qc::StandardOperation o(qc::Qubit{2}, qc::T);
    s.q.push_back(o);
    ap(s, o.clone());
  });
  add("insert y(1) at front", [](State& s, mc::Ctx& c) {
    auto o = std1(qc::Y, 1);
    s.l.insert(s.l.begin(), o->clone());
    const auto it = s.q.insert(s.q.cbegin(), std::move(o));
    c.checkf(it == s.q.begin(), "edit:insert-iterator",
             [] { return std::string("insert returned a wrong iterator"); });
  });
  add("insert swap(0,1) before last", [](State& s, mc::Ctx&) {
    auto o = std2(qc::SWAP, 0, 1);
    const std::ptrdiff_t p =
        s.l.empty() ? 0 : static_cast<std::ptrdiff_t>(s.l.size()) - 1;
    s.l.insert(s.l.begin() + p, o->clone());
    s.q.insert(s.q.cbegin() + p, std::move(o));
  });
  add("erase first", [](State& s, mc::Ctx&) {
    if (!s.l.empty()) {
      s.l.erase(s.l.begin());
      s.q.erase(s.q.cbegin());
    }
  });
  add("erase [1,end)", [](State& s, mc::Ctx&) {
    if (!s.l.empty()) {
      s.l.erase(s.l.begin() + 1, s.l.end());
      s.q.erase(s.q.cbegin() + 1, s.q.cend());
    }
  });
  add("pop_back", [](State& s, mc::Ctx&) {
    if (!s.l.empty()) {
      s.l.pop_back();
      s.q.pop_back();
    }
  });
  add("reverse", [](State& s, mc::Ctx&) {
    std::reverse(s.l.begin(), s.l.end());
    s.q.reverse();
  });
  add("clear", [](State& s, mc::Ctx&) {
    s.l.clear();
    s.q.clear();
  });
  add("copy-construct, keep original", [](State& s, mc::Ctx& c) {
    auto o = std::make_unique<QuantumComputation>(std::move(s.q));
    s.q = QuantumComputation(*o);
    c.checkf(s.q == *o && *o == s.q, "edit:copy-equal",
             [&] { return "copy differs from original " + ref::qcStr(*o); });
    s.copies.emplace_back(std::move(o), cloneList(s.l));
  });
  add("copy-assign, keep original", [](State& s, mc::Ctx& c) {
    auto o = std::make_unique<QuantumComputation>(1, 1, 1);
    o->h(0);
    *o = s.q;
    c.checkf(s.q == *o && *o == s.q, "edit:copy-equal",
             [&] { return "assigned copy differs " + ref::qcStr(s.q); });
    s.copies.emplace_back(std::move(o), cloneList(s.l));
  });
  add("wrap into group", [](State& s, mc::Ctx&) {
    std::unique_ptr<qc::Operation> g = s.q.asCompoundOperation();
    s.q.clear();
    s.q.emplace_back(std::move(g));
    List nl;
    nl.push_back(std::make_unique<qc::CompoundOperation>(std::move(s.l)));
    s.l = std::move(nl);
  });
  add("asOperation", [](State& s, mc::Ctx& c) {
    auto g = s.q.asOperation();
    if (s.l.empty()) {
      c.checkf(g == nullptr, "edit:as-operation",
               [] { return std::string("empty circuit gave an operation"); });
      return;
    }
    s.q.clear();
    if (!c.checkf(g != nullptr, "edit:as-operation", [] {
          return std::string("no operation for a non-empty circuit");
        })) {
      s.l.clear();
      return;
    }
    s.q.emplace_back(std::move(g));
    if (s.l.size() > 1) {
      List nl;
      nl.push_back(std::make_unique<qc::CompoundOperation>(std::move(s.l)));
      s.l = std::move(nl);
    }
  });
  add("unwrap last group", [](State& s, mc::Ctx& c) {
    if (s.l.empty() || !s.l.back()->isCompoundOperation()) {
      return;
    }
    const auto& g = dynamic_cast<const qc::CompoundOperation&>(*s.q.back());
    auto u = QuantumComputation::fromCompoundOperation(g);
    auto gl = s.l.back()->clone();
    auto& cl = dynamic_cast<qc::CompoundOperation&>(*gl);
    bool ok = u.getNops() == cl.size();
    for (std::size_t i = 0; ok && i < cl.size(); ++i) {
      ok = sameOp(*u.at(i), *cl.at(i));
    }
    std::set<Qubit> qs;
    qubitsOf(cl, qs);
    std::vector<const qc::Operation*> ls;
    leaves(cl, ls);
    std::size_t bits = 0;
    for (const auto* o : ls) {
      if (o->getType() == qc::Measure) {
        for (const auto b :
             dynamic_cast<const qc::NonUnitaryOperation&>(*o).getClassics()) {
          bits = std::max<std::size_t>(bits, b + 1);
        }
      } else if (o->isClassicControlledOperation()) {
        const auto& cc =
            dynamic_cast<const qc::ClassicControlledOperation&>(*o);
        if (cc.getControlBit().has_value()) {
          bits = std::max<std::size_t>(bits, *cc.getControlBit() + 1);
        }
        if (cc.getControlRegister().has_value()) {
          bits = std::max<std::size_t>(bits,
                                       cc.getControlRegister()->getEndIndex() +
                                           1);
        }
      }
    }
    ok = ok && u.getNcbits() >= bits;
    c.checkf(ok && (qs.empty() || u.getNqubits() > *qs.rbegin()),
             "edit:from-compound",
             [&] { return "fromCompoundOperation gave " + ref::qcStr(u); });
    s.l.pop_back();
    s.q.pop_back();
    for (auto& o : cl) {
      s.l.push_back(o->clone());
    }
    for (auto& o : u) {
      s.q.emplace_back(std::move(o));
    }
  });
  add("invalid calls", [](State& s, mc::Ctx& c) {
    const auto before = ref::qcStr(s.q);
    const qc::ClassicalRegister big(1, N, "big");
    const std::vector<std::pair<const char*, std::function<void()>>> bad{
        {"x(3)", [&] { s.q.x(N); }},
        {"cx(3,0)", [&] { s.q.cx(Qubit{N}, 0); }},
        {"cx(0,3)", [&] { s.q.cx(0, N); }},
        {"mcx({0,3},1)", [&] { s.q.mcx({0, N}, 1); }},
        {"rx(.1,3)", [&] { s.q.rx(0.1, N); }},
        {"u2(3)", [&] { s.q.u2(0.1, 0.2, N); }},
        {"u(3)", [&] { s.q.cu(0.1, 0.2, 0.3, Qubit{N}, 0); }},
        {"swap(0,3)", [&] { s.q.swap(0, N); }},
        {"swap(3,0)", [&] { s.q.swap(N, 0); }},
        {"cswap(3,0,1)", [&] { s.q.cswap(Qubit{N}, 0, 1); }},
        {"rzz(.1,0,3)", [&] { s.q.rzz(0.1, 0, N); }},
        {"xx_plus_yy(.1,.2,3,0)", [&] { s.q.xx_plus_yy(0.1, 0.2, N, 0); }},
        {"measure(3,0)", [&] { s.q.measure(N, 0); }},
        {"measure(0,3)", [&] { s.q.measure(0, N); }},
        {"measure({0,1},{0})", [&] { s.q.measure({0, 1}, {0}); }},
        {"measure({0,3},{0,1})", [&] { s.q.measure({0, N}, {0, 1}); }},
        {"measure({0,1},{0,3})", [&] { s.q.measure({0, 1}, {0, N}); }},
        {"reset(3)", [&] { s.q.reset(Qubit{N}); }},
        {"reset({0,3})", [&] { s.q.reset({0, N}); }},
        {"barrier(3)", [&] { s.q.barrier(Qubit{N}); }},
        {"barrier({0,3})", [&] { s.q.barrier({0, N}); }},
        {"if bit 3", [&] { s.q.classicControlled(qc::X, 0, qc::Bit{N}); }},
        {"if bit 0 on 3", [&] { s.q.classicControlled(qc::X, N, qc::Bit{0}); }},
        {"if bit 0 cx 3,0",
         [&] { s.q.classicControlled(qc::X, 0, Control{N}, qc::Bit{0}); }},
        {"if reg too big", [&] { s.q.classicControlled(qc::X, 0, big); }},
        {"if bit == 2",
         [&] { s.q.classicControlled(qc::X, 0, qc::Bit{0}, 2); }},
        {"measureAll(false) too few bits",
         [&] {
           QuantumComputation t(2, 1, 1);
           t.measureAll(false);
         }},
        {"at(size)", [&] { (void)s.q.at(s.q.size()); }}};
    for (const auto& [n, f] : bad) {
      const bool t = throws(f);
      const auto after = ref::qcStr(s.q);
      const char* nm = n;
      c.checkf(t && after == before, "edit:invalid-accepted", [&] {
        return std::string(nm) + (t ? " changed the circuit" : " was accepted");
      });
    }
  });
  return a;
}

// ---- controls on operations --------------------------------------------------
struct CtlProto {
  std::string name;
  circ::Maker make;
};
std::vector<CtlProto> ctlProtos() {
  using circ::std1;
  return {
      {"x1", [] { return std1(qc::X, 1); }},
      {"swap(1,2)", [] { return circ::std2(qc::SWAP, 1, 2); }},
      {"sym rx(a)1",
       []() -> circ::OpPtr {
         return std::make_unique<qc::SymbolicOperation>(
             qc::Qubit{1}, qc::RX,
             std::vector<qc::SymbolOrNumber>{
                 qc::Symbolic(sym::Term<double>(sym::Variable("a")))});
       }},
      {"group{x1,h2}",
       [] { return circ::compound(std1(qc::X, 1), std1(qc::H, 2)); }},
      {"group{x1,{z1,cy(3,1)}}",
       [] {
         return circ::compound(
             std1(qc::X, 1),
             circ::compound(std1(qc::Z, 1),
                            std1(qc::Y, 1, {}, {Control{3}})));
       }},
      {"if(c0)x1", [] { return circ::ifBit(std1(qc::X, 1), 0); }},
      {"if(c0)group{x1,cx(3,2)}",
       [] {
         return circ::ifBit(
             circ::compound(std1(qc::X, 1),
                            std1(qc::X, 2, {}, {Control{3}})),
             0);
       }},
  };
}
struct GroupLetter {
  std::string name;
  std::vector<Qubit> qubits;
  std::string kind; // type and parameters
  bool standard, controlled, measure, symbolic;
  bool single; // one operation, possibly within groups
  std::function<circ::OpPtr()> make;
};
std::vector<GroupLetter> groupLetters() {
  using circ::compound;
  using circ::std1;
  const auto rz = [](const double a, const Qubit q) -> circ::OpPtr {
    return std::make_unique<qc::StandardOperation>(q, qc::RZ,
                                                   std::vector<qc::fp>{a});
  };
  const auto symRz = [](const char* v, const Qubit q) -> circ::OpPtr {
    return std::make_unique<qc::SymbolicOperation>(
        q, qc::RZ,
        std::vector<qc::SymbolOrNumber>{
            qc::Symbolic(sym::Term<double>(sym::Variable(v)))});
  };
  return {
      {"h0", {0}, "h", true, false, false, false, true,
       [] { return std1(qc::H, 0); }},
      {"h1", {1}, "h", true, false, false, false, true,
       [] { return std1(qc::H, 1); }},
      {"h2", {2}, "h", true, false, false, false, true,
       [] { return std1(qc::H, 2); }},
      {"x2", {2}, "x", true, false, false, false, true,
       [] { return std1(qc::X, 2); }},
      {"cx(0,1)", {0, 1}, "x", true, true, false, false, true,
       [] { return std1(qc::X, 1, {}, {Control{0}}); }},
      {"rz(.5)0", {0}, "rz.5", true, false, false, false, true,
       [rz] { return rz(.5, 0); }},
      {"rz(.5)1", {1}, "rz.5", true, false, false, false, true,
       [rz] { return rz(.5, 1); }},
      {"rz(.7)1", {1}, "rz.7", true, false, false, false, true,
       [rz] { return rz(.7, 1); }},
      {"swap(1,2)", {1, 2}, "swap", true, false, false, false, true,
       [] { return circ::std2(qc::SWAP, 1, 2); }},
      {"measure(0,1)", {0, 1}, "measure", false, false, true, false, true,
       []() -> circ::OpPtr {
         return std::make_unique<qc::NonUnitaryOperation>(
             std::vector<Qubit>{0, 1}, std::vector<qc::Bit>{0, 1});
       }},
      {"if(c0)x0", {0}, "if", false, false, false, false, true,
       [] { return circ::ifBit(std1(qc::X, 0), 0); }},
      {"rz(a)0", {0}, "rza", false, false, false, true, true,
       [symRz] { return symRz("a", 0); }},
      {"rz(b)1", {1}, "rzb", false, false, false, true, true,
       [symRz] { return symRz("b", 1); }},
      {"{h0}", {0}, "g", false, false, false, false, true,
       [] { return compound(std1(qc::H, 0)); }},
      {"{{x1}}", {1}, "g", false, false, false, false, true,
       [] { return compound(compound(std1(qc::X, 1))); }},
      {"{h1,h2}", {1, 2}, "g", false, false, false, false, false,
       [] { return compound(std1(qc::H, 1), std1(qc::H, 2)); }},
      {"{}", {}, "g", false, false, false, false, false,
       []() -> circ::OpPtr {
         return std::make_unique<qc::CompoundOperation>();
       }},
  };
}
// model: leaves with their intrinsic controls plus the added set
struct CtlModel {
  std::vector<std::pair<std::set<Qubit>, Controls>> leaf; // intrinsic
  Controls added;
  bool group = false;
};
void ctlLeaves(const qc::Operation& op,
               std::vector<const qc::Operation*>& out) {
  if (op.isCompoundOperation()) {
    for (const auto& o : dynamic_cast<const qc::CompoundOperation&>(op)) {
      ctlLeaves(*o, out);
    }
  } else if (op.isClassicControlledOperation()) {
    ctlLeaves(*dynamic_cast<const qc::ClassicControlledOperation&>(op)
                   .getOperation(),
              out);
  } else {
    out.push_back(&op);
  }
}
const std::vector<std::pair<std::string, std::vector<Control>>>& ctlActs() {
  // kind: add / remove single / remove set / clear / set
  static const std::vector<std::pair<std::string, std::vector<Control>>> a{
      {"add", {Control{0}}},
      {"add", {Control{0, NEG}}},
      {"add", {Control{1}}},
      {"add", {Control{2}}},
      {"add", {Control{3, NEG}}},
      {"addset", {Control{0, NEG}, Control{3}}},
      {"remove", {Control{0}}},
      {"remove", {Control{0, NEG}}},
      {"remove", {Control{3}}},
      {"removeit", {}},
      {"removeset", {Control{0}}},
      {"removeset", {Control{0}, Control{3, NEG}}},
      {"removeset", {Control{0, NEG}, Control{3}}},
      {"clear", {}},
      {"set", {Control{3}}},
      {"set", {Control{0}, Control{3}}},
  };
  return a;
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P26");
  r.assume("documented gate matrices of harness/ref.hpp; exact up to 1e-9");
  r.assume("operation counts are compared for groups nested at most once; "
           "barriers on and repeated measurements of measured qubits, idleness "
           "of qubits with only barriers and single-qubit barrier counts are "
           "not fixed by the statement");
  {
    const std::size_t n = r.thorough ? 4 : 3;
    const auto cs = calls(n, 3);
    r.space(
        "calls", cs.size(),
        "every gate-adding method, plain/c/mc form, every control set with "
        "polarities and every target order on " +
            std::to_string(n) + " qubits",
        [&, n](std::uint64_t i, mc::Ctx& c) {
          const auto& k = cs[i];
          const auto& g = gates()[k.gate];
          const std::vector<double> all{0.7, -1.1, 2.3};
          const std::vector<double> p(
              all.begin(), all.begin() + static_cast<std::ptrdiff_t>(g.np));
          QuantumComputation q(n, 1, 1);
          q.h(0);
          g.call(q, k.form, k.c, k.t, p);
          c.trans();
          auto m = [&] { return callStr(k, p) + " gave " + ref::qcStr(q); };
          if (!c.checkf(q.getNops() == 2, "calls:count", m)) {
            return;
          }
          const auto& op = *q.back();
          c.checkf(op.getType() == g.type, "calls:type", m);
          auto t = op.getTargets();
          c.checkf(t == k.t, "calls:targets", m);
          c.checkf(op.getControls() == k.c, "calls:controls", m);
          c.checkf(op.getParameter() == p, "calls:params", m);
          c.checkf(op.isUnitary() && op.isStandardOperation(), "calls:kind", m);
          c.state(ref::hashU(ref::unitaryOp(op, n)));
          c.sample(callStr(k, p));
        });
    // parameter grid: the stored operation has the requested matrix
    std::vector<double> grid{0,       PI / 4,  -PI / 4, PI / 2,     -PI / 2,
                             PI,      -PI,     3 * PI / 2, 2 * PI,  -2 * PI,
                             0.3,     1,       -2,      PI / 3};
    if (r.thorough) {
      for (const double x :
           {-3 * PI / 2, 3 * PI / 4, -3 * PI / 4, 3 * PI, 4 * PI, 5 * PI / 2,
            -0.3, PI / 8, 7.0, 1e-3, -PI / 3, PI / 2 + 1e-4, PI - 1e-4}) {
        grid.push_back(x);
      }
    }
    struct PC {
      std::size_t g;
      std::vector<double> p;
      bool ctl;
    };
    std::vector<PC> pcs;
    for (std::size_t g = 0; g < gates().size(); ++g) {
      if (gates()[g].np == 0) {
        continue;
      }
      for (const auto& p : circ::paramGrid(gates()[g].np, grid)) {
        for (const bool ctl : {false, true}) {
          pcs.push_back({g, p, ctl});
        }
      }
    }
    r.space("params", pcs.size(),
            "every parametrised gate x a grid of " +
                std::to_string(grid.size()) +
                " angles per parameter, plain and controlled: the stored "
                "operation has the requested matrix",
            [&](std::uint64_t i, mc::Ctx& c) {
              const auto& k = pcs[i];
              const auto& g = gates()[k.g];
              std::vector<Qubit> t{1};
              if (g.nt == 2) {
                t.push_back(0);
              }
              const std::size_t n = g.nt + 1;
              Controls cc;
              if (k.ctl) {
                cc.emplace(g.nt == 2 ? 2U : 0U);
              }
              QuantumComputation q(n, 0, 1);
              g.call(q, k.ctl ? 1 : 0, cc, t, k.p);
              c.trans();
              auto m = [&] {
                return std::string(g.name) + " " + ref::vecStr(ref::Vec(
                           k.p.begin(), k.p.end())) + " stored as " +
                       ref::qcStr(q);
              };
              if (!c.checkf(q.getNops() == 1, "params:count", m)) {
                return;
              }
              // expected: matrix of the requested gate applied to every basis
              const auto gm = ref::gateMatrix(g.type, k.p);
              std::vector<ref::Vec> want = ref::ident(n);
              for (auto& col : want) {
                ref::applyMatrix(col, gm, t, cc.empty() ? 0 : 1ULL << cc.begin()->qubit, 0);
              }
              const auto got = ref::unitaryOp(*q.back(), n);
              c.checkf(ref::dist(want, got) < 1e-9, "params:matrix", m);
              c.state(ref::hashU(got));
              if (c.wantSample()) {
                c.sample(m());
              }
            });
    // global phase stays normalised and correct
    const std::vector<double> gp{0, 0.5, -0.5, PI, -PI, 2 * PI, -2 * PI, 7.5,
                                 -7.5, 100.0, 1e6, -1e6, 1e17, -1e300, 1e-20,
                                 -1e-20};
    r.space("gphase", gp.size() * gp.size(),
            "every pair of global phases from " + std::to_string(gp.size()) +
                " values (0 .. 1e300)",
            [&](std::uint64_t i, mc::Ctx& c) {
              const double a = gp[i / gp.size()];
              const double b = gp[i % gp.size()];
              QuantumComputation q(1, 0, 1);
              q.gphase(a);
              q.gphase(b);
              c.trans(2);
              const double got = q.getGlobalPhase();
              auto m = [&] {
                std::stringstream ss;
                ss.precision(17);
                ss << "gphase(" << a << "); gphase(" << b << ") -> " << got;
                return ss.str();
              };
              if (std::abs(a) < 1e7 && std::abs(b) < 1e7) {
                c.checkf(std::abs(std::polar(1.0, got) -
                                  std::polar(1.0, a) * std::polar(1.0, b)) <
                             1e-8,
                         "gphase:value", m);
              }
              c.checkf(got >= -1e-9 && got <= 2 * PI + 1e-9, "gphase:range", m);
              c.state(mc::hashStr(m()));
              c.sample(m());
            },
            5);
    // construction of gates with extreme angles terminates
    const std::vector<double> ext{1e9, -1e9, 1e17, -1e17, 1e300, -1e300, 1e-12,
                                  -1e-12, 5e-324, 1e-300};
    r.space("extreme", gates().size() * ext.size(),
            "every parametrised gate x 10 extreme angles keeps its value",
            [&](std::uint64_t i, mc::Ctx& c) {
              const auto& g = gates()[i / ext.size()];
              const double e = ext[i % ext.size()];
              if (g.np == 0) {
                c.skip();
                return;
              }
              std::vector<double> p(g.np, 0.7);
              p[0] = e;
              QuantumComputation q(2, 0, 1);
              g.call(q, 0, {}, g.nt == 1 ? std::vector<Qubit>{0}
                                         : std::vector<Qubit>{0, 1},
                     p);
              c.trans();
              bool ok = q.getNops() == 1;
              if (ok) {
                const auto& pp = q.back()->getParameter();
                // a tiny angle may be rounded to zero or dropped
                ok = std::abs(e) < 1e-6 ||
                     (!pp.empty() && std::abs(pp[0] - e) <= 1e-12 * std::abs(e));
              }
              c.checkf(ok, "extreme:value", [&] {
                return std::string(g.name) + " with " + std::to_string(e) +
                       " gave " + ref::qcStr(q);
              });
              c.state(i);
            },
            5);
  }
  {
    const auto acts = actions();
    const std::size_t L = r.thorough ? 5 : 4;
    r.space(
        "edits", mc::seqCount(acts.size(), L),
        "all sequences of up to " + std::to_string(L) + " of " +
            std::to_string(acts.size()) +
            " editing calls on a 3-qubit circuit, contents and statistics "
            "compared after every step",
        [&](std::uint64_t i, mc::Ctx& c) {
          const auto seq = mc::seqAt(i, acts.size());
          State s;
          auto hist = [&] {
            std::string h;
            for (const auto k : seq) {
              h += acts[k].name + "; ";
            }
            return h;
          };
          c.sample(hist());
          for (std::size_t k = 0; k < seq.size(); ++k) {
            acts[seq[k]].run(s, c);
            c.trans();
          }
          compare(c, s.q, s.l, N, "edit", hist);
          for (const auto& [q, l] : s.copies) {
            bool same = q->getNops() == l.size();
            for (std::size_t k = 0; same && k < l.size(); ++k) {
              same = sameOp(*q->at(k), *l[k]);
            }
            c.checkf(same, "edit:copy-independent", [&] {
              return "a copy changed: " + ref::qcStr(*q) + " history " + hist();
            });
          }
          std::uint64_t h = 1;
          for (const auto& o : s.l) {
            h = mc::mix(h ^ mc::hashStr(ref::opStr(*o)));
          }
          c.state(h);
        });
    // circuits of one register after removing/adding: measureAll
    r.space("measure-all", 2 * 4 * 4,
            "measureAll with and without new bits on 1..4 qubits, 0..3 bits",
            [&](std::uint64_t i, mc::Ctx& c) {
              const bool add = (i & 1U) != 0;
              const std::size_t n = 1 + ((i / 2) % 4);
              const std::size_t b = (i / 8);
              QuantumComputation q(n, b, 1);
              q.h(0);
              const bool want = add || b >= n;
              const bool t = throws([&] { q.measureAll(add); });
              auto m = [&] { return "measureAll -> " + ref::qcStr(q); };
              c.trans();
              c.checkf(t != want, "measureall:accept", m);
              if (t) {
                c.checkf(q.getNops() == 1, "measureall:unchanged", m);
                return;
              }
              std::map<Qubit, qc::Bit> got;
              bool dup = false;
              for (std::size_t k = 1; k < q.getNops(); ++k) {
                if (q.at(k)->getType() == qc::Barrier) {
                  continue;
                }
                const auto* mo = dynamic_cast<const qc::NonUnitaryOperation*>(
                    q.at(k).get());
                if (mo == nullptr) {
                  dup = true;
                  continue;
                }
                for (std::size_t x = 0; x < mo->getTargets().size(); ++x) {
                  dup = dup || !got.emplace(mo->getTargets()[x],
                                            mo->getClassics()[x])
                                    .second;
                }
              }
              bool ok = !dup && got.size() == n;
              for (const auto& [qq, bb] : got) {
                ok = ok && bb == (add ? b : 0) + qq;
              }
              ok = ok && q.getNcbits() == b + (add ? n : 0);
              c.checkf(ok, "measureall:map", m);
              c.state(i);
              c.sample(m());
            });
  }
  {
    const auto protos = ctlProtos();
    const auto& acts = ctlActs();
    const std::size_t L = r.thorough ? 5 : 4;
    const auto per = mc::seqCount(acts.size(), L);
    r.space(
        "controls", protos.size() * per,
        "all sequences of up to " + std::to_string(L) + " of " +
            std::to_string(acts.size()) +
            " control edits on 7 kinds of operation; refused edits change "
            "nothing",
        [&](std::uint64_t i, mc::Ctx& c) {
          const auto& pr = protos[i / per];
          const auto seq = mc::seqAt(i % per, acts.size());
          auto op = pr.make();
          auto orig = pr.make();
          std::vector<const qc::Operation*> ol;
          ctlLeaves(*orig, ol);
          std::vector<Controls> model; // per leaf
          for (const auto* l : ol) {
            model.push_back(l->getControls());
          }
          std::set<Control, qc::CompareControl> own; // controls of the group
          const bool group = ol.size() > 1;
          if (!group) {
            own = model[0];
          }
          std::string hist = pr.name + ": ";
          auto tryAdd = [&](const std::vector<Control>& cs) {
            // all or nothing is only required for single additions
            auto mm = model;
            auto oo = own;
            for (const auto& k : cs) {
              for (std::size_t l = 0; l < ol.size(); ++l) {
                const auto& t = ol[l]->getTargets();
                if (std::find(t.begin(), t.end(), k.qubit) != t.end() ||
                    mm[l].find(k.qubit) != mm[l].end()) {
                  return false;
                }
                mm[l].insert(k);
              }
              oo.insert(k);
            }
            model = mm;
            own = oo;
            return true;
          };
          auto tryRemove = [&](const std::vector<Control>& cs) {
            for (const auto& k : cs) {
              if (own.count(k) == 0) {
                return false;
              }
            }
            for (const auto& k : cs) {
              own.erase(k);
              for (auto& m : model) {
                m.erase(k);
              }
            }
            return true;
          };
          for (const auto a : seq) {
            const auto& [kind, cs] = acts[a];
            hist += kind;
            Controls set;
            for (const auto& k : cs) {
              hist += (k.type == POS ? " +" : " -") + std::to_string(k.qubit);
              set.insert(k);
            }
            hist += "; ";
            c.trans();
            bool want = true;
            bool got = true;
            bool multi = false;
            if (kind == "add") {
              want = tryAdd(cs);
              got = !throws([&] { op->addControl(cs[0]); });
            } else if (kind == "addset") {
              want = tryAdd(cs);
              multi = true;
              got = !throws([&] { op->addControls(set); });
            } else if (kind == "remove") {
              want = tryRemove(cs);
              got = !throws([&] { op->removeControl(cs[0]); });
            } else if (kind == "removeit") {
              if (own.empty() || op->isClassicControlledOperation()) {
                continue;
              }
              tryRemove({*own.begin()});
              const auto it = op->removeControl(op->getControls().begin());
              c.checkf(it == op->getControls().begin(),
                       "controls:iterator", [&] { return hist; });
            } else if (kind == "removeset") {
              want = tryRemove(cs);
              multi = true;
              got = !throws([&] { op->removeControls(set); });
            } else if (kind == "clear") {
              tryRemove({own.begin(), own.end()});
              got = !throws([&] { op->clearControls(); });
            } else {
              tryRemove({own.begin(), own.end()});
              want = tryAdd(cs);
              multi = true;
              got = !throws([&] { op->setControls(set); });
            }
            if (!c.checkf(want == got, "controls:accept", [&] {
                  return hist + (got ? "accepted" : "refused") + ", now " +
                         ref::opStr(*op);
                })) {
              return;
            }
            if (!want && multi) {
              return; // partially applied sets are not specified
            }
            std::vector<const qc::Operation*> ls;
            ctlLeaves(*op, ls);
            bool ok = ls.size() == model.size();
            for (std::size_t l = 0; ok && l < ls.size(); ++l) {
              ok = ls[l]->getControls() == model[l] &&
                   ls[l]->getTargets() == ol[l]->getTargets();
            }
            if (!c.checkf(ok, "controls:state", [&] {
                  return hist + " gives " + ref::opStr(*op);
                })) {
              return;
            }
            const bool ctl = std::any_of(
                model.begin(), model.end(),
                [](const auto& m) { return !m.empty(); });
            if (!group) {
              c.checkf((op->isClassicControlledOperation() ||
                        op->isControlled() == ctl) &&
                           op->getNcontrols() == model[0].size(),
                       "controls:query", [&] { return hist; });
            }
          }
          c.state(mc::hashStr(ref::opStr(*op) + pr.name));
          c.sample(hist);
        });
  }
  {
    const auto al = groupLetters();
    const std::size_t L = r.thorough ? 4 : 3;
    const auto n = mc::seqCount(al.size(), L);
    r.space(
        "groups", n,
        "all groups of up to " + std::to_string(L) + " of " +
            std::to_string(al.size()) +
            " operations (empty, nested, conditional, symbolic, measurements)",
        [&](std::uint64_t i, mc::Ctx& c) {
          const auto seq = mc::seqAt(i, al.size());
          std::string what = "group of";
          std::vector<const GroupLetter*> ls;
          qc::CompoundOperation g;
          for (const auto a : seq) {
            ls.push_back(&al[a]);
            what += " " + al[a].name;
            g.emplace_back(al[a].make());
          }
          const auto m = [&] { return what; };
          c.state(i ^ 0x7700000000ULL);
          std::set<Qubit> used;
          bool meas = false;
          bool sym = false;
          bool global = !ls.empty();
          for (const auto* l : ls) {
            used.insert(l->qubits.begin(), l->qubits.end());
            meas = meas || l->measure;
            sym = sym || l->symbolic;
            global = global && l->standard && l->kind == ls[0]->kind &&
                     (ls.size() == 1 || !l->controlled);
          }
          c.checkf(g.getUsedQubits() == used, "groups:used", m);
          for (Qubit q = 0; q < 4; ++q) {
            c.checkf(g.actsOn(q) == (used.count(q) != 0), "groups:acts", m);
          }
          c.checkf(g.size() == ls.size() && g.empty() == ls.empty(),
                   "groups:size", m);
          c.checkf(g.isNonUnitaryOperation() == meas, "groups:non-unitary", m);
          c.checkf(g.isSymbolicOperation() == sym, "groups:symbolic", m);
          if (!sym) {
            for (std::size_t k = 0; k <= 4; ++k) {
              c.checkf(g.isGlobal(k) == (global && used.size() == k),
                       "groups:global", [&] {
                         return what + " on " + std::to_string(k) +
                                " qubits is" +
                                (g.isGlobal(k) ? "" : " not") + " global";
                       });
            }
          }
          // a copy is equal; merging moves all operations behind the others
          qc::CompoundOperation copy(g);
          c.checkf(copy == g, "groups:copy", m);
          std::vector<std::string> all;
          for (const auto& o : g) {
            all.push_back(ref::opStr(*o));
          }
          const auto one = all;
          all.insert(all.end(), one.begin(), one.end());
          g.merge(copy);
          std::vector<std::string> got;
          for (const auto& o : g) {
            got.push_back(ref::opStr(*o));
          }
          c.checkf(got == all && copy.empty() && copy.size() == 0,
                   "groups:merge", m);
          // only a single operation can be taken out
          qc::CompoundOperation h;
          for (const auto* l : ls) {
            h.emplace_back(l->make());
          }
          const bool conv = ls.size() == 1 && ls[0]->single;
          c.checkf(h.isConvertibleToSingleOperation() == conv,
                   "groups:convertible", m);
          if (conv && h.isConvertibleToSingleOperation()) {
            const auto o = h.collapseToSingleOperation();
            std::vector<const qc::Operation*> leaves;
            const auto ref0 = ls[0]->make();
            const qc::Operation* p = ref0.get();
            while (p->isCompoundOperation()) {
              p = dynamic_cast<const qc::CompoundOperation&>(*p).at(0).get();
            }
            c.checkf(o != nullptr && ref::opStr(*o) == ref::opStr(*p),
                     "groups:collapse", m);
          }
        });
  }
  return r.finish();
}
