// P10: imported OpenQASM programs mean what the language says.
#include "circ.hpp"
#include "qasm3/Importer.hpp"

#include <iostream>

using namespace circ;
using qc::Bit;
using qc::Control;
using qc::OpType;
using qc::Qubit;
namespace {
constexpr double TOL = 1e-9;
using Strs = std::vector<std::string>;

struct Res {
  bool ok = false;
  qc::QuantumComputation q;
  std::string err;
};
Res read(const std::string& text) {
  Res r;
  std::cerr.setstate(std::ios::failbit);
  try {
    r.q = qasm3::Importer::imports(text);
    r.ok = true;
  } catch (const std::exception& e) {
    r.err = e.what();
  }
  std::cerr.clear();
  return r;
}
enum Want { Must, May, Never };
// the program must (may, must not) be read, and then as the given circuit
void judge(mc::Ctx& c, const std::string& key, const std::string& text,
           const qc::QuantumComputation& e, Want w = Must, bool outputs = true) {
  c.trans();
  c.state(mc::hashStr(text));
  const auto r = read(text);
  if (w == Never) {
    c.checkf(!r.ok, (key + ":accepted").c_str(), [&] {
      return text + "\nis read as " + ref::qcStr(r.q);
    });
    return;
  }
  if (!r.ok) {
    c.checkf(w == May, (key + ":not-read").c_str(),
             [&] { return text + "\n: " + r.err; });
    return;
  }
  const auto say = [&] {
    return text + "\nis read as " + ref::qcStr(r.q) + "\ninstead of " +
           ref::qcStr(e);
  };
  // constants may occupy additional classical bits
  if (r.q.getNqubits() != e.getNqubits() ||
      (r.q.getNcbits() != e.getNcbits() &&
       (text.find("const") == std::string::npos ||
        r.q.getNcbits() < e.getNcbits()))) {
    c.check(false, key + ":registers", say());
    return;
  }
  std::vector<ref::Branch> u;
  std::vector<ref::Branch> v;
  const auto n = e.getNqubits();
  try {
    u = ref::runChoi(e, n);
    v = ref::runChoi(r.q, n);
  } catch (const std::exception& x) {
    c.check(false, key + ":malformed", say() + ": " + x.what());
    return;
  }
  bool same = false;
  if (u.size() == 1 && v.size() == 1 && u[0].b == v[0].b) {
    for (auto& x : u[0].v) {
      x *= std::polar(1., e.getGlobalPhase());
    }
    for (auto& x : v[0].v) {
      x *= std::polar(1., r.q.getGlobalPhase());
    }
    same = ref::dist(u[0].v, v[0].v) < TOL;
  } else {
    same = ref::distR(ref::densities(u), ref::densities(v)) < TOL;
  }
  c.checkf(same, (key + ":behaviour").c_str(), say);
  if (outputs) {
    auto x = e;
    x.initializeIOMapping();
    c.checkf(r.q.initialLayout == x.initialLayout &&
                 r.q.outputPermutation == x.outputPermutation,
             (key + ":layout").c_str(), [&] {
               return text + "\nis read with layout " +
                      ref::permStr(r.q.initialLayout) + " output " +
                      ref::permStr(r.q.outputPermutation) + " instead of " +
                      ref::permStr(x.initialLayout) + " output " +
                      ref::permStr(x.outputPermutation);
             });
  }
}

// --- the meaning of gate calls -------------------------------------------
struct Std {
  std::string name;
  std::size_t ctl, tgt, par;
  OpType t;
};
const std::vector<Std>& stds() {
  static const std::vector<Std> s{
      {"U", 0, 1, 3, qc::U},        {"p", 0, 1, 1, qc::P},
      {"u1", 0, 1, 1, qc::P},       {"phase", 0, 1, 1, qc::P},
      {"cphase", 1, 1, 1, qc::P},   {"cp", 1, 1, 1, qc::P},
      {"id", 0, 1, 0, qc::I},       {"u2", 0, 1, 2, qc::U2},
      {"u3", 0, 1, 3, qc::U},       {"u", 0, 1, 3, qc::U},
      {"x", 0, 1, 0, qc::X},        {"cx", 1, 1, 0, qc::X},
      {"CX", 1, 1, 0, qc::X},       {"ccx", 2, 1, 0, qc::X},
      {"c3x", 3, 1, 0, qc::X},      {"c4x", 4, 1, 0, qc::X},
      {"rx", 0, 1, 1, qc::RX},      {"crx", 1, 1, 1, qc::RX},
      {"y", 0, 1, 0, qc::Y},        {"cy", 1, 1, 0, qc::Y},
      {"ry", 0, 1, 1, qc::RY},      {"cry", 1, 1, 1, qc::RY},
      {"z", 0, 1, 0, qc::Z},        {"cz", 1, 1, 0, qc::Z},
      {"rz", 0, 1, 1, qc::RZ},      {"crz", 1, 1, 1, qc::RZ},
      {"h", 0, 1, 0, qc::H},        {"ch", 1, 1, 0, qc::H},
      {"s", 0, 1, 0, qc::S},        {"sdg", 0, 1, 0, qc::Sdg},
      {"t", 0, 1, 0, qc::T},        {"tdg", 0, 1, 0, qc::Tdg},
      {"sx", 0, 1, 0, qc::SX},      {"sxdg", 0, 1, 0, qc::SXdg},
      {"swap", 0, 2, 0, qc::SWAP},  {"cswap", 1, 2, 0, qc::SWAP},
      {"iswap", 0, 2, 0, qc::iSWAP}, {"iswapdg", 0, 2, 0, qc::iSWAPdg},
      {"rxx", 0, 2, 1, qc::RXX},    {"ryy", 0, 2, 1, qc::RYY},
      {"rzz", 0, 2, 1, qc::RZZ},    {"rzx", 0, 2, 1, qc::RZX},
      {"dcx", 0, 2, 0, qc::DCX},    {"ecr", 0, 2, 0, qc::ECR},
      {"xx_minus_yy", 0, 2, 2, qc::XXminusYY},
      {"xx_plus_yy", 0, 2, 2, qc::XXplusYY},
      {"gphase", 0, 0, 1, qc::GPhase}};
  return s;
}
struct Mod {
  std::string text;
  bool inv;
  std::size_t n;
  bool pos;
};
const std::vector<Mod>& modifiers() {
  static const std::vector<Mod> m{
      {"inv @ ", true, 0, true},         {"ctrl @ ", false, 1, true},
      {"negctrl @ ", false, 1, false},   {"ctrl(2) @ ", false, 2, true},
      {"negctrl(2) @ ", false, 2, false}};
  return m;
}
struct Call {
  std::vector<Mod> mods;
  std::string gate;
  Strs args; // as written; values over the parameters of the definition
  std::vector<std::size_t> on;
  std::string text(const Strs& names) const {
    std::string s;
    for (const auto& m : mods) {
      s += m.text;
    }
    s += gate;
    if (!args.empty()) {
      s += "(";
      for (std::size_t i = 0; i < args.size(); ++i) {
        s += (i != 0 ? "," : "") + args[i];
      }
      s += ")";
    }
    for (std::size_t i = 0; i < on.size(); ++i) {
      s += (i != 0 ? ", " : " ") + names[on[i]];
    }
    return s + ";";
  }
};
struct Def {
  std::string name;
  Strs params;
  Strs qubits;
  std::vector<Call> body;
  std::string text() const {
    std::string s = "gate " + name;
    if (!params.empty()) {
      s += "(";
      for (std::size_t i = 0; i < params.size(); ++i) {
        s += (i != 0 ? ", " : "") + params[i];
      }
      s += ")";
    }
    for (std::size_t i = 0; i < qubits.size(); ++i) {
      s += (i != 0 ? ", " : " ") + qubits[i];
    }
    s += " { ";
    for (const auto& b : body) {
      s += b.text(qubits) + " ";
    }
    return s + "}\n";
  }
};
using Defs = std::vector<Def>;
// the arguments used: number, name, -name, name/2, name+number
double value(const std::string& a, const std::map<std::string, double>& env) {
  if (a.empty()) {
    return 0;
  }
  if (a[0] == '-') {
    return -value(a.substr(1), env);
  }
  const auto op = a.find_first_of("+/");
  if (op != std::string::npos) {
    const auto l = value(a.substr(0, op), env);
    const auto r = value(a.substr(op + 1), env);
    return a[op] == '+' ? l + r : l / r;
  }
  const auto it = env.find(a);
  return it != env.end() ? it->second : std::stod(a);
}
struct El {
  OpType t;
  std::vector<double> p;
  std::map<Qubit, bool> c;
  std::vector<Qubit> q;
  bool inv = false;
};
std::vector<El> expand(const Defs& defs, const Call& call,
                       const std::vector<Qubit>& on,
                       const std::map<std::string, double>& env) {
  std::size_t k = 0;
  std::map<Qubit, bool> ctl;
  bool inv = false;
  for (const auto& m : call.mods) {
    inv = inv != m.inv;
    for (std::size_t i = 0; i < m.n; ++i) {
      ctl[on.at(k++)] = m.pos;
    }
  }
  std::vector<double> args;
  for (const auto& a : call.args) {
    args.push_back(value(a, env));
  }
  std::vector<El> r;
  bool found = false;
  for (const auto& d : defs) {
    if (d.name != call.gate) {
      continue;
    }
    found = true;
    auto inner = std::map<std::string, double>{{"pi", qc::PI}};
    for (std::size_t i = 0; i < d.params.size(); ++i) {
      inner[d.params[i]] = args.at(i);
    }
    for (const auto& b : d.body) {
      std::vector<Qubit> sub;
      for (const auto x : b.on) {
        sub.push_back(on.at(k + x));
      }
      for (auto& e : expand(defs, b, sub, inner)) {
        r.push_back(e);
      }
    }
  }
  for (const auto& s : stds()) {
    if (found || s.name != call.gate) {
      continue;
    }
    found = true;
    El e{s.t, args, {}, {}, false};
    for (std::size_t i = 0; i < s.ctl; ++i) {
      e.c[on.at(k++)] = true;
    }
    for (std::size_t i = 0; i < s.tgt; ++i) {
      e.q.push_back(on.at(k++));
    }
    r.push_back(e);
  }
  if (!found) {
    throw std::runtime_error("unknown gate in the harness: " + call.gate);
  }
  if (inv) {
    std::reverse(r.begin(), r.end());
  }
  for (auto& e : r) {
    e.inv = e.inv != inv;
    e.c.insert(ctl.begin(), ctl.end());
  }
  return r;
}
void add(qc::QuantumComputation& q, const std::vector<El>& els) {
  for (const auto& e : els) {
    qc::Controls c;
    for (const auto& [x, pos] : e.c) {
      c.emplace(x, pos ? Control::Type::Pos : Control::Type::Neg);
    }
    if (e.t == qc::GPhase && c.empty()) {
      q.gphase(e.inv ? -e.p[0] : e.p[0]);
      continue;
    }
    auto op = std::make_unique<qc::StandardOperation>(c, e.q, e.t, e.p);
    if (e.inv) {
      op->invert();
    }
    q.emplace_back(std::move(op));
  }
}
std::size_t width(const Defs& defs, const Call& c) {
  std::size_t n = 0;
  for (const auto& m : c.mods) {
    n += m.n;
  }
  for (const auto& d : defs) {
    if (d.name == c.gate) {
      return n + d.qubits.size();
    }
  }
  for (const auto& s : stds()) {
    if (s.name == c.gate) {
      return n + s.ctl + s.tgt;
    }
  }
  return n;
}
std::size_t nargs(const Defs& defs, const std::string& g) {
  for (const auto& d : defs) {
    if (d.name == g) {
      return d.params.size();
    }
  }
  for (const auto& s : stds()) {
    if (s.name == g) {
      return s.par;
    }
  }
  return 0;
}
const std::string V3 = "OPENQASM 3.0;\ninclude \"stdgates.inc\";\n";
const std::string V2 = "OPENQASM 2.0;\ninclude \"qelib1.inc\";\n";
Strs names(std::size_t n, const std::string& reg = "q") {
  Strs s;
  for (std::size_t i = 0; i < n; ++i) {
    s.push_back(reg + "[" + std::to_string(i) + "]");
  }
  return s;
}
std::vector<std::vector<std::size_t>> arrangements(std::size_t n, std::size_t k) {
  std::vector<std::vector<std::size_t>> r;
  std::vector<std::size_t> p(n);
  std::iota(p.begin(), p.end(), 0);
  std::set<std::vector<std::size_t>> seen;
  do {
    std::vector<std::size_t> f(p.begin(), p.begin() + static_cast<long>(k));
    if (seen.insert(f).second) {
      r.push_back(f);
    }
  } while (std::next_permutation(p.begin(), p.end()));
  return r;
}
qc::QuantumComputation circuit(std::size_t n, std::size_t bits = 0) {
  qc::QuantumComputation q;
  q.addQubitRegister(n, "q");
  if (bits > 0) {
    q.addClassicalRegister(bits, "c");
  }
  return q;
}

// --- expressions -----------------------------------------------------------
struct Val {
  bool ok = true;
  bool flt = false;
  double f = 0;
  std::int64_t i = 0;
  [[nodiscard]] double d() const { return flt ? f : static_cast<double>(i); }
};
struct Ex {
  std::string op; // "" for a leaf
  std::string leaf;
  Val v;
  std::shared_ptr<Ex> a, b;
};
using ExP = std::shared_ptr<Ex>;
Val fl(double x) { return {std::isfinite(x), true, x, 0}; }
Val in(std::int64_t x) { return {std::abs(x) < 100000, false, 0, x}; }
Val eval(const Ex& e, bool two) {
  if (e.op.empty()) {
    return e.v;
  }
  const auto a = eval(*e.a, two);
  if (!a.ok) {
    return a;
  }
  if (e.b == nullptr) {
    if (e.op == "-") {
      return a.flt ? fl(-a.f) : in(-a.i);
    }
    if (e.op == "sin") {
      return fl(std::sin(a.d()));
    }
    if (e.op == "cos") {
      return fl(std::cos(a.d()));
    }
    if (e.op == "tan") {
      return fl(std::tan(a.d()));
    }
    if (e.op == "exp") {
      return fl(std::exp(a.d()));
    }
    if (e.op == "ln") {
      return fl(a.d() > 0 ? std::log(a.d()) : INFINITY);
    }
    return fl(a.d() >= 0 ? std::sqrt(a.d()) : INFINITY);
  }
  const auto b = eval(*e.b, two);
  if (!b.ok) {
    return b;
  }
  const bool f = a.flt || b.flt;
  switch (e.op[0]) {
  case '+':
    return f ? fl(a.d() + b.d()) : in(a.i + b.i);
  case '-':
    return f ? fl(a.d() - b.d()) : in(a.i - b.i);
  case '*':
    return f ? fl(a.d() * b.d()) : in(a.i * b.i);
  case '/':
    if (f || (two && b.i != 0 && a.i % b.i != 0)) {
      return fl(b.d() != 0 ? a.d() / b.d() : INFINITY);
    }
    if (b.i == 0) {
      return {false};
    }
    return in(a.i / b.i);
  default:
    if (!f && b.i >= 0 && std::abs(a.i) < 10 && b.i < 7) {
      std::int64_t x = 1;
      for (std::int64_t i = 0; i < b.i; ++i) {
        x *= a.i;
      }
      return in(x);
    }
    if (!f) {
      return {false}; // integers to negative powers, overflows
    }
    return fl(std::pow(a.d(), b.d()));
  }
}
int prec(const Ex& e) {
  if (e.op.empty()) {
    return e.leaf[0] == '-' ? 3 : 9;
  }
  if (e.b == nullptr) {
    return e.op == "-" ? 3 : 9;
  }
  return e.op[0] == '^' ? 4 : (e.op[0] == '+' || e.op[0] == '-') ? 1 : 2;
}
// written with as few parentheses as possible, with or without spaces
std::string write(const Ex& e, const std::string& sp) {
  const auto par = [&](const Ex& x, int min) {
    const auto s = write(x, sp);
    return prec(x) < min ? "(" + s + ")" : s;
  };
  if (e.op.empty()) {
    return e.leaf;
  }
  if (e.b == nullptr) {
    if (e.op == "-") {
      return "-" + sp + par(*e.a, 3);
    }
    return e.op + "(" + write(*e.a, sp) + ")";
  }
  switch (e.op[0]) {
  case '+':
  case '-':
    return par(*e.a, 1) + sp + e.op + sp + par(*e.b, 2);
  case '*':
  case '/':
    return par(*e.a, 2) + sp + e.op + sp + par(*e.b, 3);
  default:
    // chains of powers are always written with parentheses
    return par(*e.a, 5) + sp + e.op + sp + par(*e.b, 5);
  }
}
std::string full(const Ex& e) {
  if (e.op.empty()) {
    return "(" + e.leaf + ")";
  }
  if (e.b == nullptr) {
    return e.op == "-" ? "(-" + full(*e.a) + ")" : e.op + "(" + full(*e.a) + ")";
  }
  return "(" + full(*e.a) + e.op + full(*e.b) + ")";
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P10");
  std::cout.setstate(std::ios::failbit);
  r.assume("Chains of `^` are written with parentheses; integers are not raised "
           "to negative powers.");
  r.assume("Circuits are compared on all basis inputs and measurement results "
           "(Choi state per result) against an independent dense simulation.");
  { // every gate on all arrangements of its operands
    struct C {
      bool two;
      Call call;
      std::size_t n;
      Defs defs;
      std::vector<El> els;
    };
    static std::vector<C> cs;
    const Strs lits{"0.3", "-1.25", "2"};
    for (const bool two : {false, true}) {
      const auto put = [&](const std::string& name, std::size_t par, std::size_t w,
                           const std::function<std::vector<El>(
                               const std::vector<Qubit>&,
                               const std::vector<double>&)>& f,
                           bool dup = true) {
        const auto n = std::max<std::size_t>(w, w >= 4 ? w : w + 1);
        for (const auto& on : arrangements(n, w)) {
          Call c{{}, name, Strs(lits.begin(), lits.begin() + static_cast<long>(par)),
                 on};
          std::vector<Qubit> qs(on.begin(), on.end());
          std::vector<double> ps;
          for (const auto& a : c.args) {
            ps.push_back(std::stod(a));
          }
          cs.push_back({two, c, n, {}, f(qs, ps)});
          if (!dup) {
            break;
          }
        }
      };
      for (const auto& s : stds()) {
        if (s.name == "gphase" && two) {
          continue;
        }
        put(s.name, s.par, s.ctl + s.tgt, [s](const auto& q, const auto& p) {
          El e{s.t, p, {}, {}, false};
          for (std::size_t i = 0; i < q.size(); ++i) {
            if (i < s.ctl) {
              e.c[q[i]] = true;
            } else {
              e.q.push_back(q[i]);
            }
          }
          return std::vector<El>{e};
        }, s.ctl + s.tgt < 5);
        if (two && s.ctl + s.tgt <= 2 && s.name != "gphase" && s.name[0] != 'C') {
          // additional controls by a prefix of the name
          for (std::size_t k = 1; k <= 2; ++k) {
            const auto name = std::string(k, 'c') + s.name;
            if (std::any_of(stds().begin(), stds().end(),
                            [&](const auto& x) { return x.name == name; })) {
              continue;
            }
            if (name == "cu") {
              continue; // has four parameters
            }
            put(name, s.par, k + s.ctl + s.tgt, [s, k](const auto& q, const auto& p) {
              El e{s.t, p, {}, {}, false};
              for (std::size_t i = 0; i < q.size(); ++i) {
                if (i < k + s.ctl) {
                  e.c[q[i]] = true;
                } else {
                  e.q.push_back(q[i]);
                }
              }
              return std::vector<El>{e};
            });
          }
        }
      }
      // multi-controlled gates with and without ancillary qubits
      const auto mc = [&](const std::string& name, OpType t, std::size_t par,
                          std::size_t k, std::size_t w) {
        put(name, par, w, [t, k](const auto& q, const auto& p) {
          El e{t, p, {}, {}, false};
          for (std::size_t i = 0; i < k; ++i) {
            e.c[q[i]] = true;
          }
          e.q.push_back(q[k]);
          return std::vector<El>{e};
        }, w < 5);
      };
      for (std::size_t k = 0; k <= 4; ++k) {
        mc("mcx", qc::X, 0, k, k + 1);
        mc("mcx_gray", qc::X, 0, k, k + 1);
        mc("mcphase", qc::P, 1, k, k + 1);
      }
      mc("mcx_vchain", qc::X, 0, 2, 3);
      mc("mcx_vchain", qc::X, 0, 3, 5);
      for (std::size_t k = 1; k <= 4; ++k) {
        mc("mcx_recursive", qc::X, 0, k, k + 1);
      }
      mc("mcx_recursive", qc::X, 0, 5, 7);
      // cu has a relative phase
      if (!two) {
        for (const auto& on : arrangements(3, 2)) {
          El e{qc::U, {0.3, -1.25, 2}, {{static_cast<Qubit>(on[0]), true}},
               {static_cast<Qubit>(on[1])}, false};
          El f{qc::P, {0.7}, {}, {static_cast<Qubit>(on[0])}, false};
          cs.push_back({false, {{}, "cu", {"0.3", "-1.25", "2", "0.7"}, on}, 3, {},
                        {e, f}});
        }
      }
    }
    r.space("gates", cs.size(),
            "every built-in gate in OpenQASM 2 and 3, and every controlled form "
            "written with a prefix, on all arrangements of its operands",
            [&](std::uint64_t i, mc::Ctx& c) {
              const auto& x = cs[i];
              auto e = circuit(x.n);
              add(e, x.els);
              const auto text = (x.two ? V2 + "qreg q[" + std::to_string(x.n) + "];\n"
                                       : V3 + "qubit[" + std::to_string(x.n) +
                                             "] q;\n") +
                                x.call.text(names(x.n));
              judge(c, "gate", text, e);
            });
  }
  // definitions shared by the next spaces
  static const Defs defs{
      {"g1", {}, {"a"}, {{{}, "h", {}, {0}}, {{}, "t", {}, {0}}}},
      {"g2", {"th"}, {"a", "b"},
       {{{}, "rx", {"th"}, {1}}, {{}, "cx", {}, {1, 0}}, {{}, "p", {"-th"}, {0}}}},
      {"g3", {"x", "th"}, {"b", "a"},
       {{{}, "g2", {"x"}, {0, 1}}, {{}, "ry", {"th/2"}, {0}},
        {{modifiers()[0]}, "g2", {"th"}, {1, 0}}}},
      {"g4", {"th"}, {"q", "r"},
       {{{modifiers()[2]}, "g1", {}, {1, 0}}, {{}, "gphase", {"th"}, {}}}},
      {"g5", {}, {"a", "b", "c"}, {{{}, "ccx", {}, {2, 0, 1}}}},
      {"g6", {}, {"a"}, {}}};
  static std::string deftext;
  for (const auto& d : defs) {
    deftext += d.text();
  }
  { // modifiers
    static std::vector<std::pair<Call, std::size_t>> cs;
    const Strs gates{"x",    "s",      "sx",    "t",  "rx", "p",     "u2",
                     "u3",   "cx",     "cp",    "ch", "ccx", "swap", "iswap",
                     "dcx",  "cswap",  "rzx",   "ecr", "xx_minus_yy", "gphase",
                     "g1",   "g2",     "g3",    "g4", "g5",  "g6", "h", "sdg", "ry",
                     "rz", "crz", "rxx", "xx_plus_yy", "id", "iswapdg", "y", "z"};
    const Strs lits{"0.3", "-1.25", "2"};
    const std::size_t depth = r.thorough ? 3 : 2;
    std::vector<std::vector<Mod>> seqs{{}};
    for (std::size_t k = 0, from = 0; k < depth; ++k) {
      const auto to = seqs.size();
      for (; from < to; ++from) {
        for (const auto& m : modifiers()) {
          auto s = seqs[from];
          s.push_back(m);
          seqs.push_back(s);
        }
      }
    }
    for (const auto& g : gates) {
      for (const auto& m : seqs) {
        Call c{m, g, Strs(lits.begin(), lits.begin() + static_cast<long>(nargs(defs, g))), {}};
        const auto w = width(defs, c);
        if (w > 5) {
          continue;
        }
        const auto all = arrangements(std::max<std::size_t>(w, 1), w);
        for (std::size_t k = 0; k < all.size(); k += std::max<std::size_t>(1, all.size() / 6)) {
          c.on = all[k];
          cs.emplace_back(c, std::max<std::size_t>(w, 1));
        }
      }
    }
    r.space("modifiers", cs.size(),
            "all sequences of up to " + std::to_string(depth) +
                " modifiers inv, ctrl, negctrl, ctrl(2), negctrl(2) on built-in and "
                "user-defined gates (nested, parametrised, modified inside)",
            [&](std::uint64_t i, mc::Ctx& c) {
              const auto& [call, n] = cs[i];
              auto e = circuit(n);
              std::vector<Qubit> on(call.on.begin(), call.on.end());
              add(e, expand(defs, call, on, {}));
              judge(c, "modifiers",
                    V3 + deftext + "qubit[" + std::to_string(n) + "] q;\n" +
                        call.text(names(n)),
                    e);
            });
  }
  { // gate definitions: all bodies of up to two calls, called in every way
    static std::vector<std::pair<Defs, Call>> cs;
    std::vector<Call> inner;
    const Strs exprs{"u", "-v", "u/2", "v+0.5", "1"};
    for (const auto& on : arrangements(2, 2)) {
      inner.push_back({{}, "cx", {}, on});
      inner.push_back({{modifiers()[0]}, "crx", {"u"}, on});
      inner.push_back({{modifiers()[2]}, "ry", {"v/2"}, on});
      for (const auto& x : exprs) {
        inner.push_back({{}, "inn", {x, "u"}, on});
      }
      inner.push_back({{modifiers()[0]}, "inn", {"v", "u"}, on});
    }
    for (std::size_t q : {0U, 1U}) {
      inner.push_back({{}, "rx", {"v+0.5"}, {q}});
      inner.push_back({{modifiers()[0]}, "s", {}, {q}});
      inner.push_back({{modifiers()[0], modifiers()[0]}, "t", {}, {q}});
    }
    inner.push_back({{}, "gphase", {"u"}, {}});
    // the inner gate has parameters of the same names in another order
    const Def in{"inn", {"v", "u"}, {"b", "a"},
                 {{{}, "rz", {"v"}, {0}}, {{}, "crx", {"u"}, {1, 0}}}};
    for (std::size_t a = 0; a < inner.size(); ++a) {
      for (std::size_t b = 0; b <= inner.size(); ++b) {
        Def d{"out", {"u", "v"}, {"a", "b"}, {inner[a]}};
        if (b < inner.size()) {
          d.body.push_back(inner[b]);
        }
        for (const auto& m : std::vector<std::vector<Mod>>{
                 {}, {modifiers()[0]}, {modifiers()[2]}}) {
          Call call{m, "out", {"0.7", "-0.4"}, m.size() == 1 && !m[0].inv
                                                   ? std::vector<std::size_t>{2, 1, 0}
                                                   : std::vector<std::size_t>{2, 0}};
          cs.push_back({{in, d}, call});
        }
      }
    }
    r.space("definitions", cs.size() * 2,
            "all gates defined by up to two calls of modified, parametrised and "
            "user-defined gates, called plainly, inverted and controlled, with "
            "constants of the names of the parameters declared before",
            [&](std::uint64_t i, mc::Ctx& c) {
              const auto& [ds, call] = cs[i / 2];
              auto e = circuit(3);
              std::vector<Qubit> on(call.on.begin(), call.on.end());
              add(e, expand(ds, call, on, {}));
              std::string t = V3;
              if (i % 2 != 0) {
                t += "const float u = 5.5;\nconst float v = 2.25;\n";
              }
              for (const auto& d : ds) {
                t += d.text();
              }
              // registers named like the qubits of the definition
              judge(c, "definition", t + "qubit[3] a;\n" + call.text(names(3, "a")), e);
            });
  }
  { // broadcasting
    struct Opd {
      std::string t;
      std::vector<Qubit> q;
    };
    static const std::vector<Opd> ops{{"a", {0, 1}},  {"a[0]", {0}}, {"a[1]", {1}},
                                      {"b", {2, 3}},  {"b[1]", {3}}, {"d", {4}},
                                      {"d[0]", {4}}};
    static const std::vector<std::pair<std::string, std::size_t>> gs{
        {"h", 1},   {"cx", 2}, {"swap", 2}, {"negctrl @ s", 2}, {"ccx", 3},
        {"g5", 3},  {"g1", 1}, {"inv @ g2(0.3)", 2}, {"negctrl @ g2(0.3)", 3},
        {"mcx", 3}};
    static std::vector<std::pair<std::size_t, std::vector<std::size_t>>> cs;
    for (std::size_t g = 0; g < gs.size(); ++g) {
      std::size_t total = 1;
      for (std::size_t k = 0; k < gs[g].second; ++k) {
        total *= ops.size();
      }
      for (std::size_t i = 0; i < total; ++i) {
        std::vector<std::size_t> o;
        for (std::size_t k = 0, x = i; k < gs[g].second; ++k, x /= ops.size()) {
          o.push_back(x % ops.size());
        }
        cs.emplace_back(g, o);
      }
    }
    r.space("broadcast", cs.size(),
            "gates of one to three operands on all combinations of two registers "
            "of two qubits, one of one qubit, and single qubits",
            [&](std::uint64_t i, mc::Ctx& c) {
              const auto& [g, o] = cs[i];
              std::string t = V3 + deftext + "qubit[2] a;\nqubit[2] b;\nqubit[1] d;\n" +
                              gs[g].first + " ";
              std::size_t w = 1;
              for (std::size_t k = 0; k < o.size(); ++k) {
                t += (k != 0 ? ", " : "") + ops[o[k]].t;
                w = std::max(w, ops[o[k]].q.size());
              }
              t += ";";
              qc::QuantumComputation e;
              e.addQubitRegister(2, "a");
              e.addQubitRegister(2, "b");
              e.addQubitRegister(1, "d");
              bool dup = false;
              bool mixed = false; // a register of one qubit next to a longer one
              const auto& name = gs[g].first;
              for (std::size_t j = 0; j < w; ++j) {
                std::vector<Qubit> on;
                for (const auto k : o) {
                  on.push_back(ops[k].q.size() > 1 ? ops[k].q[j] : ops[k].q[0]);
                  mixed = mixed || (w > 1 && ops[k].t == "d");
                }
                dup = dup || std::set<Qubit>(on.begin(), on.end()).size() < on.size();
                if (dup) {
                  break;
                }
                Call call;
                if (name == "negctrl @ s") {
                  call = {{modifiers()[2]}, "s", {}, {}};
                } else if (name == "inv @ g2(0.3)") {
                  call = {{modifiers()[0]}, "g2", {"0.3"}, {}};
                } else if (name == "negctrl @ g2(0.3)") {
                  call = {{modifiers()[2]}, "g2", {"0.3"}, {}};
                } else if (name == "mcx") {
                  call = {{}, "ccx", {}, {}};
                } else {
                  call = {{}, name, {}, {}};
                }
                add(e, expand(defs, call, on, {}));
              }
              judge(c, "broadcast", t, e, dup ? Never : mixed ? May : Must);
            });
  }
  { // expressions
    static std::vector<ExP> es;
    const auto leaf = [](const std::string& s, Val v) {
      return std::make_shared<Ex>(Ex{"", s, v, nullptr, nullptr});
    };
    const std::vector<ExP> leaves{
        leaf("1", in(1)),       leaf("2", in(2)),   leaf("3", in(3)),
        leaf("0.5", fl(0.5)),   leaf("pi", fl(qc::PI)), leaf("-1", in(-1)),
        leaf("-2.5", fl(-2.5)), leaf("n", in(4)),   leaf("f", fl(3))};
    const Strs bin{"+", "-", "*", "/", "^"};
    const Strs un{"-", "sin", "cos", "tan", "exp", "ln", "sqrt"};
    const auto b = [](const std::string& o, const ExP& x, const ExP& y) {
      return std::make_shared<Ex>(Ex{o, "", {}, x, y});
    };
    const auto u = [](const std::string& o, const ExP& x) {
      return std::make_shared<Ex>(Ex{o, "", {}, x, nullptr});
    };
    std::vector<ExP> d1 = leaves;
    for (const auto& x : leaves) {
      for (const auto& o : un) {
        d1.push_back(u(o, x));
      }
      for (const auto& y : leaves) {
        for (const auto& o : bin) {
          d1.push_back(b(o, x, y));
        }
      }
    }
    es = d1;
    for (const auto& x : d1) {
      for (const auto& o : un) {
        if (x->op.empty()) {
          continue;
        }
        es.push_back(u(o, x));
      }
      if (x->op.empty()) {
        continue;
      }
      for (const auto& y : leaves) {
        if (!r.thorough && (y->leaf == "3" || y->leaf == "-2.5" ||
                            y->leaf == "2" || y->leaf == "pi" || y->leaf == "f")) {
          continue;
        }
        for (const auto& o : bin) {
          es.push_back(b(o, x, y));
          es.push_back(b(o, y, x));
        }
      }
    }
    // three operators in a row, without parentheses
    for (const auto& o : bin) {
      for (const auto& p : bin) {
        for (const auto& q : bin) {
          if ((o == "^") + (p == "^") + (q == "^") > 1) {
            continue;
          }
          const auto x = leaves[7];
          for (const auto& y : {leaves[0], leaves[3], leaves[5]}) {
            for (const auto& z : {leaves[1], leaves[6]}) {
              es.push_back(b(o, b(p, x, y), b(q, z, leaves[1])));
              es.push_back(b(o, b(p, b(q, x, y), z), leaves[1]));
              es.push_back(u("-", b(o, b(p, x, y), b(q, z, leaves[1]))));
            }
          }
        }
      }
    }
    r.space("expressions", es.size(),
            "all expressions of up to two levels over integers, floats, constants, "
            "+ - * / ^, negation and functions, in OpenQASM 2 and 3, written with "
            "all, and with as few as possible, parentheses (and, for a part of them, "
            "with and without spaces)",
            [&](std::uint64_t i, mc::Ctx& c) {
              for (const bool two : {false, true}) {
                const auto v = eval(*es[i], two);
                if (!v.ok || std::abs(v.d()) > 1e6) {
                  c.skip();
                  continue;
                }
                std::set<std::string> texts{write(*es[i], ""), full(*es[i])};
                if (r.thorough || i % 4 == 0) {
                  texts.insert(write(*es[i], " "));
                }
                for (const auto& t : texts) {
                  if (two && (t.find('n') != std::string::npos ||
                              t.find('f') != std::string::npos)) {
                    // sin, tan, ... or a constant; OpenQASM 2 has no constants
                    bool constant = false;
                    for (std::size_t k = 0; k < t.size(); ++k) {
                      if ((t[k] == 'n' || t[k] == 'f') &&
                          (k == 0 || !std::isalpha(t[k - 1])) &&
                          (k + 1 == t.size() || !std::isalpha(t[k + 1]))) {
                        constant = true;
                      }
                    }
                    if (constant) {
                      continue;
                    }
                  }
                  auto e = circuit(1);
                  e.emplace_back<qc::StandardOperation>(qc::Targets{0}, qc::RX,
                                                        std::vector<double>{v.d()});
                  judge(c, two ? "expression2" : "expression",
                        (two ? V2 + "qreg q[1];\n"
                             : V3 + "const uint n = 4;\nconst float f = 3;\nqubit[1] "
                                    "q;\n") +
                            "rx(" + t + ") q[0];",
                        e);
                }
              }
            });
  }
  { // numbers
    static std::vector<std::pair<std::string, double>> ns;
    for (int k = 0; k < 300; ++k) {
      char buf[64];
      for (const char* f : {"0x%x", "0x%X", "0X%x", "0o%o", "%d", "%d.", "%d.0"}) {
        std::snprintf(buf, sizeof(buf), f, k);
        ns.emplace_back(buf, k);
      }
      std::string bits;
      for (int x = k; x > 0 || bits.empty(); x /= 2) {
        bits = std::string(1, static_cast<char>('0' + x % 2)) + bits;
      }
      ns.emplace_back("0b" + bits, k);
      ns.emplace_back("0B" + bits, k);
      if (bits.size() > 2) {
        ns.emplace_back("0b" + bits.substr(0, 2) + "_" + bits.substr(2), k);
      }
      ns.emplace_back("." + std::to_string(1000 + k), (1000 + k) * 1e-4);
      ns.emplace_back(std::to_string(k) + "e-2", k * 1e-2);
      ns.emplace_back(std::to_string(k) + "E1", k * 10.);
      ns.emplace_back(std::to_string(k) + ".25e+1", k * 10. + 2.5);
      ns.emplace_back("-" + std::to_string(k), -k);
      ns.emplace_back("-" + std::to_string(k) + ".5", -k - 0.5);
      ns.emplace_back("1_0" + std::to_string(k % 10), 100. + k % 10);
    }
    r.space("numbers", ns.size(), "numbers in all notations",
            [&](std::uint64_t i, mc::Ctx& c) {
              auto e = circuit(1);
              e.emplace_back<qc::StandardOperation>(
                  qc::Targets{0}, qc::RX, std::vector<double>{ns[i].second});
              judge(c, "number", V3 + "qubit[1] q;\nrx(" + ns[i].first + ") q[0];", e);
            });
  }
  { // conditions
    struct Cond {
      std::string t;
      bool two;
      Want want;
      int bit; // -1: register
      std::string reg;
      qc::ComparisonKind k;
      std::uint64_t v;
    };
    static std::vector<Cond> cs;
    const std::vector<std::pair<std::string, qc::ComparisonKind>> kinds{
        {"==", qc::Eq},  {"!=", qc::Neq}, {"<", qc::Lt},
        {"<=", qc::Leq}, {">", qc::Gt},   {">=", qc::Geq}};
    const auto flip = [](qc::ComparisonKind k) {
      switch (k) {
      case qc::Lt:
        return qc::Gt;
      case qc::Leq:
        return qc::Geq;
      case qc::Gt:
        return qc::Lt;
      case qc::Geq:
        return qc::Leq;
      default:
        return k;
      }
    };
    for (const std::string& reg : {"c", "d"}) {
      for (std::uint64_t v = 0; v <= 5; ++v) {
        for (const auto& [t, k] : kinds) {
          const auto s = std::to_string(v);
          cs.push_back({reg + t + s, k == qc::Eq, Must, -1, reg, k, v});
          cs.push_back({reg + " " + t + " " + s, false, Must, -1, reg, k, v});
          cs.push_back({s + " " + t + " " + reg, false, May, -1, reg, flip(k), v});
        }
      }
    }
    // c occupies the bits 1 and 2, d the bit 3, e the bit 0
    const std::vector<std::pair<std::string, int>> bits{
        {"e[0]", 0}, {"c[0]", 1}, {"c[1]", 2}, {"d[0]", 3}, {"d", 3}, {"e", 0}};
    for (const auto& [b, x] : bits) {
      cs.push_back({b, false, Must, x, "", qc::Eq, 1});
      cs.push_back({"!" + b, false, Must, x, "", qc::Eq, 0});
      cs.push_back({"~" + b, false, May, x, "", qc::Eq, 0});
      cs.push_back({"(" + b + ")", false, May, x, "", qc::Eq, 1});
      cs.push_back({"!(" + b + ")", false, May, x, "", qc::Eq, 0});
      if (b.size() > 1) {
        for (const std::uint64_t v : {0U, 1U}) {
          const auto s = std::to_string(v);
          cs.push_back({b + " == " + s, false, May, x, "", qc::Eq, v});
          cs.push_back({b + " != " + s, false, May, x, "", qc::Eq, 1 - v});
          cs.push_back({s + " == " + b, false, May, x, "", qc::Eq, v});
          cs.push_back({s + " != " + b, false, May, x, "", qc::Eq, 1 - v});
          cs.push_back({b + " == " + (v == 1 ? "true" : "false"), false, May, x, "",
                        qc::Eq, v});
          cs.push_back({b + " > " + s, false, v == 0 ? May : Never, x, "", qc::Eq, 1});
        }
      }
    }
    // shapes of the statement
    static const Strs shapes{"T", "{ T }", "{ T U }", "{ T } else { U }",
                             "T else U",  "{ } else { T }", "{ T U } else { V }",
                             "{ B }"};
    r.space("conditions", cs.size() * shapes.size() * 2,
            "all comparisons of registers and bits with all values, negations, both "
            "operand orders; then- and else-branches of one or two statements, as "
            "blocks and single statements; in OpenQASM 2 and 3",
            [&](std::uint64_t i, mc::Ctx& c) {
              const bool two = i % 2 != 0;
              const auto& x = cs[i / 2 / shapes.size()];
              const auto& sh = shapes[i / 2 % shapes.size()];
              if (two && (!x.two || sh != "T")) {
                c.skip();
                return;
              }
              auto text =
                  two ? V2 + "qreg q[2];\ncreg e[1];\ncreg c[2];\ncreg d[1];\nh "
                             "q;\nmeasure q[0] -> c[0];\nmeasure q[1] -> c[1];\n"
                             "h q;\nmeasure q[0] -> d[0];\nmeasure q[1] -> e[0];\n"
                      : V3 + "qubit[2] q;\nbit[1] e;\nbit[2] c;\nbit[1] d;\nh q;\nc = "
                             "measure q;\nh q;\nd[0] = measure q[0];\ne[0] = measure "
                             "q[1];\n";
              qc::QuantumComputation q;
              q.addQubitRegister(2, "q");
              const auto& er = q.addClassicalRegister(1, "e");
              (void)er;
              q.addClassicalRegister(2, "c");
              q.addClassicalRegister(1, "d");
              q.h(0);
              q.h(1);
              q.measure(0, 1);
              q.measure(1, 2);
              q.h(0);
              q.h(1);
              q.measure(0, 3);
              q.measure(1, 0);
              const auto ops = [](char k) {
                std::vector<OpPtr> o;
                if (k == 'T') {
                  o.push_back(std1(qc::X, 1));
                } else if (k == 'U') {
                  o.push_back(std1(qc::RY, 0, {0.4}, {Control{1}}));
                } else if (k == 'V') {
                  o.push_back(std1(qc::RX, 1, {0.9}));
                } else {
                  o.push_back(std1(qc::RX, 0, {0.9}));
                  o.push_back(std1(qc::RX, 1, {0.9}));
                }
                return o;
              };
              std::string st;
              bool neg = false;
              for (std::size_t k = 0; k < sh.size(); ++k) {
                if (sh.substr(k, 4) == "else") {
                  neg = true;
                  st += "else";
                  k += 3;
                  continue;
                }
                const char ch = sh[k];
                if (ch == 'T' || ch == 'U' || ch == 'V' || ch == 'B') {
                  st += ch == 'T'   ? "x q[1];"
                        : ch == 'U' ? "cry(0.4) q[1], q[0];"
                        : ch == 'V' ? "rx(0.9) q[1];"
                                    : "rx(0.9) q;";
                  for (auto& o : ops(ch)) {
                    if (x.bit >= 0) {
                      q.emplace_back<qc::ClassicControlledOperation>(
                          o->clone(), static_cast<Bit>(x.bit),
                          neg ? 1 - x.v : x.v);
                    } else {
                      auto kind = x.k;
                      if (neg) {
                        kind = qc::getInvertedComparisonKind(kind);
                      }
                      q.emplace_back<qc::ClassicControlledOperation>(
                          o->clone(), q.getClassicalRegisters().at(x.reg), x.v, kind);
                    }
                  }
                } else {
                  st += ch;
                }
              }
              judge(c, "condition", text + "if (" + x.t + ") " + st, q, x.want);
            });
  }
  { // measurement, reset, barrier
    struct S {
      std::string t2, t3;
      std::function<void(qc::QuantumComputation&)> f;
      Want w;
    };
    static std::vector<S> ss;
    const std::vector<std::pair<std::string, std::vector<Qubit>>> qs{
        {"a", {0, 1}}, {"b", {2}}, {"a[0]", {0}}, {"a[1]", {1}}, {"b[0]", {2}}};
    const std::vector<std::pair<std::string, std::vector<Bit>>> bs{
        {"y", {1, 2}}, {"x", {0}}, {"y[0]", {1}}, {"y[1]", {2}}, {"x[0]", {0}}};
    for (const auto& [qt, q] : qs) {
      for (const auto& [bt, b] : bs) {
        ss.push_back({"measure " + qt + " -> " + bt + ";", bt + " = measure " + qt + ";",
                      [q = q, b = b](qc::QuantumComputation& e) {
                        if (q.size() == b.size()) {
                          e.measure(q, b);
                        }
                      },
                      q.size() == b.size() ? Must : Never});
        ss.push_back({"", "measure " + qt + " -> " + bt + ";",
                      [q = q, b = b](qc::QuantumComputation& e) {
                        if (q.size() == b.size()) {
                          e.measure(q, b);
                        }
                      },
                      q.size() == b.size() ? Must : Never});
      }
      ss.push_back({"reset " + qt + ";", "reset " + qt + ";",
                    [q = q](qc::QuantumComputation& e) {
                      e.reset(std::vector<Qubit>(q));
                    },
                    Must});
      ss.push_back({"barrier " + qt + ";", "barrier " + qt + ", b;",
                    [](qc::QuantumComputation&) {}, qt[0] == 'b' ? May : Must});
    }
    ss.push_back({"barrier a, b;", "barrier;", [](qc::QuantumComputation&) {}, Must});
    ss.push_back({"h a;", "h a;", [](qc::QuantumComputation& e) { e.h(0); e.h(1); }, Must});
    ss.push_back({"cx a[1],b[0];", "cx a[1], b;",
                  [](qc::QuantumComputation& e) { e.cx(1, 2); }, Must});
    const auto n = ss.size();
    r.space("statements", n * n * n * 2,
            "all sequences of up to three measurements (arrow and assignment), "
            "resets, barriers and gates on registers and bits, after a superposition",
            [&, n](std::uint64_t i, mc::Ctx& c) {
              const bool two = i % 2 != 0;
              const std::vector<std::size_t> k{i / 2 % n, i / 2 / n % n, i / 2 / n / n};
              if (!r.thorough && k[2] != n - 1 && k[2] != n - 2) {
                c.skip();
                return;
              }
              auto t = two ? V2 + "qreg a[2];\nqreg b[1];\ncreg x[1];\ncreg y[2];\n"
                           : V3 + "qubit[2] a;\nqubit b;\nbit x;\nbit[2] y;\n";
              qc::QuantumComputation e;
              e.addQubitRegister(2, "a");
              e.addQubitRegister(1, "b");
              e.addClassicalRegister(1, "x");
              e.addClassicalRegister(2, "y");
              t += "ry(0.4) a[0];\nry(0.9) a[1];\nry(1.3) b;\n";
              e.ry(0.4, 0);
              e.ry(0.9, 1);
              e.ry(1.3, 2);
              Want w = Must;
              for (const auto x : {k[2], k[0], k[1]}) {
                const auto& s = ss[x];
                if (two && s.t2.empty()) {
                  c.skip();
                  return;
                }
                t += (two ? s.t2 : s.t3) + "\n";
                s.f(e);
                if (s.w == Never || w == Never) {
                  w = Never;
                } else if (s.w == May) {
                  w = May;
                }
              }
              judge(c, "statement", t, e, w);
            });
  }
  { // declarations, hardware qubits, comments
    static std::vector<std::tuple<std::string, std::function<qc::QuantumComputation()>, Want>> ps;
    const auto put = [](const std::string& t, const std::function<void(qc::QuantumComputation&)>& f,
                        std::size_t n = 3, std::size_t bits = 0, Want w = Must) {
      ps.emplace_back(t, [=] { auto q = circuit(n, bits); f(q); return q; }, w);
    };
    const auto h = [](qc::QuantumComputation& q) { q.h(0); q.cx(0, 2); };
    const std::string body = "h q[0];\ncx q[0], q[2];\n";
    for (const char* d : {"qubit[3] q;\n", "qreg q[3];\n", "const uint n = 3; qubit[n] q;\n",
                          "const uint n = 2; qubit[n+1] q;\n",
                          "const uint n = 7; const uint m = n / 2; qubit[m] q;\n",
                          "const uint[8] n = 5; qubit[n-2] q;\n",
                          "const uint n = 2; qubit[n*n-1] q;\n", "qubit[0x3] q;\n",
                          "qubit[0b11] q;\n"}) {
      put(V3 + d + body, h, 3, 0, std::string(d).find("[8]") != std::string::npos ? May : Must);
    }
    put(V3 + "qubit[3] q;\nbit[2] c = measure q[0];\n", h, 3, 2, Never);
    put(V3 + "qubit[3] q;\nh q;\nbit[3] c = measure q;\n",
        [](qc::QuantumComputation& q) { for (Qubit i = 0; i < 3; ++i) { q.h(i); } q.measure({0, 1, 2}, {0, 1, 2}); }, 3, 3);
    put(V3 + "qubit[3] q;\nh q[1];\nbit c = measure q[1];\n",
        [](qc::QuantumComputation& q) { q.h(1); q.measure(1, 0); }, 3, 1);
    for (Qubit a = 0; a < 3; ++a) {
      for (Qubit b = 0; b < 3; ++b) {
        if (a != b) {
          const auto A = "$" + std::to_string(a);
          const auto B = "$" + std::to_string(b);
          put(V3 + "bit[3] c;\nh $2;\nh $0;\nrx(0.3) " + A + ";\ncx " + A + ", " + B +
                  ";\nreset " + B + ";\nnegctrl @ ry(0.7) " + B + ", " + A +
                  ";\nc[1] = measure " + A + ";\n",
              [a, b](qc::QuantumComputation& q) {
                q.h(2);
                q.h(0);
                q.rx(0.3, a);
                q.cx(a, b);
                q.reset(b);
                q.cry(0.7, Control{b, Control::Type::Neg}, a);
                q.measure(a, 1);
              }, 3, 3);
          const std::string k = "const uint i = " + std::to_string(a) +
                                ";\nconst uint j = " + std::to_string(b) + ";\n";
          put(V3 + "qubit[3] q;\nbit[3] c;\n" + k + "cx q[i], q[j];\nh q[(i + 1) - 1];\nc[j] = measure q[i];\n",
              [a, b](qc::QuantumComputation& q) { q.cx(a, b); q.h(a); q.measure(a, b); }, 3, 3);
        }
      }
    }
    for (const std::string& v : {V2, V3}) {
      const std::string decl = v == V2 ? "qreg q[3];\n" : "qubit[3] q;\n";
      // comments without a meaning
      for (const char* cm :
           {"// hi 5 times\n", "// gate i 2 times\n", "// o\n", "// i\n", "//\n",
            "// to 1 2 3\n", "/* i 2 1 0 */\n", "/* o 2 1 0\n x q[0]; */\n",
            "// input 1\n", "// i 1 and 2\n", "//// x q[0];\n", "/**/", "/* * / **/",
            "// o 3 x\n", "\t\r\n  \n"}) {
        put(v + cm + decl + body, h);
        put(v + decl + cm + body + cm, h);
        put(cm + v + decl + body, h);
        put(v + decl + "h q[0]; " + cm + "\ncx q[0], " + cm + " q[2];", h);
      }
      std::vector<Qubit> p{0, 1, 2};
      do {
        std::vector<Qubit> o{0, 1, 2};
        do {
          for (const bool end : {false, true}) {
            std::string l;
            for (const auto& [k, x] : {std::pair{"i", p}, std::pair{"o", o}}) {
              l += std::string("// ") + k;
              for (const auto y : x) {
                l += " " + std::to_string(y);
              }
              l += "\n";
            }
            put((end ? "" : l) + v + decl + body + (end ? l : ""),
                [p, o, h](qc::QuantumComputation& q) {
                  h(q);
                  for (Qubit k = 0; k < 3; ++k) {
                    q.initialLayout[p[k]] = k;
                    q.outputPermutation[o[k]] = k;
                  }
                });
          }
        } while (std::next_permutation(o.begin(), o.end()));
      } while (std::next_permutation(p.begin(), p.end()));
    }
    // definitions named like controlled gates
    put(V2 + "gate foo a { h a; t a; }\ngate cfoo a,b { cx a,b; s b; }\nqreg q[3];\n"
             "foo q[1];\ncfoo q[0],q[2];\n",
        [](qc::QuantumComputation& q) {
          q.h(1);
          q.t(1);
          q.cx(0, 2);
          q.s(2);
        });
    put(V2 + "gate foo a { h a; t a; }\nqreg q[3];\ncfoo q[0],q[2];\n",
        [](qc::QuantumComputation& q) { q.ch(0, 2); q.ct(0, 2); });
    put(V2 + "opaque x a;\nqreg q[3];\nh q[0];\ncx q[0],q[2];\n", h);
    put(V2 + "gate cx a,b { CX a,b; }\ngate h a { u2(0,pi) a; }\nqreg q[3];\nh "
             "q[0];\ncx q[0],q[2];\n", h);
    // includes in every place
    for (const char* a : {"", "include \"stdgates.inc\";\n"}) {
      for (const char* b : {"", "include \"stdgates.inc\";\n"}) {
        put("OPENQASM 3.0;\n" + std::string(a) + b + "qubit[3] q;\n" + b + body + a + b, h);
        put(V2 + a + "qreg q[3];\n" + b + body + a + b, h);
      }
    }
    r.space("programs", ps.size(),
            "register and constant declarations, initialisation by measurement, "
            "indices by constant expressions, hardware qubits, comments with and "
            "without layouts, redeclared gates",
            [&](std::uint64_t i, mc::Ctx& c) {
              const auto& [t, f, w] = ps[i];
              judge(c, "program", t, f(), w);
            });
  }
  std::cout.clear();
  return r.finish();
}
