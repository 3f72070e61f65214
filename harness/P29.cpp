// P29: the dialect accepts exactly well-formed operations and prints them back.
#include "mc.hpp"
#include "mlir/Dialect/MQTOpt/IR/MQTOptDialect.h"

#include <array>
#include <cstdint>
#include <llvm/Support/raw_ostream.h>
#include <mlir/Dialect/Func/IR/FuncOps.h>
#include <mlir/IR/BuiltinOps.h>
#include <mlir/IR/Diagnostics.h>
#include <mlir/IR/MLIRContext.h>
#include <mlir/IR/OwningOpRef.h>
#include <mlir/IR/Verifier.h>
#include <mlir/Parser/Parser.h>
#include <optional>
#include <string>
#include <vector>

namespace {
mlir::MLIRContext& context() {
  static auto* ctx = [] {
    auto* c = new mlir::MLIRContext(mlir::MLIRContext::Threading::DISABLED);
    c->loadDialect<mlir::func::FuncDialect, mqt::ir::opt::MQTOptDialect>();
    c->getDiagEngine().registerHandler(
        [](mlir::Diagnostic&) { return mlir::success(); });
    return c;
  }();
  return *ctx;
}

struct GateInfo {
  const char* name;
  int targets; // -1: any number
  int params;
  bool controls;
};
// the gates as the dialect's documentation describes them
const std::vector<GateInfo> GATES = {
    {"GPhase", 0, 1, true},    {"I", 1, 0, true},
    {"barrier", -1, 0, false}, {"H", 1, 0, true},
    {"x", 1, 0, true},         {"y", 1, 0, true},
    {"z", 1, 0, true},         {"s", 1, 0, true},
    {"sdg", 1, 0, true},       {"t", 1, 0, true},
    {"tdg", 1, 0, true},       {"v", 1, 0, true},
    {"vdg", 1, 0, true},       {"u", 1, 3, true},
    {"u2", 1, 2, true},        {"p", 1, 1, true},
    {"sx", 1, 0, true},        {"sxdg", 1, 0, true},
    {"rx", 1, 1, true},        {"ry", 1, 1, true},
    {"rz", 1, 1, true},        {"swap", 2, 0, true},
    {"iswap", 2, 0, true},     {"iswapdg", 2, 0, true},
    {"peres", 2, 0, true},     {"peresdg", 2, 0, true},
    {"dcx", 2, 0, true},       {"ecr", 2, 0, true},
    {"rxx", 2, 1, true},       {"ryy", 2, 1, true},
    {"rzz", 2, 1, true},       {"rzx", 2, 1, true},
    {"xxminusyy", 2, 2, true}, {"xxplusyy", 2, 2, true}};

struct Shape {
  int dyn = 0;
  std::optional<std::vector<std::string>> stat;
  std::optional<std::vector<bool>> mask;
  int tgt = 0;
  int pos = 0;
  int neg = 0;
  int out = 0;
};

constexpr const char* HEAD =
    "func.func @f(%q0: !mqtopt.Qubit, %q1: !mqtopt.Qubit, %q2: !mqtopt.Qubit, "
    "%q3: !mqtopt.Qubit, %q4: !mqtopt.Qubit, %q5: !mqtopt.Qubit, "
    "%q6: !mqtopt.Qubit, %q7: !mqtopt.Qubit, %q8: !mqtopt.Qubit, "
    "%q9: !mqtopt.Qubit, %p0: f64, %p1: f64, "
    "%p2: f64, %p3: f64, %r: !mqtopt.QubitRegister, %i: i64, %b: i1) {\n";
constexpr const char* TAIL = "  return\n}\n";

std::string list(const std::vector<std::string>& v) {
  std::string r;
  for (const auto& s : v) {
    r += (r.empty() ? "" : ", ") + s;
  }
  return r;
}

/// generic form of an operation
std::string generic(const std::string& name,
                    const std::vector<std::string>& operands,
                    const std::vector<std::string>& types,
                    const std::vector<std::string>& props,
                    const std::vector<std::string>& results) {
  std::string s = "  ";
  if (!results.empty()) {
    s += "%o:" + std::to_string(results.size()) + " = ";
  }
  s += "\"mqtopt." + name + "\"(" + list(operands) + ")";
  if (!props.empty()) {
    s += " <{" + list(props) + "}>";
  }
  return s + " : (" + list(types) + ") -> (" + list(results) + ")\n";
}

std::string gateText(const GateInfo& g, const Shape& h) {
  std::vector<std::string> ops;
  std::vector<std::string> types;
  for (int k = 0; k < h.dyn; ++k) {
    ops.push_back("%p" + std::to_string(k));
    types.emplace_back("f64");
  }
  for (int k = 0; k < h.tgt + h.pos + h.neg; ++k) {
    ops.push_back("%q" + std::to_string(k));
    types.emplace_back("!mqtopt.Qubit");
  }
  std::vector<std::string> props{
      "operandSegmentSizes = array<i32: " + std::to_string(h.dyn) + ", " +
      std::to_string(h.tgt) + ", " + std::to_string(h.pos) + ", " +
      std::to_string(h.neg) + ">"};
  if (h.stat.has_value()) {
    props.push_back("static_params = array<f64" +
                    (h.stat->empty() ? "" : ": " + list(*h.stat)) + ">");
  }
  if (h.mask.has_value()) {
    std::vector<std::string> m;
    for (const bool x : *h.mask) {
      m.emplace_back(x ? "true" : "false");
    }
    props.push_back("params_mask = array<i1" +
                    (m.empty() ? "" : ": " + list(m)) + ">");
  }
  return generic(g.name, ops, types, props,
                 std::vector<std::string>(static_cast<std::size_t>(h.out),
                                          "!mqtopt.Qubit"));
}

/// is the operation well-formed? nothing: not fixed by the documentation
std::optional<bool> wellFormed(const GateInfo& g, const Shape& h) {
  if (g.targets >= 0 && h.tgt != g.targets) {
    return false;
  }
  if (!g.controls && h.pos + h.neg != 0) {
    return false;
  }
  if (h.out != h.tgt + h.pos + h.neg) {
    return false;
  }
  const int st = h.stat.has_value() ? static_cast<int>(h.stat->size()) : 0;
  if (h.dyn + st != g.params) {
    return false;
  }
  if (h.mask.has_value()) {
    const int t = static_cast<int>(
        std::count(h.mask->begin(), h.mask->end(), true));
    return static_cast<int>(h.mask->size()) == g.params && t == st;
  }
  if (h.dyn > 0 && st > 0) {
    return false; // mixed parameters need a mask
  }
  if (h.dyn > 0 && h.stat.has_value()) {
    return std::nullopt; // an empty list of static parameters, no mask
  }
  return true;
}

std::string printed(mlir::ModuleOp m, bool gen) {
  std::string t;
  llvm::raw_string_ostream os(t);
  mlir::OpPrintingFlags f;
  if (gen) {
    f.printGenericOpForm();
  }
  m->print(os, f);
  return t;
}

void judge(mc::Ctx& c, const std::string& op, std::optional<bool> want,
           const std::string& key,
           const std::function<void(mlir::Operation*)>& accessors = {}) {
  const std::string text = HEAD + op + TAIL;
  mlir::ParserConfig cfg(&context(), /*verifyAfterParse=*/false);
  auto m = mlir::parseSourceString<mlir::ModuleOp>(text, cfg);
  c.trans();
  if (!m) {
    // operations the parser refuses by itself
    c.checkf(!want.value_or(false), (key + ":parse").c_str(),
             [&] { return "refused although well-formed: " + op; });
    return;
  }
  const bool ok = mlir::succeeded(mlir::verify(*m));
  c.state(std::hash<std::string>{}(op));
  if (want.has_value() &&
      !c.checkf(ok == *want, (key + (*want ? ":refused" : ":accepted")).c_str(),
                [&] {
                  return std::string(ok ? "accepted" : "refused") + ": " + op;
                })) {
    return;
  }
  if (!ok) {
    return;
  }
  const auto ref = printed(*m, true);
  for (const bool gen : {false, true}) {
    const auto t = printed(*m, gen);
    auto n = mlir::parseSourceString<mlir::ModuleOp>(
        t, mlir::ParserConfig(&context()));
    c.checkf(static_cast<bool>(n) && printed(*n, true) == ref,
             (key + ":roundtrip").c_str(), [&] {
               return std::string(n ? "read back differently"
                                    : "cannot be read back") +
                      ": " + op + " printed as " + t;
             });
  }
  if (accessors) {
    m->walk([&](mlir::Operation* o) {
      if (o->getName().getDialectNamespace() == "mqtopt") {
        accessors(o);
      }
    });
  }
}

void judgeGate(mc::Ctx& c, const GateInfo& g, const Shape& h,
               const std::string& key) {
  const auto op = gateText(g, h);
  judge(c, op, wellFormed(g, h), key, [&](mlir::Operation* o) {
    auto u = mlir::dyn_cast<mqt::ir::opt::UnitaryInterface>(o);
    if (!c.check(static_cast<bool>(u), "interface", "no unitary: " + op)) {
      return;
    }
    std::vector<mlir::Value> q(o->getOperands().begin() + h.dyn,
                               o->getOperands().end());
    bool ok = u.getAllInQubits() == q &&
              static_cast<int>(u.getInQubits().size()) == h.tgt &&
              static_cast<int>(u.getPosCtrlQubits().size()) == h.pos &&
              static_cast<int>(u.getNegCtrlQubits().size()) == h.neg &&
              static_cast<int>(u.getOutQubits().size()) == h.out;
    ok = ok && u.getCtrlQubits() ==
                   std::vector<mlir::Value>(q.begin() + h.tgt, q.end());
    c.check(ok, "interface", "wrong qubits reported for " + op);
  });
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "P29");
  R.assume("well-formed as the documentation of the operations says; single use "
           "of qubit values is not enforced by the dialect");
  const bool T = R.thorough;
  const auto G = GATES.size();
  const int Q = T ? 4 : 3;
  R.space("parameters", G * 5 * 6 * 32 * 4,
          "every gate x 0..4 dynamic x none or 0..4 static parameters x no mask "
          "or every mask of up to 4 entries x no, positive, negative controls",
          [](std::uint64_t i, mc::Ctx& c) {
            mc::Digits d(i);
            const auto& g = GATES[d.take(GATES.size())];
            Shape h;
            h.dyn = static_cast<int>(d.take(5));
            if (h.dyn == 4) {
              h.dyn = g.params;
            }
            const auto st = d.take(6);
            if (st > 0) {
              h.stat.emplace();
              for (std::size_t k = 1; k < st; ++k) {
                h.stat->push_back("0." + std::to_string(k));
              }
            }
            const auto m = d.take(32);
            if (m > 0) {
              // m in binary with a leading one: the mask's bits
              std::vector<bool> v;
              for (auto x = m; x > 1; x >>= 1U) {
                v.push_back((x & 1U) != 0);
              }
              h.mask = v;
            }
            const auto ctl = static_cast<int>(d.take(4));
            h.tgt = g.targets < 0 ? 2 : g.targets;
            h.pos = g.controls ? ctl & 1 : 0;
            h.neg = g.controls ? ctl >> 1 : 0;
            h.out = h.tgt + h.pos + h.neg;
            judgeGate(c, g, h, "parameters");
          });
  R.space("qubits",
          G * 3 * static_cast<std::uint64_t>((Q + 1) * (Q + 1) * (Q + 1) * 10),
          "every gate x targets, positive and negative controls up to " +
              std::to_string(Q) +
              " each x 0..9 results x dynamic, static and mixed parameters",
          [Q](std::uint64_t i, mc::Ctx& c) {
            mc::Digits d(i);
            const auto& g = GATES[d.take(GATES.size())];
            Shape h;
            const auto kind = d.take(3);
            const auto n = static_cast<std::uint64_t>(Q + 1);
            h.tgt = static_cast<int>(d.take(n));
            h.pos = static_cast<int>(d.take(n));
            h.neg = static_cast<int>(d.take(n));
            h.out = static_cast<int>(d.take(10));
            if (h.tgt + h.pos + h.neg > 10) {
              c.skip();
              return;
            }
            h.dyn = kind == 0 ? g.params : (kind == 1 ? 0 : g.params / 2);
            if (kind != 0 && g.params > 0) {
              h.stat.emplace();
              h.mask.emplace();
              for (int k = 0; k < g.params; ++k) {
                h.mask->push_back(k >= h.dyn);
                if (k >= h.dyn) {
                  h.stat->push_back("1." + std::to_string(k));
                }
              }
            }
            judgeGate(c, g, h, "qubits");
          });
  static const std::vector<std::string> VALUES = {
      "0.0",     "-0.0",    "1.0",    "0.1",    "3.1415926535897931",
      "-2.5e-7", "1.0e300", "5.0e-324", "1.7976931348623157e308",
      "0x7FF8000000000000", "0x7FF0000000000000", "0xFFF0000000000000",
      "0.30000000000000004", "123456789.123456789"};
  R.space("values", VALUES.size() * VALUES.size() * 3,
          "all pairs of static parameters out of 14 values on gates with one, "
          "two and three parameters",
          [](std::uint64_t i, mc::Ctx& c) {
            mc::Digits d(i);
            const auto& a = VALUES[d.take(VALUES.size())];
            const auto& b = VALUES[d.take(VALUES.size())];
            const auto w = d.take(3);
            const auto& g = GATES[w == 0 ? 18 : (w == 1 ? 14 : 13)];
            Shape h;
            h.stat = std::vector<std::string>{a};
            if (w > 0) {
              h.stat->push_back(b);
            }
            if (w > 1) {
              h.dyn = 1;
              h.mask = std::vector<bool>{true, false, true};
            }
            h.tgt = 1;
            h.out = 1;
            judgeGate(c, g, h, "values");
          });
  static const std::vector<std::string> TY = {"!mqtopt.Qubit", "f64", "i64",
                                              "i1", "!mqtopt.QubitRegister"};
  static const std::vector<std::string> VAL = {"%q", "%p", "%i", "%b", "%r"};
  const auto value = [](std::size_t t, std::size_t k) {
    return VAL[t] + (t < 2 ? std::to_string(k) : std::string());
  };
  R.space("types", G * 625,
          "every gate with one parameter operand, two qubit operands and a "
          "result of every combination of types",
          [value](std::uint64_t i, mc::Ctx& c) {
            mc::Digits d(i);
            const auto& g = GATES[d.take(GATES.size())];
            const auto a = d.take(5);
            const auto b = d.take(5);
            const auto e = d.take(5);
            const auto r = d.take(5);
            // one dynamic parameter, one target, one control, two results
            const bool ok = g.params == 1 && g.targets == 1 && g.controls &&
                            a == 1 && b == 0 && e == 0 && r == 0;
            judge(c,
                  generic(g.name, {value(a, 0), value(b, 0), value(e, 1)},
                          {TY[a], TY[b], TY[e]},
                          {"operandSegmentSizes = array<i32: 1, 1, 1, 0>"},
                          {TY[0], TY[r]}),
                  ok, "types");
          });
  R.space("measure", 4 * 5 * 5 * 25,
          "measurements of up to 3 qubits with up to 4 results of every sort",
          [value](std::uint64_t i, mc::Ctx& c) {
            mc::Digits d(i);
            const auto n = d.take(4);
            const auto o = d.take(5);
            const auto k = d.take(5);
            const auto t1 = d.take(5);
            const auto t2 = d.take(5);
            // the first operand and the first bit may have a wrong type
            std::vector<std::string> v;
            std::vector<std::string> t;
            std::vector<std::string> r(o, TY[0]);
            for (std::size_t x = 0; x < n; ++x) {
              v.push_back(value(x == 0 ? t1 : 0, x));
              t.push_back(TY[x == 0 ? t1 : 0]);
            }
            for (std::size_t x = 0; x < k; ++x) {
              r.push_back(TY[x == 0 ? t2 : 3]);
            }
            // n qubits first, then n bits
            bool ok = r.size() == 2 * n && (n == 0 || t1 == 0);
            for (std::size_t x = 0; ok && x < r.size(); ++x) {
              ok = r[x] == TY[x < n ? 0 : 3];
            }
            judge(c, generic("measure", v, t, {}, r), ok, "measure");
          });
  static const std::vector<std::string> ATTR = {
      "",           "-1 : i64", "0 : i64", "1 : i64", "4611686018427387904 : i64",
      "0 : i32",    "1.0 : f64", "true"};
  R.space("registers", 4 * 125 * 6 * 8 * 3 * 2 * 5,
          "allocation, deallocation, extraction and insertion with up to three "
          "operands of every sort, every index attribute, every result type",
          [value](std::uint64_t i, mc::Ctx& c) {
            mc::Digits d(i);
            const auto op = d.take(4);
            const std::array<std::size_t, 3> t{d.take(5), d.take(5), d.take(5)};
            const auto n = d.take(6);
            const auto at = d.take(8);
            const auto nr = d.take(3);
            const auto r1 = d.take(2) == 0 ? 4U : 0U;
            const auto r2 = d.take(5);
            if (n > 3 || (op == 1 && at != 0)) {
              c.skip();
              return;
            }
            std::vector<std::string> v;
            std::vector<std::string> ty;
            for (std::size_t k = 0; k < n; ++k) {
              v.push_back(value(t[k], k));
              ty.push_back(TY[t[k]]);
            }
            std::vector<std::string> r;
            std::vector<std::size_t> rt;
            if (nr > 0) {
              r.push_back(TY[r1]);
              rt.push_back(r1);
            }
            if (nr > 1) {
              r.push_back(TY[r2]);
              rt.push_back(r2);
            }
            std::vector<std::size_t> fixed;
            std::vector<std::size_t> res;
            static const std::array<const char*, 4> NAME{
                "allocQubitRegister", "deallocQubitRegister", "extractQubit",
                "insertQubit"};
            switch (op) {
            case 0:
              res = {4};
              break;
            case 1:
              fixed = {4};
              break;
            case 2:
              fixed = {4};
              res = {4, 0};
              break;
            default:
              fixed = {4, 0};
              res = {4};
            }
            bool ok = rt == res && n >= fixed.size();
            for (std::size_t k = 0; ok && k < fixed.size(); ++k) {
              ok = t[k] == fixed[k];
            }
            if (op == 1) {
              ok = ok && n == 1;
            } else {
              // exactly one of an i64 operand and a non-negative i64 attribute
              const bool operand = n == fixed.size() + 1 &&
                                   t[fixed.size()] == 2;
              const bool none = n == fixed.size();
              const bool attr = at >= 2 && at <= 4;
              ok = ok && ((operand && at == 0) || (none && attr));
            }
            std::vector<std::string> props;
            if (at != 0) {
              props.push_back(std::string(op == 0 ? "size_attr" : "index_attr") +
                              " = " + ATTR[at]);
            }
            judge(c, generic(NAME[op], v, ty, props, r), ok, "registers");
          });
  return R.finish();
}
