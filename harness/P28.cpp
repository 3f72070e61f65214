// P28: the MLIR passes keep the quantum program equivalent.
#include "mc.hpp"
#include "mlir/Dialect/MQTOpt/IR/MQTOptDialect.h"
#include "mlir/Dialect/MQTOpt/Transforms/Passes.h"
#include "ref.hpp"

#include "ir/operations/StandardOperation.hpp"

#include <llvm/Support/raw_ostream.h>
#include <mlir/Dialect/Arith/IR/Arith.h>
#include <mlir/Dialect/ControlFlow/IR/ControlFlowOps.h>
#include <mlir/Dialect/Func/IR/FuncOps.h>
#include <mlir/IR/BuiltinOps.h>
#include <mlir/IR/Diagnostics.h>
#include <mlir/IR/MLIRContext.h>
#include <mlir/IR/Verifier.h>
#include <mlir/Parser/Parser.h>
#include <mlir/Pass/PassManager.h>

using ref::C;
using ref::Vec;
namespace {

mlir::MLIRContext& context() {
  static auto* ctx = [] {
    auto* c = new mlir::MLIRContext(mlir::MLIRContext::Threading::DISABLED);
    c->loadDialect<mlir::func::FuncDialect, mlir::arith::ArithDialect,
                   mlir::cf::ControlFlowDialect, mqt::ir::opt::MQTOptDialect>();
    c->getDiagEngine().registerHandler(
        [](mlir::Diagnostic&) { return mlir::success(); });
    return c;
  }();
  return *ctx;
}

// ---------------------------------------------------------------- reference
const std::map<std::string, qc::OpType>& gateNames() {
  static const std::map<std::string, qc::OpType> M = {
      {"GPhase", qc::GPhase},
      {"I", qc::I},
      {"barrier", qc::Barrier},
      {"H", qc::H},
      {"x", qc::X},
      {"y", qc::Y},
      {"z", qc::Z},
      {"s", qc::S},
      {"sdg", qc::Sdg},
      {"t", qc::T},
      {"tdg", qc::Tdg},
      {"v", qc::V},
      {"vdg", qc::Vdg},
      {"u", qc::U},
      {"u2", qc::U2},
      {"p", qc::P},
      {"sx", qc::SX},
      {"sxdg", qc::SXdg},
      {"rx", qc::RX},
      {"ry", qc::RY},
      {"rz", qc::RZ},
      {"swap", qc::SWAP},
      {"iswap", qc::iSWAP},
      {"iswapdg", qc::iSWAPdg},
      {"peres", qc::Peres},
      {"peresdg", qc::Peresdg},
      {"dcx", qc::DCX},
      {"ecr", qc::ECR},
      {"rxx", qc::RXX},
      {"ryy", qc::RYY},
      {"rzz", qc::RZZ},
      {"rzx", qc::RZX},
      {"xxminusyy", qc::XXminusYY},
      {"xxplusyy", qc::XXplusYY}};
  return M;
}

struct Val {
  int qubit = -1;
  std::int64_t num = 0;
  double real = 0;
  std::vector<int> reg;
};
struct Malformed : std::runtime_error {
  using std::runtime_error::runtime_error;
};
// the density matrices of the qubits the program hands back, per tuple of
// returned classical values
using Result = std::map<std::vector<std::int64_t>, Vec>;

struct Interp {
  std::size_t n;     // qubits
  int next = 0;      // next qubit to allocate
  Result result;
  std::size_t steps = 0;
  std::size_t paths = 0;

  using Env = llvm::DenseMap<mlir::Value, Val>;

  static double weight(const Vec& v) {
    double s = 0;
    for (const auto& a : v) {
      s += std::norm(a);
    }
    return s;
  }
  // v is over 2n qubits: the first n are the system, the others the reference
  void finish(const Vec& v, const std::vector<std::int64_t>& key,
              const std::vector<int>& order) {
    ++paths;
    const std::size_t m = order.size();
    const std::size_t dim = std::size_t{1} << (m + n);
    auto& rho = result[key];
    if (rho.empty()) {
      rho.assign(dim * dim, 0);
    }
    // index of v -> (kept, traced out)
    std::vector<std::size_t> rest;
    for (std::size_t q = 0; q < n; ++q) {
      if (std::find(order.begin(), order.end(), static_cast<int>(q)) ==
          order.end()) {
        rest.push_back(q);
      }
    }
    std::map<std::size_t, std::vector<std::pair<std::size_t, C>>> groups;
    for (std::size_t i = 0; i < v.size(); ++i) {
      if (std::abs(v[i]) < 1e-14) {
        continue;
      }
      std::size_t k = 0;
      for (std::size_t j = 0; j < m; ++j) {
        k |= ((i >> static_cast<unsigned>(order[j])) & 1U) << j;
      }
      k |= (i >> n) << m;
      std::size_t t = 0;
      for (std::size_t j = 0; j < rest.size(); ++j) {
        t |= ((i >> rest[j]) & 1U) << j;
      }
      groups[t].emplace_back(k, v[i]);
    }
    for (const auto& [t, g] : groups) {
      for (const auto& [a, x] : g) {
        for (const auto& [b, y] : g) {
          rho[(a * dim) + b] += x * std::conj(y);
        }
      }
    }
  }

  void run(mlir::Block* block, mlir::Block::iterator it, Env env, Vec v) {
    while (true) {
      if (++steps > 20000) {
        throw Malformed("the program does not terminate");
      }
      auto& op = *it++;
      const auto name = op.getName().getStringRef().str();
      const auto qubit = [&](mlir::Value x) {
        const auto f = env.find(x);
        if (f == env.end() || f->second.qubit < 0) {
          throw Malformed("operand of " + name + " is not a qubit");
        }
        return static_cast<std::uint32_t>(f->second.qubit);
      };
      const auto jump = [&](mlir::Block* dest, mlir::OperandRange args) {
        std::vector<Val> vals;
        for (auto a : args) {
          vals.push_back(env.lookup(a));
        }
        if (vals.size() != dest->getNumArguments()) {
          throw Malformed("wrong number of block arguments");
        }
        for (std::size_t i = 0; i < vals.size(); ++i) {
          env[dest->getArgument(static_cast<unsigned>(i))] = vals[i];
        }
        block = dest;
        it = block->begin();
      };
      if (auto u = llvm::dyn_cast<mqt::ir::opt::UnitaryInterface>(op)) {
        const auto short_ = op.getName().stripDialect().str();
        const auto g = gateNames().find(short_);
        if (g == gateNames().end()) {
          throw Malformed("gate " + short_);
        }
        std::vector<qc::Qubit> targets;
        std::vector<mlir::Value> ins;
        qc::Controls controls;
        for (auto x : u.getInQubits()) {
          targets.push_back(qubit(x));
          ins.push_back(x);
        }
        for (auto x : u.getPosCtrlQubits()) {
          controls.emplace(qubit(x));
          ins.push_back(x);
        }
        for (auto x : u.getNegCtrlQubits()) {
          controls.emplace(qubit(x), qc::Control::Type::Neg);
          ins.push_back(x);
        }
        std::vector<double> params;
        std::vector<double> dyn;
        for (auto x : op.getOperands()) {
          if (x.getType().isF64()) {
            dyn.push_back(env.lookup(x).real);
          }
        }
        const auto st = op.getAttrOfType<mlir::DenseF64ArrayAttr>(
            "static_params");
        const auto mask =
            op.getAttrOfType<mlir::DenseBoolArrayAttr>("params_mask");
        if (mask) {
          std::size_t is = 0;
          std::size_t id = 0;
          for (const auto b : mask.asArrayRef()) {
            params.push_back(b ? st.asArrayRef()[is++] : dyn.at(id++));
          }
        } else {
          if (st) {
            params.assign(st.asArrayRef().begin(), st.asArrayRef().end());
          }
          params.insert(params.end(), dyn.begin(), dyn.end());
        }
        if (ins.size() != op.getNumResults()) {
          throw Malformed("wrong number of results");
        }
        std::set<std::uint32_t> used(targets.begin(), targets.end());
        for (const auto& c : controls) {
          used.insert(c.qubit);
        }
        if (used.size() != ins.size()) {
          throw Malformed("a gate uses a qubit twice");
        }
        if (g->second != qc::Barrier) {
          if (g->second == qc::GPhase) {
            const qc::StandardOperation o(controls, targets, qc::GPhase,
                                          params);
            ref::applyOp(v, o);
          } else {
            // not through the library's constructor, which may rewrite the
            // operation
            qc::StandardOperation o(controls, targets, g->second, params);
            ref::applyOp(v, o);
          }
        }
        for (std::size_t i = 0; i < ins.size(); ++i) {
          env[op.getResult(static_cast<unsigned>(i))] = env.lookup(ins[i]);
        }
        continue;
      }
      if (name == "mqtopt.allocQubitRegister") {
        const auto a = op.getAttrOfType<mlir::IntegerAttr>("size_attr");
        const auto sz = a ? a.getInt() : env.lookup(op.getOperand(0)).num;
        Val r;
        for (std::int64_t i = 0; i < sz; ++i) {
          if (next >= static_cast<int>(n)) {
            throw Malformed("more qubits than expected");
          }
          r.reg.push_back(next++);
        }
        env[op.getResult(0)] = r;
        continue;
      }
      const auto index = [&](unsigned operand) {
        const auto a = op.getAttrOfType<mlir::IntegerAttr>("index_attr");
        return static_cast<std::size_t>(
            a ? a.getInt() : env.lookup(op.getOperand(operand)).num);
      };
      if (name == "mqtopt.extractQubit") {
        Val r = env.lookup(op.getOperand(0));
        const auto i = index(1);
        if (i >= r.reg.size() || r.reg[i] < 0) {
          throw Malformed("extraction of a missing qubit");
        }
        Val q;
        q.qubit = r.reg[i];
        r.reg[i] = -1;
        env[op.getResult(0)] = r;
        env[op.getResult(1)] = q;
        continue;
      }
      if (name == "mqtopt.insertQubit") {
        Val r = env.lookup(op.getOperand(0));
        const auto i = index(2);
        if (i >= r.reg.size() || r.reg[i] >= 0) {
          throw Malformed("insertion over a qubit");
        }
        r.reg[i] = static_cast<int>(qubit(op.getOperand(1)));
        env[op.getResult(0)] = r;
        continue;
      }
      if (name == "mqtopt.deallocQubitRegister") {
        continue;
      }
      if (name == "mqtopt.measure") {
        std::vector<std::uint32_t> qs;
        for (auto x : op.getOperands()) {
          qs.push_back(qubit(x));
        }
        if (op.getNumResults() != 2 * qs.size()) {
          throw Malformed("wrong number of measurement results");
        }
        for (std::size_t pattern = 0; pattern < (1ULL << qs.size());
             ++pattern) {
          auto w = v;
          auto e = env;
          for (std::size_t i = 0; i < qs.size(); ++i) {
            const auto bit = (pattern >> i) & 1U;
            ref::project(w, qs[i], static_cast<int>(bit));
            Val b;
            b.num = static_cast<std::int64_t>(bit);
            e[op.getResult(static_cast<unsigned>(i))] =
                env.lookup(op.getOperand(static_cast<unsigned>(i)));
            e[op.getResult(static_cast<unsigned>(qs.size() + i))] = b;
          }
          if (weight(w) > 1e-12) {
            const auto keep = next;
            run(block, it, std::move(e), std::move(w));
            next = keep;
          }
        }
        return;
      }
      if (auto c = llvm::dyn_cast<mlir::arith::ConstantOp>(op)) {
        Val r;
        if (const auto f = llvm::dyn_cast<mlir::FloatAttr>(c.getValue())) {
          r.real = f.getValueAsDouble();
        } else if (const auto i =
                       llvm::dyn_cast<mlir::IntegerAttr>(c.getValue())) {
          r.num = i.getValue().isZero() ? 0 : i.getValue().getZExtValue();
        } else {
          throw Malformed("constant");
        }
        env[op.getResult(0)] = r;
        continue;
      }
      if (name == "arith.select") {
        env[op.getResult(0)] = env.lookup(
            op.getOperand(env.lookup(op.getOperand(0)).num != 0 ? 1 : 2));
        continue;
      }
      if (name == "arith.xori" || name == "arith.andi" || name == "arith.ori") {
        const auto a = env.lookup(op.getOperand(0)).num;
        const auto b = env.lookup(op.getOperand(1)).num;
        Val r;
        r.num = name == "arith.xori" ? a ^ b
                : name == "arith.andi" ? (a & b)
                                       : (a | b);
        env[op.getResult(0)] = r;
        continue;
      }
      if (auto b = llvm::dyn_cast<mlir::cf::BranchOp>(op)) {
        jump(b.getDest(), b.getDestOperands());
        continue;
      }
      if (auto b = llvm::dyn_cast<mlir::cf::CondBranchOp>(op)) {
        if (env.lookup(b.getCondition()).num != 0) {
          jump(b.getTrueDest(), b.getTrueDestOperands());
        } else {
          jump(b.getFalseDest(), b.getFalseDestOperands());
        }
        continue;
      }
      if (name == "func.return") {
        std::vector<std::int64_t> key;
        std::vector<int> order;
        for (auto x : op.getOperands()) {
          const auto& val = env.lookup(x);
          if (llvm::isa<mqt::ir::opt::QubitType>(x.getType())) {
            order.push_back(val.qubit);
            key.push_back(-3);
          } else if (llvm::isa<mqt::ir::opt::QubitRegisterType>(x.getType())) {
            for (const auto q : val.reg) {
              key.push_back(q < 0 ? -1 : -2);
              if (q >= 0) {
                order.push_back(q);
              }
            }
          } else {
            key.push_back(val.num);
          }
        }
        finish(v, key, order);
        return;
      }
      throw Malformed("operation " + name);
    }
  }
};

Result interpret(mlir::ModuleOp m, std::size_t n, bool zero,
                 std::size_t* paths = nullptr) {
  Interp in;
  in.n = n;
  mlir::func::FuncOp f;
  m.walk([&](mlir::func::FuncOp g) { f = g; });
  if (!f) {
    throw Malformed("no function");
  }
  Vec v(std::size_t{1} << (2 * n), 0);
  if (zero) {
    v[0] = 1;
  } else {
    for (std::size_t i = 0; i < (std::size_t{1} << n); ++i) {
      v[i | (i << n)] = 1 / std::sqrt(static_cast<double>(1ULL << n));
    }
  }
  auto& b = f.getBody().front();
  in.run(&b, b.begin(), {}, std::move(v));
  if (paths != nullptr) {
    *paths += in.paths;
  }
  return in.result;
}

double distance(const Result& a, const Result& b) {
  double d = 0;
  for (const auto& [k, x] : a) {
    const auto it = b.find(k);
    if (it == b.end()) {
      for (const auto& e : x) {
        d = std::max(d, std::abs(e));
      }
    } else if (it->second.size() != x.size()) {
      return 10;
    } else {
      d = std::max(d, ref::dist(x, it->second));
    }
  }
  for (const auto& [k, x] : b) {
    if (a.find(k) == a.end()) {
      for (const auto& e : x) {
        d = std::max(d, std::abs(e));
      }
    }
  }
  return d;
}

// ---------------------------------------------------------------- programs
struct G {
  std::string name;
  std::vector<int> t;
  std::vector<int> pos;
  std::vector<int> neg;
  std::string params; // text between the parentheses
};
std::string gstr(const G& g) {
  std::string s = g.name + "(" + g.params + ")";
  for (const auto q : g.t) {
    s += " q" + std::to_string(q);
  }
  for (const auto q : g.pos) {
    s += " +q" + std::to_string(q);
  }
  for (const auto q : g.neg) {
    s += " -q" + std::to_string(q);
  }
  return s;
}

struct Text {
  std::string s;
  std::vector<std::string> q; // current value of each qubit
  std::string reg;
  int cnt = 0;
  std::vector<std::string> bits;

  std::string fresh(const char* p) { return "%" + (p + std::to_string(cnt++)); }
  void alloc(int n) {
    reg = fresh("r");
    s += "  " + reg + " = \"mqtopt.allocQubitRegister\"() <{size_attr = " +
         std::to_string(n) + " : i64}> : () -> !mqtopt.QubitRegister\n";
    for (int i = 0; i < n; ++i) {
      const auto r = fresh("r");
      const auto x = fresh("q");
      s += "  " + r + ", " + x + " = \"mqtopt.extractQubit\"(" + reg +
           ") <{index_attr = " + std::to_string(i) +
           " : i64}> : (!mqtopt.QubitRegister) -> (!mqtopt.QubitRegister, "
           "!mqtopt.Qubit)\n";
      reg = r;
      q.push_back(x);
    }
  }
  void gate(const G& g) {
    std::string ins;
    std::string outs;
    std::string types;
    std::vector<int> all = g.t;
    all.insert(all.end(), g.pos.begin(), g.pos.end());
    all.insert(all.end(), g.neg.begin(), g.neg.end());
    const auto list = [&](const std::vector<int>& v) {
      std::string r;
      for (const auto i : v) {
        r += (r.empty() ? "" : ", ") + q[static_cast<std::size_t>(i)];
      }
      return r;
    };
    ins = list(g.t);
    if (!g.pos.empty()) {
      ins += " ctrl " + list(g.pos);
    }
    if (!g.neg.empty()) {
      ins += " nctrl " + list(g.neg);
    }
    for (const auto i : all) {
      q[static_cast<std::size_t>(i)] = fresh("q");
      outs += (outs.empty() ? "" : ", ") + q[static_cast<std::size_t>(i)];
      types += std::string(types.empty() ? "" : ", ") + "!mqtopt.Qubit";
    }
    s += "  " + outs + " = mqtopt." + g.name + "(" + g.params + ") " + ins +
         " : " + types + "\n";
  }
  std::string measure(int i) {
    auto& x = q[static_cast<std::size_t>(i)];
    const auto nx = fresh("q");
    const auto b = fresh("c");
    s += "  " + nx + ", " + b + " = \"mqtopt.measure\"(" + x +
         ") : (!mqtopt.Qubit) -> (!mqtopt.Qubit, i1)\n";
    x = nx;
    return b;
  }
  void step(const G& g) {
    if (g.name == "measure") {
      bits.push_back(measure(g.t[0]));
    } else {
      gate(g);
    }
  }
  void insertAll() {
    for (std::size_t i = 0; i < q.size(); ++i) {
      const auto r = fresh("r");
      s += "  " + r + " = \"mqtopt.insertQubit\"(" + reg + ", " + q[i] +
           ") <{index_attr = " + std::to_string(i) +
           " : i64}> : (!mqtopt.QubitRegister, !mqtopt.Qubit) -> "
           "!mqtopt.QubitRegister\n";
      reg = r;
    }
  }
  std::string finish(const std::vector<std::string>& cl) {
    std::string types = "!mqtopt.QubitRegister";
    std::string vals = reg;
    for (const auto& c : cl) {
      types += ", i1";
      vals += ", " + c;
    }
    return "module {\n func.func @f() -> (" + types + ") {\n" + s +
           "  return " + vals + " : " + types + "\n }\n}\n";
  }
};

void judge(mc::Ctx& c, const std::string& space, const std::string& src,
           std::size_t n, const char* pass, std::string_view what,
           bool zero = false) {
  const auto run = [&](const std::string& text) {
    return mlir::parseSourceString<mlir::ModuleOp>(text, &context());
  };
  auto module = run(src);
  if (!module || mlir::failed(mlir::verify(*module))) {
    c.check(false, "harness", "the generated program is not valid:\n" + src);
    return;
  }
  Result want;
  std::size_t paths = 0;
  try {
    want = interpret(*module, n, zero, &paths);
  } catch (const Malformed& e) {
    c.check(false, "harness", std::string(e.what()) + "\n" + src);
    return;
  }
  c.state(std::hash<std::string>{}(src));
  c.trans(paths);
  const auto show = [&] {
    std::string t;
    llvm::raw_string_ostream os(t);
    module->print(os);
    return t;
  };
  try {
    mlir::PassManager pm(&context());
    pm.enableVerifier(false);
    const std::string p = pass;
    if (p == "cancel") {
      pm.addPass(mqt::ir::opt::createCancelConsecutiveInverses());
    } else if (p == "sink") {
      pm.addPass(mqt::ir::opt::createQuantumSinkPass());
    } else {
      pm.addPass(mqt::ir::opt::createMQTCoreRoundTrip());
    }
    if (mlir::failed(pm.run(*module))) {
      c.check(false, space.substr(0, space.find('/')) + "/failed", "the pass fails on\n" + src);
      return;
    }
  } catch (const std::exception& e) {
    c.check(false, space.substr(0, space.find('/')) + "/threw",
            "the pass throws " + std::string(e.what()) + " on\n" + src);
    return;
  }
  if (mlir::failed(mlir::verify(*module))) {
    c.check(false, space.substr(0, space.find('/')) + "/invalid",
            "the verifier rejects the result for\n" + src + "result:\n" + [&] {
              std::string t;
              llvm::raw_string_ostream os(t);
              module->print(os, mlir::OpPrintingFlags().assumeVerified());
              return t;
            }());
    return;
  }
  // the printed program must read back as the same program
  const auto text = show();
  auto again = run(text);
  if (!again) {
    c.check(false, space.substr(0, space.find('/')) + "/text",
            "the printed result does not parse:\n" + text);
    return;
  }
  try {
    const auto got = interpret(*again, n, zero);
    const auto d = distance(want, got);
    c.checkf(d < 1e-9, (space.substr(0, space.find('/')) + "/differs").c_str(), [&] {
      return std::string(what) + ": distance " + std::to_string(d) +
             "\nbefore:\n" + src + "after:\n" + text;
    });
  } catch (const Malformed& e) {
    c.check(false, space.substr(0, space.find('/')) + "/malformed",
            std::string(e.what()) + "\nbefore:\n" + src + "after:\n" + text);
  }
}

// every placement of controls
void add(std::vector<G>& v, const std::string& name, std::vector<int> t,
         const std::string& par = "") {
  v.push_back({name, std::move(t), {}, {}, par});
}

std::vector<G> alphabet() {
  std::vector<G> v;
  for (const auto* g :
       {"I", "H", "x", "y", "z", "s", "sdg", "t", "tdg", "v", "vdg", "sx",
        "sxdg"}) {
    add(v, g, {0});
  }
  for (const auto* g : {"H", "x", "s", "sdg"}) {
    add(v, g, {1});
  }
  add(v, "rx", {0}, "static [3.000000e-01]");
  add(v, "p", {0}, "static [-3.000000e-01]");
  add(v, "u2", {0}, "static [3.000000e-01, 1.100000e+00]");
  for (const auto* g : {"swap", "iswap", "iswapdg", "peres", "peresdg", "ecr",
                        "dcx"}) {
    add(v, g, {0, 1});
    add(v, g, {1, 0});
  }
  add(v, "swap", {0, 2});
  add(v, "rxx", {0, 1}, "static [3.000000e-01]");
  for (const auto* g : {"x", "z", "s", "sdg", "H", "sx", "sxdg"}) {
    v.push_back({g, {0}, {1}, {}, ""});
    v.push_back({g, {0}, {}, {1}, ""});
  }
  for (const auto* g : {"x", "t", "tdg"}) {
    v.push_back({g, {1}, {0}, {}, ""});
    v.push_back({g, {0}, {1, 2}, {}, ""});
    v.push_back({g, {0}, {2, 1}, {}, ""});
    v.push_back({g, {0}, {1}, {2}, ""});
    v.push_back({g, {0}, {2}, {1}, ""});
    v.push_back({g, {0}, {}, {1, 2}, ""});
  }
  for (const auto* g : {"swap", "iswap", "iswapdg"}) {
    v.push_back({g, {0, 1}, {2}, {}, ""});
    v.push_back({g, {1, 2}, {0}, {}, ""});
    v.push_back({g, {0, 1}, {}, {2}, ""});
  }
  add(v, "barrier", {0, 1});
  add(v, "barrier", {0});
  v.push_back({"measure", {0}, {}, {}, ""});
  v.push_back({"measure", {1}, {}, {}, ""});
  return v;
}
std::vector<G> smallAlphabet() {
  std::vector<G> v;
  for (const auto* g : {"H", "x", "z", "t", "tdg", "sx"}) {
    add(v, g, {0});
  }
  add(v, "x", {1});
  add(v, "t", {1});
  v.push_back({"x", {0}, {1}, {}, ""});
  v.push_back({"x", {1}, {0}, {}, ""});
  v.push_back({"x", {0}, {}, {1}, ""});
  v.push_back({"t", {0}, {1}, {}, ""});
  v.push_back({"tdg", {0}, {1}, {}, ""});
  v.push_back({"tdg", {1}, {0}, {}, ""});
  add(v, "swap", {0, 1});
  add(v, "swap", {1, 0});
  add(v, "iswap", {0, 1});
  add(v, "iswapdg", {0, 1});
  v.push_back({"measure", {0}, {}, {}, ""});
  return v;
}

void straight(mc::Ctx& c, const std::string& space,
              const std::vector<G>& word, std::size_t n, const char* pass) {
  Text t;
  t.alloc(static_cast<int>(n));
  std::string what;
  for (const auto& g : word) {
    t.step(g);
    what += gstr(g) + "; ";
  }
  t.insertAll();
  judge(c, space, t.finish(t.bits), n, pass, what);
}

// which qubits a branch hands over as block arguments (the others are used
// directly), and in which order
struct Mode {
  bool q0, q1, swapped, bit;
};
const std::vector<Mode>& modes() {
  static const std::vector<Mode> M = {
      {false, false, false, false}, {true, false, false, false},
      {false, true, false, false},  {true, true, false, false},
      {true, true, true, false},    {false, true, false, true},
      {true, true, true, true}};
  return M;
}
struct Flow : Text {
  std::string bit; // the condition
  std::vector<std::string> order(const Mode& m) const {
    std::vector<std::string> a;
    if (m.bit) {
      a.push_back(bit);
    }
    if (m.q0 && m.q1 && m.swapped) {
      a.push_back(q[1]);
      a.push_back(q[0]);
    } else {
      if (m.q0) {
        a.push_back(q[0]);
      }
      if (m.q1) {
        a.push_back(q[1]);
      }
    }
    return a;
  }
  std::string target(const std::string& label, const Mode& m) const {
    const auto a = order(m);
    if (a.empty()) {
      return "^" + label;
    }
    std::string vals;
    std::string types;
    for (std::size_t i = 0; i < a.size(); ++i) {
      vals += (i != 0 ? ", " : "") + a[i];
      types += std::string(i != 0 ? ", " : "") +
               (m.bit && i == 0 ? "i1" : "!mqtopt.Qubit");
    }
    return "^" + label + "(" + vals + " : " + types + ")";
  }
  void br(const std::string& label, const Mode& m) {
    s += "  cf.br " + target(label, m) + "\n";
  }
  void cond(const std::string& a, const Mode& ma, const std::string& b,
            const Mode& mb) {
    s += "  cf.cond_br " + bit + ", " + target(a, ma) + ", " + target(b, mb) +
         "\n";
  }
  // starts a block; qubits that are not handed over keep the names in `from`
  void block(const std::string& label, const Mode& m, const Flow& from) {
    q = from.q;
    bit = from.bit;
    if (m.bit) {
      bit = fresh("c");
    }
    if (m.q0) {
      q[0] = fresh("q");
    }
    if (m.q1) {
      q[1] = fresh("q");
    }
    const auto a = order(m);
    std::string head;
    for (std::size_t i = 0; i < a.size(); ++i) {
      head += (i != 0 ? ", " : "") + a[i] + " : " +
              (m.bit && i == 0 ? "i1" : "!mqtopt.Qubit");
    }
    s += " ^" + label + (head.empty() ? "" : "(" + head + ")") + ":\n";
  }
  void ret() {
    insertAll();
    s += "  return " + reg + ", " + bit + " : !mqtopt.QubitRegister, i1\n";
  }
  [[nodiscard]] std::string whole() const {
    return "module {\n func.func @f() -> (!mqtopt.QubitRegister, i1) {\n" + s +
           " }\n}\n";
  }
};
const std::vector<G>& entryGates() {
  static const std::vector<G> A = {{"x", {1}, {}, {}, ""},
                                   {"t", {1}, {}, {}, ""},
                                   {"rx", {1}, {}, {}, "%par"},
                                   {"x", {0}, {}, {}, ""},
                                   {"x", {1}, {0}, {}, ""},
                                   {"swap", {0, 1}, {}, {}, ""}};
  return A;
}
const std::vector<G>& afterGates() {
  static const std::vector<G> A = {{"", {}, {}, {}, ""},
                                   {"H", {1}, {}, {}, ""},
                                   {"x", {0}, {}, {}, ""}};
  return A;
}
const std::vector<G>& branchGates() {
  static const std::vector<G> A = {{"", {}, {}, {}, ""},
                                   {"x", {1}, {}, {}, ""},
                                   {"t", {1}, {}, {}, ""},
                                   {"x", {1}, {0}, {}, ""},
                                   {"H", {0}, {}, {}, ""}};
  return A;
}
bool touches(const G& g, int q) {
  for (const auto* v : {&g.t, &g.pos, &g.neg}) {
    if (std::find(v->begin(), v->end(), q) != v->end()) {
      return true;
    }
  }
  return false;
}
const char* const SHAPES[] = {"diamond", "triangle", "triangle-false",
                              "leaves",  "same",     "chain",
                              "loop",    "nested"};
struct Digits {
  std::uint64_t v;
  std::size_t operator()(std::size_t n) {
    const auto d = v % n;
    v /= n;
    return static_cast<std::size_t>(d);
  }
};
constexpr std::size_t NM = 7;
// shapes that have neither a second branch nor a third hand-over do not
// enumerate them
std::size_t flowSize(std::size_t shape) {
  const bool noF = shape == 1 || shape == 2 || shape == 4 || shape == 5;
  const bool noMf = shape == 1 || shape == 2 || shape == 5 || shape == 6;
  const bool noMc = shape == 3 || shape == 4;
  return 3 * 5 * (noF ? 1 : 5) * (shape == 3 ? 1 : 2) * NM * (noMf ? 1 : NM) *
         (noMc ? 1 : NM);
}
void flow(mc::Ctx& c, const std::string& space, std::size_t shape,
          std::size_t wordLen, std::uint64_t idx) {
  Digits d{idx};
  Flow f;
  std::string what = SHAPES[shape];
  what += ": ";
  f.s += "  %par = arith.constant 3.000000e-01 : f64\n";
  f.alloc(2);
  for (std::size_t i = 0; i < wordLen; ++i) {
    const auto& g = entryGates()[d(entryGates().size())];
    f.step(g);
    what += gstr(g) + "; ";
  }
  f.bit = f.measure(0);
  const auto& ga = afterGates()[d(3)];
  const auto& gt = branchGates()[d(5)];
  const bool noF = shape == 1 || shape == 2 || shape == 4 || shape == 5;
  const bool noMf = shape == 1 || shape == 2 || shape == 5 || shape == 6;
  const bool noMc = shape == 3 || shape == 4;
  const auto& gf = branchGates()[noF ? 0 : d(5)];
  const auto last = shape == 3 ? 0 : d(2);
  const auto& mt = modes()[d(NM)];
  const auto& mf = modes()[noMf ? 0 : d(NM)];
  const auto& mc = modes()[noMc ? 0 : d(NM)];
  if (!ga.name.empty()) {
    f.step(ga);
  }
  const auto put = [&](const G& g) {
    if (!g.name.empty()) {
      f.step(g);
    }
  };
  const auto tail = [&] {
    if (last == 1) {
      f.step({"y", {1}, {}, {}, ""});
    }
    f.ret();
  };
  // the merge must hand over what a branch touched or received
  const auto mergeOk = [&](bool uf) {
    const bool need0 = touches(gt, 0) || mt.q0 ||
                       (uf && (touches(gf, 0) || mf.q0));
    const bool need1 = touches(gt, 1) || mt.q1 ||
                       (uf && (touches(gf, 1) || mf.q1));
    return (!need0 || mc.q0) && (!need1 || mc.q1);
  };
  const Flow entry = f;
  switch (shape) {
  case 0:
    if (!mergeOk(true)) {
      c.skip();
      return;
    }
    f.cond("t", mt, "e", mf);
    f.block("t", mt, entry);
    put(gt);
    f.br("c", mc);
    f.block("e", mf, entry);
    put(gf);
    f.br("c", mc);
    f.block("c", mc, entry);
    tail();
    break;
  case 1:
  case 2:
    if (!mergeOk(false)) {
      c.skip();
      return;
    }
    if (shape == 1) {
      f.cond("t", mt, "c", mc);
    } else {
      f.cond("c", mc, "t", mt);
    }
    f.block("t", mt, entry);
    put(gt);
    f.br("c", mc);
    f.block("c", mc, entry);
    tail();
    break;
  case 3:
    f.cond("t", mt, "e", mf);
    f.block("t", mt, entry);
    put(gt);
    f.ret();
    f.reg = entry.reg;
    f.block("e", mf, entry);
    put(gf);
    f.ret();
    break;
  case 4: // both edges lead to the same block, maybe with exchanged qubits
    if (mt.q0 != mf.q0 || mt.q1 != mf.q1 || mt.bit != mf.bit) {
      c.skip();
      return;
    }
    f.cond("c", mt, "c", mf);
    f.block("c", mt, entry);
    put(gt);
    tail();
    break;
  case 5:
    if (!((!touches(gt, 0) && !mt.q0) || mc.q0) ||
        !((!touches(gt, 1) && !mt.q1) || mc.q1)) {
      // a chain's blocks dominate each other, but only the entry's names are
      // used where nothing is handed over
      c.skip();
      return;
    }
    f.br("t", mt);
    f.block("t", mt, entry);
    put(gt);
    f.br("c", mc);
    f.block("c", mc, entry);
    tail();
    break;
  case 6: // repeat until the measurement gives 0
    if (!mt.q0 || !mt.q1 || mt.bit) {
      c.skip();
      return;
    }
    f.br("t", mt);
    f.block("t", mt, entry);
    put(gt);
    f.bit = f.measure(0);
    {
      // outcome 1: flip the qubit so that the next round measures 0
      const Flow loop = f;
      Flow back = f;
      f.cond("b", mt, "c", mc);
      f.block("b", mt, loop);
      f.step({"x", {0}, {}, {}, ""});
      put(gf);
      if (touches(gf, 0) || gt.t == std::vector<int>{0}) {
        c.skip();
        return;
      }
      f.br("t", mt);
      f.block("c", mc, loop);
      tail();
    }
    break;
  default: { // the true branch branches again
    if (!mc.q0 || !mc.q1) {
      c.skip();
      return;
    }
    f.cond("t", mt, "c", mc);
    f.block("t", mt, entry);
    put(gt);
    f.step({"H", {0}, {}, {}, ""});
    f.bit = f.measure(0);
    const Flow inner = f;
    f.cond("a", mf, "c", mc);
    f.block("a", mf, inner);
    put(gf);
    f.br("c", mc);
    f.block("c", mc, entry);
    tail();
    break;
  }
  }
  judge(c, space, f.whole(), 2, space.substr(0, space.find('/')).c_str(), what);
}

// the pass's documented input: one function, one register, every qubit
// measured exactly once, the register and the results returned in order
void roundTrip(mc::Ctx& c, const std::vector<G>& word, std::size_t n,
               std::size_t when, bool reverseExtract) {
  Text t;
  std::string what = reverseExtract ? "extracted in reverse; " : "";
  t.reg = t.fresh("r");
  t.s += "  " + t.reg + " = \"mqtopt.allocQubitRegister\"() <{size_attr = " +
         std::to_string(n) + " : i64}> : () -> !mqtopt.QubitRegister\n";
  t.q.resize(n);
  for (std::size_t k = 0; k < n; ++k) {
    const auto i = reverseExtract ? n - 1 - k : k;
    const auto nr = t.fresh("r");
    const auto x = t.fresh("q");
    t.s += "  " + nr + ", " + x + " = \"mqtopt.extractQubit\"(" + t.reg +
           ") <{index_attr = " + std::to_string(i) +
           " : i64}> : (!mqtopt.QubitRegister) -> (!mqtopt.QubitRegister, "
           "!mqtopt.Qubit)\n";
    t.reg = nr;
    t.q[i] = x;
  }
  std::vector<std::string> bits(n);
  // when: 0 measure at the end, 1 in reverse, 2 each qubit after its last
  // use, 3 qubit 0 before the last operation
  const auto measure = [&](std::size_t q) {
    bits[q] = t.measure(static_cast<int>(q));
    what += "measure q" + std::to_string(q) + "; ";
  };
  for (std::size_t i = 0; i <= word.size(); ++i) {
    if (when == 3 && i + 1 == word.size()) {
      measure(0);
    }
    for (std::size_t q = 0; q < n; ++q) {
      bool later = false;
      for (std::size_t j = i; j < word.size(); ++j) {
        later |= touches(word[j], static_cast<int>(q));
      }
      if (when == 2 && !later && bits[q].empty()) {
        measure(q);
      }
    }
    if (i < word.size()) {
      t.gate(word[i]);
      what += gstr(word[i]) + "; ";
    }
  }
  for (std::size_t k = 0; k < n; ++k) {
    const auto q = when == 1 ? n - 1 - k : k;
    if (bits[q].empty()) {
      measure(q);
    }
  }
  judge(c, "roundtrip/x", t.finish(bits), n, "roundtrip", what);
}
std::vector<G> flips(int n, bool more) {
  std::vector<G> v;
  for (const auto* g : {"x", "H", "z", "y"}) {
    if (!more && std::string(g) != "x") {
      continue;
    }
    for (int t = 0; t < n; ++t) {
      v.push_back({g, {t}, {}, {}, ""});
      for (int a = 0; a < n; ++a) {
        if (a == t) {
          continue;
        }
        v.push_back({g, {t}, {a}, {}, ""});
        if (std::string(g) == "x" || std::string(g) == "H") {
          v.push_back({g, {t}, {}, {a}, ""});
          for (int b = 0; b < n; ++b) {
            if (b != t && b != a) {
              v.push_back({g, {t}, {a}, {b}, ""});
            }
          }
        }
        for (int b = 0; b < n; ++b) {
          if (b != t && b != a) {
            v.push_back({g, {t}, {a, b}, {}, ""});
          }
        }
      }
    }
  }
  return v;
}

} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P28");
  r.assume("programs follow the dialect's linear use of qubits");
  const auto big = alphabet();
  const auto small = smallAlphabet();
  const auto words = [&](const std::string& name, const std::vector<G>& a,
                         std::size_t len, std::size_t n, const char* pass) {
    std::uint64_t size = 1;
    for (std::size_t i = 0; i < len; ++i) {
      size *= a.size();
    }
    r.space(name, size,
            "all " + std::to_string(len) + "-operation programs over " +
                std::to_string(a.size()) + " operations on " +
                std::to_string(n) + " qubits",
            [&a, len, n, pass, name](std::uint64_t idx, mc::Ctx& c) {
              std::vector<G> w;
              for (std::size_t i = 0; i < len; ++i) {
                w.push_back(a[idx % a.size()]);
                idx /= a.size();
              }
              straight(c, name, w, n, pass);
            });
  };
  words("cancel/1", big, 1, 3, "cancel");
  words("cancel/2", big, 2, 3, "cancel");
  words("cancel/3", small, 3, 2, "cancel");
  words("cancel/4", small, 4, 2, "cancel");
  if (r.thorough) {
    words("cancel/3-all", big, 3, 3, "cancel");
    words("cancel/5", small, 5, 2, "cancel");
  }
  for (const auto* pass : {"sink", "cancel"}) {
    for (std::size_t shape = 0; shape < 8; ++shape) {
      for (std::size_t len = 0; len <= 3; ++len) {
        // the sinking pass is where control flow matters most
        const bool sinking = std::string(pass) == "sink";
        const std::size_t most =
            (shape == 0 || shape == 7 || (shape == 3 && !sinking)) ? 1 : 2;
        if (len > most + (r.thorough ? 1U : 0U)) {
          continue;
        }
        std::uint64_t size = flowSize(shape);
        for (std::size_t i = 0; i < len; ++i) {
          size *= 6;
        }
        const auto name = std::string(pass) + "/" + SHAPES[shape] +
                          std::to_string(len);
        r.space(name, size,
                "control flow: words of length " + std::to_string(len) +
                    " before the branch, one gate per block, every way of "
                    "handing the qubits over",
                [=](std::uint64_t idx, mc::Ctx& c) {
                  flow(c, name, shape, len, idx);
                });
      }
    }
  }
  static const std::vector<std::vector<G>> FL = {
      flips(1, false), flips(2, false), flips(3, false),
      flips(1, true),  flips(2, true),  flips(3, true)};
  for (std::size_t k = 0; k < 6; ++k) {
    const auto n = (k % 3) + 1;
    const auto& a = FL[k];
    for (std::size_t len = 0; len <= (n < 3 ? 4U : 3U); ++len) {
      std::uint64_t size = 8;
      for (std::size_t i = 0; i < len; ++i) {
        size *= a.size();
      }
      if (size > (r.thorough ? 3000000U : 200000U) || (k > 2 && len == 0)) {
        continue;
      }
      r.space("roundtrip/" + std::string(k > 2 ? "gates" : "x") +
                  std::to_string(n) + "-" + std::to_string(len),
              size,
              std::to_string(len) + " operations on " + std::to_string(n) +
                  " qubits, four placements of the measurements, two orders of "
                  "extraction",
              [n, len, &a](std::uint64_t idx, mc::Ctx& c) {
                Digits d{idx};
                const auto when = d(4);
                const auto rev = d(2) == 1;
                std::vector<G> w;
                for (std::size_t i = 0; i < len; ++i) {
                  w.push_back(a[d(a.size())]);
                }
                roundTrip(c, w, n, when, rev);
              });
    }
  }
  return r.finish();
}
