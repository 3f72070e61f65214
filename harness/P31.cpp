// P31: shuttling (AOD) operations and the names of operation types.
#include "ir/Definitions.hpp"
#include "ir/Permutation.hpp"
#include "ir/QuantumComputation.hpp"
#include "ir/Register.hpp"
#include "ir/operations/AodOperation.hpp"
#include "ir/operations/OpType.hpp"
#include "mc.hpp"

#include <array>
#include <cmath>
#include <map>
#include <regex>
#include <set>
#include <sstream>
#include <streambuf>

using na::AodOperation;
using na::Dimension;
namespace {
struct Seg {
  int dir;
  double from, to;
  bool operator==(const Seg& o) const {
    return dir == o.dir && from == o.from && to == o.to;
  }
};
struct M {
  qc::OpType type = qc::AodMove;
  std::vector<qc::Qubit> targets;
  std::vector<Seg> segs;
  bool operator==(const M& o) const {
    return type == o.type && targets == o.targets && segs == o.segs;
  }
  [[nodiscard]] M inv() const {
    M m = *this;
    if (type == qc::AodMove) {
      for (auto& s : m.segs) {
        std::swap(s.from, s.to);
      }
    } else {
      m.type = type == qc::AodActivate ? qc::AodDeactivate : qc::AodActivate;
    }
    return m;
  }
};
const std::array<qc::OpType, 3> TYPES{qc::AodActivate, qc::AodDeactivate,
                                      qc::AodMove};
const std::array<const char*, 3> NAMES{"aod_activate", "aod_deactivate",
                                       "aod_move"};
std::string nameOf(const qc::OpType t) {
  for (std::size_t i = 0; i < 3; ++i) {
    if (TYPES[i] == t) {
      return NAMES[i];
    }
  }
  return "?";
}
const std::vector<std::pair<double, double>> VALS{
    {0., 1.},         {1., 0.},          {2.5, -2.5}, {1234567.25, 0.1 + 0.2},
    {1e-7, 12345.678}, {3., 3.}, {-0.123456789, 1. / 3}};
const std::vector<std::vector<qc::Qubit>> TARGETS{
    {0}, {1}, {0, 1}, {2, 0}, {1, 2, 0}};

AodOperation build(const M& m, const std::size_t way) {
  std::vector<std::uint32_t> du;
  std::vector<Dimension> dd;
  std::vector<qc::fp> st;
  std::vector<qc::fp> en;
  std::vector<std::tuple<Dimension, qc::fp, qc::fp>> tu;
  std::vector<na::SingleOperation> so;
  for (const auto& s : m.segs) {
    du.push_back(static_cast<std::uint32_t>(s.dir));
    dd.push_back(static_cast<Dimension>(s.dir));
    st.push_back(s.from);
    en.push_back(s.to);
    tu.emplace_back(dd.back(), s.from, s.to);
    so.emplace_back(dd.back(), s.from, s.to);
  }
  switch (way) {
  case 0:
    return {m.type, m.targets, dd, st, en};
  case 1:
    return {m.type, m.targets, du, st, en};
  case 2:
    return {nameOf(m.type), m.targets, du, st, en};
  case 3:
    return {m.type, m.targets, tu};
  default:
    return {m.type, m.targets, so};
  }
}
std::string show(const M& m) {
  std::ostringstream s;
  s.precision(17);
  s << nameOf(m.type) << " targets";
  for (const auto q : m.targets) {
    s << ' ' << q;
  }
  for (const auto& g : m.segs) {
    s << " [" << g.dir << ": " << g.from << " -> " << g.to << "]";
  }
  return s.str();
}
bool near(const double a, const double b) {
  return std::abs(a - b) <= 1e-12 * std::max({1., std::abs(a), std::abs(b)}) &&
         std::abs(a - b) <= 1e-9 * std::max(std::abs(a), std::abs(b)) + 1e-15;
}
// collects characters, cannot seek
struct Sink : std::streambuf {
  std::string text;
  int overflow(int c) override {
    if (c != EOF) {
      text.push_back(static_cast<char>(c));
    }
    return c;
  }
};
/// one line of the dump against the model
std::string lineMatches(std::string l, const M& m) {
  while (!l.empty() && std::isspace(static_cast<unsigned char>(l.back()))) {
    l.pop_back();
  }
  static const std::regex R(R"(\s*(\w+)\s*\(([^)]*)\)\s*(.*);)");
  std::smatch k;
  if (!std::regex_match(l, k, R)) {
    return "not of the form name (...) qubits;";
  }
  if (k[1] != nameOf(m.type)) {
    return "name " + k[1].str();
  }
  std::vector<Seg> segs;
  std::istringstream is(k[2].str());
  std::string part;
  while (std::getline(is, part, ';')) {
    Seg s{};
    char c = 0;
    char d = 0;
    std::istringstream ps(part);
    if (ps >> s.dir >> c >> s.from >> d >> s.to && c == ',' && d == ',') {
      segs.push_back(s);
    } else if (part.find_first_not_of(' ') != std::string::npos) {
      return "malformed part '" + part + "'";
    }
  }
  if (segs.size() != m.segs.size()) {
    return "number of parts";
  }
  for (std::size_t i = 0; i < segs.size(); ++i) {
    if (segs[i].dir != m.segs[i].dir || !near(segs[i].from, m.segs[i].from) ||
        !near(segs[i].to, m.segs[i].to)) {
      return "part " + std::to_string(i);
    }
  }
  std::string want;
  for (const auto q : m.targets) {
    want += (want.empty() ? "q[" : ",q[") + std::to_string(q) + "]";
  }
  std::string got;
  for (const char c : k[3].str()) {
    if (c != ' ') {
      got.push_back(c);
    }
  }
  return got == want ? "" : "qubits " + got;
}
void compare(mc::Ctx& ctx, const AodOperation& op, const M& m,
             const char* what) {
  const auto where = [&](const char* f) {
    return std::string(what) + ": " + f + " of " + show(m);
  };
  ctx.checkf(op.getType() == m.type, "type", [&] { return where("type"); });
  ctx.checkf(op.getName() == nameOf(m.type), "name", [&] {
    return where("name") + " is reported as " + op.getName();
  });
  ctx.checkf(op.getTargets() == m.targets && op.getControls().empty(),
             "qubits", [&] { return where("qubits"); });
  std::set<qc::Qubit> used(m.targets.begin(), m.targets.end());
  ctx.checkf(op.getUsedQubits() == used &&
                 op.getNtargets() == m.targets.size() &&
                 op.getNqubits() == m.targets.size(),
             "used-qubits", [&] { return where("used qubits"); });
  for (const int d : {0, 1}) {
    std::vector<double> st;
    std::vector<double> en;
    std::vector<double> di;
    double mx = 0;
    for (const auto& s : m.segs) {
      if (s.dir == d) {
        st.push_back(s.from);
        en.push_back(s.to);
        di.push_back(std::abs(s.to - s.from));
        mx = std::max(mx, di.back());
      }
    }
    const auto dim = static_cast<Dimension>(d);
    ctx.checkf(op.getStarts(dim) == st, "starts",
               [&] { return where("starts"); });
    ctx.checkf(op.getEnds(dim) == en, "ends", [&] { return where("ends"); });
    ctx.checkf(op.getDistances(dim) == di, "distances",
               [&] { return where("distances"); });
    ctx.checkf(op.getMaxDistance(dim) == mx, "max-distance",
               [&] { return where("maximal distance"); });
  }
}
M decode(std::size_t idx, const std::size_t maxSegs) {
  M m;
  m.type = TYPES[idx % 3];
  idx /= 3;
  m.targets = TARGETS[idx % TARGETS.size()];
  idx /= TARGETS.size();
  const auto per = 2 * VALS.size();
  std::size_t block = 1;
  for (std::size_t n = 0; n <= maxSegs; ++n) {
    if (idx < block) {
      for (std::size_t i = 0; i < n; ++i) {
        const auto v = VALS[(idx % per) / 2];
        m.segs.push_back({static_cast<int>(idx % 2), v.first, v.second});
        idx /= per;
      }
      return m;
    }
    idx -= block;
    block *= per;
  }
  return m;
}
std::size_t count(const std::size_t maxSegs) {
  const auto per = 2 * VALS.size();
  std::size_t total = 0;
  std::size_t block = 1;
  for (std::size_t n = 0; n <= maxSegs; ++n) {
    total += block;
    block *= per;
  }
  return total * 3 * TARGETS.size();
}
qc::QubitIndexToRegisterMap regs(qc::QuantumRegister& reg) {
  qc::QubitIndexToRegisterMap map{};
  for (qc::Qubit q = 0; q < 3; ++q) {
    map.try_emplace(q, reg, reg.toString(q));
  }
  return map;
}
const std::vector<std::pair<qc::OpType, std::pair<const char*, int>>> ALL{
    {qc::GPhase, {"gphase", 0}},
    {qc::I, {"i", 1}},
    {qc::Barrier, {"barrier", -1}},
    {qc::H, {"h", 1}},
    {qc::X, {"x", 1}},
    {qc::Y, {"y", 1}},
    {qc::Z, {"z", 1}},
    {qc::S, {"s", 1}},
    {qc::Sdg, {"sdg", 1}},
    {qc::T, {"t", 1}},
    {qc::Tdg, {"tdg", 1}},
    {qc::V, {"v", 1}},
    {qc::Vdg, {"vdg", 1}},
    {qc::U, {"u", 1}},
    {qc::U2, {"u2", 1}},
    {qc::P, {"p", 1}},
    {qc::SX, {"sx", 1}},
    {qc::SXdg, {"sxdg", 1}},
    {qc::RX, {"rx", 1}},
    {qc::RY, {"ry", 1}},
    {qc::RZ, {"rz", 1}},
    {qc::SWAP, {"swap", 2}},
    {qc::iSWAP, {"iswap", 2}},
    {qc::iSWAPdg, {"iswapdg", 2}},
    {qc::Peres, {"peres", 2}},
    {qc::Peresdg, {"peresdg", 2}},
    {qc::DCX, {"dcx", 2}},
    {qc::ECR, {"ecr", 2}},
    {qc::RXX, {"rxx", 2}},
    {qc::RYY, {"ryy", 2}},
    {qc::RZZ, {"rzz", 2}},
    {qc::RZX, {"rzx", 2}},
    {qc::XXminusYY, {"xx_minus_yy", 2}},
    {qc::XXplusYY, {"xx_plus_yy", 2}},
    {qc::Compound, {"compound", -1}},
    {qc::Measure, {"measure", -1}},
    {qc::Reset, {"reset", -1}},
    {qc::ClassicControlled, {"classic_controlled", -1}},
    {qc::Move, {"move", -1}},
    {qc::AodActivate, {"aod_activate", -1}},
    {qc::AodDeactivate, {"aod_deactivate", -1}},
    {qc::AodMove, {"aod_move", -1}}};
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P31");
  r.assume("coordinates are compared to 12 significant digits in the text");

  const std::size_t ms = r.thorough ? 3 : 2;
  r.space("operations", count(ms) * 5,
          "three types x up to " + std::to_string(ms) +
              " movements from 14 x 5 placements x 5 ways to build one",
          [ms](std::size_t idx, mc::Ctx& ctx) {
            const auto m = decode(idx / 5, ms);
            const auto way = idx % 5;
            auto op = build(m, way);
            compare(ctx, op, m, "as built");
            const auto copy = op.clone();
            ctx.checkf(*copy == op, "copy",
                       [&] { return "the copy differs: " + show(m); });
            const auto inv = op.getInverted();
            compare(ctx, dynamic_cast<const AodOperation&>(*inv), m.inv(),
                    "inverse");
            compare(ctx, op, m, "after asking for the inverse");
            ctx.checkf(inv->isInverseOf(op) && op.isInverseOf(*inv),
                       "inverse-of", [&] {
                         return "not recognised as inverse: " + show(m);
                       });
            // the text, to a stream that can seek, one that already holds
            // text, and one that cannot
            qc::QuantumRegister reg(0, 3, "q");
            const auto map = regs(reg);
            for (const bool inverse : {false, true}) {
              const auto& o = inverse ? *inv : static_cast<qc::Operation&>(op);
              const auto want = inverse ? m.inv() : m;
              std::ostringstream s;
              s << "// first\n";
              o.dumpOpenQASM(s, map, {}, 0, false);
              const auto text = s.str();
              ctx.checkf(text.rfind("// first\n", 0) == 0, "text-before",
                         [&] { return "earlier text changed: " + text; });
              const auto bad = lineMatches(
                  text.substr(std::min<std::size_t>(9, text.size())), want);
              ctx.checkf(bad.empty(), "text", [&] {
                return "text of " + show(want) + ": " + bad + " in " + text;
              });
              Sink k;
              std::ostream ks(&k);
              o.dumpOpenQASM(ks, map, {}, 0, false);
              ks << "// end";
              const auto bad2 = lineMatches(
                  k.text.substr(0, k.text.find("// end")), want);
              ctx.checkf(bad2.empty() && ks.good() &&
                             k.text.find("// end") != std::string::npos,
                         "text-without-seeking", [&] {
                           return "text of " + show(want) +
                                  " to a stream that cannot seek: " + k.text;
                         });
            }
            op.invert();
            compare(ctx, op, m.inv(), "inverted in place");
            op.invert();
            compare(ctx, op, m, "inverted twice");
            compare(ctx, dynamic_cast<const AodOperation&>(*copy), m, "copy");
            op.apply(qc::Permutation{{{0, 2}, {1, 0}, {2, 1}}});
            auto pm = m;
            for (auto& q : pm.targets) {
              q = q == 0 ? 2 : q - 1;
            }
            compare(ctx, op, pm, "after a permutation");
            ctx.state(idx ^ 0x1000000000ULL);
            ctx.trans(12);
          });

  const auto n1 = count(1);
  r.space("pairs", n1 * n1, "all pairs of operations with at most one movement",
          [n1](std::size_t idx, mc::Ctx& ctx) {
            const auto a = decode(idx / n1, 1);
            const auto b = decode(idx % n1, 1);
            const auto x = build(a, 0);
            const auto y = build(b, 3);
            ctx.checkf((x == y) == (a == b) && (x != y) == !(a == b),
                       "equality", [&] {
                         return "equality of " + show(a) + " and " + show(b) +
                                " is reported as " + (x == y ? "yes" : "no");
                       });
            ctx.checkf(x.isInverseOf(y) == (a == b.inv()), "inverse-of", [&] {
              return "being inverse of " + show(a) + " and " + show(b) +
                     " is reported as " + (x.isInverseOf(y) ? "yes" : "no");
            });
            if (a == b) {
              const std::hash<qc::Operation> h{};
              ctx.checkf(h(x) == h(y), "hash",
                         [&] { return "hash of equal " + show(a); });
            }
            ctx.state(idx ^ 0x2000000000ULL);
          });

  // circuits of shuttling operations and gates
  const std::size_t depth = r.thorough ? 4 : 3;
  std::size_t total = 1;
  const std::size_t letters = 3 * 2 * 2 + 2;
  for (std::size_t i = 0; i < depth; ++i) {
    total *= letters;
  }
  r.space(
      "circuits", total,
      "all circuits of " + std::to_string(depth) +
          " operations from 12 shuttling operations and 2 gates",
      [depth](std::size_t idx, mc::Ctx& ctx) {
        ctx.state(idx ^ 0x3000000000ULL);
        qc::QuantumComputation qc(3);
        struct L {
          bool gate;
          std::string line;
          M m;
        };
        std::vector<L> ls;
        for (std::size_t i = 0; i < depth; ++i) {
          const auto l = idx % letters;
          idx /= letters;
          if (l < 12) {
            M m;
            m.type = TYPES[l % 3];
            m.targets = TARGETS[1 + (l / 3) % 2 * 2];
            m.segs = l / 6 == 0 ? std::vector<Seg>{{0, 1., 2.}, {1, -1., 0.5}}
                                : std::vector<Seg>{{1, 7.25, 1234567.5}};
            qc.emplace_back<AodOperation>(build(m, 4));
            ls.push_back({false, "", m});
          } else {
            if (l == 12) {
              qc.h(1);
            } else {
              qc.swap(0, 2);
            }
            ls.push_back(
                {true, l == 12 ? "h q[1];" : "swap q[0], q[2];", M{}});
          }
        }
        const auto before = qc;
        const auto verify = [&](const char* what) {
          ctx.checkf(qc.getNops() == ls.size(), "count",
                     [&] { return std::string(what) + ": operations"; });
          for (const bool v3 : {false, true}) {
            Sink k;
            std::ostream ks(&k);
            if (v3) {
              qc.dumpOpenQASM(ks, true);
            } else {
              qc.dumpOpenQASM(ks, false);
            }
            std::istringstream is(k.text);
            std::string line;
            std::vector<std::string> body;
            while (std::getline(is, line)) {
              if (line.rfind("aod_", 0) == 0 || line.rfind("h ", 0) == 0 ||
                  line.rfind("swap ", 0) == 0) {
                body.push_back(line);
              }
            }
            bool good = body.size() == ls.size();
            for (std::size_t i = 0; good && i < ls.size(); ++i) {
              good = ls[i].gate ? body[i] == ls[i].line
                                : lineMatches(body[i], ls[i].m).empty();
            }
            ctx.checkf(good, "text", [&] {
              return std::string(what) + ": text of the circuit\n" + k.text;
            });
          }
        };
        verify("as built");
        qc.invert();
        std::reverse(ls.begin(), ls.end());
        for (auto& l : ls) {
          l.m = l.m.inv();
        }
        verify("inverted");
        qc.invert();
        ctx.checkf(qc == before, "inverted-twice",
                   [&] { return "inverting twice changes the circuit"; });
        ctx.trans(depth);
      });

  r.space("types", ALL.size(), "all named types of operations",
          [](std::size_t idx, mc::Ctx& ctx) {
            const auto& [t, d] = ALL[idx];
            const std::string n = d.first;
            ctx.checkf(qc::toString(t) == n, "to-string",
                       [&] { return n + " is named " + qc::toString(t); });
            ctx.checkf(qc::opTypeFromString(n) == t, "from-string",
                       [&] { return n + " is read as another type"; });
            std::ostringstream o;
            o << t;
            std::istringstream i("  " + n + " rest");
            qc::OpType back = qc::None;
            std::string rest;
            i >> back >> rest;
            ctx.checkf(o.str() == n && back == t && rest == "rest", "streams",
                       [&] { return n + " does not survive streams"; });
            ctx.checkf(qc::isSingleQubitGate(t) == (d.second == 1),
                       "single-qubit", [&] { return n; });
            ctx.checkf(qc::isTwoQubitGate(t) == (d.second == 2), "two-qubit",
                       [&] { return n; });
            for (const auto& [t2, d2] : ALL) {
              ctx.checkf((t == t2) == (qc::shortName(t) == qc::shortName(t2)),
                         "short-name", [&] {
                           return "short names of " + n + " and " + d2.first;
                         });
            }
            ctx.state(idx ^ 0x4000000000ULL);
          });

  const std::size_t len = r.thorough ? 5 : 4;
  const std::string sym = "abcdeghiknmoprstuvwxyz_0123";
  r.space("names", sym.size() * sym.size(),
          "all strings of at most " + std::to_string(len) + " characters",
          [&sym, len](std::size_t idx, mc::Ctx& ctx) {
            static const std::map<std::string, std::string> ALIAS{
                {"id", "i"},     {"cnot", "x"},   {"u3", "u"},
                {"cu3", "u"},    {"u1", "p"},     {"cu1", "p"},
                {"phase", "p"},  {"cphase", "p"}, {"mcphase", "p"},
                {"none", "none"}};
            std::string s{sym[idx / sym.size()], sym[idx % sym.size()]};
            std::size_t found = 0;
            const std::function<void()> visit = [&] {
              ctx.trans();
              try {
                const auto t = qc::opTypeFromString(s);
                ++found;
                const auto n = qc::toString(t);
                const auto a = ALIAS.find(s);
                ctx.checkf(s == n || s == "c" + n || s == "mc" + n ||
                               (a != ALIAS.end() && a->second == n),
                           "reads-as",
                           [&] { return "'" + s + "' is read as " + n; });
              } catch (const std::invalid_argument&) {
                const auto known =
                    std::any_of(ALL.begin(), ALL.end(), [&](const auto& e) {
                      return s == e.second.first;
                    });
                ctx.checkf(!known, "refused",
                           [&] { return "'" + s + "' is refused"; });
              }
              if (s.size() < len) {
                for (const char c : sym) {
                  s.push_back(c);
                  visit();
                  s.pop_back();
                }
              }
            };
            visit();
            if (idx == 0) {
              s = s.substr(0, 1);
              for (const char c : sym) {
                s[0] = c;
                const auto l = len;
                (void)l;
                try {
                  const auto t = qc::opTypeFromString(s);
                  ctx.checkf(qc::toString(t) == s, "reads-as",
                             [&] { return "'" + s + "'"; });
                } catch (const std::invalid_argument&) {
                  ctx.check(std::string("ihxyzstvup").find(s) ==
                                std::string::npos,
                            "refused", "'" + s + "' is refused");
                }
              }
            }
          });
  return r.finish();
}
