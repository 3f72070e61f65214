// P20: ZX simplification preserves the linear map, keeps diagrams well-formed
// and exhausts its rules.
#include "zxh.hpp"

using namespace circ;

namespace {
using qc::Qubit;
using zx::EdgeType;
using zx::PiExpression;
using zx::PiRational;
using zx::Vertex;
using zx::VertexType;
using zx::ZXDiagram;
using zxh::C;
constexpr double TOL = 1e-6;
using Phase = PiExpression;
const sym::Variable X("x");
const sym::Variable Y("y");

Phase ph(int num, int den) { return Phase(PiRational(num, den)); }
Phase symb(const sym::Variable& v, int num, int den) {
  Phase p(PiRational(num, den));
  p += sym::Term<double>(v, 1.);
  return p;
}

// ---- predicates about diagrams, independent of the library's own ----------
bool pauli(const ZXDiagram& d, Vertex v) {
  const auto& p = d.phase(v);
  if (!p.getTerms().empty()) {
    return false;
  }
  const auto x = std::abs(p.getConst().toDouble());
  return x < 1e-9 || std::abs(x - qc::PI) < 1e-9;
}
bool clifford(const ZXDiagram& d, Vertex v) { // +-pi/2
  const auto& p = d.phase(v);
  return p.getTerms().empty() &&
         std::abs(std::abs(p.getConst().toDouble()) - qc::PI / 2) < 1e-9;
}
bool zero(const ZXDiagram& d, Vertex v) {
  const auto& p = d.phase(v);
  return p.getTerms().empty() && std::abs(p.getConst().toDouble()) < 1e-9;
}
bool spider(const ZXDiagram& d, Vertex v) {
  return d.type(v) != VertexType::Boundary;
}
// surrounded by Z spiders behind Hadamard edges
bool inner(const ZXDiagram& d, Vertex v) {
  if (d.type(v) != VertexType::Z) {
    return false;
  }
  for (const auto& e : d.incidentEdges(v)) {
    if (e.type != EdgeType::Hadamard || d.type(e.to) != VertexType::Z) {
      return false;
    }
  }
  return true;
}
bool outer(const ZXDiagram& d, Vertex v) { // boundaries are allowed as well
  if (d.type(v) != VertexType::Z) {
    return false;
  }
  for (const auto& e : d.incidentEdges(v)) {
    const auto t = d.type(e.to);
    if (t != VertexType::Boundary &&
        (e.type != EdgeType::Hadamard || t != VertexType::Z)) {
      return false;
    }
  }
  return true;
}
bool hasLeaf(const ZXDiagram& d, Vertex v) {
  for (const auto& e : d.incidentEdges(v)) {
    if (d.degree(e.to) == 1) {
      return true;
    }
  }
  return false;
}
template <class F> bool anyVertex(const ZXDiagram& d, F f) {
  for (const auto& [v, _] : d.getVertices()) {
    if (f(v)) {
      return true;
    }
  }
  return false;
}
template <class F> bool anyEdge(const ZXDiagram& d, F f) {
  for (const auto& [v, _] : d.getVertices()) {
    for (const auto& e : d.incidentEdges(v)) {
      if (f(v, e.to, e.type)) {
        return true;
      }
    }
  }
  return false;
}
bool moreId(const ZXDiagram& d) {
  return anyVertex(d, [&](Vertex v) {
    return spider(d, v) && d.degree(v) == 2 && zero(d, v);
  });
}
bool moreSpider(const ZXDiagram& d) {
  return anyEdge(d, [&](Vertex a, Vertex b, EdgeType t) {
    return a != b && t == EdgeType::Simple && spider(d, a) &&
           d.type(a) == d.type(b);
  });
}
bool moreLocal(const ZXDiagram& d) {
  return anyVertex(d, [&](Vertex v) { return inner(d, v) && clifford(d, v); });
}
bool morePauli(const ZXDiagram& d) {
  return anyEdge(d, [&](Vertex a, Vertex b, EdgeType) {
    return inner(d, a) && inner(d, b) && pauli(d, a) && pauli(d, b);
  });
}
bool morePivot(const ZXDiagram& d) {
  return anyEdge(d, [&](Vertex a, Vertex b, EdgeType t) {
    return t == EdgeType::Hadamard && inner(d, a) && pauli(d, a) &&
           !hasLeaf(d, a) && outer(d, b);
  });
}
bool moreGadgetPivot(const ZXDiagram& d) {
  return anyEdge(d, [&](Vertex a, Vertex b, EdgeType) {
    return inner(d, a) && pauli(d, a) && !hasLeaf(d, a) && inner(d, b) &&
           !hasLeaf(d, b) && !pauli(d, b);
  });
}
// two gadgets with one leaf each on the same set of spiders
bool moreGadget(const ZXDiagram& d) {
  std::set<std::set<Vertex>> seen;
  for (const auto& [v, _] : d.getVertices()) {
    if (!inner(d, v) || !pauli(d, v)) {
      continue;
    }
    std::set<Vertex> on;
    std::size_t leaves = 0;
    for (const auto& e : d.incidentEdges(v)) {
      if (d.degree(e.to) == 1) {
        ++leaves;
      } else {
        on.insert(e.to);
      }
    }
    if (leaves == 1 && !on.empty() && !seen.insert(on).second) {
      return true;
    }
  }
  return false;
}

struct Strategy {
  const char* name;
  std::function<std::size_t(ZXDiagram&)> run;
  std::vector<std::pair<const char*, bool (*)(const ZXDiagram&)>> done;
  bool counts; // returns the number of rewrites
};
const std::vector<Strategy>& strategies() {
  static const std::vector<Strategy> s{
      {"idSimp", zx::idSimp, {{"id", moreId}}, true},
      {"spiderSimp", zx::spiderSimp, {{"spider", moreSpider}}, true},
      {"localCompSimp", zx::localCompSimp, {{"localComp", moreLocal}}, true},
      {"pivotPauliSimp", zx::pivotPauliSimp, {{"pivotPauli", morePauli}}, true},
      {"pivotSimp", zx::pivotSimp, {{"pivot", morePivot}}, true},
      {"pivotgadgetSimp",
       zx::pivotgadgetSimp,
       {{"pivotGadget", moreGadgetPivot}},
       true},
      {"gadgetSimp", zx::gadgetSimp, {{"gadget", moreGadget}}, true},
      {"interiorCliffordSimp",
       zx::interiorCliffordSimp,
       {{"id", moreId},
        {"spider", moreSpider},
        {"pivotPauli", morePauli},
        {"localComp", moreLocal}},
       false},
      {"cliffordSimp",
       zx::cliffordSimp,
       {{"id", moreId},
        {"spider", moreSpider},
        {"pivotPauli", morePauli},
        {"localComp", moreLocal},
        {"pivot", morePivot}},
       false},
      {"fullReduce",
       zx::fullReduce,
       {{"id", moreId},
        {"spider", moreSpider},
        {"pivotPauli", morePauli},
        {"localComp", moreLocal},
        {"pivotGadget", moreGadgetPivot},
        {"gadget", moreGadget}},
       false},
      {"fullReduceApproximate",
       [](ZXDiagram& d) { return zx::fullReduceApproximate(d, 1e-4); },
       {{"id", moreId},
        {"spider", moreSpider},
        {"pivotPauli", morePauli},
        {"localComp", moreLocal},
        {"pivotGadget", moreGadgetPivot},
        {"gadget", moreGadget}},
       false}};
  return s;
}

using Maps = std::vector<std::vector<ref::Vec>>;
const std::vector<zxh::Assign>& assigns(bool symbolic) {
  static const std::vector<zxh::Assign> one{{}};
  static const std::vector<zxh::Assign> two{{{"x", 0.3}, {"y", 1.9}},
                                            {{"x", -1.1}, {"y", 0.4}}};
  return symbolic ? two : one;
}
Maps maps(const ZXDiagram& d, bool symbolic) {
  Maps m;
  for (const auto& a : assigns(symbolic)) {
    m.push_back(zxh::toMap(d, a));
  }
  return m;
}

// after: the diagram after a rewrite of one with the given maps
void judge(mc::Ctx& c, const std::string& what, const ZXDiagram& before,
           const Maps& m, const ZXDiagram& after, bool symbolic) {
  c.trans();
  const auto bad = zxh::inconsistent(after);
  c.checkf(bad.empty(), (what + ":inconsistent").c_str(), [&] {
    return bad + " in " + zxh::str(after) + "\nfrom " + zxh::str(before);
  });
  c.checkf(after.getInputs().size() == before.getInputs().size() &&
               after.getOutputs().size() == before.getOutputs().size(),
           (what + ":boundary").c_str(), [&] { return zxh::str(before); });
  if (!bad.empty()) {
    return;
  }
  const auto n = maps(after, symbolic);
  for (std::size_t i = 0; i < m.size(); ++i) {
    if (zxh::normOf(m[i]) < 1e-9) {
      continue; // whether a scalar vanishes is not tracked
    }
    c.checkf(zxh::distScalar(m[i], n[i]) < TOL, what.c_str(), [&] {
      return zxh::str(before) + "\nbecomes " + zxh::str(after) + "\nmap " +
             zxh::str(m[i]) + "\nbecomes " + zxh::str(n[i]);
    });
  }
}
void judgeStrategies(mc::Ctx& c, const ZXDiagram& d, const Maps& m,
                     bool symbolic, std::size_t from = 0) {
  const auto& ss = strategies();
  for (std::size_t k = from; k < ss.size(); ++k) {
    const auto& s = ss[k];
    auto e = d;
    const auto n = s.run(e);
    judge(c, s.name, d, m, e, symbolic);
    for (const auto& [rule, more] : s.done) {
      c.checkf(!more(e), (std::string(s.name) + ":left:" + rule).c_str(),
               [&] { return zxh::str(d) + "\nleft " + zxh::str(e); });
    }
    if (s.counts) {
      c.checkf((n == 0) == (zxh::str(d) == zxh::str(e)),
               (std::string(s.name) + ":count").c_str(), [&] {
                 return std::to_string(n) + ": " + zxh::str(d) + "\nbecomes " +
                        zxh::str(e);
               });
    }
    c.checkf(!e.isIdentity() || [&] {
      for (const auto& [v, _] : e.getVertices()) {
        if (!e.isInput(v) && !e.isOutput(v) && e.degree(v) != 0) {
          return false;
        }
      }
      const auto id = ref::ident(e.getNQubits());
      for (const auto& x : m) {
        if (zxh::normOf(x) > 1e-9 && zxh::distScalar(x, id) > TOL) {
          return false;
        }
      }
      return true;
    }(), "isIdentity", [&] {
      return zxh::str(d) + "\nreduced by " + s.name + " to " + zxh::str(e);
    });
  }
}
// every rule at every place the library finds applicable
void judgeRules(mc::Ctx& c, const ZXDiagram& d, const Maps& m, bool symbolic,
                bool gadgets = true) {
  using VC = bool (*)(const ZXDiagram&, Vertex);
  using VR = void (*)(ZXDiagram&, Vertex);
  static const std::vector<std::tuple<const char*, VC, VR>> vr{
      {"rule:id", zx::checkIdSimp, zx::removeId},
      {"rule:localComp", zx::checkLocalComp, zx::localComp}};
  using EC = bool (*)(const ZXDiagram&, Vertex, Vertex);
  using ER = void (*)(ZXDiagram&, Vertex, Vertex);
  static const std::vector<std::tuple<const char*, EC, ER>> er{
      {"rule:spider", zx::checkSpiderFusion, zx::fuseSpiders},
      {"rule:pivotPauli", zx::checkPivotPauli, zx::pivotPauli},
      {"rule:pivot", zx::checkPivot, zx::pivot},
      {"rule:pivotGadget", zx::checkPivotGadget, zx::pivotGadget}};
  for (const auto& [v, data] : d.getVertices()) {
    for (const auto& [name, check, rule] : vr) {
      if (check(d, v)) {
        auto e = d;
        rule(e, v);
        judge(c, name, d, m, e, symbolic);
      }
    }
    if (gadgets) {
      auto e = d;
      if (zx::checkAndFuseGadget(e, v)) {
        judge(c, "rule:gadget", d, m, e, symbolic);
      } else {
        c.checkf(zxh::str(d) == zxh::str(e), "rule:gadget:refused",
                 [&] { return zxh::str(d) + "\nbecomes " + zxh::str(e); });
      }
    }
    for (const auto& edge : d.incidentEdges(v)) {
      for (const auto& [name, check, rule] : er) {
        if (check(d, v, edge.to)) {
          auto e = d;
          rule(e, v, edge.to);
          judge(c, name, d, m, e, symbolic);
        }
      }
    }
  }
}

// a diagram with the given numbers of inputs and outputs and no spiders
struct Made {
  ZXDiagram d;
  std::vector<Vertex> ends; // inputs, then outputs
};
Made bare(std::size_t n) {
  Made r{ZXDiagram(n), {}};
  for (std::size_t i = 0; i < n; ++i) {
    r.d.removeEdge(r.d.getInput(i), r.d.getOutput(i));
  }
  for (std::size_t i = 0; i < n; ++i) {
    r.ends.push_back(r.d.getInput(i));
  }
  for (std::size_t i = 0; i < n; ++i) {
    r.ends.push_back(r.d.getOutput(i));
  }
  return r;
}
// number of ways to attach two ends to k spiders or to each other
std::uint64_t attachments(std::size_t k) { return 4 * k * k + 2; }
void attach(Made& r, const std::vector<Vertex>& s, std::uint64_t i,
            std::size_t a = 0, std::size_t b = 1) {
  const auto t = [](std::uint64_t x) {
    return x % 2 == 0 ? EdgeType::Simple : EdgeType::Hadamard;
  };
  const auto k = s.size();
  if (i >= 4 * k * k) {
    r.d.addEdge(r.ends[a], r.ends[b], t(i - 4 * k * k));
    return;
  }
  r.d.addEdge(r.ends[a], s[i / 2 % k], t(i));
  i /= 2 * k;
  r.d.addEdge(r.ends[b], s[i / 2], t(i));
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P20");
  r.assume("maps are compared up to a non-zero scalar, and diagrams of the zero "
           "map are left out, as the scalar of a diagram is not tracked");
  r.assume("the rules on Z spiders are applied to graph-like diagrams: Z spiders "
           "joined by at most one Hadamard edge, each boundary with one edge");

  // graph-like diagrams
  const auto graphs = [&](const std::string& name, std::size_t k,
                          std::vector<Phase> ps, bool symbolic,
                          std::size_t lines, const std::string& what) {
    const auto ne = k * (k - 1) / 2;
    std::uint64_t np = 1;
    for (std::size_t i = 0; i < k; ++i) {
      np *= ps.size();
    }
    std::uint64_t na = 1;
    for (std::size_t i = 0; i < lines; ++i) {
      na *= attachments(k);
    }
    r.space(name, (np << ne) * na, what,
            [=](std::uint64_t i, mc::Ctx& c) {
              auto g = bare(lines);
              std::vector<Vertex> s;
              for (std::size_t j = 0; j < k; ++j) {
                s.push_back(g.d.addVertex(0, 0, ps[i % ps.size()]));
                i /= ps.size();
              }
              for (std::size_t a = 0; a < k; ++a) {
                for (std::size_t b = a + 1; b < k; ++b) {
                  if (i % 2 == 1) {
                    g.d.addEdge(s[a], s[b], EdgeType::Hadamard);
                  }
                  i /= 2;
                }
              }
              for (std::size_t l = 0; l < lines; ++l) {
                attach(g, s, i % attachments(k), l, lines + l);
                i /= attachments(k);
              }
              c.state(zxh::hash(g.d));
              const auto m = maps(g.d, symbolic);
              judgeRules(c, g.d, m, symbolic);
              judgeStrategies(c, g.d, m, symbolic);
            });
  };
  const std::vector<Phase> p5{ph(0, 1), ph(1, 1), ph(1, 2), ph(-1, 2), ph(1, 4)};
  const std::vector<Phase> p4{ph(0, 1), ph(1, 1), ph(1, 2), ph(1, 4)};
  const std::vector<Phase> p3{ph(0, 1), ph(1, 1), ph(-1, 4)};
  for (std::size_t k = 1; k <= 3; ++k) {
    graphs("graphs-" + std::to_string(k), k, p5, false, 1,
           "all graph-like diagrams of " + std::to_string(k) +
               " spiders with 5 phases, one input and one output");
  }
  if (r.thorough) {
    graphs("graphs-4", 4, p4, false, 1,
           "all graph-like diagrams of 4 spiders with 4 phases, one input and "
           "one output");
    graphs("graphs-lines", 3, p3, false, 2,
           "all graph-like diagrams of 3 spiders with 3 phases, two inputs and "
           "two outputs");
  } else {
    graphs("graphs-4", 4, {ph(0, 1), ph(1, 2), ph(3, 4)}, false, 1,
           "all graph-like diagrams of 4 spiders with 3 phases, one input and "
           "one output");
    graphs("graphs-lines", 2, p5, false, 2,
           "all graph-like diagrams of 2 spiders with 5 phases, two inputs and "
           "two outputs");
  }
  graphs("symbolic", 3,
         {ph(0, 1), ph(1, 1), ph(1, 2), symb(X, 0, 1), symb(Y, 1, 2)}, true, 1,
         "all graph-like diagrams of 3 spiders with phases that contain symbols");

  // phase gadgets on up to three spiders
  {
    struct Hub {
      unsigned on;
      int phase; // 0: 0, 1: pi, 2: pi/4
      std::vector<Phase> leaves;
    };
    const std::vector<std::vector<Phase>> leaves{
        {ph(1, 4)}, {ph(-1, 2)}, {ph(1, 4), ph(1, 8)}, {ph(1, 1)}, {}};
    std::vector<Hub> hubs;
    for (unsigned on = 1; on < 8; ++on) {
      for (int p = 0; p < 3; ++p) {
        for (std::size_t l = 0; l < leaves.size(); ++l) {
          if (p < 2 || l == 0) {
            hubs.push_back({on, p, leaves[l]});
          }
        }
      }
    }
    const auto h = hubs.size();
    const auto build = [=](Made& g, const std::vector<Vertex>& t, const Hub& x) {
      const auto v = g.d.addVertex(
          0, 0, x.phase == 0 ? ph(0, 1) : x.phase == 1 ? ph(1, 1) : ph(1, 4));
      for (std::size_t i = 0; i < t.size(); ++i) {
        if ((x.on >> i & 1U) != 0) {
          g.d.addEdge(v, t[i], EdgeType::Hadamard);
        }
      }
      for (const auto& p : x.leaves) {
        g.d.addEdge(v, g.d.addVertex(0, 0, p), EdgeType::Hadamard);
      }
      return v;
    };
    const auto gadgets = [=](mc::Ctx& c, std::vector<std::size_t> which,
                             bool joined, std::uint64_t form) {
      // three lines of a spider each, or with ends on both sides
      auto g = bare(3);
      std::vector<Vertex> t;
      const std::vector<Phase> tp{ph(0, 1), ph(1, 4), ph(1, 2)};
      for (std::size_t i = 0; i < 3; ++i) {
        t.push_back(g.d.addVertex(static_cast<zx::Qubit>(i), 0,
                                  form == 0 ? ph(1, 4) : tp[(i + form) % 3]));
        g.d.addEdge(g.ends[i], t[i],
                    form == 2 ? EdgeType::Hadamard : EdgeType::Simple);
        g.d.addEdge(g.ends[3 + i], t[i]);
      }
      std::vector<Vertex> v;
      for (const auto w : which) {
        v.push_back(build(g, t, hubs[w]));
      }
      if (joined) {
        g.d.addEdge(v[0], v[1], EdgeType::Hadamard);
      }
      c.state(zxh::hash(g.d));
      const auto m = maps(g.d, false);
      judgeRules(c, g.d, m, false);
      judgeStrategies(c, g.d, m, false);
    };
    r.space("gadgets-2", h * h * 6,
            "all pairs of gadgets on three lines: all targets, hub and leaf "
            "phases, no to two leaves, joined or not",
            [=](std::uint64_t i, mc::Ctx& c) {
              gadgets(c, {i / 6 % h, i / 6 / h}, i % 2 == 1, i / 2 % 3);
            });
    std::vector<std::size_t> some;
    for (std::size_t i = 0; i < h; ++i) {
      if (hubs[i].phase < 2 && (hubs[i].leaves.size() == 1 || r.thorough) &&
          (r.thorough || hubs[i].on == 7 || hubs[i].on == 3 || hubs[i].on == 4)) {
        some.push_back(i);
      }
    }
    const auto q = some.size();
    r.space("gadgets-3", q * q * q,
            "all triples out of " + std::to_string(q) + " gadgets",
            [=](std::uint64_t i, mc::Ctx& c) {
              gadgets(c, {some[i % q], some[i / q % q], some[i / q / q]}, false,
                      i % 3);
            });
    // the targets of the gadgets are boundaries or spiders behind either edge
    r.space("gadget-ends", 4 * 3 * 3 * 2 * 2 * 2 * 2 * 2,
            "a gadget that touches one or two boundaries or spiders behind plain "
            "or Hadamard edges",
            [=](std::uint64_t i, mc::Ctx& c) {
              auto g = bare(1);
              const auto bit = [&] {
                const auto b = i % 2 == 1;
                i /= 2;
                return b ? EdgeType::Hadamard : EdgeType::Simple;
              };
              const auto e0 = bit();
              const auto e1 = bit();
              const auto e2 = bit();
              const auto e3 = bit();
              const auto leafEdge = bit();
              const auto hub = g.d.addVertex(0, 0, p3[i % 3]);
              i /= 3;
              const auto leaf = g.d.addVertex(0, 0, p3[i % 3]);
              i /= 3;
              g.d.addEdge(hub, leaf, leafEdge);
              // which ends have a spider between them and the hub
              const Vertex in = g.ends[0];
              const Vertex out = g.ends[1];
              if (i % 2 == 0) {
                g.d.addEdge(in, hub, e0);
              } else {
                const auto s = g.d.addVertex(0, 0, ph(1, 4));
                g.d.addEdge(in, s, e0);
                g.d.addEdge(s, hub, e1);
              }
              if (i / 2 == 0) {
                g.d.addEdge(out, hub, e2);
              } else {
                const auto s = g.d.addVertex(0, 0, ph(1, 2));
                g.d.addEdge(out, s, e2);
                g.d.addEdge(s, leaf, e3);
              }
              c.state(zxh::hash(g.d));
              const auto m = maps(g.d, false);
              auto e = g.d;
              zx::spiderSimp(e);
              judge(c, "spiderSimp", g.d, m, e, false);
              judgeRules(c, e, m, false);
              judgeStrategies(c, e, m, false);
              judgeStrategies(c, g.d, m, false, 7);
            });
    r.space("gadget-dangling", 2 * 2 * 2 * 3 * 3 * 3 * 2,
            "a wire that ends in a gadget on each side",
            [=](std::uint64_t i, mc::Ctx& c) {
              auto g = bare(1);
              const auto pick = [&](std::uint64_t n) {
                const auto x = i % n;
                i /= n;
                return x;
              };
              const auto ty = [&] {
                return pick(2) == 1 ? EdgeType::Hadamard : EdgeType::Simple;
              };
              for (std::size_t e = 0; e < 2; ++e) {
                const auto hub = g.d.addVertex(0, 0, p3[e == 0 ? pick(3) : 1]);
                const auto leaf = g.d.addVertex(0, 0, p3[pick(3)]);
                g.d.addEdge(g.ends[e], hub, ty());
                g.d.addEdge(hub, leaf, e == 0 ? EdgeType::Hadamard : ty());
              }
              c.state(zxh::hash(g.d));
              const auto m = maps(g.d, false);
              judgeStrategies(c, g.d, m, false, 7);
              zx::spiderSimp(g.d);
              judgeRules(c, g.d, m, false);
              judgeStrategies(c, g.d, m, false);
            });
  }
  // diagrams of both colours with both kinds of edges
  {
    const std::vector<Phase> ps =
        r.thorough ? std::vector<Phase>{ph(0, 1), ph(1, 4), ph(1, 1), ph(-1, 2)}
                   : std::vector<Phase>{ph(0, 1), ph(1, 4), ph(1, 1)};
    const auto k = std::size_t{3};
    const auto np = ps.size();
    r.space("colours", np * np * np * 8 * 27 * attachments(k),
            "all diagrams of 3 spiders of both colours with " +
                std::to_string(np) +
                " phases, plain or Hadamard edges, one input and output",
            [=](std::uint64_t i, mc::Ctx& c) {
              auto g = bare(1);
              std::vector<Vertex> s;
              for (std::size_t j = 0; j < k; ++j) {
                s.push_back(g.d.addVertex(
                    0, 0, ps[i % np],
                    i / np % 2 == 0 ? VertexType::Z : VertexType::X));
                i /= np * 2;
              }
              for (std::size_t a = 0; a < k; ++a) {
                for (std::size_t b = a + 1; b < k; ++b) {
                  if (i % 3 != 0) {
                    g.d.addEdge(s[a], s[b],
                                i % 3 == 1 ? EdgeType::Simple
                                           : EdgeType::Hadamard);
                  }
                  i /= 3;
                }
              }
              attach(g, s, i);
              c.state(zxh::hash(g.d));
              const auto m = maps(g.d, false);
              // rules that apply to any diagram
              for (const auto v : s) {
                if (zx::checkIdSimp(g.d, v)) {
                  auto e = g.d;
                  zx::removeId(e, v);
                  judge(c, "rule:id", g.d, m, e, false);
                }
                for (const auto w : s) {
                  if (w != v && zx::checkSpiderFusion(g.d, v, w)) {
                    auto e = g.d;
                    zx::fuseSpiders(e, v, w);
                    judge(c, "rule:spider", g.d, m, e, false);
                  }
                  for (const auto t : {EdgeType::Simple, EdgeType::Hadamard}) {
                    if (v < w) {
                      auto e = g.d;
                      auto f = g.d;
                      e.addEdge(v, w, t);
                      f.addEdgeParallelAware(v, w, t);
                      judge(c, "addEdgeParallelAware", e, maps(e, false), f,
                            false);
                    }
                  }
                }
              }
              judgeStrategies(c, g.d, m, false, 9);
              auto e = g.d;
              e.toGraphlike();
              judge(c, "toGraphlike", g.d, m, e, false);
              c.checkf(!anyVertex(e,
                                  [&](Vertex v) {
                                    return e.type(v) == VertexType::X;
                                  }),
                       "toGraphlike:X", [&] { return zxh::str(e); });
              auto f = g.d;
              zx::idSimp(f);
              judge(c, "idSimp", g.d, m, f, false);
              c.check(!moreId(f), "idSimp:left", zxh::str(f));
              f = g.d;
              zx::spiderSimp(f);
              judge(c, "spiderSimp", g.d, m, f, false);
              c.check(!moreSpider(f), "spiderSimp:left", zxh::str(f));
            });
  }
  // diagrams of circuits, with every strategy, and two in a row
  {
    std::vector<Maker> m;
    for (Qubit a = 0; a < 3; ++a) {
      m.emplace_back([a] { return std1(qc::H, a); });
      m.emplace_back([a] { return std1(qc::T, a); });
      const Qubit b = (a + 1) % 3;
      m.emplace_back([=] { return std1(qc::X, b, {}, {a}); });
      m.emplace_back([=] { return std2(qc::RZZ, a, b, {0.7}); });
      m.emplace_back([=] { return std1(qc::SX, a); });
      if (r.thorough) {
        m.emplace_back([=] { return std1(qc::P, a, {qc::PI / 4}, {b}); });
        m.emplace_back([=] { return std2(qc::RXX, a, b, {qc::PI / 4}); });
        m.emplace_back([=] { return std1(qc::RX, a, {0.4}); });
      }
    }
    m.emplace_back([] { return std1(qc::X, 2, {}, {0, 1}); });
    m.emplace_back([] { return std1(qc::RY, 1, {1.1}); });
    m.emplace_back([] { return std2(qc::SWAP, 0, 2); });
    const auto k = m.size();
    r.space("circuits", k * k * k,
            "diagrams of all circuits of 3 out of " + std::to_string(k) +
                " gates on 3 qubits: strategies alone and in pairs",
            [=](std::uint64_t i, mc::Ctx& c) {
              qc::QuantumComputation q(3, 0, 1);
              q.emplace_back(m[i % k]());
              q.emplace_back(m[i / k % k]());
              q.emplace_back(m[i / k / k]());
              auto d = zx::FunctionalityConstruction::buildFunctionality(&q);
              c.state(zxh::hash(d));
              const auto mp = maps(d, false);
              d.toGraphlike();
              judge(c, "toGraphlike", d, mp, d, false);
              const auto& ss = strategies();
              for (std::size_t a = 9; a < ss.size(); ++a) {
                auto e = d;
                ss[a].run(e);
                judge(c, ss[a].name, d, mp, e, false);
              }
              zx::spiderSimp(d);
              judgeStrategies(c, d, mp, false);
              const auto a = i % ss.size();
              auto e = d;
              ss[a].run(e);
              judgeRules(c, e, mp, false);
              for (std::size_t b = 0; b < ss.size(); ++b) {
                auto f = e;
                ss[b].run(f);
                judge(c, (std::string(ss[a].name) + "+" + ss[b].name), e, mp, f,
                      false);
              }
            });
  }
  r.space("queries", 1ULL << 13,
          "two ends and three spiders: all edge sets, all removals, an addition "
          "afterwards; adjacency matrix, connected sets, degrees and counts",
          [](std::uint64_t i, mc::Ctx& c) {
            ZXDiagram d(1);
            std::vector<Vertex> v{d.getInput(0), d.getOutput(0)};
            d.removeEdge(v[0], v[1]);
            for (int k = 0; k < 3; ++k) {
              v.push_back(d.addVertex(0, 0, ph(1, 4)));
            }
            std::map<Vertex, std::set<Vertex>> m;
            for (const auto x : v) {
              m[x];
            }
            std::size_t e = 0;
            for (std::size_t a = 0; a < 5; ++a) {
              for (std::size_t b = a + 1; b < 5; ++b, ++e) {
                if ((i >> e & 1U) != 0) {
                  d.addEdge(v[a], v[b], e % 2 == 0 ? EdgeType::Simple : EdgeType::Hadamard);
                  m[v[a]].insert(v[b]);
                  m[v[b]].insert(v[a]);
                }
              }
            }
            const auto judge = [&](const char* when) {
              c.trans();
              std::size_t n = 0;
              std::string bad;
              const auto fail = [&](const char* what) { bad += std::string(" ") + what; };
              for (const auto& [x, s] : m) {
                n += s.size();
                if (d.degree(x) != s.size()) {
                  fail("degree");
                }
                for (const auto& [y, _] : m) {
                  if (d.connected(x, y) != (s.count(y) != 0) ||
                      d.getEdge(x, y).has_value() != (s.count(y) != 0)) {
                    fail("connected");
                  }
                }
              }
              if (d.getNVertices() != m.size() || d.getNEdges() != n / 2) {
                fail("counts");
              }
              std::set<Vertex> seen;
              for (const auto& [x, _] : d.getVertices()) {
                seen.insert(x);
              }
              std::set<std::pair<Vertex, Vertex>> es;
              for (const auto& [x, y] : d.getEdges()) {
                es.emplace(std::min(x, y), std::max(x, y));
              }
              if (seen.size() != m.size() || es.size() != n / 2) {
                fail("iteration");
              }
              const auto adj = d.getAdjMat();
              for (const auto& [x, s] : m) {
                for (const auto& [y, _] : m) {
                  if (x >= adj.size() || y >= adj[x].size()) {
                    fail("matrix-size");
                  } else if (adj[x][y] != (x == y || s.count(y) != 0)) {
                    fail("matrix");
                  }
                }
              }
              std::vector<Vertex> all;
              for (const auto& [x, _] : m) {
                all.push_back(x);
              }
              for (unsigned of = 0; of < 1U << all.size(); ++of) {
                for (std::size_t ex = 0; ex <= all.size(); ++ex) {
                  std::vector<Vertex> set;
                  std::set<Vertex> want;
                  for (std::size_t k = 0; k < all.size(); ++k) {
                    if ((of >> k & 1U) != 0) {
                      set.push_back(all[k]);
                      want.insert(m[all[k]].begin(), m[all[k]].end());
                    }
                  }
                  std::vector<Vertex> excluded;
                  if (ex < all.size()) {
                    excluded.push_back(all[ex]);
                    want.erase(all[ex]);
                  }
                  const auto got = d.getConnectedSet(set, excluded);
                  if (std::set<Vertex>(got.begin(), got.end()) != want ||
                      got.size() != want.size()) {
                    fail("connected-set");
                    of = 1U << all.size();
                    break;
                  }
                }
              }
              c.checkf(bad.empty(), "query", [&] {
                return "edges " + std::to_string(i & 1023U) + " removed " +
                       std::to_string(i >> 10U) + " " + when + ":" + bad;
              });
            };
            judge("before");
            c.state(i);
            for (std::size_t k = 0; k < 3; ++k) {
              if ((i >> (10 + k) & 1U) != 0) {
                d.removeVertex(v[2 + k]);
                for (const auto y : m[v[2 + k]]) {
                  m[y].erase(v[2 + k]);
                }
                m.erase(v[2 + k]);
              }
            }
            judge("after removal");
            const auto w = d.addVertex(0, 0, ph(1, 2));
            m[w];
            d.addEdge(w, v[0]);
            m[w].insert(v[0]);
            m[v[0]].insert(w);
            judge("after addition");
          });
  {
    const std::vector<double> tol{1e-9, 1e-6, 1e-3, 0.1};
    r.space("rounding", 9 * 4 * 8,
            "phases close to multiples of pi/2 and tolerances, alone and symbolic",
            [=](std::uint64_t i, mc::Ctx& c) {
              const auto k = static_cast<int>(i % 9) - 4;
              const auto t = tol[i / 9 % 4];
              const std::vector<double> off{0, 0.4, -0.4, 0.9, -0.9, 1.2, -1.2, 3};
              const auto o = off[i / 36];
              ZXDiagram d(1);
              const PiRational near(((k * 0.5) + (o * t)) * zx::PI);
              const auto v = d.addVertex(0, 0, PiExpression(near), zx::VertexType::Z);
              const sym::Variable x("x");
              const PiExpression symbolic(std::vector<sym::Term<double>>{sym::Term<double>(x)}, near);
              const auto s = d.addVertex(0, 0, symbolic, zx::VertexType::Z);
              d.approximateCliffords(t);
              c.trans();
              c.state(i);
              const bool moved = std::abs(o) < 1;
              const auto got = d.phase(v).getConst();
              c.checkf(moved ? got == PiRational(k, 2) : got == near,
                       "rounding", [&] {
                         std::stringstream ss;
                         ss << near << " with tolerance " << t << " became " << got;
                         return ss.str();
                       });
              c.checkf(d.phase(s) == symbolic, "rounding-symbolic", [] { return std::string(); });
            });
  }
  return r.finish();
}
