// Reference semantics of ZX diagrams: the linear map of a diagram is computed
// from its vertices and edges alone, by tensor contraction with elimination of
// one variable at a time.
#pragma once
#include "circ.hpp"
#include "zx/FunctionalityConstruction.hpp"
#include "zx/Rules.hpp"
#include "zx/Simplify.hpp"
#include "zx/ZXDiagram.hpp"

#include <map>
#include <sstream>

namespace zxh {
using zx::EdgeType;
using zx::PiExpression;
using zx::PiRational;
using zx::Vertex;
using zx::VertexType;
using zx::ZXDiagram;
using C = std::complex<double>;
using Assign = std::map<std::string, double>; // values of symbols, in radians

inline double value(const PiExpression& e, const Assign& a) {
  double v = e.getConst().toDouble();
  for (const auto& t : e.getTerms()) {
    v += t.getCoeff() * a.at(t.getVar().getName());
  }
  return v;
}

struct Factor {
  std::vector<std::size_t> vars;
  std::vector<C> t; // bit i of the index is the value of vars[i]
};

// Number of inconsistencies of the bookkeeping of a diagram
inline std::string inconsistent(const ZXDiagram& d) {
  std::size_t nv = 0;
  std::map<std::pair<Vertex, Vertex>, std::array<int, 2>> half;
  std::size_t halves = 0;
  for (const auto& [v, data] : d.getVertices()) {
    ++nv;
    for (const auto& [to, type] : d.incidentEdges(v)) {
      if (d.isDeleted(to)) {
        return "edge to a deleted vertex";
      }
      ++halves;
      ++half[{v, to}][type == EdgeType::Simple ? 0 : 1];
    }
  }
  for (const auto& [k, n] : half) {
    const auto it = half.find({k.second, k.first});
    if (it == half.end() || it->second != n) {
      return "edge known to one end only";
    }
  }
  if (nv != d.getNVertices()) {
    return "number of vertices is " + std::to_string(d.getNVertices()) +
           " instead of " + std::to_string(nv);
  }
  if (halves != 2 * d.getNEdges()) {
    return "number of edges is " + std::to_string(d.getNEdges()) +
           " instead of " + std::to_string(halves / 2);
  }
  for (const auto* b : {&d.getInputs(), &d.getOutputs()}) {
    for (const auto v : *b) {
      if (d.isDeleted(v) || d.type(v) != VertexType::Boundary) {
        return "boundary lost";
      }
      if (d.degree(v) != 1) {
        return "boundary of degree " + std::to_string(d.degree(v));
      }
    }
  }
  return "";
}

// map[in][out] like ref::unitary, inputs and outputs in the order of their lists
inline std::vector<ref::Vec> toMap(const ZXDiagram& d, const Assign& as = {}) {
  // an X spider is a Z spider with a Hadamard on each of its legs
  std::map<Vertex, std::size_t> id;
  std::vector<Factor> fs;
  std::size_t n = 0;
  for (const auto& [v, data] : d.getVertices()) {
    id[v] = n;
    if (data.type != VertexType::Boundary) {
      const auto a = value(data.phase, as);
      fs.push_back({{n}, {1., C{std::cos(a), std::sin(a)}}});
    }
    ++n;
  }
  const auto x = [&](Vertex v) { return d.type(v) == VertexType::X; };
  for (const auto& [v, data] : d.getVertices()) {
    std::map<std::pair<Vertex, int>, int> self;
    for (const auto& [to, type] : d.incidentEdges(v)) {
      if (to < v) {
        continue;
      }
      const bool had = (type == EdgeType::Hadamard) != (x(v) != x(to));
      const C o = had ? -1. : 1.;
      const C z = had ? 1. : 0.;
      if (to == v) {
        // both halves of a loop are listed
        if (++self[{to, had ? 1 : 0}] % 2 == 0) {
          continue;
        }
        fs.push_back({{id[v]}, {1., o}});
      } else {
        fs.push_back({{id[v], id[to]}, {1., z, z, o}});
      }
    }
  }
  std::vector<bool> open(n, false);
  std::vector<std::size_t> ext;
  for (const auto* b : {&d.getInputs(), &d.getOutputs()}) {
    for (const auto v : *b) {
      open[id.at(v)] = true;
      ext.push_back(id.at(v));
    }
  }
  std::vector<bool> gone = open;
  for (;;) {
    // the variable with the fewest neighbours
    std::vector<std::set<std::size_t>> nb(n);
    for (const auto& f : fs) {
      for (const auto a : f.vars) {
        nb[a].insert(f.vars.begin(), f.vars.end());
      }
    }
    std::size_t best = n;
    for (std::size_t i = 0; i < n; ++i) {
      if (!gone[i] && (best == n || nb[i].size() < nb[best].size())) {
        best = i;
      }
    }
    if (best == n) {
      break;
    }
    gone[best] = true;
    Factor r;
    for (const auto a : nb[best]) {
      if (a != best) {
        r.vars.push_back(a);
      }
    }
    std::vector<Factor> rest;
    std::vector<Factor> use;
    for (auto& f : fs) {
      (std::find(f.vars.begin(), f.vars.end(), best) != f.vars.end() ? use
                                                                      : rest)
          .push_back(std::move(f));
    }
    r.t.assign(std::size_t{1} << r.vars.size(), 0.);
    std::vector<std::size_t> all = r.vars;
    all.push_back(best);
    std::vector<std::vector<std::size_t>> at;
    for (const auto& f : use) {
      std::vector<std::size_t> p;
      for (const auto a : f.vars) {
        p.push_back(static_cast<std::size_t>(
            std::find(all.begin(), all.end(), a) - all.begin()));
      }
      at.push_back(p);
    }
    for (std::size_t k = 0; k < (std::size_t{1} << all.size()); ++k) {
      C p = 1.;
      for (std::size_t j = 0; j < use.size(); ++j) {
        std::size_t i = 0;
        for (std::size_t b = 0; b < at[j].size(); ++b) {
          i |= ((k >> at[j][b]) & 1U) << b;
        }
        p *= use[j].t[i];
      }
      r.t[k & ((std::size_t{1} << r.vars.size()) - 1)] += p;
    }
    if (use.empty()) {
      r.t[0] = 2.;
    }
    rest.push_back(r);
    fs = std::move(rest);
  }
  const auto ni = d.getInputs().size();
  const auto no = d.getOutputs().size();
  std::vector<ref::Vec> m(std::size_t{1} << ni,
                          ref::Vec(std::size_t{1} << no, 0.));
  for (std::size_t i = 0; i < m.size(); ++i) {
    for (std::size_t o = 0; o < m[i].size(); ++o) {
      const auto k = i | (o << ni);
      C p = 1.;
      for (const auto& f : fs) {
        std::size_t j = 0;
        for (std::size_t b = 0; b < f.vars.size(); ++b) {
          const auto e = static_cast<std::size_t>(
              std::find(ext.begin(), ext.end(), f.vars[b]) - ext.begin());
          j |= ((k >> e) & 1U) << b;
        }
        p *= f.t[j];
      }
      m[i][o] = p;
    }
  }
  return m;
}
inline double normOf(const std::vector<ref::Vec>& m) {
  double s = 0;
  for (const auto& c : m) {
    s += ref::norm2(c);
  }
  return std::sqrt(s);
}
// distance up to a non-zero scalar; infinite if exactly one of them vanishes
inline double distScalar(std::vector<ref::Vec> a, std::vector<ref::Vec> b) {
  if (a.size() != b.size() || a[0].size() != b[0].size()) {
    return 1e9;
  }
  const auto na = normOf(a);
  const auto nb = normOf(b);
  if (na < 1e-9 || nb < 1e-9) {
    return na < 1e-9 && nb < 1e-9 ? 0. : 1e9;
  }
  C ip = 0;
  for (std::size_t i = 0; i < a.size(); ++i) {
    for (std::size_t j = 0; j < a[i].size(); ++j) {
      ip += std::conj(a[i][j]) * b[i][j];
    }
  }
  return std::sqrt(std::max(0., 1. - std::norm(ip) / (na * na * nb * nb)));
}
inline std::string str(const ZXDiagram& d) {
  std::stringstream ss;
  for (const auto& [v, data] : d.getVertices()) {
    ss << v
       << (data.type == VertexType::Boundary ? (d.isInput(v)    ? "in"
                                                : d.isOutput(v) ? "out"
                                                                : "B")
           : data.type == VertexType::Z      ? "Z"
                                             : "X");
    if (!data.phase.isZero()) {
      ss << "(" << data.phase << ")";
    }
    ss << ":";
    for (const auto& [to, t] : d.incidentEdges(v)) {
      if (to >= v) {
        ss << (t == EdgeType::Simple ? " -" : " ~") << to;
      }
    }
    ss << "; ";
  }
  return ss.str();
}
inline std::string str(const std::vector<ref::Vec>& m) {
  std::string s;
  for (const auto& c : m) {
    s += ref::vecStr(c) + "; ";
  }
  return s;
}
inline std::uint64_t hash(const ZXDiagram& d) { return mc::hashStr(str(d)); }
} // namespace zxh
