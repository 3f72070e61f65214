// P22: graph and set containers against mathematical graphs / tables.
#include "datastructures/DirectedAcyclicGraph.hpp"
#include "datastructures/DirectedGraph.hpp"
#include "datastructures/DisjointSet.hpp"
#include "datastructures/SymmetricMatrix.hpp"
#include "datastructures/UndirectedGraph.hpp"
#include "mc.hpp"

#include <algorithm>

namespace {
// vertex names, deliberately not 0..n-1 and not sorted
const std::vector<int> NAMES{30, 7, 100, 12, 55, 1};
struct Model {
  std::vector<int> vs; // insertion order (index into NAMES)
  std::map<std::pair<int, int>, int> es;
  bool has(int v) const {
    return std::find(vs.begin(), vs.end(), v) != vs.end();
  }
  void add(int v) {
    if (!has(v)) {
      vs.push_back(v);
    }
  }
  bool edge(int a, int b) const { return es.count({a, b}) != 0; }
  bool reach(int a, int b) const {
    std::set<int> seen{a};
    std::vector<int> st{a};
    while (!st.empty()) {
      const int x = st.back();
      st.pop_back();
      for (const auto& [e, k] : es) {
        if (e.first == x && seen.insert(e.second).second) {
          st.push_back(e.second);
        }
      }
    }
    return seen.count(b) != 0;
  }
  std::uint64_t hash() const {
    std::uint64_t h = 3;
    for (const int v : vs) {
      h = mc::mix(h + static_cast<std::uint64_t>(v) + 1);
    }
    for (const auto& [e, k] : es) {
      h = mc::mix(h + static_cast<std::uint64_t>(e.first * 64 + e.second * 7 +
                                                 k * 1000 + 99));
    }
    return h;
  }
};
template <class F> bool throws(F&& f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
// parse DOT: node index -> label, edge list
void parseDot(const std::string& s, const std::string& arrow,
              std::map<int, std::string>& labels,
              std::multiset<std::pair<int, int>>& edges, bool& ok) {
  std::stringstream ss(s);
  std::string l;
  ok = true;
  while (std::getline(ss, l)) {
    const auto p = l.find(" [label=\"");
    const auto a = l.find(" " + arrow + " ");
    if (p != std::string::npos) {
      const auto e = l.find('"', p + 9);
      const int idx = std::atoi(l.c_str());
      ok = ok && labels.emplace(idx, l.substr(p + 9, e - p - 9)).second;
    } else if (a != std::string::npos) {
      edges.emplace(std::atoi(l.c_str()),
                    std::atoi(l.c_str() + a + arrow.size() + 1));
    }
  }
}
std::string nm(int v) { return std::to_string(NAMES[v]); }

template <class G>
void checkDirected(mc::Ctx& c, const G& g, const Model& m, int n,
                   const std::string& d) {
  c.check(g.getNVertices() == m.vs.size(), "nvertices", d);
  c.check(g.getNEdges() == m.es.size(), "nedges", d);
  std::unordered_set<int> want;
  for (const int v : m.vs) {
    want.insert(NAMES[v]);
  }
  c.check(g.getVertices() == want, "vertices", d);
  for (int u = 0; u < n; ++u) {
    if (!m.has(u)) {
      c.check(throws([&] { (void)g.getInDegree(NAMES[u]); }), "unknown-in", d);
      c.check(throws([&] { (void)g.getOutDegree(NAMES[u]); }), "unknown-out",
              d);
      c.check(throws([&] { (void)g.isEdge(NAMES[u], NAMES[u]); }),
              "unknown-edge", d);
      continue;
    }
    std::size_t in = 0;
    std::size_t out = 0;
    for (const auto& [e, k] : m.es) {
      in += e.second == u ? 1 : 0;
      out += e.first == u ? 1 : 0;
    }
    c.check(g.getInDegree(NAMES[u]) == in, "indegree", d + " at " + nm(u));
    c.check(g.getOutDegree(NAMES[u]) == out, "outdegree", d + " at " + nm(u));
    for (const int v : m.vs) {
      c.check(g.isEdge(NAMES[u], NAMES[v]) == m.edge(u, v), "isEdge",
              d + " " + nm(u) + "->" + nm(v));
    }
  }
  std::map<int, std::string> lb;
  std::multiset<std::pair<int, int>> ed;
  bool ok = true;
  const auto dot = g.toString();
  parseDot(dot, "->", lb, ed, ok);
  std::multiset<std::pair<std::string, std::string>> got;
  std::multiset<std::pair<std::string, std::string>> exp;
  std::set<std::string> gl;
  std::set<std::string> el;
  for (const auto& [a, b] : ed) {
    got.emplace(lb[a], lb[b]);
  }
  for (const auto& [e, k] : m.es) {
    exp.emplace(nm(e.first), nm(e.second));
  }
  for (const auto& [i, s] : lb) {
    gl.insert(s);
  }
  for (const int v : m.vs) {
    el.insert(nm(v));
  }
  c.check(ok && got == exp && gl == el && lb.size() == m.vs.size(), "dot",
          d + " dot: " + dot);
  std::stringstream ss;
  ss << g;
  c.check(ss.str() == dot, "stream", d);
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "P22");
  const bool T = R.thorough;

  auto directed = [&](const std::string& name, int n, std::size_t L,
                      bool dag) {
    const std::uint64_t A = static_cast<std::uint64_t>(n) + n * n;
    R.space(
        name, mc::seqCount(A, L),
        "all histories of <= " + std::to_string(L) +
            " addVertex/addEdge calls on " + std::to_string(n) + " vertices",
        [n, A, dag](std::uint64_t i, mc::Ctx& c) {
          const auto seq = mc::seqAt(i, A);
          Model m;
          qc::DirectedGraph<int> g;
          qc::DirectedAcyclicGraph<int> a;
          std::string d;
          for (std::size_t k = 0; k < seq.size(); ++k) {
            const int s = static_cast<int>(seq[k]);
            c.trans();
            if (s < n) {
              d += "V" + nm(s) + " ";
              const bool t = throws([&] {
                dag ? a.addVertex(NAMES[s]) : g.addVertex(NAMES[s]);
              });
              c.check(t == m.has(s), "addVertex", d);
              m.add(s);
            } else {
              const int u = (s - n) / n;
              const int v = (s - n) % n;
              d += nm(u) + "->" + nm(v) + " ";
              const bool cyc = dag && (u == v || m.reach(v, u));
              if (dag && u == v && !m.has(u)) {
                c.skip(); // self-loop on an unknown vertex: left open
                return;
              }
              const bool t = throws([&] {
                dag ? a.addEdge(NAMES[u], NAMES[v])
                    : g.addEdge(NAMES[u], NAMES[v]);
              });
              c.check(t == cyc, "addEdge", d);
              if (!cyc) {
                m.add(u);
                m.add(v);
                m.es[{u, v}] = 1;
              }
            }
            if (!c.fails.empty()) {
              return;
            }
          }
          c.state(m.hash());
          c.sample(d);
          if (!dag) {
            checkDirected(c, g, m, n, d);
            // copies are independent
            auto cp = g;
            cp.addEdge(NAMES[5], NAMES[5]);
            checkDirected(c, g, m, n, d + " (after editing a copy)");
            return;
          }
          checkDirected(c, a, m, n, d);
          for (int u = 0; u < n; ++u) {
            for (int v = 0; v < n; ++v) {
              if (!m.has(u) || !m.has(v)) {
                c.check(throws([&] { (void)a.isReachable(NAMES[u], NAMES[v]); }),
                        "unknown-reach", d);
              } else {
                c.check(a.isReachable(NAMES[u], NAMES[v]) == m.reach(u, v),
                        "isReachable", d + " " + nm(u) + "~>" + nm(v));
              }
            }
          }
          const auto o = a.orderTopologically();
          std::map<int, std::size_t> pos;
          for (std::size_t k = 0; k < o.size(); ++k) {
            pos[o[k]] = k;
          }
          bool ok = o.size() == m.vs.size() && pos.size() == o.size();
          for (const int v : m.vs) {
            ok = ok && pos.count(NAMES[v]) != 0;
          }
          for (const auto& [e, k] : m.es) {
            ok = ok && pos[NAMES[e.first]] < pos[NAMES[e.second]];
          }
          c.check(ok, "topological", d);
        });
  };
  directed("directed", 3, T ? 6 : 5, false);
  directed("directed4", 4, T ? 5 : 4, false);
  directed("dag3", 3, T ? 6 : 5, true);
  directed("dag4", 4, T ? 6 : 4, true);
  if (T) {
    directed("dag5", 5, 5, true);
  }
  {
    // DAGs given by every ordered sequence of distinct forward edges:
    // vertices pre-inserted, every insertion order of <= k edges
    const int n = T ? 5 : 4;
    std::vector<std::pair<int, int>> es;
    for (int u = 0; u < n; ++u) {
      for (int v = 0; v < n; ++v) {
        if (u != v) {
          es.emplace_back(u, v);
        }
      }
    }
    const std::size_t L = T ? 5 : 5;
    R.space("dag-edges", mc::seqCount(es.size(), L, L),
            "all sequences of " + std::to_string(L) + " edge insertions on " +
                std::to_string(n) + " vertices",
            [&](std::uint64_t i, mc::Ctx& c) {
              const auto seq = mc::seqAt(i, es.size(), L);
              qc::DirectedAcyclicGraph<int> a;
              Model m;
              for (int v = 0; v < n; ++v) {
                a.addVertex(NAMES[v]);
                m.add(v);
              }
              std::string d;
              for (const auto s : seq) {
                const auto [u, v] = es[s];
                d += nm(u) + "->" + nm(v) + " ";
                const bool cyc = m.reach(v, u);
                const int uu = u;
                const int vv = v;
                const bool t =
                    throws([&] { a.addEdge(NAMES[uu], NAMES[vv]); });
                c.trans();
                if (!c.check(t == cyc, "addEdge", d)) {
                  return;
                }
                if (!cyc) {
                  m.es[{u, v}] = 1;
                }
              }
              c.state(m.hash());
              for (int u = 0; u < n; ++u) {
                for (int v = 0; v < n; ++v) {
                  c.check(a.isReachable(NAMES[u], NAMES[v]) == m.reach(u, v),
                          "isReachable", d + " " + nm(u) + "~>" + nm(v));
                }
              }
              const auto o = a.orderTopologically();
              std::map<int, std::size_t> pos;
              for (std::size_t k = 0; k < o.size(); ++k) {
                pos[o[k]] = k;
              }
              bool ok = pos.size() == static_cast<std::size_t>(n);
              for (const auto& [e, k] : m.es) {
                ok = ok && pos[NAMES[e.first]] < pos[NAMES[e.second]];
              }
              c.check(ok, "topological", d);
            });
  }
  auto undirected = [&](const std::string& name, int n, std::size_t L) {
    const std::uint64_t A = static_cast<std::uint64_t>(n) + n * n;
    R.space(
        name, mc::seqCount(A, L),
        "all histories of <= " + std::to_string(L) +
            " addVertex/addEdge calls on " + std::to_string(n) +
            " vertices (self-loops included)",
        [n, A](std::uint64_t i, mc::Ctx& c) {
          const auto seq = mc::seqAt(i, A);
          Model m; // es keyed by (min,max), value = edge data
          qc::UndirectedGraph<int, int> g;
          std::string d;
          int data = 500;
          for (const auto x : seq) {
            const int s = static_cast<int>(x);
            c.trans();
            ++data;
            if (s < n) {
              d += "V" + nm(s) + " ";
              const bool t = throws([&] { g.addVertex(NAMES[s]); });
              c.check(t == m.has(s), "u-addVertex", d);
              m.add(s);
            } else {
              const int u = (s - n) / n;
              const int v = (s - n) % n;
              d += nm(u) + "--" + nm(v) + " ";
              const auto e = std::make_pair(std::min(u, v), std::max(u, v));
              const bool dup = m.es.count(e) != 0;
              const bool t =
                  throws([&] { g.addEdge(NAMES[u], NAMES[v], data); });
              c.check(t == dup, "u-addEdge", d);
              if (!dup) {
                m.add(u);
                m.add(v);
                m.es[e] = data;
              }
            }
            if (!c.fails.empty()) {
              return;
            }
          }
          c.state(m.hash());
          c.sample(d);
          c.check(g.getNVertices() == m.vs.size(), "u-nvertices", d);
          c.check(g.getNEdges() == m.es.size(), "u-nedges", d);
          std::unordered_set<int> want;
          for (const int v : m.vs) {
            want.insert(NAMES[v]);
          }
          c.check(g.getVertices() == want, "u-vertices", d);
          for (int u = 0; u < n; ++u) {
            if (!m.has(u)) {
              c.check(throws([&] { (void)g.getDegree(NAMES[u]); }) &&
                          throws([&] { (void)g.getNeighbours(NAMES[u]); }) &&
                          throws([&] { (void)g.getAdjacentEdges(NAMES[u]); }),
                      "u-unknown", d);
              continue;
            }
            std::unordered_set<int> nb;
            std::size_t deg = 0;
            for (const auto& [e, k] : m.es) {
              if (e.first == u || e.second == u) {
                nb.insert(NAMES[e.first == u ? e.second : e.first]);
                ++deg; // a self-loop counts once in this container
              }
            }
            c.check(g.getNeighbours(NAMES[u]) == nb, "u-neighbours",
                    d + " at " + nm(u));
            c.check(g.getDegree(NAMES[u]) == deg, "u-degree",
                    d + " at " + nm(u));
            const auto ae = g.getAdjacentEdges(NAMES[u]);
            bool ok = ae.size() == nb.size();
            for (const auto& [a, b] : ae) {
              ok = ok && a == NAMES[u] && nb.count(b) != 0;
            }
            c.check(ok, "u-adjacentEdges", d + " at " + nm(u));
            for (int v = 0; v < n; ++v) {
              if (!m.has(v)) {
                c.check(
                    throws([&] { (void)g.isAdjacent(NAMES[u], NAMES[v]); }) &&
                        throws([&] { (void)g.isAdjacent(NAMES[v], NAMES[u]); }),
                    "u-unknown", d);
                continue;
              }
              const auto it =
                  m.es.find({std::min(u, v), std::max(u, v)});
              const bool e = it != m.es.end();
              c.check(g.isAdjacent(NAMES[u], NAMES[v]) == e, "u-isAdjacent",
                      d + " " + nm(u) + "--" + nm(v));
              if (e) {
                c.check(g.getEdge(NAMES[u], NAMES[v]) == it->second,
                        "u-getEdge", d + " " + nm(u) + "--" + nm(v));
              } else {
                c.check(throws([&] { (void)g.getEdge(NAMES[u], NAMES[v]); }),
                        "u-getEdge-missing", d);
              }
            }
          }
          std::map<int, std::string> lb;
          std::multiset<std::pair<int, int>> ed;
          bool ok = true;
          const auto dot = g.toString();
          parseDot(dot, "--", lb, ed, ok);
          std::multiset<std::pair<std::string, std::string>> got;
          std::multiset<std::pair<std::string, std::string>> exp;
          auto norm = [](const std::string& a, const std::string& b) {
            return a < b ? std::make_pair(a, b) : std::make_pair(b, a);
          };
          for (const auto& [a, b] : ed) {
            got.insert(norm(lb[a], lb[b]));
          }
          for (const auto& [e, k] : m.es) {
            exp.insert(norm(nm(e.first), nm(e.second)));
          }
          std::set<std::string> gl;
          std::set<std::string> el;
          for (const auto& [k, s] : lb) {
            gl.insert(s);
          }
          for (const int v : m.vs) {
            el.insert(nm(v));
          }
          c.check(ok && got == exp && gl == el, "u-dot", d + " dot: " + dot);
        });
  };
  undirected("undirected3", 3, T ? 6 : 5);
  undirected("undirected4", 4, T ? 5 : 4);
  R.space("adjacent-edges", 4 * 4 * 4 * 4, "all pairs of edges on 4 vertices",
          [](std::uint64_t i, mc::Ctx& c) {
            mc::Digits g(i);
            const int a = static_cast<int>(g.take(4));
            const int b = static_cast<int>(g.take(4));
            const int x = static_cast<int>(g.take(4));
            const int y = static_cast<int>(g.take(4));
            const bool w = a == x || a == y || b == x || b == y;
            c.trans();
            c.check(qc::UndirectedGraph<int, int>::isAdjacentEdge(
                        {a, b}, {x, y}) == w,
                    "isAdjacentEdge", std::to_string(i));
          });
  {
    // disjoint sets: all sequences of unions and finds (path compression)
    for (const int n : {4, 5}) {
      const std::uint64_t A = static_cast<std::uint64_t>(n) * n + n;
      const std::size_t L = n == 4 ? (T ? 6 : 5) : (T ? 5 : 4);
      R.space(
          "disjoint-set" + std::to_string(n), mc::seqCount(A, L),
          "all sequences of <= " + std::to_string(L) + " unionSet/findSet calls",
          [n, A](std::uint64_t i, mc::Ctx& c) {
            const auto seq = mc::seqAt(i, A);
            std::vector<int> els(NAMES.begin(), NAMES.begin() + n);
            qc::DisjointSet<int> s(els.begin(), els.end());
            std::vector<int> cls(n);
            for (int k = 0; k < n; ++k) {
              cls[k] = k;
            }
            std::string d;
            for (const auto x : seq) {
              c.trans();
              if (x < static_cast<unsigned>(n)) {
                d += "find " + nm(static_cast<int>(x)) + " ";
                const auto r1 = s.findSet(NAMES[x]);
                const auto r2 = s.findSet(r1);
                c.check(r1 == r2, "ds-repr", d);
              } else {
                const int u = static_cast<int>(x - n) / n;
                const int v = static_cast<int>(x - n) % n;
                d += "union " + nm(u) + "," + nm(v) + " ";
                s.unionSet(NAMES[u], NAMES[v]);
                const int from = cls[u];
                const int to = cls[v];
                for (auto& k : cls) {
                  if (k == from) {
                    k = to;
                  }
                }
              }
            }
            c.sample(d);
            std::uint64_t h = 11;
            for (int u = 0; u < n; ++u) {
              h = mc::mix(h + static_cast<std::uint64_t>(cls[u]));
              for (int v = 0; v < n; ++v) {
                c.check((s.findSet(NAMES[u]) == s.findSet(NAMES[v])) ==
                            (cls[u] == cls[v]),
                        "ds-equiv", d + " " + nm(u) + "~" + nm(v));
              }
              const int r = s.findSet(NAMES[u]);
              const auto p = std::find(els.begin(), els.end(), r) - els.begin();
              c.check(p < n && cls[p] == cls[u], "ds-member", d);
            }
            c.state(h);
          });
    }
  }
  // deep trees: neighbouring blocks of a line are merged in any order; finds
  // only at the end, each on a structure of its own, or after every union
  for (const int n : {7, 8}) {
    std::uint64_t orders = 1;
    for (int k = 2; k < n; ++k) {
      orders *= static_cast<std::uint64_t>(k);
    }
    const std::uint64_t total = orders * (std::uint64_t{1} << (n - 1)) * 4;
    R.space(
        "disjoint-set-merge" + std::to_string(n), total,
        "all orders of merging neighbouring blocks of " + std::to_string(n) +
            " elements x argument orders x representatives",
        [n, orders](std::uint64_t i, mc::Ctx& c) {
          mc::Digits g(i);
          const auto rep = g.take(4);
          const auto dir = g.take(std::uint64_t{1} << (n - 1));
          auto ord = g.take(orders);
          std::vector<int> els(static_cast<std::size_t>(n));
          std::iota(els.begin(), els.end(), 100);
          qc::DisjointSet<int> s(els.begin(), els.end());
          std::vector<std::pair<int, int>> blocks;
          for (int k = 0; k < n; ++k) {
            blocks.emplace_back(k, k);
          }
          for (int k = n - 1; k > 0; --k) {
            const auto b = static_cast<std::size_t>(
                ord % static_cast<std::uint64_t>(k));
            ord /= static_cast<std::uint64_t>(k);
            int u = (rep & 1) == 0 ? blocks[b].first : blocks[b].second;
            int v = (rep & 2) == 0 ? blocks[b + 1].first
                                   : blocks[b + 1].second;
            if (((dir >> (k - 1)) & 1) != 0) {
              std::swap(u, v);
            }
            s.unionSet(100 + u, 100 + v);
            c.trans();
            blocks[b].second = blocks[b + 1].second;
            blocks.erase(blocks.begin() + static_cast<std::ptrdiff_t>(b) + 1);
            if (k == 2) {
              // two blocks remain
              for (const int e : {blocks[0].first, blocks[0].second}) {
                for (const int x : {blocks[1].first, blocks[1].second}) {
                  auto t = s;
                  c.checkf(t.findSet(100 + e) != t.findSet(100 + x), "ds-apart",
                           [&] { return "merge " + std::to_string(i); });
                }
              }
            }
          }
          auto r = s;
          const auto root = r.findSet(100);
          for (int e = 0; e < n; ++e) {
            auto t = s;
            const auto a = t.findSet(100 + e);
            c.checkf(a == root && t.findSet(a) == a, "ds-deep", [&] {
              return "after merge order " + std::to_string(i) + " of " +
                     std::to_string(n) + " elements, element " +
                     std::to_string(e) + " is found in another set";
            });
          }
        });
  }
  {
    const std::size_t L = T ? 4 : 3;
    for (const std::size_t n : {0U, 1U, 2U, 3U, 4U}) {
      const std::uint64_t A = std::max<std::uint64_t>(1, n * n);
      R.space("symmetric" + std::to_string(n), mc::seqCount(A, n == 0 ? 0 : L),
              "all sequences of <= " + std::to_string(L) + " writes",
              [n, A](std::uint64_t i, mc::Ctx& c) {
                const auto seq = mc::seqAt(i, A);
                qc::SymmetricMatrix<int> m(n, -5);
                qc::SymmetricMatrix<int> z(n);
                std::vector<std::vector<int>> w(n, std::vector<int>(n, -5));
                std::string d = "n=" + std::to_string(n);
                int val = 1;
                for (const auto x : seq) {
                  const std::size_t r = x / n;
                  const std::size_t k = x % n;
                  d += " (" + std::to_string(r) + "," + std::to_string(k) + ")";
                  m(r, k) = val;
                  w[r][k] = w[k][r] = val++;
                  c.trans();
                }
                c.check(m.size() == n && z.size() == n, "sm-size", d);
                const auto& cm = m;
                for (std::size_t r = 0; r < n; ++r) {
                  for (std::size_t k = 0; k < n; ++k) {
                    c.check(m(r, k) == w[r][k] && cm(r, k) == w[r][k],
                            "sm-entry", d);
                    c.check(z(r, k) == 0, "sm-default", d);
                  }
                }
                c.state(mc::hashStr(d));
              });
    }
  }
  R.assume("a self-loop counts once in the degree of its vertex; adding a "
           "self-loop on an unknown vertex of an acyclic graph is left open");
  return R.finish();
}
