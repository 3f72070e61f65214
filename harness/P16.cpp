// P16: decision diagrams survive writing, reading back, transfer and export.
#include "ddh.hpp"
#include "dd/Export.hpp"

#include <array>
#include <filesystem>
#include <map>
#include <set>
#include <sstream>

using namespace qc;
using ddh::C;
using ddh::Mat;
using ddh::Vec;
namespace {
constexpr double TOL = 1e-11;
const C I1{0, 1};

dd::CMat rows(const Mat& m) {
  dd::CMat r(m.size(), dd::CVec(m.size()));
  for (std::size_t i = 0; i < m.size(); ++i) {
    for (std::size_t j = 0; j < m.size(); ++j) {
      r[i][j] = m[j][i];
    }
  }
  return r;
}
Mat dense(const dd::vEdge& e, std::size_t n) {
  return {e.isZeroTerminal() ? Vec(1ULL << n) : ddh::toVec(e)};
}
Mat dense(const dd::mEdge& e, std::size_t n) { return ddh::toMat(e, n); }
double distM(const Mat& a, const Mat& b) {
  if (a.size() != b.size() || a[0].size() != b[0].size()) {
    return 1e9;
  }
  double d = 0;
  for (std::size_t i = 0; i < a.size(); ++i) {
    d = std::max(d, ref::dist(a[i], b[i]));
  }
  return d;
}
template <class Node>
std::string shape(const Node* p, bool all, std::map<const Node*, std::string>& memo) {
  if (p == nullptr) {
    return "t";
  }
  auto& s = memo[p];
  if (s.empty()) {
    std::string r = "(";
    for (std::size_t i = 0; i < p->e.size(); ++i) {
      if (!p->e[i].w.exactlyZero()) {
        r += std::to_string(i) + shape(p->e[i].p, all, memo);
      }
    }
    s = r + ")";
  }
  return s;
}
struct Dot {
  std::set<std::string> nodes;
  std::map<std::string, std::map<int, std::string>> edges;
  std::string root;
  std::string error;
  std::size_t count = 0;
  explicit Dot(const std::string& txt) {
    std::istringstream is(txt);
    std::string l;
    bool closed = false;
    while (std::getline(is, l)) {
      if (l == "}") {
        closed = true;
        continue;
      }
      const auto br = l.find('[');
      const auto ar = l.find("->");
      if (ar != std::string::npos && ar < br) {
        const auto from = l.substr(0, ar);
        const auto to = l.substr(ar + 2, br - ar - 2);
        if (from == "root") {
          if (!root.empty()) {
            error = "two roots";
          }
          root = to;
          continue;
        }
        const auto c = from.find(':');
        const auto id = from.substr(0, c);
        const int k = std::stoi(from.substr(c + 1));
        ++count;
        if (!edges[id].emplace(k, to).second) {
          error = "edge " + from + " twice";
        }
      } else if (!l.empty() && std::isdigit(static_cast<unsigned char>(l[0])) != 0) {
        if (!nodes.insert(l.substr(0, br)).second) {
          error = "node " + l.substr(0, br) + " twice";
        }
      }
    }
    if (!closed) {
      error = "not closed";
    }
  }
  std::string shape(const std::string& id, int depth = 0) {
    if (id == "t" || depth > 10) {
      return "t";
    }
    if (nodes.count(id) == 0) {
      error = "node " + id + " missing";
    }
    std::string r = "(";
    for (const auto& [k, to] : edges[id]) {
      r += std::to_string(k) + shape(to, depth + 1);
    }
    return r + ")";
  }
};
template <class Node> std::string es(const dd::Edge<Node>& e, std::size_t n) {
  return ddh::matStr(dense(e, n));
}

// what: the object in package p, tried with another package o
template <class Node>
void object(mc::Ctx& c, dd::Package& p, dd::Package& o, dd::Edge<Node> e,
            std::size_t n, bool dot, bool files) {
  const auto d = dense(e, n);
  c.state(mc::hashStr(ddh::matStr(d)));
  // whether renormalising on reading may move a weight across the tolerance
  double lo = 1e300;
  double hi = 0;
  for (const auto& row : d) {
    for (const auto& x : row) {
      if (std::abs(x) > 0) {
        lo = std::min(lo, std::abs(x));
        hi = std::max(hi, std::abs(x));
      }
    }
  }
  const bool same = lo > (std::is_same_v<Node, dd::vNode> ? 0.999 : 1e-3) * hi;
  const std::string kind = std::is_same_v<Node, dd::vNode> ? "vector-" : "matrix-";
  const auto say = [&](const char* k, const dd::Edge<Node>& g) {
    return std::string(k) + " of " + ddh::matStr(d) + " gave " + es(g, n);
  };
  for (const bool bin : {false, true}) {
    c.trans();
    std::stringstream ss;
    dd::serialize(e, ss, bin);
    const auto text = ss.str();
    const auto key = kind + (bin ? "binary" : "text");
    const auto back = p.template deserialize<Node>(ss, bin);
    c.checkf(distM(dense(back, n), d) < TOL, (key + "-same-package").c_str(),
             [&] { return say("reading back", back); });
    c.checkf(!same || back == e,
             (key + "-identical").c_str(), [&] {
               return say("reading back (another edge)", back) +
                      (bin ? "" : "\n" + text);
             });
    std::stringstream s2(text);
    const auto oth = o.template deserialize<Node>(s2, bin);
    c.checkf(distM(dense(oth, n), d) < TOL, (key + "-other-package").c_str(),
             [&] { return say("reading into another package", oth); });
    // writing what was read gives an equivalent file
    std::stringstream s3;
    dd::serialize(oth, s3, bin);
    const auto third = p.template deserialize<Node>(s3, bin);
    c.checkf(!same || third.p == e.p, (key + "-twice").c_str(),
             [&] { return say("writing twice", third); });
    if (files) {
      dd::serialize(e, "f.dd", bin);
      const auto f = p.template deserialize<Node>("f.dd", bin);
      c.checkf(!same || f == e, (key + "-file").c_str(),
               [&] { return say("reading a file", f); });
    }
  }
  c.trans();
  auto t = o.transfer(e);
  c.checkf(distM(dense(t, n), d) < TOL, (kind + "transfer").c_str(),
           [&] { return say("transfer", t); });
  const auto t2 = p.transfer(t);
  c.checkf(!same || t2 == e, (kind + "transfer-back").c_str(),
           [&] { return say("transfer back", t2); });
  const auto self = p.transfer(e);
  c.checkf(!same || self == e, (kind + "transfer-self").c_str(),
           [&] { return say("transfer into the same package", self); });
  if (!dot) {
    return;
  }
  std::map<const Node*, std::string> memo;
  const auto want = shape<Node>(e.p, true, memo);
  std::size_t edges = 0;
  std::set<const Node*> nodes;
  const std::function<void(const Node*)> walk = [&](const Node* x) {
    if (x == nullptr || !nodes.insert(x).second) {
      return;
    }
    for (const auto& k : x->e) {
      if (!k.w.exactlyZero()) {
        ++edges;
        walk(k.p);
      }
    }
  };
  walk(e.p);
  for (int mode = 0; mode < 20; ++mode) {
    std::ostringstream os;
    const bool memory = mode >= 16;
    dd::toDot(e, os, (mode & 1) != 0, (mode & 2) != 0, (mode & 4) != 0, memory,
              (mode & 8) != 0);
    Dot g(os.str());
    const auto got = g.shape(g.root);
    c.checkf(g.error.empty() && got == want && g.count == edges &&
                 g.nodes.size() == nodes.size(),
             (kind + "export").c_str(), [&] {
               return "graph of " + ddh::matStr(d) + " mode " + std::to_string(mode) +
                      " is " + got + " (" + std::to_string(g.nodes.size()) +
                      " nodes, " + std::to_string(g.count) + " edges) instead of " +
                      want + " " + g.error;
             });
  }
  std::ostringstream ws;
  dd::exportEdgeWeights(e, ws);
  const auto txt = ws.str();
  const auto lines = static_cast<std::size_t>(std::count(txt.begin(), txt.end(), '\n'));
  c.checkf(lines == edges + 1, (kind + "edge-weights").c_str(), [&] {
    return "edge weights of " + ddh::matStr(d) + ": " + std::to_string(lines) +
           " lines for " + std::to_string(edges) + " edges";
  });
}
void scratch() {
  char t[] = "/tmp/mcp16XXXXXX";
  if (mkdtemp(t) == nullptr || chdir(t) != 0) {
    std::abort();
  }
}
void leave() {
  const auto d = std::filesystem::current_path();
  std::filesystem::current_path("/");
  if (d.string().rfind("/tmp/mcp16", 0) == 0) {
    std::filesystem::remove_all(d);
  }
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P16");
  r.assume("The number of vertices and edges of an exported graph is read from "
           "the dot text: one line per node, one per edge.");
  const std::vector<C> amps{0,       1,    -1,         I1,
                            1e-5,    C(-3e-9, 2e-7), C(0.1, -1. / 3), C(0, -0.5),
                            3};
  auto vecs = [&](std::size_t n, std::size_t na, const std::string& name,
                  bool files) {
    std::uint64_t tot = 1;
    for (std::size_t i = 0; i < (1ULL << n); ++i) {
      tot *= na;
    }
    constexpr std::uint64_t B = 64;
    r.space(name, (tot + B - 1) / B,
            "all vectors over " + std::to_string(na) + " amplitudes on " +
                std::to_string(n) + " qubits: text and binary, same and other "
                                    "package, transfer, all graph styles",
            [&, n, na, tot, files](std::uint64_t i, mc::Ctx& c) {
              if (files) {
                scratch();
              }
              dd::Package p(n, ddh::smallConfig(64));
              dd::Package o(n, ddh::smallConfig(64));
              for (auto k = i * B; k < std::min(tot, (i + 1) * B); ++k) {
                Vec v(1ULL << n);
                auto y = k;
                for (auto& e : v) {
                  e = amps[y % na];
                  y /= na;
                }
                const auto e = p.makeStateFromVector({v.begin(), v.end()});
                object(c, p, o, e, n, n < 3, files);
              }
              if (files) {
                leave();
              }
            });
  };
  vecs(1, 9, "vectors-1q", true);
  vecs(2, r.thorough ? 9 : 7, "vectors-2q", false);
  vecs(3, r.thorough ? 4 : 2, "vectors-3q", false);
  // matrices made of blocks
  const double h = std::sqrt(0.5);
  const std::vector<std::vector<C>> bl{{0, 0, 0, 0},    {1, 0, 0, 1},
                                       {0, 1, 1, 0},    {h, h, h, -h},
                                       {1, 0, 0, 0},    {0, -I1, I1, 0},
                                       {0.5, 0, 0, 0.5}, {0.25, -1e-6, I1, 0.3}};
  const auto block = [&](std::uint64_t x, std::size_t nb) {
    Mat m(4, Vec(4));
    for (std::size_t k = 0; k < 4; ++k) {
      const auto& b = bl[x % nb];
      x /= nb;
      for (std::size_t e = 0; e < 4; ++e) {
        m[(k % 2) * 2 + e % 2][(k / 2) * 2 + e / 2] = b[e];
      }
    }
    return m;
  };
  r.space("matrices-1q", 1, "one-qubit matrices and multiples", [&](std::uint64_t, mc::Ctx& c) {
    scratch();
    dd::Package p(1, ddh::smallConfig(64));
    dd::Package o(1, ddh::smallConfig(64));
    for (const auto& b : bl) {
      for (const C f : {C(1), C(-1), C(0.6, 0.8), C(0, 1e-4)}) {
        const auto e = p.makeDDFromMatrix({{f * b[0], f * b[1]}, {f * b[2], f * b[3]}});
        object(c, p, o, e, 1, true, true);
      }
    }
    leave();
  });
  r.space("matrices-2q", 64, "all 8^4 two-qubit matrices made of 8 blocks",
          [&](std::uint64_t i, mc::Ctx& c) {
            dd::Package p(2, ddh::smallConfig(64));
            dd::Package o(2, ddh::smallConfig(64));
            for (auto x = i * 64; x < (i + 1) * 64; ++x) {
              object(c, p, o, p.makeDDFromMatrix(rows(block(x, 8))), 2, true, false);
            }
          });
  {
    const std::size_t nb = 4;
    const std::uint64_t tot = 256;
    const std::uint64_t step = r.thorough ? 1 : 8;
    r.space("matrices-3q", tot / step,
            "three-qubit block matrices [A B; B A'] over 256 two-qubit matrices",
            [&](std::uint64_t i, mc::Ctx& c) {
              dd::Package p(3, ddh::smallConfig(64));
              dd::Package o(3, ddh::smallConfig(64));
              const auto a = block(i * step, nb);
              // four quadrants with diagrams that skip levels
              for (std::uint64_t y = 0; y < 64; ++y) {
                Mat m(8, Vec(8));
                std::vector<Mat> quad{a, block((y & 3) * 85, nb), block((y >> 2 & 3) * 85, nb),
                                      block((y >> 4) * 85, nb)};
                // quadrants 1-3: u on the lower qubit, nothing on the middle one
                for (std::size_t q = 1; q < 4; ++q) {
                  for (std::size_t j = 0; j < 4; ++j) {
                    for (std::size_t k = 0; k < 4; ++k) {
                      if ((j & 2) != (k & 2)) {
                        quad[q][j][k] = 0;
                      }
                    }
                  }
                }
                for (std::size_t j = 0; j < 8; ++j) {
                  for (std::size_t k = 0; k < 8; ++k) {
                    m[j][k] = quad[(k / 4) * 2 + j / 4][j % 4][k % 4];
                  }
                }
                object(c, p, o, p.makeDDFromMatrix(rows(m)), 3, y % 16 == 0, false);
              }
              for (std::uint64_t y = 0; y < tot; ++y) {
                const auto b = block(y, nb);
                Mat m(8, Vec(8));
                for (std::size_t j = 0; j < 8; ++j) {
                  for (std::size_t k = 0; k < 8; ++k) {
                    const auto& s = (j < 4) == (k < 4) ? a : b;
                    m[j][k] = s[j % 4][k % 4] * (j >= 4 && k >= 4 ? I1 : C(1));
                  }
                }
                object(c, p, o, p.makeDDFromMatrix(rows(m)), 3, y % 16 == 0, false);
              }
            });
  }
  r.space("large-vectors", 6 * 4, "generic and sparse vectors of 4 to 9 qubits",
          [&](std::uint64_t i, mc::Ctx& c) {
            mc::Digits d(i);
            const auto n = d.take(6) + 4;
            const auto kind = d.take(4);
            dd::Package p(n, ddh::smallConfig(64));
            dd::Package o(n, ddh::smallConfig(64));
            auto v = ref::genericState(n);
            for (std::size_t k = 0; k < v.size(); ++k) {
              if (kind == 1) {
                v[k] *= std::cos(static_cast<double>(k * k));
              } else if (kind == 2 && k % 5 != 0) {
                v[k] = 0;
              } else if (kind == 3) {
                v[k] = k == 0 || k + 1 == v.size() ? C(1. / std::sqrt(2.)) : C(0);
              }
            }
            object(c, p, o, p.makeStateFromVector({v.begin(), v.end()}), n, false, false);
          });
  r.space("wide", 70 * 3,
          "basis states, GHZ-like states and controlled gates on 1 to 70 qubits "
          "through both formats, into the same and into another package",
          [&](std::uint64_t i, mc::Ctx& c) {
            mc::Digits d(i);
            const auto n = d.take(70) + 1;
            const auto kind = d.take(3);
            dd::Package p(n, ddh::smallConfig(64));
            dd::Package o(n, ddh::smallConfig(64));
            std::vector<bool> bits(n);
            for (std::size_t k = 0; k < n; ++k) {
              bits[k] = (k * k + n) % 3 == 0;
            }
            auto v = p.makeBasisState(n, bits);
            if (kind == 1) {
              for (std::size_t k = 0; k < n; ++k) {
                bits[k] = !bits[k];
              }
              auto w = p.makeBasisState(n, bits);
              v.w = p.cn.lookup(0.6, 0.);
              w.w = p.cn.lookup(0., -0.8);
              v = p.add(v, w);
            }
            qc::Controls ctl;
            for (qc::Qubit k = 1; k < n; k += 3) {
              ctl.emplace(k, k % 2 == 0 ? qc::Control::Type::Pos : qc::Control::Type::Neg);
            }
            const auto m = dd::getDD(qc::StandardOperation(ctl, 0, qc::U, {0.3, 0.4, 0.5}), p);
            for (const bool binary : {false, true}) {
              for (dd::Package* q : {&p, &o}) {
                c.trans();
                std::stringstream ss;
                bool same = false;
                if (kind < 2) {
                  dd::serialize(v, ss, binary);
                  const auto back = q->deserialize<dd::vNode>(ss, binary);
                  auto b = back;
                  same = q == &p ? b == v : p.transfer(b) == v;
                } else {
                  dd::serialize(m, ss, binary);
                  const auto back = q->deserialize<dd::mNode>(ss, binary);
                  auto b = back;
                  same = q == &p ? b == m : p.transfer(b) == m;
                }
                c.checkf(same, "wide:serialize", [&] {
                  return (binary ? "binary, " : "text, ") + std::to_string(n) +
                         " qubits, kind " + std::to_string(kind);
                });
              }
            }
            c.state(i);
          });
  return r.finish();
}
