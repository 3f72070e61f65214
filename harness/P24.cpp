// P24: neutral-atom programs against a model of the movement rules.
#include "mc.hpp"
#include "na/NAComputation.hpp"
#include "na/entities/Atom.hpp"
#include "na/entities/Location.hpp"
#include "na/entities/Zone.hpp"
#include "na/operations/GlobalCZOp.hpp"
#include "na/operations/GlobalRYOp.hpp"
#include "na/operations/LoadOp.hpp"
#include "na/operations/LocalRZOp.hpp"
#include "na/operations/LocalUOp.hpp"
#include "na/operations/MoveOp.hpp"
#include "na/operations/StoreOp.hpp"

#include <array>
#include <set>
#include <unordered_set>

using namespace na;
namespace {
enum Kind : std::uint8_t { Load, Store, Move, LoadAt, StoreAt, Rz, U, Ry, Cz };
struct P {
  double x, y;
};
struct O {
  Kind k;
  std::vector<int> a;
  std::vector<P> t;
};
struct Model {
  std::vector<P> loc;
  std::vector<bool> loaded;
  bool ok = true;
  void step(const O& o) {
    std::set<int> seen;
    for (const auto i : o.a) {
      ok = ok && seen.insert(i).second;
    }
    if (o.k >= Rz) {
      return;
    }
    const bool load = o.k == Load || o.k == LoadAt;
    for (const auto i : o.a) {
      ok = ok && loaded[static_cast<std::size_t>(i)] != load;
    }
    const auto sgn = [](double d) { return d < 0 ? -1 : (d > 0 ? 1 : 0); };
    for (std::size_t i = 0; i < o.t.size(); ++i) {
      for (std::size_t j = i + 1; j < o.t.size(); ++j) {
        const auto& s = loc[static_cast<std::size_t>(o.a[i])];
        const auto& u = loc[static_cast<std::size_t>(o.a[j])];
        ok = ok && sgn(s.x - u.x) == sgn(o.t[i].x - o.t[j].x) &&
             sgn(s.y - u.y) == sgn(o.t[i].y - o.t[j].y) &&
             (o.t[i].x != o.t[j].x || o.t[i].y != o.t[j].y);
      }
    }
    for (std::size_t i = 0; i < o.t.size(); ++i) {
      loc[static_cast<std::size_t>(o.a[i])] = o.t[i];
    }
    for (const auto i : o.a) {
      loaded[static_cast<std::size_t>(i)] =
          load || (o.k == Move && loaded[static_cast<std::size_t>(i)]);
    }
  }
};
struct Prog {
  NAComputation q;
  std::vector<const Atom*> atoms;
  const Zone* z = nullptr;
  explicit Prog(const std::vector<P>& at) {
    z = &q.emplaceBackZone("zone");
    for (std::size_t i = 0; i < at.size(); ++i) {
      atoms.push_back(&q.emplaceBackAtom("a" + std::to_string(i)));
      q.emplaceInitialLocation(*atoms.back(), at[i].x, at[i].y);
    }
  }
  const Op& add(const O& o) {
    std::vector<const Atom*> a;
    for (const auto i : o.a) {
      a.push_back(atoms[static_cast<std::size_t>(i)]);
    }
    std::vector<Location> t;
    for (const auto& p : o.t) {
      t.push_back({p.x, p.y});
    }
    switch (o.k) {
    case Load:
      return q.emplaceBack<LoadOp>(a);
    case Store:
      return q.emplaceBack<StoreOp>(a);
    case Move:
      return q.emplaceBack<MoveOp>(a, t);
    case LoadAt:
      return q.emplaceBack<LoadOp>(a, t);
    case StoreAt:
      return q.emplaceBack<StoreOp>(a, t);
    case Rz:
      return q.emplaceBack<LocalRZOp>(a, 0.5);
    case U:
      return q.emplaceBack<LocalUOp>(a, 0.5, 0.25, 0.125);
    case Ry:
      return q.emplaceBack<GlobalRYOp>(*z, 0.5);
    default:
      return q.emplaceBack<GlobalCZOp>(*z);
    }
  }
};
std::string show(const Prog& p) { return p.q.toString(); }
// all lists of `len` atoms out of n, with repetitions
std::vector<std::vector<int>> lists(int n, std::size_t len) {
  std::vector<std::vector<int>> r{{}};
  for (std::size_t i = 0; i < len; ++i) {
    std::vector<std::vector<int>> s;
    for (const auto& l : r) {
      for (int a = 0; a < n; ++a) {
        s.push_back(l);
        s.back().push_back(a);
      }
    }
    r = s;
  }
  return r;
}
std::vector<O> alphabet(int n, const std::vector<P>& grid, std::size_t maxLen) {
  std::vector<O> r;
  for (std::size_t len = 1; len <= maxLen; ++len) {
    for (const auto& l : lists(n, len)) {
      for (const auto k : {Load, Store, Rz, U}) {
        r.push_back({k, l, {}});
      }
      for (const auto& ts : lists(static_cast<int>(grid.size()), len)) {
        std::vector<P> t;
        for (const auto i : ts) {
          t.push_back(grid[static_cast<std::size_t>(i)]);
        }
        for (const auto k : {Move, LoadAt, StoreAt}) {
          r.push_back({k, l, t});
        }
      }
    }
  }
  r.push_back({Ry, {}, {}});
  r.push_back({Cz, {}, {}});
  return r;
}
std::vector<P> gridOf(int w, int h) {
  const std::array<double, 3> c{-1.5, 0, 2.25};
  std::vector<P> r;
  for (int x = 0; x < w; ++x) {
    for (int y = 0; y < h; ++y) {
      r.push_back({c[static_cast<std::size_t>(x)], c[static_cast<std::size_t>(y)]});
    }
  }
  return r;
}
void checkLocs(mc::Ctx& c, const Prog& p, const std::vector<const Op*>& ops,
               const std::vector<std::vector<P>>& locs) {
  for (std::size_t i = 0; i < ops.size(); ++i) {
    for (std::size_t a = 0; a < p.atoms.size(); ++a) {
      const auto l = p.q.getLocationOfAtomAfterOperation(*p.atoms[a], *ops[i]);
      c.checkf(l.x == locs[i][a].x && l.y == locs[i][a].y, "location", [&] {
        return "atom " + std::to_string(a) + " after operation " +
               std::to_string(i) + " at " + l.toString() + "\n" + show(p);
      });
    }
  }
}
void verdict(mc::Ctx& c, const Prog& p, bool ok) {
  const auto [v, why] = p.q.validate();
  c.checkf(v == ok, ok ? "valid-rejected" : "invalid-accepted",
           [&] { return why + show(p); });
  c.checkf(v == why.empty(), "reason", [&] { return why + show(p); });
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P24");
  const bool th = r.thorough;
  r.assume("operations refer to atoms of the computation itself");

  // every operation from every placement and set of loaded atoms
  const auto steps = [&](const std::string& name, int n, int w, int h,
                         std::size_t maxLen) {
    const auto grid = gridOf(w, h);
    const auto ops = alphabet(n, grid, maxLen);
    std::uint64_t places = 1;
    for (int i = 0; i < n; ++i) {
      places *= grid.size();
    }
    r.space(name, places << static_cast<unsigned>(n),
            std::to_string(n) + " atoms on " + std::to_string(w) + "x" +
                std::to_string(h) + " places, every set of loaded atoms, each of " +
                std::to_string(ops.size()) + " operations",
            [=](std::uint64_t idx, mc::Ctx& c) {
              c.state(idx);
              Model m;
              O pre{Load, {}, {}};
              for (int i = 0; i < n; ++i) {
                if ((idx & 1U) != 0) {
                  pre.a.push_back(i);
                }
                m.loaded.push_back((idx & 1U) != 0);
                idx >>= 1U;
              }
              for (int i = 0; i < n; ++i) {
                m.loc.push_back(grid[idx % grid.size()]);
                idx /= grid.size();
              }
              for (const auto& o : ops) {
                Prog p(m.loc);
                if (!pre.a.empty()) {
                  p.add(pre);
                }
                const auto& op = p.add(o);
                auto s = m;
                s.step(o);
                c.trans();
                verdict(c, p, s.ok);
                if (s.ok) {
                  checkLocs(c, p, {&op}, {s.loc});
                }
              }
            });
  };
  steps("step-2-atoms", 2, 3, 3, 2);
  steps("step-3-atoms", 3, 2, 2, 3);
  if (th) {
    steps("step-3-atoms-row", 3, 3, 1, 3);
    steps("step-3-atoms-2x3", 3, 2, 3, 3);
  }
  {
    const auto grid = gridOf(3, 3);
    r.space("move-three", 729, "three loaded atoms on 3x3 places moved at once",
            [=](std::uint64_t idx, mc::Ctx& c) {
              const auto pick = [&](std::uint64_t i) {
                return std::vector<P>{grid[i % 9], grid[i / 9 % 9], grid[i / 81]};
              };
              c.state(idx);
              for (std::uint64_t t = 0; t < 729; ++t) {
                Prog p(pick(idx));
                Model m{pick(idx), {false, false, false}};
                for (const auto& o : {O{Load, {2, 0, 1}, {}}, O{Move, {1, 2, 0}, pick(t)}}) {
                  p.add(o);
                  m.step(o);
                }
                c.trans();
                verdict(c, p, m.ok);
              }
            });
  }
  {
    // one-dimensional histories: operations on two atoms
    const auto grid = gridOf(2, 1);
    auto ops = alphabet(2, grid, 1);
    for (const auto& l : {std::vector<int>{0, 1}, std::vector<int>{1, 0}}) {
      ops.push_back({Load, l, {}});
      ops.push_back({Store, l, {}});
      for (int i = 0; i < 2; ++i) {
        const std::vector<P> t{grid[static_cast<std::size_t>(i)],
                               grid[static_cast<std::size_t>(1 - i)]};
        ops.push_back({Move, l, t});
        ops.push_back({LoadAt, l, t});
        ops.push_back({StoreAt, l, t});
      }
    }
    const std::size_t depth = th ? 5 : 4;
    std::uint64_t size = 1;
    for (std::size_t i = 0; i < depth; ++i) {
      size *= ops.size();
    }
    r.space("history", size,
            "all histories of " + std::to_string(depth) + " out of " +
                std::to_string(ops.size()) + " operations on two atoms",
            [=](std::uint64_t idx, mc::Ctx& c) {
              Prog p(grid);
              Model m{grid, {false, false}};
              std::vector<const Op*> done;
              std::vector<std::vector<P>> locs;
              std::uint64_t h = 7;
              for (std::size_t i = 0; i < depth; ++i) {
                const auto& o = ops[idx % ops.size()];
                idx /= ops.size();
                done.push_back(&p.add(o));
                m.step(o);
                locs.push_back(m.loc);
                h = h * 31 + (m.loc[0].x == grid[0].x ? 1 : 2) +
                    (m.loc[1].x == grid[0].x ? 4 : 8) + (m.loaded[0] ? 16 : 0) +
                    (m.loaded[1] ? 32 : 0);
                c.trans();
              }
              c.state(h);
              verdict(c, p, m.ok);
              checkLocs(c, p, done, locs);
              c.checkf(p.q.size() == depth, "size", [&] { return show(p); });
            });
  }
  {
    // atoms with and without an initial location, and the printed program
    const auto grid = gridOf(2, 2);
    r.space("initial", 625, "four atoms, each at one of 4 places or nowhere",
            [=](std::uint64_t idx, mc::Ctx& c) {
              NAComputation q;
              bool all = true;
              std::vector<std::string> want;
              for (int i = 0; i < 4; ++i) {
                const auto& a = q.emplaceBackAtom("atom" + std::to_string(i));
                const auto k = idx % 5;
                idx /= 5;
                if (k == 4) {
                  all = false;
                  continue;
                }
                const Location l{grid[k].x, grid[k].y};
                q.emplaceInitialLocation(a, l);
                want.push_back("atom " + l.toString() + " " + a.getName());
              }
              c.trans();
              c.state(idx);
              c.checkf(q.validate().first == all, "initial-location",
                       [&] { return q.toString(); });
              std::vector<std::string> got;
              std::stringstream ss(q.toString());
              for (std::string l; std::getline(ss, l);) {
                got.push_back(l);
              }
              std::sort(want.begin(), want.end());
              std::sort(got.begin(), got.end());
              c.checkf(got == want, "printed-atoms", [&] { return q.toString(); });
            });
  }
  {
    const std::vector<double> cs{-2, -1, -0.5, 0, 0.5, 1, 3};
    const auto n = cs.size();
    r.space("location-order", n * n * n * n, "comparisons of locations on a 7x7 grid",
            [=](std::uint64_t i, mc::Ctx& c) {
              const Location a{cs[i % n], cs[i / n % n]};
              const Location b{cs[i / n / n % n], cs[i / n / n / n]};
              const auto x = std::make_pair(a.x, a.y);
              const auto y = std::make_pair(b.x, b.y);
              c.trans();
              c.state(i);
              c.checkf((a < b) == (x < y) && (a > b) == (x > y) &&
                           (a <= b) == (x <= y) && (a >= b) == (x >= y) &&
                           (a == b) == (x == y) && (a != b) == (x != y),
                       "location-order",
                       [&] { return a.toString() + " and " + b.toString(); });
              c.checkf(a != b || std::hash<Location>{}(a) == std::hash<Location>{}(b),
                       "location-hash", [&] { return a.toString(); });
              c.checkf(std::abs(Location::distance(a, b) -
                                std::hypot(a.x - b.x, a.y - b.y)) < 1e-12 &&
                           a.getEuclideanDistance(b) == Location::distance(a, b) &&
                           a.getManhattanDistanceX(b) == std::abs(a.x - b.x) &&
                           a.getManhattanDistanceY(b) == std::abs(a.y - b.y),
                       "location-distance",
                       [&] { return a.toString() + " and " + b.toString(); });
            });
    r.space("zone", n * n * n * n, "zones with corners on a 7x7 grid",
            [=](std::uint64_t i, mc::Ctx& c) {
              const Zone::Extent e{cs[i % n], cs[i / n % n], cs[i / n / n % n],
                                   cs[i / n / n / n]};
              if (e.minX > e.maxX || e.minY > e.maxY) {
                return;
              }
              Zone z("z", e);
              Zone later("z");
              later.setExtent(e);
              c.state(i);
              for (const auto x : cs) {
                for (const auto y : cs) {
                  const bool in = e.minX <= x && x <= e.maxX && e.minY <= y && y <= e.maxY;
                  c.trans();
                  c.checkf(z.contains({x, y}) == in && later.contains({x, y}) == in,
                           "zone", [&] { return Location{x, y}.toString(); });
                }
              }
            });
  }
  return r.finish();
}
