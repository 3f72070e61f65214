// P13: garbage collection and reference counting never corrupt live diagrams
// or results, and unreferenced diagrams are freed.
#include "ddh.hpp"

#include <array>
#include <optional>

using namespace qc;
using ddh::C;
using ddh::Mat;
using ddh::Vec;
namespace {
constexpr double TOL = 1e-9;
constexpr std::size_t N = 2;

dd::CMat rows(const Mat& m) {
  dd::CMat r(m.size(), dd::CVec(m.size()));
  for (std::size_t i = 0; i < m.size(); ++i) {
    for (std::size_t j = 0; j < m.size(); ++j) {
      r[i][j] = m[j][i];
    }
  }
  return r;
}
Vec mulV(const Mat& a, const Vec& x) {
  Vec r(x.size());
  for (std::size_t j = 0; j < x.size(); ++j) {
    for (std::size_t i = 0; i < r.size(); ++i) {
      r[i] += a[j][i] * x[j];
    }
  }
  return r;
}
Mat mulM(const Mat& a, const Mat& b) {
  Mat r;
  for (const auto& c : b) {
    r.push_back(mulV(a, c));
  }
  return r;
}
Vec addV(Vec a, const Vec& b) {
  for (std::size_t i = 0; i < a.size(); ++i) {
    a[i] += b[i];
  }
  return a;
}
Mat addM(Mat a, const Mat& b) {
  for (std::size_t i = 0; i < a.size(); ++i) {
    a[i] = addV(a[i], b[i]);
  }
  return a;
}
Vec conjV(Vec a) {
  for (auto& x : a) {
    x = std::conj(x);
  }
  return a;
}
Mat dag(const Mat& m) {
  Mat r(m);
  for (std::size_t i = 0; i < m.size(); ++i) {
    for (std::size_t j = 0; j < m.size(); ++j) {
      r[j][i] = std::conj(m[i][j]);
    }
  }
  return r;
}
C inner(const Vec& a, const Vec& b) {
  C s = 0;
  for (std::size_t i = 0; i < a.size(); ++i) {
    s += std::conj(a[i]) * b[i];
  }
  return s;
}
Vec kronV(const Vec& a, const Vec& b) {
  Vec r;
  for (const auto& x : a) {
    for (const auto& y : b) {
      r.push_back(x * y);
    }
  }
  return r;
}
Mat kronM(const Mat& a, const Mat& b) {
  Mat r;
  for (const auto& x : a) {
    for (const auto& y : b) {
      r.push_back(kronV(x, y));
    }
  }
  return r;
}
Vec vec(const dd::vEdge& e, std::size_t n) {
  return e.isZeroTerminal() ? Vec(1ULL << n) : ddh::toVec(e);
}
Mat mat(const dd::mEdge& e, std::size_t n) { return ddh::toMat(e, n); }
bool near(const Mat& a, const Mat& b) {
  for (std::size_t i = 0; i < a.size(); ++i) {
    if (!(ref::dist(a[i], b[i]) < TOL)) {
      return false;
    }
  }
  return true;
}
bool nearS(C a, C b) { return std::abs(a - b) < TOL; }

struct Counts {
  std::size_t v, m, d, c;
  explicit Counts(const dd::Package& p)
      : v(p.vUniqueTable.getNumEntries()), m(p.mUniqueTable.getNumEntries()),
        d(p.dUniqueTable.getNumEntries()), c(p.cn.realCount()) {}
  [[nodiscard]] bool leq(const Counts& o) const {
    return v <= o.v && m <= o.m && d <= o.d && c <= o.c;
  }
  [[nodiscard]] std::string str() const {
    return std::to_string(v) + " vector, " + std::to_string(m) + " matrix, " +
           std::to_string(d) + " density nodes, " + std::to_string(c) +
           " numbers";
  }
};

// ---------------------------------------------------------------- histories
struct Gates {
  std::vector<circ::OpPtr> ops;
  std::vector<Mat> dense;
  Gates() {
    ops.push_back(circ::std1(H, 0));
    ops.push_back(circ::std1(X, 1, {}, {0_pc}));
    ops.push_back(circ::std1(RY, 1, {0.7}));
    ops.push_back(circ::std1(T, 0));
    for (const auto& o : ops) {
      dense.push_back(ref::ident(N));
      for (auto& c : dense.back()) {
        ref::applyOp(c, *o);
      }
    }
  }
};
const Gates& gates() {
  static const Gates g;
  return g;
}
enum Act : std::uint8_t {
  Zero,
  GH,
  GCX,
  GRY,
  Copy,
  AddTo,
  Conj,
  SwapV,
  RelV,
  MId,
  MRY,
  MT,
  MDag,
  MAdd,
  MV,
  Query,
  Gc,
  GcSoft,
  Reset,
  Grow,
  Measure,
  NACT
};
const char* const NAMES[] = {"zero-state", "apply-h",   "apply-cx",  "apply-ry",
                             "copy",       "add",       "conjugate", "swap",
                             "release",    "identity",  "mat-ry",    "mat-t",
                             "mat-dagger", "mat-add",   "mat-times-vec",
                             "query",      "gc",        "gc-soft",   "reset",
                             "grow",       "measure"};
struct Hist {
  mc::Ctx& c;
  dd::Package p{N, ddh::smallConfig(16)};
  std::array<std::optional<std::pair<dd::vEdge, Vec>>, 2> v;
  std::array<std::optional<std::pair<dd::mEdge, Mat>>, 2> m;
  std::string log;
  std::size_t grown = 0;
  Counts base{p};
  explicit Hist(mc::Ctx& ctx) : c(ctx) {}
  void setV(std::size_t i, const dd::vEdge& e, const Vec& d) {
    p.incRef(e);
    if (v[i]) {
      p.decRef(v[i]->first);
    }
    v[i].emplace(e, d);
  }
  void setM(std::size_t i, const dd::mEdge& e, const Mat& d) {
    p.incRef(e);
    if (m[i]) {
      p.decRef(m[i]->first);
    }
    m[i].emplace(e, d);
  }
  void relV(std::size_t i) {
    if (v[i]) {
      p.decRef(v[i]->first);
      v[i].reset();
    }
  }
  void relM(std::size_t i) {
    if (m[i]) {
      p.decRef(m[i]->first);
      m[i].reset();
    }
  }
  void act(std::uint8_t a) {
    const auto& g = gates();
    c.trans();
    log += std::string(" ") + NAMES[a];
    const auto gate = [&](std::size_t k) {
      if (v[0]) {
        const auto e = dd::getDD(*g.ops[k], p);
        const auto d = mulV(g.dense[k], v[0]->second);
        setV(0, p.multiply(e, v[0]->first), d);
      }
    };
    const auto mgate = [&](std::size_t k) {
      if (m[0]) {
        const auto e = dd::getDD(*g.ops[k], p);
        const auto d = mulM(g.dense[k], m[0]->second);
        setM(0, p.multiply(e, m[0]->first), d);
      }
    };
    switch (a) {
    case Zero: {
      relV(0);
      const auto e = p.makeZeroState(N); // already referenced
      Vec d(1U << N);
      d[0] = 1;
      v[0].emplace(e, d);
      break;
    }
    case GH:
      gate(0);
      break;
    case GCX:
      gate(1);
      break;
    case GRY:
      gate(2);
      break;
    case Copy:
      if (v[0]) {
        const auto k = *v[0];
        setV(1, k.first, k.second);
      }
      break;
    case AddTo:
      if (v[0] && v[1]) {
        const auto d = addV(v[0]->second, v[1]->second);
        setV(1, p.add(v[0]->first, v[1]->first), d);
      }
      break;
    case Conj:
      if (v[0]) {
        const auto d = conjV(v[0]->second);
        setV(0, p.conjugate(v[0]->first), d);
      }
      break;
    case SwapV:
      std::swap(v[0], v[1]);
      std::swap(m[0], m[1]);
      break;
    case RelV:
      relV(0);
      relM(0);
      break;
    case MId:
      setM(0, dd::Package::makeIdent(), ref::ident(N));
      break;
    case MRY:
      mgate(2);
      break;
    case MT:
      mgate(3);
      break;
    case MDag:
      if (m[0]) {
        const auto d = dag(m[0]->second);
        setM(0, p.conjugateTranspose(m[0]->first), d);
      }
      break;
    case MAdd:
      if (m[0]) {
        const auto e = dd::getDD(*g.ops[0], p);
        const auto d = addM(m[0]->second, g.dense[0]);
        setM(1, p.add(m[0]->first, e), d);
      }
      break;
    case MV:
      if (m[0] && v[0]) {
        const auto d = mulV(m[0]->second, v[0]->second);
        setV(1, p.multiply(m[0]->first, v[0]->first), d);
      }
      break;
    case Query:
      if (v[0] && v[1]) {
        const auto ip =
            static_cast<std::complex<double>>(p.innerProduct(v[0]->first, v[1]->first));
        c.checkf(nearS(ip, inner(v[0]->second, v[1]->second)), "inner-product",
                 [&] { return log; });
      }
      if (m[0]) {
        C t = 0;
        for (std::size_t i = 0; i < 4; ++i) {
          t += m[0]->second[i][i];
        }
        const auto got = static_cast<std::complex<double>>(
            p.trace(m[0]->first, N));
        c.checkf(nearS(got, t / 4.), "trace", [&] { return log; });
      }
      if (v[0]) {
        const auto e = p.makeStateFromVector(
            {v[0]->second.begin(), v[0]->second.end()});
        c.checkf(e.p == v[0]->first.p, "rebuilt-state-differs",
                 [&] { return log; });
        p.decRef(e);
        const auto z = dd::getDD(*g.ops[3], p);
        (void)z;
        dd::GateMatrix zm{1, 0, 0, -1};
        const auto ev = p.expectationValue(p.makeGateDD(zm, 1), v[0]->first);
        Vec zv = v[0]->second;
        zv[2] = -zv[2];
        zv[3] = -zv[3];
        c.checkf(nearS(ev, inner(v[0]->second, zv)), "expectation",
                 [&] { return log; });
      }
      break;
    case Gc:
      p.garbageCollect(true);
      break;
    case GcSoft:
      p.garbageCollect();
      break;
    case Reset:
      v = {};
      m = {};
      p.reset();
      break;
    case Grow:
      if (grown < 2) {
        ++grown;
        p.resize(N + grown);
      }
      break;
    case Measure:
      if (v[0]) {
        const auto n2 = inner(v[0]->second, v[0]->second).real();
        if (std::abs(n2 - 1) > 1e-6) {
          break;
        }
        auto d = v[0]->second;
        const double p0 = std::norm(d[0]) + std::norm(d[1]);
        const bool zero = p0 >= 0.5;
        for (std::size_t i = 0; i < 4; ++i) {
          if ((i >= 2) == zero) {
            d[i] = 0;
          } else {
            d[i] /= std::sqrt(zero ? p0 : 1 - p0);
          }
        }
        p.performCollapsingMeasurement(v[0]->first, 1, zero ? p0 : 1 - p0, zero);
        v[0]->second = d;
      }
      break;
    default:
      break;
    }
    live(NAMES[a]);
  }
  void live(const char* after) {
    for (std::size_t i = 0; i < 2; ++i) {
      if (v[i]) {
        c.checkf(ref::dist(vec(v[i]->first, N), v[i]->second) < TOL,
                 (std::string("live-vector-after-") + after).c_str(), [&] {
                   return "slot " + std::to_string(i) + " after" + log +
                          " is " + ref::vecStr(vec(v[i]->first, N)) +
                          ", expected " + ref::vecStr(v[i]->second);
                 });
      }
      if (m[i]) {
        c.checkf(near(mat(m[i]->first, N), m[i]->second),
                 (std::string("live-matrix-after-") + after).c_str(), [&] {
                   return "slot " + std::to_string(i) + " after" + log + " is " +
                          ddh::matStr(mat(m[i]->first, N)) + ", expected " +
                          ddh::matStr(m[i]->second);
                 });
      }
    }
  }
  void finish() {
    for (std::size_t i = 0; i < 2; ++i) {
      relV(i);
      relM(i);
    }
    p.garbageCollect(true);
    const Counts now(p);
    c.checkf(now.leq(base), "not-freed", [&] {
      return "after" + log + " and releasing everything there are " +
             now.str() + ", at the start " + base.str();
    });
  }
};

// ------------------------------------------------------- stale memo entries
// an operation on freshly built, unreferenced operands
struct Operand {
  Vec v;
  Mat m;
};
const std::vector<Operand>& operands() {
  static const std::vector<Operand> o = [] {
    std::vector<Operand> r;
    const double s = std::sqrt(0.5);
    const C i{0, 1};
    const std::vector<Vec> vs{{s, 0, 0, s},         {s, 0, 0, -s},
                              {0.6, 0, 0, 0.8},     {0.5, 0.5 * i, 0.5, -0.5},
                              {0.8, 0, 0.6, 0},     {0, i * s, s, 0}};
    const auto& g = gates();
    std::vector<Mat> ms{g.dense[1], mulM(g.dense[2], g.dense[0]),
                        mulM(g.dense[1], g.dense[2]),
                        addM(g.dense[3], g.dense[1]), mulM(g.dense[3], g.dense[0]),
                        mulM(g.dense[2], mulM(g.dense[1], g.dense[3]))};
    for (std::size_t k = 0; k < vs.size(); ++k) {
      r.push_back({vs[k], ms[k]});
    }
    return r;
  }();
  return o;
}
constexpr std::size_t NOPS = 17;
const char* const OPN[NOPS] = {
    "conjugate",      "add",           "inner-product",  "fidelity",
    "kronecker",      "mat-vec",       "mat-mat",        "dagger",
    "trace",          "mat-add",       "mat-kronecker",  "garbage-vector",
    "garbage-matrix", "expectation",   "partial-trace",  "garbage-matrix-columns",
    "outer-product"};
void oper(mc::Ctx& c, dd::Package& p, std::size_t op, std::size_t k,
          const std::function<std::string()>& log) {
  const auto& A = operands()[k];
  const auto& B = operands()[(k + 1) % operands().size()];
  const auto V = [&](const Vec& v) { // unreferenced
    const auto e = p.makeStateFromVector({v.begin(), v.end()});
    p.decRef(e);
    return e;
  };
  const auto M = [&](const Mat& m) { return p.makeDDFromMatrix(rows(m)); };
  const auto fail = [&](const std::string& got) {
    return std::string(OPN[op]) + " on operand " + std::to_string(k) +
           " gave " + got + " after " + log();
  };
  const std::string key = std::string("stale-") + OPN[op];
  const auto cv = [&](const Vec& got, const Vec& want) {
    c.checkf(ref::dist(got, want) < TOL, key.c_str(),
             [&] { return fail(ref::vecStr(got)); });
  };
  const auto cm = [&](const Mat& got, const Mat& want) {
    c.checkf(near(got, want), key.c_str(), [&] { return fail(ddh::matStr(got)); });
  };
  const auto cs = [&](C got, C want) {
    c.checkf(nearS(got, want), key.c_str(), [&] {
      return fail(std::to_string(got.real()) + "," + std::to_string(got.imag()));
    });
  };
  c.trans();
  switch (op) {
  case 0:
    cv(vec(p.conjugate(V(A.v)), N), conjV(A.v));
    break;
  case 1:
    cv(vec(p.add(V(A.v), V(B.v)), N), addV(A.v, B.v));
    break;
  case 2: {
    const auto a = V(A.v);
    cs(static_cast<std::complex<double>>(p.innerProduct(a, V(B.v))),
       inner(A.v, B.v));
    break;
  }
  case 3: {
    const auto a = V(A.v);
    cs(p.fidelity(a, V(B.v)), std::norm(inner(A.v, B.v)));
    break;
  }
  case 4: {
    const auto a = V(A.v);
    cv(vec(p.kronecker(a, V(B.v), N), 2 * N), kronV(A.v, B.v));
    break;
  }
  case 5: {
    const auto a = M(A.m);
    cv(vec(p.multiply(a, V(B.v)), N), mulV(A.m, B.v));
    break;
  }
  case 6: {
    const auto a = M(A.m);
    cm(mat(p.multiply(a, M(B.m)), N), mulM(A.m, B.m));
    break;
  }
  case 7:
    cm(mat(p.conjugateTranspose(M(A.m)), N), dag(A.m));
    break;
  case 8: {
    C t = 0;
    for (std::size_t i = 0; i < 4; ++i) {
      t += A.m[i][i];
    }
    cs(static_cast<std::complex<double>>(p.trace(M(A.m), N)), t / 4.);
    break;
  }
  case 9: {
    const auto a = M(A.m);
    cm(mat(p.add(a, M(B.m)), N), addM(A.m, B.m));
    break;
  }
  case 10: {
    const auto a = M(A.m);
    cm(mat(p.kronecker(a, M(B.m), N), 2 * N), kronM(A.m, B.m));
    break;
  }
  case 11: {
    auto a = V(A.v);
    p.incRef(a);
    const auto r = p.reduceGarbage(a, {false, true});
    Vec w(4);
    for (std::size_t i = 0; i < 2; ++i) {
      w[i] = std::sqrt(std::norm(A.v[i]) + std::norm(A.v[i + 2]));
    }
    auto got = vec(r, N);
    // amplitudes of the surviving entries matter up to their phase
    for (auto& x : got) {
      x = std::abs(x);
    }
    cv(got, w);
    p.decRef(r);
    break;
  }
  case 12:
  case 15: {
    const bool regular = op == 12;
    const auto a = M(A.m);
    p.incRef(a);
    const auto r = p.reduceGarbage(a, {false, true}, regular);
    Mat w(4, Vec(4));
    for (std::size_t i = 0; i < 4; ++i) {
      for (std::size_t j = 0; j < 4; ++j) {
        const auto x = regular ? A.m[j][i % 2] : A.m[j % 2][i];
        const auto y = regular ? A.m[j][i % 2 + 2] : A.m[j % 2 + 2][i];
        if ((regular ? i : j) < 2) {
          w[j][i] = std::sqrt(std::norm(x) + std::norm(y));
        }
      }
    }
    auto got = mat(r, N);
    for (auto& col : got) {
      for (auto& x : col) {
        x = std::abs(x);
      }
    }
    cm(got, w);
    p.decRef(r);
    break;
  }
  case 13: {
    dd::GateMatrix zm{1, 0, 0, -1};
    const auto a = V(A.v);
    p.incRef(a);
    const auto e = p.expectationValue(p.makeGateDD(zm, 0), a);
    p.decRef(a);
    Vec z = A.v;
    z[1] = -z[1];
    z[3] = -z[3];
    cs(e, inner(A.v, z));
    break;
  }
  case 14: {
    const auto r = p.partialTrace(M(A.m), {false, true});
    Mat w(2, Vec(2));
    for (std::size_t i = 0; i < 2; ++i) {
      for (std::size_t j = 0; j < 2; ++j) {
        w[j][i] = (A.m[j][i] + A.m[j + 2][i + 2]) / 2.;
      }
    }
    cm(mat(r, 1), w);
    break;
  }
  default: {
    // adding a vector to the sum of two others
    const auto s = p.add(V(A.v), p.conjugate(V(B.v)));
    cv(vec(p.add(s, V(B.v)), N), addV(addV(A.v, conjV(B.v)), B.v));
    break;
  }
  }
}
// live: an unrelated diagram that stays referenced through the collections
void stale(mc::Ctx& c, const std::vector<std::pair<std::size_t, std::size_t>>& seq,
           dd::Package& p, bool live) {
  std::size_t done = 0;
  const auto log = [&] {
    std::string s;
    for (std::size_t i = 0; i < done; ++i) {
      s += std::string(OPN[seq[i].first]) + "(" + std::to_string(seq[i].second) +
           "), gc, ";
    }
    return s;
  };
  std::optional<dd::vEdge> lv;
  std::optional<dd::mEdge> lm;
  const Vec keep{0.1, 0.2, 0.3, std::sqrt(1 - 0.14)};
  if (live) {
    lv = p.makeStateFromVector({keep.begin(), keep.end()}); // referenced
    lm = dd::getDD(*gates().ops[2], p);
    p.incRef(*lm);
  }
  for (const auto& [op, k] : seq) {
    oper(c, p, op, k, log);
    p.garbageCollect(true);
    ++done;
    if (live) {
      c.checkf(ref::dist(vec(*lv, N), keep) < TOL &&
                   near(mat(*lm, N), gates().dense[2]),
               "stale-live", log);
    }
  }
  if (live) {
    p.decRef(*lv);
    p.decRef(*lm);
    p.garbageCollect(true);
  }
  const Counts now(p);
  c.checkf(now.v == 0 && now.m == 0 && now.d == 0, "stale-not-freed",
           [&] { return log() + " left " + now.str(); });
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P13");
  r.assume("A user references what is kept and releases what is not, as the "
           "package requires; collections happen between operations.");
  const std::size_t L = r.thorough ? 6 : 4;
  const std::uint64_t pre = NACT * NACT;
  std::uint64_t rest = 1;
  for (std::size_t i = 2; i < L; ++i) {
    rest *= NACT;
  }
  const std::uint64_t split = r.thorough ? NACT : 1;
  r.space("histories", pre * split,
          "every history of " + std::to_string(L) + " of " +
              std::to_string(static_cast<int>(NACT)) +
              " actions (create, operate, copy, release, measure, collect, reset, "
              "resize) from the zero state with a rotated second state and an "
              "entangling matrix; every live diagram is compared after every "
              "action, node counts after releasing everything",
          [&](std::uint64_t idx, mc::Ctx& c) {
            const auto first = idx % pre;
            const auto part = idx / pre;
            for (std::uint64_t x = part * (rest / split);
                 x < (part + 1) * (rest / split); ++x) {
              Hist h(c);
              // preamble: two states and a matrix
              for (const auto a : {Zero, GH, GRY, Copy, GCX, MId, MRY}) {
                h.act(a);
              }
              h.act(static_cast<std::uint8_t>(first % NACT));
              h.act(static_cast<std::uint8_t>(first / NACT));
              auto y = x;
              for (std::size_t k = 2; k < L; ++k) {
                h.act(static_cast<std::uint8_t>(y % NACT));
                y /= NACT;
              }
              h.finish();
              c.state(mc::hashStr(h.log));
            }
          },
          600);
  r.space("shared-histories", pre,
          "the same histories of " + std::to_string(r.thorough ? 5 : 4) +
              " actions run one after another in one package, so that memory "
              "and memo tables are reused",
          [&](std::uint64_t idx, mc::Ctx& c) {
            Hist h(c);
            const std::size_t len = r.thorough ? 5 : 4;
            std::uint64_t n = 1;
            for (std::size_t i = 2; i < len; ++i) {
              n *= NACT;
            }
            for (std::uint64_t x = 0; x < n; ++x) {
              h.log.clear();
              for (const auto a : {Zero, GH, GRY, Copy, GCX, MId, MRY}) {
                h.act(a);
              }
              h.act(static_cast<std::uint8_t>(idx % NACT));
              h.act(static_cast<std::uint8_t>(idx / NACT));
              auto y = x;
              for (std::size_t k = 2; k < len; ++k) {
                h.act(static_cast<std::uint8_t>(y % NACT));
                y /= NACT;
              }
              h.finish();
            }
          },
          600);
  const std::uint64_t one = NOPS * operands().size();
  r.space("stale", one * 2,
          "every pair (thorough: triple) of " + std::to_string(one) +
              " operations on unreferenced operands with a forced collection "
              "after each, with and without an unrelated live diagram; every "
              "result is compared with dense linear algebra",
          [&](std::uint64_t idx, mc::Ctx& c) {
            const bool live = idx >= one;
            const auto a = idx % one;
            dd::Package p(2 * N, ddh::smallConfig(16));
            const auto dec = [&](std::uint64_t x) {
              return std::pair<std::size_t, std::size_t>{x / operands().size(),
                                                         x % operands().size()};
            };
            for (std::uint64_t b = 0; b < one; ++b) {
              if (!c.thorough) {
                stale(c, {dec(a), dec(b)}, p, live);
                continue;
              }
              for (std::uint64_t d = 0; d < one; ++d) {
                stale(c, {dec(a), dec(b), dec(d)}, p, live);
              }
            }
          },
          600);
  r.space("table-sizes", NOPS * 4,
          "every operation on every operand before and after a collection, with "
          "1, 2, 512 and 65536 buckets per table",
          [&](std::uint64_t idx, mc::Ctx& c) {
            const std::size_t op = idx / 4;
            constexpr std::array<std::size_t, 4> sizes{1, 2, 512, 65536};
            dd::Package p(2 * N, ddh::smallConfig(sizes[idx % 4]));
            for (std::size_t a = 0; a < operands().size(); ++a) {
              for (std::size_t b = 0; b < operands().size(); ++b) {
                stale(c, {{op, a}, {op, b}}, p, false);
              }
            }
          });
  // ---- large diagrams: many chunks of memory, long chains in the tables ------
  constexpr std::array<std::size_t, 3> buckets{4, 64, 4096};
  r.space("large", 8 * buckets.size() * 5,
          "generic vectors of 5 to 12 qubits (up to 4095 nodes each), 1 to 5 of "
          "them alive, collections in between; values, rebuilt roots, node counts",
          [&](std::uint64_t idx, mc::Ctx& c) {
            mc::Digits d(idx);
            const auto n = d.take(8) + 5;
            const auto nb = buckets[d.take(buckets.size())];
            const auto alive = d.take(5) + 1;
            if (nb == 4 && n > 9) {
              c.skip();
              return;
            }
            dd::Package p(n, ddh::smallConfig(nb));
            const auto vec = [&](std::size_t k) {
              Vec v(1ULL << n);
              double s = 0;
              for (std::size_t i = 0; i < v.size(); ++i) {
                const auto x = static_cast<double>(((i + 1) * (2 * k + 3) * 7919) % 1009);
                v[i] = C(std::sin(x) + 0.01 * static_cast<double>(k),
                         std::cos(1.7 * x + static_cast<double>(i % 13)));
                s += std::norm(v[i]);
              }
              for (auto& x : v) {
                x /= std::sqrt(s);
              }
              return v;
            };
            const auto make = [&](const Vec& v) {
              return p.makeStateFromVector(dd::CVec(v.begin(), v.end())); // referenced
            };
            std::vector<Vec> vs;
            std::vector<dd::vEdge> es;
            for (std::size_t k = 0; k < 2 * alive; ++k) {
              vs.push_back(vec(k));
              es.push_back(make(vs.back()));
            }
            const auto value = [&](std::size_t k, const char* key) {
              c.checkf(ref::dist(ddh::toVec(es[k]), vs[k]) < TOL, key, [&] {
                return "vector " + std::to_string(k) + " of " + std::to_string(n) +
                       " qubits is lost";
              });
            };
            // every second one is released, then memory is reclaimed and reused
            for (int round = 0; round < 2; ++round) {
              for (std::size_t k = 1; k < es.size(); k += 2) {
                p.decRef(es[k]);
              }
              p.garbageCollect(true);
              for (std::size_t k = 0; k < es.size(); k += 2) {
                value(k, "large:value");
                const auto again = make(vs[k]);
                c.checkf(again.p == es[k].p, "large:canonical", [&] {
                  return "vector " + std::to_string(k) + " of " +
                         std::to_string(n) + " qubits is rebuilt differently";
                });
                p.decRef(again);
              }
              for (std::size_t k = 1; k < es.size(); k += 2) {
                es[k] = make(vs[k]);
              }
              for (std::size_t k = 0; k < es.size(); ++k) {
                value(k, "large:value-after-reuse");
              }
              c.trans();
            }
            // gates on top
            QuantumComputation q(n);
            for (Qubit x = 0; x < n; ++x) {
              q.cx(x, static_cast<Qubit>((x + 1) % n));
              q.ry(0.3, x);
            }
            auto want = vs[0];
            for (const auto& op : q) {
              ref::applyOp(want, *op);
            }
            p.incRef(es[0]);
            const auto out = dd::simulate(q, es[0], p);
            c.checkf(ref::dist(ddh::toVec(out), want) < 1e-7, "large:simulate",
                     [&] { return std::to_string(n) + " qubits"; });
            p.decRef(out);
            for (const auto& e : es) {
              p.decRef(e);
            }
            p.garbageCollect(true);
            const auto left = p.vUniqueTable.getNumEntries();
            c.checkf(left == 0, "large:leak", [&] {
              return std::to_string(left) + " vector nodes are left after "
                                            "everything is released";
            });
            c.state(idx);
          });
  r.space("references", 3 * 5,
          "vectors, matrices and shared nodes referenced up to 70000 times",
          [&](std::uint64_t idx, mc::Ctx& c) {
            mc::Digits d(idx);
            const auto kind = d.take(3);
            constexpr std::array<std::size_t, 5> counts{1, 255, 257, 65535, 70000};
            const auto k = counts[d.take(counts.size())];
            dd::Package p(3, ddh::smallConfig(16));
            const auto run = [&](auto e, const auto& same, auto& table) {
              const auto before = table.getNumEntries();
              for (std::size_t i = 0; i < k; ++i) {
                p.incRef(e);
              }
              for (std::size_t i = 0; i + 1 < k; ++i) {
                p.decRef(e);
              }
              p.garbageCollect(true);
              c.checkf(same(e), "references:lost", [&] {
                return "one of " + std::to_string(k) + " references is left";
              });
              p.decRef(e);
              p.garbageCollect(true);
              const auto after = table.getNumEntries();
              c.checkf(before > 0 && after == 0, "references:kept", [&] {
                return std::to_string(after) + " nodes are left after all " +
                       std::to_string(k) + " references are released";
              });
            };
            if (kind == 0) {
              const auto g = ref::genericState(3);
              const auto v = p.makeStateFromVector(dd::CVec(g.begin(), g.end()));
              p.decRef(v);
              run(v,
                  [&](const auto& e) { return ref::dist(ddh::toVec(e), g) < TOL; },
                  p.vUniqueTable);
            } else {
              const auto op = kind == 1 ? circ::std1(U, 1, {0.3, 0.4, 0.5}, {Control{2}, Control{0}})
                                        : circ::std2(RZX, 2, 0, {0.4});
              run(dd::getDD(*op, p),
                  [&](const auto& e) {
                    return ref::dist(ddh::toMat(e, 3), ref::unitaryOp(*op, 3)) < TOL;
                  },
                  p.mUniqueTable);
            }
            c.state(idx);
          });
  r.space("automatic", 2 * 4 * 2,
          "more nodes and numbers than the limits at which the package collects "
          "on its own (vectors of 65535, matrices of 21845 nodes), every second, "
          "every or no diagram alive, with and without a simulation in between",
          [&](std::uint64_t idx, mc::Ctx& c) {
            mc::Digits d(idx);
            const bool vectors = d.take(2) == 0;
            const auto keep = d.take(4); // none, every second, the first, all
            const bool sim = d.take(2) == 1;
            const std::size_t n = vectors ? 16 : 8;
            dd::Package p(n);
            const auto entry = [](std::size_t i, std::size_t k) {
              const auto x = static_cast<double>((i + 1) * (2 * k + 3) % 100003);
              return 0.003 * C(std::sin(x) + 0.01 * static_cast<double>(k), std::cos(1.7 * x));
            };
            const std::size_t rounds = vectors ? 5 : 14;
            std::vector<std::pair<std::size_t, dd::vEdge>> lv;
            std::vector<std::pair<std::size_t, dd::mEdge>> lm;
            const std::size_t len = 1ULL << n;
            const auto checkAll = [&] {
              for (const auto& [k, e] : lv) {
                const auto v = e.getVector();
                double worst = 0;
                for (std::size_t i = 0; i < len; ++i) {
                  worst = std::max(worst, std::abs(v[i] - entry(i, k)));
                }
                c.checkf(worst < TOL, "automatic:vector", [&] {
                  return "vector " + std::to_string(k) + " is off by " + std::to_string(worst);
                });
              }
              for (const auto& [k, e] : lm) {
                const auto m = e.getMatrix(n);
                double worst = 0;
                for (std::size_t i = 0; i < len * len; ++i) {
                  worst = std::max(worst, std::abs(m[i / len][i % len] - entry(i, k)));
                }
                c.checkf(worst < TOL, "automatic:matrix", [&] {
                  return "matrix " + std::to_string(k) + " is off by " + std::to_string(worst);
                });
              }
            };
            bool collected = false;
            // small operands that stay alive; results of operations on them are
            // remembered by the package but not referenced
            constexpr std::size_t s = 3;
            const auto va = ref::genericState(s);
            auto vb = va;
            std::reverse(vb.begin(), vb.end());
            vb[2] = C(0.1, 0.7);
            QuantumComputation qa(s);
            qa.u(0.3, 0.4, 0.5, 0);
            qa.rzx(0.7, 0, 2);
            QuantumComputation qb(s);
            qb.cry(1.1, 2, 1);
            qb.u(1.3, 0.2, -0.5, 2);
            const auto ma = ref::unitary(qa, s);
            const auto mb = ref::unitary(qb, s);
            const auto ea = p.makeStateFromVector(dd::CVec(va.begin(), va.end()));
            const auto eb = p.makeStateFromVector(dd::CVec(vb.begin(), vb.end()));
            const auto fa = p.makeDDFromMatrix(rows(ma));
            const auto fb = p.makeDDFromMatrix(rows(mb));
            p.incRef(fa);
            p.incRef(fb);
            const auto small = [&](std::size_t k) {
              const auto is = [&](bool ok, const char* key) {
                c.checkf(ok, key, [&] { return "in round " + std::to_string(k); });
              };
              const auto v = [&](const dd::vEdge& e, const Vec& want, const char* key) {
                is(ref::dist(ddh::toVec(e), want) < TOL, key);
              };
              const auto m = [&](const dd::mEdge& e, const Mat& want, const char* key) {
                is(ref::dist(ddh::toMat(e, s), want) < TOL, key);
              };
              v(p.add(ea, eb), addV(va, vb), "automatic:vector-add");
              v(p.conjugate(ea), conjV(va), "automatic:conjugate");
              v(p.multiply(fa, eb), mulV(ma, vb), "automatic:matrix-vector");
              v(p.kronecker(ea, eb, s), kronV(va, vb), "automatic:kronecker");
              const auto ip = p.innerProduct(ea, eb);
              is(std::abs(C(ip.r, ip.i) - inner(va, vb)) < TOL, "automatic:inner-product");
              m(p.add(fa, fb), addM(ma, mb), "automatic:matrix-add");
              m(p.multiply(fa, fb), mulM(ma, mb), "automatic:matrix-matrix");
              m(p.conjugateTranspose(fa), dag(ma), "automatic:adjoint");
            };
            for (std::size_t k = 0; k < rounds; ++k) {
              small(k);
              const bool live = keep == 3 || (keep == 2 && k == 0) || (keep == 1 && k % 2 == 1);
              if (vectors) {
                dd::CVec v(len);
                for (std::size_t i = 0; i < len; ++i) {
                  v[i] = entry(i, k);
                }
                const auto e = p.makeStateFromVector(v); // referenced
                if (live) {
                  lv.emplace_back(k, e);
                } else {
                  p.decRef(e);
                }
              } else {
                dd::CMat m(len, dd::CVec(len));
                for (std::size_t i = 0; i < len * len; ++i) {
                  m[i / len][i % len] = entry(i, k);
                }
                const auto e = p.makeDDFromMatrix(m);
                if (live) {
                  p.incRef(e);
                  lm.emplace_back(k, e);
                }
              }
              collected = p.garbageCollect() || collected;
              small(k);
              if (sim) {
                QuantumComputation q(n);
                q.h(0);
                for (Qubit x = 1; x < n; ++x) {
                  q.cx(0, x);
                  q.p(0.1 * static_cast<double>(k + 1), x);
                }
                const auto s = dd::simulate(q, p.makeZeroState(n), p);
                const auto a = s.getValueByPath(n, std::string(n, '1'));
                const auto want = std::polar(std::sqrt(0.5), 0.1 * static_cast<double>((k + 1) * (n - 1)));
                c.checkf(std::abs(a - want) < TOL, "automatic:simulate", [&] {
                  return "round " + std::to_string(k);
                });
                p.decRef(s);
              }
              c.trans();
            }
            checkAll();
            c.state(idx * 2 + (collected ? 1 : 0));
            for (const auto& e : {ea, eb}) {
              p.decRef(e);
            }
            for (const auto& e : {fa, fb}) {
              p.decRef(e);
            }
            for (const auto& [k, e] : lv) {
              p.decRef(e);
            }
            for (const auto& [k, e] : lm) {
              p.decRef(e);
            }
            p.garbageCollect(true);
            c.checkf(p.vUniqueTable.getNumEntries() == 0 && p.mUniqueTable.getNumEntries() == 0,
                     "automatic:leak", [&] { return "nodes are left"; });
          },
          600);
  return r.finish();
}
