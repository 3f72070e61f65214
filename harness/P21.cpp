// P21: PiRational against exact rational arithmetic modulo 2.
#include "mc.hpp"
#include "zx/Rational.hpp"
#include "zx/ZXDefinitions.hpp"

#include <numeric>

namespace {
using I = __int128;
I gcdI(I a, I b) {
  a = a < 0 ? -a : a;
  b = b < 0 ? -b : b;
  while (b != 0) {
    const I t = a % b;
    a = b;
    b = t;
  }
  return a;
}
struct Q { // model: reduced fraction in (-1,1]
  I n = 0, d = 1;
  void norm() {
    if (d < 0) {
      n = -n;
      d = -d;
    }
    const I g = gcdI(n, d);
    if (g > 1) {
      n /= g;
      d /= g;
    }
    n %= 2 * d;
    if (n > d) {
      n -= 2 * d;
    } else if (n <= -d) {
      n += 2 * d;
    }
    const I g2 = gcdI(n, d);
    n /= g2;
    d /= g2;
  }
};
Q mk(I n, I d) {
  Q q{n, d};
  q.norm();
  return q;
}
std::string s(I x) {
  if (x < 0) {
    return "-" + s(-x);
  }
  std::string r;
  do {
    r.insert(r.begin(), static_cast<char>('0' + static_cast<int>(x % 10)));
    x /= 10;
  } while (x != 0);
  return r;
}
std::string str(const Q& q) { return s(q.n) + "/" + s(q.d); }
std::string str(const zx::PiRational& p) {
  std::stringstream ss;
  ss << p;
  return ss.str();
}
bool same(const zx::PiRational& p, const Q& q) {
  return str(p) == str(q);
}
double val(const Q& q) {
  return static_cast<double>(q.n) / static_cast<double>(q.d);
}
std::uint64_t h(const Q& q) {
  return static_cast<std::uint64_t>(q.n) * 1000003ULL +
         static_cast<std::uint64_t>(q.d);
}
using zx::PiRational;
int cmp(const Q& a, const Q& b) {
  const I l = a.n * b.d;
  const I r = b.n * a.d;
  return l < r ? -1 : (l > r ? 1 : 0);
}
template <class A, class B>
void cmps(mc::Ctx& c, const A& a, const B& b, int r, const std::string& d) {
  c.check((a < b) == (r < 0), "cmp<", d);
  c.check((a <= b) == (r <= 0), "cmp<=", d);
  c.check((a > b) == (r > 0), "cmp>", d);
  c.check((a >= b) == (r >= 0), "cmp>=", d);
  c.check((a == b) == (r == 0), "cmp==", d);
  c.check((a != b) == (r != 0), "cmp!=", d);
}
// operand set of reduced fractions
std::vector<Q> operands(int maxDen) {
  std::vector<Q> v;
  for (int d = 1; d <= maxDen; ++d) {
    for (int n = -d + 1; n <= d; ++n) {
      if (std::gcd(n, d) == 1) {
        v.push_back(mk(n, d));
      }
    }
  }
  return v;
}
PiRational lib(const Q& q) {
  return PiRational(static_cast<std::int64_t>(q.n),
                    static_cast<std::int64_t>(q.d));
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "P21");
  const bool T = R.thorough;

  {
    const int N = T ? 400 : 60;
    const int D = T ? 60 : 16;
    R.space("construct", static_cast<std::uint64_t>(2 * N + 1) * (2 * D + 1),
            "numerators -" + std::to_string(N) + ".." + std::to_string(N) +
                ", denominators +-1.." + std::to_string(D),
            [&](std::uint64_t i, mc::Ctx& c) {
              mc::Digits g(i);
              const auto n = static_cast<std::int64_t>(g.take(2 * N + 1)) - N;
              auto d = static_cast<std::int64_t>(g.take(2 * D + 1)) - D;
              if (d == 0) {
                const auto p = PiRational(n);
                c.check(same(p, mk(n, 1)), "construct-int",
                        std::to_string(n) + " -> " + str(p));
                return;
              }
              const auto m = mk(n, d);
              const auto txt = std::to_string(n) + "/" + std::to_string(d);
              c.sample("PiRational(" + txt + ") = " + str(m));
              c.state(h(m));
              c.trans();
              const PiRational p(n, d);
              c.check(same(p, m), "construct",
                      txt + " -> " + str(p) + " expected " + str(m));
              const PiRational b{BigInt(n), BigInt(d)};
              c.check(same(b, m), "construct-big", txt + " -> " + str(b));
              c.check(p.isZero() == (m.n == 0), "isZero", txt);
              c.check(p.isInteger() == (m.d == 1), "isInteger", txt);
              c.check(std::abs(p.toDoubleDivPi() - val(m)) < 1e-14,
                      "toDoubleDivPi", txt);
              c.check(std::abs(p.toDouble() - val(m) * zx::PI) < 1e-14,
                      "toDouble", txt);
              c.check(std::abs(static_cast<double>(p) - val(m) * zx::PI) <
                          1e-14,
                      "double()", txt);
              c.check(p.isClose(val(m) * zx::PI, 1e-13), "isClose", txt);
              c.check(!p.isClose(val(m) * zx::PI + 1e-3, 1e-4), "isClose",
                      txt);
              c.check(p.isCloseDivPi(val(m), 1e-13), "isCloseDivPi", txt);
              c.check(!p.isCloseDivPi(val(m) - 1e-3, 1e-4), "isCloseDivPi",
                      txt);
              const auto neg = -p;
              c.check(same(neg, mk(-m.n, m.d)), "negate",
                      txt + " -> " + str(neg));
            });
  }
  {
    const auto ops = operands(T ? 24 : 12);
    const std::uint64_t K = ops.size();
    R.space("pairs", K * K, "all pairs of reduced fractions, + - * / and all "
                            "comparisons, plain and compound assignment",
            [&](std::uint64_t i, mc::Ctx& c) {
              const auto a = ops[i / K];
              const auto b = ops[i % K];
              const auto d = str(a) + " , " + str(b);
              c.sample(d);
              c.state(h(a) * 31 + h(b));
              c.trans(8);
              const auto A = lib(a);
              const auto B = lib(b);
              const auto add = mk(a.n * b.d + b.n * a.d, a.d * b.d);
              const auto sub = mk(a.n * b.d - b.n * a.d, a.d * b.d);
              const auto mul = mk(a.n * b.n, a.d * b.d);
              c.check(same(A + B, add), "add", d + " -> " + str(A + B));
              c.check(same(A - B, sub), "sub", d + " -> " + str(A - B));
              c.check(same(A * B, mul), "mul", d + " -> " + str(A * B));
              auto x = A;
              x += B;
              c.check(same(x, add), "add=", d + " -> " + str(x));
              x = A;
              x -= B;
              c.check(same(x, sub), "sub=", d + " -> " + str(x));
              x = A;
              x *= B;
              c.check(same(x, mul), "mul=", d + " -> " + str(x));
              x = A;
              if (b.n != 0) {
                const auto div = mk(a.n * b.d, a.d * b.n);
                c.check(same(A / B, div), "div",
                        d + " -> " + str(A / B) + " expected " + str(div));
                x /= B;
                c.check(same(x, div), "div=", d + " -> " + str(x));
              } else {
                bool threw = false;
                try {
                  x /= B;
                } catch (const std::exception&) {
                  threw = true;
                }
                c.check(threw, "div0", d);
              }
              cmps(c, A, B, cmp(a, b), d);
              // self operations (aliasing)
              x = A;
              x += x;
              c.check(same(x, mk(2 * a.n, a.d)), "self-add", d);
              x = A;
              x -= x;
              c.check(same(x, mk(0, 1)), "self-sub", d);
            });
    const std::int64_t M = T ? 200 : 40;
    R.space("ints", K * (2 * M + 1),
            "all reduced fractions with all integers of magnitude <= " +
                std::to_string(M) + " on either side",
            [&](std::uint64_t i, mc::Ctx& c) {
              const auto a = ops[i % K];
              const auto k = static_cast<std::int64_t>(i / K) - M;
              const auto A = lib(a);
              const auto d = str(a) + " , int " + std::to_string(k);
              c.sample(d);
              c.trans(10);
              const auto e = [&](const PiRational& p, I n, I dd,
                                 const char* key) {
                const auto m = mk(n, dd);
                c.state(h(m));
                c.check(same(p, m), key,
                        d + " -> " + str(p) + " expected " + str(m));
              };
              e(A + k, a.n + k * a.d, a.d, "add-int");
              e(k + A, a.n + k * a.d, a.d, "int-add");
              e(A - k, a.n - k * a.d, a.d, "sub-int");
              e(k - A, k * a.d - a.n, a.d, "int-sub");
              e(A * k, a.n * k, a.d, "mul-int");
              e(k * A, a.n * k, a.d, "int-mul");
              auto x = A;
              x += k;
              e(x, a.n + k * a.d, a.d, "add=int");
              x = A;
              x -= k;
              e(x, a.n - k * a.d, a.d, "sub=int");
              x = A;
              x *= k;
              e(x, a.n * k, a.d, "mul=int");
              if (k != 0) {
                e(A / k, a.n, a.d * k, "div-int");
                x = A;
                x /= k;
                e(x, a.n, a.d * k, "div=int");
              }
              if (a.n != 0) {
                e(k / A, k * a.d, a.n, "int-div");
              }
              // comparison with the integer itself (not reduced)
              const I l = a.n;
              const I r = static_cast<I>(k) * a.d;
              const int o = l < r ? -1 : (l > r ? 1 : 0);
              cmps(c, A, k, o, d);
              cmps(c, k, A, -o, d);
            });
  }
  {
    // histories: every sequence of compound operations
    const auto ops = operands(T ? 5 : 4);
    struct Step {
      int kind;
      Q q;
      std::int64_t k;
    };
    std::vector<Step> al;
    for (const auto& q : ops) {
      al.push_back({0, q, 0});
      al.push_back({1, q, 0});
    }
    for (const std::int64_t k : {-3, -2, -1, 2, 3, 5}) {
      al.push_back({2, {}, k});
      al.push_back({3, {}, k});
      al.push_back({4, {}, k});
    }
    al.push_back({5, {}, 0});
    const std::size_t L = T ? 4 : 3;
    R.space("histories", mc::seqCount(al.size(), L),
            "all sequences of <= " + std::to_string(L) + " in-place operations "
            "over " + std::to_string(al.size()) + " operations",
            [&](std::uint64_t i, mc::Ctx& c) {
              const auto seq = mc::seqAt(i, al.size());
              PiRational x(1, 4);
              Q m = mk(1, 4);
              std::string d = "1/4";
              for (const auto sI : seq) {
                const auto& st = al[sI];
                c.trans();
                switch (st.kind) {
                case 0:
                  x += lib(st.q);
                  m = mk(m.n * st.q.d + st.q.n * m.d, m.d * st.q.d);
                  d += " += " + str(st.q);
                  break;
                case 1:
                  x -= lib(st.q);
                  m = mk(m.n * st.q.d - st.q.n * m.d, m.d * st.q.d);
                  d += " -= " + str(st.q);
                  break;
                case 2:
                  x *= st.k;
                  m = mk(m.n * st.k, m.d);
                  d += " *= " + std::to_string(st.k);
                  break;
                case 3:
                  x /= st.k;
                  m = mk(m.n, m.d * st.k);
                  d += " /= " + std::to_string(st.k);
                  break;
                case 4:
                  x += st.k;
                  m = mk(m.n + st.k * m.d, m.d);
                  d += " += " + std::to_string(st.k);
                  break;
                default:
                  x = -x;
                  m = mk(-m.n, m.d);
                  d += " neg";
                }
                c.state(h(m));
                if (!c.checkf(same(x, m), "history", [&] {
                      return d + " -> " + str(x) + " expected " + str(m);
                    })) {
                  return;
                }
              }
              c.sample(d + " = " + str(m));
            });
  }
  {
    // doubles k*pi/d: exact for unit fractions and for multiples of pi/4,
    // otherwise close
    const int D = T ? 512 : 64;
    const int N = T ? 256 : 130;
    R.space("angles", static_cast<std::uint64_t>(D) * (2 * N + 1),
            "angles k*pi/d, d<=" + std::to_string(D) + ", |k|<=" +
                std::to_string(N),
            [&](std::uint64_t i, mc::Ctx& c) {
              mc::Digits g(i);
              const auto d = static_cast<std::int64_t>(g.take(D)) + 1;
              const auto k = static_cast<std::int64_t>(g.take(2 * N + 1)) - N;
              const double a =
                  static_cast<double>(k) * zx::PI / static_cast<double>(d);
              const auto m = mk(k, d);
              const PiRational p(a);
              const auto txt = std::to_string(k) + "*pi/" + std::to_string(d) +
                               " -> " + str(p) + " expected " + str(m);
              c.sample(txt);
              c.state(h(m));
              c.trans();
              double e = std::abs(p.toDoubleDivPi() - val(m));
              e = std::min(e, 2 - e);
              c.check(e < 2e-13 + std::abs(a) * 1e-15, "angle-close", txt);
              auto inRange = p.toDoubleDivPi();
              c.check(inRange > -1 - 1e-15 && inRange <= 1, "angle-range", txt);
              I dd = m.d;
              while (dd % 2 == 0) {
                dd /= 2;
              }
              const bool smallDyadic =
                  dd == 1 && m.d <= 4 && d <= 4 && std::abs(k) <= 2 * d;
              const bool unit = (m.n == 1 || m.n == -1) &&
                                std::abs(k) <= d; // a itself is +-pi/d
              if (smallDyadic || unit) {
                c.check(same(p, m), "angle-exact", txt);
              }
            });
    std::vector<double> xs;
    for (int e = -320; e <= 300; ++e) {
      for (const double f : {1., 1.5, 3.14159265358979, 7.77, 9.99}) {
        xs.push_back(f * std::pow(10., e));
        xs.push_back(-f * std::pow(10., e));
        xs.push_back(zx::PI * f * std::pow(10., e));
      }
    }
    for (int e = -60; e <= 60; ++e) {
      xs.push_back(zx::PI * std::pow(2., e));
      xs.push_back(-zx::PI * std::pow(2., e));
      for (int dlt = -2; dlt <= 2; ++dlt) {
        xs.push_back(zx::PI / (std::pow(2., e) + dlt));
      }
    }
    R.space("doubles", xs.size(),
            "double angles of every decimal and binary order of magnitude",
            [&](std::uint64_t i, mc::Ctx& c) {
              const double a = xs[i];
              if (!std::isfinite(a)) {
                c.skip();
                return;
              }
              c.trans();
              std::stringstream ss;
              ss.precision(17);
              ss << a;
              c.sample(ss.str());
              try {
                const PiRational p(a);
                ss << " -> " << p;
                const double r = p.toDoubleDivPi();
                c.check(r > -1 - 1e-15 && r <= 1, "double-range", ss.str());
                c.state(mc::hashStr(str(p)));
                if (std::abs(a) < 1e6) {
                  // beyond this the reduced angle carries no meaningful digits
                  const double w = std::remainder(a / zx::PI, 2.);
                  double e = std::abs(w - r);
                  e = std::min(e, 2 - e);
                  c.check(e < 2e-13 + std::abs(a) * 1e-15, "double-close",
                          ss.str());
                }
              } catch (const std::exception& e) {
                c.fail("double-throws", ss.str() + ": " + e.what());
              }
            });
  }
  R.assume("angles are compared with the documented tolerance 1e-13 plus the "
           "rounding error of the input double; exactness is required for "
           "+-pi/d and for multiples of pi/4 within [-2 pi, 2 pi]");
  return R.finish();
}
