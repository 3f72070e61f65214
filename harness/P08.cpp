// P08: symbolic parameters behave like the numbers substituted for them.
#include "circ.hpp"
#include "ir/operations/Expression.hpp"
#include "ir/operations/SymbolicOperation.hpp"
#include "mc.hpp"
#include "ref.hpp"
#include "zx/Rational.hpp"
#include "zx/ZXDefinitions.hpp"

#include <optional>
#include <type_traits>

using namespace qc;
namespace {
constexpr double TPI = 2 * 3.14159265358979323846;
const sym::Variable& var(std::size_t i) {
  static const std::vector<sym::Variable> v{
      sym::Variable("x"), sym::Variable("y"), sym::Variable("z")};
  return v[i];
}
const char* const VN[] = {"x", "y", "z"};

//----------------------------------------------------------------- expressions
// reference: linear form over the variables
struct Lin {
  std::array<double, 3> k{};
  double c = 0;
};
double wrap(double a) {
  a = std::fmod(a, TPI);
  if (a > TPI / 2) {
    a -= TPI;
  } else if (a <= -TPI / 2) {
    a += TPI;
  }
  return a;
}

template <class U> struct Algebra {
  using E = sym::Expression<double, U>;
  using T = sym::Term<double>;
  static constexpr bool ang = !std::is_same_v<U, double>;
  using Any = std::variant<double, T, E, U>;
  struct Val {
    int kind = 0; // 0 number, 1 term, 2 expression, 3 constant (only angular)
    std::optional<T> t;
    E e;
    double n = 0;
    U u{};
    Lin l;
    std::string s;
  };
  static U mk(double a) {
    if constexpr (ang) {
      return U(a);
    } else {
      return a;
    }
  }
  static void norm(Lin& l) {
    if (ang) {
      l.c = wrap(l.c);
    }
  }
  static Val num(double n) {
    Val v;
    v.kind = 0;
    v.n = n;
    v.l.c = n;
    v.s = std::to_string(n).substr(0, 5);
    return v;
  }
  static Val cst(double a) {
    Val v;
    v.kind = 3;
    v.u = mk(a);
    v.l.c = a;
    v.s = "angle" + std::to_string(a).substr(0, 5);
    return v;
  }
  static Val term(std::size_t i, double k) {
    Val v;
    v.kind = 1;
    v.t = T(var(i), k);
    v.l.k[i] = k;
    v.s = std::to_string(k).substr(0, 4) + VN[i];
    return v;
  }
  // an expression, built through one of its constructors
  static Val expr(const std::vector<std::pair<std::size_t, double>>& ts,
                  double con, int how) {
    Val v;
    v.kind = 2;
    std::vector<T> tv;
    v.s = "E" + std::to_string(how) + "(";
    for (const auto& [i, k] : ts) {
      tv.emplace_back(var(i), k);
      v.l.k[i] += k;
      v.s += std::to_string(k).substr(0, 4) + VN[i] + ",";
    }
    v.l.c = con;
    v.s += std::to_string(con).substr(0, 5) + ")";
    if (how == 0) {
      v.e = E(tv, mk(con));
    } else {
      if (tv.size() == 1) {
        v.e = E(tv[0]);
      } else if (tv.size() == 2) {
        v.e = E(tv[0], tv[1]);
      } else if (tv.size() == 3) {
        v.e = E(tv[0], tv[1], tv[2]);
      }
      v.e.setConst(mk(con));
    }
    norm(v.l);
    return v;
  }
  static std::vector<Val> leaves(bool big) {
    std::vector<Val> r{num(2),
                       num(-0.5),
                       term(0, 1),
                       term(1, -2),
                       expr({{0, 1}}, ang ? TPI / 8 : 1, 1),
                       expr({{1, -1}, {0, 1}}, ang ? -TPI / 4 : 0.5, 0),
                       expr({{0, 1}, {0, -1}, {1, 0.5}}, 0, 0),
                       expr({}, ang ? TPI / 2 : 3, 0)};
    if (ang) {
      r.push_back(cst(TPI / 4));
    }
    if (big) {
      r.push_back(num(0));
      r.push_back(term(0, -1));
      r.push_back(term(2, 0.5));
      r.push_back(expr({{2, 3}, {1, 1}, {0, -1}}, 0, 1));
      r.push_back(expr({}, 0, 1));
      if (ang) {
        r.push_back(cst(TPI / 2));
      }
    }
    return r;
  }
  struct Refused {};
  // lhs op rhs; nullopt if the library offers no such operator or the
  // operation is not linear
  static std::optional<Val> apply(const Val& a, const Val& b, int op) {
    Val r;
    r.s = "(" + a.s + " " + "+-*/"[op] + " " + b.s + ")";
    const bool bc = b.l.k == std::array<double, 3>{};
    const bool ac = a.l.k == std::array<double, 3>{};
    for (int i = 0; i < 3; ++i) {
      switch (op) {
      case 0:
        r.l.k[i] = a.l.k[i] + b.l.k[i];
        break;
      case 1:
        r.l.k[i] = a.l.k[i] - b.l.k[i];
        break;
      case 2:
        r.l.k[i] = a.l.k[i] * b.l.c + a.l.c * b.l.k[i];
        break;
      default:
        r.l.k[i] = a.l.k[i] / b.l.c;
      }
    }
    r.l.c = op == 0   ? a.l.c + b.l.c
            : op == 1 ? a.l.c - b.l.c
            : op == 2 ? a.l.c * b.l.c
                      : a.l.c / b.l.c;
    (void)bc;
    (void)ac;
    norm(r.l);
    r.kind = 2;
    const auto div0 = op == 3 && std::abs(b.l.c) < 1e-9;
    switch (op) {
    case 0:
      if (a.kind == 2 && b.kind == 2) {
        r.e = a.e + b.e;
      } else if (a.kind == 2 && b.kind == 1) {
        r.e = a.e + *b.t;
      } else if (a.kind == 1 && b.kind == 2) {
        r.e = *a.t + b.e;
      } else if (a.kind == 2 && b.kind == 3) {
        r.e = a.e + b.u;
      } else if (a.kind == 3 && b.kind == 2) {
        r.e = a.u + b.e;
      } else if (a.kind == 2 && b.kind == 0 && !ang) {
        if constexpr (!ang) {
          r.e = a.e + b.n;
        }
      } else if (a.kind == 0 && b.kind == 2) {
        r.e = a.n + b.e;
      } else {
        return std::nullopt;
      }
      return r;
    case 1:
      if (a.kind == 2 && b.kind == 2) {
        r.e = a.e - b.e;
      } else if (a.kind == 2 && b.kind == 1) {
        r.e = a.e - *b.t;
      } else if (a.kind == 1 && b.kind == 2) {
        r.e = *a.t - b.e;
      } else if (a.kind == 2 && b.kind == 3) {
        r.e = a.e - b.u;
      } else if (a.kind == 3 && b.kind == 2) {
        r.e = a.u - b.e;
      } else if (a.kind == 2 && b.kind == 0 && !ang) {
        if constexpr (!ang) {
          r.e = a.e - b.n;
        }
      } else if (a.kind == 0 && b.kind == 2 && !ang) {
        if constexpr (!ang) {
          r.e = a.n - b.e;
        }
      } else {
        return std::nullopt;
      }
      return r;
    case 2:
      if (a.kind == 2 && b.kind == 0) {
        r.e = a.e * b.n;
      } else if (a.kind == 0 && b.kind == 2) {
        r.e = a.n * b.e;
      } else if (a.kind == 1 && b.kind == 0) {
        r.kind = 1;
        r.t = *a.t * b.n;
      } else if (a.kind == 0 && b.kind == 1) {
        r.kind = 1;
        r.t = a.n * *b.t;
      } else if (ang && a.kind == 2 && b.kind == 3) {
        r.e = a.e * b.u;
      } else if (ang && a.kind == 3 && b.kind == 2) {
        r.e = a.u * b.e;
      } else {
        return std::nullopt;
      }
      return r;
    default:
      if (a.kind == 2 && b.kind == 0) {
        if (div0) {
          throwCheck([&] { r.e = a.e / b.n; });
        }
        r.e = a.e / b.n;
      } else if (a.kind == 1 && b.kind == 0 && !div0) {
        r.kind = 1;
        r.t = *a.t / b.n;
      } else {
        return std::nullopt;
      }
      return r;
    }
  }
  template <class F> static void throwCheck(F&& f) {
    try {
      f();
    } catch (const std::exception&) {
      throw Refused{};
    }
    throw std::logic_error("division by zero was accepted");
  }
  static Val neg(const Val& a) {
    Val r = a;
    r.s = "-" + a.s;
    for (auto& k : r.l.k) {
      k = -k;
    }
    r.l.c = -r.l.c;
    norm(r.l);
    if (a.kind == 1) {
      r.t = -*a.t;
    } else if (a.kind == 2) {
      r.e = -a.e;
    } else if (a.kind == 3) {
      r.u = -a.u;
    } else {
      r.n = -a.n;
    }
    return r;
  }
  static void verify(mc::Ctx& c, const Val& v) {
    static const std::vector<std::array<double, 3>> as{
        {0, 0, 0}, {1, 0.25, -2}, {-0.7, 3, 0.5}};
    auto m = [&] {
      std::ostringstream s;
      s << v.s << " became ";
      if (v.kind == 1) {
        s << *v.t;
      } else {
        s << v.e;
      }
      return s.str();
    };
    std::uint64_t h = 7;
    for (const auto& a : as) {
      const VariableAssignment asg{
          {var(0), a[0]}, {var(1), a[1]}, {var(2), a[2]}};
      double want = v.l.c;
      for (int i = 0; i < 3; ++i) {
        want += v.l.k[i] * a[i];
      }
      const double got =
          v.kind == 1 ? v.t->evaluate(asg) : v.e.evaluate(asg);
      c.trans();
      const double d = ang ? std::abs(wrap(got - want)) : std::abs(got - want);
      c.checkf(d < 1e-7 || (ang && std::abs(d - TPI) < 1e-7), "expr:value", [&] {
        return m() + " which is " + std::to_string(got) + " instead of " +
               std::to_string(want);
      });
      h = mc::mix(h ^ static_cast<std::uint64_t>(std::llround(want * 1e6)));
    }
    c.state(h);
    if (v.kind == 2) {
      const auto vars = v.e.getVariables();
      bool miss = false;
      for (std::size_t i = 0; i < 3; ++i) {
        c.checkf(vars.count(var(i)) == (std::abs(v.l.k[i]) > 1e-9 ? 1U : 0U),
                 "expr:variables", m);
        if (std::abs(v.l.k[i]) > 1e-9) {
          VariableAssignment part;
          for (std::size_t j = 0; j < 3; ++j) {
            if (j != i) {
              part.emplace(var(j), 1.);
            }
          }
          try {
            (void)v.e.evaluate(part);
            miss = true;
          } catch (const sym::SymbolicException&) {
          }
        }
      }
      c.checkf(!miss, "expr:missing", m);
      const bool isC = v.l.k == std::array<double, 3>{};
      c.checkf(v.e.isConstant() == isC, "expr:constant", m);
    }
  }
};

template <class U>
void exprSpaces(mc::Runner& r, const std::string& nm) {
  using A = Algebra<U>;
  using Val = typename A::Val;
  const auto lv = A::leaves(true);
  const auto sm = A::leaves(r.thorough);
  // all values of depth 1
  std::vector<Val> d1 = sm;
  for (const auto& a : sm) {
    if (a.kind != 0) {
      d1.push_back(A::neg(a));
    }
    for (const auto& b : sm) {
      for (int op = 0; op < 4; ++op) {
        try {
          if (auto v = A::apply(a, b, op)) {
            d1.push_back(*v);
          }
        } catch (const typename A::Refused&) {
        } catch (const std::exception&) {
        }
      }
    }
  }
  const std::size_t nd = d1.size();
  const auto& other = r.thorough ? d1 : lv;
  const std::size_t no = other.size();
  r.space("expr-" + nm, nd * no * 8,
          "all expression trees (depth-1 tree op " +
              std::string(r.thorough ? "depth-1 tree" : "leaf") +
              ", both orders) over numbers, terms, expressions and constants "
              "with + - * /",
          [&](std::uint64_t i, mc::Ctx& c) {
            const int op = static_cast<int>(i % 4);
            const bool swp = (i / 4) % 2 == 1;
            const auto& a = d1[(i / 8) % nd];
            const auto& b = other[i / 8 / nd];
            std::optional<Val> v;
            try {
              v = swp ? A::apply(b, a, op) : A::apply(a, b, op);
            } catch (const typename A::Refused&) {
              c.trans();
              return;
            }
            if (!v) {
              c.skip();
              return;
            }
            A::verify(c, *v);
            A::verify(c, A::neg(*v));
            c.sample(v->s);
          });
  // equality of all pairs
  std::vector<Val> es;
  for (const auto& v : d1) {
    if (v.kind == 2) {
      es.push_back(v);
    }
  }
  const std::size_t ne = es.size();
  r.space("equal-" + nm, ne * ne,
          "all pairs of depth-1 expressions: equal expressions evaluate equally, "
          "every expression equals its copy",
          [&](std::uint64_t i, mc::Ctx& c) {
            const auto& a = es[i % ne];
            const auto& b = es[i / ne];
            c.trans();
            bool same = true;
            for (int k = 0; k < 3; ++k) {
              same = same && std::abs(a.l.k[k] - b.l.k[k]) < 1e-8;
            }
            const auto d = std::abs(A::ang ? wrap(a.l.c - b.l.c)
                                           : a.l.c - b.l.c);
            same = same && d < 1e-8;
            auto m = [&] { return a.s + " vs " + b.s; };
            if (a.e == b.e) {
              c.checkf(same, "equal:unsound", m);
            }
            c.checkf((a.e == b.e) == (b.e == a.e) &&
                         (a.e == b.e) == !(a.e != b.e),
                     "equal:symmetry", m);
            if (i % ne == i / ne) {
              const auto copy = a.e;
              c.checkf(copy == a.e, "equal:copy", m);
            }
          });
}

//--------------------------------------------------------------------- gates
struct G {
  OpType t;
  std::size_t nt, np;
};
const std::vector<G>& gates() {
  static const std::vector<G> g{
      {P, 1, 1},   {RX, 1, 1},  {RY, 1, 1},  {RZ, 1, 1},        {U2, 1, 2},
      {U, 1, 3},   {RXX, 2, 1}, {RYY, 2, 1}, {RZZ, 2, 1},       {RZX, 2, 1},
      {XXminusYY, 2, 2}, {XXplusYY, 2, 2}};
  return g;
}
void call(QuantumComputation& q, OpType t, const Controls& c,
          const std::vector<Qubit>& a, const std::vector<SymbolOrNumber>& p,
          int form) {
  const auto c1 = c.empty() ? Control{0} : *c.begin();
#define CASE1(T, n)                                                            \
  case T:                                                                      \
    form == 0 ? q.n(p[0], a[0])                                                \
    : form == 1 ? q.c##n(p[0], c1, a[0])                                       \
                : q.mc##n(p[0], c, a[0]);                                      \
    break;
#define CASE2(T, n)                                                            \
  case T:                                                                      \
    form == 0 ? q.n(p[0], a[0], a[1])                                          \
    : form == 1 ? q.c##n(p[0], c1, a[0], a[1])                                 \
                : q.mc##n(p[0], c, a[0], a[1]);                                \
    break;
#define CASE22(T, n)                                                           \
  case T:                                                                      \
    form == 0 ? q.n(p[0], p[1], a[0], a[1])                                    \
    : form == 1 ? q.c##n(p[0], p[1], c1, a[0], a[1])                           \
                : q.mc##n(p[0], p[1], c, a[0], a[1]);                          \
    break;
  switch (t) {
    CASE1(P, p)
    CASE1(RX, rx)
    CASE1(RY, ry)
    CASE1(RZ, rz)
  case U2:
    form == 0 ? q.u2(p[0], p[1], a[0])
    : form == 1 ? q.cu2(p[0], p[1], c1, a[0])
                : q.mcu2(p[0], p[1], c, a[0]);
    break;
  case U:
    form == 0 ? q.u(p[0], p[1], p[2], a[0])
    : form == 1 ? q.cu(p[0], p[1], p[2], c1, a[0])
                : q.mcu(p[0], p[1], p[2], c, a[0]);
    break;
    CASE2(RXX, rxx)
    CASE2(RYY, ryy)
    CASE2(RZZ, rzz)
    CASE2(RZX, rzx)
    CASE22(XXminusYY, xx_minus_yy)
    CASE22(XXplusYY, xx_plus_yy)
  default:
    throw std::logic_error("gate");
  }
}
std::vector<SymbolOrNumber> nums(const std::vector<double>& v) {
  return {v.begin(), v.end()};
}
// symbolic shapes that evaluate to a given value under a given assignment:
// x := first variable, y := second
struct Shape {
  Symbolic e;
  std::string s;
};
const std::vector<Shape>& shapes() {
  static const std::vector<Shape> v{
      {Symbolic(sym::Term<fp>(var(0))), "x"},
      {Symbolic(std::vector<sym::Term<fp>>{sym::Term<fp>(var(0), -1.)},
                PI / 2),
       "-x+pi/2"},
      {Symbolic(std::vector<sym::Term<fp>>{sym::Term<fp>(var(0), 2.),
                                           sym::Term<fp>(var(1), 1.)},
                0.),
       "2x+y"},
      {Symbolic(std::vector<sym::Term<fp>>{sym::Term<fp>(var(1), 0.5)}, -0.25),
       "y/2-0.25"},
      {Symbolic(PI), "const(pi)"},
  };
  return v;
}

constexpr int NCONT = 10;
const char* const CONT[NCONT] = {"call",
                                 "emplace_back",
                                 "group",
                                 "group of group",
                                 "classical control",
                                 "group in classical control",
                                 "classical control in group",
                                 "custom gate (asCompoundOperation)",
                                 "inverted",
                                 "inverted group"};
// put the gate (given by parameters) into a container in a new circuit
QuantumComputation build(const G& g, const std::vector<SymbolOrNumber>& p,
                         const Controls& ctl, int cont, bool asNumbers) {
  const std::size_t n = 4;
  QuantumComputation q(n, 2, 1);
  q.h(0);
  std::vector<Qubit> a{1};
  if (g.nt == 2) {
    a.push_back(3);
  }
  auto make = [&]() -> std::unique_ptr<Operation> {
    if (asNumbers) {
      std::vector<fp> v;
      for (const auto& x : p) {
        v.push_back(std::get<fp>(x));
      }
      return std::make_unique<StandardOperation>(ctl, a, g.t, v);
    }
    return std::make_unique<SymbolicOperation>(ctl, a, g.t, p);
  };
  auto group = [](std::unique_ptr<Operation> o) {
    auto r = std::make_unique<CompoundOperation>();
    r->emplace_back<StandardOperation>(Qubit{2}, OpType::S);
    r->emplace_back(std::move(o));
    return r;
  };
  switch (cont) {
  case 0:
  case 8:
    call(q, g.t, ctl, a, p,
         ctl.empty() ? 0 : (ctl.size() == 1 ? 1 : 2));
    break;
  case 1:
    q.emplace_back(make());
    break;
  case 2:
  case 9:
    q.emplace_back(group(make()));
    break;
  case 3:
    q.emplace_back(group(group(make())));
    break;
  case 4:
    q.classicControlled(SX, 0, 1);
    q.emplace_back(std::make_unique<ClassicControlledOperation>(
        make(), static_cast<Bit>(0), 1U));
    break;
  case 5:
    q.emplace_back(std::make_unique<ClassicControlledOperation>(
        group(make()), ClassicalRegister(0, 2, "c"), 2U));
    break;
  case 6:
    q.emplace_back(group(std::make_unique<ClassicControlledOperation>(
        make(), static_cast<Bit>(1), 0U)));
    break;
  case 7: {
    QuantumComputation in(n, 0, 1);
    in.emplace_back(make());
    in.x(0);
    q.emplace_back(in.asCompoundOperation());
    break;
  }
  default:
    break;
  }
  q.cx(0, 1);
  if (cont >= 8) {
    q.invert();
  }
  return q;
}
bool sameUnitary(const QuantumComputation& a, const QuantumComputation& b,
                 double& d) {
  try {
    d = ref::dist(ref::unitary(a, 4), ref::unitary(b, 4));
  } catch (const ref::Unsupported&) {
    d = 0;
    return true;
  }
  return d < 1e-9;
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P08");
  r.assume("numbers are substituted in double precision (tolerance 1e-9); "
           "scaling factors below the documented 1e-9 tolerance of expressions "
           "are not used; constants of angular expressions are angles modulo "
           "two pi");
  exprSpaces<double>(r, "real");
  exprSpaces<zx::PiRational>(r, "angle");

  // number / term is not linear
  r.space("number-by-term", 4, "number divided by a term, four number/term pairs",
          [&](std::uint64_t i, mc::Ctx& c) {
            const double n = i % 2 == 0 ? 2. : -0.5;
            const sym::Term<double> t(var(0), i / 2 == 0 ? 1. : 4.);
            c.trans();
            const auto q = n / t;
            const double x = 3.;
            const double want = n / (t.getCoeff() * x);
            c.checkf(std::abs(q.evaluate({{var(0), x}}) - want) < 1e-9,
                     "number-divided-by-term", [&] {
                       return std::to_string(n) + " / (" +
                              std::to_string(t.getCoeff()) + "*x) at x=3";
                     });
          });

  std::vector<Controls> ctls{{}, {Control{0}}, {Control{0, Control::Type::Neg}},
                             {Control{0}, Control{2, Control::Type::Neg}}};
  std::vector<double> grid{0., PI / 2, PI, -0.7};
  if (r.thorough) {
    for (const double x : {-PI / 2, PI / 4, 1.9, 2 * PI}) {
      grid.push_back(x);
    }
  }
  struct Case {
    std::size_t g;
    std::vector<int> par; // <0: number grid[-1-k]; >=0: shape
  };
  std::vector<Case> cases;
  for (std::size_t g = 0; g < gates().size(); ++g) {
    const int ns = static_cast<int>(shapes().size());
    const int k = ns + static_cast<int>(grid.size());
    std::size_t tot = 1;
    for (std::size_t j = 0; j < gates()[g].np; ++j) {
      tot *= static_cast<std::size_t>(k);
    }
    for (std::size_t i = 0; i < tot; ++i) {
      Case cs{g, {}};
      std::size_t x = i;
      bool any = false;
      for (std::size_t j = 0; j < gates()[g].np; ++j) {
        const int v = static_cast<int>(x % static_cast<std::size_t>(k));
        x /= static_cast<std::size_t>(k);
        any = any || v < ns;
        cs.par.push_back(v < ns ? v : -1 - (v - ns));
      }
      if (any) {
        cases.push_back(cs);
      }
    }
  }
  // assignments of x and y
  const std::size_t na = grid.size() * grid.size();
  r.space(
      "gates", cases.size() * ctls.size() * NCONT * na,
      "every parametrised gate x every choice of numbers/expressions per "
      "parameter x controls x " +
          std::to_string(NCONT) + " containers x " + std::to_string(na) +
          " assignments (x,y)",
      [&](std::uint64_t i, mc::Ctx& c) {
        const auto ai = i % na;
        i /= na;
        const int cont = static_cast<int>(i % NCONT);
        i /= NCONT;
        const auto& ctl = ctls[i % ctls.size()];
        const auto& cs = cases[i / ctls.size()];
        const auto& g = gates()[cs.g];
        VariableAssignment asg{{var(0), grid[ai % grid.size()]},
                               {var(1), grid[ai / grid.size()]},
                               {var(2), 17.}};
        std::vector<SymbolOrNumber> sp;
        std::vector<double> np;
        std::unordered_set<sym::Variable> vs;
        std::string d = toString(g.t) + "(";
        for (const int k : cs.par) {
          if (k < 0) {
            np.push_back(grid[static_cast<std::size_t>(-1 - k)]);
            sp.emplace_back(np.back());
            d += std::to_string(np.back()) + ",";
          } else {
            const auto& s = shapes()[static_cast<std::size_t>(k)];
            sp.emplace_back(s.e);
            np.push_back(s.e.evaluate(asg));
            d += s.s + ",";
            for (const auto& v : s.e.getVariables()) {
              vs.insert(v);
            }
          }
        }
        auto q = build(g, sp, ctl, cont, false);
        const auto want = build(g, nums(np), ctl, cont, true);
        auto m = [&](const QuantumComputation& x) {
          return d + ") controls " + std::to_string(ctl.size()) + " in " +
                 CONT[cont] + " x=" + std::to_string(asg.at(var(0))) +
                 " y=" + std::to_string(asg.at(var(1))) + ": got " +
                 ref::qcStr(x) + " wanted " + ref::qcStr(want);
        };
        c.trans();
        if (ai == 0) {
          c.checkf(q.getVariables() == vs, "gates:variables",
                   [&] { return m(q); });
          c.checkf(q.isVariableFree() == vs.empty() ||
                       (vs.empty() && !q.isVariableFree()),
                   "gates:free", [&] { return m(q); });
        }
        // missing values
        for (const auto& v : vs) {
          if (ai != 0) {
            break;
          }
          auto part = asg;
          part.erase(v);
          auto q2 = q;
          bool threw = false;
          try {
            q2.instantiateInplace(part);
          } catch (const std::exception&) {
            threw = true;
          }
          c.checkf(threw, "gates:missing-accepted", [&] { return m(q2); });
          c.checkf(q2 == q && q2.getVariables() == q.getVariables() &&
                       ref::qcStr(q2) == ref::qcStr(q),
                   "gates:missing-changed", [&] { return m(q2); });
        }
        const auto before = q;
        const auto inst = q.instantiate(asg);
        c.checkf(q == before, "gates:original-changed", [&] { return m(q); });
        c.checkf(inst.isVariableFree() && inst.getVariables().empty(),
                 "gates:still-symbolic", [&] { return m(inst); });
        if (cont < 8) { // inverting numbers may simplify the gate
          c.checkf(ref::qcStr(inst) == ref::qcStr(want), "gates:text",
                   [&] { return m(inst); });
          c.checkf(inst == want, "gates:equal", [&] { return m(inst); });
        }
        double dd = 0;
        c.checkf(sameUnitary(inst, want, dd), "gates:unitary", [&] {
          return m(inst) + " distance " + std::to_string(dd);
        });
        q.instantiateInplace(asg);
        c.checkf(q == inst, "gates:inplace", [&] { return m(q); });
        c.state(mc::hashStr(ref::qcStr(inst)));
        if (c.wantSample()) {
          c.sample(m(inst));
        }
      });

  // histories: several symbolic operations, erased operations, several
  // instantiations
  const std::size_t A = 13;
  const std::size_t L = r.thorough ? 6 : 5;
  const std::size_t total = mc::seqCount(A, L, 1);
  r.space(
      "histories", total,
      "all sequences of up to " + std::to_string(L) +
          " of 13 edits (adding symbolic gates with x, y, x+y, -x, numbers, in groups, "
          "under classical control; deleting; instantiating x, y or both)",
      [&](std::uint64_t i, mc::Ctx& c) {
        const auto seq = mc::seqAt(i, A, 1);
        QuantumComputation q(2, 1, 1);
        const auto x = shapes()[0].e;
        const auto y = Symbolic(sym::Term<fp>(var(1)));
        const VariableAssignment ax{{var(0), 0.3}};
        const VariableAssignment ay{{var(1), -1.1}};
        const VariableAssignment axy{{var(0), 0.3}, {var(1), -1.1}};
        // model: one entry per operation: set of free variables (bitmask), and
        // the numeric operation it stands for
        struct M {
          int vars;
          std::unique_ptr<Operation> op;
        };
        std::vector<M> mod;
        std::string h;
        auto symop = [](const Symbolic& e) {
          return std::make_unique<SymbolicOperation>(
              Qubit{0}, RX, std::vector<SymbolOrNumber>{e});
        };
        auto numop = [](double v) {
          return std::make_unique<StandardOperation>(Qubit{0}, RX,
                                                     std::vector<fp>{v});
        };
        auto grp = [](std::unique_ptr<Operation> o) {
          auto k = std::make_unique<CompoundOperation>();
          k->emplace_back(std::move(o));
          return k;
        };
        for (const auto s : seq) {
          h += std::to_string(s) + " ";
          auto free = [&] {
            int f = 0;
            for (const auto& e : mod) {
              f |= e.vars;
            }
            return f;
          };
          auto inst = [&](const VariableAssignment& a, int have) {
            bool threw = false;
            const auto old = q;
            try {
              q.instantiateInplace(a);
            } catch (const std::exception&) {
              threw = true;
            }
            const bool refuse = (free() & ~have) != 0;
            c.checkf(threw == refuse, "hist:refusal", [&] { return h; });
            if (refuse) {
              c.checkf(old == q && ref::qcStr(old) == ref::qcStr(q),
                       "hist:changed", [&] { return h + ref::qcStr(q); });
            } else {
              for (auto& e : mod) {
                e.vars = 0;
              }
            }
          };
          switch (s) {
          case 0:
            q.rx(x, 0);
            mod.push_back({1, numop(0.3)});
            break;
          case 1:
            q.rx(y, 0);
            mod.push_back({2, numop(-1.1)});
            break;
          case 2:
            q.rx(x + y, 0);
            mod.push_back({3, numop(0.3 - 1.1)});
            break;
          case 3:
            q.rx(0.9, 0);
            mod.push_back({0, numop(0.9)});
            break;
          case 4:
            q.emplace_back(symop(-x));
            mod.push_back({1, numop(-0.3)});
            break;
          case 5:
            q.emplace_back(grp(symop(y)));
            mod.push_back({2, grp(numop(-1.1))});
            break;
          case 6:
            q.emplace_back(std::make_unique<ClassicControlledOperation>(
                symop(x), static_cast<Bit>(0), 1U));
            mod.push_back({1, std::make_unique<ClassicControlledOperation>(
                                  numop(0.3), static_cast<Bit>(0), 1U)});
            break;
          case 7: {
            std::unique_ptr<Operation> o = symop(x);
            q.insert(q.begin(), std::move(o));
            mod.insert(mod.begin(), M{1, numop(0.3)});
            break;
          }
          case 8:
            if (mod.empty()) {
              c.skip();
              return;
            }
            q.erase(q.begin());
            mod.erase(mod.begin());
            break;
          case 9:
            if (mod.empty()) {
              c.skip();
              return;
            }
            q.pop_back();
            mod.pop_back();
            break;
          case 10:
            inst(ax, 1);
            break;
          case 11:
            inst(ay, 2);
            break;
          default:
            inst(axy, 3);
          }
          c.trans();
          std::unordered_set<sym::Variable> vs;
          if ((free() & 1) != 0) {
            vs.insert(var(0));
          }
          if ((free() & 2) != 0) {
            vs.insert(var(1));
          }
          c.checkf(q.getVariables() == vs, "hist:variables", [&] {
            return h + "has " + std::to_string(q.getVariables().size()) +
                   " variables instead of " + std::to_string(vs.size());
          });
          c.checkf(q.isVariableFree() == vs.empty(), "hist:free",
                   [&] { return h; });
          const auto cp = q;
          c.checkf(cp == q && cp.getVariables() == vs, "hist:copy",
                   [&] { return h; });
        }
        const auto fin = q.instantiate(axy);
        bool same = fin.getNops() == mod.size() && fin.isVariableFree();
        for (std::size_t k = 0; same && k < mod.size(); ++k) {
          same = *fin.at(k) == *mod[k].op;
        }
        c.checkf(same, "hist:result", [&] { return h + ref::qcStr(fin); });
        c.state(mc::hashStr(ref::qcStr(q)));
        if (c.wantSample()) {
          c.sample(h);
        }
      });
  return r.finish();
}
