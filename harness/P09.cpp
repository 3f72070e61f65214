// P09: the importer accepts or rejects every text without crashing or hanging.
// Built with the address and undefined behaviour sanitizers; every case runs
// in a supervised process, so that crashes, sanitizer reports and hangs are
// attributed to the text that caused them.
#include "circ.hpp"
#include "qasm3/Importer.hpp"

#include <filesystem>
#include <fstream>
#include <iostream>
#include <unistd.h>

namespace {
using Strs = std::vector<std::string>;

enum class Out { Read, Rejected };
Out import(mc::Ctx& c, const std::string& text, const std::string& key) {
  c.trans();
  c.state(mc::hashStr(text));
  std::cerr.setstate(std::ios::failbit);
  std::cout.setstate(std::ios::failbit);
  auto out = Out::Rejected;
  bool known = true;
  try {
    const auto q = qasm3::Importer::imports(text);
    // whatever is returned has to be usable
    std::size_t n = 0;
    for (const auto& op : q) {
      for (const auto u : op->getUsedQubits()) {
        n += u;
      }
    }
    std::stringstream ss;
    q.print(ss);
    n += ss.str().size();
    c.state(n);
    out = Out::Read;
  } catch (const std::exception&) {
  } catch (...) {
    known = false;
  }
  std::cerr.clear();
  std::cout.clear();
  c.check(known, key + ":unknown-exception", text);
  return out;
}

const Strs& vocab() {
  static const Strs v = {
      "q",      "c",       "k",     "g",       "x",      "a",      "0",
      "1",      "2",       "-1",    "0.5",     "pi",     "(",      ")",
      "[",      "]",       "{",     "}",       ",",      ";",      ":",
      "@",      "->",      "=",     "==",      "!=",     "<",      "+",
      "-",      "*",       "/",     "**",      "!",      "~",      "ctrl",
      "negctrl", "inv",    "pow",   "gphase",  "U",      "measure", "reset",
      "barrier", "if",     "else",  "gate",    "opaque", "const",  "int",
      "uint",   "float",   "bool",  "bit",     "qubit",  "creg",   "qreg",
      "angle",  "duration", "true", "sin",     "sqrt",   "\"s\"",  "include",
      "OPENQASM", "+=",    "$1",    "10ns",    "&&",     "<<",     "%",
      "im",     ".",       "#",     "for",     "^",      "// i 1 0\n"};
  return v;
}
const Strs& small() {
  static const Strs v = {"q",  "c", "k", "g", "0",  "1",    "2",       "(",
                         ")",  "[", "]", "{", "}",  ",",    ";",       ":",
                         "@",  "=", "-", "==", "!", "ctrl", "measure", "if",
                         "const", "uint", "bit"};
  return v;
}

const char* PRE = "OPENQASM 3.0;\nqubit[2] q;\nbit[2] c;\nconst int k = 1;\n"
                  "gate g(a) r, s { rx(a) r; ctrl @ x r, s; }\n";
struct Site {
  const char* name;
  std::string before;
  std::string after;
};
std::vector<Site> sites() {
  const std::string p = PRE;
  return {{"start", "", ""},
          {"version2", "OPENQASM 2.0;\ninclude \"qelib1.inc\";\nqreg q[2];\n"
                       "creg c[2];\n",
           ""},
          {"statement", p, ""},
          {"statement;", p, ";"},
          {"gate body", p + "gate h2(b) t, u { ", " }\nh2(1) q[0], q[1];"},
          {"gate head", p + "gate ", " { x r; }"},
          {"if body", p + "if (c[0]) { ", " }"},
          {"else body", p + "if (c == 1) { x q[0]; } else ", ""},
          {"condition", p + "if (", ") x q[0];"},
          {"parameter", p + "rx(", ") q[0];"},
          {"operands", p + "cx ", ";"},
          {"index", p + "x q[", "];"},
          {"modified", p + "ctrl @ ", " q[0], q[1];"},
          {"modifier", p + "ctrl(", ") @ x q[0], q[1];"},
          {"declaration", p + "const ", " z = 1;"},
          {"designator", p + "qubit[", "] z;"},
          {"initialiser", p + "const uint z = ", ";\nrx(z) q[0];"},
          {"assignment", p + "c[0] = ", ";"},
          {"assigned", p, " = measure q;"},
          {"measured", p + "measure ", " -> c;"},
          {"measured into", p + "measure q -> ", ";"},
          {"reset", p + "reset ", ";"},
          {"barrier", p + "barrier ", ";"}};
}

// a program for every construct of the language that is supported
const Strs& corpus() {
  static const Strs v = {
      "OPENQASM 2.0;\ninclude \"qelib1.inc\";\nqreg q[2];\ncreg c[2];\n"
      "u3(pi/2,0.1,-0.2) q[0];\ncx q[0],q[1];\nmeasure q -> c;\n"
      "if (c==2) x q[0];",
      "OPENQASM 3.0;\ninclude \"stdgates.inc\";\nqubit[3] q;\nbit[3] c;\n"
      "ctrl(2) @ negctrl @ inv @ rx(pi) q[0], q[1], q[2], q[3];",
      "OPENQASM 3.0;\nqubit[3] q;\nbit[3] c;\nc = measure q;\n"
      "if (c[0]) { x q[0]; } else { y q[1]; }\nif (!c[1]) z q[2];",
      "OPENQASM 3.0;\nqubit[2] q;\nbit[2] c;\nc[0] = measure q[0];\n"
      "measure q[1] -> c[1];\nif (c == 3) { x q[0]; reset q[1]; }\n"
      "if (c[0] == 1) x q; barrier q;",
      "gate a(x, y) p, r { rx(x + y) p; cx p, r; }\n"
      "gate b r, p { a(1, 2 * pi) p, r; inv @ a(-1, 0.5) r, p; }\n"
      "qubit[2] q;\nb q[0], q[1];\nctrl @ b q[0], q[1], q[2];",
      "const int n = 2;\nconst float f = 2 ** n - 1;\nqubit[n + 1] q;\n"
      "rz(-f / 3) q[n];\ngphase(sin(f));\nctrl @ gphase(ln(2)) q[n - 1];",
      "OPENQASM 2.0;\nqreg q[2];\ncreg c[1];\nopaque o(a) r;\n"
      "gate d(a) r { U(a, 0, 0) r; }\nd(1) q;\nCX q[0], q[1];\n"
      "barrier q[0], q[1];\nmeasure q[0] -> c[0];",
      "// i 1 0\n// o 0 1\nOPENQASM 3;\nqubit[2] q;\nbit[2] c;\n"
      "swap q[0], q[1];\nrzz(pi) q[0], q[1];\nc = measure q;",
      "bit[2] c = \"01\";\nqubit q;\nbool b;\nint[8] i;\nuint[4] u = 3;\n"
      "float[32] f;\nangle[10] e;\nx q;",
      "qubit[4] q;\nmcx q[0], q[1], q[2], q[3];\nccx q[0], q[1], q[2];\n"
      "mcp(pi) q[0], q[1];\nmcx_vchain q[0], q[1], q[2], q[3];\n"
      "rccx q[0], q[1], q[2];\nxx_minus_yy(1, 2) q[0], q[1];",
      "qubit q;\n/* block */ U(0x1F, 0b1_0, 1e-3) q; // comment\n"
      "pow(2) @ x q;\nx $0;",
      "qubit[2] q;\nbit[2] c;\nif (c[0] != 0) { if (c > 1) { x q[0]; } }\n"
      "bit b;\nb = measure q[0];\nif (b) { gphase(1); }"};
  return v;
}
// splits a program into tokens, blanks included in front of them
Strs tokens(const std::string& s) {
  Strs v;
  std::size_t i = 0;
  while (i < s.size()) {
    std::string t;
    while (i < s.size() && std::isspace(s[i]) != 0) {
      t += s[i++];
    }
    if (i < s.size() && (std::isalnum(s[i]) != 0 || s[i] == '_')) {
      while (i < s.size() && (std::isalnum(s[i]) != 0 || s[i] == '_')) {
        t += s[i++];
      }
    } else if (i + 1 < s.size() && s.compare(i, 2, "//") == 0) {
      while (i < s.size() && s[i] != '\n') {
        t += s[i++];
      }
    } else if (i + 1 < s.size() &&
               (s.compare(i, 2, "->") == 0 || s.compare(i, 2, "==") == 0 ||
                s.compare(i, 2, "!=") == 0 || s.compare(i, 2, "**") == 0)) {
      t += s.substr(i, 2);
      i += 2;
    } else if (i < s.size()) {
      t += s[i++];
    }
    v.push_back(t);
  }
  return v;
}
std::string join(const Strs& v) {
  std::string s;
  for (const auto& t : v) {
    s += t + " ";
  }
  return s;
}
std::string rep(const std::string& s, std::size_t n) {
  std::string r;
  r.reserve(s.size() * n);
  for (std::size_t i = 0; i < n; ++i) {
    r += s;
  }
  return r;
}
} // namespace

int main(int argc, char** argv) {
  mc::Runner r(argc, argv, "P09");
  r.assume("crashes are memory errors, undefined behaviour (as reported by the "
           "sanitizers), failed assertions and stack exhaustion with 8 MiB of "
           "stack; hangs are imports that take more than 10 seconds");
  r.assume("registers of at most 100 qubits and indices of hardware qubits of "
           "at most 100: the memory needed grows with their size by design");

  const auto st = sites();
  const auto& V = vocab();
  const auto& S = small();
  // every sequence of up to three tokens at every site
  const auto seqs = [&](const char* name, const Strs& T, std::size_t len) {
    std::uint64_t n = 1;
    for (std::size_t i = 0; i < len; ++i) {
      n *= T.size();
    }
    r.space(name, n * st.size(),
            std::to_string(len) + " of " + std::to_string(T.size()) +
                " tokens at " + std::to_string(st.size()) +
                " places of a program",
            [&, n, len](std::uint64_t idx, mc::Ctx& c) {
              const auto& s = st[idx / n];
              auto x = idx % n;
              std::string mid;
              for (std::size_t i = 0; i < len; ++i) {
                mid += T[x % T.size()] + " ";
                x /= T.size();
              }
              import(c, s.before + mid + s.after, s.name);
            },
            10);
  };
  seqs("one-token", V, 1);
  seqs("two-tokens", V, 2);
  seqs("three-tokens", S, 3);
  const Strs M(V.begin(), V.begin() + 52);
  const Strs T = {"q", "c",  "k", "0", "(", ")", "[",
                  "]", "{", "}", ",", ";", "=", "-"};
  if (r.thorough) {
    seqs("three-tokens-of-more", M, 3);
    seqs("four-tokens", T, 4);
  }

  // every edit of one token of every program of the corpus
  const auto& P = corpus();
  std::vector<std::pair<std::size_t, std::size_t>> pos;
  std::vector<Strs> toks;
  for (std::size_t i = 0; i < P.size(); ++i) {
    toks.push_back(tokens(P[i]));
    for (std::size_t j = 0; j < toks[i].size(); ++j) {
      pos.emplace_back(i, j);
    }
  }
  const auto edit = [&](Strs t, std::size_t j, std::uint64_t e) {
    if (e == 0) {
      t.erase(t.begin() + static_cast<std::ptrdiff_t>(j));
    } else if (e == 1) {
      t.insert(t.begin() + static_cast<std::ptrdiff_t>(j), t[j]);
    } else if (e == 2) {
      if (j + 1 < t.size()) {
        std::swap(t[j], t[j + 1]);
      }
    } else if (e == 3) {
      t.resize(j);
    } else if (e < 4 + V.size()) {
      t[j] = V[e - 4];
    } else {
      t.insert(t.begin() + static_cast<std::ptrdiff_t>(j), V[e - 4 - V.size()]);
    }
    return t;
  };
  const auto nEdits = 4 + 2 * V.size();
  r.space("edits", pos.size() * nEdits,
          "deletion, duplication, exchange, replacement and insertion of every "
          "token and truncation, at every token of " +
              std::to_string(P.size()) + " programs",
          [&](std::uint64_t idx, mc::Ctx& c) {
            const auto [i, j] = pos[idx / nEdits];
            import(c, join(edit(toks[i], j, idx % nEdits)), "edit");
          },
          10);
  // two edits, each a deletion, duplication or exchange, or one of four tokens
  {
    std::vector<std::uint64_t> es = {0, 1, 2};
    for (const auto* t : {"0", "q", "c", "k", "[", "-1", "x"}) {
      const auto it = std::find(V.begin(), V.end(), t);
      es.push_back(4 + static_cast<std::uint64_t>(it - V.begin()));
    }
    std::vector<std::array<std::size_t, 3>> pairs;
    for (std::size_t i = 0; i < P.size(); ++i) {
      const auto n = toks[i].size();
      for (std::size_t a = 0; a < n; ++a) {
        const auto end = std::min(n, a + (r.thorough ? 9 : 4));
        for (std::size_t b = a + 1; b < end; ++b) {
          pairs.push_back({i, a, b});
        }
      }
    }
    const auto ne = es.size();
    const auto count = r.thorough ? ne * ne : 9;
    r.space("two-edits", pairs.size() * count,
            "two edits of the tokens of a program, at " +
                std::string(r.thorough ? "places at most eight apart"
                                       : "places at most three apart"),
            [&, pairs, es, ne, count](std::uint64_t idx, mc::Ctx& c) {
              const auto& p = pairs[idx / count];
              const auto e = idx % count;
              const auto m = r.thorough ? ne : 3;
              auto t = edit(toks[p[0]], p[2], es[e % m]);
              t = edit(t, p[1], es[e / m]);
              import(c, join(t), "two edits");
            },
            10);
  }
  // every prefix of the texts, and every character replaced
  {
    const std::string ch("\0\n\t \"'/*-.$_0a9eEx;[](){}@#%\x7f\x80\xff\xc3", 32);
    std::vector<std::pair<std::size_t, std::size_t>> at;
    for (std::size_t i = 0; i < P.size(); ++i) {
      for (std::size_t j = 0; j <= P[i].size(); ++j) {
        at.emplace_back(i, j);
      }
    }
    const auto n = 1 + 2 * ch.size();
    r.space("characters", at.size() * n,
            "every prefix of the programs; every character replaced by, or "
            "preceded by, each of 32 characters",
            [&, at, n, ch](std::uint64_t idx, mc::Ctx& c) {
              const auto [i, j] = at[idx / n];
              auto s = P[i];
              const auto e = idx % n;
              if (e == 0) {
                s.resize(j);
              } else if (e <= ch.size()) {
                if (j < s.size()) {
                  s[j] = ch[e - 1];
                }
              } else {
                s.insert(j, 1, ch[e - 1 - ch.size()]);
              }
              import(c, s, "character");
            },
            10);
    const std::size_t len = r.thorough ? 4 : 3;
    std::uint64_t k = 1;
    for (std::size_t i = 0; i < len; ++i) {
      k *= ch.size();
    }
    r.space("short-texts", k, "all texts of " + std::to_string(len) +
                                  " of the 32 characters",
            [&, ch, len](std::uint64_t idx, mc::Ctx& c) {
              std::string s;
              for (std::size_t i = 0; i < len; ++i) {
                s += ch[idx % ch.size()];
                idx /= ch.size();
              }
              import(c, s, "short");
              import(c, "qubit q; rx(" + s, "short");
            },
            10);
  }
  // numbers at the limits of their types in every place for a number
  {
    const Strs nums = {"-1",
                       "-2",
                       "62",
                       "63",
                       "64",
                       "65",
                       "100",
                       "2147483647",
                       "2147483648",
                       "4294967295",
                       "4294967296",
                       "9223372036854775807",
                       "9223372036854775808",
                       "-9223372036854775807",
                       "-9223372036854775808",
                       "18446744073709551615",
                       "18446744073709551616",
                       "99999999999999999999999",
                       "1e308",
                       "1e309",
                       "-1e309",
                       "1e-320",
                       "0.0",
                       "-0.5",
                       "1.5",
                       "true",
                       "false",
                       "0"};
    const std::string p = PRE;
    std::vector<std::array<std::string, 2>> at = {
        {p + "rx(", ") q[0];"},
        {p + "x q[", "];"},
        {p + "c[", "] = measure q[0];"},
        {p + "measure q[0] -> c[", "];"},
        {p + "if (c == ", ") x q[0];"},
        {p + "if (c < ", ") x q[0];"},
        {p + "if (", " > c) x q[0];"},
        {p + "if (c[", "]) x q[0];"},
        {p + "if (c[0] == ", ") x q[0];"},
        {p + "reset q[", "];"},
        {p + "barrier q[", "];"},
        {p + "ctrl(", ") @ x q[0], q[1];"},
        {p + "negctrl(", ") @ x q[0], q[1];"},
        {p + "pow(", ") @ x q[0];"},
        {p + "const int[", "] z = 1; rx(z) q[0];"},
        {p + "const float[", "] z = 1; rx(z) q[0];"},
        {p + "const angle[", "] z = 1; rx(z) q[0];"},
        {p + "gphase(", ");"},
        {p + "g(", ") q[0], q[1];"},
        {"OPENQASM ", "; qubit q;"},
        {"// i ", "\nqubit[2] q;"},
        {"// i 0 ", "\nqubit[2] q;"},
        {"// o ", " 0\nqubit[2] q;"},
        {"// o 1 ", "\nqubit[2] q; bit[2] c; c = measure q;"}};
    for (const auto* t : {"int", "uint", "float", "angle", "bool", "bit",
                          "int[8]", "uint[8]", "int[64]", "uint[64]", "int[1]",
                          "bit[4]", "duration"}) {
      at.push_back({p + "const " + t + " z = ", "; rx(z) q[0]; x q[z];"});
      at.push_back({p + t + " z = ", "; x q[0];"});
    }
    r.space("limits", at.size() * nums.size(),
            "28 numbers at the limits of the types in 50 places",
            [&, at, nums](std::uint64_t idx, mc::Ctx& c) {
              const auto& a = at[idx / nums.size()];
              import(c, a[0] + nums[idx % nums.size()] + a[1], "limit");
            },
            10);
    const Strs ops = {"+",  "-",  "*",  "/",  "%",  "**", "<<", ">>", "&", "|",
                      "^",  "&&", "||", "==", "!=", "<",  "<=", ">",  ">="};
    const Strs un = {"",     "-",    "!",    "~",    "sin", "cos",
                     "tan", "exp", "ln", "sqrt"};
    const auto nn = nums.size();
    const std::array<std::array<std::string, 2>, 4> where = {
        {{p + "rx(", ") q[0];"},
         {p + "x q[", "];"},
         {p + "const uint z = ", "; rx(z) q[0];"},
         {"OPENQASM 2.0; qreg q[1]; U(0, 0, ", ") q[0];"}}};
    r.space("arithmetic", where.size() * un.size() * ops.size() * nn * nn,
            "all operators and functions on pairs of the 28 numbers in 4 places",
            [&, where, un, ops, nums, nn](std::uint64_t idx, mc::Ctx& c) {
              const auto& w = where[idx % where.size()];
              idx /= where.size();
              const auto& u = un[idx % un.size()];
              idx /= un.size();
              const auto& o = ops[idx % ops.size()];
              idx /= ops.size();
              if (!r.thorough && !u.empty() && idx % nn != idx / nn) {
                c.skip();
                return;
              }
              const auto e = u + "(" + nums[idx % nn] + " " + o + " " +
                             nums[idx / nn] + ")";
              import(c, w[0] + e + w[1], "arithmetic");
            },
            10);
  }
  // layouts in comments
  {
    const Strs el = {"0", "1", "2", "3", "100", "18446744073709551615",
                     "18446744073709551616"};
    std::vector<std::string> lists = {""};
    for (std::size_t b = 0, e = 1, l = 0; l < 3; ++l) {
      for (auto i = b; i < e; ++i) {
        for (const auto& x : el) {
          lists.push_back(lists[i] + " " + x);
        }
      }
      b = e;
      e = lists.size();
    }
    const auto n = lists.size();
    const Strs body = {"qubit[2] q;",
                       "",
                       "qubit[3] q; bit[3] c; c = measure q;",
                       "qreg q[2]; creg c[2]; measure q[1] -> c[0]; x q[0];"};
    r.space("layouts", n * n * body.size(),
            "all pairs of layouts of up to three of 7 numbers on 4 programs",
            [&, lists, n, body](std::uint64_t idx, mc::Ctx& c) {
              const auto& b = body[idx / n / n];
              if (!r.thorough && (idx % n) != 0 && (idx / n % n) % 7 != 1 &&
                  idx / n % n != 0) {
                c.skip();
                return;
              }
              const auto& i = lists[idx % n];
              const auto& o = lists[idx / n % n];
              import(c, (i.empty() ? "" : "// i" + i + "\n") +
                            (o.empty() ? "" : "// o" + o + "\n") + b,
                     "layout");
              import(c, b + "\n" + (o.empty() ? "" : "// o" + o + "\n") +
                            (i.empty() ? "" : "// i" + i + "\n"),
                     "layout");
            },
            10);
  }
  // long and deeply nested programs
  {
    struct Nest {
      const char* name;
      std::function<std::string(std::size_t)> make;
    };
    const std::string p = PRE;
    const std::vector<Nest> nests = {
        {"parentheses",
         [p](std::size_t n) {
           return p + "rx(" + rep("(", n) + "1" + rep(")", n) + ") q[0];";
         }},
        {"open-parentheses", [p](std::size_t n) { return p + "rx(" + rep("(", n); }},
        {"signs", [p](std::size_t n) { return p + "rx(" + rep("- ", n) + "k) q[0];"; }},
        {"negations",
         [p](std::size_t n) { return p + "if (" + rep("!", n) + "c[0]) x q[0];"; }},
        {"functions",
         [p](std::size_t n) {
           return p + "rx(" + rep("sin(", n) + "1" + rep(")", n) + ") q[0];";
         }},
        {"sum", [p](std::size_t n) { return p + "rx(1" + rep(" + 1", n) + ") q[0];"; }},
        {"sum-in-gate",
         [p](std::size_t n) {
           return p + "gate z(b) t { rx(b" + rep(" + b", n) + ") t; } z(1) q[0];";
         }},
        {"powers", [p](std::size_t n) { return p + "rx(1" + rep(" ** 1", n) + ") q[0];"; }},
        {"ifs",
         [p](std::size_t n) { return p + rep("if (c[0]) ", n) + "x q[0];"; }},
        {"blocks",
         [p](std::size_t n) {
           return p + rep("if (c[0]) { ", n) + "x q[0]; " + rep("}", n);
         }},
        {"elses",
         [p](std::size_t n) {
           return p + rep("if (c[0]) x q[0]; else ", n) + "x q[0];";
         }},
        {"inverses", [p](std::size_t n) { return p + rep("inv @ ", n) + "x q[0];"; }},
        {"controls", [p](std::size_t n) { return p + rep("ctrl @ ", n) + "x q[0];"; }},
        {"operands", [p](std::size_t n) { return p + "mcx q[0]" + rep(", q[1]", n) + ";"; }},
        {"barrier", [p](std::size_t n) { return p + "barrier q[0]" + rep(", q[1]", n) + ";"; }},
        {"parameters", [p](std::size_t n) { return p + "g(1" + rep(", 1", n) + ") q[0], q[1];"; }},
        {"indices", [p](std::size_t n) { return p + "x q" + rep("[0]", n) + ";"; }},
        {"nested-indices",
         [p](std::size_t n) { return p + "x " + rep("q[", n) + "0" + rep("]", n) + ";"; }},
        {"designators",
         [p](std::size_t n) { return p + "const " + rep("int[", n) + "8" + rep("]", n) + " z = 1;"; }},
        {"comments", [](std::size_t n) { return rep("// c\n", n) + "qubit q;"; }},
        {"block-comments", [](std::size_t n) { return rep("/**/", n) + "qubit q;"; }},
        {"layouts", [](std::size_t n) { return rep("// i 0\n", n) + "qubit q;"; }},
        {"blanks", [](std::size_t n) { return rep(" ", n) + "qubit q;"; }},
        {"semicolons", [](std::size_t n) { return "qubit q" + rep(";", n); }},
        {"includes", [](std::size_t n) { return rep("include \"stdgates.inc\";", n) + "qubit q;"; }},
        {"old-includes",
         [](std::size_t n) {
           return "OPENQASM 2.0;" + rep("include \"qelib1.inc\";", std::min<std::size_t>(n, 20)) + "qreg q[1];";
         }},
        {"digits", [p](std::size_t n) { return p + "rx(" + rep("9", n) + ") q[0];"; }},
        {"decimals", [p](std::size_t n) { return p + "rx(0." + rep("9", n) + ") q[0];"; }},
        {"name", [](std::size_t n) { return "qubit " + rep("q", n + 1) + ";"; }},
        {"string", [](std::size_t n) { return "include \"" + rep("q", n) + "\";"; }},
        {"statements", [p](std::size_t n) { return p + rep("x q[0];", n); }},
        {"declarations",
         [](std::size_t n) {
           std::string s;
           for (std::size_t i = 0; i < std::min<std::size_t>(n, 2000); ++i) {
             s += "qubit q" + std::to_string(i) + ";";
           }
           return s;
         }},
        {"gates",
         [p](std::size_t n) {
           std::string s = p + "gate g0 t { x t; }\n";
           for (std::size_t i = 1; i <= n; ++i) {
             s += "gate g" + std::to_string(i) + " t { g" +
                  std::to_string(i - 1) + " t; }\n";
           }
           return s + "g" + std::to_string(n) + " q[0];";
         }},
        {"parameterised-gates",
         [p](std::size_t n) {
           std::string s = p + "gate g0(b) t { rx(b) t; }\n";
           for (std::size_t i = 1; i <= n; ++i) {
             s += "gate g" + std::to_string(i) + "(b) t { inv @ g" +
                  std::to_string(i - 1) + "(b + 1) t; }\n";
           }
           return s + "g" + std::to_string(n) + "(1) q[0];";
         }},
        {"constants", [p](std::size_t n) {
           std::string s = p + "const float z0 = 1;\n";
           for (std::size_t i = 1; i <= n; ++i) {
             s += "const float z" + std::to_string(i) + " = z" +
                  std::to_string(i - 1) + " + 1;\n";
           }
           return s + "rx(z" + std::to_string(n) + ") q[0];";
         }}};
    std::vector<std::size_t> depth;
    for (std::size_t d = 0; d <= 64; ++d) {
      depth.push_back(d);
    }
    for (const std::size_t d :
         {100, 128, 255, 256, 257, 300, 500, 511, 512, 513, 999, 1000, 1001,
          2000, 5000, 10000, 20000, 50000}) {
      depth.push_back(d);
    }
    if (r.thorough) {
      depth.push_back(200000);
    }
    const auto nd = depth.size();
    r.space("nesting", nests.size() * nd,
            "35 constructs nested or repeated 0 to 64 times and at 18 or 19 "
            "depths up to 50000 or 200000",
            [&, depth, nd, nests](std::uint64_t idx, mc::Ctx& c) {
              const auto& n = nests[idx / nd];
              import(c, n.make(depth[idx % nd]), n.name);
            },
            10);
  }
  // files that are included
  {
    const Strs content = {"",
                          "gate z0 t { x t; }",
                          "include \"$1\";",
                          "include \"$2\";",
                          "include \"$1\"; gate z0 t { x t; }",
                          "gate z0 t { x t; } include \"$2\";",
                          "include \"$d\";",
                          "include \"missing.inc\";",
                          "include \"qelib1.inc\";",
                          "OPENQASM 2.0;",
                          "qubit q2;",
                          "gate z0 t { ",
                          "\"",
                          "/*",
                          "// i 0\n"};
    const auto n = content.size();
    const Strs main = {"include \"$1\";", "include \"$1\"; qubit q; z0 q;",
                       "OPENQASM 2.0; include \"$1\"; qreg q[1]; z0 q;",
                       "qubit q; if (true) include \"$1\"; z0 q;",
                       "gate y0 t { include \"$1\"; x t; } qubit q; y0 q;"};
    r.space("includes", n * n * main.size(),
            "all pairs of 15 included files, which may include themselves or "
            "each other, and 5 programs",
            [&, n, content, main](std::uint64_t idx, mc::Ctx& c) {
              const auto dir = std::filesystem::temp_directory_path() /
                               ("p09-" + std::to_string(::getpid()));
              std::filesystem::create_directories(dir);
              const auto fill = [&](std::string s) {
                for (const auto* f : {"1", "2", "d"}) {
                  const auto k = std::string("$") + f;
                  const auto to = *f == 'd' ? dir.string() : (dir / f).string();
                  for (auto at = s.find(k); at != std::string::npos;
                       at = s.find(k)) {
                    s.replace(at, 2, to);
                  }
                }
                return s;
              };
              std::ofstream(dir / "1") << fill(content[idx % n]);
              std::ofstream(dir / "2") << fill(content[idx / n % n]);
              import(c, fill(main[idx / n / n]), "include");
              std::filesystem::remove_all(dir);
            },
            10);
  }
  return r.finish();
}
