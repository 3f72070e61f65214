// Exhaustive exploration of all random draws. A draw is a number in [0,1). The
// unit interval is cut at the given thresholds; each piece is represented by
// its two ends and carries its length as probability, half at each end. A
// decision that is taken at one of the thresholds is thereby explored exactly;
// one that is taken elsewhere gets a probability that is off.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <stdexcept>
#include <vector>

struct Draws {
  std::vector<std::uint64_t> pts;
  std::vector<double> wts;
  std::vector<std::size_t> path;
  std::size_t pos = 0;
  std::size_t maxDraws = 12;
  std::uint64_t runs = 0;
  static Draws*& active() {
    static Draws* d = nullptr;
    return d;
  }
  explicit Draws(std::vector<double> thresholds, double delta = 1e-9) {
    std::vector<double> t{0, 1};
    std::sort(thresholds.begin(), thresholds.end());
    for (const auto x : thresholds) {
      bool dup = x < 1e-6 || x > 1 - 1e-6;
      for (const auto y : t) {
        dup = dup || std::abs(x - y) < 1e-7;
      }
      if (!dup) {
        t.push_back(x);
      }
    }
    std::sort(t.begin(), t.end());
    for (std::size_t i = 0; i + 1 < t.size(); ++i) {
      const double lo = i == 0 ? 0 : t[i] + delta;
      const double hi = t[i + 1] - (i + 2 == t.size() ? 1e-12 : delta);
      for (const auto x : {lo, hi}) {
        pts.push_back(static_cast<std::uint64_t>(std::ldexp(x, 53)) << 11U);
        wts.push_back((t[i + 1] - t[i]) / 2);
      }
    }
  }
  static std::uint64_t draw() {
    auto& d = *active();
    if (d.pos == d.path.size()) {
      if (d.path.size() >= d.maxDraws) {
        throw std::runtime_error("more random draws than expected");
      }
      d.path.push_back(0);
    }
    return d.pts[d.path[d.pos++]];
  }
  // f() is one execution; leaf(weight) is called by f's caller
  template <class F> void all(F&& f) {
    active() = this;
    mcrng::next = &Draws::draw;
    path.clear();
    while (true) {
      pos = 0;
      ++runs;
      f();
      path.resize(pos);
      while (!path.empty() && path.back() + 1 == pts.size()) {
        path.pop_back();
      }
      if (path.empty()) {
        break;
      }
      ++path.back();
    }
    mcrng::next = nullptr;
    active() = nullptr;
  }
  [[nodiscard]] double weight() const {
    double w = 1;
    for (std::size_t i = 0; i < pos; ++i) {
      w *= wts[path[i]];
    }
    return w;
  }
};
