// Integer linear arithmetic: affine forms and an emptiness test for conjunctions of L >= 0
// (Fourier-Motzkin with gcd tightening: the emptiness test of the polyhedra domain).
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <algorithm>
#include <map>
#include <unordered_map>
#include <set>

typedef int64_t i64;
typedef __int128 i128;

struct Lin {
  i64 c = 0;
  std::vector<std::pair<int, i64>> t;      // sorted by variable
  Lin() {}
  Lin(i64 k) : c(k) {}
  static Lin var(int v, i64 k = 1) { Lin l; if (k) l.t.push_back({v, k}); return l; }
  bool isConst() const { return t.empty(); }
  bool operator==(const Lin &o) const { return c == o.c && t == o.t; }
  bool operator<(const Lin &o) const { return c != o.c ? c < o.c : t < o.t; }
  i64 coef(int v) const { for (auto &p : t) if (p.first == v) return p.second; return 0; }
};

inline Lin axpy(const Lin &a, i64 k, const Lin &b) {     // a + k*b
  Lin r; r.c = a.c + k * b.c; r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
    else if (i == a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({b.t[j].first, k * b.t[j].second}); j++; }
    else { i64 s = a.t[i].second + k * b.t[j].second; if (s) r.t.push_back({a.t[i].first, s}); i++; j++; }
  }
  return r;
}
inline Lin operator+(const Lin &a, const Lin &b) { return axpy(a, 1, b); }
inline Lin operator-(const Lin &a, const Lin &b) { return axpy(a, -1, b); }
inline Lin operator*(const Lin &a, i64 k) { if (!k) return Lin(0); Lin r = a; r.c *= k; for (auto &p : r.t) p.second *= k; return r; }
inline Lin operator-(const Lin &a) { return a * -1; }
inline i64 fdiv(i64 a, i64 b) { i64 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; }
inline i64 fmod_(i64 a, i64 b) { return a - b * fdiv(a, b); }
inline Lin subst(const Lin &l, int v, const Lin &by) { i64 k = l.coef(v); if (!k) return l; Lin r = l;
  r.t.erase(std::find_if(r.t.begin(), r.t.end(), [&](auto &p) { return p.first == v; })); return axpy(r, k, by); }

inline std::string str(const Lin &l, const std::vector<std::string> &names) {
  std::string s;
  for (auto &p : l.t) {
    if (!s.empty()) s += p.second < 0 ? " - " : " + "; else if (p.second < 0) s += "-";
    i64 k = p.second < 0 ? -p.second : p.second;
    if (k != 1) s += std::to_string(k) + "*";
    s += p.first < (int)names.size() ? names[p.first] : "t" + std::to_string(p.first);
  }
  if (s.empty()) return std::to_string(l.c);
  if (l.c) s += (l.c < 0 ? " - " : " + ") + std::to_string(l.c < 0 ? -l.c : l.c);
  return s;
}

namespace fm {
inline i128 iabs(i128 a) { return a < 0 ? -a : a; }
inline i128 gcd(i128 a, i128 b) { a = iabs(a); b = iabs(b); while (b) { i128 r = a % b; a = b; b = r; } return a; }
inline i64 gcd64(i64 a, i64 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i64 r = a % b; a = b; b = r; } return a; }
// Dense rows: n coefficients, then the constant; row >= 0.  A row that would overflow is dropped, which only weakens.
struct Sys {
  int n; std::vector<i64> a; std::vector<int> tab; int rows = 0; bool empty = false;
  explicit Sys(int n_) : n(n_), tab(64, -1) {}
  i64 *row(int i) { return &a[(size_t)i * (n + 1)]; }
  const i64 *row(int i) const { return &a[(size_t)i * (n + 1)]; }
  static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
  uint64_t hash(const i64 *r, i64 sg) const { uint64_t h = 1; for (int i = 0; i < n; i++) h = mix(h, (uint64_t)(r[i] * sg)); return h ^ (h >> 31); }
  int find(const i64 *r, i64 sg) const {
    size_t m = tab.size() - 1, k = hash(r, sg) & m;
    while (tab[k] >= 0) { const i64 *q = row(tab[k]); bool eq = true; for (int i = 0; i < n; i++) if (q[i] != r[i] * sg) { eq = false; break; } if (eq) return tab[k]; k = (k + 1) & m; }
    return -1;
  }
  void insert(int i) { size_t m = tab.size() - 1, k = hash(row(i), 1) & m; while (tab[k] >= 0) k = (k + 1) & m; tab[k] = i; }
  void add(i64 *w) {       // w: scratch row, may be changed
    if (empty) return;
    i64 g = 0; for (int i = 0; i < n && g != 1; i++) if (w[i]) g = gcd64(g, w[i]);
    if (!g) { if (w[n] < 0) empty = true; return; }
    if (g > 1) { for (int i = 0; i < n; i++) w[i] /= g; w[n] = ::fdiv(w[n], g); }
    int j = find(w, -1);
    if (j >= 0) { i128 s = (i128)row(j)[n] + w[n]; if (s < 0) { empty = true; return; } }
    j = find(w, 1);
    if (j >= 0) { if (w[n] < row(j)[n]) row(j)[n] = w[n]; return; }
    if ((size_t)rows * 2 > tab.size()) { tab.assign(tab.size() * 2, -1); for (int i = 0; i < rows; i++) insert(i); }
    a.insert(a.end(), w, w + n + 1); insert(rows++);
  }
};
static const i64 CAP = (i64)1 << 61;
// out = ka*x + kb*y; false on overflow
inline bool comb(i64 *out, const i64 *x, i64 ka, const i64 *y, i64 kb, int n) {
  for (int i = 0; i <= n; i++) { i128 v = (i128)x[i] * ka + (i128)y[i] * kb; if (v > CAP || v < -CAP) return false; out[i] = (i64)v; }
  return true;
}
// true: the conjunction has no integer solution.  false: it may have one.
inline bool infeasible(const std::vector<const Lin *> &cs) {
  std::vector<int> vars; for (auto *l : cs) for (auto &p : l->t) vars.push_back(p.first);
  std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
  int n = (int)vars.size(); std::vector<i64> w(n + 1);
  Sys S(n);
  for (auto *l : cs) { std::fill(w.begin(), w.end(), 0); for (auto &p : l->t) w[std::lower_bound(vars.begin(), vars.end(), p.first) - vars.begin()] = p.second; w[n] = l->c; S.add(w.data()); if (S.empty) return true; }
  std::vector<int> P(n), Q(n);
  for (int round = 0; round < 400; round++) {
    if (S.empty) return true;
    if (!S.rows || S.rows > 900) return false;
    // an equality with a unit coefficient?
    int ev = -1, eq = -1; i64 k = 0;
    for (int i = 0; i < S.rows && ev < 0; i++) {
      const i64 *r = S.row(i); int u = -1; for (int v = 0; v < n; v++) if (r[v] == 1 || r[v] == -1) { u = v; break; }
      if (u < 0) continue;
      int j = S.find(r, -1); if (j < 0 || S.row(j)[n] + r[n] != 0) continue;
      ev = u; eq = i; k = r[u]; }
    Sys N(n); N.a.reserve(S.a.size());
    if (ev >= 0) {
      for (int i = 0; i < S.rows; i++) {
        i64 q = S.row(i)[ev];
        if (q) { if (!comb(w.data(), S.row(i), 1, S.row(eq), -q * k, n)) continue; } else std::copy(S.row(i), S.row(i) + n + 1, w.begin());
        N.add(w.data()); if (N.empty) return true; }
      S = std::move(N); continue;
    }
    std::fill(P.begin(), P.end(), 0); std::fill(Q.begin(), Q.end(), 0);
    for (int i = 0; i < S.rows; i++) { const i64 *r = S.row(i); for (int v = 0; v < n; v++) { if (r[v] > 0) P[v]++; else if (r[v] < 0) Q[v]++; } }
    int best = -1; long bc = 0;
    for (int v = 0; v < n; v++) if (P[v] + Q[v]) { long c = (long)P[v] * Q[v] - P[v] - Q[v]; if (best < 0 || c < bc) { best = v; bc = c; } }
    if (best < 0) return false;
    for (int i = 0; i < S.rows; i++) if (!S.row(i)[best]) { std::copy(S.row(i), S.row(i) + n + 1, w.begin()); N.add(w.data()); if (N.empty) return true; }
    for (int i = 0; i < S.rows; i++) { i64 qa = S.row(i)[best]; if (qa <= 0) continue;
      for (int j = 0; j < S.rows; j++) { i64 qb = -S.row(j)[best]; if (qb <= 0) continue;
        i64 g = gcd64(qa, qb);
        if (!comb(w.data(), S.row(i), qb / g, S.row(j), qa / g, n)) continue;
        N.add(w.data()); if (N.empty) return true; if (N.rows > 900) return false; } }
    S = std::move(N);
  }
  return false;
}
} // namespace fm
