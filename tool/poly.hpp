// Linear expressions, rational simplex and constraint-form polyhedra.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <map>
#include <numeric>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

typedef int64_t i64;
struct Overflow {};
inline i64 mulo(i64 a, i64 b) { i64 r; if (__builtin_mul_overflow(a, b, &r)) throw Overflow(); return r; }
inline i64 addo(i64 a, i64 b) { i64 r; if (__builtin_add_overflow(a, b, &r)) throw Overflow(); return r; }
inline i64 gcd64(i64 a, i64 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i64 t = a % b; a = b; b = t; } return a; }

// ---------------------------------------------------------------- variables
struct VarTab {
  std::vector<std::string> name;
  std::vector<char> real;   // real-valued (floating point) variables
  std::vector<char> imprecise;
  int fresh(const std::string &n, bool isReal = false) {
    name.push_back(n); real.push_back(isReal); imprecise.push_back(0); return (int)name.size() - 1;
  }
};
inline VarTab &VT() { static VarTab t; return t; }

// ---------------------------------------------------------------- linear expressions
struct Lin {
  std::vector<std::pair<int, i64>> t; // sorted by variable
  i64 c = 0;
  Lin() {}
  Lin(i64 k) : c(k) {}
  static Lin var(int v) { Lin l; l.t.push_back({v, 1}); return l; }
  bool isConst() const { return t.empty(); }
  bool isVar() const { return t.size() == 1 && t[0].second == 1 && c == 0; }
  i64 coef(int v) const {
    auto it = std::lower_bound(t.begin(), t.end(), std::make_pair(v, INT64_MIN));
    return it != t.end() && it->first == v ? it->second : 0;
  }
  bool operator==(const Lin &o) const { return c == o.c && t == o.t; }
  bool operator!=(const Lin &o) const { return !(*this == o); }
  bool operator<(const Lin &o) const { return c != o.c ? c < o.c : t < o.t; }
  Lin addmul(const Lin &o, i64 k) const {
    Lin r; r.c = addo(c, mulo(o.c, k));
    size_t i = 0, j = 0;
    while (i < t.size() || j < o.t.size()) {
      if (j >= o.t.size() || (i < t.size() && t[i].first < o.t[j].first)) { r.t.push_back(t[i++]); }
      else if (i >= t.size() || o.t[j].first < t[i].first) { if (k) r.t.push_back({o.t[j].first, mulo(o.t[j].second, k)}); j++; }
      else { i64 v = addo(t[i].second, mulo(o.t[j].second, k)); if (v) r.t.push_back({t[i].first, v}); i++; j++; }
    }
    return r;
  }
  Lin operator+(const Lin &o) const { return addmul(o, 1); }
  Lin operator-(const Lin &o) const { return addmul(o, -1); }
  Lin operator*(i64 k) const { return Lin(0).addmul(*this, k); }
  Lin operator-() const { return *this * -1; }
  // substitute v := e (coef of v may be anything)
  Lin subst(int v, const Lin &e) const {
    i64 k = coef(v); if (!k) return *this;
    Lin r = *this; r.t.erase(std::lower_bound(r.t.begin(), r.t.end(), std::make_pair(v, INT64_MIN)));
    return r.addmul(e, k);
  }
  void normGcd(bool intTighten) {
    i64 g = 0; for (auto &p : t) g = gcd64(g, p.second);
    if (g > 1) {
      if (intTighten) { for (auto &p : t) p.second /= g; // floor for >=0 constraints
        i64 q = c / g; if (c % g && c < 0) q--; c = q; }
      else if (c % g == 0) { for (auto &p : t) p.second /= g; c /= g; }
    }
  }
  std::string str() const {
    std::string s;
    for (auto &p : t) {
      i64 k = p.second; if (!s.empty()) s += k < 0 ? " - " : " + "; else if (k < 0) s += "-";
      if (k < 0) k = -k; if (k != 1) s += std::to_string(k) + "*";
      s += VT().name[p.first] + "_" + std::to_string(p.first);
    }
    if (c || s.empty()) { if (!s.empty()) s += c < 0 ? " - " : " + "; s += std::to_string(s.empty() ? c : (c < 0 ? -c : c)); }
    return s;
  }
};

// ---------------------------------------------------------------- rationals
struct Q {
  i64 n = 0, d = 1;
  Q() {} Q(i64 a) : n(a) {}
  Q(i64 a, i64 b) : n(a), d(b) { norm(); }
  void norm() { if (d < 0) { n = -n; d = -d; } if (d != 1) { i64 g = gcd64(n, d); if (g > 1) { n /= g; d /= g; } } }
  Q operator+(const Q &o) const { if (d == 1 && o.d == 1) return Q(addo(n, o.n)); return Q(addo(mulo(n, o.d), mulo(o.n, d)), mulo(d, o.d)); }
  Q operator-() const { Q r; r.n = -n; r.d = d; return r; }
  Q operator-(const Q &o) const { return *this + (-o); }
  Q operator*(const Q &o) const { if (!n || !o.n) return Q(0); if (d == 1 && o.d == 1) return Q(mulo(n, o.n));
    i64 g1 = gcd64(n, o.d), g2 = gcd64(o.n, d); return Q(mulo(n / g1, o.n / g2), mulo(d / g2, o.d / g1)); }
  Q inv() const { Q r; r.n = n < 0 ? -d : d; r.d = n < 0 ? -n : n; return r; }
  Q operator/(const Q &o) const { return *this * o.inv(); }
  bool operator<(const Q &o) const { return mulo(n, o.d) < mulo(o.n, d); }
  bool operator==(const Q &o) const { return n == o.n && d == o.d; }
  bool zero() const { return n == 0; }
  int sgn() const { return n > 0 ? 1 : n < 0 ? -1 : 0; }
};

// ---------------------------------------------------------------- simplex
// maximise obj subject to cons_i >= 0, all variables free.  Exact rationals.
enum class LP { Infeasible, Optimal, Unbounded, Unknown };
struct Simplex {
  // columns: nonbasic variables; rows: basic variables as combination of nonbasic
  // every variable has optional lower bound; slack variables have lower bound.
  int nv = 0; std::vector<int> rowVar, colVar; std::vector<std::vector<Q>> T; // T[r][c]
  std::vector<std::optional<Q>> lo; std::vector<Q> val;
  void pivot(int r, int c) {
    int nc = (int)colVar.size();
    Q a = T[r][c]; Q ia = a.inv();
    for (int j = 0; j < nc; j++) if (j != c && !T[r][j].zero()) T[r][j] = -(T[r][j] * ia);
    T[r][c] = ia;
    for (size_t i = 0; i < T.size(); i++) if ((int)i != r) {
      Q k = T[i][c]; if (k.zero()) continue;
      for (int j = 0; j < nc; j++) if (j != c && !T[r][j].zero()) T[i][j] = T[i][j] + k * T[r][j];
      T[i][c] = k * ia;
    }
    std::swap(rowVar[r], colVar[c]);
  }
  void shift(int c, const Q &delta) { // nonbasic column c changes by delta
    val[colVar[c]] = val[colVar[c]] + delta;
    for (size_t i = 0; i < T.size(); i++) if (!T[i][c].zero()) val[rowVar[i]] = val[rowVar[i]] + T[i][c] * delta;
  }
  static LP solve(const std::vector<Lin> &cons, const Lin *obj, Q *best) {
    try { Simplex s; return s.run(cons, obj, best); } catch (Overflow &) { return LP::Unknown; }
  }
  LP run(const std::vector<Lin> &cons, const Lin *obj, Q *best) {
    std::map<int, int> idx; // var -> structural index
    for (auto &l : cons) for (auto &p : l.t) idx.emplace(p.first, 0);
    if (obj) for (auto &p : obj->t) idx.emplace(p.first, 0);
    int n = 0; for (auto &p : idx) p.second = n++;
    nv = n; lo.assign(n, std::nullopt); val.assign(n, Q(0));
    colVar.resize(n); std::iota(colVar.begin(), colVar.end(), 0);
    for (auto &l : cons) {
      if (l.t.empty()) { if (l.c < 0) return LP::Infeasible; continue; }
      std::vector<Q> row(n); for (auto &p : l.t) row[idx[p.first]] = Q(p.second);
      T.push_back(row); rowVar.push_back(nv); lo.push_back(Q(-l.c)); val.push_back(Q(0)); nv++;
    }
    int objVar = -1;
    if (obj) {
      std::vector<Q> row(n); for (auto &p : obj->t) row[idx[p.first]] = Q(p.second);
      T.push_back(row); rowVar.push_back(nv); lo.push_back(std::nullopt); val.push_back(Q(0)); objVar = nv; nv++;
    }
    // phase 1: Bland
    for (int it = 0;; it++) {
      if (it > 3000) return LP::Unknown;
      int r = -1;
      for (size_t i = 0; i < T.size(); i++) { int v = rowVar[i]; if (lo[v] && val[v] < *lo[v] && (r < 0 || v < rowVar[r])) r = (int)i; }
      if (r < 0) break;
      int c = -1;
      for (size_t j = 0; j < colVar.size(); j++) {
        const Q &a = T[r][j]; if (a.zero()) continue; int v = colVar[j];
        bool ok = a.sgn() > 0 || !lo[v] || *lo[v] < val[v]; // raise, or lower if room
        if (ok && (c < 0 || v < colVar[c])) c = (int)j;
      }
      if (c < 0) return LP::Infeasible;
      int bv = rowVar[r]; Q need = *lo[bv] - val[bv]; Q delta = need / T[r][c];
      shift(c, delta); pivot(r, c);
    }
    if (!obj) return LP::Optimal;
    // phase 2: maximise objVar (Bland)
    for (int it = 0;; it++) {
      if (it > 3000) return LP::Unknown;
      int orow = -1; for (size_t i = 0; i < T.size(); i++) if (rowVar[i] == objVar) orow = (int)i;
      if (orow < 0) { // objective nonbasic: it is free, so bring into basis
        int c = -1; for (size_t j = 0; j < colVar.size(); j++) if (colVar[j] == objVar) c = (int)j;
        int r = -1; Q lim;
        for (size_t i = 0; i < T.size(); i++) if (T[i][c].sgn() < 0 && lo[rowVar[i]]) {
          Q d = (*lo[rowVar[i]] - val[rowVar[i]]) / T[i][c]; if (r < 0 || d < lim || (d == lim && rowVar[i] < rowVar[r])) { r = (int)i; lim = d; } }
        if (r < 0) return LP::Unbounded;
        shift(c, lim); pivot(r, c); continue;
      }
      int c = -1, dir = 0;
      for (size_t j = 0; j < colVar.size(); j++) {
        const Q &a = T[orow][j]; if (a.zero()) continue; int v = colVar[j];
        int d = a.sgn(); if (d < 0 && lo[v] && !(*lo[v] < val[v])) continue;
        if (c < 0 || v < colVar[c]) { c = (int)j; dir = d; }
      }
      if (c < 0) { *best = val[objVar] + Q(obj->c); return LP::Optimal; }
      // ratio test
      bool have = false; Q lim; int r = -1;
      if (dir < 0 && lo[colVar[c]]) { have = true; lim = val[colVar[c]] - *lo[colVar[c]]; }
      for (size_t i = 0; i < T.size(); i++) {
        int v = rowVar[i]; if (!lo[v]) continue; Q a = T[i][c]; if (dir < 0) a = -a; if (a.sgn() >= 0) continue;
        Q d = (val[v] - *lo[v]) / (-a); if (!have || d < lim || (d == lim && r >= 0 && v < rowVar[r])) { have = true; lim = d; r = (int)i; }
      }
      if (!have) return LP::Unbounded;
      shift(c, dir < 0 ? -lim : lim);
      if (r >= 0) pivot(r, c);
    }
  }
};

// ---------------------------------------------------------------- polyhedra
struct Poly {
  std::map<int, Lin> eq;   // solved form: var = Lin over vars not in eq
  std::set<Lin> ge;        // Lin >= 0, over vars not in eq
  bool bot = false;
  mutable bool feasKnown = true;

  static long &lpCount() { static long n = 0; return n; }

  Lin norm(const Lin &l) const {
    bool hit = false; for (auto &p : l.t) if (eq.count(p.first)) { hit = true; break; }
    if (!hit) return l;
    Lin r(l.c); for (auto &p : l.t) { auto it = eq.find(p.first); r = it == eq.end() ? r.addmul(Lin::var(p.first), p.second) : r.addmul(it->second, p.second); }
    return r;
  }
  static bool allInt(const Lin &l) { for (auto &p : l.t) if (VT().real[p.first]) return false; return true; }
  void addGe(Lin l) {
    if (bot) return;
    try {
      l = norm(l); if (l.t.empty()) { if (l.c < 0) bot = true; return; }
      l.normGcd(allInt(l));
    } catch (Overflow &) { return; }
    // opposite present => equality; parallel dominated?
    Lin neg = -l;
    for (auto it = ge.begin(); it != ge.end(); ) {
      if (it->t == l.t) { if (it->c <= l.c) return; it = ge.erase(it); continue; }
      if (it->t == neg.t) { // it: -lt + c1 >= 0, l: lt + c2 >= 0 ; sum c1+c2 >= 0
        i64 s = it->c + l.c; if (s < 0) { bot = true; return; }
        if (s == 0) { Lin e = l; ge.erase(it); addEq(e); return; }
      }
      ++it;
    }
    ge.insert(l); feasKnown = false;
  }
  void addEq(Lin l) {
    if (bot) return;
    try {
      l = norm(l); if (l.t.empty()) { if (l.c != 0) bot = true; return; }
      l.normGcd(false);
      int pv = -1; i64 pk = 0;
      for (auto it = l.t.rbegin(); it != l.t.rend(); ++it) if (it->second == 1 || it->second == -1) { pv = it->first; pk = it->second; break; }
      if (pv < 0) {
        i64 g = 0; for (auto &p : l.t) g = gcd64(g, p.second);
        if (allInt(l) && g > 1 && l.c % g) { bot = true; return; }
        ge.insert(l); ge.insert(-l); feasKnown = false; return;
      }
      Lin rest = l; rest.t.erase(std::find(rest.t.begin(), rest.t.end(), std::make_pair(pv, pk)));
      Lin e = pk == 1 ? -rest : rest;
      for (auto &q : eq) q.second = q.second.subst(pv, e);
      std::vector<Lin> redo;
      for (auto it = ge.begin(); it != ge.end();) if (it->coef(pv)) { redo.push_back(*it); it = ge.erase(it); } else ++it;
      eq[pv] = e;
      for (auto &r : redo) addGe(r);
      feasKnown = false;
    } catch (Overflow &) { }
  }
  // constraints connected to the variables of l (or all when l==nullptr)
  std::vector<Lin> cone(const Lin *l) const {
    std::vector<Lin> all(ge.begin(), ge.end());
    if (!l) return all;
    std::set<int> vs; for (auto &p : l->t) vs.insert(p.first);
    std::vector<char> in(all.size(), 0); bool ch = true; std::vector<Lin> out;
    while (ch) { ch = false;
      for (size_t i = 0; i < all.size(); i++) if (!in[i]) {
        bool touch = false; for (auto &p : all[i].t) if (vs.count(p.first)) { touch = true; break; }
        if (touch) { in[i] = 1; ch = true; out.push_back(all[i]); for (auto &p : all[i].t) vs.insert(p.first); } } }
    return out;
  }
  bool isBot() {
    if (bot) return true;
    if (feasKnown) return false;
    auto cs = cone(nullptr); lpCount()++;
    LP r = Simplex::solve(cs, nullptr, nullptr);
    if (r == LP::Infeasible) { bot = true; return true; }
    feasKnown = true; return false;
  }
  // lower bound of l (rational) ; nullopt = unbounded/unknown
  std::optional<Q> minOf(const Lin &l0) const {
    if (bot) return Q(INT32_MAX);
    try {
      Lin l = norm(l0); if (l.t.empty()) return Q(l.c);
      auto cs = cone(&l); Lin neg = -l; Q best; lpCount()++;
      LP r = Simplex::solve(cs, &neg, &best);
      if (r == LP::Infeasible) return Q(INT32_MAX);
      if (r == LP::Optimal) return -best;
    } catch (Overflow &) {}
    return std::nullopt;
  }
  std::optional<Q> maxOf(const Lin &l) const { auto m = minOf(-l); if (!m) return m; return -*m; }
  bool entailsGe(const Lin &l0) const { // l0 >= 0 ?
    if (bot) return true;
    try {
      Lin l = norm(l0); if (l.t.empty()) return l.c >= 0;
      if (ge.count(l)) return true;
      // an infeasible state entails everything: handled by callers through isBot()
      auto m = minOf(l); if (!m) return false;
      if (allInt(l)) return Q(-1) < *m; // integer valued: min > -1 suffices
      return !(*m < Q(0));
    } catch (Overflow &) { return false; }
  }
  bool entailsEq(const Lin &l) const { Lin n; try { n = norm(l); } catch (Overflow &) { return false; } if (n.t.empty()) return bot || n.c == 0; return entailsGe(l) && entailsGe(-l); }
  // constant value of l if entailed
  std::optional<i64> constOf(const Lin &l0) const {
    try { Lin l = norm(l0); if (l.t.empty()) return l.c; auto m = minOf(l); if (!m || m->d != 1) return std::nullopt; auto M = maxOf(l); if (M && *M == *m) return m->n; } catch (Overflow &) {}
    return std::nullopt;
  }
  void vars(std::set<int> &s) const {
    for (auto &p : eq) { s.insert(p.first); for (auto &q : p.second.t) s.insert(q.first); }
    for (auto &l : ge) for (auto &q : l.t) s.insert(q.first);
  }
  void rename(int from, int to) {
    auto rn = [&](Lin l) { i64 k = l.coef(from); if (!k) return l; l = l.subst(from, Lin::var(to)); return l; };
    std::map<int, Lin> e2; for (auto &p : eq) e2[p.first == from ? to : p.first] = rn(p.second); eq.swap(e2);
    std::set<Lin> g2; for (auto &l : ge) g2.insert(rn(l)); ge.swap(g2);
  }
  // keep only variables in 'keep'
  void project(const std::set<int> &keep) {
    if (bot) return;
    // equalities whose lhs is dead: just drop. lhs live but rhs has dead var: pivot.
    for (auto it = eq.begin(); it != eq.end();) if (!keep.count(it->first)) it = eq.erase(it); else ++it;
    for (bool ch = true; ch;) { ch = false;
      for (auto it = eq.begin(); it != eq.end(); ++it) {
        int dv = -1; i64 dk = 0;
        for (auto &p : it->second.t) if (!keep.count(p.first) && (p.second == 1 || p.second == -1)) { dv = p.first; dk = p.second; break; }
        if (dv < 0) continue;
        // lhs = rest + dk*dv  =>  dv = (lhs - rest)*dk
        int lhs = it->first; Lin rest = it->second; rest = rest.subst(dv, Lin(0));
        Lin e = (Lin::var(lhs) - rest) * dk; eq.erase(it);
        try {
          for (auto &q : eq) q.second = q.second.subst(dv, e);
          std::vector<Lin> redo; for (auto g = ge.begin(); g != ge.end();) if (g->coef(dv)) { redo.push_back(g->subst(dv, e)); g = ge.erase(g); } else ++g;
          for (auto &r : redo) addGe(r);
        } catch (Overflow &) { }
        ch = true; break;
      } }
    if (bot) return;
    // equalities still mentioning dead vars (coef != +-1) become inequalities
    for (auto it = eq.begin(); it != eq.end();) {
      bool dead = false; for (auto &p : it->second.t) if (!keep.count(p.first)) dead = true;
      if (dead) { Lin l = it->second - Lin::var(it->first); it = eq.erase(it); ge.insert(l); ge.insert(-l); } else ++it;
    }
    std::set<int> dead; for (auto &l : ge) for (auto &p : l.t) if (!keep.count(p.first)) dead.insert(p.first);
    while (!dead.empty()) {
      int bv = -1; long bc = 0;
      for (int v : dead) { long p = 0, n = 0; for (auto &l : ge) { i64 k = l.coef(v); if (k > 0) p++; else if (k < 0) n++; }
        long cost = p * n - p - n; if (bv < 0 || cost < bc) { bv = v; bc = cost; } }
      std::vector<Lin> P, N; for (auto it = ge.begin(); it != ge.end();) { i64 k = it->coef(bv); if (k > 0) { P.push_back(*it); it = ge.erase(it); } else if (k < 0) { N.push_back(*it); it = ge.erase(it); } else ++it; }
      dead.erase(bv);
      if (P.size() * N.size() <= 64) {
        for (auto &a : P) for (auto &b : N) try { i64 ka = a.coef(bv), kb = -b.coef(bv); i64 g = gcd64(ka, kb); Lin r = (a * (kb / g)).addmul(b, ka / g); addGe(r); if (bot) return; } catch (Overflow &) {}
        if (ge.size() > 24) reduce();
      }
    }
  }
  // drop redundant inequalities
  void reduce() {
    std::vector<Lin> v(ge.begin(), ge.end());
    std::sort(v.begin(), v.end(), [](const Lin &a, const Lin &b) { return a.t.size() > b.t.size(); });
    for (auto &l : v) { ge.erase(l); bool red = entailsGe(l); if (!red) ge.insert(l); }
  }
  std::vector<Lin> asGe() const { std::vector<Lin> r(ge.begin(), ge.end()); for (auto &p : eq) { Lin l = p.second - Lin::var(p.first); r.push_back(l); r.push_back(-l); } return r; }
  bool includes(const Poly &o) const { // o subset of this
    if (o.bot) return true; if (bot) return false;
    for (auto &p : eq) if (!o.entailsEq(p.second - Lin::var(p.first))) return false;
    for (auto &l : ge) if (!o.entailsGe(l)) return false;
    return true;
  }
  static bool &opposite() { static bool on = false; return on; }
  static Poly join(const Poly &a, const Poly &b, const std::vector<int> &freshVars) {
    if (a.bot) return b; if (b.bot) return a;
    Poly r;
    // 1. affine hull of the union
    for (auto &e : affineJoin(a, b)) r.addEq(e);
    // 2. envelope of every constraint direction of either
    std::set<Lin> dirs;
    auto addDir = [&](Lin l) { l.c = 0; try { l = r.norm(l); l.c = 0; l.normGcd(false); } catch (Overflow &) { return; } if (!l.t.empty()) dirs.insert(l); };
    for (auto &l : a.ge) addDir(l);
    for (auto &l : b.ge) addDir(l);
    for (auto *p : {&a, &b}) for (auto &q : p->eq) { Lin l = q.second - Lin::var(q.first); addDir(l); addDir(-l); }
    // 3. octagonal directions between merged variables and everything else
    std::set<int> vs; for (auto *p : {&a, &b}) p->vars(vs);
    if (freshVars.size() * vs.size() < 1500)
    for (int f : freshVars) { addDir(Lin::var(f)); addDir(-Lin::var(f));
      for (int v : vs) if (v != f) { addDir(Lin::var(f) - Lin::var(v)); addDir(Lin::var(v) - Lin::var(f)); } }
    // 4. v - f - g where v bounds the merged f: counters running in opposite directions
    if (opposite() && freshVars.size() <= 16) { std::set<int> fs(freshVars.begin(), freshVars.end()); std::set<Lin> more; auto bound = [&](const Lin &l) { if (l.t.size() != 2) return; for (int s : {1, -1}) for (int k : {0, 1}) { auto &f = l.t[k], &v = l.t[1 - k]; if (f.second == -s && v.second == s && fs.count(f.first)) for (int g : fs) if (g != f.first && g != v.first) more.insert(Lin::var(v.first) - Lin::var(f.first) - Lin::var(g)); } };
      for (auto *p : {&a, &b}) { for (auto &l : p->ge) bound(l); for (auto &q : p->eq) bound(q.second - Lin::var(q.first)); } if (more.size() <= 200) for (auto &l : more) addDir(l); }
    for (auto &d : dirs) {
      auto m1 = a.minOf(d); if (!m1) continue; auto m2 = b.minOf(d); if (!m2) continue;
      try { Q m = *m1 < *m2 ? *m1 : *m2; // d >= m
        Lin l = d * m.d; l.c = -m.n; r.addGe(l); } catch (Overflow &) {}
    }
    if (r.ge.size() > 40) r.reduce();
    return r;
  }
  // equalities valid in both
  static std::vector<Lin> affineJoin(const Poly &a, const Poly &b) {
    std::set<int> vs; a.vars(vs); b.vars(vs);
    // equality rows of a and b over vs + const: find combos. Points approach: e valid in both iff
    // e in rowspace(A) and e in rowspace(B).
    std::vector<int> cols(vs.begin(), vs.end()); std::map<int, int> ci; for (size_t i = 0; i < cols.size(); i++) ci[cols[i]] = (int)i;
    size_t n = cols.size() + 1;
    auto rows = [&](const Poly &p) { std::vector<std::vector<Q>> R; for (auto &q : p.eq) { std::vector<Q> r(n); r[ci[q.first]] = Q(-1); for (auto &t : q.second.t) r[ci[t.first]] = r[ci[t.first]] + Q(t.second); r[n - 1] = Q(q.second.c); R.push_back(r); } return R; };
    auto A = rows(a), B = rows(b); std::vector<Lin> out;
    if (A.empty() || B.empty()) return out;
    try {
      // Zassenhaus: rows [A|A],[B|0]; reduce; rows with zero left half give intersection in right half
      std::vector<std::vector<Q>> M;
      for (auto &r : A) { auto x = r; x.insert(x.end(), r.begin(), r.end()); M.push_back(x); }
      for (auto &r : B) { auto x = r; x.resize(2 * n); M.push_back(x); }
      size_t row = 0;
      for (size_t c = 0; c < 2 * n && row < M.size(); c++) {
        size_t p = row; while (p < M.size() && M[p][c].zero()) p++;
        if (p == M.size()) continue; std::swap(M[p], M[row]);
        Q iv = M[row][c].inv(); for (size_t j = c; j < 2 * n; j++) M[row][j] = M[row][j] * iv;
        for (size_t i = 0; i < M.size(); i++) if (i != row && !M[i][c].zero()) { Q k = M[i][c]; for (size_t j = c; j < 2 * n; j++) if (!M[row][j].zero()) M[i][j] = M[i][j] - k * M[row][j]; }
        if (c >= n) { // intersection row
          i64 den = 1; for (size_t j = n; j < 2 * n; j++) den = mulo(den / gcd64(den, M[row][j].d), M[row][j].d);
          Lin l; for (size_t j = n; j < 2 * n - 1; j++) if (!M[row][j].zero()) l = l.addmul(Lin::var(cols[j - n]), (M[row][j] * Q(den)).n);
          l.c = (M[row][2 * n - 1] * Q(den)).n; if (!l.t.empty()) out.push_back(l);
        }
        row++;
      }
      // rows reduced after being recorded may be fine: recorded combos stay valid
    } catch (Overflow &) {
      out.clear(); for (auto &q : a.eq) { Lin l = q.second - Lin::var(q.first); if (b.entailsEq(l)) out.push_back(l); }
      for (auto &q : b.eq) { Lin l = q.second - Lin::var(q.first); if (a.entailsEq(l)) out.push_back(l); }
    }
    return out;
  }
  static Poly widen(const Poly &old, const Poly &nw) { // old subset nw assumed
    if (old.bot) return nw;
    Poly r; for (auto &e : affineJoin(old, nw)) r.addEq(e);
    for (auto &l : old.asGe()) if (nw.entailsGe(l)) r.addGe(l);
    return r;
  }
  std::string str() const { if (bot) return "BOT"; std::string s; for (auto &p : eq) s += VT().name[p.first] + "_" + std::to_string(p.first) + " = " + p.second.str() + "; "; for (auto &l : ge) s += l.str() + " >= 0; "; return s; }
};
