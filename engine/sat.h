// Small incremental CDCL SAT solver and bit-blaster used for the (very many,
// small) bit-vector queries; Z3 takes over when a query is hard and confirms
// assertion verdicts.
#pragma once
#include "expr.h"
#include <cstring>
#include <array>

struct Sat {
  typedef int Lit; // 2*v+sign
  struct Cl { uint32_t size; float act; bool learnt; Lit l[1]; };
  std::vector<std::vector<std::pair<Cl *, Lit>>> watch; std::vector<int8_t> val; std::vector<int8_t> phase; std::vector<int> level; std::vector<Cl *> reason; std::vector<double> act; std::vector<uint32_t> rel; uint32_t relStamp = 0;
  std::vector<Lit> trail; std::vector<int> lim; size_t qh = 0; std::vector<Cl *> learnts; double inc = 1; float cinc = 1; bool ok = true; std::vector<char> seen; uint64_t conflicts = 0, nclauses = 0;
  std::vector<int> heap, hpos;
  int newVar() { int v = val.size(); val.push_back(-1); phase.push_back(0); level.push_back(0); reason.push_back(nullptr); act.push_back(0); rel.push_back(0); seen.push_back(0); watch.emplace_back(); watch.emplace_back(); hpos.push_back(-1); return v; }
  int8_t value(Lit l) const { int8_t v = val[l >> 1]; return v < 0 ? -1 : v ^ (l & 1); }
  // heap
  bool hless(int a, int b) { return act[a] > act[b]; }
  void up(int i) { int x = heap[i]; while (i) { int p = (i - 1) / 2; if (!hless(x, heap[p])) break; heap[i] = heap[p]; hpos[heap[i]] = i; i = p; } heap[i] = x; hpos[x] = i; }
  void down(int i) { int x = heap[i], n = heap.size(); for (;;) { int c = 2 * i + 1; if (c >= n) break; if (c + 1 < n && hless(heap[c + 1], heap[c])) c++; if (!hless(heap[c], x)) break; heap[i] = heap[c]; hpos[heap[i]] = i; i = c; } heap[i] = x; hpos[x] = i; }
  void hins(int v) { if (hpos[v] >= 0) return; hpos[v] = heap.size(); heap.push_back(v); up(hpos[v]); }
  int hpop() { int x = heap[0]; hpos[x] = -1; int l = heap.back(); heap.pop_back(); if (!heap.empty() && l != x) { heap[0] = l; hpos[l] = 0; down(0); } return x; }
  void enq(Lit l, Cl *r) { int v = l >> 1; val[v] = !(l & 1); level[v] = lim.size(); reason[v] = r; trail.push_back(l); }
  void attach(Cl *c) { watch[c->l[0] ^ 1].push_back({c, c->l[1]}); watch[c->l[1] ^ 1].push_back({c, c->l[0]}); }
  Cl *mkCl(const Lit *l, uint32_t n, bool learnt) { Cl *c = (Cl *)malloc(sizeof(Cl) + n * sizeof(Lit)); c->size = n; c->learnt = learnt; c->act = 0; memcpy(c->l, l, n * sizeof(Lit)); return c; }
  void cancel(int lv) { if ((int)lim.size() <= lv) return; for (size_t i = trail.size(); i-- > (size_t)lim[lv];) { int v = trail[i] >> 1; phase[v] = val[v]; val[v] = -1; reason[v] = nullptr; if (rel[v] == relStamp) hins(v); } trail.resize(lim[lv]); lim.resize(lv); qh = trail.size(); }
  // Clauses may be added below the current decisions (the trail of the common
  // assumption prefix is kept between queries).
  void addClause(std::vector<Lit> c) {
    if (!ok) return;
    std::sort(c.begin(), c.end()); size_t j = 0; Lit p = -2;
    for (Lit l : c) { bool z = level[l >> 1] == 0 && val[l >> 1] >= 0; if ((z && value(l) == 1) || l == (p ^ 1)) return; if (!(z && value(l) == 0) && l != p) c[j++] = p = l; }
    c.resize(j);
    if (c.empty()) { ok = false; return; }
    if (c.size() == 1) { cancel(0); if (value(c[0]) == 0) { ok = false; return; } if (value(c[0]) < 0) enq(c[0], nullptr); return; }
    auto rank = [&](Lit l) { return value(l) != 0 ? 1 << 30 : level[l >> 1]; };
    for (int k = 0; k < 2; k++) for (size_t i = k + 1; i < c.size(); i++) if (rank(c[i]) > rank(c[k])) std::swap(c[i], c[k]);
    if (value(c[0]) == 0) { cancel(level[c[0] >> 1] - 1 < 0 ? 0 : level[c[0] >> 1] - 1); }
    nclauses++; Cl *x = mkCl(c.data(), c.size(), false); attach(x);
    if (value(c[1]) == 0 && value(c[0]) < 0) enq(c[0], x);
  }
  Cl *propagate() {
    while (qh < trail.size()) {
      Lit p = trail[qh++]; auto &ws = watch[p]; size_t i = 0, j = 0;
      for (; i < ws.size();) {
        Lit blk = ws[i].second; if (value(blk) == 1) { ws[j++] = ws[i++]; continue; }
        Cl *c = ws[i].first; Lit np = p ^ 1; if (c->l[0] == np) std::swap(c->l[0], c->l[1]); i++;
        Lit f = c->l[0]; if (f != blk && value(f) == 1) { ws[j++] = {c, f}; continue; }
        bool found = false;
        for (uint32_t k = 2; k < c->size; k++) if (value(c->l[k]) != 0) { std::swap(c->l[1], c->l[k]); watch[c->l[1] ^ 1].push_back({c, f}); found = true; break; }
        if (found) continue;
        ws[j++] = {c, f};
        if (value(f) == 0) { while (i < ws.size()) ws[j++] = ws[i++]; ws.resize(j); qh = trail.size(); return c; }
        enq(f, c);
      }
      ws.resize(j);
    }
    return nullptr;
  }
  void bump(int v) { if ((act[v] += inc) > 1e100) { for (auto &a : act) a *= 1e-100; inc *= 1e-100; } if (hpos[v] >= 0) up(hpos[v]); }
  void analyze(Cl *c, std::vector<Lit> &out, int &bt) {
    int cnt = 0; Lit p = -1; out.clear(); out.push_back(0); size_t idx = trail.size();
    do {
      if (c->learnt) { c->act += cinc; if (c->act > 1e20f) { for (Cl *x : learnts) x->act *= 1e-20f; cinc *= 1e-20f; } }
      for (uint32_t k = (p == -1 ? 0 : 1); k < c->size; k++) { Lit q = c->l[k]; int v = q >> 1; if (!seen[v] && level[v] > 0) { seen[v] = 1; bump(v); if (level[v] >= (int)lim.size()) cnt++; else out.push_back(q); } }
      while (!seen[trail[--idx] >> 1]) {}
      p = trail[idx]; c = reason[p >> 1]; seen[p >> 1] = 0; cnt--;
      if (cnt > 0 && c && c->l[0] != p) { for (uint32_t k = 1; k < c->size; k++) if (c->l[k] == p) { std::swap(c->l[0], c->l[k]); break; } }
    } while (cnt > 0);
    out[0] = p ^ 1;
    std::vector<Lit> clr(out.begin() + 1, out.end()); size_t j = 1;
    for (size_t i = 1; i < out.size(); i++) { Cl *r = reason[out[i] >> 1]; bool red = r != nullptr; if (r) for (uint32_t k = 0; k < r->size; k++) { Lit q = r->l[k]; if (q >> 1 == out[i] >> 1) continue; if (!seen[q >> 1] && level[q >> 1] > 0) { red = false; break; } } if (!red) out[j++] = out[i]; }
    out.resize(j); for (Lit l : clr) seen[l >> 1] = 0;
    bt = 0; if (out.size() > 1) { size_t m = 1; for (size_t i = 2; i < out.size(); i++) if (level[out[i] >> 1] > level[out[m] >> 1]) m = i; std::swap(out[1], out[m]); bt = level[out[1] >> 1]; }
  }
  void reduce() {
    std::sort(learnts.begin(), learnts.end(), [](Cl *a, Cl *b) { return a->act < b->act; }); size_t j = 0, n = learnts.size(); std::vector<Cl *> dead;
    for (size_t i = 0; i < n; i++) { Cl *c = learnts[i]; bool lock = reason[c->l[0] >> 1] == c && value(c->l[0]) == 1; if (!lock && c->size > 2 && i < n / 2) dead.push_back(c); else learnts[j++] = c; }
    learnts.resize(j); if (dead.empty()) return; std::unordered_set<Cl *> ds(dead.begin(), dead.end());
    for (auto &w : watch) { size_t k = 0; for (auto &x : w) if (!ds.count(x.first)) w[k++] = x; w.resize(k); }
    for (Cl *c : dead) free(c);
  }
  static uint64_t luby(uint64_t i) { uint64_t k; for (k = 1; ((1ull << k) - 1) < i + 1; k++) {} while (((1ull << k) - 1) != i + 1) { i = i - ((1ull << (k - 1)) - 1); for (k = 1; ((1ull << k) - 1) < i + 1; k++) {} } return 1ull << (k - 1); }
  // 1 sat 0 unsat -1 gave up; vars = decision candidates
  std::vector<Lit> last;
  int solve(const std::vector<Lit> &as, const std::vector<int> &vars, uint64_t limit) {
    if (!ok) return 0; relStamp++;
    { size_t k = 0; while (k < as.size() && k < last.size() && as[k] == last[k]) k++; cancel(k); last = as; }
    for (int v : heap) hpos[v] = -1; heap.clear();
    for (int v : vars) { rel[v] = relStamp; if (val[v] < 0) { hpos[v] = heap.size(); heap.push_back(v); } }
    for (int i = (int)heap.size() / 2; i-- > 0;) down(i);
    uint64_t c0 = conflicts, rs = 0, budget = 100, used = 0; std::vector<Lit> lc;
    for (;;) {
      Cl *cf = propagate();
      if (cf) {
        conflicts++; used++; int ml = 0; for (uint32_t k = 0; k < cf->size; k++) ml = std::max(ml, level[cf->l[k] >> 1]);
        if (ml == 0) { ok = false; return 0; } if (ml < (int)lim.size()) cancel(ml);
        int bt; analyze(cf, lc, bt); cancel(bt);
        if (lc.size() == 1) { enq(lc[0], nullptr); } else { Cl *c = mkCl(lc.data(), lc.size(), true); learnts.push_back(c); attach(c); c->act = cinc; enq(lc[0], c); }
        inc /= 0.95; cinc /= 0.999f; if (learnts.size() > 4000 + nclauses / 2) reduce();
        if (conflicts - c0 > limit) { cancel(0); return -1; }
      } else {
        if (used > budget) { used = 0; budget = 100 * luby(++rs); cancel(std::min(lim.size(), as.size())); continue; }
        Lit nx = -1;
        while (lim.size() < as.size()) { Lit p = as[lim.size()]; int8_t v = value(p); if (v == 1) lim.push_back(trail.size()); else if (v == 0) return 0; else { nx = p; break; } }
        if (nx < 0) { while (!heap.empty()) { int v = hpop(); if (val[v] < 0) { nx = 2 * v + !phase[v]; break; } } if (nx < 0) return 1; }
        lim.push_back(trail.size()); enq(nx, nullptr);
      }
    }
  }
};

struct Blaster {
  Sat *s = nullptr; Exprs &X; int T; std::vector<std::vector<int>> memo; std::unordered_map<uint64_t, int> andTab, xorTab; std::unordered_map<uint32_t, std::vector<int>> varBits;
  std::vector<std::pair<int, std::pair<int, int>>> dummy; std::vector<std::array<int, 3>> fan; // per SAT var: fan-in literals (-1 none)
  std::vector<uint32_t> mark; uint32_t stamp = 0;
  explicit Blaster(Exprs &x) : X(x) { reset(); }
  ~Blaster() {}
  void reset() { if (s) { std::unordered_set<Sat::Cl *> all; for (auto &w : s->watch) for (auto &p : w) all.insert(p.first); for (auto *c : all) free(c); delete s; } s = new Sat(); memo.clear(); andTab.clear(); xorTab.clear(); varBits.clear(); fan.clear(); mark.clear(); stamp = 0; T = 2 * nv(-1, -1, -1); s->addClause({T}); }
  int nv(int a, int b, int c) { int v = s->newVar(); fan.push_back({a, b, c}); mark.push_back(0); return v; }
  int neg(int a) { return a ^ 1; }
  int land(int a, int b) {
    if (a == T) return b; if (b == T) return a; if (a == (T ^ 1) || b == (T ^ 1) || a == (b ^ 1)) return T ^ 1; if (a == b) return a; if (a > b) std::swap(a, b);
    uint64_t k = (uint64_t)a << 32 | (uint32_t)b; auto it = andTab.find(k); if (it != andTab.end()) return it->second;
    int o = 2 * nv(a, b, -1); s->addClause({o ^ 1, a}); s->addClause({o ^ 1, b}); s->addClause({o, a ^ 1, b ^ 1}); return andTab[k] = o;
  }
  int lor(int a, int b) { return land(a ^ 1, b ^ 1) ^ 1; }
  int lxor(int a, int b) {
    if (a == T) return b ^ 1; if (b == T) return a ^ 1; if (a == (T ^ 1)) return b; if (b == (T ^ 1)) return a; if (a == b) return T ^ 1; if (a == (b ^ 1)) return T;
    int sg = (a & 1) ^ (b & 1); a &= ~1; b &= ~1; if (a > b) std::swap(a, b);
    uint64_t k = (uint64_t)a << 32 | (uint32_t)b; auto it = xorTab.find(k); if (it != xorTab.end()) return it->second ^ sg;
    int o = 2 * nv(a, b, -1); s->addClause({o ^ 1, a, b}); s->addClause({o ^ 1, a ^ 1, b ^ 1}); s->addClause({o, a ^ 1, b}); s->addClause({o, a, b ^ 1}); xorTab[k] = o; return o ^ sg;
  }
  int lite(int c, int a, int b) {
    if (c == T) return a; if (c == (T ^ 1)) return b; if (a == b) return a; if (a == T) return lor(c, b); if (a == (T ^ 1)) return land(c ^ 1, b); if (b == T) return lor(c ^ 1, a); if (b == (T ^ 1)) return land(c, a); if (a == (b ^ 1)) return lxor(c, b);
    if (c == a) return lor(c, b); if (c == b) return land(c, a); 
    int o = 2 * nv(c, a, b); s->addClause({o ^ 1, c ^ 1, a}); s->addClause({o, c ^ 1, a ^ 1}); s->addClause({o ^ 1, c, b}); s->addClause({o, c, b ^ 1}); s->addClause({o ^ 1, a, b}); s->addClause({o, a ^ 1, b ^ 1}); return o;
  }
  int maj(int a, int b, int c) { return lor(land(a, b), land(c, lor(a, b))); }
  typedef std::vector<int> BV;
  BV add(const BV &a, const BV &b, int cin) { BV r(a.size()); int c = cin; for (size_t i = 0; i < a.size(); i++) { int x = lxor(a[i], b[i]); r[i] = lxor(x, c); c = lor(land(a[i], b[i]), land(c, x)); } return r; }
  BV inv(BV a) { for (auto &x : a) x ^= 1; return a; }
  int ult(const BV &a, const BV &b) { int lt = T ^ 1; for (size_t i = 0; i < a.size(); i++) lt = lite(lxor(a[i], b[i]), b[i], lt); return lt; }
  int eq(const BV &a, const BV &b) { int r = T; for (size_t i = 0; i < a.size(); i++) r = land(r, lxor(a[i], b[i]) ^ 1); return r; }
  BV mux(int c, const BV &a, const BV &b) { BV r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = lite(c, a[i], b[i]); return r; }
  void divmod(const BV &a, const BV &b, BV &q, BV &r) {
    size_t w = a.size(); q.assign(w, T ^ 1); r.assign(w + 1, T ^ 1); BV bx = b; bx.push_back(T ^ 1);
    for (size_t i = w; i-- > 0;) { r.insert(r.begin(), a[i]); r.pop_back(); int ge = ult(r, bx) ^ 1; q[i] = ge; r = mux(ge, add(r, inv(bx), T), r); }
    r.pop_back();
  }
  BV shift(Op op, const BV &a, const BV &b) {
    size_t w = a.size(); BV r = a; int fill = op == ASHR ? a[w - 1] : T ^ 1; size_t st = 0; while ((1ull << st) < w) st++;
    for (size_t k = 0; k < st && k < b.size(); k++) { size_t d = 1ull << k; BV t(w); for (size_t i = 0; i < w; i++) { int src; if (op == SHL) src = i >= d ? r[i - d] : (T ^ 1); else src = i + d < w ? r[i + d] : fill; t[i] = src; } r = mux(b[k], t, r); }
    int big = T ^ 1; if ((1ull << st) != w) { BV wl(b.size()); APInt W(b.size(), w); for (size_t i = 0; i < b.size(); i++) wl[i] = W[i] ? T : T ^ 1; big = ult(b, wl) ^ 1; } else for (size_t k = st; k < b.size(); k++) big = lor(big, b[k]);
    BV f(w, fill); return mux(big, f, r);
  }
  const BV &blast(E e) {
    if (e->id < memo.size() && !memo[e->id].empty()) return memo[e->id];
    BV r; uint32_t w = e->w;
    switch (e->op) {
    case K: { APInt v = Exprs::val(e); r.resize(w); for (uint32_t i = 0; i < w; i++) r[i] = v[i] ? T : T ^ 1; break; }
    case VAR: r.resize(w); for (auto &x : r) x = 2 * nv(-1, -1, -1); varBits[e->k] = r; break;
    case ADD: { BV a = blast(e->a), b = blast(e->b); r = add(a, b, T ^ 1); break; }
    case SUB: { BV a = blast(e->a), b = blast(e->b); r = add(a, inv(b), T); break; }
    case MUL: { BV a = blast(e->a), b = blast(e->b); if (e->a->op == K) std::swap(a, b); r.assign(w, T ^ 1); for (uint32_t i = 0; i < w; i++) { if (b[i] == (T ^ 1)) continue; BV p(w, T ^ 1); for (uint32_t k = i; k < w; k++) p[k] = land(a[k - i], b[i]); r = add(r, p, T ^ 1); } break; }
    case UDIV: case UREM: { BV a = blast(e->a), b = blast(e->b), q, m; divmod(a, b, q, m); int z = eq(b, BV(w, T ^ 1)); r = e->op == UDIV ? mux(z, BV(w, T), q) : mux(z, a, m); break; }
    case SDIV: case SREM: { BV a = blast(e->a), b = blast(e->b), q, m, z0(w, T ^ 1); int sa = a[w - 1], sb = b[w - 1]; BV aa = mux(sa, add(inv(a), z0, T), a), bb = mux(sb, add(inv(b), z0, T), b); divmod(aa, bb, q, m); int z = eq(bb, z0); q = mux(z, BV(w, T), q); m = mux(z, aa, m); int sq = lxor(sa, sb); if (e->op == SDIV) r = mux(sq, add(inv(q), z0, T), q); else r = mux(sa, add(inv(m), z0, T), m); break; }
    case AND: { BV a = blast(e->a), b = blast(e->b); r.resize(w); for (uint32_t i = 0; i < w; i++) r[i] = land(a[i], b[i]); break; }
    case OR: { BV a = blast(e->a), b = blast(e->b); r.resize(w); for (uint32_t i = 0; i < w; i++) r[i] = lor(a[i], b[i]); break; }
    case XOR: { BV a = blast(e->a), b = blast(e->b); r.resize(w); for (uint32_t i = 0; i < w; i++) r[i] = lxor(a[i], b[i]); break; }
    case SHL: case LSHR: case ASHR: { BV a = blast(e->a), b = blast(e->b); r = shift(e->op, a, b); break; }
    case EQ: { BV a = blast(e->a), b = blast(e->b); r = {eq(a, b)}; break; }
    case ULT: { BV a = blast(e->a), b = blast(e->b); r = {ult(a, b)}; break; }
    case SLT: { BV a = blast(e->a), b = blast(e->b); a.back() ^= 1; b.back() ^= 1; r = {ult(a, b)}; break; }
    case ITE: { BV c = blast(e->a), a = blast(e->b), b = blast(e->c); r = mux(c[0], a, b); break; }
    case CONCAT: { r = blast(e->b); const BV &a = blast(e->a); r.insert(r.end(), a.begin(), a.end()); break; }
    case EXTRACT: { const BV &a = blast(e->a); r.assign(a.begin() + e->lo, a.begin() + e->lo + w); break; }
    case ZEXT: r = blast(e->a); r.resize(w, T ^ 1); break;
    case SEXT: { r = blast(e->a); int t = r.back(); r.resize(w, t); break; }
    }
    if (memo.size() <= e->id) memo.resize(e->id + e->id / 4 + 64);
    memo[e->id] = std::move(r); return memo[e->id];
  }
  void cone(int lit, std::vector<int> &out) { std::vector<int> st{lit >> 1}; while (!st.empty()) { int v = st.back(); st.pop_back(); if (mark[v] == stamp) continue; mark[v] = stamp; out.push_back(v); for (int l : fan[v]) if (l >= 0 && mark[l >> 1] != stamp) st.push_back(l >> 1); } }
  // cs: the constraints that share variables with the query (these are decided);
  // all: every constraint on the path, as assumptions (independent ones are known satisfiable)
  int check(const std::vector<E> &cs, const std::vector<E> &all, Model *out, uint64_t limit) {
    if (s->val.size() > 300000) reset();
    std::vector<int> as, vars, cl;
    for (E c : all) as.push_back(blast(c)[0]);
    for (E c : cs) cl.push_back(blast(c)[0]);
    stamp++; for (int l : cl) cone(l, vars);
    int r = s->solve(as, vars, limit);
    if (r == 1 && out) for (E c : cs) for (uint32_t v : X.varsOf(c)) if (!out->v.count(v)) { auto &b = varBits[v]; APInt a(X.vars[v].w, 0); for (size_t i = 0; i < b.size(); i++) if (s->val[b[i] >> 1] >= 0 && (s->val[b[i] >> 1] ^ (b[i] & 1)) == 1) a.setBit(i); out->v[v] = a; }
    s->cancel(as.size()); return r;
  }
};
