// Hash-consed bit-vector expression DAG with local simplification.
#pragma once
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/Hashing.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/SmallVector.h>
#include <unistd.h>
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <stdexcept>
#include <algorithm>
using llvm::APInt;

enum Op : uint8_t { K, VAR, ADD, SUB, MUL, UDIV, UREM, SDIV, SREM, AND, OR, XOR,
                    SHL, LSHR, ASHR, EQ, ULT, SLT, ITE, CONCAT, EXTRACT, ZEXT, SEXT };

struct Node;
typedef const Node *E;
struct Node {
  Op op; uint32_t w; uint32_t lo; uint32_t id;
  E a, b, c;
  uint64_t k;            // CONST value when w<=64 ; VAR id
  const APInt *wide;     // CONST value when w>64
  uint32_t abits;        // upper bound on active bits
  uint64_t umax;         // upper bound when w<=64 (or abits<=64), else ~0
  mutable const std::vector<uint32_t> *vars; // lazily computed sorted var ids
};

static inline uint64_t maskw(uint32_t w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

struct NodeKey { size_t operator()(E n) const {
  uint64_t h = n->op * 0x9E3779B97F4A7C15ull ^ (uint64_t)n->w << 32 ^ n->lo;
  auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
  mix((uint64_t)n->a); mix((uint64_t)n->b); mix((uint64_t)n->c); mix(n->k);
  if (n->wide) mix(llvm::hash_value(*n->wide));
  return h; } };
struct NodeEq { bool operator()(E x, E y) const {
  if (x->op != y->op || x->w != y->w || x->lo != y->lo || x->a != y->a || x->b != y->b || x->c != y->c || x->k != y->k) return false;
  if (!x->wide != !y->wide) return false;
  return !x->wide || *x->wide == *y->wide; } };

struct Exprs {
  std::unordered_set<E, NodeKey, NodeEq> tab;
  std::vector<E> all;
  std::vector<Node *> pool; size_t poolPos = 4096;
  struct VarInfo { std::string name; uint32_t w; E node; };
  std::vector<VarInfo> vars;

  Node *alloc() {
    if (poolPos == 4096) { pool.push_back((Node *)calloc(4096, sizeof(Node))); poolPos = 0; }
    return &pool.back()[poolPos++];
  }
  E intern(Node &n) {
    auto it = tab.find(&n);
    if (it != tab.end()) return *it;
    Node *p = alloc(); *p = n;
    if (n.wide) p->wide = new APInt(*n.wide);
    p->id = all.size(); p->vars = nullptr; bounds(p);
    all.push_back(p); tab.insert(p); return p;
  }
  static uint32_t bitsOf(uint64_t x) { return x ? 64 - __builtin_clzll(x) : 0; }
  void bounds(Node *p) {
    uint64_t m = maskw(p->w); uint32_t ab = p->w; uint64_t um = m;
    auto small = [](E e) { return e->abits <= 64; };
    switch (p->op) {
    case K: if (p->w <= 64) um = p->k, ab = bitsOf(um); else { ab = p->wide->getActiveBits(); um = ab <= 64 ? p->wide->getZExtValue() : ~0ull; } break;
    case ZEXT: ab = p->a->abits; um = p->a->umax; break;
    case EXTRACT: if (p->a->abits <= p->lo) ab = 0, um = 0; else { ab = std::min(p->w, p->a->abits - p->lo); if (small(p->a) && p->lo < 64) um = std::min(m, p->a->umax >> p->lo); else um = maskw(ab); } break;
    case AND: ab = std::min(p->a->abits, p->b->abits); um = std::min(small(p->a) ? p->a->umax : ~0ull, small(p->b) ? p->b->umax : ~0ull); break;
    case OR: case XOR: ab = std::max(p->a->abits, p->b->abits); um = maskw(ab); break;
    case ADD: { uint32_t x = std::max(p->a->abits, p->b->abits) + 1; if (x <= p->w) { ab = x; um = x <= 64 ? p->a->umax + p->b->umax : ~0ull; } break; }
    case MUL: { uint32_t x = p->a->abits + p->b->abits; if (x <= p->w) { ab = x; um = x <= 64 ? p->a->umax * p->b->umax : ~0ull; } break; }
    case UDIV: ab = p->a->abits; um = p->a->umax; if (p->b->op == K && p->b->w <= 64 && p->b->k) um /= p->b->k; break;
    case UREM: ab = p->a->abits; um = p->a->umax; if (p->b->op == K && p->b->w <= 64 && p->b->k) um = std::min(um, p->b->k - 1); break;
    case LSHR: ab = p->a->abits; um = p->a->umax; break;
    case ITE: ab = std::max(p->b->abits, p->c->abits); um = std::max(p->b->umax, p->c->umax); break;
    case CONCAT: if (p->a->abits == 0) ab = p->b->abits, um = p->b->umax; else { ab = p->a->abits + p->b->w; if (ab <= 64) um = (p->a->umax << p->b->w) | maskw(p->b->w); } break;
    default: break;
    }
    if (p->w <= 64) um &= m == ~0ull ? ~0ull : (um > m ? m : um) , um = um > m ? m : um;
    if (ab <= 64) { uint64_t bm = maskw(ab); if (um > bm) um = bm; uint32_t b2 = bitsOf(um); if (b2 < ab) ab = b2; } else um = ~0ull;
    p->abits = ab; p->umax = um;
  }
  E mk(Op op, uint32_t w, E a = nullptr, E b = nullptr, E c = nullptr, uint32_t lo = 0) {
    Node n{}; n.op = op; n.w = w; n.lo = lo; n.a = a; n.b = b; n.c = c; return intern(n);
  }
  E cst(uint32_t w, uint64_t v) {
    if (w > 64) return cst(APInt(w, v));
    Node n{}; n.op = K; n.w = w; n.k = v & maskw(w); return intern(n);
  }
  E cst(const APInt &v) {
    if (v.getBitWidth() <= 64) return cst(v.getBitWidth(), v.getZExtValue());
    Node n{}; n.op = K; n.w = v.getBitWidth(); n.wide = &v; return intern(n);
  }
  E var(uint32_t w, const std::string &name) {
    Node n{}; n.op = VAR; n.w = w; n.k = vars.size(); vars.push_back({name, w, nullptr});
    E e = intern(n); vars.back().node = e; return e;
  }
  static bool isK(E e) { return e->op == K; }
  static APInt val(E e) { return e->w > 64 ? *e->wide : APInt(e->w, e->k); }
  static bool isZero(E e) { return e->op == K && (e->w > 64 ? e->wide->isZero() : e->k == 0); }
  static bool isOnes(E e) { return e->op == K && (e->w > 64 ? e->wide->isAllOnes() : e->k == maskw(e->w)); }
  E TRUE() { return cst(1, 1); } E FALSE() { return cst(1, 0); }
  E bnot(E e) { return xor_(e, e->w > 64 ? cst(APInt::getAllOnes(e->w)) : cst(e->w, ~0ull)); }

  static APInt foldBin(Op op, const APInt &x, const APInt &y) {
    uint32_t w = x.getBitWidth();
    switch (op) {
    case ADD: return x + y; case SUB: return x - y; case MUL: return x * y;
    case AND: return x & y; case OR: return x | y; case XOR: return x ^ y;
    case UDIV: return y.isZero() ? APInt::getAllOnes(w) : x.udiv(y);
    case UREM: return y.isZero() ? x : x.urem(y);
    case SDIV: return y.isZero() ? (x.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : x.sdiv(y);
    case SREM: return y.isZero() ? x : x.srem(y);
    case SHL: return y.uge(w) ? APInt(w, 0) : x.shl(y.getZExtValue());
    case LSHR: return y.uge(w) ? APInt(w, 0) : x.lshr(y.getZExtValue());
    case ASHR: return y.uge(w) ? x.ashr(w - 1) : x.ashr(y.getZExtValue());
    case EQ: return APInt(1, x == y); case ULT: return APInt(1, x.ult(y)); case SLT: return APInt(1, x.slt(y));
    default: abort();
    }
  }
  static bool commut(Op o) { return o == ADD || o == MUL || o == AND || o == OR || o == XOR || o == EQ; }

  E bin(Op op, E a, E b) {
    if (isK(a) && isK(b)) return cst(foldBin(op, val(a), val(b)));
    if (commut(op)) { if (isK(a)) std::swap(a, b); else if (!isK(b) && a->id > b->id) std::swap(a, b); }
    switch (op) {
    case ADD: return add(a, b); case SUB: return sub(a, b); case MUL: return mul(a, b);
    case AND: return and_(a, b); case OR: return or_(a, b); case XOR: return xor_(a, b);
    case SHL: case LSHR: case ASHR: return shift(op, a, b);
    case UDIV: case UREM: return udiv(op, a, b);
    case EQ: return eq(a, b); case ULT: return ult(a, b); case SLT: return slt(a, b);
    default: return mk(op, a->w, a, b);
    }
  }
  E add(E a, E b) {
    if (isK(a) && isK(b)) return cst(val(a) + val(b));
    if (isK(a)) std::swap(a, b);
    if (isZero(b)) return a;
    if (a->w == 1) return xor_(a, b);
    if (isK(b) && a->op == ADD && isK(a->b)) return add(a->a, cst(val(a->b) + val(b)));
    if (!isK(b) && a->op == ADD && isK(a->b)) return add(add(a->a, b), a->b);
    if (!isK(b) && b->op == ADD && isK(b->b)) return add(add(a, b->a), b->b);
    if (a->op == SUB && a->b == b) return a->a;
    if (b->op == SUB && b->b == a) return b->a;
    if (isK(b) && a->op == ITE && isK(a->b) && isK(a->c)) return ite(a->a, add(a->b, b), add(a->c, b));
    if (!isK(b) && a->id > b->id) std::swap(a, b);
    return mk(ADD, a->w, a, b);
  }
  E sub(E a, E b) {
    if (a == b) return cst(APInt(a->w, 0));
    if (isK(b)) return add(a, cst(-val(b)));
    if (a->w == 1) return xor_(a, b);
    if (a->op == ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a;
      if (isK(a->b)) { if (b->op == ADD && isK(b->b)) return add(sub(a->a, b->a), cst(val(a->b) - val(b->b))); return add(sub(a->a, b), a->b); } }
    if (b->op == ADD && isK(b->b)) return add(sub(a, b->a), cst(-val(b->b)));
    if (a->op == SUB && a->a == b) return mk(SUB, a->w, cst(APInt(a->w, 0)), a->b);
    return mk(SUB, a->w, a, b);
  }
  E mul(E a, E b) {
    if (isK(a)) std::swap(a, b);
    if (isK(b)) {
      if (isZero(b)) return b;
      APInt v = val(b);
      if (v == 1) return a;
      if (v.isPowerOf2()) return shift(SHL, a, cst(APInt(a->w, v.logBase2())));
      if (a->op == MUL && isK(a->b)) return mul(a->a, cst(val(a->b) * v));
    }
    if (a->w == 1) return and_(a, b);
    if (!isK(b) && a->w > 66) { uint32_t n = a->abits + b->abits; if (n && n < a->w) return zext(mul(extract(a, 0, n), extract(b, 0, n)), a->w); }
    if (!isK(b) && a->id > b->id) std::swap(a, b);
    return mk(MUL, a->w, a, b);
  }
  E udiv(Op op, E a, E b) {
    if (isK(b)) {
      APInt v = val(b);
      if (v.isPowerOf2()) {
        uint32_t s = v.logBase2();
        if (op == UDIV) return shift(LSHR, a, cst(APInt(a->w, s)));
        return s == 0 ? cst(APInt(a->w, 0)) : zext(extract(a, 0, s), a->w);
      }
      if (!v.isZero() && a->abits <= 64 && v.getActiveBits() <= 64 && a->umax < v.getZExtValue()) return op == UDIV ? cst(APInt(a->w, 0)) : a;
      // narrow the division when the operand is known to be small
      uint32_t nb = std::max(a->abits, (uint32_t)v.getActiveBits());
      if (!v.isZero() && nb < a->w && nb > 0) return zext(bin(op, extract(a, 0, nb), extract(b, 0, nb)), a->w);
    }
    return mk(op, a->w, a, b);
  }
  // split a node into (piece) segments, high to low, at constant/zero boundaries
  void segs(E e, std::vector<E> &out, int depth = 0) {
    if (depth < 64) {
      if (e->op == CONCAT) { segs(e->a, out, depth + 1); segs(e->b, out, depth + 1); return; }
      if (e->op == ZEXT) { out.push_back(cst(APInt(e->w - e->a->w, 0))); segs(e->a, out, depth + 1); return; }
    }
    out.push_back(e);
  }
  bool hasSegs(E e) { return e->op == CONCAT || e->op == ZEXT; }
  static bool uniform(E e) { return isZero(e) || isOnes(e); }
  // try segment-wise combination: succeeds if each aligned segment has a trivial result
  E segBin(Op op, E a, E b) {
    if (!hasSegs(a) && !hasSegs(b)) return nullptr;
    if (isK(a) || isK(b)) return nullptr;
    std::vector<E> x, y; segs(a, x); segs(b, y);
    if (x.size() + y.size() > 80) return nullptr;
    // compute cut positions
    std::vector<uint32_t> cx, cy; uint32_t p = a->w; for (E e : x) { p -= e->w; cx.push_back(p); }
    p = a->w; for (E e : y) { p -= e->w; cy.push_back(p); }
    std::vector<uint32_t> cuts(cx); cuts.insert(cuts.end(), cy.begin(), cy.end());
    std::sort(cuts.begin(), cuts.end(), std::greater<uint32_t>()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    size_t i = 0, j = 0; uint32_t hi = a->w; std::vector<E> res;
    for (uint32_t lo : cuts) {
      uint32_t w = hi - lo;
      while (cx[i] >= hi) i++; while (cy[j] >= hi) j++;
      E xs = extract(x[i], lo - cx[i], w), ys = extract(y[j], lo - cy[j], w), r;
      if (xs == ys) r = op == XOR ? cst(APInt(w, 0)) : xs;
      else if (isK(xs) && isK(ys)) r = cst(foldBin(op, val(xs), val(ys)));
      else if (isZero(xs)) r = op == AND ? xs : ys;
      else if (isZero(ys)) r = op == AND ? ys : xs;
      else if (op != XOR && isOnes(xs)) r = op == AND ? ys : xs;
      else if (op != XOR && isOnes(ys)) r = op == AND ? xs : ys;
      else return nullptr;
      res.push_back(r); hi = lo;
    }
    E r = res[0]; E acc = res.back();
    for (int k = (int)res.size() - 2; k >= 0; k--) acc = concat(res[k], acc);
    (void)r; return acc;
  }
  E and_(E a, E b) {
    if (isK(a) && isK(b)) return cst(val(a) & val(b));
    if (isK(a)) std::swap(a, b);
    if (a == b) return a;
    if (isK(b)) {
      if (isZero(b)) return b; if (isOnes(b)) return a;
      APInt v = val(b);
      unsigned tz = v.countr_zero(), ab = v.getActiveBits();
      if (v.lshr(tz).countr_one() == ab - tz) { // contiguous run
        E m = extract(a, tz, ab - tz);
        if (tz) m = concat(m, cst(APInt(tz, 0)));
        return zext(m, a->w);
      }
      if (a->op == AND && isK(a->b)) return and_(a->a, cst(val(a->b) & v));
      if (a->op == ITE && isK(a->b) && isK(a->c)) return ite(a->a, and_(a->b, b), and_(a->c, b));
      if (ab < a->w) return zext(and_(extract(a, 0, ab), extract(b, 0, ab)), a->w);
    }
    if (a->w == 1) {
      if (a == bnotRaw(b) || b == bnotRaw(a)) return FALSE();
      if (b->op == AND && (b->a == a || b->b == a)) return b;
      if (a->op == AND && (a->a == b || a->b == b)) return a;
    }
    if (E r = segBin(AND, a, b)) return r;
    uint32_t nb = std::min(a->abits, b->abits);
    if (nb == 0) return cst(APInt(a->w, 0));
    if (nb < a->w && !isK(b)) return zext(and_(extract(a, 0, nb), extract(b, 0, nb)), a->w);
    if (!isK(b) && a->id > b->id) std::swap(a, b);
    return mk(AND, a->w, a, b);
  }
  E bnotRaw(E e) { return e->op == XOR && isOnes(e->b) ? e->a : nullptr; }
  E or_(E a, E b) {
    if (isK(a) && isK(b)) return cst(val(a) | val(b));
    if (isK(a)) std::swap(a, b);
    if (a == b) return a;
    if (isZero(b)) return a; if (isOnes(b)) return b;
    if (a->w == 1) {
      if (a == bnotRaw(b) || b == bnotRaw(a)) return TRUE();
      if (b->op == OR && (b->a == a || b->b == a)) return b;
      if (a->op == OR && (a->a == b || a->b == b)) return a;
    }
    if (isK(b) && a->op == ITE && isK(a->b) && isK(a->c)) return ite(a->a, or_(a->b, b), or_(a->c, b));
    if (isK(b) && hasSegs(a)) { // split constant along the segments
      std::vector<E> x; segs(a, x); bool ok = true; uint32_t hi = a->w; std::vector<E> r;
      for (E s : x) { E kk = extract(b, hi - s->w, s->w); hi -= s->w;
        if (isK(s)) r.push_back(cst(val(s) | val(kk))); else if (isZero(kk)) r.push_back(s); else if (isOnes(kk)) r.push_back(kk); else { ok = false; break; } }
      if (ok) { E acc = r.back(); for (int k = (int)r.size() - 2; k >= 0; k--) acc = concat(r[k], acc); return acc; }
    }
    if (E r = segBin(OR, a, b)) return r;
    uint32_t nb = std::max(a->abits, b->abits);
    if (nb > 0 && nb < a->w) return zext(or_(extract(a, 0, nb), extract(b, 0, nb)), a->w);
    if (!isK(b) && a->id > b->id) std::swap(a, b);
    return mk(OR, a->w, a, b);
  }
  E xor_(E a, E b) {
    if (isK(a) && isK(b)) return cst(val(a) ^ val(b));
    if (isK(a)) std::swap(a, b);
    if (a == b) return cst(APInt(a->w, 0));
    if (isZero(b)) return a;
    if (isK(b) && a->op == XOR && isK(a->b)) return xor_(a->a, cst(val(a->b) ^ val(b)));
    if (a->w == 1 && isK(b)) { // NOT
      if (a->op == ITE) return ite(a->a, xor_(a->b, b), xor_(a->c, b));
    }
    if (isK(b) && a->op == ITE && isK(a->b) && isK(a->c)) return ite(a->a, xor_(a->b, b), xor_(a->c, b));
    if (E r = segBin(XOR, a, b)) return r;
    uint32_t nb = std::max(a->abits, b->abits);
    if (nb > 0 && nb < a->w) return zext(xor_(extract(a, 0, nb), extract(b, 0, nb)), a->w);
    if (!isK(b) && a->id > b->id) std::swap(a, b);
    return mk(XOR, a->w, a, b);
  }
  E shift(Op op, E a, E b) {
    if (isK(a) && isK(b)) return cst(foldBin(op, val(a), val(b)));
    if (isK(b)) {
      APInt v = val(b); uint32_t w = a->w;
      if (v.isZero()) return a;
      if (v.uge(w)) { if (op != ASHR) return cst(APInt(w, 0)); return sext(extract(a, w - 1, 1), w); }
      uint32_t s = v.getZExtValue();
      if (op == SHL) return concat(extract(a, 0, w - s), cst(APInt(s, 0)));
      if (op == LSHR) return zext(extract(a, s, w - s), w);
      return sext(extract(a, s, w - s), w);
    }
    if (isZero(a)) return a;
    if (op == ASHR && a->abits < a->w) op = LSHR;
    return mk(op, a->w, a, b);
  }
  E zext(E a, uint32_t w) {
    if (w == a->w) return a;
    if (isK(a)) return cst(val(a).zext(w));
    if (a->op == ZEXT) a = a->a;
    if (a->op == ITE && isK(a->b) && isK(a->c)) return ite(a->a, zext(a->b, w), zext(a->c, w));
    if (a->op == CONCAT && isZero(a->a)) return zext(a->b, w);
    return mk(ZEXT, w, a);
  }
  E sext(E a, uint32_t w) {
    if (w == a->w) return a;
    if (isK(a)) return cst(val(a).sext(w));
    if (a->abits < a->w) return zext(a, w);
    if (a->op == SEXT) a = a->a;
    if (a->w == 1) return ite(a, cst(APInt::getAllOnes(w)), cst(APInt(w, 0)));
    return mk(SEXT, w, a);
  }
  E extract(E a, uint32_t lo, uint32_t w) {
    if (lo == 0 && w == a->w) return a;
    if (isK(a)) return cst(val(a).extractBits(w, lo));
    if (a->abits <= lo) return cst(APInt(w, 0));
    switch (a->op) {
    case EXTRACT: return extract(a->a, a->lo + lo, w);
    case CONCAT: {
      uint32_t bw = a->b->w;
      if (lo >= bw) return extract(a->a, lo - bw, w);
      if (lo + w <= bw) return extract(a->b, lo, w);
      return concat(extract(a->a, 0, lo + w - bw), extract(a->b, lo, bw - lo));
    }
    case ZEXT: {
      uint32_t iw = a->a->w;
      if (lo >= iw) return cst(APInt(w, 0));
      if (lo + w <= iw) return extract(a->a, lo, w);
      return zext(extract(a->a, lo, iw - lo), w);
    }
    case SEXT: {
      uint32_t iw = a->a->w;
      if (lo + w <= iw) return extract(a->a, lo, w);
      if (lo < iw) return sext(extract(a->a, lo, iw - lo), w);
      return sext(extract(a->a, iw - 1, 1), w);
    }
    case ITE: if (isK(a->b) || isK(a->c)) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w)); break;
    case AND: case OR: case XOR:
      if (isK(a->b)) { E kk = extract(a->b, lo, w); if (isZero(kk) || isOnes(kk)) return bin(a->op, extract(a->a, lo, w), kk); }
      else if (lo + w < a->w || lo) { E x = extract(a->a, lo, w), y = extract(a->b, lo, w); if (isK(x) || isK(y)) return bin(a->op, x, y); }
      if (a->w > 64 && w <= 64) return bin(a->op, extract(a->a, lo, w), extract(a->b, lo, w));
      break;
    case ADD: case SUB: case MUL: // a wide product stays one term
      if (lo == 0 && !(a->op == MUL && a->w > 66 && !isK(a->b))) { E x = extract(a->a, 0, w), y = extract(a->b, 0, w); return bin(a->op, x, y); }
      break;
    default: break;
    }
    return mk(EXTRACT, w, a, nullptr, nullptr, lo);
  }
  E concat(E a, E b) { // a high
    uint32_t w = a->w + b->w;
    if (isK(a) && isK(b)) { APInt v = val(a).zext(w).shl(b->w); v |= val(b).zext(w); return cst(v); }
    if (isZero(a)) return zext(b, w);
    if (a->op == EXTRACT && b->op == EXTRACT && a->a == b->a && a->lo == b->lo + b->w) return extract(a->a, b->lo, w);
    if (a->op == EXTRACT && a->a == b && a->lo == b->w) return extract(b, 0, w);
    if (a->op == ZEXT) { return zext(concat(a->a, b), w); }
    if (a->op == CONCAT) return concat(a->a, concat(a->b, b));
    if (b->op == CONCAT && a->op == EXTRACT && b->a->op == EXTRACT && a->a == b->a->a && a->lo == b->a->lo + b->a->w) return concat(concat(a, b->a), b->b);
    if (b->op == CONCAT && isK(a) && isK(b->a)) return concat(concat(a, b->a), b->b);
    if (a->op == ITE && b->op == ITE && a->a == b->a) return ite(a->a, concat(a->b, b->b), concat(a->c, b->c));
    if (b->op == CONCAT && a->op == ITE && b->a->op == ITE && a->a == b->a->a) return concat(concat(a, b->a), b->b);
    // sign-extension pieces: concat(sext(msb of b)) -> sext(b)
    if (a->op == EXTRACT && a->a->op == SEXT) {}
    return mk(CONCAT, w, a, b);
  }
  // hash outputs: node -> (input length, input).  Equality of two hash outputs
  // (or of the same slice of at least 128 bits) is equality of their inputs.
  std::unordered_map<E, std::pair<uint32_t, E>> hashIn;
  const std::pair<uint32_t, E> *hashOf(E e, uint32_t &lo) {
    if (hashIn.empty()) return nullptr; lo = 0;
    if (e->op == EXTRACT && e->w >= 128) { lo = e->lo; e = e->a; }
    auto it = hashIn.find(e); return it == hashIn.end() ? nullptr : &it->second;
  }
  void flat(E e, uint32_t at, std::vector<std::pair<uint32_t, uint32_t>> &solid, std::vector<uint32_t> &cuts) {
    cuts.push_back(at); cuts.push_back(at + e->w);
    if (e->op == CONCAT) { flat(e->b, at, solid, cuts); flat(e->a, at + e->b->w, solid, cuts); }
    else if (e->op == ZEXT) flat(e->a, at, solid, cuts);
    else if (e->op != K) solid.push_back({at, at + e->w});
  }
  E eq(E a, E b) {
    if (a == b) return TRUE();
    if (isK(a) && isK(b)) return cst(1, val(a) == val(b));
    if (isK(a)) std::swap(a, b);
    if (a->w >= 128 && !(a->op == K && b->op == K)) {
      uint32_t la, lb; auto *x = hashOf(a, la); auto *y = x ? hashOf(b, lb) : nullptr;
      if (x && !y && b->op == K && a->op == EXTRACT && a->a->op != K) { // a slice of a computed digest
        APInt v = val(b);
        for (auto &kv : hashIn) if (kv.first->op == K && val(kv.first).extractBits(a->w, la) == v) { if (x->first != kv.second.first) return FALSE(); return x->first ? eq(x->second, kv.second.second) : TRUE(); }
      }
      if (x && y && la == lb) { if (x->first != y->first) return FALSE(); if (!x->first) return TRUE(); return eq(x->second, y->second); }
    }
    if (a->w == 1) { if (isK(b)) return b->k ? a : bnot(a); return bnot(xor_(a, b)); }
    if (isK(b)) {
      APInt v = val(b);
      if (v.getActiveBits() > a->abits) return FALSE();
      if (a->abits <= 64 && v.getZExtValue() > a->umax) return FALSE();
      switch (a->op) {
      case ZEXT: return eq(a->a, extract(b, 0, a->a->w));
      case SEXT: { APInt t = v.trunc(a->a->w); if (t.sext(a->w) != v) return FALSE(); return eq(a->a, cst(t)); }
      case CONCAT: return and_(eq(a->a, extract(b, a->b->w, a->a->w)), eq(a->b, extract(b, 0, a->b->w)));
      case ADD: if (isK(a->b)) return eq(a->a, cst(v - val(a->b))); break;
      case XOR: if (isK(a->b)) return eq(a->a, cst(v ^ val(a->b))); break;
      case SUB: if (v.isZero()) return eq(a->a, a->b); if (isK(a->a)) return eq(a->b, cst(val(a->a) - v)); break;
      case ITE:
        if (isK(a->b) || isK(a->c)) return ite(a->a, eq(a->b, b), eq(a->c, b));
        break;
      case OR: if (v.isZero()) return and_(eq(a->a, b), eq(a->b, b)); break;
      case AND: if (isK(a->b)) { if (((~val(a->b)) & v) != 0) return FALSE(); } break;
      default: break;
      }
    } else {
      if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w) return and_(eq(a->a, b->a), eq(a->b, b->b));
      if ((a->op == CONCAT || b->op == CONCAT) && a->w > 128) { // cut both where neither has an opaque part going across
        std::vector<std::pair<uint32_t, uint32_t>> solid; std::vector<uint32_t> cuts;
        flat(a, 0, solid, cuts); flat(b, 0, solid, cuts); std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end()); std::sort(solid.begin(), solid.end());
        E r = TRUE(); uint32_t at = 0; size_t k = 0; uint32_t reach = 0;
        for (uint32_t p : cuts) { if (p == 0) continue; while (k < solid.size() && solid[k].first < p) reach = std::max(reach, solid[k++].second); if (reach > p) continue;
          if (at == 0 && p == a->w) break; r = and_(r, eq(extract(a, at, p - at), extract(b, at, p - at))); if (isK(r) && !r->k) return r; at = p; }
        if (at == a->w) return r; }
      if (a->op == ZEXT && b->op == ZEXT) { uint32_t m = std::max(a->a->w, b->a->w); if (m < a->w) return eq(zext(a->a, m), zext(b->a, m)); }
      if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return eq(a->a, b->a);
      uint32_t nb = std::max(a->abits, b->abits);
      if (nb < a->w && nb > 0) return eq(extract(a, 0, nb), extract(b, 0, nb));
      if (a->op == ADD && isK(a->b) && b->op == ADD && isK(b->b)) return eq(a->a, add(b->a, cst(val(b->b) - val(a->b))));
      if (a->id > b->id) std::swap(a, b);
    }
    return mk(EQ, 1, a, b);
  }
  E ult(E a, E b) {
    if (a == b) return FALSE();
    if (isK(a) && isK(b)) return cst(1, val(a).ult(val(b)));
    if (isZero(b)) return FALSE();
    if (a->w == 1) return and_(bnot(a), b);
    if (isZero(a)) return bnot(eq(b, a));
    if (isK(b)) {
      APInt v = val(b);
      if (v == 1) return eq(a, cst(APInt(a->w, 0)));
      if (v.getActiveBits() > a->abits) return TRUE();
      if (a->abits <= 64 && v.getActiveBits() <= 64 && a->umax < v.getZExtValue()) return TRUE();
      if (a->op == ITE && (isK(a->b) || isK(a->c))) return ite(a->a, ult(a->b, b), ult(a->c, b));
      if (v.isAllOnes()) return bnot(eq(a, b));
    }
    if (isK(a)) {
      if (val(a).getActiveBits() > b->abits) return FALSE();
      if (b->abits <= 64 && val(a).getActiveBits() <= 64 && b->umax <= val(a).getZExtValue()) return FALSE();
      if (b->op == ITE && (isK(b->b) || isK(b->c))) return ite(b->a, ult(a, b->b), ult(a, b->c));
    }
    uint32_t nb = std::max(a->abits, b->abits);
    if (nb < a->w && nb > 0) return ult(extract(a, 0, nb), extract(b, 0, nb));
    if (a->op == CONCAT && b->op == CONCAT && a->a == b->a) return ult(a->b, b->b);
    return mk(ULT, 1, a, b);
  }
  E ule(E a, E b) { return bnot(ult(b, a)); }
  E slt(E a, E b) {
    if (a == b) return FALSE();
    if (isK(a) && isK(b)) return cst(1, val(a).slt(val(b)));
    bool na = a->abits < a->w, nb = b->abits < b->w;
    if (na && nb) return ult(a, b);
    if (na && isK(b) && val(b).isNegative()) return FALSE();
    if (nb && isK(a) && val(a).isNegative()) return TRUE();
    if (isZero(b)) return extract(a, a->w - 1, 1);
    if (isOnes(a)) return bnot(extract(b, b->w - 1, 1));
    if (isK(b) && a->op == ITE && isK(a->b) && isK(a->c)) return ite(a->a, slt(a->b, b), slt(a->c, b));
    if (isK(a) && b->op == ITE && isK(b->b) && isK(b->c)) return ite(b->a, slt(a, b->b), slt(a, b->c));
    return mk(SLT, 1, a, b);
  }
  E ite(E c, E a, E b) {
    if (isK(c)) return c->k ? a : b;
    if (a == b) return a;
    if (E n = bnotRaw(c)) { return ite(n, b, a); }
    if (a->w == 1) {
      if (isK(a) && isK(b)) return a->k ? c : bnot(c);
      if (isK(a)) return a->k ? or_(c, b) : and_(bnot(c), b);
      if (isK(b)) return b->k ? or_(bnot(c), a) : and_(c, a);
      if (a == c) return or_(c, b);
      if (b == c) return and_(c, a);
    }
    if (a->op == ITE && a->a == c) return ite(c, a->b, b);
    if (b->op == ITE && b->a == c) return ite(c, a, b->c);
    if (a->op == ITE && a->c == b) return ite(and_(c, a->a), a->b, b);
    if (b->op == ITE && b->b == a) return ite(or_(c, b->a), a, b->c);
    return mk(ITE, a->w, c, a, b);
  }
  const std::vector<uint32_t> &varsOf(E e) {
    if (e->vars) return *e->vars;
    static const std::vector<uint32_t> none;
    if (e->op == K) { e->vars = &none; return none; }
    if (e->op == VAR) { e->vars = new std::vector<uint32_t>{(uint32_t)e->k}; return *e->vars; }
    const std::vector<uint32_t> *acc = nullptr; std::vector<uint32_t> tmp;
    E ch[3] = {e->a, e->b, e->c}; bool owned = false;
    for (E x : ch) if (x) {
      const auto &v = varsOf(x);
      if (v.empty()) continue;
      if (!acc) { acc = &v; continue; }
      if (acc == &v) continue;
      std::vector<uint32_t> out; out.reserve(acc->size() + v.size());
      std::set_union(acc->begin(), acc->end(), v.begin(), v.end(), std::back_inserter(out));
      if (out.size() == acc->size()) continue;
      if (out.size() == v.size()) { acc = &v; owned = false; continue; }
      tmp.swap(out); acc = &tmp; owned = true;
      auto *nv = new std::vector<uint32_t>(tmp); acc = nv; owned = false;
    }
    (void)owned;
    e->vars = acc ? acc : &none; return *e->vars;
  }
};

// A model: assignment of variables (missing = 0)
struct Model { std::unordered_map<uint32_t, APInt> v; };

struct Evaluator {
  const Model *m; std::unordered_map<E, APInt> memo; std::unordered_map<E, uint64_t> memo64;
  explicit Evaluator(const Model *m) : m(m) {}
  uint64_t ev64(E e) {
    if (e->op == K) return e->k;
    auto it = memo64.find(e); if (it != memo64.end()) return it->second;
    uint64_t r = 0, mk = maskw(e->w);
    auto sx = [](uint64_t v, uint32_t w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
    switch (e->op) {
    case VAR: { auto x = m->v.find(e->k); r = x == m->v.end() ? 0 : x->second.getZExtValue(); break; }
    case ADD: r = ev64(e->a) + ev64(e->b); break; case SUB: r = ev64(e->a) - ev64(e->b); break;
    case MUL: r = ev64(e->a) * ev64(e->b); break;
    case AND: r = ev64(e->a) & ev64(e->b); break; case OR: r = ev64(e->a) | ev64(e->b); break;
    case XOR: r = ev64(e->a) ^ ev64(e->b); break;
    case UDIV: { uint64_t y = ev64(e->b); r = y ? ev64(e->a) / y : ~0ull; break; }
    case UREM: { uint64_t y = ev64(e->b); r = y ? ev64(e->a) % y : ev64(e->a); break; }
    case SHL: { uint64_t y = ev64(e->b); r = y >= e->w ? 0 : ev64(e->a) << y; break; }
    case LSHR: { uint64_t y = ev64(e->b); r = y >= e->w ? 0 : ev64(e->a) >> y; break; }
    case EQ: if (e->a->w <= 64) r = ev64(e->a) == ev64(e->b); else r = ev(e->a) == ev(e->b); break;
    case ULT: if (e->a->w <= 64) r = ev64(e->a) < ev64(e->b); else r = ev(e->a).ult(ev(e->b)); break;
    case SLT: if (e->a->w <= 64) r = sx(ev64(e->a), e->a->w) < sx(ev64(e->b), e->b->w); else r = ev(e->a).slt(ev(e->b)); break;
    case ITE: r = ev64(e->a) ? ev64(e->b) : ev64(e->c); break;
    case CONCAT: r = (ev64(e->a) << e->b->w) | ev64(e->b); break;
    case EXTRACT: if (e->a->w <= 64) r = ev64(e->a) >> e->lo; else r = ev(e->a).extractBitsAsZExtValue(e->w, e->lo); break;
    case ZEXT: r = ev64(e->a); break;
    case SEXT: r = (uint64_t)sx(ev64(e->a), e->a->w); break;
    case SDIV: case SREM: case ASHR: r = Exprs::foldBin(e->op, APInt(e->w, ev64(e->a)), APInt(e->w, ev64(e->b))).getZExtValue(); break;
    default: abort();
    }
    r &= mk; memo64[e] = r; return r;
  }
  APInt ev(E e) {
    if (e->w <= 64) return APInt(e->w, ev64(e));
    if (e->op == K) return *e->wide;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    APInt r(e->w, 0);
    switch (e->op) {
    case VAR: { auto x = m->v.find(e->k); if (x != m->v.end()) r = x->second; break; }
    case ITE: r = ev64(e->a) ? ev(e->b) : ev(e->c); break;
    case CONCAT: r = ev(e->a).zext(e->w).shl(e->b->w) | ev(e->b).zext(e->w); break;
    case EXTRACT: r = ev(e->a).extractBits(e->w, e->lo); break;
    case ZEXT: r = ev(e->a).zext(e->w); break;
    case SEXT: r = ev(e->a).sext(e->w); break;
    default: r = Exprs::foldBin(e->op, ev(e->a), ev(e->b)); break;
    }
    memo.emplace(e, r); return r;
  }
};
