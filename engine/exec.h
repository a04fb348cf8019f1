// Instruction semantics.
static inline const Val &get(Frame &f, const Opnd &o, uint32_t i = 0) { return o.slot >= 0 ? f.r[o.slot + i] : o.k[i]; }
static uint64_t sx(uint64_t v, uint32_t w) { return w >= 64 ? v : (uint64_t)((int64_t)(v << (64 - w)) >> (64 - w)); }

static Val binop(unsigned op, const Val &a, const Val &b, uint32_t w) {
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c, r = 0;
    switch (op) {
    case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
    case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
    case Instruction::Shl: r = y >= w ? 0 : x << y; break; case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
    case Instruction::AShr: r = (uint64_t)((int64_t)sx(x, w) >> (y >= w ? w - 1 : y)); break;
    case Instruction::UDiv: if (!y) fatalViolation("ub", "division by zero", siteOf(*cur)); r = x / y; break;
    case Instruction::URem: if (!y) fatalViolation("ub", "division by zero", siteOf(*cur)); r = x % y; break;
    case Instruction::SDiv: { int64_t p = sx(x, w), q = sx(y, w); if (!q) fatalViolation("ub", "division by zero", siteOf(*cur)); r = q == -1 ? (uint64_t)0 - (uint64_t)p : (uint64_t)(p / q); break; }
    case Instruction::SRem: { int64_t p = sx(x, w), q = sx(y, w); if (!q) fatalViolation("ub", "division by zero", siteOf(*cur)); r = q == -1 ? 0 : (uint64_t)(p % q); break; }
    default: unsup("binop");
    }
    return cv(r & maskw(w));
  }
  Op o;
  switch (op) {
  case Instruction::Add: o = ADD; break; case Instruction::Sub: o = SUB; break; case Instruction::Mul: o = MUL; break;
  case Instruction::And: o = AND; break; case Instruction::Or: o = OR; break; case Instruction::Xor: o = XOR; break;
  case Instruction::Shl: o = SHL; break; case Instruction::LShr: o = LSHR; break; case Instruction::AShr: o = ASHR; break;
  case Instruction::UDiv: o = UDIV; break; case Instruction::URem: o = UREM; break; case Instruction::SDiv: o = SDIV; break; case Instruction::SRem: o = SREM; break;
  default: unsup("binop");
  }
  return ev(X.bin(o, toE(a, w), toE(b, w)));
}
static E lane(E v, uint32_t i, uint32_t ew) { return X.extract(v, i * ew, ew); }
template <class F> static Val lanewise(uint32_t lanes, F f) { E acc = nullptr; for (uint32_t i = 0; i < lanes; i++) { E x = f(i); acc = acc ? X.concat(x, acc) : x; } return ev(acc); }
static double asD(const Val &v, uint32_t w) { if (v.e) unsup("symbolic floating point"); if (w == 32) { float f; uint32_t u = v.c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v.c, 8); return d; }
static Val fromD(double d, uint32_t w) { if (w == 32) { float f = d; uint32_t u; memcpy(&u, &f, 4); return cv(u); } uint64_t u; memcpy(&u, &d, 8); return cv(u); }

static Val icmp(unsigned p, const Val &a, const Val &b, uint32_t w) {
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c; int64_t s = sx(x, w), t = sx(y, w); bool r = false;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = s < t; break; case CmpInst::ICMP_SLE: r = s <= t; break; case CmpInst::ICMP_SGT: r = s > t; break; case CmpInst::ICMP_SGE: r = s >= t; break; }
    return cv(r);
  }
  E x = toE(a, w), y = toE(b, w), r;
  switch (p) { case CmpInst::ICMP_EQ: r = X.eq(x, y); break; case CmpInst::ICMP_NE: r = X.bnot(X.eq(x, y)); break; case CmpInst::ICMP_ULT: r = X.ult(x, y); break; case CmpInst::ICMP_ULE: r = X.ule(x, y); break; case CmpInst::ICMP_UGT: r = X.ult(y, x); break; case CmpInst::ICMP_UGE: r = X.ule(y, x); break; case CmpInst::ICMP_SLT: r = X.slt(x, y); break; case CmpInst::ICMP_SLE: r = X.bnot(X.slt(y, x)); break; case CmpInst::ICMP_SGT: r = X.slt(y, x); break; case CmpInst::ICMP_SGE: r = X.bnot(X.slt(x, y)); break; default: unsup("icmp"); }
  return ev(r);
}
static void jump(State &s, uint32_t to) {
  Frame &f = s.st.back(); uint32_t from = f.bb; CBlock &b = f.f->bs[to];
  if (!b.phis.empty()) {
    Val tmp[64]; uint32_t n = 0; vector<Val> big;
    uint32_t tot = 0; for (auto &p : b.phis) tot += p.n; Val *t = tmp; if (tot > 64) { big.resize(tot); t = big.data(); }
    for (auto &p : b.phis) { auto it = p.in.find(from); if (it == p.in.end()) unsup("phi edge"); for (uint32_t i = 0; i < p.n; i++) t[n++] = get(f, it->second, i); }
    n = 0; for (auto &p : b.phis) for (uint32_t i = 0; i < p.n; i++) f.r[p.dst + i] = t[n++];
  }
  f.bb = to; f.ip = 0; if (!b.seen) noteBlock(b);
}
static void popFrame(State &s) { for (uint32_t id : s.st.back().allocas) s.mem.set(id, nullptr); s.st.pop_back(); }
// finish the call instruction at the top frame
static void afterCall(State &s) { Frame &f = s.st.back(); CInst &c = f.f->bs[f.bb].is[f.ip]; if (!c.tgt.empty()) jump(s, c.tgt[0]); else f.ip++; }
static void pushCall(State &s, const Function *F, const Val *args, size_t n) {
  CFunc *cf = compiled(F); cf->calls++; if (s.st.size() > 3000) throw Inconclusive("call depth");
  s.st.emplace_back(); Frame &f = s.st.back(); f.f = cf; f.r.resize(cf->nslots); if (!cf->bs[0].seen) noteBlock(cf->bs[0]);
  for (size_t i = 0; i < n && i < cf->nslots; i++) f.r[i] = args[i];
}
static string panicWhere(const vector<Val> &a, string &msg) {
  string where = "?";
  for (size_t i = a.size(); i-- > 0;) { // &core::panic::Location { file: &str, line, col }
    if (a[i].e || !a[i].c) continue; ObjP o = lookup(a[i].c >> 32); uint64_t off = a[i].c & 0xffffffff;
    if (!o || o->kind == 3 || off + 24 > o->size) continue;
    uint64_t p, l; uint32_t line; memcpy(&p, &o->d[off], 8); memcpy(&l, &o->d[off + 8], 8); memcpy(&line, &o->d[off + 16], 4);
    string f; if (l > 3 && l < 400 && tryStr(p, l, f) && (has(f, ".rs"))) { where = f + ":" + std::to_string(line); break; }
  }
  for (size_t i = 0; i + 1 < a.size(); i++) if (!a[i].e && !a[i + 1].e && a[i + 1].c < 300 && a[i].c >> 32) { string m; ObjP o = lookup(a[i].c >> 32); if (o && o->kind == 2 && tryStr(a[i].c, a[i + 1].c, m)) { bool pr = m.size() > 2; for (char ch : m) if (ch < 32 || ch > 126) pr = false; if (pr) { msg = m; break; } } }
  return where;
}
static void doPanic(State &s, const string &fn, const vector<Val> &args) {
  string msg, where = panicWhere(args, msg);
  for (size_t i = s.st.size(); i-- > 0;) if (s.st[i].isTry) { // unwind to sym_try
    while (s.st.size() > i) popFrame(s);
    Frame &f = s.st.back(); CInst &c = f.f->bs[f.bb].is[f.ip]; if (c.n) f.r[c.dst] = cv(1);
    s.trail = "panic " + where + " " + msg; afterCall(s); return;
  }
  if (s.allowPanic) { S.allowedPanics++; throw PathEnd(); }
  fatalViolation("panic", fn.substr(0, 60) + (msg.empty() ? "" : ": " + msg), where);
}

static Val ovf(int kind, const Val &a, const Val &b, uint32_t w, Val &o) {
  if (!a.e && !b.e && w <= 64) {
    __int128 r; 
    switch (kind) {
    case B_UADDO: { uint64_t t = (a.c + b.c) & maskw(w); o = cv(t < a.c); return cv(t); }
    case B_USUBO: o = cv(a.c < b.c); return cv((a.c - b.c) & maskw(w));
    case B_UMULO: { unsigned __int128 m = (unsigned __int128)a.c * b.c; o = cv((m >> w) != 0); return cv((uint64_t)m & maskw(w)); }
    case B_SADDO: r = (__int128)(int64_t)sx(a.c, w) + (int64_t)sx(b.c, w); break;
    case B_SSUBO: r = (__int128)(int64_t)sx(a.c, w) - (int64_t)sx(b.c, w); break;
    default: r = (__int128)(int64_t)sx(a.c, w) * (int64_t)sx(b.c, w); break;
    }
    uint64_t t = (uint64_t)r & maskw(w); o = cv((__int128)(int64_t)sx(t, w) != r); return cv(t);
  }
  E x = toE(a, w), y = toE(b, w), r, f;
  switch (kind) {
  case B_UADDO: r = X.add(x, y); if (y->op == K) f = X.ult(X.bnot(y), x); else if (x->op == K) f = X.ult(X.bnot(x), y); else f = X.extract(X.add(X.zext(x, w + 1), X.zext(y, w + 1)), w, 1); break;
  case B_USUBO: r = X.sub(x, y); f = X.ult(x, y); break;
  case B_UMULO: r = X.mul(x, y); if (y->op == K || x->op == K) { if (x->op == K) std::swap(x, y); APInt k = Exprs::val(y); f = k.isZero() ? X.FALSE() : X.ult(X.cst(APInt::getAllOnes(w).udiv(k)), x); } else { E m = X.mul(X.zext(x, 2 * w), X.zext(y, 2 * w)); f = X.bnot(X.eq(X.extract(m, w, w), X.cst(APInt(w, 0)))); } break;
  default: {
    uint32_t w2 = kind == B_SMULO ? 2 * w : w + 1; Op op = kind == B_SADDO ? ADD : kind == B_SSUBO ? SUB : MUL;
    E m = X.bin(op, X.sext(x, w2), X.sext(y, w2)); r = X.bin(op, x, y); f = X.bnot(X.eq(m, X.sext(r, w2))); }
  }
  o = ev(f); return ev(r);
}
static E satE(int k, E x, E y, uint32_t w) {
  Val o; Val r = ovf(k == B_UADDSAT ? B_UADDO : k == B_USUBSAT ? B_USUBO : k == B_SADDSAT ? B_SADDO : B_SSUBO, ev(x), ev(y), w, o);
  E f = toE(o, 1), v = toE(r, w);
  if (k == B_UADDSAT) return X.ite(f, X.cst(APInt::getAllOnes(w)), v);
  if (k == B_USUBSAT) return X.ite(f, X.cst(APInt(w, 0)), v);
  return X.ite(f, X.ite(X.extract(x, w - 1, 1), X.cst(APInt::getSignedMinValue(w)), X.cst(APInt::getSignedMaxValue(w))), v);
}
static E unary(int b, E x, uint32_t w) {
  switch (b) {
  case B_BSWAP: { E acc = nullptr; for (uint32_t i = 0; i < w; i += 8) { E y = X.extract(x, i, 8); acc = acc ? X.concat(acc, y) : y; } return acc; }
  case B_BITREV: { E acc = nullptr; for (uint32_t i = 0; i < w; i++) { E y = X.extract(x, i, 1); acc = acc ? X.concat(acc, y) : y; } return acc; }
  case B_CTLZ: case B_CTTZ: {
    if (x->op == K) return X.cst(APInt(w, b == B_CTLZ ? Exprs::val(x).countl_zero() : Exprs::val(x).countr_zero()));
    if ((w & (w - 1)) == 0 && w > 1) { // halving tree: one result bit per level
      E cur = x, acc = nullptr; for (uint32_t h = w / 2; h >= 1; h /= 2) { E hi = X.extract(cur, h, h), lo = X.extract(cur, 0, h); if (b == B_CTTZ) std::swap(hi, lo); E z = X.eq(hi, X.cst(APInt(h, 0))); acc = acc ? X.concat(acc, z) : z; cur = X.ite(z, lo, hi); }
      return X.ite(X.eq(x, X.cst(APInt(w, 0))), X.cst(APInt(w, w)), X.zext(acc, w)); }
    E r = X.cst(APInt(w, w)); if (b == B_CTLZ) for (uint32_t i = 0; i < x->abits; i++) r = X.ite(X.extract(x, i, 1), X.cst(APInt(w, w - 1 - i)), r); else for (uint32_t i = x->abits; i-- > 0;) r = X.ite(X.extract(x, i, 1), X.cst(APInt(w, i)), r); return r; }
  case B_CTPOP: { if (x->op == K) return X.cst(APInt(w, Exprs::val(x).popcount())); E r = X.cst(APInt(w, 0)); for (uint32_t i = 0; i < x->abits; i++) r = X.add(r, X.zext(X.extract(x, i, 1), w)); return r; }
  case B_ABS: return X.ite(X.slt(x, X.cst(APInt(w, 0))), X.sub(X.cst(APInt(w, 0)), x), x);
  }
  unsup("unary");
}
static uint8_t nextRandByte() {
  static int mode = 0; static int left = 0; static uint8_t rep = 0;
  if (left == 0) { mode = rng() % 6; left = 1 + rng() % 12; static const uint8_t sp[] = {0, 0, 1, 0x7f, 0x80, 0x81, 0xff, 0x30, 0x37, 0x38, 0xb7, 0xb8, 0xc0, 0xf7, 0xf8}; rep = sp[rng() % sizeof sp]; }
  left--; if (mode < 3) return rep; if (mode == 3) return rng() % 4; return rng();
}
static string freshName(State &s, const string &n) { int k = s.names[n]++; return n + "#" + std::to_string(k); }
static bool fetchConcrete(const string &full, uint8_t *p, uint64_t n) {
  auto it = concreteIn.find(full);
  if (it != concreteIn.end()) { for (uint64_t i = 0; i < n; i++) { unsigned v = 0; if (2 * i + 1 < it->second.size()) sscanf(it->second.c_str() + 2 * i, "%2x", &v); p[i] = v; } }
  else for (uint64_t i = 0; i < n; i++) p[i] = randomIn ? nextRandByte() : 0;
  usedIn.push_back({full, hexOf(p, n)}); return true;
}
static void assumeE(State &s, E c) {
  if (c->op == K) { if (!c->k) { S.assumedAway++; throw PathEnd(); } return; }
  c = rw(s, c); if (c->op == K) { if (!c->k) { S.assumedAway++; throw PathEnd(); } return; }
  if (!s.model->ev->ev64(c)) { shared_ptr<MState> m; int r = satWith(s, c, &m); if (r < 0) throw Inconclusive("solver unknown (assume)"); if (!r) { S.assumedAway++; throw PathEnd(); } s.model = m; }
  addPC(s, c);
}

static const char *bname(int b) { static char t[32]; snprintf(t, 32, "#%d", b); return t; }
// returns true when the instruction completed (ip must advance), false when control moved
static bool builtin(State &s, CInst &c) {
  Frame &f = s.st.back(); auto A = [&](size_t i) -> const Val & { return get(f, c.ops[i]); };
  uint32_t w = c.w2; uint32_t L = c.lanes;
  auto setr = [&](Val v) { if (c.n) f.r[c.dst] = v; };
  switch (c.builtin) {
  case B_IGNORE: return true;
  case B_RET0: case B_SECP_CTX: if (c.n > 1) { for (uint32_t i = 0; i < c.n; i++) f.r[c.dst + i] = cv(0); return true; } setr(c.w ? ev(X.cst(APInt(c.w, 0))) : cv(0)); return true;
  case B_RETM1: setr(cv(maskw(c.w))); return true;
  case B_IDENT: setr(A(0)); return true;
  case B_PANIC: { vector<Val> args; for (auto &o : c.ops) for (uint32_t i = 0; i < o.n; i++) args.push_back(get(f, o, i)); doPanic(s, c.callee ? demang(c.callee->getName().str()) : "panic", args); return false; }
  case B_TRAP: case B_ABORT: { vector<Val> none; doPanic(s, "abort", none); return false; }
  // --- harness interface
  case B_SYM_BYTES: {
    uint64_t p = concretize(A(0)), n = concretize(A(1)); string nm = freshName(s, readStr(A(2).c, A(3).c)); if (n == 0) return true;
    resolve(p, n); Obj *o = writableObj(p >> 32); uint64_t off = p & 0xffffffff;
    if (concreteMode) { vector<uint8_t> b(n); fetchConcrete(nm, b.data(), n); for (uint64_t i = 0; i < n; i++) setByte(*o, off + i, X.cst(8, b[i])); return true; }
    s.inputs.push_back({nm, (uint32_t)n});
    for (uint64_t i = 0; i < n; i++) setByte(*o, off + i, getVar(nm + "[" + std::to_string(i) + "]", 8));
    return true;
  }
  case B_SYM_CHOOSE: { // (lo, hi, name, namelen) -> value in lo..=hi, one path per value
    uint64_t lo = A(0).c, hi = A(1).c; string raw = readStr(A(2).c, A(3).c);
    string key = raw + "#" + std::to_string(s.names[raw]); bool shard = raw.size() && raw[0] == '@' && shardN > 1 && s.names[raw] == 0;
    if (concreteMode) { s.names[raw]++; uint8_t b[8]; auto it = concreteIn.find(key); if (it != concreteIn.end()) { concreteIn[key].resize(16, '0'); fetchConcrete(key, b, 8); } else { uint64_t v = randomIn ? lo + rng() % (hi - lo + 1) : lo; memcpy(b, &v, 8); usedIn.push_back({key, hexOf(b, 8)}); } uint64_t v; memcpy(&v, b, 8); if (v < lo || v > hi) { S.assumedAway++; throw PathEnd(); } setr(cv(v)); return true; }
    E x = nullptr; for (int i = 0; i < 8; i++) { E b = getVar(key + "[" + std::to_string(i) + "]", 8); x = x ? X.concat(b, x) : b; }
    if (s.inputs.empty() || s.inputs.back().first != key) { bool seen = false; for (auto &in : s.inputs) if (in.first == key) seen = true; if (!seen) { s.inputs.push_back({key, 8}); assumeE(s, X.and_(X.ule(X.cst(64, lo), x), X.ule(x, X.cst(64, hi))));
      if (shard) { E any = X.FALSE(); for (uint64_t k = lo; k <= hi; k++) if ((k - lo) % shardN == shardI) any = X.or_(any, X.eq(x, X.cst(64, k))); assumeE(s, any); } } }
    uint64_t v = concretize(Val{x, 0}); s.names[raw]++; setr(cv(v)); return true;
  }
  case B_SYM_ASSUME: { E e = toE(A(0), w); if (w > 1) e = X.bnot(X.eq(e, X.cst(w, 0))); assumeE(s, e); return true; }
  case B_SYM_ASSERT: {
    E e = toE(A(0), w); if (w > 1) e = X.bnot(X.eq(e, X.cst(w, 0))); string id = readStr(A(1).c, A(2).c); S.asserts++; coverCount["assert:" + id]++;
    if (concreteMode) { if (!(e->op == K && e->k)) fatalViolation("assert", id, s.trail); return true; }
    if (e->op == K) { if (!e->k) fatalViolation("assert", id, s.trail); return true; }
    e = rw(s, e); if (e->op == K && e->k) return true;
    S.assertQueries++; shared_ptr<MState> m; E ne = X.bnot(e);
    int r; if (s.model->ev->ev64(ne)) { r = 1; m = s.model; } else r = satWith(s, ne, &m, true);
    if (r == 1) { shared_ptr<MState> m1; int rr = satReal(s, ne, &m1); if (rr == 1) m = m1; else if (rr < 0) r = -1; else { shared_ptr<MState> m2; if (satWith(s, e, &m2) != 1) throw PathEnd(); s.model = m2; addPC(s, e); return true; } }
    if (r < 0) { inconclusive.insert("solver gave no answer for assertion " + id); throw PathEnd(); }
    if (r == 1) { report("assert", id, s.trail, m.get()); shared_ptr<MState> m2; if (satWith(s, e, &m2) != 1) throw PathEnd(); s.model = m2; addPC(s, e); return true; }
    learn(s, e); return true;
  }
  case B_SYM_COVER: { string id = readStr(A(0).c, A(1).c); coverCount[id]++; return true; }
  case B_SYM_ALLOWPANIC: s.allowPanic = A(0).c; return true;
  case B_SYM_ISSYM: setr(cv(A(0).e != nullptr)); return true;
  case B_SYM_CONC: { uint64_t v = concretize(A(0)); setr(cv(v)); return true; }
  case B_SYM_EQ: { uint64_t p = concretize(A(0)), q = concretize(A(1)), n = concretize(A(2)); if (!n) { setr(cv(1)); return true; } setr(ev(X.zext(X.eq(wideBytes(p, n, false), wideBytes(q, n, false)), c.w))); return true; }
  case B_SYM_WIDE: { // (op, a, b, out, n): wide little-endian arithmetic used by reference models
    uint64_t op = A(0).c, p = A(1).c, q = A(2).c, o = A(3).c, n = A(4).c; E a = wideBytes(p, n, false), b = wideBytes(q, n, false), r;
    static const Op tab[] = {ADD, SUB, MUL, UDIV, UREM}; if (op > 4) unsup("sym_wide"); r = X.bin(tab[op], a, b); resolve(o, n); storeObj(*writableObj(o >> 32), o & 0xffffffff, ev(r), n * 8); return true; }
  case B_SYM_OBSERVE: { // (name, namelen, ptr, len)
    string nm = readStr(A(0).c, A(1).c); uint64_t n = concretize(A(3)); string h;
    if (!concreteMode) { vector<E> bs; if (n) { uint64_t p = concretize(A(2)); ObjP o = resolve(p, n); for (uint64_t i = 0; i < n; i++) bs.push_back(byteAt(*o, (p & 0xffffffff) + i)); } s.obs.push_back({nm, bs}); return true; } if (n) { ObjP o = resolve(A(2).c, n); if (o->anySym(A(2).c & 0xffffffff, n)) unsup("symbolic observation"); h = hexOf(&o->d[A(2).c & 0xffffffff], n); } observed.push_back(nm + "=" + h); return true; }
  case B_SYM_KECCAK: doKeccak(concretize(A(0)), concretize(A(1)), concretize(A(2))); return true;
  case B_SYM_TRY: { // (fn, data) -> 1 if fn(data) panicked
    uint64_t fa = concretize(A(0)); Val d = A(1); auto it = fnAt.find(fa >> 32); if (it == fnAt.end()) unsup("sym_try target"); s.trail.clear();
    const Function *F = it->second; pushCall(s, F, &d, 1); s.st.back().isTry = true; return false; }
  // --- memory
  case B_MEMCPY: { uint64_t n = concretize(A(2)); if (n) { uint64_t d = concretize(A(0)), q = concretize(A(1)); copyMem(d, q, n); } setr(A(0)); return true; }
  case B_MEMSET: { uint64_t n = concretize(A(2)); if (n) { uint64_t d = concretize(A(0)); ObjP o = resolve(d, n); if (o->konst) memErr("store to constant memory", d, n); o.reset(); Obj *x = writableObj(d >> 32); uint64_t off = d & 0xffffffff; const Val &b = A(1);
      if (!b.e) { memset(&x->d[off], b.c & 0xff, n); if (!x->s.empty()) std::fill(x->s.begin() + off, x->s.begin() + off + n, nullptr); } else { E e = b.e->w > 8 ? X.extract(b.e, 0, 8) : b.e; for (uint64_t i = 0; i < n; i++) setByte(*x, off + i, e); } } setr(A(0)); return true; }
  case B_BCMP: case B_MEMCMP: {
    uint64_t n = concretize(A(2)); if (!n) { setr(cv(0)); return true; } uint64_t p = concretize(A(0)), q = concretize(A(1));
    E eq = X.eq(wideBytes(p, n, false), wideBytes(q, n, false));
    if (c.builtin == B_BCMP) { setr(ev(X.zext(X.bnot(eq), c.w))); return true; }
    { E a = wideBytes(p, n, true), b = wideBytes(q, n, true); setr(ev(X.ite(eq, X.cst(c.w, 0), X.ite(X.ult(a, b), X.cst(c.w, ~0ull), X.cst(c.w, 1))))); } return true; }
  case B_STRLEN: { uint64_t p = concretize(A(0)), n = 0; for (;; n++) { ObjP o = resolve(p + n, 1); E b = byteAt(*o, (p + n) & 0xffffffff); if (b->op != K) unsup("strlen of symbolic data"); if (!b->k) break; } setr(cv(n)); return true; }
  case B_MEMCHR: { uint64_t p = concretize(A(0)), n = concretize(A(2)); Val ch = A(1); E cb = X.extract(toE(ch, 32), 0, 8); if (n) { ObjP o = resolve(p, n); for (uint64_t i = 0; i < n; i++) if (decide(X.eq(byteAt(*o, (p + i) & 0xffffffff), cb))) { setr(cv(p + i)); return true; } } setr(cv(0)); return true; }
  case B_MALLOC: case B_ALLOC: { uint64_t n = concretize(A(0)); setr(cv(newObj(n, 1))); return true; }
  case B_ALLOCZ: { uint64_t n = concretize(A(0)); setr(cv(newObj(n, 1))); return true; }
  case B_CALLOC: { uint64_t n = concretize(A(0)), k = concretize(A(1)); setr(cv(newObj(n * k, 1))); return true; }
  case B_MEMALIGN: { uint64_t pp = concretize(A(0)), n = concretize(A(2)); uint64_t a = newObj(n, 1); resolve(pp, 8); storeObj(*writableObj(pp >> 32), pp & 0xffffffff, cv(a), 64); setr(cv(0)); return true; }
  case B_FREE: case B_DEALLOC: { uint64_t p = concretize(A(0)); if (!p) return true; ObjP o = lookup(p >> 32); if (!o || (p & 0xffffffff) || o->kind != 1) memErr("invalid free", p, 0); s.mem.set(p >> 32, nullptr); return true; }
  case B_REALLOC_C: case B_REALLOC: {
    uint64_t p = concretize(A(0)), n = concretize(c.builtin == B_REALLOC ? A(3) : A(1)); ObjP o = lookup(p >> 32); if (!o || o->kind != 1 || (p & 0xffffffff)) memErr("invalid realloc", p, n);
    uint64_t a = newObj(n, 1), k = std::min<uint64_t>(n, o->size); copyMem(a, p, k); s.mem.set(p >> 32, nullptr); setr(cv(a)); return true; }
  case B_KEYCREATE: { uint64_t pp = concretize(A(0)); resolve(pp, 4); uint64_t k = s.tls.size() + 1; s.tls[k] = 0; storeObj(*writableObj(pp >> 32), pp & 0xffffffff, cv(k), 32); setr(cv(0)); return true; }
  case B_PTHREAD_GETSPEC: setr(cv(s.tls[A(0).c])); return true;
  case B_PTHREAD_SETSPEC: s.tls[A(0).c] = concretize(A(1)); setr(cv(0)); return true;
  case B_ERRNO: { if (!s.tls.count(~0ull)) s.tls[~0ull] = newObj(8, 1); setr(cv(s.tls[~0ull])); return true; }
  case B_GETRANDOM: { uint64_t p = concretize(A(0)), n = concretize(A(1)); if (n) { resolve(p, n); Obj *o = writableObj(p >> 32); for (uint64_t i = 0; i < n; i++) setByte(*o, (p & 0xffffffff) + i, X.cst(8, 0x5a)); } setr(cv(n)); return true; }
  case B_SYSCALL: { uint64_t nr = concretize(A(0)); if (nr == 318) { uint64_t p = concretize(A(1)), n = concretize(A(2)); if (n) { resolve(p, n); Obj *o = writableObj(p >> 32); for (uint64_t i = 0; i < n; i++) setByte(*o, (p & 0xffffffff) + i, X.cst(8, 0x5a)); } setr(cv(n)); return true; } if (nr == 202) { setr(cv(0)); return true; } unsup("syscall " + std::to_string(nr)); }
  case B_CLOCK: { uint64_t p = concretize(A(1)); resolve(p, 16); Obj *o = writableObj(p >> 32); storeObj(*o, p & 0xffffffff, cv(1700000000), 64); storeObj(*o, (p & 0xffffffff) + 8, cv(0), 64); setr(cv(0)); return true; }
  // --- llvm intrinsics
  case B_BSWAP: case B_CTLZ: case B_CTTZ: case B_CTPOP: case B_ABS: case B_BITREV: {
    const Val &a = A(0);
    if (!L) {
      if (!a.e && w <= 64) { uint64_t v = a.c; switch (c.builtin) { case B_BSWAP: setr(cv(w == 64 ? __builtin_bswap64(v) : w == 32 ? __builtin_bswap32(v) : __builtin_bswap16(v))); return true; case B_CTLZ: setr(cv(v ? w - 64 + __builtin_clzll(v) : w)); return true; case B_CTTZ: setr(cv(v ? __builtin_ctzll(v) : w)); return true; case B_CTPOP: setr(cv(__builtin_popcountll(v))); return true; default: break; } }
      setr(ev(unary(c.builtin, toE(a, w), w))); return true;
    }
    uint32_t ew = w / L; E v = toE(a, w); setr(lanewise(L, [&](uint32_t i) { return unary(c.builtin, lane(v, i, ew), ew); })); return true; }
  case B_FSHL: case B_FSHR: {
    uint32_t ew = L ? w / L : w; E a = toE(A(0), w), b = toE(A(1), w), k = toE(A(2), w);
    auto one = [&](E x, E y, E z) -> E { // funnel shift
      E cat = X.concat(x, y); E sh = X.udiv(UREM, z, X.cst(APInt(ew, ew))); sh = X.zext(sh, 2 * ew);
      if (c.builtin == B_FSHL) return X.extract(X.bin(SHL, cat, sh), ew, ew);
      return X.extract(X.bin(LSHR, cat, sh), 0, ew); };
    if (!L) setr(ev(one(a, b, k))); else setr(lanewise(L, [&](uint32_t i) { return one(lane(a, i, ew), lane(b, i, ew), lane(k, i, ew)); }));
    return true; }
  case B_LOADREL: { uint64_t base = concretize(A(0)), off = concretize(A(1)); ObjP o = resolve(base + off, 4); Val v = loadObj(*o, (base + off) & 0xffffffff, 32); (void)v; unsup("load.relative"); }
  case B_UADDSAT: case B_USUBSAT: case B_SADDSAT: case B_SSUBSAT: { uint32_t ew = L ? w / L : w; E a = toE(A(0), w), b = toE(A(1), w); if (!L) setr(ev(satE(c.builtin, a, b, w))); else setr(lanewise(L, [&](uint32_t i) { return satE(c.builtin, lane(a, i, ew), lane(b, i, ew), ew); })); return true; }
  case B_UADDO: case B_USUBO: case B_UMULO: case B_SADDO: case B_SSUBO: case B_SMULO: { if (L) unsup("vector overflow op"); Val o; Val r = ovf(c.builtin, A(0), A(1), w, o); f.r[c.dst] = r; f.r[c.dst + 1] = o; return true; }
  case B_UMAX: case B_UMIN: case B_SMAX: case B_SMIN: {
    auto one = [&](E x, E y) { switch (c.builtin) { case B_UMAX: return X.ite(X.ult(x, y), y, x); case B_UMIN: return X.ite(X.ult(y, x), y, x); case B_SMAX: return X.ite(X.slt(x, y), y, x); default: return X.ite(X.slt(y, x), y, x); } };
    uint32_t ew = L ? w / L : w; E a = toE(A(0), w), b = toE(A(1), w); if (!L) setr(ev(one(a, b))); else setr(lanewise(L, [&](uint32_t i) { return one(lane(a, i, ew), lane(b, i, ew)); })); return true; }
  case B_REDADD: case B_REDOR: case B_REDAND: case B_REDXOR: case B_REDUMAX: case B_REDUMIN: { uint32_t ew = w / L; E v = toE(A(0), w), r = lane(v, 0, ew); for (uint32_t i = 1; i < L; i++) { E y = lane(v, i, ew); switch (c.builtin) { case B_REDADD: r = X.add(r, y); break; case B_REDOR: r = X.or_(r, y); break; case B_REDAND: r = X.and_(r, y); break; case B_REDXOR: r = X.xor_(r, y); break; case B_REDUMAX: r = X.ite(X.ult(r, y), y, r); break; default: r = X.ite(X.ult(y, r), y, r); } } setr(ev(r)); return true; }
  case B_PMOVMSKB: { E v = toE(A(0), w); E acc = nullptr; for (uint32_t i = 0; i < w / 8; i++) { E b = X.extract(v, 8 * i + 7, 1); acc = acc ? X.concat(b, acc) : b; } setr(ev(X.zext(acc, c.w))); return true; }
  case B_FPTOUISAT: { double d = asD(A(0), w); setr(cv(d != d || d <= 0 ? 0 : d >= std::ldexp(1.0, c.w) ? maskw(c.w) : (uint64_t)d)); return true; }
  case B_FPTOSISAT: { double d = asD(A(0), w), lim = std::ldexp(1.0, c.w - 1); int64_t v = d != d ? 0 : d >= lim ? (int64_t)(maskw(c.w) >> 1) : d < -lim ? -(int64_t)(maskw(c.w) >> 1) - 1 : (int64_t)d; setr(cv((uint64_t)v & maskw(c.w))); return true; }
  case B_FCEIL: setr(fromD(std::ceil(asD(A(0), w)), w)); return true;
  case B_FFLOOR: setr(fromD(std::floor(asD(A(0), w)), w)); return true;
  case B_FABS: setr(fromD(std::fabs(asD(A(0), w)), w)); return true;
  case B_FTRUNC: setr(fromD(std::trunc(asD(A(0), w)), w)); return true;
  case B_FROUND: setr(fromD(std::round(asD(A(0), w)), w)); return true;
  default: unsup("external function " + demang(c.callee->getName().str()));
  }
}

static Val castOp(unsigned op, E x, uint32_t wo) {
  switch (op) { case Instruction::Trunc: return ev(X.extract(x, 0, wo)); case Instruction::ZExt: return ev(X.zext(x, wo)); case Instruction::SExt: return ev(X.sext(x, wo)); }
  unsup("cast");
}
static Val tbl1(uint32_t w) { return Val{X.cst(APInt(w, 0)), 0}; }

static void step(State &s) {
  Frame &f = s.st.back(); CInst &c = f.f->bs[f.bb].is[f.ip]; S.instrs++; s.steps++;
  auto A = [&](size_t i) -> const Val & { return get(f, c.ops[i]); };
  switch (c.op) {
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
    if (!c.lanes || c.op == Instruction::And || c.op == Instruction::Or || c.op == Instruction::Xor) f.r[c.dst] = binop(c.op, A(0), A(1), c.w);
    else { uint32_t ew = c.w / c.lanes; E a = toE(A(0), c.w), b = toE(A(1), c.w); f.r[c.dst] = lanewise(c.lanes, [&](uint32_t i) { return toE(binop(c.op, ev(lane(a, i, ew)), ev(lane(b, i, ew)), ew), ew); }); }
    f.ip++; return; }
  case Instruction::ICmp: {
    if (!c.lanes) f.r[c.dst] = icmp(c.pred, A(0), A(1), c.w2);
    else { uint32_t ew = c.w2 / c.lanes; E a = toE(A(0), c.w2), b = toE(A(1), c.w2); f.r[c.dst] = lanewise(c.lanes, [&](uint32_t i) { return toE(icmp(c.pred, ev(lane(a, i, ew)), ev(lane(b, i, ew)), ew), 1); }); }
    f.ip++; return; }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
    const Val &a = A(0);
    if (c.lanes) { uint32_t ei = c.w2 / c.lanes, eo = c.w / c.lanes; E v = toE(a, c.w2); f.r[c.dst] = lanewise(c.lanes, [&](uint32_t i) { return toE(castOp(c.op, lane(v, i, ei), eo), eo); }); }
    else if (!a.e && c.w <= 64 && c.w2 <= 64) f.r[c.dst] = cv((c.op == Instruction::SExt ? sx(a.c, c.w2) : a.c) & maskw(c.w));
    else f.r[c.dst] = castOp(c.op, toE(a, c.w2), c.w);
    f.ip++; return; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: { if (c.lanes) unsup("vector ptr cast"); const Val &a = A(0); f.r[c.dst] = c.w == c.w2 ? a : c.w < c.w2 ? ev(X.extract(toE(a, c.w2), 0, c.w)) : ev(X.zext(toE(a, c.w2), c.w)); f.ip++; return; }
  case Instruction::BitCast: case Instruction::Freeze: for (uint32_t i = 0; i < c.n; i++) f.r[c.dst + i] = get(f, c.ops[0], i); f.ip++; return;
  case Instruction::Load: { Val tmp[32]; if (c.flat.size() > 32) unsup("large aggregate load"); loadVal(A(0), c.flat, tmp); Frame &g = s.st.back(); for (uint32_t i = 0; i < c.n; i++) g.r[c.dst + i] = tmp[i]; g.ip++; return; }
  case Instruction::Store: { Val tmp[32]; if (c.flat.size() > 32) unsup("large aggregate store"); for (uint32_t i = 0; i < c.flat.size(); i++) tmp[i] = get(f, c.ops[0], i); storeVal(A(1), c.flat, tmp); s.st.back().ip++; return; }
  case Instruction::GetElementPtr: {
    Val p = A(0); uint64_t k = c.aux; E e = p.e; if (!e) k += p.c;
    for (size_t i = 0; i < c.idx.size(); i++) { const Val &x = get(f, c.idx[i].first); uint32_t w = c.cases[i]; if (!x.e) k += sx(x.c, w) * (uint64_t)c.idx[i].second; else { E t = X.mul(w < 64 ? X.sext(x.e, 64) : X.extract(x.e, 0, 64), X.cst(64, c.idx[i].second)); e = e ? X.add(e, t) : t; } }
    f.r[c.dst] = e ? ev(X.add(e, X.cst(64, k))) : cv(k); f.ip++; return; }
  case Instruction::Br: {
    if (c.ops.empty()) { jump(s, c.tgt[0]); return; }
    const Val &v = A(0); bool t = v.e ? decide(v.e) : v.c & 1; jump(s, c.tgt[t ? 0 : 1]); return; }
  case Instruction::Switch: {
    const Val &v = A(0);
    if (c.w > 64) unsup("wide switch");
    if (!v.e) { for (size_t i = 0; i < c.cases.size(); i++) if (c.cases[i] == v.c) { jump(s, c.tgt[i + 1]); return; } jump(s, c.tgt[0]); return; }
    // group cases by target so that equal targets do not fork
    uint64_t mv = s.model->ev->ev64(v.e); uint32_t t = c.tgt[0]; for (size_t i = 0; i < c.cases.size(); i++) if (c.cases[i] == mv) t = c.tgt[i + 1];
    std::map<uint32_t, E> byT; E none = X.TRUE();
    for (size_t i = 0; i < c.cases.size(); i++) { E q = X.eq(v.e, X.cst(c.w, c.cases[i])); none = X.and_(none, X.bnot(q)); if (c.tgt[i + 1] == c.tgt[0]) continue; auto &r = byT[c.tgt[i + 1]]; r = r ? X.or_(r, q) : q; }
    if (t != c.tgt[0]) { if (decide(byT[t])) { jump(s, t); return; } unsup("switch"); }
    E anyOther = X.FALSE(); for (auto &kv : byT) anyOther = X.or_(anyOther, kv.second);
    if (decide(X.bnot(anyOther))) { jump(s, c.tgt[0]); return; }
    unsup("switch"); }
  case Instruction::Select: {
    const Val &q = A(0);
    if (c.aux) { uint32_t L = c.lanes, ew = c.w / L; E cc = toE(q, L), a = toE(A(1), c.w), b = toE(A(2), c.w); f.r[c.dst] = lanewise(L, [&](uint32_t i) { return X.ite(X.extract(cc, i, 1), lane(a, i, ew), lane(b, i, ew)); }); f.ip++; return; }
    if (!q.e) { for (uint32_t i = 0; i < c.n; i++) f.r[c.dst + i] = get(f, c.ops[q.c & 1 ? 1 : 2], i); f.ip++; return; }
    E qe = rw(s, q.e);
    if (qe->op == K && qe->k) { for (uint32_t i = 0; i < c.n; i++) f.r[c.dst + i] = get(f, c.ops[1], i); f.ip++; return; }
    if (qe->op == K && !qe->k) { for (uint32_t i = 0; i < c.n; i++) f.r[c.dst + i] = get(f, c.ops[2], i); f.ip++; return; }
    if (!c.w || c.n != 1) { bool t = decide(q.e); Frame &g = s.st.back(); for (uint32_t i = 0; i < c.n; i++) g.r[c.dst + i] = get(g, c.ops[t ? 1 : 2], i); g.ip++; return; }
    if (c.I->getType()->isPointerTy()) { bool t = decide(q.e); Frame &g = s.st.back(); g.r[c.dst] = get(g, c.ops[t ? 1 : 2]); g.ip++; return; }
    f.r[c.dst] = ev(X.ite(q.e, toE(A(1), c.w), toE(A(2), c.w))); f.ip++; return; }
  case Instruction::Alloca: { uint64_t n = concretize(A(0)) * c.aux; uint64_t a = newObj(n, 0); f.allocas.push_back(a >> 32); f.r[c.dst] = cv(a); f.ip++; return; }
  case Instruction::ExtractValue: for (uint32_t i = 0; i < c.n; i++) f.r[c.dst + i] = get(f, c.ops[0], c.aux + i); f.ip++; return;
  case Instruction::InsertValue: { uint32_t k = c.ops[1].n; for (uint32_t i = 0; i < c.n; i++) f.r[c.dst + i] = (i >= c.aux && i < c.aux + k) ? get(f, c.ops[1], i - c.aux) : get(f, c.ops[0], i); f.ip++; return; }
  case Instruction::ExtractElement: { uint64_t i = concretize(A(1)); Frame &g = s.st.back(); g.r[c.dst] = ev(X.extract(toE(get(g, c.ops[0]), c.w2), i * c.w, c.w)); g.ip++; return; }
  case Instruction::InsertElement: { uint64_t i = concretize(A(2)); Frame &g = s.st.back(); uint32_t ew = c.w / c.lanes; E v = toE(get(g, c.ops[0]), c.w), x = toE(get(g, c.ops[1]), ew); g.r[c.dst] = lanewise(c.lanes, [&](uint32_t k) { return k == i ? x : lane(v, k, ew); }); g.ip++; return; }
  case Instruction::ShuffleVector: { uint32_t ew = c.w2, L = c.lanes; E a = toE(A(0), ew * L), b = toE(A(1), ew * L); f.r[c.dst] = lanewise(c.cases.size(), [&](uint32_t i) { int64_t m = (int64_t)c.cases[i]; return m < 0 ? X.cst(APInt(ew, 0)) : (uint64_t)m < L ? lane(a, m, ew) : lane(b, m - L, ew); }); f.ip++; return; }
  case Instruction::AtomicRMW: {
    Val old; vector<std::pair<uint32_t, uint32_t>> fl{{0, c.w}}; loadVal(A(0), fl, &old); Frame &g = s.st.back(); Val v = get(g, c.ops[1]), r; E o = toE(old, c.w), x = toE(v, c.w);
    switch (c.aux) { case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Add: r = binop(Instruction::Add, old, v, c.w); break; case AtomicRMWInst::Sub: r = binop(Instruction::Sub, old, v, c.w); break; case AtomicRMWInst::And: r = binop(Instruction::And, old, v, c.w); break; case AtomicRMWInst::Or: r = binop(Instruction::Or, old, v, c.w); break; case AtomicRMWInst::Xor: r = binop(Instruction::Xor, old, v, c.w); break; case AtomicRMWInst::UMax: r = ev(X.ite(X.ult(o, x), x, o)); break; case AtomicRMWInst::UMin: r = ev(X.ite(X.ult(x, o), x, o)); break; default: unsup("atomicrmw"); }
    storeVal(get(g, c.ops[0]), fl, &r); g.r[c.dst] = old; g.ip++; return; }
  case Instruction::AtomicCmpXchg: {
    Val old; vector<std::pair<uint32_t, uint32_t>> fl{{0, c.w}}; Val p = cv(concretize(A(0))); loadVal(p, fl, &old); Frame &g = s.st.back(); E q = X.eq(toE(old, c.w), toE(get(g, c.ops[1]), c.w)); bool t = decide(q); Frame &h = s.st.back();
    if (t) { Val v = get(h, c.ops[2]); storeVal(p, fl, &v); } h.r[c.dst] = old; h.r[c.dst + 1] = cv(t); h.ip++; return; }
  case Instruction::Fence: f.ip++; return;
  case Instruction::Unreachable: fatalViolation("ub", "unreachable code reached", siteOf(s));
  case Instruction::Ret: {
    Val tmp[64]; uint32_t n = 0; if (!c.ops.empty()) { n = c.ops[0].n; if (n > 64) unsup("large return"); for (uint32_t i = 0; i < n; i++) tmp[i] = get(f, c.ops[0], i); }
    bool isTry = f.isTry; popFrame(s); if (s.st.empty()) { S.paths++; sampleEnd(s); throw PathEnd(); }
    Frame &g = s.st.back(); CInst &k = g.f->bs[g.bb].is[g.ip];
    if (isTry) { if (k.n) g.r[k.dst] = cv(0); } else for (uint32_t i = 0; i < k.n && i < n; i++) g.r[k.dst + i] = tmp[i];
    afterCall(s); return; }
  case Instruction::Call: case Instruction::Invoke: {
    if (c.aux == 1) { // inline assembly: empty barriers and cpuid
      for (uint32_t i = 0; i < c.n; i++) f.r[c.dst + i] = cv(0);
      string a = cast<InlineAsm>(cast<CallBase>(c.I)->getCalledOperand())->getAsmString(); if (!a.empty() && a[0] != '#' && a.find("cpuid") == string::npos && a.find("xgetbv") == string::npos) unsup("inline asm " + a);
      if (a.empty() || a[0] == '#') { if (c.n == 1 && !c.ops.empty()) f.r[c.dst] = A(0); }
      afterCall(s); return; }
    if (c.builtin) { if (trace && c.callee) fprintf(stderr, "%*sbuiltin %s\n", (int)s.st.size(), "", c.callee->getName().str().c_str()); if (builtin(s, c)) afterCall(s); return; }
    const Function *F = c.callee; size_t na = c.ops.size();
    if (!F && cast<CallBase>(c.I)->getCalledOperand()->getName() == "__cxa_thread_atexit_impl") { for (uint32_t i = 0; i < c.n; i++) f.r[c.dst + i] = cv(0); afterCall(s); return; }
    if (!F) { na--; uint64_t a = concretize(get(f, c.ops[na])); auto it = fnAt.find(a >> 32); if (it == fnAt.end() || (a & 0xffffffff)) memErr("call through an invalid function pointer", a, 0); F = it->second;
      int b = classify(F); if (b) { CInst t = c; t.callee = F; t.builtin = b; t.ops.pop_back(); if (builtin(s, t)) afterCall(s); return; } }
    Val av[64]; size_t n = 0; Frame &g = s.st.back(); for (size_t i = 0; i < na; i++) for (uint32_t k = 0; k < c.ops[i].n; k++) { if (n >= 64) unsup("many arguments"); av[n++] = get(g, c.ops[i], k); }
    if (trace) fprintf(stderr, "%*scall %s\n", (int)s.st.size(), "", compiled(F)->name.c_str());
    pushCall(s, F, av, n); return; }
  // floating point: concrete only
  case Instruction::FAdd: f.r[c.dst] = fromD(asD(A(0), c.w) + asD(A(1), c.w), c.w); f.ip++; return;
  case Instruction::FSub: f.r[c.dst] = fromD(asD(A(0), c.w) - asD(A(1), c.w), c.w); f.ip++; return;
  case Instruction::FMul: f.r[c.dst] = fromD(asD(A(0), c.w) * asD(A(1), c.w), c.w); f.ip++; return;
  case Instruction::FDiv: f.r[c.dst] = fromD(asD(A(0), c.w) / asD(A(1), c.w), c.w); f.ip++; return;
  case Instruction::FNeg: f.r[c.dst] = fromD(-asD(A(0), c.w), c.w); f.ip++; return;
  case Instruction::FPExt: case Instruction::FPTrunc: f.r[c.dst] = fromD(asD(A(0), c.w2), c.w); f.ip++; return;
  case Instruction::UIToFP: if (A(0).e) unsup("symbolic floating point"); f.r[c.dst] = fromD((double)A(0).c, c.w); f.ip++; return;
  case Instruction::SIToFP: if (A(0).e) unsup("symbolic floating point"); f.r[c.dst] = fromD((double)(int64_t)sx(A(0).c, c.w2), c.w); f.ip++; return;
  case Instruction::FPToUI: f.r[c.dst] = cv((uint64_t)asD(A(0), c.w2) & maskw(c.w)); f.ip++; return;
  case Instruction::FPToSI: f.r[c.dst] = cv((uint64_t)(int64_t)asD(A(0), c.w2) & maskw(c.w)); f.ip++; return;
  case Instruction::FCmp: { double a = asD(A(0), c.w2), b = asD(A(1), c.w2); bool un = a != a || b != b, r; switch (c.pred) { case CmpInst::FCMP_OEQ: r = a == b; break; case CmpInst::FCMP_OGT: r = a > b; break; case CmpInst::FCMP_OGE: r = a >= b; break; case CmpInst::FCMP_OLT: r = a < b; break; case CmpInst::FCMP_OLE: r = a <= b; break; case CmpInst::FCMP_ONE: r = !un && a != b; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || a == b; break; case CmpInst::FCMP_UGT: r = un || a > b; break; case CmpInst::FCMP_UGE: r = un || a >= b; break; case CmpInst::FCMP_ULT: r = un || a < b; break; case CmpInst::FCMP_ULE: r = un || a <= b; break; case CmpInst::FCMP_UNE: r = un || a != b; break; default: r = c.pred == CmpInst::FCMP_TRUE; } f.r[c.dst] = cv(r); f.ip++; return; }
  default: unsup(string("instruction ") + c.I->getOpcodeName());
  }
}
