#include <complex>
#include <cmath>
#include <cstdio>
#include <map>
#include "exec.h"
#define B(name) static bool name(Ex& X, State& S, const Inst& in, std::vector<Val>& a, Val& r)
#define UNUSED (void)X, (void)S, (void)in, (void)a, (void)r
B(nop) { UNUSED; r = Val::C(0); return true; }
B(ret1) { UNUSED; r = Val::C(1); return true; }
B(retArg0) { UNUSED; r = a[0]; return true; }
static Type* argT(const Inst& in, int i) { return (Type*)(uintptr_t)in.x[i]; }
// ---- allocation
static bool allocImpl(Ex& X, State& S, const Val& n, ObjKind k, Val& r, bool nothrow) {
  bool fail;
  uint64_t p = X.doAlloc(S, n, k, fail);
  if (fail) {
    if (nothrow) { r = Val::C(0); return true; }
    X.throwStd(S, "_ZTISt9bad_alloc", "allocation above the limit");
    return false;
  }
  r = Val::C(p);
  return true;
}
B(bMalloc) { return allocImpl(X, S, a[0], okMalloc, r, true); }
B(bNew) { return allocImpl(X, S, a[0], okNew, r, false); }
B(bNewArr) { return allocImpl(X, S, a[0], okNewArr, r, false); }
B(bNewNT) { return allocImpl(X, S, a[0], okNew, r, true); }
B(bCalloc) {
  Val n = X.fromE(mk2(kMul, X.toE(a[0], 64, BV), X.toE(a[1], 64, BV)));
  if (!allocImpl(X, S, n, okMalloc, r, true)) return false;
  if (r.c) for (auto& s : S.mem.data(r.c >> 32)->s) { s.raw = 0; s.mask = 0xff; }
  return true;
}
B(bPosixMemalign) {
  bool fail;
  uint64_t p = X.doAlloc(S, a[2], okMalloc, fail);
  if (!fail) X.storeScalar(S, a[0], Val::C(p), 8, BV, 64);
  r = Val::C(fail ? 12 : 0);
  return true;
}
B(bAligned) { return allocImpl(X, S, a[1], okMalloc, r, true); }
B(bFree) { UNUSED; X.doFree(S, a[0], okMalloc); return true; }
B(bDelete) { UNUSED; X.doFree(S, a[0], okNew); return true; }
B(bDeleteArr) { UNUSED; X.doFree(S, a[0], okNewArr); return true; }
B(bRealloc) {
  uint64_t p = X.concVal(S, a[0]), n = X.concVal(S, a[1]);
  bool fail; uint64_t q = X.doAlloc(S, Val::C(n), okMalloc, fail);
  if (fail) { r = Val::C(0); return true; }
  if (p) { const Obj* o = S.mem.get(p >> 32); if (!o || o->freed) X.error(S, "use-after-free", "realloc of a bad pointer"); X.copyMem(S, q, p, std::min<uint64_t>(n, o->size)); X.doFree(S, Val::C(p), okMalloc); }
  r = Val::C(q);
  return true;
}
// ---- memory
B(bMemcpy) {
  uint64_t n = X.concVal(S, a[2]);
  uint64_t d = X.concVal(S, a[0]), s = X.concVal(S, a[1]);
  r = a[0];
  if (n) X.copyMem(S, d, s, n);
  return true;
}
B(bMemset) {
  uint64_t n = X.concVal(S, a[2]), d = X.concVal(S, a[0]);
  r = a[0];
  if (!n) return true;
  Val v = a[1];
  if (v.e) v = X.fromE(mkExtract(v.e, 0, 8)); else v.c &= 0xff;
  uint32_t id; uint64_t off;
  X.access(S, d, n, true, id, off);
  uint64_t i = 0;
  if (!v.e) {
    uint64_t w = v.c * 0x0101010101010101ull;
    auto& sl = S.mem.data(id)->s;
    while (i < n) {
      if (((off + i) & 7) == 0 && n - i >= 8) { Slot& t = sl[(off + i) >> 3]; t.raw = w; t.mask = 0xff; t.form = 0; t.e = t.e2 = nullptr; i += 8; }
      else { X.wrBytes(S, id, off + i, 1, v, BV); i++; }
    }
  } else for (; i < n; i++) X.wrBytes(S, id, off + i, 1, v, BV);
  return true;
}
B(bMemcmp) { uint64_t n = X.concVal(S, a[2]); r = X.cmpMem(S, X.concVal(S, a[0]), X.concVal(S, a[1]), n, false); return true; }
B(bBcmp) { uint64_t n = X.concVal(S, a[2]); r = X.cmpMem(S, X.concVal(S, a[0]), X.concVal(S, a[1]), n, true); return true; }
static Val byteAt(Ex& X, State& S, uint64_t p) { uint32_t id; uint64_t o; X.access(S, p, 1, false, id, o); return X.rdBytes(S, id, o, 1, BV, 8); }
static bool byteIs(Ex& X, State& S, const Val& v, uint8_t c) { return v.e ? X.decide(S, mk2(kEq, v.e, mkConst(c, 8))) : v.c == c; }
B(bStrlen) {
  uint64_t p = X.concVal(S, a[0]), n = 0;
  while (!byteIs(X, S, byteAt(X, S, p + n), 0)) n++;
  r = Val::C(n);
  return true;
}
B(bMemchr) {
  uint64_t p = X.concVal(S, a[0]), n = X.concVal(S, a[2]);
  E c = mkExtract(X.toE(a[1], argT(in, 1)->w, BV), 0, 8);
  for (uint64_t i = 0; i < n; i++) {
    Val v = byteAt(X, S, p + i);
    E e = mk2(kEq, X.toE(v, 8, BV), c);
    if (X.decide(S, e)) { r = Val::C(p + i); return true; }
  }
  r = Val::C(0);
  return true;
}
B(bStrcmp) {
  uint64_t p = X.concVal(S, a[0]), q = X.concVal(S, a[1]);
  uint64_t n = in.x.size() > 2 ? X.concVal(S, a[2]) : ~0ull;
  for (uint64_t i = 0; i < n; i++) {
    Val x = byteAt(X, S, p + i), y = byteAt(X, S, q + i);
    E ex = X.toE(x, 8, BV), ey = X.toE(y, 8, BV);
    if (!X.decide(S, mk2(kEq, ex, ey))) { r = X.fromE(mkIte(mk2(kUlt, ex, ey), mkConst(0xffffffff, 32), mkConst(1, 32))); return true; }
    if (byteIs(X, S, x, 0)) break;
  }
  r = Val::C(0);
  return true;
}
B(bStrchr) {
  uint64_t p = X.concVal(S, a[0]); uint8_t c = (uint8_t)X.concVal(S, a[1]);
  for (uint64_t i = 0;; i++) {
    Val v = byteAt(X, S, p + i);
    if (byteIs(X, S, v, c)) { r = Val::C(p + i); return true; }
    if (byteIs(X, S, v, 0)) { r = Val::C(0); return true; }
  }
}
// ---- floating point
typedef double (*F1)(double);
typedef float (*F1f)(float);
static Sort sortOf(Type* t) { return t->sort(); }
static bool uf1(Ex& X, State& S, const Inst& in, std::vector<Val>& a, Val& r, const char* nm, F1 f) {
  Type* t = argT(in, 0);
  if (!a[0].e) {
    if (t->k == Type::D) r = Val::C(fromD(f(asD(a[0].c))));
    else r = Val::C(fromF((float)f((double)asF((uint32_t)a[0].c))));
    return true;
  }
  std::string n = nm;
  bool isLog = n.compare(0, 3, "log") == 0;
  E x = X.toE(a[0], t);
  if (g_mode == MReal && isLog) {
    E pos = mk2(kFLt, mkConst(0, x->w, x->s), x);
    if (!S.pcs.count(pos)) {
      if (solve(X.Z, S.pc, mkNot(pos), nullptr) != UNSAT) { X.realExcluded++; if (!X.feasible(S, pos)) throw PathEnd{1}; S.pc.push_back(pos); }
      S.pcs.insert(pos);
    }
  }
  if (t->k == Type::F) n += "f";
  r = X.fromE(mkUF(ufIndex(n), {x}, t->w, t->sort()));
  return true;
}
#define UF1(fn, nm, nat) B(fn) { return uf1(X, S, in, a, r, nm, nat); }
UF1(bLog10, "log10", [](double x) { return std::log10(x); })
UF1(bLog, "log", [](double x) { return std::log(x); })
UF1(bLog2, "log2", [](double x) { return std::log2(x); })
UF1(bCos, "cos", [](double x) { return std::cos(x); })
UF1(bSin, "sin", [](double x) { return std::sin(x); })
UF1(bTan, "tan", [](double x) { return std::tan(x); })
UF1(bAtan, "atan", [](double x) { return std::atan(x); })
UF1(bTanh, "tanh", [](double x) { return std::tanh(x); })
UF1(bExp2, "exp2", [](double x) { return std::exp2(x); })
// Over the reals: e = sum of c * log10(t) + d.  Then 10^e = 10^d * prod t^c.
static bool linLog(E e, long double k, std::map<E, long double>& m, long double& d, const char* lg = "log10", int depth = 0) {
  if (depth > 40) return false;
  if (e->k == kConst && e->s == F64) { d += k * (long double)asD((uint64_t)e->c); return true; }
  switch (e->k) {
    case kUF: if (g_ufs[(uint32_t)e->c] != lg) return false; m[e->a[0]] += k; return true;
    case kFNeg: return linLog(e->a[0], -k, m, d, lg, depth + 1);
    case kFAdd: return linLog(e->a[0], k, m, d, lg, depth + 1) && linLog(e->a[1], k, m, d, lg, depth + 1);
    case kFSub: return linLog(e->a[0], k, m, d, lg, depth + 1) && linLog(e->a[1], -k, m, d, lg, depth + 1);
    case kFMul: for (int i = 0; i < 2; i++) if (isC(e->a[i])) return linLog(e->a[1 - i], k * (long double)asD((uint64_t)e->a[i]->c), m, d, lg, depth + 1); return false;
    case kFDiv: if (isC(e->a[1])) return linLog(e->a[0], k / (long double)asD((uint64_t)e->a[1]->c), m, d, lg, depth + 1); return false;
    default: return false;
  }
}
static E pow10Real(E x, bool natural = false) {
  std::map<E, long double> m; long double d = 0;
  if (!linLog(x, 1, m, d, natural ? "log" : "log10") || m.empty()) return nullptr;
  double c = (double)(natural ? std::exp(d) : std::pow((long double)10, d));
  E num = mkConst(fromD(std::fabs(c - 1) < 1e-15 ? 1.0 : c), 64, F64), den = nullptr;
  std::vector<std::pair<uint32_t, std::pair<E, long double>>> ts;
  for (auto& p : m) ts.push_back({p.first->id, p});
  std::sort(ts.begin(), ts.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (auto& t : ts) {
    long double q = t.second.second, n = std::floor(std::fabs(q) + 1e-9L), h = std::fabs(q) - n;
    E b = t.second.first;
    auto put = [&](E y) { if (q < 0) den = den ? mk2(kFMul, den, y) : y; else num = mk2(kFMul, num, y); };
    if (n > 8) return nullptr;
    for (int i = 0; i < (int)n; i++) put(b);
    if (std::fabs(h - 0.5L) < 1e-12L) put(mk1(kFSqrt, b, 64, F64)); else if (std::fabs(h) > 1e-12L) return nullptr;
  }
  return den ? mk2(kFDiv, num, den) : num;
}
B(bExp) {
  if (g_mode == MReal && a[0].e && argT(in, 0)->k == Type::D) if (E y = pow10Real(X.toE(a[0], argT(in, 0)), true)) {
    // tied to the function, which stays monotonous with its other values
    E u = mkUF(ufIndex("exp"), {X.toE(a[0], argT(in, 0))}, 64, F64), q = mk2(kFEq, u, y);
    if (S.pcs.insert(q).second) S.pc.push_back(q);
    r = X.fromE(y);
    return true;
  }
  return uf1(X, S, in, a, r, "exp", [](double x) { return std::exp(x); });
}
B(bExp10) {
  Type* t = argT(in, 0);
  bool d = t->k == Type::D;
  if (!a[0].e) { r = d ? Val::C(fromD(std::pow(10.0, asD(a[0].c)))) : Val::C(fromF(std::pow(10.0f, asF((uint32_t)a[0].c)))); return true; }
  E x = X.toE(a[0], t);
  if (g_mode == MReal && d) if (E y = pow10Real(x)) { r = X.fromE(y); return true; }
  r = X.fromE(mkUF(ufIndex(d ? "exp10" : "exp10f"), {x}, t->w, t->sort()));
  return true;
}
B(bPow) {
  Type* t = argT(in, 0);
  bool d = t->k == Type::D;
  if (!a[0].e && !a[1].e) {
    r = d ? Val::C(fromD(std::pow(asD(a[0].c), asD(a[1].c)))) : Val::C(fromF(std::pow(asF((uint32_t)a[0].c), asF((uint32_t)a[1].c))));
    return true;
  }
  if (!a[0].e && d && asD(a[0].c) == 10) { std::vector<Val> v{a[1]}; return bExp10(X, S, in, v, r); }
  if (!a[1].e) {
    double y = d ? asD(a[1].c) : asF((uint32_t)a[1].c);
    if (y == 2) { E x = X.toE(a[0], t); r = X.fromE(mk2(kFMul, x, x)); return true; }
    if (y == 1) { r = a[0]; return true; }
    if (y == 0) { r = d ? Val::C(fromD(1)) : Val::C(fromF(1)); return true; }
  }
  r = X.fromE(mkUF(ufIndex(d ? "pow" : "powf"), {X.toE(a[0], t), X.toE(a[1], t)}, t->w, t->sort()));
  return true;
}
B(bPowi) {
  Type* t = argT(in, 0); bool d = t->k == Type::D;
  int n = (int)(int32_t)X.concVal(S, a[1]);
  if (!a[0].e) { r = d ? Val::C(fromD(std::pow(asD(a[0].c), n))) : Val::C(fromF(std::pow(asF((uint32_t)a[0].c), n))); return true; }
  E x = X.toE(a[0], t), acc = nullptr;
  for (int i = 0; i < std::abs(n); i++) acc = acc ? mk2(kFMul, acc, x) : x;
  if (n <= 0) X.unsupported(S, "powi");
  r = X.fromE(acc);
  return true;
}
B(bSqrt) {
  Type* t = argT(in, 0);
  if (t->k == Type::Vec) X.unsupported(S, "vector sqrt");
  if (!a[0].e) { r = t->k == Type::D ? Val::C(fromD(std::sqrt(asD(a[0].c)))) : Val::C(fromF(std::sqrt(asF((uint32_t)a[0].c)))); return true; }
  E x = X.toE(a[0], t);
  if (g_mode == MReal) {
    E nn = mk2(kFLe, mkConst(0, x->w, x->s), x);
    if (!S.pcs.count(nn)) {
      if (solve(X.Z, S.pc, mkNot(nn), nullptr) != UNSAT) { X.realExcluded++; if (!X.feasible(S, nn)) throw PathEnd{1}; S.pc.push_back(nn); }
      S.pcs.insert(nn);
    }
  }
  r = X.fromE(mk1(kFSqrt, x, t->w, t->sort()));
  return true;
}
static bool fun(Ex& X, State& S, const Inst& in, std::vector<Val>& a, Val& r, K k, int aux) {
  Type* t = argT(in, 0);
  if (t->k == Type::Vec) {
    std::vector<Val> v;
    for (uint64_t i = 0; i < t->n; i++) v.push_back(X.un(S, k, a[0].agg[i], t->el[0]->w, t->el[0]->sort(), aux));
    r.agg = agg(v); return true;
  }
  r = X.un(S, k, a[0], t->w, t->sort(), aux); return true;
}
B(bFabs) { return fun(X, S, in, a, r, kFAbs, 0); }
B(bFloor) { return fun(X, S, in, a, r, kFRound, kRFloor); }
B(bCeil) { return fun(X, S, in, a, r, kFRound, kRCeil); }
B(bTrunc) { return fun(X, S, in, a, r, kFRound, kRTrunc); }
B(bRint) { return fun(X, S, in, a, r, kFRound, kRRint); }
B(bRound) { return fun(X, S, in, a, r, kFRound, kRRound); }
static bool roundTo(Ex& X, State& S, const Inst& in, std::vector<Val>& a, Val& r, int kind) {
  static Type i64; i64.k = Type::Int; i64.w = 64;
  Type* t = argT(in, 0);
  Val v = X.un(S, kFRound, a[0], t->w, t->sort(), kind);
  r = X.castOp(S, 4, v, t, &i64);
  return true;
}
B(bLround) { return roundTo(X, S, in, a, r, kRRound); }
B(bLrint) { return roundTo(X, S, in, a, r, kRRint); }
B(bFmuladd) { Type* t = argT(in, 0); Val m = X.bin(S, kFMul, a[0], a[1], t); r = X.bin(S, kFAdd, m, a[2], t); return true; }
static bool minmax(Ex& X, State& S, const Inst& in, std::vector<Val>& a, Val& r, bool mx) {
  (void)S;
  Type* t = argT(in, 0);
  if (t->k == Type::Vec) X.unsupported(S, "vector min/max");
  Val lt = mx ? X.fcmp(2, a[0], a[1], t) : X.fcmp(4, a[0], a[1], t);
  Val an = X.un(S, kFIsNaN, a[0], 1, t->sort()), bn = X.un(S, kFIsNaN, a[1], 1, t->sort());
  // value of fmin/fmax: the non-NaN operand when one is NaN
  Val inner = X.select(lt, a[0], a[1], t);
  inner = X.select(bn, a[0], inner, t);
  r = X.select(an, a[1], inner, t);
  return true;
}
B(bFmin) { return minmax(X, S, in, a, r, false); }
B(bFmax) { return minmax(X, S, in, a, r, true); }
B(bFmod) { r = X.bin(S, kFRem, a[0], a[1], argT(in, 0)); return true; }
B(bCopysign) {
  Type* t = argT(in, 0); int w = t->w;
  if (g_mode == MReal && (a[0].e || a[1].e)) {
    E m = mk1(kFAbs, X.toE(a[0], t), w, t->sort());
    E s = mk2(kFLt, X.toE(a[1], t), mkConst(0, w, t->sort()));
    r = X.fromE(mkIte(s, mk1(kFNeg, m, w, t->sort()), m)); return true;
  }
  E x = mk1(kF2B, X.toE(a[0], t), w, BV), y = mk1(kF2B, X.toE(a[1], t), w, BV);
  E s = mkConst((u128)1 << (w - 1), w), nm = mkConst(((u128)1 << (w - 1)) - 1, w);
  r = X.fromE(mk1(kB2F, mk2(kOr, mk2(kAnd, x, nm), mk2(kAnd, y, s)), w, t->sort()));
  return true;
}
B(bIsFpClass) {
  Type* t = argT(in, 0); uint64_t m = a[1].c;
  E x = X.toE(a[0], t);
  E nan = mk1(kFIsNaN, x, 1, BV);
  double inf = INFINITY;
  auto k = [&](double d) { return t->k == Type::D ? mkConst(fromD(d), 64, F64) : mkConst(fromF((float)d), 32, F32); };
  E res = mkBool(false);
  E pinf = g_mode == MReal && !isC(x) ? mkBool(false) : mk2(kFEq, x, k(inf)), ninf = g_mode == MReal && !isC(x) ? mkBool(false) : mk2(kFEq, x, k(-inf));
  uint64_t fin = m & 0x1f8;
  if ((m & 3) == 3) res = mk2(kOr, res, nan); else if (m & 3) X.unsupported(S, "is.fpclass snan");
  if (m & 0x200) res = mk2(kOr, res, pinf);
  if (m & 4) res = mk2(kOr, res, ninf);
  if (fin == 0x1f8) res = mk2(kOr, res, mk2(kAnd, mkNot(nan), mk2(kAnd, mkNot(pinf), mkNot(ninf))));
  else if (fin == 0x60) res = mk2(kOr, res, mk2(kFEq, x, k(0)));
  else if (fin) X.unsupported(S, "is.fpclass");
  r = X.fromE(res);
  return true;
}
// ---- integer intrinsics
static Type* T0(const Inst& in) { return argT(in, 0); }
static bool imm(Ex& X, State& S, const Inst& in, std::vector<Val>& a, Val& r, int pred) {
  if (T0(in)->k == Type::Vec) X.unsupported(S, "vector int min/max");
  Val c = X.icmp(S, pred, a[0], a[1], T0(in));
  r = X.select(c, a[0], a[1], T0(in)); return true;
}
B(bSmax) { return imm(X, S, in, a, r, 6); }
B(bSmin) { return imm(X, S, in, a, r, 8); }
B(bUmax) { return imm(X, S, in, a, r, 2); }
B(bUmin) { return imm(X, S, in, a, r, 4); }
B(bAbs) { Type* t = T0(in); Val z = Val::C(0); Val n = X.bin(S, kSub, z, a[0], t); Val c = X.icmp(S, 8, a[0], z, t); r = X.select(c, n, a[0], t); return true; }
B(bBswap) {
  Type* t = T0(in); E e = X.toE(a[0], t), o = nullptr;
  for (int i = 0; i < t->w / 8; i++) { E b = mkExtract(e, 8 * i, 8); o = o ? mkConcat(o, b) : b; }
  r = X.fromE(o); return true;
}
B(bCtlz) { Type* t = T0(in); E e = X.toE(a[0], t), o = mkConst(t->w, t->w); for (int i = 0; i < t->w; i++) o = mkIte(mkExtract(e, i, 1), mkConst(t->w - 1 - i, t->w), o); r = X.fromE(o); return true; }
B(bCttz) { Type* t = T0(in); E e = X.toE(a[0], t), o = mkConst(t->w, t->w); for (int i = t->w; i-- > 0;) o = mkIte(mkExtract(e, i, 1), mkConst(i, t->w), o); r = X.fromE(o); return true; }
B(bCtpop) { Type* t = T0(in); E e = X.toE(a[0], t), o = mkConst(0, t->w); for (int i = 0; i < t->w; i++) o = mk2(kAdd, o, mk1(kZExt, mkExtract(e, i, 1), t->w, BV)); r = X.fromE(o); return true; }
static bool ovf(Ex& X, State& S, const Inst& in, std::vector<Val>& a, Val& r, K k, bool sgn) {
  Type* t = T0(in); int w = t->w;
  E x = X.toE(a[0], t), y = X.toE(a[1], t);
  int w2 = k == kMul ? 2 * w : w + 1;
  if (w2 > 128) X.unsupported(S, "wide overflow");
  E ex = mk1(sgn ? kSExt : kZExt, x, w2, BV), ey = mk1(sgn ? kSExt : kZExt, y, w2, BV);
  E full = mk2(k, ex, ey), lo = mk2(k, x, y);
  E o = mkNot(mk2(kEq, full, mk1(sgn ? kSExt : kZExt, lo, w2, BV)));
  r.agg = agg({X.fromE(lo), X.fromE(o)});
  return true;
}
B(bUaddo) { return ovf(X, S, in, a, r, kAdd, false); }
B(bSaddo) { return ovf(X, S, in, a, r, kAdd, true); }
B(bUsubo) { return ovf(X, S, in, a, r, kSub, false); }
B(bSsubo) { return ovf(X, S, in, a, r, kSub, true); }
B(bUmulo) { return ovf(X, S, in, a, r, kMul, false); }
B(bSmulo) { return ovf(X, S, in, a, r, kMul, true); }
B(bUsubSat) { Type* t = T0(in); Val c = X.icmp(S, 4, a[0], a[1], t); r = X.select(c, Val::C(0), X.bin(S, kSub, a[0], a[1], t), t); return true; }
B(bUaddSat) { Type* t = T0(in); Val s = X.bin(S, kAdd, a[0], a[1], t); Val c = X.icmp(S, 4, s, a[0], t); r = X.select(c, Val::C(t->w >= 64 ? ~0ull : (1ull << t->w) - 1), s, t); return true; }
B(bFshl) {
  Type* t = T0(in); int w = t->w; uint64_t s = X.concVal(S, a[2]) % w;
  if (!s) { r = a[0]; return true; }
  r = X.fromE(mk2(kOr, mk2(kShl, X.toE(a[0], t), mkConst(s, w)), mk2(kLShr, X.toE(a[1], t), mkConst(w - s, w)))); return true;
}
B(bFshr) {
  Type* t = T0(in); int w = t->w; uint64_t s = X.concVal(S, a[2]) % w;
  if (!s) { r = a[1]; return true; }
  r = X.fromE(mk2(kOr, mk2(kShl, X.toE(a[0], t), mkConst(w - s, w)), mk2(kLShr, X.toE(a[1], t), mkConst(s, w)))); return true;
}
B(bObjSize) { UNUSED; r = Val::C(a[1].c ? 0 : ~0ull); return true; }
// ---- exceptions
B(bExcAlloc) { UNUSED; uint32_t id = S.mem.alloc(X.concVal(S, a[0]), okExc, 0); r = Val::C(addrOf(id)); return true; }
B(bThrow) {
  UNUSED;
  auto it = X.tiByAddr.find(a[1].c);
  int t = it == X.tiByAddr.end() ? X.typeOf("?") : it->second;
  uint64_t o = a[0].c;
  S.mem.mut(o >> 32)->site = t;
  X.throwExc(S, o, t);
  return false;
}
B(bBeginCatch) { UNUSED; S.caught.push_back({a[0].c, S.excType}); r = a[0]; return true; }
B(bEndCatch) { UNUSED; if (!S.caught.empty()) S.caught.pop_back(); return true; }
B(bRethrow) { UNUSED; if (S.caught.empty()) X.error(S, "terminate", "rethrow without an exception"); auto c = S.caught.back(); X.throwExc(S, c.first, c.second); return false; }
B(bTypeidFor) { UNUSED; auto it = X.tiByAddr.find(a[0].c); r = Val::C(it == X.tiByAddr.end() ? 999999 : it->second + 1); return true; }
B(bTerminate) { UNUSED; X.error(S, "terminate", "std::terminate called"); }
B(bAbort) { UNUSED; X.error(S, "abort", "abort called"); }
B(bAssertFail) { UNUSED; X.error(S, "assert", "assert failed: " + X.cstr(S, X.concVal(S, a[0]))); }
B(bExit) { UNUSED; X.error(S, "exit", "process exit called"); }
B(bTrap) { UNUSED; X.error(S, "trap", "undefined-behaviour trap"); }
B(bPure) { UNUSED; X.error(S, "pure-virtual", "pure virtual call"); }
#define THROW(fn, zti) B(fn) { UNUSED; X.throwStd(S, zti, ""); return false; }
THROW(tLength, "_ZTISt12length_error")
THROW(tOOR, "_ZTISt12out_of_range")
THROW(tLogic, "_ZTISt11logic_error")
THROW(tInvArg, "_ZTISt16invalid_argument")
THROW(tBadAlloc, "_ZTISt9bad_alloc")
THROW(tBadArr, "_ZTISt20bad_array_new_length")
THROW(tBadFn, "_ZTISt17bad_function_call")
THROW(tRuntime, "_ZTISt13runtime_error")
THROW(tBadCast, "_ZTISt8bad_cast")
THROW(tOverflow, "_ZTISt14overflow_error")
B(tBadOpt) { UNUSED; X.throwStd(S, "_ZTISt19bad_optional_access", ""); return false; }
// ---- guards
B(bGuardAcq) { UNUSED; Val v = X.loadScalar(S, a[0], 1, BV, 8); r = Val::C(X.concVal(S, v) == 0); return true; }
B(bGuardRel) { UNUSED; X.storeScalar(S, a[0], Val::C(1), 1, BV, 8); return true; }
// ---- harness interface
static bool mkInput(Ex& X, State& S, const std::string& nm, int w, Sort s, char kind, Val& r) {
  Val v = X.fromE(mkVar(nm, w, s));
  S.inputs.push_back({nm, v, kind, w});
  r = v;
  return true;
}
B(vF64) { UNUSED; return mkInput(X, S, X.cstr(S, X.concVal(S, a[0])), 64, F64, 'd', r); }
B(vRange) {
  UNUSED;
  mkInput(X, S, X.cstr(S, X.concVal(S, a[0])), 64, F64, 'd', r);
  X.assume(S, boundVar(X.toE(r, argT(in, 1)), asD(X.concVal(S, a[1])), asD(X.concVal(S, a[2]))));
  return true;
}
B(vF32) { UNUSED; return mkInput(X, S, X.cstr(S, X.concVal(S, a[0])), 32, F32, 'f', r); }
B(vU64) { UNUSED; return mkInput(X, S, X.cstr(S, X.concVal(S, a[0])), 64, BV, 'u', r); }
B(vU32) { UNUSED; return mkInput(X, S, X.cstr(S, X.concVal(S, a[0])), 32, BV, 'u', r); }
B(vU16) { UNUSED; return mkInput(X, S, X.cstr(S, X.concVal(S, a[0])), 16, BV, 'u', r); }
B(vU8) { UNUSED; return mkInput(X, S, X.cstr(S, X.concVal(S, a[0])), 8, BV, 'u', r); }
B(vBytes) {
  UNUSED;
  std::string nm = X.cstr(S, X.concVal(S, a[0])); uint64_t p = X.concVal(S, a[1]), n = X.concVal(S, a[2]);
  for (uint64_t i = 0; i < n; i++) {
    Val v; mkInput(X, S, nm + "[" + std::to_string(i) + "]", 8, BV, 'u', v);
    X.storeScalar(S, Val::C(p + i), v, 1, BV, 8);
  }
  return true;
}
B(vChoose) {
  UNUSED;
  std::string nm = X.cstr(S, X.concVal(S, a[0])); uint64_t n = X.concVal(S, a[1]);
  // explicit fork: one state per value, lowest first
  std::string key = "choose" + std::to_string(S.inputs.size());
  auto it = S.kv.find(key);
  uint64_t v = it == S.kv.end() ? 0 : it->second;
  if (n == 0) throw PathEnd{1};
  auto pp = X.opt.params.find("fix:" + nm);
  if (pp != X.opt.params.end()) v = std::stoull(pp->second);
  else if (v + 1 < n) {
    auto c = std::make_unique<State>(S);
    c->kv[key] = v + 1;
    c->depth++;
    X.work.push_back(std::move(c));
    X.forks++;
  }
  if (v >= n) throw PathEnd{1};
  S.kv.erase(key);
  Val x = Val::C(v);
  S.inputs.push_back({nm, x, 'u', 32});
  r = x;
  return true;
}
static E asBool(Ex& X, const Inst& in, const Val& v, int i) {
  Type* t = argT(in, i);
  E e = X.toE(v, t);
  return t->w == 1 ? e : mkNot(mk2(kEq, e, mkConst(0, t->w)));
}
B(vAssume) { UNUSED; X.assume(S, asBool(X, in, a[0], 0)); return true; }
B(vAssert) { UNUSED; X.check(S, asBool(X, in, a[0], 0), "assert", X.cstr(S, X.concVal(S, a[1]))); return true; }
B(vClose) {
  UNUSED;
  Type* t = argT(in, 0);
  E x = X.toE(a[0], t), y = X.toE(a[1], t);
  double tol = asD(a[2].c);
  std::string msg = X.cstr(S, X.concVal(S, a[3]));
  if (x == y) { X.asserts++; X.assertsProved++; return true; }
  E nanb = mk2(kAnd, mk1(kFIsNaN, x, 1, BV), mk1(kFIsNaN, y, 1, BV));
  E eq = mk2(kOr, mk2(kFEq, x, y), nanb);
  if (isC(eq) && eq->c) { X.check(S, eq, "assert", msg); return true; }
  if (g_mode == MUF || tol == 0) { X.check(S, eq, "assert", msg); return true; }
  E d = mk1(kFAbs, mk2(kFSub, x, y), 64, F64);
  if (isC(x) && isC(y)) {
    double u = asD((uint64_t)x->c), w = asD((uint64_t)y->c);
    X.check(S, mkBool(std::fabs(u - w) <= tol * std::max({1.0, std::fabs(u), std::fabs(w)})), "assert", msg);
    return true;
  }
  E c = mk2(kFLe, d, mkConst(fromD(tol), 64, F64));
  if (g_mode == MReal && !isC(eq)) {
    if (solve(X.Z, S.pc, mkNot(eq), nullptr) == UNSAT) { X.asserts++; X.assertsProved++; return true; }
    // rounding of folded constants can break exact equality: allow the
    // tolerance, scaled by the magnitude
    E s = mk2(kFMul, mkConst(fromD(tol), 64, F64), mk2(kFAdd, mkConst(fromD(1.0), 64, F64), mk1(kFAbs, y, 64, F64)));
    c = mk2(kFLe, d, s);
  } else if (!isC(eq)) c = mk2(kOr, c, eq);
  X.check(S, c, "assert", msg);
  return true;
}
B(vReach) {
  UNUSED;
  std::string n = X.cstr(S, X.concVal(S, a[0]));
  for (int q : S.reach) if (X.reachNames[q] == n) return true;
  int id = -1;
  for (size_t i = 0; i < X.reachNames.size(); i++) if (X.reachNames[i] == n) id = (int)i;
  if (id < 0) { id = X.reachNames.size(); X.reachNames.push_back(n); }
  S.reach.push_back(id);
  return true;
}
B(vConc) { UNUSED; r = Val::C(X.concVal(S, a[0])); return true; }
B(vIsSym) { UNUSED; r = Val::C(a[0].e != nullptr); return true; }
B(vIteD) { UNUSED; r = X.select(X.fromE(asBool(X, in, a[0], 0)), a[1], a[2], argT(in, 1)); return true; }
B(vAnd) { UNUSED; r = X.fromE(mk1(kZExt, mk2(kAnd, asBool(X, in, a[0], 0), asBool(X, in, a[1], 1)), 32, BV)); return true; }
B(vOr) { UNUSED; r = X.fromE(mk1(kZExt, mk2(kOr, asBool(X, in, a[0], 0), asBool(X, in, a[1], 1)), 32, BV)); return true; }
B(vParam) {
  UNUSED;
  auto it = X.opt.params.find(X.cstr(S, X.concVal(S, a[0])));
  r = it == X.opt.params.end() ? a[1] : Val::C((uint64_t)(int64_t)std::stoll(it->second) & 0xffffffffull);
  return true;
}
B(vEnd) { UNUSED; throw PathEnd{0}; }
B(vDecide) { UNUSED; r = Val::C(X.decide(S, asBool(X, in, a[0], 0))); return true; }
B(vUF1) { UNUSED; r = X.fromE(mkUF(ufIndex("h_" + X.cstr(S, X.concVal(S, a[0]))), {X.toE(a[1], 64, F64)}, 64, F64)); return true; }
B(vLive) {
  UNUSED;
  uint64_t n = 0;
  for (uint32_t i = 1; i < S.mem.next; i++) { const Obj* o = S.mem.get(i); if (o && !o->freed && (o->kind == okMalloc || o->kind == okNew || o->kind == okNewArr)) n++; }
  r = Val::C(n);
  return true;
}
B(vSameBits) {   // bit-for-bit equality of two doubles
  UNUSED;
  E x = X.toE(a[0], 64, F64), y = X.toE(a[1], 64, F64);
  E c;
  if (x == y) c = mkBool(true);
  else if (g_mode == MExact) c = mk2(kOr, mk2(kFEq, x, y), mk2(kAnd, mk1(kFIsNaN, x, 1, BV), mk1(kFIsNaN, y, 1, BV)));
  else c = mk2(kFEq, x, y);
  r = X.fromE(mk1(kZExt, c, 32, BV));
  return true;
}
B(vPrint) { UNUSED; fprintf(stderr, "[vsx] %s %s\n", X.cstr(S, X.concVal(S, a[0])).c_str(), a[1].e ? show(a[1].e).c_str() : argT(in, 1)->k == Type::D ? std::to_string(asD(a[1].c)).c_str() : std::to_string(a[1].c).c_str()); return true; }
// ---- va_start family is not modelled
B(bVa) { UNUSED; X.unsupported(S, "variadic access"); }
B(bErrno) { UNUSED; static std::map<Ex*, uint64_t> m; auto it = S.kv.find("errno"); if (it == S.kv.end()) { uint32_t id = S.mem.alloc(8, okGlobal, 0); S.mem.data(id)->s[0].mask = 0xff; S.kv["errno"] = addrOf(id); } r = Val::C(S.kv["errno"]); return true; }
// numeric text conversion on concrete strings
B(bStrtod) {
  UNUSED;
  std::string s = X.cstr(S, X.concVal(S, a[0]));
  char* e; double d = strtod(s.c_str(), &e);
  uint64_t ep = X.concVal(S, a[1]);
  if (ep) X.storeScalar(S, Val::C(ep), Val::C(X.concVal(S, a[0]) + (e - s.c_str())), 8, BV, 64);
  r = Val::C(fromD(d)); return true;
}
B(bStrtof) {
  UNUSED;
  std::string s = X.cstr(S, X.concVal(S, a[0]));
  char* e; float d = strtof(s.c_str(), &e);
  uint64_t ep = X.concVal(S, a[1]);
  if (ep) X.storeScalar(S, Val::C(ep), Val::C(X.concVal(S, a[0]) + (e - s.c_str())), 8, BV, 64);
  r = Val::C(fromF(d)); return true;
}
B(bStrtol) {
  UNUSED;
  std::string s = X.cstr(S, X.concVal(S, a[0]));
  char* e; long long d = strtoll(s.c_str(), &e, (int)X.concVal(S, a[2]));
  uint64_t ep = X.concVal(S, a[1]);
  if (ep) X.storeScalar(S, Val::C(ep), Val::C(X.concVal(S, a[0]) + (e - s.c_str())), 8, BV, 64);
  r = Val::C((uint64_t)d); return true;
}
static std::map<const void*, size_t> g_tokens;
static std::vector<Val> g_tokenv;
// double vsx_number(const char*): the number a text stands for
B(vNumber) {
  UNUSED;
  std::string t = X.cstr(S, X.concVal(S, a[0]));
  if (t.size() > 1 && t[0] == '#') {
    size_t i = strtoull(t.c_str() + 1, nullptr, 10);
    if (i >= g_tokenv.size()) X.unsupported(S, "unknown number token");
    r = g_tokenv[i];
  } else r = Val::C(fromD(strtod(t.c_str(), nullptr)));
  return true;
}
B(bSnprintfD) {
  UNUSED;
  uint64_t p = X.concVal(S, a[0]), n = X.concVal(S, a[1]); std::string f = X.cstr(S, X.concVal(S, a[2])); int pr = (int)(int32_t)X.concVal(S, a[3]);
  char b[512]; int k;
  if (a[4].e) {
    // the text names the term; vsx_number reads it back
    auto it = g_tokens.emplace((const void*)a[4].e, g_tokenv.size());
    if (it.second) g_tokenv.push_back(a[4]);
    k = snprintf(b, sizeof b, "#%zu", it.first->second);
  } else k = snprintf(b, sizeof b, f.c_str(), pr, asD(a[4].c));
  if ((uint64_t)k >= n) X.unsupported(S, "formatted text too long");
  for (int i = 0; i <= k; i++) X.storeScalar(S, Val::C(p + i), Val::C((uint8_t)b[i]), 1, BV, 8);
  r = Val::C(k); return true;
}
struct Ent { const char* n; BFn f; bool prefix; };
B(bFrexp) {
  if (a[0].e) X.unsupported(S, "frexp of a symbolic value");
  int ex = 0;
  double m = std::frexp(asD(a[0].c), &ex);
  r.agg = agg({Val::C(fromD(m)), Val::C((uint32_t)ex)});
  return true;
}
B(bLdexp) {
  if (a[0].e || a[1].e) X.unsupported(S, "ldexp of a symbolic value");
  r = Val::C(fromD(std::ldexp(asD(a[0].c), (int)(int32_t)a[1].c)));
  return true;
}
typedef std::complex<double> CD;
#define CX(v, i) CD(asD(v[i].c), asD(v[i + 1].c))
static bool cconc(std::vector<Val>& a, Val& r, CD (*f)(std::vector<Val>&)) {
  for (auto& v : a) if (v.e) return false;
  CD z = f(a);
  r.agg = agg({Val::C(fromD(z.real())), Val::C(fromD(z.imag()))});
  return true;
}
static Val dC(double d) { return Val::C(fromD(d)); }
static Val fop(Ex& X, State& S, K k, const Val& a, const Val& b) {
  if (!a.e && !b.e) { double x = asD(a.c), y = asD(b.c); return dC(k == kFAdd ? x + y : k == kFSub ? x - y : k == kFMul ? x * y : x / y); }
  if (g_mode == MReal) {
    // x*0 and x+0
    for (int i = 0; i < 2; i++) {
      const Val &p = i ? b : a, &q = i ? a : b;
      if (p.e) continue;
      const double c = asD(p.c);
      if (k == kFMul && c == 0) return dC(0);
      if (k == kFMul && c == 1) return q;
      if ((k == kFAdd || (k == kFSub && i)) && c == 0) return q;
    }
    if (k == kFDiv && !a.e && asD(a.c) == 0) return dC(0);
  }
  return X.fromE(mk2(k, X.toE(a, 64, F64), X.toE(b, 64, F64)));
}
static Val fneg(Ex& X, State& S, const Val& a) { return fop(X, S, kFSub, dC(0), a); }
static Val ufn(Ex& X, const Val& a, const char* n, double (*f)(double)) { return a.e ? X.fromE(mkUF(ufIndex(n), {a.e}, 64, F64)) : dC(f(asD(a.c))); }
static bool czero(const Val& v) { return !v.e && asD(v.c) == 0; }
// complex functions of a symbolic value, over the reals
static void cOnlyReal(Ex& X, State& S) { if (g_mode != MReal) X.unsupported(S, "complex function of a symbolic value"); }
static double dExp(double x) { return std::exp(x); }
static double dCos(double x) { return std::cos(x); }
static double dSin(double x) { return std::sin(x); }
B(bCexp) {
  if (cconc(a, r, [](std::vector<Val>& v) { return std::exp(CX(v, 0)); })) return true;
  cOnlyReal(X, S);
  Val e = ufn(X, a[0], "exp", dExp);
  r.agg = agg({fop(X, S, kFMul, e, ufn(X, a[1], "cos", dCos)), fop(X, S, kFMul, e, ufn(X, a[1], "sin", dSin))});
  return true;
}
B(bCsin) {
  if (cconc(a, r, [](std::vector<Val>& v) { return std::sin(CX(v, 0)); })) return true;
  cOnlyReal(X, S);
  if (!czero(a[1])) X.unsupported(S, "complex sine of a symbolic value");
  r.agg = agg({ufn(X, a[0], "sin", dSin), dC(0)}); return true;
}
B(bCcos) {
  if (cconc(a, r, [](std::vector<Val>& v) { return std::cos(CX(v, 0)); })) return true;
  cOnlyReal(X, S);
  if (!czero(a[1])) X.unsupported(S, "complex cosine of a symbolic value");
  r.agg = agg({ufn(X, a[0], "cos", dCos), dC(0)}); return true;
}
static bool cAny(Ex& X, State& S, std::vector<Val>& a, Val& r, const std::string& n) {  // nothing is known about it
  cOnlyReal(X, S);
  std::vector<E> x; for (auto& v : a) x.push_back(X.toE(v, 64, F64));
  r.agg = agg({X.fromE(mkUF(ufIndex(n + ".re"), x, 64, F64)), X.fromE(mkUF(ufIndex(n + ".im"), x, 64, F64))});
  return true;
}
B(bClog) { return cconc(a, r, [](std::vector<Val>& v) { return std::log(CX(v, 0)); }) || cAny(X, S, a, r, "clog"); }
B(bCsqrt) { return cconc(a, r, [](std::vector<Val>& v) { return std::sqrt(CX(v, 0)); }) || cAny(X, S, a, r, "csqrt"); }
B(bCpow) {
  if (cconc(a, r, [](std::vector<Val>& v) { return std::pow(CX(v, 0), CX(v, 2)); })) return true;
  if (czero(a[3]) && !a[2].e && asD(a[2].c) == 1) { r.agg = agg({a[0], a[1]}); return true; }
  return cAny(X, S, a, r, "cpow");
}
B(bMuldc3) {
  if (cconc(a, r, [](std::vector<Val>& v) { return CX(v, 0) * CX(v, 2); })) return true;
  cOnlyReal(X, S);
  r.agg = agg({fop(X, S, kFSub, fop(X, S, kFMul, a[0], a[2]), fop(X, S, kFMul, a[1], a[3])), fop(X, S, kFAdd, fop(X, S, kFMul, a[0], a[3]), fop(X, S, kFMul, a[1], a[2]))});
  return true;
}
B(bDivdc3) {
  if (cconc(a, r, [](std::vector<Val>& v) { return CX(v, 0) / CX(v, 2); })) return true;
  cOnlyReal(X, S);
  if (czero(a[3])) { r.agg = agg({fop(X, S, kFDiv, a[0], a[2]), fop(X, S, kFDiv, a[1], a[2])}); return true; }
  Val d = fop(X, S, kFAdd, fop(X, S, kFMul, a[2], a[2]), fop(X, S, kFMul, a[3], a[3]));
  Val x = fop(X, S, kFAdd, fop(X, S, kFMul, a[0], a[2]), fop(X, S, kFMul, a[1], a[3])), y = fop(X, S, kFSub, fop(X, S, kFMul, a[1], a[2]), fop(X, S, kFMul, a[0], a[3]));
  r.agg = agg({fop(X, S, kFDiv, x, d), fop(X, S, kFDiv, y, d)});
  return true;
}
B(bAtan2) { if (a[0].e || a[1].e) X.unsupported(S, "atan2 of a symbolic value"); r = Val::C(fromD(std::atan2(asD(a[0].c), asD(a[1].c)))); return true; }
B(bHypot) {
  Type* t = argT(in, 0);
  if (!a[0].e && !a[1].e) { r = Val::C(fromD(std::hypot(asD(a[0].c), asD(a[1].c)))); return true; }
  for (int k = 0; k < 2; k++)
    if (!a[k].e && asD(a[k].c) == 0) { std::vector<Val> v{a[1 - k]}; return bFabs(X, S, in, v, r); }
  E x = X.toE(a[0], t), y = X.toE(a[1], t);
  if (g_mode == MReal) { r = X.fromE(mk1(kFSqrt, mk2(kFAdd, mk2(kFMul, x, x), mk2(kFMul, y, y)), t->w, t->sort())); return true; }
  r = X.fromE(mkUF(ufIndex("hypot"), {x, y}, t->w, t->sort()));
  return true;
}
static const Ent tab[] = {
    {"malloc", bMalloc, 0}, {"calloc", bCalloc, 0}, {"realloc", bRealloc, 0}, {"free", bFree, 0}, {"posix_memalign", bPosixMemalign, 0}, {"aligned_alloc", bAligned, 0}, {"memalign", bAligned, 0},
    {"_Znwm", bNew, 0}, {"_Znam", bNewArr, 0}, {"_ZnwmRKSt9nothrow_t", bNewNT, 0}, {"_ZnwmSt11align_val_t", bNew, 0}, {"_ZdlPv", bDelete, 0}, {"_ZdlPvm", bDelete, 0}, {"_ZdaPv", bDeleteArr, 0}, {"_ZdaPvm", bDeleteArr, 0},
    {"_ZdlPvSt11align_val_t", bDelete, 0}, {"_ZdlPvmSt11align_val_t", bDelete, 0}, {"_ZdlPvRKSt9nothrow_t", bDelete, 0},
    {"memcpy", bMemcpy, 0}, {"memmove", bMemcpy, 0}, {"memset", bMemset, 0}, {"memcmp", bMemcmp, 0}, {"bcmp", bBcmp, 0}, {"strlen", bStrlen, 0}, {"memchr", bMemchr, 0}, {"strcmp", bStrcmp, 0}, {"strncmp", bStrcmp, 0}, {"strchr", bStrchr, 0},
    {"llvm.memcpy.", bMemcpy, 1}, {"llvm.memmove.", bMemcpy, 1}, {"llvm.memset.", bMemset, 1},
    {"log10", bLog10, 0}, {"log10f", bLog10, 0}, {"log", bLog, 0}, {"logf", bLog, 0}, {"log2", bLog2, 0}, {"exp", bExp, 0}, {"expf", bExp, 0}, {"exp2", bExp2, 0}, {"exp10", bExp10, 0}, {"exp10f", bExp10, 0}, {"llvm.exp10.", bExp10, 1}, {"exp2f", bExp2, 0}, {"cos", bCos, 0}, {"cosf", bCos, 0}, {"sin", bSin, 0}, {"sinf", bSin, 0}, {"tan", bTan, 0}, {"atan", bAtan, 0}, {"tanh", bTanh, 0},
    {"llvm.log10.", bLog10, 1}, {"llvm.log2.", bLog2, 1}, {"llvm.log.", bLog, 1}, {"llvm.exp.", bExp, 1}, {"llvm.exp2.", bExp2, 1}, {"llvm.cos.", bCos, 1}, {"llvm.sin.", bSin, 1}, {"llvm.pow.", bPow, 1}, {"llvm.powi.", bPowi, 1}, {"pow", bPow, 0}, {"powf", bPow, 0},
    {"llvm.frexp.f64", bFrexp, 1}, {"ldexp", bLdexp, 0}, {"llvm.ldexp.f64", bLdexp, 1}, {"cexp", bCexp, 0}, {"csin", bCsin, 0}, {"ccos", bCcos, 0}, {"clog", bClog, 0}, {"csqrt", bCsqrt, 0}, {"cpow", bCpow, 0}, {"__muldc3", bMuldc3, 0}, {"__divdc3", bDivdc3, 0}, {"atan2", bAtan2, 0}, {"hypot", bHypot, 0}, {"cabs", bHypot, 0}, {"sqrt", bSqrt, 0}, {"sqrtf", bSqrt, 0}, {"llvm.sqrt.", bSqrt, 1}, {"fabs", bFabs, 0}, {"llvm.fabs.", bFabs, 1}, {"floor", bFloor, 0}, {"floorf", bFloor, 0}, {"llvm.floor.", bFloor, 1}, {"ceil", bCeil, 0}, {"ceilf", bCeil, 0}, {"llvm.ceil.", bCeil, 1}, {"llvm.trunc.", bTrunc, 1}, {"llvm.rint.", bRint, 1}, {"llvm.nearbyint.", bRint, 1}, {"llvm.roundeven.", bRint, 1}, {"llvm.round.", bRound, 1}, {"round", bRound, 0}, {"roundf", bRound, 0}, {"trunc", bTrunc, 0}, {"rint", bRint, 0}, {"nearbyint", bRint, 0},
    {"lround", bLround, 0}, {"lroundf", bLround, 0}, {"llround", bLround, 0}, {"lrint", bLrint, 0}, {"llvm.lround.", bLround, 1}, {"llvm.llround.", bLround, 1}, {"llvm.lrint.", bLrint, 1},
    {"llvm.fmuladd.", bFmuladd, 1}, {"llvm.fma.", bFmuladd, 1}, {"fmin", bFmin, 0}, {"fmax", bFmax, 0}, {"fminf", bFmin, 0}, {"fmaxf", bFmax, 0}, {"llvm.minnum.", bFmin, 1}, {"llvm.maxnum.", bFmax, 1}, {"fmod", bFmod, 0}, {"fmodf", bFmod, 0}, {"llvm.copysign.", bCopysign, 1}, {"llvm.is.fpclass.", bIsFpClass, 1},
    {"llvm.smax.", bSmax, 1}, {"llvm.smin.", bSmin, 1}, {"llvm.umax.", bUmax, 1}, {"llvm.umin.", bUmin, 1}, {"llvm.abs.", bAbs, 1}, {"llvm.bswap.", bBswap, 1}, {"llvm.ctlz.", bCtlz, 1}, {"llvm.cttz.", bCttz, 1}, {"llvm.ctpop.", bCtpop, 1},
    {"llvm.uadd.with.overflow.", bUaddo, 1}, {"llvm.sadd.with.overflow.", bSaddo, 1}, {"llvm.usub.with.overflow.", bUsubo, 1}, {"llvm.ssub.with.overflow.", bSsubo, 1}, {"llvm.umul.with.overflow.", bUmulo, 1}, {"llvm.smul.with.overflow.", bSmulo, 1},
    {"llvm.usub.sat.", bUsubSat, 1}, {"llvm.uadd.sat.", bUaddSat, 1}, {"llvm.fshl.", bFshl, 1}, {"llvm.fshr.", bFshr, 1}, {"llvm.objectsize.", bObjSize, 1}, {"llvm.expect.", retArg0, 1}, {"llvm.is.constant.", nop, 1}, {"llvm.launder.invariant.group.", retArg0, 1}, {"llvm.strip.invariant.group.", retArg0, 1}, {"llvm.annotation.", retArg0, 1}, {"llvm.ptrmask.", retArg0, 1},
    {"llvm.trap", bTrap, 0}, {"llvm.ubsantrap", bTrap, 0}, {"llvm.eh.typeid.for", bTypeidFor, 1}, {"llvm.stacksave", nop, 1}, {"llvm.stackrestore", nop, 1}, {"llvm.lifetime.", nop, 1}, {"llvm.assume", nop, 0}, {"llvm.invariant.", nop, 1}, {"llvm.prefetch", nop, 1}, {"llvm.dbg.", nop, 1}, {"llvm.sideeffect", nop, 0}, {"llvm.experimental.noalias", nop, 1}, {"llvm.va_", bVa, 1}, {"llvm.threadlocal.address", retArg0, 1},
    {"__cxa_allocate_exception", bExcAlloc, 0}, {"__cxa_free_exception", nop, 0}, {"__cxa_throw", bThrow, 0}, {"__cxa_begin_catch", bBeginCatch, 0}, {"__cxa_get_exception_ptr", retArg0, 0}, {"__cxa_end_catch", bEndCatch, 0}, {"__cxa_rethrow", bRethrow, 0}, {"_ZSt9terminatev", bTerminate, 0}, {"abort", bAbort, 0}, {"__cxa_pure_virtual", bPure, 0}, {"__assert_fail", bAssertFail, 0}, {"exit", bExit, 0}, {"_exit", bExit, 0}, {"_ZSt25__throw_bad_function_callv", tBadFn, 0},
    {"_ZSt20__throw_length_errorPKc", tLength, 0}, {"_ZSt20__throw_out_of_rangePKc", tOOR, 0}, {"_ZSt24__throw_out_of_range_fmtPKcz", tOOR, 0}, {"_ZSt19__throw_logic_errorPKc", tLogic, 0}, {"_ZSt24__throw_invalid_argumentPKc", tInvArg, 0}, {"_ZSt17__throw_bad_allocv", tBadAlloc, 0}, {"_ZSt28__throw_bad_array_new_lengthv", tBadArr, 0}, {"_ZSt21__throw_runtime_errorPKc", tRuntime, 0}, {"_ZSt16__throw_bad_castv", tBadCast, 0}, {"_ZSt22__throw_overflow_errorPKc", tOverflow, 0}, {"_ZSt27__throw_bad_optional_accessv", tBadOpt, 0},
    {"_ZSt21__glibcxx_assert_failPKciS0_S0_", bAbort, 0},
    {"_ZNSt11logic_error", nop, 1}, {"_ZNSt13runtime_error", nop, 1}, {"_ZNSt12length_error", nop, 1}, {"_ZNSt12out_of_range", nop, 1}, {"_ZNSt16invalid_argument", nop, 1}, {"_ZNSt9bad_alloc", nop, 1}, {"_ZNSt9exception", nop, 1}, {"_ZNSt12domain_error", nop, 1}, {"_ZNSt11range_error", nop, 1},
    {"__cxa_atexit", nop, 0}, {"__cxa_guard_acquire", bGuardAcq, 0}, {"__cxa_guard_release", bGuardRel, 0}, {"__cxa_guard_abort", nop, 0}, {"_ZNSt8ios_base4InitC1Ev", nop, 0}, {"_ZNSt8ios_base4InitD1Ev", nop, 0},
    {"printf", nop, 0}, {"puts", nop, 0}, {"putchar", nop, 0}, {"fprintf", nop, 0}, {"fflush", nop, 0}, {"fputc", nop, 0}, {"fwrite", nop, 0}, {"__errno_location", bErrno, 0}, {"strtod", bStrtod, 0}, {"strtof", bStrtof, 0}, {"strtol", bStrtol, 0}, {"strtoll", bStrtol, 0}, {"__isoc23_strtol", bStrtol, 0}, {"__isoc23_strtoll", bStrtol, 0},
    {"pthread_mutex_lock", nop, 0}, {"pthread_mutex_unlock", nop, 0},
    {"vsx_f64", vF64, 0}, {"vsx_range", vRange, 0}, {"vsx_f32", vF32, 0}, {"vsx_u64", vU64, 0}, {"vsx_u32", vU32, 0}, {"vsx_u16", vU16, 0}, {"vsx_u8", vU8, 0}, {"vsx_bytes", vBytes, 0}, {"vsx_choose", vChoose, 0}, {"vsx_assume", vAssume, 0}, {"vsx_assert", vAssert, 0}, {"vsx_close", vClose, 0}, {"vsx_reach", vReach, 0}, {"vsx_concretize", vConc, 0}, {"vsx_is_symbolic", vIsSym, 0}, {"vsx_ite_f64", vIteD, 0}, {"vsx_ite_u64", vIteD, 0}, {"vsx_and", vAnd, 0}, {"vsx_or", vOr, 0}, {"vsx_param", vParam, 0}, {"vsx_end", vEnd, 0}, {"vsx_native", nop, 0}, {"vsx_decide", vDecide, 0}, {"vsx_uf1", vUF1, 0}, {"vsx_live", vLive, 0}, {"vsx_snprintf_d", bSnprintfD, 0}, {"vsx_number", vNumber, 0}, {"_ZSt21ios_base_library_initv", nop, 0}, {"_ZSt18uncaught_exceptionv", nop, 0}, {"_ZSt19uncaught_exceptionsv", nop, 0}, {"_ZSt19__throw_ios_failurePKc", tRuntime, 0}, {"vsx_same", vSameBits, 0}, {"vsx_print_f64", vPrint, 0}, {"vsx_print_u64", vPrint, 0},
};
void registerBuiltins(Ex& X) {
  std::unordered_map<std::string, int> ex; std::vector<std::pair<std::string, int>> pre;
  for (auto& e : tab) {
    X.btab.push_back(e.f);
    int i = X.btab.size() - 1;
    if (e.prefix) pre.push_back({e.n, i}); else ex[e.n] = i;
  }
  for (auto& f : X.P.f) {
    auto it = ex.find(f.name);
    if (it != ex.end()) { f.builtin = it->second; continue; }
    if (!f.decl) continue;
    for (auto& p : pre) if (f.name.compare(0, p.first.size(), p.first) == 0) { f.builtin = p.second; break; }
  }
}
