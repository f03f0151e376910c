#include "expr.h"
#include <cmath>
#include <functional>

Mode g_mode = MExact;
std::vector<VarInfo> g_vars;
std::vector<std::string> g_ufs;
uint32_t g_nexprs = 0;
static std::unordered_map<std::string, int> ufmap;

static std::vector<const Expr*> g_tab(1 << 20, nullptr);
static size_t g_cnt = 0;
static char* arena = nullptr;
static size_t arenaLeft = 0;
static void* aalloc(size_t n) {
  n = (n + 15) & ~size_t(15);
  if (n > arenaLeft) { arenaLeft = 1 << 22; arena = (char*)malloc(arenaLeft); }
  void* p = arena; arena += n; arenaLeft -= n; return p;
}
static inline uint32_t mixh(uint32_t h, uint64_t v) {
  uint64_t x = (h ^ v) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; return (uint32_t)(x ^ (x >> 32));
}
static E intern(K k, Sort s, int w, u128 c, int n, const E* a) {
  uint32_t h = mixh(k * 131 + s * 7 + w, (uint64_t)c); h = mixh(h, (uint64_t)(c >> 64));
  for (int i = 0; i < n; i++) h = mixh(h, a[i]->id + 0x1234567);
  if (g_cnt * 2 > g_tab.size()) {
    std::vector<const Expr*> t(g_tab.size() * 4, nullptr);
    for (auto e : g_tab) if (e) { size_t i = e->h & (t.size() - 1); while (t[i]) i = (i + 1) & (t.size() - 1); t[i] = e; }
    g_tab.swap(t);
  }
  size_t i = h & (g_tab.size() - 1);
  while (g_tab[i]) {
    E e = g_tab[i];
    if (e->h == h && e->k == k && e->s == s && e->w == w && e->c == c && e->n == n) {
      bool same = true;
      for (int j = 0; j < n; j++) if (e->a[j] != a[j]) { same = false; break; }
      if (same) return e;
    }
    i = (i + 1) & (g_tab.size() - 1);
  }
  Expr* e = (Expr*)aalloc(sizeof(Expr));
  e->k = k; e->s = s; e->n = n; e->w = w; e->id = g_nexprs++; e->h = h; e->c = c; e->undef = false;
  e->a = n ? (const Expr**)aalloc(sizeof(E) * n) : nullptr;
  for (int j = 0; j < n; j++) { e->a[j] = a[j]; e->undef |= a[j]->undef; }
  if (k == kVar) e->undef = g_vars[(uint32_t)c].undef;
  g_tab[i] = e; g_cnt++;
  return e;
}
E mkConst(u128 v, int w, Sort s) { return intern(kConst, s, w, v & maskw(w), 0, nullptr); }
E mkVar(const std::string& name, int w, Sort s, bool undef) {
  g_vars.push_back({name, s, w, undef, false, 0, 0});
  return intern(kVar, s, w, g_vars.size() - 1, 0, nullptr);
}
E boundVar(E v, double lo, double hi) {
  auto& i = g_vars[(uint32_t)v->c];
  i.ranged = true; i.lo = lo; i.hi = hi;
  auto C = [&](double d) { return v->s == F32 ? mkConst(fromF((float)d), 32, F32) : mkConst(fromD(d), 64, F64); };
  E p[2] = {C(lo), v}, q[2] = {v, C(hi)};
  E r[2] = {intern(kFLe, BV, 1, 0, 2, p), intern(kFLe, BV, 1, 0, 2, q)};
  return intern(kAnd, BV, 1, 0, 2, r);
}
int ufIndex(const std::string& n) {
  auto it = ufmap.find(n);
  if (it != ufmap.end()) return it->second;
  g_ufs.push_back(n);
  return ufmap[n] = g_ufs.size() - 1;
}
static double rnd(double x, int kind) {
  switch (kind) {
    case kRFloor: return std::floor(x);
    case kRCeil: return std::ceil(x);
    case kRTrunc: return std::trunc(x);
    case kRRint: return std::nearbyint(x);
    default: return std::round(x);
  }
}
u128 foldBin(K k, u128 a, u128 b, int w, Sort s, bool* ok) {
  *ok = true;
  if (s == F64) {
    double x = asD((uint64_t)a), y = asD((uint64_t)b);
    switch (k) {
      case kFAdd: return fromD(x + y);
      case kFSub: return fromD(x - y);
      case kFMul: return fromD(x * y);
      case kFDiv: return fromD(x / y);
      case kFRem: return fromD(std::fmod(x, y));
      case kFEq: return x == y;
      case kFLt: return x < y;
      case kFLe: return x <= y;
      default: break;
    }
  } else if (s == F32) {
    float x = asF((uint32_t)a), y = asF((uint32_t)b);
    switch (k) {
      case kFAdd: return fromF(x + y);
      case kFSub: return fromF(x - y);
      case kFMul: return fromF(x * y);
      case kFDiv: return fromF(x / y);
      case kFRem: return fromF(std::fmod(x, y));
      case kFEq: return x == y;
      case kFLt: return x < y;
      case kFLe: return x <= y;
      default: break;
    }
  }
  u128 m = maskw(w);
  switch (k) {
    case kAdd: return (a + b) & m;
    case kSub: return (a - b) & m;
    case kMul: return (a * b) & m;
    case kUDiv: if (!b) { *ok = false; return 0; } return a / b;
    case kURem: if (!b) { *ok = false; return 0; } return a % b;
    case kSDiv: if (!b) { *ok = false; return 0; } if (sx(b, w) == -1) return (0 - a) & m; return (u128)(sx(a, w) / sx(b, w)) & m;
    case kSRem: if (!b) { *ok = false; return 0; } if (sx(b, w) == -1) return 0; return (u128)(sx(a, w) % sx(b, w)) & m;
    case kAnd: return a & b;
    case kOr: return a | b;
    case kXor: return a ^ b;
    case kShl: return b >= (u128)w ? 0 : (a << (int)b) & m;
    case kLShr: return b >= (u128)w ? 0 : a >> (int)b;
    case kAShr: return (u128)(sx(a, w) >> (b >= (u128)w ? w - 1 : (int)b)) & m;
    case kEq: return a == b;
    case kUlt: return a < b;
    case kUle: return a <= b;
    case kSlt: return sx(a, w) < sx(b, w);
    case kSle: return sx(a, w) <= sx(b, w);
    default: break;
  }
  *ok = false;
  return 0;
}
u128 foldUn(K k, u128 a, int wf, Sort sf, int wt, Sort st, u128 aux, bool* ok) {
  *ok = true;
  double x = sf == F64 ? asD((uint64_t)a) : sf == F32 ? (double)asF((uint32_t)a) : 0;
  switch (k) {
    case kZExt: return a;
    case kSExt: return (u128)sx(a, wf) & maskw(wt);
    case kExtract: return (a >> (int)aux) & maskw(wt);
    case kFNeg: return a ^ ((u128)1 << (wf - 1));
    case kFAbs: return a & (maskw(wf) >> 1);
    case kFSqrt: return sf == F64 ? (u128)fromD(std::sqrt(x)) : (u128)fromF(std::sqrt(asF((uint32_t)a)));
    case kFIsNaN: return x != x;
    case kFpExt: return fromD(x);
    case kFpTrunc: return fromF((float)x);
    case kFRound: return sf == F64 ? (u128)fromD(rnd(x, (int)aux)) : (u128)fromF((float)rnd(x, (int)aux));
    case kSiToFp: { s128 v = sx(a, wf); return st == F64 ? (u128)fromD((double)v) : (u128)fromF((float)v); }
    case kUiToFp: return st == F64 ? (u128)fromD((double)a) : (u128)fromF((float)a);
    case kFpToSi: {
      double lim = std::ldexp(1.0, wt - 1);
      if (!(x > -lim - 1 && x < lim)) { *ok = false; return 0; }
      return (u128)(s128)x & maskw(wt);
    }
    case kFpToUi: {
      double lim = std::ldexp(1.0, wt);
      if (!(x > -1 && x < lim)) { *ok = false; return 0; }
      return (u128)x & maskw(wt);
    }
    case kF2B: case kB2F: return a;
    default: *ok = false; return 0;
  }
}
struct FRg { double lo, hi; bool nan; };
static FRg frangeOf(E e);
E mk2(K k, E a, E b);
static bool isCv(E e, u128 v) { return e->k == kConst && e->c == v; }
static bool allones(E e) { return e->k == kConst && e->c == maskw(e->w); }
E mkNot(E a) { return mk2(kXor, a, mkConst(1, 1)); }
static bool isNot(E e) { return e->k == kXor && e->w == 1 && isCv(e->a[1], 1); }

static E dyadicToInt(K k, E a, int w);
static E dyadicRound(E a, int kind);
E mk1(K k, E a, int w, Sort s, u128 aux) {
  if (a->k == kConst) {
    bool ok; u128 r = foldUn(k, a->c, a->w, a->s, w, s, aux, &ok);
    if (ok) return mkConst(r, w, s);
  }
  switch (k) {
    case kZExt: case kSExt:
      if (a->w == w) return a;
      if (a->k == kZExt) return mk1(kZExt, a->a[0], w, s);
      if (k == kSExt && a->k == kSExt) return mk1(kSExt, a->a[0], w, s);
      if (a->k == kIte && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mk1(k, a->a[1], w, s), mk1(k, a->a[2], w, s));
      break;
    case kF2B: if (a->k == kB2F) return a->a[0]; break;
    case kB2F: if (a->k == kF2B) return a->a[0];
      if (a->k == kIte && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mk1(k, a->a[1], w, s), mk1(k, a->a[2], w, s));
      break;
    case kFNeg: if (a->k == kFNeg) return a->a[0]; break;
    case kFSqrt: if (g_mode == MReal && a->k == kFMul && a->a[0] == a->a[1]) return mk1(kFAbs, a->a[0], w, s); break;
    case kFAbs: if (a->k == kFNeg || a->k == kFAbs) return mk1(kFAbs, a->a[0], w, s); break;
    case kFIsNaN:
      if (g_mode == MReal) return mkBool(false);
      if (!frangeOf(a).nan) return mkBool(false);
      if (a->k == kFNeg || a->k == kFAbs || a->k == kFpTrunc || a->k == kFpExt) return mk1(kFIsNaN, a->a[0], 1, BV);
      if (a->k == kSiToFp || a->k == kUiToFp) return mkBool(false);
      break;
    case kFpTrunc: if (a->k == kFpExt) return a->a[0]; break;
    case kFpExt:
      // a small integer, or one times a power of two, is exact in both formats
      if (s == F64 && a->s == F32) {
        E i = a->k == kFMul && isC(a->a[1]) ? a->a[0] : a;
        if ((i->k == kSiToFp && i->a[0]->w <= 25) || (i->k == kUiToFp && i->a[0]->w <= 24)) {
          E f = mk1(i->k, i->a[0], 64, F64);
          if (i == a) return f;
          int x; float c = asF((uint32_t)a->a[1]->c);
          if (c > 0 && std::isfinite(c) && std::frexp(c, &x) == 0.5f && x > -60 && x < 60) return mk2(kFMul, f, mkConst(fromD((double)c), 64, F64));
        }
      }
      break;
    case kFpToSi: case kFpToUi:
      if (a->k == kIte && (isC(a->a[1]) || isC(a->a[2]))) return mkIte(a->a[0], mk1(k, a->a[1], w, s), mk1(k, a->a[2], w, s));
      if (E r = dyadicToInt(k, a, w)) return r;
      break;
    case kFRound: if (E r = dyadicRound(a, (int)aux)) return r; break;
    default: break;
  }
  return intern(k, s, w, aux, 1, &a);
}
E mkExtract(E a, int lo, int w) {
  if (lo == 0 && w == a->w) return a;
  if (a->k == kConst) return mkConst(a->c >> lo, w);
  if (a->k == kExtract) return mkExtract(a->a[0], lo + (int)a->c, w);
  if (a->k == kConcat) {
    int lw = a->a[1]->w;
    if (lo >= lw) return mkExtract(a->a[0], lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->a[1], lo, w);
  }
  if (a->k == kZExt || a->k == kSExt) {
    int iw = a->a[0]->w;
    if (lo + w <= iw) return mkExtract(a->a[0], lo, w);
    if (a->k == kZExt && lo >= iw) return mkConst(0, w);
    if (lo == 0 && w > iw) return mk1(a->k, a->a[0], w, BV);
  }
  if (lo == 0 && (a->k == kAdd || a->k == kSub || a->k == kMul || a->k == kAnd || a->k == kOr || a->k == kXor)) {
    if (w >= 8 || isC(a->a[1])) return mk2(a->k, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
  }
  if (a->k == kIte && (isC(a->a[1]) || isC(a->a[2]))) return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
  if (a->k == kShl && isC(a->a[1])) {
    int sh = (int)a->a[1]->c;
    if (lo >= sh) return mkExtract(a->a[0], lo - sh, w);
    if (lo + w <= sh) return mkConst(0, w);
  }
  if (a->k == kLShr && isC(a->a[1])) {
    int sh = (int)a->a[1]->c;
    if (lo + sh + w <= a->w) return mkExtract(a->a[0], lo + sh, w);
  }
  return intern(kExtract, BV, w, lo, 1, &a);
}
E mkConcat(E hi, E lo) {
  int w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (hi->k == kExtract && lo->k == kExtract && hi->a[0] == lo->a[0] && hi->c == lo->c + lo->w)
    return mkExtract(hi->a[0], (int)lo->c, w);
  if (hi->k == kExtract && (int)hi->c == lo->w && hi->a[0] == lo) return mkExtract(lo, 0, w);
  if (isCv(hi, 0)) return mk1(kZExt, lo, w, BV);
  // concat(h, concat(m,l)) -> concat(concat(h,m), l) when h and m merge
  if (lo->k == kConcat) {
    E m = lo->a[0], l = lo->a[1];
    if ((isC(hi) && isC(m)) || (hi->k == kExtract && m->k == kExtract && hi->a[0] == m->a[0] && hi->c == m->c + m->w))
      return mkConcat(mkConcat(hi, m), l);
  }
  if (hi->k == kConcat) {
    E m = hi->a[1];
    if ((isC(lo) && isC(m)) || (m->k == kExtract && lo->k == kExtract && lo->a[0] == m->a[0] && m->c == lo->c + lo->w))
      return mkConcat(hi->a[0], mkConcat(m, lo));
  }
  E a[2] = {hi, lo};
  return intern(kConcat, BV, w, 0, 2, a);
}
static E iteDyadic(E c, E a, E b);
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (isNot(c)) return mkIte(c->a[0], b, a);
  if (a->w == 1 && a->s == BV) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mk2(kOr, c, b) : mk2(kAnd, mkNot(c), b);
    if (isC(b)) return b->c ? mk2(kOr, mkNot(c), a) : mk2(kAnd, c, a);
  }
  if (a->k == kIte && a->a[0] == c) a = a->a[1];
  if (b->k == kIte && b->a[0] == c) b = b->a[2];
  if (a == b) return a;
  if (E r = iteDyadic(c, a, b)) return r;
  E k[3] = {c, a, b};
  return intern(kIte, a->s, a->w, 0, 3, k);
}
E mkUF(int uf, const std::vector<E>& args, int w, Sort s) { return intern(kUF, s, w, uf, args.size(), args.data()); }

static bool comm(K k) { return k == kAdd || k == kMul || k == kAnd || k == kOr || k == kXor || k == kEq || k == kFAdd || k == kFMul || k == kFEq; }
int ktz(E e) {
  switch (e->k) {
    case kConst: { if (!e->c) return e->w; int n = 0; u128 c = e->c; while (!(c & 1)) { c >>= 1; n++; } return n; }
    case kAdd: case kSub: case kOr: case kXor: return std::min(ktz(e->a[0]), ktz(e->a[1]));
    case kMul: return std::min((int)e->w, ktz(e->a[0]) + ktz(e->a[1]));
    case kShl: return isC(e->a[1]) ? std::min((int)e->w, ktz(e->a[0]) + (int)std::min<u128>(e->a[1]->c, e->w)) : ktz(e->a[0]);
    case kAnd: return std::max(ktz(e->a[0]), ktz(e->a[1]));
    case kZExt: case kSExt: { int z = ktz(e->a[0]); return z == e->a[0]->w ? e->w : z; }
    case kConcat: { int z = ktz(e->a[1]); return z == e->a[1]->w ? z + ktz(e->a[0]) : z; }
    case kIte: return std::min(ktz(e->a[1]), ktz(e->a[2]));
    default: return 0;
  }
}

// ---- signed interval of a bit-vector expression (conservative)
struct Rg { s128 lo, hi; };
static Rg full(int w) { s128 m = (s128)1 << (w - 1); return {-m, m - 1}; }
static Rg rangeOf(E e);
static Rg rangeOf1(E e) {
  int w = e->w;
  Rg f = full(w);
  auto fit = [&](s128 lo, s128 hi) { return lo >= f.lo && hi <= f.hi ? Rg{lo, hi} : f; };
  switch (e->k) {
    case kConst: { s128 v = sx(e->c, w); return {v, v}; }
    case kZExt: {
      int iw = e->a[0]->w;
      if (iw == 1) return {0, 1};
      Rg r = rangeOf(e->a[0]);
      if (r.lo >= 0) return r;
      return {0, ((s128)1 << iw) - 1};
    }
    case kSExt: { if (e->a[0]->w == 1) return {-1, 0}; return rangeOf(e->a[0]); }
    case kAdd: { Rg a = rangeOf(e->a[0]), b = rangeOf(e->a[1]); return fit(a.lo + b.lo, a.hi + b.hi); }
    case kSub: { Rg a = rangeOf(e->a[0]), b = rangeOf(e->a[1]); return fit(a.lo - b.hi, a.hi - b.lo); }
    case kMul: {
      if (w > 64) return f;
      Rg a = rangeOf(e->a[0]), b = rangeOf(e->a[1]);
      auto big = [](s128 x) { return x > ((s128)1 << 62) || x < -((s128)1 << 62); };
      if (big(a.lo) || big(a.hi) || big(b.lo) || big(b.hi)) return f;
      s128 p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
      s128 lo = p[0], hi = p[0];
      for (s128 x : p) { if (x < lo) lo = x; if (x > hi) hi = x; }
      if (e->a[0] == e->a[1] && lo < 0) lo = 0;
      return fit(lo, hi);
    }
    case kIte: { Rg a = rangeOf(e->a[1]), b = rangeOf(e->a[2]); return {a.lo < b.lo ? a.lo : b.lo, a.hi > b.hi ? a.hi : b.hi}; }
    case kAnd: { Rg b = rangeOf(e->a[1]); if (b.lo >= 0) return {0, b.hi}; Rg a = rangeOf(e->a[0]); if (a.lo >= 0) return {0, a.hi}; return f; }
    case kURem: { Rg b = rangeOf(e->a[1]); if (b.lo > 0) return {0, b.hi - 1}; return f; }
    case kUDiv: { Rg a = rangeOf(e->a[0]), b = rangeOf(e->a[1]); if (a.lo >= 0 && b.lo > 0) return {a.lo / b.hi, a.hi / b.lo}; return f; }
    case kSDiv: { Rg a = rangeOf(e->a[0]), b = rangeOf(e->a[1]); if (a.lo >= 0 && b.lo > 0) return {a.lo / b.hi, a.hi / b.lo}; return f; }
    case kLShr: { if (isC(e->a[1]) && e->a[1]->c > 0 && e->a[1]->c < (u128)w) { Rg a = rangeOf(e->a[0]); int sh = (int)e->a[1]->c; if (a.lo >= 0) return {a.lo >> sh, a.hi >> sh}; return {0, ((s128)1 << (w - sh)) - 1}; } return f; }
    case kAShr: { if (isC(e->a[1]) && e->a[1]->c < (u128)w) { Rg a = rangeOf(e->a[0]); int sh = (int)e->a[1]->c; return {a.lo >> sh, a.hi >> sh}; } return f; }
    case kExtract: { if (e->c == 0 && w > 1) { Rg a = rangeOf(e->a[0]); if (a.lo >= f.lo && a.hi <= f.hi) return a; } return f; }
    case kConcat: { if (isC(e->a[0]) && e->a[0]->c == 0) return {0, ((s128)1 << e->a[1]->w) - 1}; return f; }
    default: return f;
  }
}
static Rg rangeOf(E e) {
  static std::vector<Rg> val; static std::vector<char> have;
  if (e->w > 100 || e->s != BV) return full(std::min<int>(e->w, 126));
  if (have.size() < g_nexprs) { have.resize(g_nexprs + 65536, 0); val.resize(g_nexprs + 65536); }
  if (have[e->id]) return val[e->id];
  // iterative post-order to bound recursion depth
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (have[x->id]) { st.pop_back(); continue; }
    bool rdy = true;
    for (int i = 0; i < x->n; i++) if (x->a[i]->s == BV && x->a[i]->w <= 100 && !have[x->a[i]->id]) { st.push_back(x->a[i]); rdy = false; }
    if (!rdy) continue;
    Rg r = x->s == BV && x->w <= 100 ? rangeOf1(x) : Rg{0, 0};
    val[x->id] = r; have[x->id] = 1;
    st.pop_back();
  }
  return val[e->id];
}
// 1 true, 0 false, -1 unknown
static int rangeCmp(K k, E a, E b) {
  if (a->w > 64 || a->w < 2) return -1;
  Rg x = rangeOf(a), y = rangeOf(b);
  if (k == kUlt || k == kUle) {
    if (x.lo < 0 || y.lo < 0) {
      // one side known non-negative, the other known negative (huge unsigned)
      if (x.lo >= 0 && y.hi < 0) return 1;
      if (x.hi < 0 && y.lo >= 0) return 0;
      return -1;
    }
    k = k == kUlt ? kSlt : kSle;
  }
  if (k == kSlt) { if (x.hi < y.lo) return 1; if (x.lo >= y.hi) return 0; return -1; }
  if (k == kSle) { if (x.hi <= y.lo) return 1; if (x.lo > y.hi) return 0; return -1; }
  if (k == kEq) { if (x.hi < y.lo || x.lo > y.hi) return 0; return -1; }
  return -1;
}

// ---- interval of a floating-point expression: every non-NaN value lies in [lo, hi]
static FRg frangeOf1(E e, const std::vector<FRg>& val);
// range of e, at most `depth` levels above x, once x lies in `in`
static bool rangeUnder(E e, E x, const FRg& in, int depth, std::vector<FRg>& val, FRg& out) {
  if (e == x) { out = in; return true; }
  if (depth == 0 || e->s == BV) return false;
  FRg old[3]; bool any = false;
  for (int i = 0; i < e->n; i++) {
    if (e->a[i]->s == BV) continue;
    old[i] = val[e->a[i]->id];
    FRg r;
    if (rangeUnder(e->a[i], x, in, depth - 1, val, r)) { val[e->a[i]->id] = r; any = true; }
  }
  if (any) out = frangeOf1(e, val);
  for (int i = e->n - 1; i >= 0; i--) if (e->a[i]->s != BV) val[e->a[i]->id] = old[i];
  return any;
}
static void iteRanges(E e, std::vector<FRg>& val, FRg& a, FRg& b) {
  E c = e->a[0]; bool neg = false;
  while (isNot(c)) { c = c->a[0]; neg = !neg; }
  if (c->k != kFLt && c->k != kFLe) return;
  E l = c->a[0], r = c->a[1];
  bool lc = isC(l), rc = isC(r);
  if (lc == rc) return;
  E x = lc ? r : l;
  frangeOf(x);
  FRg xr = val[x->id], k = frangeOf(lc ? l : r);
  if (k.nan) return;
  FRg t = xr, f = xr;
  if (lc) { t.lo = std::max(t.lo, k.lo); f.hi = std::min(f.hi, k.hi); } else { t.hi = std::min(t.hi, k.hi); f.lo = std::max(f.lo, k.lo); }
  t.nan = false;
  FRg o;
  if (t.lo <= t.hi && rangeUnder(e->a[neg ? 2 : 1], x, t, 4, val, o)) (neg ? b : a) = o;
  if (f.lo <= f.hi && rangeUnder(e->a[neg ? 1 : 2], x, f, 4, val, o)) (neg ? a : b) = o;
}
static FRg frangeOf1(E e, const std::vector<FRg>& val) {
  const double inf = INFINITY;
  FRg top{-inf, inf, g_mode != MReal};
  auto R = [&](int i) -> const FRg& { return val[e->a[i]->id]; };
  auto out = [&](double lo, double hi, bool nan) {
    if (lo != lo) lo = -inf;
    if (hi != hi) hi = inf;
    if (g_mode == MReal) { lo = std::nextafter(lo, -inf); hi = std::nextafter(hi, inf); nan = false; }
    else if (e->s == F32) { }
    return FRg{lo, hi, nan};
  };
  if (e->k == kConst) {
    double d = e->s == F64 ? asD((uint64_t)e->c) : (double)asF((uint32_t)e->c);
    if (d != d) return {inf, -inf, true};
    return {d, d, false};
  }
  switch (e->k) {
    case kVar: { auto& v = g_vars[(uint32_t)e->c]; return v.ranged ? FRg{v.lo, v.hi, false} : top; }
    case kSiToFp: case kUiToFp: {
      E a = e->a[0];
      if (a->w > 64 || a->w < 2) return {-1.9e19, 1.9e19, false};
      Rg r = rangeOf(a);
      if (e->k == kUiToFp && r.lo < 0) { r.lo = 0; r.hi = ((s128)1 << a->w) - 1; }
      double lo = (double)r.lo, hi = (double)r.hi;
      if (e->s == F32) { lo = (float)r.lo; hi = (float)r.hi; }
      return {lo, hi, false};
    }
    case kFNeg: return {-R(0).hi, -R(0).lo, R(0).nan};
    case kFAbs: { auto a = R(0); double m = std::max(std::fabs(a.lo), std::fabs(a.hi)); double l = a.lo <= 0 && a.hi >= 0 ? 0 : std::min(std::fabs(a.lo), std::fabs(a.hi)); return {l, m, a.nan}; }
    case kFSqrt: { auto a = R(0); if (e->s == F32) return out(0, inf, a.nan || a.lo < 0); return out(a.lo > 0 ? std::sqrt(a.lo) * (1 - 1e-15) : -0.0, a.hi >= 0 ? std::sqrt(a.hi) * (1 + 1e-15) : 0, a.nan || a.lo < 0); }
    case kFAdd: case kFSub: {
      auto a = R(0), b = R(1);
      if (e->k == kFSub) { b = {-b.hi, -b.lo, b.nan}; }
      bool n = a.nan || b.nan || (a.lo == -inf && b.hi == inf) || (a.hi == inf && b.lo == -inf);
      if (e->s == F32) return out((double)((float)a.lo + (float)b.lo), (double)((float)a.hi + (float)b.hi), n);
      return out(a.lo + b.lo, a.hi + b.hi, n);
    }
    case kFMul: {
      auto a = R(0), b = R(1);
      bool az = a.lo <= 0 && a.hi >= 0, bz = b.lo <= 0 && b.hi >= 0, ai = std::isinf(a.lo) || std::isinf(a.hi), bi = std::isinf(b.lo) || std::isinf(b.hi);
      bool n = a.nan || b.nan || (az && bi) || (bz && ai);
      bool sq = e->a[0] == e->a[1];
      if (sq) n = a.nan;
      if (e->s == F32) return sq ? FRg{0, inf, n} : FRg{-inf, inf, n};
      auto ml = [](double x, double y) { return (x == 0 || y == 0) ? 0.0 : x * y; };
      double p[4] = {ml(a.lo, b.lo), ml(a.lo, b.hi), ml(a.hi, b.lo), ml(a.hi, b.hi)};
      double lo = p[0], hi = p[0];
      for (double x : p) { lo = std::min(lo, x); hi = std::max(hi, x); }
      if (sq && lo < 0) lo = 0;
      return out(lo, hi, n);
    }
    case kFDiv: {
      auto a = R(0), b = R(1);
      if (e->s == F32) return top;
      if (b.lo > 0 || b.hi < 0) {
        double p[4] = {a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi};
        double lo = inf, hi = -inf; bool bad = false;
        for (double x : p) { if (x != x) bad = true; lo = std::min(lo, x); hi = std::max(hi, x); }
        bool ai = std::isinf(a.lo) || std::isinf(a.hi), bi = std::isinf(b.lo) || std::isinf(b.hi);
        if (bad) { lo = -inf; hi = inf; }
        return out(lo, hi, a.nan || b.nan || (ai && bi));
      }
      if (b.lo >= 0 && a.lo >= 0 && false) return top;
      return top;
    }
    case kFpExt: return R(0);
    case kFpTrunc: { auto a = R(0); if (g_mode == MReal) return a; return {(double)(float)a.lo, (double)(float)a.hi, a.nan}; }
    case kFRound: { auto a = R(0); return out(std::floor(a.lo), std::ceil(a.hi), a.nan); }
    case kIte: { auto a = R(1), b = R(2); iteRanges(e, const_cast<std::vector<FRg>&>(val), a, b); return {std::min(a.lo, b.lo), std::max(a.hi, b.hi), a.nan || b.nan}; }
    case kUF: {
      const std::string& n = g_ufs[(uint32_t)e->c];
      if (n == "cos" || n == "sin") return {-1, 1, true};
      if (n == "exp") return {0, inf, g_mode != MReal && val[e->a[0]->id].nan};
      return top;
    }
    default: return top;
  }
}
static FRg frangeOf(E e) {
  static std::vector<FRg> val; static std::vector<char> have;
  if (have.size() < g_nexprs) { have.resize(g_nexprs + 65536, 0); val.resize(g_nexprs + 65536); }
  if (have[e->id]) return val[e->id];
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (have[x->id]) { st.pop_back(); continue; }
    bool rdy = true;
    for (int i = 0; i < x->n; i++) if (x->a[i]->s != BV && !have[x->a[i]->id]) { st.push_back(x->a[i]); rdy = false; }
    if (!rdy) continue;
    val[x->id] = frangeOf1(x, val); have[x->id] = 1;
    st.pop_back();
  }
  return val[e->id];
}
void valueRange(E e, double* lo, double* hi, bool* nan) { FRg r = frangeOf(e); *lo = r.lo; *hi = r.hi; *nan = r.nan; }
static int frangeCmp(K k, E a, E b) {
  FRg x = frangeOf(a), y = frangeOf(b);
  if (k == kFLt) { if (!x.nan && !y.nan && x.hi < y.lo) return 1; if (x.lo >= y.hi) return 0; }
  if (k == kFLe) { if (!x.nan && !y.nan && x.hi <= y.lo) return 1; if (x.lo > y.hi) return 0; }
  if (k == kFEq) { if (x.hi < y.lo || x.lo > y.hi) return 0; }
  return -1;
}

// ---- exact rewrites of floating-point comparisons and integer-valued sums
// i such that e == (double)i exactly, as a signed bit-vector of at most 54 bits
static E intValued(E e) {
  if (e->s != F64) return nullptr;
  if (e->k == kConst) {
    double d = asD((uint64_t)e->c);
    if (!(std::fabs(d) < 4503599627370496.0) || d != std::floor(d) || (d == 0 && std::signbit(d))) return nullptr;
    int64_t v = (int64_t)d;
    int w = 2;
    while (w < 54 && (v < -((int64_t)1 << (w - 1)) || v >= ((int64_t)1 << (w - 1)))) w++;
    return mkConst((u128)(s128)v, w);
  }
  if (e->k == kSiToFp && e->a[0]->w <= 54 && e->a[0]->w > 1) return e->a[0];
  if (e->k == kUiToFp && e->a[0]->w <= 53) return mk1(kZExt, e->a[0], e->a[0]->w + 1, BV);
  if ((e->k == kSiToFp || e->k == kUiToFp) && e->a[0]->w <= 64) {
    Rg r = rangeOf(e->a[0]);
    if (r.lo >= (e->k == kUiToFp ? 0 : -((s128)1 << 52)) && r.hi < ((s128)1 << 52)) {
      int w = 2;
      while (r.lo < -((s128)1 << (w - 1)) || r.hi >= ((s128)1 << (w - 1))) w++;
      return w < e->a[0]->w ? mkExtract(e->a[0], 0, w) : e->a[0];
    }
  }
  if (e->k == kSiToFp && e->a[0]->k == kSExt && e->a[0]->a[0]->w <= 54) return e->a[0]->a[0];
  if (e->k == kSiToFp && e->a[0]->k == kZExt && e->a[0]->a[0]->w <= 53) return mk1(kZExt, e->a[0]->a[0], e->a[0]->a[0]->w + 1, BV);
  if (e->k == kUiToFp && e->a[0]->k == kZExt && e->a[0]->a[0]->w <= 53) return mk1(kZExt, e->a[0]->a[0], e->a[0]->a[0]->w + 1, BV);
  return nullptr;
}
static E fromInt(E i) { return mk1(kSiToFp, i, 64, F64); }
static int64_t ordD(double d) { int64_t b = (int64_t)fromD(d); return b < 0 ? (int64_t)0x8000000000000000ull - b : b; }
static double unordD(int64_t o) { return asD((uint64_t)(o < 0 ? (int64_t)0x8000000000000000ull - o : o)); }
// e = f(x) for a non-decreasing correctly rounded f of one variable with constants
static bool monoStep(E e, E* x, std::function<double(double)>* f, bool* nonneg) {
  if (e->s != F64) return false;
  *nonneg = false;
  auto C = [](E k) { return asD((uint64_t)k->c); };
  if (e->k == kFSqrt) { *x = e->a[0]; *f = [](double v) { return std::sqrt(v); }; *nonneg = true; return true; }
  if ((e->k == kFAdd || e->k == kFMul) && isC(e->a[1])) {
    double c = C(e->a[1]); *x = e->a[0];
    if (!std::isfinite(c)) return false;
    if (e->k == kFAdd) { *f = [c](double v) { return v + c; }; return true; }
    if (!(c > 0)) return false;
    *f = [c](double v) { return v * c; }; return true;
  }
  if (e->k == kFSub && isC(e->a[1])) { double c = C(e->a[1]); if (!std::isfinite(c)) return false; *x = e->a[0]; *f = [c](double v) { return v - c; }; return true; }
  if (e->k == kFDiv && isC(e->a[1])) { double c = C(e->a[1]); if (!std::isfinite(c) || !(c > 0)) return false; *x = e->a[0]; *f = [c](double v) { return v / c; }; return true; }
  return false;
}
// compare f(x) with the constant K: kind 0: f<K, 1: f<=K, 2: K<f, 3: K<=f
static E monoCmp(E e, double K, int kind) {
  E x; std::function<double(double)> f; bool nn;
  if (K != K || !monoStep(e, &x, &f, &nn)) return nullptr;
  bool strict = kind == 1 || kind == 2;   // threshold: smallest x with f(x) > K (else >= K)
  auto hit = [&](double v) { double r = f(v); return strict ? r > K : r >= K; };
  int64_t lo = nn ? 0 : ordD(-INFINITY), hi = ordD(INFINITY);
  auto total = [&] { return nn ? mk2(kFLe, mkConst(fromD(0.0), 64, F64), x) : mkNot(mk1(kFIsNaN, x, 1, BV)); };
  if (!hit(unordD(hi))) return kind <= 1 ? total() : mkBool(false);
  if (hit(unordD(lo))) return kind <= 1 ? mkBool(false) : total();
  while (hi - lo > 1 || (lo < 0 && hi > 0 && (uint64_t)hi - (uint64_t)lo > 1)) {
    int64_t mid = lo / 2 + hi / 2 + (lo % 2 + hi % 2) / 2;
    if (mid == lo || mid == hi) break;
    if (hit(unordD(mid))) hi = mid; else lo = mid;
  }
  E T = mkConst(fromD(unordD(hi)), 64, F64);
  E r = kind <= 1 ? mk2(kFLt, x, T) : mk2(kFLe, T, x);
  if (nn && kind <= 1) r = mk2(kAnd, r, mk2(kFLe, mkConst(fromD(0.0), 64, F64), x));
  return r;
}
// e == v * 2^-k exactly, v of at most 54 bits
static bool dyadic(E e, E* v, int* k) {
  if (e->s != F64) return false;
  if (isC(e)) {
    double d = asD((uint64_t)e->c);
    if (!std::isfinite(d) || (d == 0 && std::signbit(d))) return false;
    int n = 0;
    while (n <= 60 && d != std::floor(d)) { d *= 2; n++; }
    if (n > 60) return false;
    *v = intValued(mkConst(fromD(d), 64, F64)); *k = n;
    return *v != nullptr;
  }
  if (e->k == kFMul && isC(e->a[1])) {
    int x; double c = asD((uint64_t)e->a[1]->c);
    if (c > 0 && std::isfinite(c) && std::frexp(c, &x) == 0.5 && x <= 0 && x >= -59) { *v = intValued(e->a[0]); *k = 1 - x; return *v != nullptr; }
    return false;
  }
  *v = intValued(e); *k = 0;
  return *v != nullptr;
}
static E fromDyadic(E v, int k) {
  Rg r = rangeOf(v);
  int w = 2;
  while (w < v->w && (r.lo < -((s128)1 << (w - 1)) || r.hi >= ((s128)1 << (w - 1)))) w++;
  if (w < v->w) v = mkExtract(v, 0, w);
  E f = fromInt(v);
  return k ? mk2(kFMul, f, mkConst(fromD(std::ldexp(1.0, -k)), 64, F64)) : f;
}
static E iteDyadic(E c, E a, E b) {
  E v, w; int m, n;
  if (a->s != F64 || (isC(a) && isC(b)) || !dyadic(a, &v, &m) || !dyadic(b, &w, &n)) return nullptr;
  int q = std::max(m, n), W = std::max(v->w + q - m, w->w + q - n);
  if (W > 54) return nullptr;
  auto al = [&](E x, int d) { return mk2(kShl, mk1(kSExt, x, W, BV), mkConst(d, W)); };
  return fromDyadic(mkIte(c, al(v, q - m), al(w, q - n)), q);
}
// value of a converted to a w-bit integer (out of range is undefined: any value)
static E dyadicToInt(K k, E a, int w) {
  E v; int n;
  if (isC(a) || !dyadic(a, &v, &n)) return nullptr;
  Rg r = rangeOf(v);
  if (k == kFpToUi && r.lo < 0) return nullptr;
  if (r.lo < 0 && n) {
    int W = v->w + 1;
    v = mk1(kSExt, v, W, BV);
    v = mk2(kAdd, v, mkIte(mk2(kSlt, v, mkConst(0, W)), mkConst(((u128)1 << n) - 1, W), mkConst(0, W)));
  }
  if (n >= v->w) v = mk1(kSExt, v, n + 1, BV);
  if (n) v = mk2(kAShr, v, mkConst(n, v->w));
  Rg q = rangeOf(v);
  if (q.lo < -((s128)1 << (w - 1)) || q.hi >= ((s128)1 << (k == kFpToUi ? w : w - 1))) return nullptr;
  return v->w == w ? v : v->w < w ? mk1(kSExt, v, w, BV) : mkExtract(v, 0, w);
}
static E dyadicRound(E a, int kind) {
  E v; int n;
  if (isC(a) || !dyadic(a, &v, &n)) return nullptr;
  if (!n) return a;
  if (kind != kRFloor && !(kind == kRTrunc && rangeOf(v).lo >= 0)) return nullptr;
  if (n >= v->w) v = mk1(kSExt, v, n + 1, BV);
  return fromDyadic(mk2(kAShr, v, mkConst(n, v->w)), 0);
}
static E dyadicRewrite(K k, E a, E b) {
  if (isC(a) && isC(b)) return nullptr;
  if (k == kFDiv && isC(b)) {
    int x; double c = asD((uint64_t)b->c);
    if (c > 0 && std::isfinite(c) && std::frexp(c, &x) == 0.5 && x > -1000 && x < 1000) return mk2(kFMul, a, mkConst(fromD(1 / c), 64, F64));
    return nullptr;
  }
  E v, w; int m, n;
  if (!dyadic(a, &v, &m) || !dyadic(b, &w, &n) || (m == 0 && n == 0)) return nullptr;
  if (k == kFMul) {
    if (!isC(b)) return nullptr;
    int64_t c = (int64_t)sx(w->c, w->w);
    if (c <= 0) return nullptr;
    if (c == 1) return m == 0 || m + n > 59 ? nullptr : fromDyadic(v, m + n);
    int lg = 0; while (lg < 62 && ((int64_t)1 << lg) < c) lg++;
    if (n == 0 && ((int64_t)1 << lg) == c && lg <= m) return fromDyadic(v, m - lg);
    int W = v->w + w->w;
    if (W > 54 || m + n > 59) return nullptr;
    return fromDyadic(mk2(kMul, mk1(kSExt, v, W, BV), mk1(kSExt, w, W, BV)), m + n);
  }
  if (k != kFAdd && k != kFSub && k != kFEq && k != kFLt && k != kFLe) return nullptr;
  int q = std::max(m, n), W = std::max(v->w + q - m, w->w + q - n) + 1;
  if (W > ((k == kFAdd || k == kFSub) ? 54 : 120)) return nullptr;
  auto al = [&](E x, int d) { return mk2(kShl, mk1(kSExt, x, W, BV), mkConst(d, W)); };
  E x = al(v, q - m), y = al(w, q - n);
  switch (k) {
    case kFAdd: return fromDyadic(mk2(kAdd, x, y), q);
    case kFSub: return fromDyadic(mk2(kSub, x, y), q);
    case kFEq: return mk2(kEq, x, y);
    case kFLt: return mk2(kSlt, x, y);
    default: return mk2(kSle, x, y);
  }
}
static E fpRewrite(K k, E a, E b) {
  if (a->s == F32 && k == kFDiv && isC(b) && !isC(a)) {
    int x; float c = asF((uint32_t)b->c);
    if (c > 0 && std::isfinite(c) && std::frexp(c, &x) == 0.5f && x > -100 && x < 100) return mk2(kFMul, a, mkConst(fromF(1 / c), 32, F32));
  }
  if (a->s != F64) return nullptr;
  if (E r = dyadicRewrite(k, a, b)) return r;
  E i = intValued(a), j = i ? intValued(b) : nullptr;
  bool bothConst = isC(a) && isC(b);
  if (i && j && !bothConst) {
    int w = std::max(i->w, j->w) + 1;
    auto sxt = [](E v, int n) { return mk1(kSExt, v, n, BV); };
    switch (k) {
      case kFAdd: if (w <= 54) return fromInt(mk2(kAdd, sxt(i, w), sxt(j, w))); break;
      case kFSub: if (w <= 54) return fromInt(mk2(kSub, sxt(i, w), sxt(j, w))); break;
      case kFMul: {
        int m = i->w + j->w;
        bool zeroSafe = a == b || (isC(b) && sx(j->c, j->w) > 0);
        if (m <= 54 && zeroSafe) return fromInt(mk2(kMul, sxt(i, m), sxt(j, m)));
        break;
      }
      case kFEq: return mk2(kEq, sxt(i, w), sxt(j, w));
      case kFLt: return mk2(kSlt, sxt(i, w), sxt(j, w));
      case kFLe: return mk2(kSle, sxt(i, w), sxt(j, w));
      default: break;
    }
  }
  // integer against a fractional constant
  if (k == kFLt || k == kFLe || k == kFEq) {
    E in = isC(b) ? i : nullptr, jn = isC(a) ? intValued(b) : nullptr;
    E v = in ? in : jn;
    if (v && !isC(v) && !bothConst) {
      double c = asD((uint64_t)(in ? b : a)->c);
      if (c != c) return mkBool(false);
      auto lim = std::ldexp(1.0, 54);
      if (c >= lim) return mkBool(k == kFEq ? false : in ? true : false);
      if (c <= -lim) return mkBool(k == kFEq ? false : in ? false : true);
      int w = 56;
      E vx = mk1(kSExt, v, w, BV);
      auto cst = [&](double d) { return mkConst((u128)(s128)(int64_t)d, w); };
      if (k == kFEq) return c == std::floor(c) ? mk2(kEq, vx, cst(c)) : mkBool(false);
      if (in) return k == kFLt ? mk2(kSlt, vx, cst(std::ceil(c))) : mk2(kSle, vx, cst(std::floor(c)));
      return k == kFLt ? mk2(kSlt, cst(std::floor(c)), vx) : mk2(kSle, cst(std::ceil(c)), vx);
    }
  }
  if (g_mode == MExact && (k == kFLt || k == kFLe) && !bothConst) {
    if (isC(b)) return monoCmp(a, asD((uint64_t)b->c), k == kFLt ? 0 : 1);
    if (isC(a)) return monoCmp(b, asD((uint64_t)a->c), k == kFLt ? 2 : 3);
  }
  return nullptr;
}
E mk2(K k, E a, E b) {
  bool fp = a->s != BV;
  bool cmp = (k == kEq || k == kUlt || k == kUle || k == kSlt || k == kSle || k == kFEq || k == kFLt || k == kFLe);
  int rw = cmp ? 1 : a->w;
  Sort rs = cmp ? BV : a->s;
  if (isC(a) && isC(b)) {
    bool ok; u128 r = foldBin(k, a->c, b->c, a->w, a->s, &ok);
    if (ok) return mkConst(r, rw, rs);
  }
  if (comm(k)) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  if (!fp) {
    if (k == kUlt || k == kUle || k == kSlt || k == kSle || k == kEq) {
      int rc = rangeCmp(k, a, b);
      if (rc >= 0) return mkBool(rc);
      if ((k == kSlt || k == kSle) && a->w <= 64 && a->w > 1 && rangeOf(a).lo >= 0 && rangeOf(b).lo >= 0) k = k == kSlt ? kUlt : kUle;
    }
    switch (k) {
      case kAdd:
        if (isCv(b, 0)) return a;
        if (isC(b) && a->k == kAdd && isC(a->a[1])) return mk2(kAdd, a->a[0], mkConst(a->a[1]->c + b->c, a->w));
        // pull constants outwards: x + (y + c) -> (x + y) + c
        if (!isC(b)) {
          if (a->k == kAdd && isC(a->a[1])) return mk2(kAdd, mk2(kAdd, a->a[0], b), a->a[1]);
          if (b->k == kAdd && isC(b->a[1])) return mk2(kAdd, mk2(kAdd, a, b->a[0]), b->a[1]);
          if (a->k == kSub && a->a[1] == b) return a->a[0];
          if (b->k == kSub && b->a[1] == a) return b->a[0];
        }
        if (isC(b) && a->k == kIte && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mk2(kAdd, a->a[1], b), mk2(kAdd, a->a[2], b));
        break;
      case kSub:
        if (a == b) return mkConst(0, a->w);
        if (isC(b)) return mk2(kAdd, a, mkConst(0 - b->c, a->w));
        if (a->k == kAdd && isC(a->a[1])) {
          if (b->k == kAdd && isC(b->a[1])) return mk2(kAdd, mk2(kSub, a->a[0], b->a[0]), mkConst(a->a[1]->c - b->a[1]->c, a->w));
          return mk2(kAdd, mk2(kSub, a->a[0], b), a->a[1]);
        }
        if (b->k == kAdd && isC(b->a[1])) return mk2(kAdd, mk2(kSub, a, b->a[0]), mkConst(0 - b->a[1]->c, a->w));
        if (a->k == kAdd) { if (a->a[0] == b) return a->a[1]; if (a->a[1] == b) return a->a[0]; }
        break;
      case kMul:
        if (isCv(b, 0)) return b;
        if (isCv(b, 1)) return a;
        // keep products of extended operands as narrow as they can be, so that
        // the same product written at different widths is the same expression
        for (K x : {kSExt, kZExt})
          if (a->k == x && b->k == x) {
            int n = a->a[0]->w + b->a[0]->w;
            if (n < a->w) return mk1(x, mk2(kMul, mk1(x, a->a[0], n, BV), mk1(x, b->a[0], n, BV)), a->w, BV);
          }
        if (isC(b) && a->k == kMul && isC(a->a[1])) return mk2(kMul, a->a[0], mkConst(a->a[1]->c * b->c, a->w));
        if (isC(b) && a->k == kAdd && isC(a->a[1])) return mk2(kAdd, mk2(kMul, a->a[0], b), mkConst(a->a[1]->c * b->c, a->w));
        break;
      case kShl:
        if (isCv(b, 0)) return a;
        if (isC(b) && b->c < (u128)a->w && a->w > 1) return mk2(kMul, a, mkConst((u128)1 << (int)b->c, a->w));
        break;
      case kLShr: case kAShr:
        if (isCv(b, 0)) return a;
        if (isC(b) && k == kLShr && a->k == kZExt && b->c >= (u128)a->a[0]->w) return mkConst(0, a->w);
        break;
      case kUDiv: case kSDiv: if (isCv(b, 1)) return a; break;
      case kURem: if (isCv(b, 1)) return mkConst(0, a->w);
        break;
      case kAnd:
        if (a == b) return a;
        if (isCv(b, 0)) return b;
        if (allones(b)) return a;
        if (a->w == 1 && (a == mkNot(b))) return mkBool(false);
        if (isC(b) && a->k == kAnd && isC(a->a[1])) return mk2(kAnd, a->a[0], mkConst(a->a[1]->c & b->c, a->w));
        if (isC(b) && a->k == kOr && isC(a->a[1])) return mk2(kOr, mk2(kAnd, a->a[0], mkConst(b->c & ~a->a[1]->c, a->w)), mkConst(a->a[1]->c & b->c, a->w));
        if (isC(b) && a->k == kZExt && ((b->c & maskw(a->a[0]->w)) == maskw(a->a[0]->w))) return a;
        if (isC(b) && a->w > 1 && (b->c & (b->c + 1)) == 0) {  // low mask
          int n = 0; u128 c = b->c; while (c) { n++; c >>= 1; }
          return mk1(kZExt, mkExtract(a, 0, n), a->w, BV);
        }
        break;
      case kOr:
        if (a == b) return a;
        if (isCv(b, 0)) return a;
        if (allones(b)) return b;
        if (a->w == 1 && (a == mkNot(b))) return mkBool(true);
        if (isC(b) && a->k == kOr && isC(a->a[1])) return mk2(kOr, a->a[0], mkConst(a->a[1]->c | b->c, a->w));
        // byte assembly:  zext(lo) | (zext(hi) * 2^k)
        for (int sw = 0; sw < 2; sw++) {
          E x = sw ? b : a, y = sw ? a : b;
          if (x->k == kZExt && y->k == kMul && isC(y->a[1]) && y->a[1]->c == ((u128)1 << x->a[0]->w) && y->a[0]->k == kZExt &&
              y->a[0]->a[0]->w + x->a[0]->w <= a->w)
            return mk1(kZExt, mkConcat(y->a[0]->a[0], x->a[0]), a->w, BV);
        }
        break;
      case kXor:
        if (a == b) return mkConst(0, a->w);
        if (isCv(b, 0)) return a;
        if (isC(b) && a->k == kXor && isC(a->a[1])) return mk2(kXor, a->a[0], mkConst(a->a[1]->c ^ b->c, a->w));
        if (a->w == 1 && isCv(b, 1)) {
          if (a->k == kUlt) return mk2(kUle, a->a[1], a->a[0]);
          if (a->k == kUle) return mk2(kUlt, a->a[1], a->a[0]);
          if (a->k == kSlt) return mk2(kSle, a->a[1], a->a[0]);
          if (a->k == kSle) return mk2(kSlt, a->a[1], a->a[0]);
          if (g_mode == MReal) {
            if (a->k == kFLt) return mk2(kFLe, a->a[1], a->a[0]);
            if (a->k == kFLe) return mk2(kFLt, a->a[1], a->a[0]);
          }
        }
        break;
      case kEq:
        if (a == b) return mkBool(true);
        if (a->w == 1 && isC(b)) return b->c ? a : mkNot(a);
        if (isC(b)) {
          if (a->k == kZExt) { if (b->c >> a->a[0]->w) return mkBool(false); return mk2(kEq, a->a[0], mkConst(b->c, a->a[0]->w)); }
          if (a->k == kSExt) {
            u128 lo = b->c & maskw(a->a[0]->w);
            if (((u128)sx(lo, a->a[0]->w) & maskw(a->w)) != b->c) return mkBool(false);
            return mk2(kEq, a->a[0], mkConst(lo, a->a[0]->w));
          }
          if (a->k == kAdd && isC(a->a[1])) return mk2(kEq, a->a[0], mkConst(b->c - a->a[1]->c, a->w));
          if (a->k == kIte && (isC(a->a[1]) || isC(a->a[2]))) return mkIte(a->a[0], mk2(kEq, a->a[1], b), mk2(kEq, a->a[2], b));
          if (a->k == kConcat) return mk2(kAnd, mk2(kEq, a->a[0], mkConst(b->c >> a->a[1]->w, a->a[0]->w)), mk2(kEq, a->a[1], mkConst(b->c, a->a[1]->w)));
          int tz = ktz(a);
          if (tz && (b->c & maskw(std::min(tz, (int)a->w)))) return mkBool(false);
          // 2^k * zext(x) == c  with no overflow
          if (a->k == kMul && isC(a->a[1]) && a->a[0]->k == kZExt) {
            u128 m = a->a[1]->c;
            if ((m & (m - 1)) == 0) {
              int sh = 0; while ((m >> sh) != 1) sh++;
              if (a->a[0]->a[0]->w + sh <= a->w) return mk2(kEq, a->a[0], mkConst(b->c >> sh, a->w));
            }
          }
        }
        break;
      case kUlt:
        if (a == b) return mkBool(false);
        if (isCv(b, 0)) return mkBool(false);
        if (allones(a)) return mkBool(false);
        if (isCv(b, 1)) return mk2(kEq, a, mkConst(0, a->w));
        if (isC(b) && a->k == kZExt) { if (b->c >> a->a[0]->w) return mkBool(true); return mk2(kUlt, a->a[0], mkConst(b->c, a->a[0]->w)); }
        if (isC(a) && b->k == kZExt) { if (a->c >= maskw(b->a[0]->w)) return mkBool(false); return mk2(kUlt, mkConst(a->c, b->a[0]->w), b->a[0]); }
        if (a->k == kZExt && b->k == kZExt && a->a[0]->w == b->a[0]->w) return mk2(kUlt, a->a[0], b->a[0]);
        if (isC(b) && a->k == kIte && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mk2(k, a->a[1], b), mk2(k, a->a[2], b));
        if (isC(a) && b->k == kIte && isC(b->a[1]) && isC(b->a[2])) return mkIte(b->a[0], mk2(k, a, b->a[1]), mk2(k, a, b->a[2]));
        break;
      case kUle:
        if (a == b) return mkBool(true);
        if (isCv(a, 0)) return mkBool(true);
        if (allones(b)) return mkBool(true);
        if (isCv(b, 0)) return mk2(kEq, a, b);
        if (isC(b) && a->k == kZExt) { if (b->c >= maskw(a->a[0]->w)) return mkBool(true); return mk2(kUle, a->a[0], mkConst(b->c, a->a[0]->w)); }
        if (isC(a) && b->k == kZExt) { if (a->c > maskw(b->a[0]->w)) return mkBool(false); return mk2(kUle, mkConst(a->c, b->a[0]->w), b->a[0]); }
        if (isC(b) && a->k == kIte && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mk2(k, a->a[1], b), mk2(k, a->a[2], b));
        if (isC(a) && b->k == kIte && isC(b->a[1]) && isC(b->a[2])) return mkIte(b->a[0], mk2(k, a, b->a[1]), mk2(k, a, b->a[2]));
        break;
      case kSlt: case kSle:
        if (a == b) return mkBool(k == kSle);
        if (a->k == kZExt && b->k == kZExt && a->a[0]->w == b->a[0]->w) return mk2(k == kSlt ? kUlt : kUle, a->a[0], b->a[0]);
        if (isC(b) && a->k == kZExt) {
          if (sx(b->c, b->w) < 0) return mkBool(false);
          return mk2(k == kSlt ? kUlt : kUle, a, b);
        }
        if (isC(a) && b->k == kZExt) {
          if (sx(a->c, a->w) < 0) return mkBool(true);
          return mk2(k == kSlt ? kUlt : kUle, a, b);
        }
        if (isC(b) && a->k == kIte && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mk2(k, a->a[1], b), mk2(k, a->a[2], b));
        if (isC(a) && b->k == kIte && isC(b->a[1]) && isC(b->a[2])) return mkIte(b->a[0], mk2(k, a, b->a[1]), mk2(k, a, b->a[2]));
        if (isC(b) && a->k == kSExt) {
          s128 v = sx(b->c, b->w); int iw = a->a[0]->w; s128 mx = ((s128)1 << (iw - 1)) - 1, mn = -mx - 1;
          if (v > mx) return mkBool(true);
          if (v < mn) return mkBool(false);
          return mk2(k, a->a[0], mkConst((u128)v, iw));
        }
        if (isC(a) && b->k == kSExt) {
          s128 v = sx(a->c, a->w); int iw = b->a[0]->w; s128 mx = ((s128)1 << (iw - 1)) - 1, mn = -mx - 1;
          if (v > mx) return mkBool(false);
          if (v < mn) return mkBool(true);
          return mk2(k, mkConst((u128)v, iw), b->a[0]);
        }
        break;
      default: break;
    }
  } else {
    if (cmp) { int rc = frangeCmp(k, a, b); if (rc >= 0) return mkBool(rc); }
    if (E rw = fpRewrite(k, a, b)) return rw;
    auto cd = [](E e) { return e->s == F64 ? asD((uint64_t)e->c) : (double)asF((uint32_t)e->c); };
    bool real = g_mode == MReal;
    auto nonfin = [&](E e) { return isC(e) && !std::isfinite(cd(e)); };
    if (real && (nonfin(a) || nonfin(b))) {
      // A symbolic value is finite in this mode, so these fold.
      double x = isC(a) ? cd(a) : 1.0, y = isC(b) ? cd(b) : 1.0;  // representative finite value
      bool an = isC(a) && x != x, bn = isC(b) && y != y;
      auto mkD = [&](double d) { return a->s == F64 ? mkConst(fromD(d), 64, F64) : mkConst(fromF((float)d), 32, F32); };
      switch (k) {
        case kFAdd: case kFSub: if (an || bn) return mkD(NAN); return mkD(k == kFAdd ? x + y : x - y);
        case kFEq: return mkBool(false);
        case kFLt: case kFLe:
          if (an || bn) return mkBool(false);
          if (nonfin(a)) return mkBool(x < 0);
          return mkBool(y > 0);
        case kFMul: if (an || bn) return mkD(NAN); break;
        case kFDiv: if (an || bn) return mkD(NAN); if (nonfin(b)) return mkD(0.0); break;
        default: break;
      }
    }
    switch (k) {
      case kFAdd:
        if (isC(b)) { double y = cd(b); if (y == 0 && (real || std::signbit(y))) return a; }
        if (g_mode != MExact && a == b) return mk2(kFMul, a, a->s == F64 ? mkConst(fromD(2.0), 64, F64) : mkConst(fromF(2.0f), 32, F32));
        if (g_mode == MUF && isC(b) && a->k == kIte && (isC(a->a[1]) || isC(a->a[2]))) return mkIte(a->a[0], mk2(kFAdd, a->a[1], b), mk2(kFAdd, a->a[2], b));
        break;
      case kFSub:
        if (isC(b)) { double y = cd(b); if (y == 0 && (real || !std::signbit(y))) return a; }
        if (real && a == b) return mkConst(0, a->w, a->s);
        if (real && isC(a) && cd(a) == 0) return mk1(kFNeg, b, b->w, b->s);
        break;
      case kFMul:
        if (isC(b)) {
          double y = cd(b);
          if (y == 1) return a;
          if (real && y == 0) return mkConst(0, a->w, a->s);
          if (y == -1) return mk1(kFNeg, a, a->w, a->s);
        }
        break;
      case kFDiv:
        if (g_mode != MExact && a == b && a->s == F64) {
          // x / x is exactly 1 for a finite x other than zero
          FRg r = frangeOf(a);
          if (!r.nan && (r.lo > 0 || r.hi < 0) && std::isfinite(r.lo) && std::isfinite(r.hi)) return mkConst(fromD(1.0), 64, F64);
        }
        if (isC(b)) {
          double y = cd(b);
          if (y == 1) return a;
          int ex; double fr = std::frexp(y, &ex);
          // division by a power of two is exactly multiplication by its inverse
          if (std::isfinite(y) && y != 0 && std::fabs(fr) == 0.5 && std::abs(ex) < 100) {
            double inv = 1.0 / y;
            return mk2(kFMul, a, a->s == F64 ? mkConst(fromD(inv), 64, F64) : mkConst(fromF((float)inv), 32, F32));
          }
        }
        if (real && isC(a) && cd(a) == 0) return mkConst(0, a->w, a->s);
        break;
      case kFEq:
        if (a == b) return mkNot(mk1(kFIsNaN, a, 1, BV));
        if (isC(b) && cd(b) != cd(b)) return mkBool(false);
        break;
      case kFLt:
        if (a == b) return mkBool(false);
        if ((isC(a) && cd(a) != cd(a)) || (isC(b) && cd(b) != cd(b))) return mkBool(false);
        if (isC(a) && std::isinf(cd(a)) && cd(a) > 0) return mkBool(false);
        if (isC(b) && std::isinf(cd(b)) && cd(b) < 0) return mkBool(false);
        break;
      case kFLe:
        if (a == b) return mkNot(mk1(kFIsNaN, a, 1, BV));
        if ((isC(a) && cd(a) != cd(a)) || (isC(b) && cd(b) != cd(b))) return mkBool(false);
        break;
      default: break;
    }
  }
  E kk[2] = {a, b};
  return intern(k, rs, rw, 0, 2, kk);
}
bool evalE(E e0, const Assign& asg, u128* out) {
  static std::vector<u128> val; static std::vector<uint32_t> ep; static uint32_t epoch = 0;
  epoch++;
  if (val.size() < g_nexprs) { val.resize(g_nexprs + 1024); ep.resize(g_nexprs + 1024, 0); }
  std::vector<E> st{e0};
  while (!st.empty()) {
    E e = st.back();
    if (ep[e->id] == epoch) { st.pop_back(); continue; }
    if (e->k == kConst) { val[e->id] = e->c; ep[e->id] = epoch; st.pop_back(); continue; }
    if (e->k == kVar) {
      auto it = asg.find((uint32_t)e->c);
      val[e->id] = it == asg.end() ? 0 : it->second; ep[e->id] = epoch; st.pop_back(); continue;
    }
    if (e->k == kUF) return false;
    if (e->k == kIte) {
      if (ep[e->a[0]->id] != epoch) { st.push_back(e->a[0]); continue; }
      E t = val[e->a[0]->id] ? e->a[1] : e->a[2];
      if (ep[t->id] != epoch) { st.push_back(t); continue; }
      val[e->id] = val[t->id]; ep[e->id] = epoch; st.pop_back(); continue;
    }
    bool ready = true;
    for (int i = 0; i < e->n; i++) if (ep[e->a[i]->id] != epoch) { st.push_back(e->a[i]); ready = false; }
    if (!ready) continue;
    bool ok = true; u128 r;
    if (e->k == kConcat) r = (val[e->a[0]->id] << e->a[1]->w) | val[e->a[1]->id];
    else if (e->n == 1) r = foldUn(e->k, val[e->a[0]->id], e->a[0]->w, e->a[0]->s, e->w, e->s, e->c, &ok);
    else r = foldBin(e->k, val[e->a[0]->id], val[e->a[1]->id], e->a[0]->w, e->a[0]->s, &ok);
    if (!ok) return false;
    val[e->id] = r; ep[e->id] = epoch; st.pop_back();
  }
  *out = val[e0->id];
  return true;
}
std::string show(E e, int d) {
  static const char* nm[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
                             "concat", "extract", "zext", "sext", "=", "u<", "u<=", "s<", "s<=", "ite", "fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "fabs", "fsqrt",
                             "f=", "f<", "f<=", "isnan", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "f2b", "b2f", "fround", "uf"};
  if (e->k == kConst) {
    char b[64];
    if (e->s == F64) snprintf(b, 64, "%.17g", asD((uint64_t)e->c));
    else if (e->s == F32) snprintf(b, 64, "%.9gf", asF((uint32_t)e->c));
    else snprintf(b, 64, "%lld", (long long)sx(e->c, e->w));
    return b;
  }
  if (e->k == kVar) return g_vars[(uint32_t)e->c].name;
  if (d == 0) return "..";
  std::string r = "(";
  r += e->k == kUF ? g_ufs[(uint32_t)e->c] : nm[e->k];
  if (e->k == kExtract) r += "@" + std::to_string((int)e->c) + "+" + std::to_string(e->w);
  for (int i = 0; i < e->n; i++) r += " " + show(e->a[i], d - 1);
  return r + ")";
}
