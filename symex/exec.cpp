#include "exec.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>

const Val* agg(std::vector<Val> v) { Val* p = new Val[v.size() + 1]; for (size_t i = 0; i < v.size(); i++) p[i] = v[i]; return p; }
static Val undefShared(int w, Sort s) {
  static std::map<std::pair<int, int>, E> m;
  E& e = m[{w, s}];
  if (!e) e = mkVar("undef", w, s, true);
  Val v; v.e = e; return v;
}
E Ex::freshUndef_(int w, Sort s) { freshUndef++; return mkVar("uninit" + std::to_string(freshUndef), w, s, true); }
E Ex::toE(const Val& v, int w, Sort s) {
  if (!v.e) return mkConst(v.c, w, s);
  if (v.e->s == s) return v.e;
  if (s == BV) return mk1(kF2B, v.e, v.e->w, BV);
  return mk1(kB2F, v.e, v.e->w, s);
}
Val Ex::fromE(E e) {
  Val v;
  if (e->k == kConst && e->w <= 64) { v.c = (uint64_t)e->c; return v; }
  v.e = e;
  return v;
}
static E conv(E e, Sort s) {
  if (e->s == s) return e;
  if (s == BV) return mk1(kF2B, e, e->w, BV);
  if (e->s == BV) return mk1(kB2F, e, e->w, s);
  return mk1(kB2F, mk1(kF2B, e, e->w, BV), e->w, s);
}
static inline uint64_t m64(int n) { return n >= 8 ? ~0ull : ((1ull << (8 * n)) - 1); }

// ---------------------------------------------------------------- reporting
std::string Ex::where(State& S) {
  if (S.fr.empty()) return "?";
  for (int i = S.fr.size() - 1; i >= 0; i--) {
    Frame& f = S.fr[i];
    auto& in = P.f[f.fn].b[f.block].in;
    if (f.pc < in.size()) {
      const std::string& l = P.locs[in[f.pc].dbg];
      if (l != "?" && (l.find("/repo/") != std::string::npos || i == 0)) return l;
    }
  }
  return P.f[S.fr.back().fn].pretty;
}
std::string Ex::backtrace(State& S) {
  std::string r;
  for (int i = S.fr.size() - 1, n = 0; i >= 0 && n < 14; i--, n++) {
    Frame& f = S.fr[i];
    auto& in = P.f[f.fn].b[f.block].in;
    r += P.f[f.fn].pretty.substr(0, 160) + " @ " + (f.pc < in.size() ? P.locs[in[f.pc].dbg] : "?") + "\n";
  }
  return r;
}
std::vector<std::pair<std::string, std::string>> Ex::inputsOf(State& S, const Assign& m) {
  std::vector<std::pair<std::string, std::string>> r;
  for (auto& i : S.inputs) {
    u128 v = i.v.c;
    if (i.v.e) {
      if (i.v.e->k == kVar) { auto it = m.find((uint32_t)i.v.e->c); v = it == m.end() ? 0 : it->second; }
      else evalE(i.v.e, m, &v);
    }
    char b[64];
    snprintf(b, sizeof b, "%c %016llx", i.kind, (unsigned long long)(uint64_t)v);
    r.push_back({i.name, b});
  }
  return r;
}
void Ex::report(State& S, const std::string& kind, const std::string& msg, const Assign* m) {
  std::string key = kind + "|" + msg;
  if (violCount[key]++ >= opt.maxViol) return;
  Assign own;
  if (!m) {
    if (S.model) m = S.model.get();
    else {
      Res r = solve(Z, S.pc, nullptr, &own);
      if (r == UNSAT) { violCount[key]--; return; }          // the path itself is impossible
      if (r == UNKNOWN) { violCount[key]--; unknown[kind + ": " + msg]++; return; }
      m = &own;
    }
  }
  Violation v{kind, msg, where(S), backtrace(S), inputsOf(S, *m), ""};
  viol.push_back(v);
}
void Ex::error(State& S, const std::string& kind, const std::string& msg) {
  report(S, kind, msg, nullptr);
  throw PathEnd{2};
}
void Ex::unsupported(State& S, const std::string& what) {
  if (getenv("VSX_TRACE")) fprintf(stderr, "unsupported %s\n%s", what.c_str(), backtrace(S).c_str());
  unsup[what]++;
  throw PathEnd{4};
}
// ---------------------------------------------------------------- path condition
void Ex::add(State& S, E c) {
  if (isC(c)) return;
  if (S.pcs.count(c)) return;
  S.pcs.insert(c);
  S.pc.push_back(c);
  if (S.model) {
    u128 r;
    if (!(evalE(c, *S.model, &r) && r)) S.model.reset();
  }
}
void Ex::fork(State& S, E cond, std::shared_ptr<Assign> m) {
  forks++;
  if (getenv("VSX_TRACE")) fprintf(stderr, "fork\n%s", backtrace(S).c_str());
  auto n = std::make_unique<State>(S);
  n->depth++;
  if (m) n->model = m; else n->model.reset();
  n->pcs.insert(cond);
  n->pc.push_back(cond);
  work.push_back(std::move(n));
}
static void renameUndef(E e, std::unordered_map<E, E>& memo, E& out) {
  // copy of e with every uninitialised variable replaced by a fresh one
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (memo.count(x)) { st.pop_back(); continue; }
    if (!x->undef) { memo[x] = x; st.pop_back(); continue; }
    if (x->k == kVar) { memo[x] = mkVar("u'", x->w, x->s, true); st.pop_back(); continue; }
    bool rdy = true;
    for (int i = 0; i < x->n; i++) if (!memo.count(x->a[i])) { st.push_back(x->a[i]); rdy = false; }
    if (!rdy) continue;
    E r;
    if (x->k == kIte) r = mkIte(memo[x->a[0]], memo[x->a[1]], memo[x->a[2]]);
    else if (x->k == kExtract) r = mkExtract(memo[x->a[0]], (int)x->c, x->w);
    else if (x->k == kConcat) r = mkConcat(memo[x->a[0]], memo[x->a[1]]);
    else if (x->k == kUF) { std::vector<E> v; for (int i = 0; i < x->n; i++) v.push_back(memo[x->a[i]]); r = mkUF((int)x->c, v, x->w, x->s); }
    else if (x->n == 1) r = mk1(x->k, memo[x->a[0]], x->w, x->s, x->c);
    else r = mk2(x->k, memo[x->a[0]], memo[x->a[1]]);
    memo[x] = r;
    st.pop_back();
  }
  out = memo[e];
}
void Ex::undefCheck(State& S, E c, const char* what) {
  if (!c->undef) return;
  std::unordered_map<E, E> memo;
  E c2; renameUndef(c, memo, c2);
  if (c2 == c) return;
  E differ = c->s == BV ? mkNot(mk2(kEq, c, c2)) : mkNot(mk2(kEq, mk1(kF2B, c, c->w, BV), mk1(kF2B, c2, c->w, BV)));
  Assign m;
  Res r = solve(Z, S.pc, differ, &m, S.model.get());
  if (r == SAT) { report(S, "uninit", std::string(what) + " depends on an uninitialised value", &m); throw PathEnd{2}; }
  if (r == UNKNOWN) unknown["uninit check"]++;
}
bool Ex::feasible(State& S, E c, Assign* m) {
  if (isC(c)) return c->c != 0;
  if (S.pcs.count(c)) return true;
  return solve(Z, S.pc, c, m, S.model.get()) != UNSAT;
}
bool Ex::decide(State& S, E c) {
  if (isC(c)) return c->c != 0;
  if (S.pcs.count(c)) return true;
  E nc = mkNot(c);
  if (S.pcs.count(nc)) return false;
  if (c->undef) undefCheck(S, c, "branch");
  u128 v;
  if (g_mode == MExact && S.model && evalE(c, *S.model, &v)) {
    bool side = v != 0;
    E other = side ? nc : c;
    auto m = std::make_shared<Assign>();
    Res r = solve(Z, S.pc, other, m.get(), S.model.get());
    if (r == UNSAT) { S.pcs.insert(side ? c : nc); return side; }
    if (r == UNKNOWN) m.reset();
    fork(S, other, m);
    S.pcs.insert(side ? c : nc); S.pc.push_back(side ? c : nc);
    return side;
  }
  auto m1 = std::make_shared<Assign>(), m0 = std::make_shared<Assign>();
  Res r1 = solve(Z, S.pc, c, m1.get(), S.model.get());
  if (r1 == UNSAT) { S.pcs.insert(nc); return false; }
  Res r0 = solve(Z, S.pc, nc, m0.get(), S.model.get());
  if (r1 == SAT && g_mode == MExact) S.model = m1; else S.model.reset();
  if (r0 == UNSAT) { S.pcs.insert(c); return true; }
  fork(S, nc, r0 == SAT && g_mode == MExact ? m0 : nullptr);
  S.pcs.insert(c); S.pc.push_back(c);
  return true;
}
uint64_t Ex::concretize(State& S, E e) {
  if (isC(e)) return (uint64_t)e->c;
  auto it = S.known.find(e);
  if (it != S.known.end()) return it->second;
  if (e->s != BV) unsupported(S, "concretising a float");
  if (e->undef) undefCheck(S, e, "address or size");
  u128 v = 0;
  bool have = g_mode == MExact && S.model && evalE(e, *S.model, &v);
  if (!have) {
    E k = mkVar("conc", e->w, BV);
    auto m = std::make_shared<Assign>();
    Res r = solve(Z, S.pc, mk2(kEq, k, e), m.get(), S.model.get());
    if (r == UNSAT) throw PathEnd{1};
    if (r == UNKNOWN) unsupported(S, "solver gave up concretising a value");
    v = (*m)[(uint32_t)k->c];
    if (g_mode == MExact) S.model = m;
  }
  E eq = mk2(kEq, e, mkConst(v, e->w)), ne = mkNot(eq);
  auto m = std::make_shared<Assign>();
  Res r = isC(ne) ? (ne->c ? SAT : UNSAT) : S.pcs.count(ne) ? SAT : solve(Z, S.pc, ne, m.get(), S.model.get());
  if (r != UNSAT) fork(S, ne, r == SAT && g_mode == MExact ? m : nullptr);
  if (r != UNSAT) { S.pcs.insert(eq); S.pc.push_back(eq); } else S.pcs.insert(eq);
  S.known[e] = (uint64_t)v;
  return (uint64_t)v;
}
void Ex::assume(State& S, E c) {
  if (isC(c)) { if (!c->c) throw PathEnd{1}; return; }
  if (S.pcs.count(c)) return;
  if (S.pcs.count(mkNot(c))) throw PathEnd{1};
  u128 v;
  if (g_mode == MExact && S.model && evalE(c, *S.model, &v) && v) { add(S, c); return; }
  auto m = std::make_shared<Assign>();
  Res r = solve(Z, S.pc, c, m.get(), S.model.get());
  if (r == UNSAT) throw PathEnd{1};
  S.model.reset();
  S.pcs.insert(c); S.pc.push_back(c);
  if (r == SAT && g_mode == MExact) S.model = m;
}
void Ex::check(State& S, E c, const std::string& kind, const std::string& msg) {
  asserts++;
  if (isC(c)) {
    if (c->c) { assertsConcrete++; assertsProved++; return; }
    report(S, kind, msg, nullptr);
    throw PathEnd{2};
  }
  if (S.pcs.count(c)) { assertsProved++; return; }
  if (c->undef) undefCheck(S, c, "assertion");
  E nc = mkNot(c);
  Assign m;
  Res r = solve(Z, S.pc, nc, &m, S.model.get());
  if (r == UNSAT) { assertsProved++; S.pcs.insert(c); return; }
  if (r == SAT) { report(S, kind, msg, &m); }
  else unknown[kind + ": " + msg]++;
  if (!feasible(S, c)) throw PathEnd{2};
  S.model.reset();
  S.pcs.insert(c); S.pc.push_back(c);
}
// ---------------------------------------------------------------- memory
static void slotBytes(const Slot& s, E out[8], uint8_t& mask, uint64_t& raw) {
  mask = s.mask; raw = s.raw;
  for (int i = 0; i < 8; i++) out[i] = nullptr;
  if (s.form == 1) { E b = conv(s.e, BV); for (int i = 0; i < 8; i++) out[i] = mkExtract(b, i * 8, 8); mask = 0xff; }
  else if (s.form == 2) {
    if (s.e) { E b = conv(s.e, BV); for (int i = 0; i < 4; i++) out[i] = mkExtract(b, i * 8, 8); mask |= 0x0f; }
    if (s.e2) { E b = conv(s.e2, BV); for (int i = 0; i < 4; i++) out[4 + i] = mkExtract(b, i * 8, 8); mask |= 0xf0; }
  } else if (s.form == 3) {
    const E* b = (const E*)s.e;
    for (int i = 0; i < 8; i++) if (b[i]) { out[i] = b[i]; mask |= 1 << i; }
  }
  for (int i = 0; i < 8; i++) if (out[i] && isC(out[i])) { raw = (raw & ~(0xffull << (8 * i))) | ((uint64_t)out[i]->c << (8 * i)); out[i] = nullptr; }
}
static void setBytes(Slot& s, E in[8], uint8_t mask, uint64_t raw) {
  bool any = false;
  for (int i = 0; i < 8; i++) any |= in[i] != nullptr;
  s.raw = raw; s.mask = mask; s.e = s.e2 = nullptr; s.form = 0;
  if (!any) return;
  E* b = new E[8];
  for (int i = 0; i < 8; i++) b[i] = in[i];
  s.form = 3; s.e = (E)(const void*)b;
}
Val Ex::rdBytes(State& S, uint32_t id, uint64_t off, int n, Sort s, int w) {
  const Obj* o = S.mem.get(id);
  const std::vector<Slot>& sl = o->d->s;
  uint64_t i = off >> 3; int r = off & 7;
  auto fin = [&](E e) -> Val {   // e: BV of 8n bits or already of sort s
    if (e->s == s && e->w == w) return fromE(e);
    e = conv(e, BV);
    if (w < e->w) e = mkExtract(e, 0, w);
    return fromE(conv(e, s));
  };
  if (r + n <= 8) {
    const Slot& t = sl[i];
    if (t.form == 0) {
      uint8_t m = ((1 << n) - 1) << r;
      if ((t.mask & m) == m) { uint64_t v = (t.raw >> (8 * r)) & m64(n); if (w < 64) v &= (1ull << w) - 1; return Val::C(v); }
      if ((t.mask & m) == 0) return fromE(w == 8 * n ? freshUndef_(w, s) : freshUndef_(w, BV));
    } else if (t.form == 1) {
      if (n == 8) return fin(t.e);
      return fin(mkExtract(conv(t.e, BV), 8 * r, 8 * n));
    } else if (t.form == 2 && n == 4 && (r == 0 || r == 4)) {
      E h = r ? t.e2 : t.e;
      if (h) return fin(h);
      uint8_t m = 0xf << r;
      if ((t.mask & m) == m) { uint64_t v = (t.raw >> (8 * r)) & m64(4); if (w < 64) v &= (1ull << w) - 1; return Val::C(v); }
      if ((t.mask & m) == 0) return fromE(freshUndef_(w, w == 32 ? s : BV));
    }
  }
  E res = nullptr;
  E b[8]; uint8_t mask; uint64_t raw; uint64_t cur = ~0ull;
  bool allc = true; uint64_t cv = 0;
  std::vector<E> es(n);
  for (int k = 0; k < n; k++) {
    uint64_t q = (off + k) >> 3; int p = (off + k) & 7;
    if (q != cur) { slotBytes(sl[q], b, mask, raw); cur = q; }
    if (!(mask >> p & 1)) { es[k] = freshUndef_(8, BV); allc = false; }
    else if (b[p]) { es[k] = b[p]; allc = false; }
    else { es[k] = nullptr; if (k < 8) cv |= ((raw >> (8 * p)) & 0xff) << (8 * k); if (k >= 8) allc = false; if (k >= 8) es[k] = mkConst((raw >> (8 * p)) & 0xff, 8); }
  }
  if (allc && n <= 8) { if (w < 64) cv &= (1ull << w) - 1; return Val::C(cv); }
  for (int k = 0; k < n; k++) {
    E e = es[k] ? es[k] : mkConst((cv >> (8 * k)) & 0xff, 8);
    res = res ? mkConcat(e, res) : e;
  }
  return fin(res);
}
void Ex::wrBytes(State& S, uint32_t id, uint64_t off, int n, const Val& v, Sort s) {
  auto& sl = S.mem.data(id)->s;
  uint64_t i = off >> 3; int r = off & 7;
  if (!v.e && r + n <= 8) {
    Slot& t = sl[i];
    if (n == 8) { t.raw = v.c; t.mask = 0xff; t.form = 0; t.e = t.e2 = nullptr; return; }
    uint64_t mm = m64(n) << (8 * r);
    if (t.form == 0) { t.raw = (t.raw & ~mm) | ((v.c << (8 * r)) & mm); t.mask |= ((1 << n) - 1) << r; return; }
    if (t.form == 2 && n == 4 && (r & 3) == 0) {
      t.raw = (t.raw & ~mm) | ((v.c << (8 * r)) & mm); t.mask |= 0xf << r;
      (r ? t.e2 : t.e) = nullptr;
      if (!t.e && !t.e2) t.form = 0;
      return;
    }
  }
  if (v.e && n == 8 && r == 0) { Slot& t = sl[i]; t.form = 1; t.e = v.e; t.e2 = nullptr; t.mask = 0xff; return; }
  if (v.e && n == 4 && (r == 0 || r == 4) && v.e->w == 32) {
    Slot& t = sl[i];
    if (t.form == 0) { t.form = 2; t.e = t.e2 = nullptr; (r ? t.e2 : t.e) = v.e; t.mask &= ~(0xf << r); return; }
    if (t.form == 2) { (r ? t.e2 : t.e) = v.e; t.mask &= ~(0xf << r); return; }
    if (t.form == 1) { E b = conv(t.e, BV); t.form = 2; E lo = mkExtract(b, 0, 32), hi = mkExtract(b, 32, 32); t.mask = 0; t.e = r ? lo : v.e; t.e2 = r ? v.e : hi; return; }
  }
  E ve = v.e ? conv(v.e, BV) : nullptr;
  if (ve && ve->w < 8 * n) ve = mk1(kZExt, ve, 8 * n, BV);
  for (int k = 0; k < n;) {
    uint64_t q = (off + k) >> 3;
    E b[8]; uint8_t mask; uint64_t raw;
    slotBytes(sl[q], b, mask, raw);
    for (; k < n && ((off + k) >> 3) == q; k++) {
      int p = (off + k) & 7;
      mask |= 1 << p;
      if (ve && !isC(mkExtract(ve, 8 * k, 8))) b[p] = mkExtract(ve, 8 * k, 8);
      else {
        uint64_t byte = ve ? (uint64_t)mkExtract(ve, 8 * k, 8)->c : k < 8 ? (v.c >> (8 * k)) & 0xff : 0;
        b[p] = nullptr; raw = (raw & ~(0xffull << (8 * p))) | (byte << (8 * p));
      }
    }
    setBytes(sl[q], b, mask, raw);
  }
}
void Ex::access(State& S, uint64_t addr, uint64_t n, bool wr, uint32_t& id, uint64_t& off) {
  id = addr >> 32;
  int64_t o = (int64_t)(addr & 0xffffffffull) - (int64_t)kBase;
  const Obj* ob = S.mem.get(id);
  if (!ob) {
    if (addr < 4096 || (addr >> 32) == 0) error(S, "null-deref", std::string(wr ? "write" : "read") + " through a null or invalid pointer");
    error(S, "bad-pointer", std::string(wr ? "write" : "read") + " through an invalid pointer");
  }
  if (ob->freed) error(S, "use-after-free", std::string(wr ? "write" : "read") + " of freed memory");
  if (o < 0 || (uint64_t)o + n > ob->size) {
    error(S, "out-of-bounds", std::string(wr ? "write" : "read") + " outside an object");
  }
  if (wr && ob->ro) error(S, "const-write", "write to constant data");
  off = o;
}
static E simpP(State& S, E e) {
  if (e->k == kIte) {
    if (S.pcs.count(e->a[0])) return simpP(S, e->a[1]);
    if (S.pcs.count(mkNot(e->a[0]))) return simpP(S, e->a[2]);
    return e;
  }
  if (e->k == kAdd) { E a = simpP(S, e->a[0]), b = simpP(S, e->a[1]); return a == e->a[0] && b == e->a[1] ? e : mk2(kAdd, a, b); }
  return e;
}
static E findIte(E e) {
  if (e->k == kIte) return e;
  if (e->k == kAdd) { E r = findIte(e->a[0]); return r ? r : findIte(e->a[1]); }
  return nullptr;
}
E Ex::splitBase(State& S, E addr, uint32_t& id) {
  for (int it = 0; it < 64; it++) {
    addr = simpP(S, addr);
    u128 c = 0;
    if (isC(addr)) c = addr->c;
    else if (addr->k == kAdd && isC(addr->a[1])) c = addr->a[1]->c;
    uint32_t cid = (uint64_t)c >> 32;
    if (cid && S.mem.get(cid)) { id = cid; return mk2(kSub, addr, mkConst(addrOf(cid), 64)); }
    E ite = isC(addr) ? nullptr : findIte(addr);
    if (ite) { decide(S, ite->a[0]); continue; }
    uint64_t v = concretize(S, addr);
    id = v >> 32;
    return mkConst(v - addrOf(id), 64);
  }
  unsupported(S, "pointer resolution");
}
Val Ex::loadScalar(State& S, const Val& p, int n, Sort s, int w) {
  uint32_t id; uint64_t off;
  if (!p.e) { access(S, p.c, n, false, id, off); return rdBytes(S, id, off, n, s, w); }
  if (p.e->undef) undefCheck(S, p.e, "address");
  E o = splitBase(S, p.e, id);
  if (isC(o)) { access(S, addrOf(id) + (uint64_t)o->c, n, false, id, off); return rdBytes(S, id, off, n, s, w); }
  const Obj* ob = S.mem.get(id);
  if (!ob) error(S, "bad-pointer", "read through an invalid pointer");
  if (ob->freed) error(S, "use-after-free", "read of freed memory");
  if (ob->size < (uint64_t)n) error(S, "out-of-bounds", "read outside an object");
  check(S, mk2(kUle, o, mkConst(ob->size - n, 64)), "out-of-bounds", "read outside an object");
  int tz = std::min(ktz(o), 20);
  uint64_t st = 1ull << tz, cnt = (ob->size - n) / st + 1;
  auto kn = S.known.find(o);
  if (kn != S.known.end()) return rdBytes(S, id, kn->second, n, s, w);
  u128 mv;
  if (cnt > 2 && g_mode == MExact && S.model && evalE(o, *S.model, &mv) && !feasible(S, mkNot(mk2(kEq, o, mkConst(mv, 64))))) {
    S.known[o] = (uint64_t)mv;
    return rdBytes(S, id, (uint64_t)mv, n, s, w);
  }
  if (cnt > (uint64_t)opt.iteCap) { uint64_t k = concretize(S, o); return rdBytes(S, id, k, n, s, w); }
  E r = nullptr;
  for (uint64_t i = cnt; i-- > 0;) {
    E v = toE(rdBytes(S, id, i * st, n, s, w), w, s);
    r = r ? mkIte(mk2(kEq, o, mkConst(i * st, 64)), v, r) : v;
  }
  return fromE(r);
}
void Ex::storeScalar(State& S, const Val& p, const Val& v, int n, Sort s, int w) {
  uint32_t id; uint64_t off;
  if (!p.e) { access(S, p.c, n, true, id, off); wrBytes(S, id, off, n, v, s); return; }
  if (p.e->undef) undefCheck(S, p.e, "address");
  E o = splitBase(S, p.e, id);
  if (isC(o)) { access(S, addrOf(id) + (uint64_t)o->c, n, true, id, off); wrBytes(S, id, off, n, v, s); return; }
  const Obj* ob = S.mem.get(id);
  if (!ob) error(S, "bad-pointer", "write through an invalid pointer");
  if (ob->freed) error(S, "use-after-free", "write of freed memory");
  if (ob->ro) error(S, "const-write", "write to constant data");
  if (ob->size < (uint64_t)n) error(S, "out-of-bounds", "write outside an object");
  check(S, mk2(kUle, o, mkConst(ob->size - n, 64)), "out-of-bounds", "write outside an object");
  int tz = std::min(ktz(o), 20);
  uint64_t st = 1ull << tz, cnt = (ob->size - n) / st + 1;
  auto kn = S.known.find(o);
  if (kn != S.known.end()) { wrBytes(S, id, kn->second, n, v, s); return; }
  u128 mv;
  if (cnt > 2 && g_mode == MExact && S.model && evalE(o, *S.model, &mv) && !feasible(S, mkNot(mk2(kEq, o, mkConst(mv, 64))))) {
    S.known[o] = (uint64_t)mv;
    wrBytes(S, id, (uint64_t)mv, n, v, s);
    return;
  }
  if (cnt > 24 || st < (uint64_t)n) { uint64_t k = concretize(S, o); wrBytes(S, id, k, n, v, s); return; }
  E ve = toE(v, w, s);
  for (uint64_t i = 0; i < cnt; i++) {
    E old = toE(rdBytes(S, id, i * st, n, s, w), w, s);
    wrBytes(S, id, i * st, n, fromE(mkIte(mk2(kEq, o, mkConst(i * st, 64)), ve, old)), s);
  }
}
Val Ex::load(State& S, const Val& p, ::Type* t) {
  if (!t->agg()) {
    if (t->k == ::Type::Other) unsupported(S, "load of an exotic type");
    return loadScalar(S, p, (int)t->store, t->sort(), t->w);
  }
  std::vector<Val> v;
  for (uint64_t i = 0; i < t->n; i++) {
    ::Type* et = t->k == ::Type::Struct ? t->el[i] : t->el[0];
    uint64_t o = t->k == ::Type::Struct ? t->off[i] : i * et->size;
    Val q = p;
    if (o) { if (q.e) q = fromE(mk2(kAdd, q.e, mkConst(o, 64))); else q.c += o; }
    v.push_back(load(S, q, et));
  }
  Val r; r.agg = agg(v); return r;
}
void Ex::store(State& S, const Val& p, const Val& v, ::Type* t) {
  if (!t->agg()) {
    if (t->k == ::Type::Other) unsupported(S, "store of an exotic type");
    storeScalar(S, p, v, (int)t->store, t->sort(), t->w); return;
  }
  for (uint64_t i = 0; i < t->n; i++) {
    ::Type* et = t->k == ::Type::Struct ? t->el[i] : t->el[0];
    uint64_t o = t->k == ::Type::Struct ? t->off[i] : i * et->size;
    Val q = p;
    if (o) { if (q.e) q = fromE(mk2(kAdd, q.e, mkConst(o, 64))); else q.c += o; }
    store(S, q, v.agg[i], et);
  }
}
uint8_t Ex::cbyte(State& S, uint64_t addr) {
  uint32_t id; uint64_t off;
  access(S, addr, 1, false, id, off);
  Val v = rdBytes(S, id, off, 1, BV, 8);
  return (uint8_t)concVal(S, v);
}
std::string Ex::cstr(State& S, uint64_t addr, size_t max) {
  std::string r;
  for (size_t i = 0; i < max; i++) { uint8_t c = cbyte(S, addr + i); if (!c) break; r += (char)c; }
  return r;
}
void Ex::copyMem(State& S, uint64_t dst, uint64_t src, uint64_t n) {
  if (!n) return;
  uint32_t di, si; uint64_t d, s;
  access(S, src, n, false, si, s);
  access(S, dst, n, true, di, d);
  if (di == si && d == s) return;
  if ((d & 7) == (s & 7)) {
    std::vector<Slot> tmp;
    uint64_t a = s, e = s + n;
    uint64_t head = (8 - (a & 7)) & 7; if (head > n) head = n;
    uint64_t mid = (n - head) / 8, tail = n - head - mid * 8;
    Val hv, tv; std::vector<Val> hb, tb;
    // read everything first (overlap safe)
    const auto& ss = S.mem.get(si)->d->s;
    for (uint64_t i = 0; i < mid; i++) tmp.push_back(ss[((a + head) >> 3) + i]);
    auto rdPart = [&](uint64_t off, uint64_t len, Slot& out, int& r) { out = ss[off >> 3]; r = off & 7; };
    Slot hs, ts; int hr = 0, tr = 0;
    if (head) rdPart(a, head, hs, hr);
    if (tail) rdPart(e - tail, tail, ts, tr);
    auto& ds = S.mem.data(di)->s;
    auto merge = [&](uint64_t off, uint64_t len, const Slot& from, int r) {
      Slot& t = ds[off >> 3];
      if (from.form == 0 && t.form == 0) {
        uint64_t mm = m64(len) << (8 * r);
        t.raw = (t.raw & ~mm) | (from.raw & mm);
        uint8_t bm = ((1 << len) - 1) << r;
        t.mask = (t.mask & ~bm) | (from.mask & bm);
        return;
      }
      if (len == 4 && (from.form == 2 || from.form == 0) && (t.form == 0 || t.form == 2)) {
        uint64_t mm = m64(4) << (8 * r); uint8_t bm = 0xf << r;
        E h = from.form == 2 ? (r ? from.e2 : from.e) : nullptr;
        if (t.form == 0) { t.e = t.e2 = nullptr; t.form = 2; }
        (r ? t.e2 : t.e) = h;
        t.raw = (t.raw & ~mm) | (from.raw & mm);
        t.mask = (t.mask & ~bm) | (h ? 0 : (from.mask & bm));
        if (!t.e && !t.e2) t.form = 0;
        return;
      }
      E fb[8], tb2[8]; uint8_t fm, tm; uint64_t fr, trw;
      slotBytes(from, fb, fm, fr); slotBytes(t, tb2, tm, trw);
      for (uint64_t k = 0; k < len; k++) {
        int p = r + k;
        tb2[p] = fb[p]; tm = (tm & ~(1 << p)) | (fm & (1 << p));
        trw = (trw & ~(0xffull << (8 * p))) | (fr & (0xffull << (8 * p)));
      }
      setBytes(t, tb2, tm, trw);
    };
    if (head) merge(d, head, hs, hr);
    for (uint64_t i = 0; i < mid; i++) ds[((d + head) >> 3) + i] = tmp[i];
    if (tail) merge(d + n - tail, tail, ts, tr);
    return;
  }
  // general: chunk by the natural alignment of both
  struct B { Val v; int n; bool undef; };
  std::vector<B> bs;
  uint64_t i = 0;
  while (i < n) {
    int c = 1;
    if (((s + i) & 3) == 0 && ((d + i) & 3) == 0 && n - i >= 4) c = 4;
    else if (((s + i) & 1) == 0 && ((d + i) & 1) == 0 && n - i >= 2) c = 2;
    bs.push_back({rdBytes(S, si, s + i, c, BV, 8 * c), c, false});
    i += c;
  }
  i = 0;
  for (auto& b : bs) { wrBytes(S, di, d + i, b.n, b.v, BV); i += b.n; }
}
Val Ex::cmpMem(State& S, uint64_t a, uint64_t b, uint64_t n, bool eqOnly) {
  if (!n) return Val::C(0);
  uint32_t ai, bi; uint64_t ao, bo;
  access(S, a, n, false, ai, ao);
  access(S, b, n, false, bi, bo);
  E acc = mkConst(0, 32);
  std::vector<std::pair<E, E>> pr;
  for (uint64_t i = 0; i < n; i++) {
    Val x = rdBytes(S, ai, ao + i, 1, BV, 8), y = rdBytes(S, bi, bo + i, 1, BV, 8);
    if (!x.e && !y.e) {
      if (x.c == y.c) continue;
      pr.push_back({mkConst(x.c, 8), mkConst(y.c, 8)});
      break;
    }
    pr.push_back({toE(x, 8, BV), toE(y, 8, BV)});
  }
  for (size_t i = pr.size(); i-- > 0;) {
    E x = pr[i].first, y = pr[i].second;
    E diff = eqOnly ? mkConst(1, 32) : mkIte(mk2(kUlt, x, y), mkConst(0xffffffffu, 32), mkConst(1, 32));
    acc = mkIte(mk2(kEq, x, y), acc, diff);
  }
  return fromE(acc);
}
uint64_t Ex::doAlloc(State& S, const Val& size, ObjKind k, bool& failed) {
  failed = false;
  uint64_t n = size.c;
  if (size.e) {
    if (decide(S, mk2(kUlt, mkConst(opt.maxAlloc, 64), size.e))) { if (opt.oomDrop) throw PathEnd{1}; failed = true; return 0; }
    n = concretize(S, size.e);
  }
  if (n > opt.maxAlloc) { if (opt.oomDrop) throw PathEnd{1}; failed = true; return 0; }
  const Inst& in = P.f[S.fr.back().fn].b[S.fr.back().block].in[S.fr.back().pc];
  return addrOf(S.mem.alloc(n, k, in.dbg));
}
void Ex::doFree(State& S, const Val& pv, ObjKind k) {
  uint64_t p = concVal(S, pv);
  if (!p) return;
  uint32_t id = p >> 32;
  const Obj* o = S.mem.get(id);
  if (!o || (p & 0xffffffffu) != kBase) error(S, "bad-free", "free of a pointer that was not allocated");
  if (o->freed) error(S, "double-free", "memory released twice");
  if (o->kind != k) error(S, "bad-free", "memory released by the wrong function");
  S.mem.release(id);
}
// ---------------------------------------------------------------- constants
Val Ex::evalC(State& S, const COp& o) {
  switch (o.k) {
    case COp::Bits:
      if (o.t->w > 64) { Val v; v.e = mkConst(((u128)o.hi << 64) | o.lo, o.t->w); return v; }
      return Val::C(o.lo);
    case COp::Global: return Val::C(gaddr[o.idx]);
    case COp::Func: return Val::C((uint64_t)(kFnBase + o.idx) << 32);
    case COp::Undef: {
      if (o.t->agg()) {
        std::vector<Val> v;
        for (uint64_t i = 0; i < o.t->n; i++) { COp x; x.k = COp::Undef; x.t = o.t->k == ::Type::Struct ? o.t->el[i] : o.t->el[0]; v.push_back(evalC(S, x)); }
        Val r; r.agg = agg(v); return r;
      }
      if (o.t->k == ::Type::Other || o.t->k == ::Type::Void) return Val::C(0);
      return undefShared(o.t->w, o.t->sort());
    }
    case COp::Agg: {
      std::vector<Val> v;
      for (auto& s : o.sub) v.push_back(evalC(S, s));
      if (v.empty()) for (uint64_t i = 0; i < o.t->n && i < 4096; i++) v.push_back(Val::C(0));
      Val r; r.agg = agg(v); return r;
    }
    case COp::Expr: {
      Val a = o.sub.size() ? evalC(S, o.sub[0]) : Val::C(0);
      switch (o.op) {
        case 1: return Val::C(a.c + o.konst);
        case 2: return a;
        case 3: { Val b = evalC(S, o.sub[1]); uint64_t r = a.c - b.c; if (o.t->w < 64) r &= (1ull << o.t->w) - 1; return Val::C(r); }
        case 4: { Val b = evalC(S, o.sub[1]); uint64_t r = a.c + b.c; if (o.t->w < 64) r &= (1ull << o.t->w) - 1; return Val::C(r); }
        case 5: return Val::C(o.t->w < 64 ? a.c & ((1ull << o.t->w) - 1) : a.c);
        case 6: { Val b = evalC(S, o.sub[1]); static ::Type pt; pt.k = ::Type::Ptr; pt.w = 64; return icmp(S, (int)o.konst - 32, a, b, &pt); }
        default: return Val::C(0);
      }
    }
  }
  return Val::C(0);
}
Val Ex::cst(State& S, int i) {
  if (chave[i]) return cval[i];
  cval[i] = evalC(S, P.consts[i]);
  chave[i] = 1;
  return cval[i];
}
void Ex::initObj(State& S, uint32_t id, uint64_t off, const COp& o) {
  if (o.k == COp::Agg) {
    if (o.op == 1) return;  // zero already
    for (uint64_t i = 0; i < o.sub.size(); i++) {
      ::Type* t = o.t;
      uint64_t f = t->k == ::Type::Struct ? t->off[i] : i * t->el[0]->size;
      initObj(S, id, off + f, o.sub[i]);
    }
    return;
  }
  if (o.k == COp::Undef) return;
  Val v = evalC(S, o);
  if (o.t->agg()) return;
  if (o.t->store) wrBytes(S, id, off, (int)o.t->store, v, o.t->sort());
}
// ---------------------------------------------------------------- operations
static const K uniK = kConst;
Val Ex::un(State& S, K k, const Val& a, int w, Sort s, u128 aux) {
  int fw = s == F64 ? 64 : 32;
  if (!a.e) { bool ok; u128 r = foldUn(k, a.c, fw, s, w, k == kFIsNaN ? BV : s, aux, &ok); if (ok) return Val::C((uint64_t)r); }
  return fromE(mk1(k, toE(a, fw, s), w, k == kFIsNaN ? BV : s, aux));
}
Val Ex::bin(State& S, K k, const Val& a, const Val& b, ::Type* t) {
  if (t->k == ::Type::Vec) {
    std::vector<Val> v;
    for (uint64_t i = 0; i < t->n; i++) v.push_back(bin(S, k, a.agg[i], b.agg[i], t->el[0]));
    Val r; r.agg = agg(v); return r;
  }
  if (!a.e && !b.e) {
    if (t->k == ::Type::D) {
      double x = asD(a.c), y = asD(b.c);
      switch (k) {
        case kFAdd: return Val::C(fromD(x + y));
        case kFSub: return Val::C(fromD(x - y));
        case kFMul: return Val::C(fromD(x * y));
        case kFDiv: return Val::C(fromD(x / y));
        default: return Val::C(fromD(std::fmod(x, y)));
      }
    }
    uint64_t m = t->w >= 64 ? ~0ull : (1ull << t->w) - 1;
    if (t->k != ::Type::F) switch (k) {
      case kAdd: return Val::C((a.c + b.c) & m);
      case kSub: return Val::C((a.c - b.c) & m);
      case kMul: return Val::C((a.c * b.c) & m);
      case kAnd: return Val::C(a.c & b.c);
      case kOr: return Val::C(a.c | b.c);
      case kXor: return Val::C(a.c ^ b.c);
      default: break;
    }
    bool ok; u128 r = foldBin(k, a.c, b.c, t->w, t->sort(), &ok);
    if (ok) return Val::C((uint64_t)r);
    if (k == kUDiv || k == kSDiv || k == kURem || k == kSRem) error(S, "div-by-zero", "integer division by zero");
    unsupported(S, "constant operation");
  }
  E x = toE(a, t), y = toE(b, t);
  if (k == kUDiv || k == kSDiv || k == kURem || k == kSRem) {
    if (isC(y)) { if (!y->c) error(S, "div-by-zero", "integer division by zero"); }
    else check(S, mkNot(mk2(kEq, y, mkConst(0, y->w))), "div-by-zero", "integer division by zero");
  }
  if (g_mode == MReal && k == kFDiv) {
    if (isC(y)) {
      if ((t->k == ::Type::D ? asD((uint64_t)y->c) : asF((uint32_t)y->c)) == 0) { realExcluded++; throw PathEnd{1}; }
    } else {
      E nz = mkNot(mk2(kFEq, y, mkConst(0, y->w, y->s)));
      if (!S.pcs.count(nz)) {
        Res r = solve(Z, S.pc, mkNot(nz), nullptr);
        if (r != UNSAT) { realExcluded++; if (!feasible(S, nz)) throw PathEnd{1}; S.pc.push_back(nz); }
        S.pcs.insert(nz);
      }
    }
  }
  if (g_mode == MReal && t->k == ::Type::F) {}
  return fromE(mk2(k, x, y));
}
Val Ex::icmp(State& S, int p, const Val& a, const Val& b, ::Type* t) {
  if (t->k == ::Type::Vec) {
    std::vector<Val> v;
    for (uint64_t i = 0; i < t->n; i++) v.push_back(icmp(S, p, a.agg[i], b.agg[i], t->el[0]));
    Val r; r.agg = agg(v); return r;
  }
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c;
    int64_t sxv = (int64_t)sx(x, t->w), syv = (int64_t)sx(y, t->w);
    switch (p) {
      case 0: return Val::C(x == y);
      case 1: return Val::C(x != y);
      case 2: return Val::C(x > y);
      case 3: return Val::C(x >= y);
      case 4: return Val::C(x < y);
      case 5: return Val::C(x <= y);
      case 6: return Val::C(sxv > syv);
      case 7: return Val::C(sxv >= syv);
      case 8: return Val::C(sxv < syv);
      default: return Val::C(sxv <= syv);
    }
  }
  E x = toE(a, t), y = toE(b, t);
  switch (p) {
    case 0: return fromE(mk2(kEq, x, y));
    case 1: return fromE(mkNot(mk2(kEq, x, y)));
    case 2: return fromE(mk2(kUlt, y, x));
    case 3: return fromE(mk2(kUle, y, x));
    case 4: return fromE(mk2(kUlt, x, y));
    case 5: return fromE(mk2(kUle, x, y));
    case 6: return fromE(mk2(kSlt, y, x));
    case 7: return fromE(mk2(kSle, y, x));
    case 8: return fromE(mk2(kSlt, x, y));
    default: return fromE(mk2(kSle, x, y));
  }
}
Val Ex::fcmp(int p, const Val& a, const Val& b, ::Type* t) {
  if (t->k == ::Type::Vec) {
    std::vector<Val> v;
    for (uint64_t i = 0; i < t->n; i++) v.push_back(fcmp(p, a.agg[i], b.agg[i], t->el[0]));
    Val r; r.agg = agg(v); return r;
  }
  if (p == 0) return Val::C(0);
  if (p == 15) return Val::C(1);
  if (!a.e && !b.e) {
    double x = t->k == ::Type::D ? asD(a.c) : asF((uint32_t)a.c), y = t->k == ::Type::D ? asD(b.c) : asF((uint32_t)b.c);
    bool uno = x != x || y != y;
    bool r = uno ? (p & 8) : ((p & 1 && x == y) || (p & 2 && x > y) || (p & 4 && x < y));
    return Val::C(r);
  }
  E x = toE(a, t), y = toE(b, t);
  auto uno = [&] { return mk2(kOr, mk1(kFIsNaN, x, 1, BV), mk1(kFIsNaN, y, 1, BV)); };
  switch (p) {
    case 1: return fromE(mk2(kFEq, x, y));
    case 2: return fromE(mk2(kFLt, y, x));
    case 3: return fromE(mk2(kFLe, y, x));
    case 4: return fromE(mk2(kFLt, x, y));
    case 5: return fromE(mk2(kFLe, x, y));
    case 6: return fromE(mk2(kOr, mk2(kFLt, x, y), mk2(kFLt, y, x)));
    case 7: return fromE(mkNot(uno()));
    case 8: return fromE(uno());
    case 9: return fromE(mk2(kOr, uno(), mk2(kFEq, x, y)));
    case 10: return fromE(mkNot(mk2(kFLe, x, y)));
    case 11: return fromE(mkNot(mk2(kFLt, x, y)));
    case 12: return fromE(mkNot(mk2(kFLe, y, x)));
    case 13: return fromE(mkNot(mk2(kFLt, y, x)));
    default: return fromE(mkNot(mk2(kFEq, x, y)));
  }
}
Val Ex::select(const Val& c, const Val& a, const Val& b, ::Type* t) {
  if (c.agg) {
    std::vector<Val> v;
    for (uint64_t i = 0; i < t->n; i++) v.push_back(select(c.agg[i], a.agg[i], b.agg[i], t->el[0]));
    Val r; r.agg = agg(v); return r;
  }
  if (!c.e) return c.c & 1 ? a : b;
  if (t->agg()) {
    std::vector<Val> v;
    for (uint64_t i = 0; i < t->n; i++) v.push_back(select(c, a.agg[i], b.agg[i], t->k == ::Type::Struct ? t->el[i] : t->el[0]));
    Val r; r.agg = agg(v); return r;
  }
  return fromE(mkIte(c.e, toE(a, t), toE(b, t)));
}
Val Ex::castOp(State& S, int sub, const Val& v, ::Type* from, ::Type* to) {
  if (to->k == ::Type::Vec && from->k == ::Type::Vec && to->n == from->n && sub != 11) {
    std::vector<Val> o;
    for (uint64_t i = 0; i < to->n; i++) o.push_back(castOp(S, sub, v.agg[i], from->el[0], to->el[0]));
    Val r; r.agg = agg(o); return r;
  }
  if (from->agg() || to->agg()) {
    // reinterpretation between vector and scalar of the same size
    uint32_t id = S.mem.alloc(std::max(from->size, to->size), okStack, 0);
    Val p = Val::C(addrOf(id));
    store(S, p, v, from);
    Val r = load(S, p, to);
    S.mem.release(id);
    return r;
  }
  uint64_t m = to->w >= 64 ? ~0ull : (1ull << to->w) - 1;
  if (!v.e) {
    switch (sub) {
      case 0: case 1: return to->w <= 64 ? Val::C(v.c & m) : fromE(mkConst(v.c, to->w));
      case 2: return to->w <= 64 ? Val::C((uint64_t)sx(v.c, from->w) & m) : fromE(mkConst((u128)sx(v.c, from->w), to->w));
      case 7: return Val::C(fromF((float)asD(v.c)));
      case 8: return Val::C(fromD(asF((uint32_t)v.c)));
      case 9: case 10: return Val::C(v.c & m);
      case 11: return v;
      case 5: case 6: {
        if (from->w <= 64) {
          bool ok; u128 r = foldUn(sub == 5 ? kUiToFp : kSiToFp, v.c, from->w, BV, to->w, to->sort(), 0, &ok);
          return Val::C((uint64_t)r);
        }
        break;
      }
      case 3: case 4: {
        bool ok; u128 r = foldUn(sub == 3 ? kFpToUi : kFpToSi, v.c, from->w, from->sort(), to->w, BV, 0, &ok);
        if (ok) return to->w <= 64 ? Val::C((uint64_t)r & m) : fromE(mkConst(r, to->w));
        if (opt.checkFpToInt) error(S, "float-to-int", "conversion of a floating-point value outside the range of the integer type");
        double x = from->k == ::Type::D ? asD(v.c) : asF((uint32_t)v.c);
        if (to->w == 64) return Val::C(sub == 3 ? (x > 0 && x < 1.9e19 ? (uint64_t)x : 0x8000000000000000ull) : 0x8000000000000000ull);
        // x86 converts through a 32-bit (or 64-bit) signed result
        if (x == x && std::fabs(x) < 9.2e18 && to->w < 32) { return Val::C((std::fabs(x) < 2147483648.0 ? (uint64_t)(int64_t)x : 0x80000000ull) & m); }
        if (sub == 3 && x == x && std::fabs(x) < 9.2e18) return Val::C((uint64_t)(int64_t)x & m);
        return Val::C(to->w < 32 ? 0 : 0x80000000ull);
      }
    }
  }
  E e = toE(v, from);
  switch (sub) {
    case 0: return fromE(mkExtract(e, 0, to->w));
    case 1: return fromE(mk1(kZExt, e, to->w, BV));
    case 2: return fromE(mk1(kSExt, e, to->w, BV));
    case 3: case 4: {
      if (opt.checkFpToInt) {
        double hi = std::ldexp(1.0, sub == 3 ? to->w : to->w - 1), lo = sub == 3 ? -1.0 : -std::ldexp(1.0, to->w - 1);
        auto k = [&](double d) { return from->k == ::Type::D ? mkConst(fromD(d), 64, F64) : mkConst(fromF((float)d), 32, F32); };
        bool strictLow = sub == 3 || to->w <= (from->k == ::Type::D ? 53 : 24);
        E c1 = strictLow ? mk2(kFLt, k(sub == 3 ? -1.0 : lo - 1), e) : mk2(kFLe, k(lo), e);
        E c2 = mk2(kFLt, e, k(hi));
        check(S, mk2(kAnd, c1, c2), "float-to-int", "conversion of a floating-point value outside the range of the integer type");
      }
      return fromE(mk1(sub == 3 ? kFpToUi : kFpToSi, e, to->w, BV));
    }
    case 5: return fromE(mk1(kUiToFp, e, to->w, to->sort()));
    case 6: return fromE(mk1(kSiToFp, e, to->w, to->sort()));
    case 7: return fromE(mk1(kFpTrunc, e, 32, F32));
    case 8: return fromE(mk1(kFpExt, e, 64, F64));
    case 9: case 10: if (to->w < e->w) return fromE(mkExtract(e, 0, to->w)); if (to->w > e->w) return fromE(mk1(kZExt, e, to->w, BV)); return fromE(e);
    default: return fromE(conv(e, to->sort()));
  }
}
// ---------------------------------------------------------------- exceptions
int Ex::typeOf(const std::string& n) {
  auto it = typeId.find(n);
  if (it != typeId.end()) return it->second;
  typeNames.push_back(n);
  return typeId[n] = typeNames.size() - 1;
}
bool Ex::isSubtype(const std::string& a, const std::string& b) {
  if (a == b) return true;
  static const std::map<std::string, std::string> std_ = {
      {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
      {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
      {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
      {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
      {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}};
  auto it = std_.find(a);
  if (it != std_.end()) return isSubtype(it->second, b);
  auto gi = P.gidx.find(a);
  if (gi != P.gidx.end() && P.g[gi->second].hasInit) {
    auto& in = P.g[gi->second].init;
    if (in.k == COp::Agg)
      for (size_t i = 2; i < in.sub.size(); i++) if (in.sub[i].k == COp::Global && isSubtype(P.g[in.sub[i].idx].name, b)) return true;
  }
  return false;
}
static int landingPad(const Func& f, int block) {
  auto& in = f.b[block].in;
  for (size_t i = 0; i < in.size(); i++) if (in[i].op == oLandingPad) return (int)i;
  return -1;
}
// selector value for the current exception at landing pad l, 0 = cleanup only, -1 = no match and no cleanup
static int selectorAt(Ex& X, State& S, const Inst& l, int type) {
  for (size_t i = 0; i < l.a.size(); i++) {
    if (!l.x[i]) return 1000000;   // filter: treat as terminate-like match
    Val v = X.cst(S, l.a[i].cst);
    if (!v.e && v.c == 0) return 999999;  // catch (...)
    auto it = X.tiByAddr.find(v.c);
    std::string n = it == X.tiByAddr.end() ? "?" : X.typeNames[it->second];
    if (X.isSubtype(X.typeNames[type], n)) return it->second + 1;
  }
  return l.flag ? 0 : -1;
}
void Ex::unwind(State& S) {
  bool handler = false;
  for (int i = S.fr.size() - 1; i >= 0 && !handler; i--) {
    Frame& f = S.fr[i];
    const Func& fn = P.f[f.fn];
    const Inst& in = fn.b[f.block].in[f.pc];
    if (in.op != oInvoke) continue;
    int lp = landingPad(fn, in.b1);
    if (lp < 0) continue;
    if (selectorAt(*this, S, fn.b[in.b1].in[lp], S.excType) > 0) handler = true;
  }
  if (!handler) {
    auto it = S.kv.find("excmsg");
    error(S, "uncaught-exception", "uncaught exception " + typeNames[S.excType]);
  }
  while (true) {
    Frame& f = S.fr.back();
    const Func& fn = P.f[f.fn];
    const Inst& in = fn.b[f.block].in[f.pc];
    if (in.op == oInvoke) {
      int lp = landingPad(fn, in.b1);
      if (lp >= 0 && selectorAt(*this, S, fn.b[in.b1].in[lp], S.excType) >= 0) {
        int target = in.b1;
        // phis
        int from = f.block;
        auto& bi = fn.b[target].in;
        std::vector<Val> tmp;
        size_t k = 0;
        for (; k < bi.size() && bi[k].op == oPhi; k++)
          for (size_t j = 0; j < bi[k].blocks.size(); j++)
            if (bi[k].blocks[j] == from) { auto& o = bi[k].a[j]; tmp.push_back(o.reg >= 0 ? S.regs[f.base + o.reg] : cst(S, o.cst)); break; }
        for (size_t q = 0; q < tmp.size(); q++) S.regs[f.base + bi[q].dst] = tmp[q];
        f.prev = from; f.block = target; f.pc = (unsigned)k;
        return;
      }
    }
    for (auto a : f.allocas) S.mem.release(a);
    S.regs.resize(f.base);
    S.fr.pop_back();
  }
}
void Ex::throwExc(State& S, uint64_t obj, int type) {
  S.excObj = obj; S.excType = type;
  unwind(S);
}
void Ex::throwStd(State& S, const char* zti, const std::string& msg) {
  uint32_t id = S.mem.alloc(64, okExc, 0);
  S.mem.mut(id)->site = typeOf(zti);
  throwExc(S, addrOf(id), typeOf(zti));
}
// ---------------------------------------------------------------- control
void Ex::call(State& S, int fn, std::vector<Val>& args, std::vector<Val>* var) {
  Func& f = P.f[fn];
  f.hits++;
  if (S.fr.size() > 2000) error(S, "stack-overflow", "recursion too deep");
  std::vector<uint32_t> bv;
  for (int i = 0; i < f.nargs && i < (int)args.size(); i++)
    if (f.byvalSize[i]) {
      uint32_t id = S.mem.alloc(f.byvalSize[i], okStack, 0);
      copyMem(S, addrOf(id), concVal(S, args[i]), f.byvalSize[i]);
      args[i] = Val::C(addrOf(id));
      bv.push_back(id);
    }
  Frame fr;
  fr.fn = fn;
  fr.base = S.regs.size();
  fr.allocas = std::move(bv);
  if (var) fr.var = *var;
  S.regs.resize(fr.base + f.nregs);
  for (int i = 0; i < f.nargs && i < (int)args.size(); i++) S.regs[fr.base + i] = args[i];
  S.fr.push_back(std::move(fr));
}
void Ex::init(State& S) {
  cval.resize(P.consts.size()); chave.assign(P.consts.size(), 0);
  gaddr.resize(P.g.size());
  std::vector<uint32_t> ids;
  for (size_t i = 0; i < P.g.size(); i++) {
    auto& g = P.g[i];
    uint64_t sz = g.hasInit ? g.size : std::max<uint64_t>(g.size, 64);
    uint32_t id = S.mem.alloc(sz, okGlobal, 0);
    ids.push_back(id);
    gaddr[i] = addrOf(id);
    if (g.name.compare(0, 4, "_ZTI") == 0) tiByAddr[gaddr[i]] = typeOf(g.name);
  }
  for (size_t i = 0; i < P.g.size(); i++) {
    auto& g = P.g[i];
    if (g.hasInit || g.name == "__libc_single_threaded") {
      auto& d = S.mem.data(ids[i])->s;
      for (auto& s : d) { s.raw = 0; s.mask = 0xff; }
    }
    if (g.name == "__libc_single_threaded") S.mem.data(ids[i])->s[0].raw = 1;
    if (g.hasInit) initObj(S, ids[i], 0, g.init);
    if (g.isConst && g.hasInit) S.mem.mut(ids[i])->ro = true;
  }
}
void Ex::finishPath(State& S, int why) {
  steps += S.steps;
  switch (why) {
    case 0: {
      paths++;
      for (int r : S.reach) reachCount[reachNames[r]]++;
      if ((int)samples.size() < opt.samples && !S.inputs.empty()) {
        Assign m; bool ok = true;
        if (S.model) m = *S.model;
        else { Res r = solve(Z, S.pc, nullptr, &m); ok = r == SAT; }
        if (ok) {
          samples.push_back(inputsOf(S, m));
          std::vector<std::string> rr;
          for (int r : S.reach) rr.push_back(reachNames[r]);
          sampleReach.push_back(rr);
        }
      }
      break;
    }
    case 1: pathsAssumed++; break;
    case 2: pathsErr++; for (int r : S.reach) reachCount[reachNames[r]]++; break;
    case 3: pathsLimit++; break;
    default: pathsUnsup++;
  }
}
void Ex::explore(const std::string& entry) {
  t0 = std::chrono::steady_clock::now();
  auto s = std::make_unique<State>();
  s->model = std::make_shared<Assign>();
  init(*s);
  for (int c : P.ctors) s->todo.push_back(c);
  auto it = P.fidx.find(entry);
  if (it == P.fidx.end() || P.f[it->second].decl) { unsup["no entry " + entry]++; return; }
  s->todo.push_back(it->second);
  std::reverse(s->todo.begin(), s->todo.end());
  work.push_back(std::move(s));
  while (!work.empty()) {
    auto st = std::move(work.back());
    work.pop_back();
    if (elapsed() > opt.timeLimit || paths + pathsErr > opt.maxPaths) { timedOut = true; pathsLimit += 1 + work.size(); break; }
    int why = 0;
    try { run(*st); } catch (PathEnd& p) { why = p.why; }
    catch (std::string& e) { unsup[e]++; why = 4; }
    finishPath(*st, why);
  }
}
void Ex::run(State& S) {
  std::vector<Val> args, var;
  uint64_t tick = 0;
#define GET(o) ((o).reg >= 0 ? R[(o).reg] : cst(S, (o).cst))
  while (true) {
    if (S.fr.empty()) {
      if (S.todo.empty()) return;
      int f = S.todo.back(); S.todo.pop_back();
      std::vector<Val> none;
      call(S, f, none);
    }
    Frame& F = S.fr.back();
    const Func& fn = P.f[F.fn];
    const Inst& in = fn.b[F.block].in[F.pc];
    Val* R = &S.regs[F.base];
    S.steps++;
    if (S.steps > opt.maxSteps) { report(S, "step-limit", "path exceeds the step limit (possible endless loop)", nullptr); throw PathEnd{3}; }
    if ((++tick & 0xffff) == 0 && elapsed() > opt.timeLimit) { timedOut = true; throw PathEnd{3}; }
    auto jump = [&](int b) {
      int from = F.block;
      auto& bi = fn.b[b].in;
      size_t k = 0;
      if (bi[0].op == oPhi) {
        Val tmp[32]; std::vector<Val> big; size_t n = 0;
        for (; bi[k].op == oPhi; k++) {
          const Inst& ph = bi[k];
          for (size_t j = 0; j < ph.blocks.size(); j++)
            if (ph.blocks[j] == from) { if (n < 32) tmp[n] = GET(ph.a[j]); else big.push_back(GET(ph.a[j])); break; }
          n++;
        }
        for (size_t q = 0; q < n; q++) R[bi[q].dst] = q < 32 ? tmp[q] : big[q - 32];
      }
      F.prev = from; F.block = b; F.pc = (unsigned)k;
    };
    switch (in.op) {
      case oBin: { Val v = bin(S, (K)in.sub, GET(in.a[0]), GET(in.a[1]), in.t); R[in.dst] = v; F.pc++; break; }
      case oFNeg: {
        if (in.t->k == ::Type::Vec) {
          Val a = GET(in.a[0]); std::vector<Val> v;
          for (uint64_t i = 0; i < in.t->n; i++) v.push_back(un(S, kFNeg, a.agg[i], in.t->el[0]->w, in.t->el[0]->sort()));
          Val r; r.agg = agg(v); R[in.dst] = r;
        } else R[in.dst] = un(S, kFNeg, GET(in.a[0]), in.t->w, in.t->sort());
        F.pc++; break;
      }
      case oICmp: R[in.dst] = icmp(S, in.sub, GET(in.a[0]), GET(in.a[1]), in.t2); F.pc++; break;
      case oFCmp: R[in.dst] = fcmp(in.sub, GET(in.a[0]), GET(in.a[1]), in.t2); F.pc++; break;
      case oAlloca: {
        uint64_t n = concVal(S, GET(in.a[0])) * in.x[0];
        uint32_t id = S.mem.alloc(n, okStack, in.dbg);
        F.allocas.push_back(id);
        R[in.dst] = Val::C(addrOf(id));
        F.pc++; break;
      }
      case oLoad: { Val v = load(S, GET(in.a[0]), in.t); R[in.dst] = v; F.pc++; break; }
      case oStore: store(S, GET(in.a[1]), GET(in.a[0]), in.t); F.pc++; break;
      case oGep: {
        Val p = GET(in.a[0]);
        uint64_t k = in.x[0];
        E acc = p.e;
        uint64_t c = p.e ? k : p.c + k;
        for (size_t i = 1; i < in.a.size(); i++) {
          Val ix = GET(in.a[i]);
          uint64_t sc = in.x[2 * i - 1]; int w = (int)in.x[2 * i];
          if (!ix.e) c += (uint64_t)(int64_t)sx(ix.c, w) * sc;
          else {
            E e = ix.e;
            if (e->w < 64) e = mk1(kSExt, e, 64, BV); else if (e->w > 64) e = mkExtract(e, 0, 64);
            e = mk2(kMul, e, mkConst(sc, 64));
            acc = acc ? mk2(kAdd, acc, e) : e;
          }
        }
        R[in.dst] = acc ? fromE(mk2(kAdd, acc, mkConst(c, 64))) : Val::C(c);
        F.pc++; break;
      }
      case oCast: { Val v = castOp(S, in.sub, GET(in.a[0]), in.t2, in.t); R[in.dst] = v; F.pc++; break; }
      case oSelect: { Val v = select(GET(in.a[0]), GET(in.a[1]), GET(in.a[2]), in.t); R[in.dst] = v; F.pc++; break; }
      case oFreeze: R[in.dst] = GET(in.a[0]); F.pc++; break;
      case oBr: jump(in.b0); break;
      case oCondBr: {
        Val c = GET(in.a[0]);
        bool t = c.e ? decide(S, c.e) : (c.c & 1);
        jump(t ? in.b0 : in.b1);
        break;
      }
      case oSwitch: {
        Val c = GET(in.a[0]);
        int tgt = in.b0;
        if (!c.e) { for (size_t i = 0; i < in.x.size(); i++) if (in.x[i] == c.c) { tgt = in.blocks[i]; break; } }
        else {
          for (size_t i = 0; i < in.x.size(); i++)
            if (decide(S, mk2(kEq, c.e, mkConst(in.x[i], in.t2->w)))) { tgt = in.blocks[i]; break; }
        }
        jump(tgt);
        break;
      }
      case oRet: {
        Val v; bool has = !in.a.empty();
        if (has) v = GET(in.a[0]);
        for (auto a : F.allocas) S.mem.release(a);
        S.regs.resize(F.base);
        S.fr.pop_back();
        if (S.fr.empty()) break;
        Frame& C = S.fr.back();
        const Func& cf = P.f[C.fn];
        const Inst& ci = cf.b[C.block].in[C.pc];
        if (ci.dst >= 0 && has) S.regs[C.base + ci.dst] = v;
        if (ci.op == oInvoke) {
          // continue at the normal destination
          int from = C.block, b = ci.b0;
          auto& bi = cf.b[b].in;
          std::vector<Val> tmp;
          size_t k = 0;
          for (; bi[k].op == oPhi; k++)
            for (size_t j = 0; j < bi[k].blocks.size(); j++)
              if (bi[k].blocks[j] == from) { auto& o = bi[k].a[j]; tmp.push_back(o.reg >= 0 ? S.regs[C.base + o.reg] : cst(S, o.cst)); break; }
          for (size_t q = 0; q < tmp.size(); q++) S.regs[C.base + bi[q].dst] = tmp[q];
          C.prev = from; C.block = b; C.pc = (unsigned)k;
        } else C.pc++;
        break;
      }
      case oCall: case oInvoke: {
        args.clear();
        size_t na = in.x.size();
        for (size_t i = 0; i < na; i++) args.push_back(GET(in.a[i]));
        int callee = in.fn;
        if (callee < 0) {
          Val cv = GET(in.a[na]);
          uint64_t a;
          if (cv.e) {
            E e = simpP(S, cv.e);
            while (!isC(e)) { E it = findIte(e); if (!it) break; decide(S, it->a[0]); e = simpP(S, e); }
            a = concretize(S, e);
          } else a = cv.c;
          uint32_t id = a >> 32;
          if (id < kFnBase || id - kFnBase >= P.f.size()) error(S, "bad-call", "call through an invalid function pointer");
          callee = id - kFnBase;
        }
        Func& cf = P.f[callee];
        if (cf.builtin >= 0) {
          Val ret;
          bool ok = btab[cf.builtin](*this, S, in, args, ret);
          if (!ok) break;
          Frame& F2 = S.fr.back();
          if (in.dst >= 0) S.regs[F2.base + in.dst] = ret;
          if (in.op == oInvoke) { R = &S.regs[F2.base]; jump(in.b0); } else F2.pc++;
          break;
        }
        if (cf.decl) unsupported(S, "call to " + cf.pretty + " [" + cf.name + "]");
        if (cf.vararg) {
          var.assign(args.begin() + std::min<size_t>(cf.nargs, args.size()), args.end());
          call(S, callee, args, &var);
        } else call(S, callee, args);
        break;
      }
      case oUnreachable: error(S, "unreachable", "reached code marked unreachable (undefined behaviour)");
      case oLandingPad: {
        int sel = selectorAt(*this, S, in, S.excType);
        std::vector<Val> v{Val::C(S.excObj), Val::C(sel < 0 ? 0 : sel)};
        Val r; r.agg = agg(v);
        R[in.dst] = r;
        F.pc++; break;
      }
      case oResume: {
        Val v = GET(in.a[0]);
        S.excObj = v.agg[0].c;
        if (auto* o = S.mem.get(S.excObj >> 32)) S.excType = o->site;
        // leave this frame: the resume instruction itself is not an invoke
        for (auto a : F.allocas) S.mem.release(a);
        S.regs.resize(F.base);
        S.fr.pop_back();
        unwind(S);
        break;
      }
      case oExtractValue: {
        Val v = GET(in.a[0]);
        for (auto i : in.x) v = v.agg[i];
        R[in.dst] = v; F.pc++; break;
      }
      case oInsertValue: {
        std::function<Val(const Val&, ::Type*, size_t)> ins = [&](const Val& a, ::Type* t, size_t d) -> Val {
          if (d == in.x.size()) return GET(in.a[1]);
          std::vector<Val> v(a.agg, a.agg + t->n);
          v[in.x[d]] = ins(a.agg[in.x[d]], t->k == ::Type::Struct ? t->el[in.x[d]] : t->el[0], d + 1);
          Val r; r.agg = agg(v); return r;
        };
        Val r = ins(GET(in.a[0]), in.t, 0);
        R[in.dst] = r; F.pc++; break;
      }
      case oExtractElement: {
        Val v = GET(in.a[0]); uint64_t i = concVal(S, GET(in.a[1]));
        if (i >= in.t2->n) error(S, "out-of-bounds", "vector element index");
        R[in.dst] = v.agg[i]; F.pc++; break;
      }
      case oInsertElement: {
        Val v = GET(in.a[0]); uint64_t i = concVal(S, GET(in.a[2]));
        std::vector<Val> n(v.agg, v.agg + in.t->n);
        if (i < n.size()) n[i] = GET(in.a[1]);
        Val r; r.agg = agg(n); R[in.dst] = r; F.pc++; break;
      }
      case oShuffle: {
        Val a = GET(in.a[0]), b = GET(in.a[1]);
        std::vector<Val> n;
        for (auto m : in.x) {
          int64_t k = (int64_t)m;
          if (k < 0) n.push_back(undefShared(in.t->el[0]->w, in.t->el[0]->sort()));
          else if ((uint64_t)k < in.t2->n) n.push_back(a.agg[k]);
          else n.push_back(b.agg[k - in.t2->n]);
        }
        Val r; r.agg = agg(n); R[in.dst] = r; F.pc++; break;
      }
      case oAtomicRMW: {
        Val p = GET(in.a[0]), v = GET(in.a[1]);
        Val old = load(S, p, in.t);
        Val nw;
        switch (in.sub) {
          case 0: nw = v; break;
          case 1: nw = bin(S, kAdd, old, v, in.t); break;
          case 2: nw = bin(S, kSub, old, v, in.t); break;
          case 3: nw = bin(S, kAnd, old, v, in.t); break;
          case 5: nw = bin(S, kOr, old, v, in.t); break;
          case 6: nw = bin(S, kXor, old, v, in.t); break;
          default: unsupported(S, "atomicrmw");
        }
        store(S, p, nw, in.t);
        S.regs[S.fr.back().base + in.dst] = old;
        F.pc++; break;
      }
      case oCmpXchg: {
        Val p = GET(in.a[0]);
        Val old = load(S, p, in.t2);
        Val eq = icmp(S, 0, old, GET(in.a[1]), in.t2);
        store(S, p, select(eq, GET(in.a[2]), old, in.t2), in.t2);
        Val r; r.agg = agg({old, eq}); R[in.dst] = r;
        F.pc++; break;
      }
      default: unsupported(S, "instruction kind " + std::to_string((int)in.op) + " in " + fn.pretty);
    }
  }
}
