#include "solver.h"
#include <z3++.h>
#include <chrono>
#include <cmath>
#include <functional>
#include <set>
#include <unordered_set>
#include <algorithm>
SolverStats g_ss;
int g_qtimeout = 20000;
bool g_oneshotFirst = false;

struct Solver {
  z3::context c;
  z3::solver s;
  std::vector<E> stack;
  std::vector<Z3_ast> memo;       // by expr id, ref-counted
  std::vector<uint8_t> flags;     // 1: fp arithmetic below, 2: UF/sqrt below ; 128: computed
  struct Inst { E e; std::vector<z3::expr> ax; };
  std::unordered_map<uint32_t, Inst> inst;          // UF/sqrt instance id -> axioms
  std::unordered_map<int, std::vector<E>> byUF;     // uf index (-1 sqrt) -> instances
  std::unordered_map<int, z3::func_decl> decls;
  std::unordered_map<std::string, z3::func_decl> opdecls;
  std::unordered_map<uint32_t, std::vector<uint32_t>> instBelow;
  Solver() : s(c) {}
};
Solver* newSolver() {
  z3::set_param("memory_max_size", "6000");
  auto* S = new Solver();
  return S;
}
static z3::expr tr(Solver* S, E e);
static z3::sort zsort(Solver* S, Sort s, int w) {
  if (s == BV) return w == 1 ? S->c.bool_sort() : S->c.bv_sort(w);
  if (g_mode == MReal) return S->c.real_sort();
  return s == F64 ? S->c.fpa_sort(11, 53) : S->c.fpa_sort(8, 24);
}
// expressions that come with facts about the function they stand for
static bool hasAxioms(E x) {
  if (x->k == kUF || x->k == kFSqrt) return true;
  if (g_mode != MUF || x->s != F64 || !(x->k >= kFAdd && x->k <= kFRem)) return false;
  double lo, hi; bool nan;
  valueRange(x, &lo, &hi, &nan);
  return !nan;
}
static uint8_t flagsOf(Solver* S, E e) {
  if (S->flags.size() < g_nexprs) S->flags.resize(g_nexprs + 4096, 0);
  if (S->flags[e->id] & 128) return S->flags[e->id];
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (S->flags[x->id] & 128) { st.pop_back(); continue; }
    bool rdy = true;
    for (int i = 0; i < x->n; i++) if (!(S->flags[x->a[i]->id] & 128)) { st.push_back(x->a[i]); rdy = false; }
    if (!rdy) continue;
    uint8_t f = 128;
    for (int i = 0; i < x->n; i++) f |= S->flags[x->a[i]->id];
    if (g_mode != MReal) {
      if ((x->k >= kFAdd && x->k <= kFRem) || x->k == kFSqrt || (x->k >= kFpExt && x->k <= kFpToUi) || x->k == kFRound) f |= 1;
    }
    if (hasAxioms(x)) f |= 2;
    S->flags[x->id] = f;
    st.pop_back();
  }
  return S->flags[e->id];
}
static z3::expr dec(Solver* S, double d) {
  // exact rational value of a finite double
  int ex; double fr = std::frexp(d, &ex);
  int64_t m = (int64_t)std::ldexp(fr, 53); ex -= 53;
  while (m && !(m & 1)) { m >>= 1; ex++; }
  z3::expr r = S->c.real_val(std::to_string(m).c_str());
  if (ex == 0 || m == 0) return r;
  // 2^|ex|
  std::string p = "1";
  auto dbl = [](std::string s) { int c = 0; for (int i = s.size() - 1; i >= 0; i--) { int v = (s[i] - '0') * 2 + c; s[i] = '0' + v % 10; c = v / 10; } if (c) s = char('0' + c) + s; return s; };
  for (int i = 0; i < std::abs(ex); i++) p = dbl(p);
  if (ex > 0) return (r * S->c.real_val(p.c_str())).simplify();
  return S->c.real_val((std::to_string(m) + "/" + p).c_str());
}
static z3::expr ufop(Solver* S, const std::string& n, const z3::expr_vector& args, z3::sort rs) {
  auto it = S->opdecls.find(n);
  if (it == S->opdecls.end()) {
    z3::sort_vector d(S->c);
    for (unsigned i = 0; i < args.size(); i++) d.push_back(args[i].get_sort());
    it = S->opdecls.emplace(n, S->c.function(n.c_str(), d, rs)).first;
  }
  return it->second(args);
}
static bool monotone(const std::string& n) { return n == "log10" || n == "log" || n == "exp" || n == "log2"; }
static z3::expr tr1(Solver* S, E e) {
  auto& c = S->c;
  auto A = [&](int i) { return z3::expr(c, S->memo[e->a[i]->id]); };
  bool real = g_mode == MReal;
  bool b1 = e->n > 0 && e->a[0]->s == BV && e->a[0]->w == 1;
  auto fpArith = [&](const char* nm, std::function<z3::expr()> exact) {
    if (g_mode == MUF) {
      z3::expr_vector v(c);
      for (int i = 0; i < e->n; i++) v.push_back(A(i));
      return ufop(S, std::string(nm) + (e->s == F64 ? "d" : "f"), v, zsort(S, e->s, e->w));
    }
    return exact();
  };
  z3::expr rm = z3::expr(c, Z3_mk_fpa_rne(c));
  switch (e->k) {
    case kConst:
      if (e->s == BV) {
        if (e->w == 1) return c.bool_val(e->c != 0);
        if (e->w <= 64) return c.bv_val((uint64_t)e->c, e->w);
        return z3::concat(c.bv_val((uint64_t)(e->c >> 64), e->w - 64), c.bv_val((uint64_t)e->c, 64));
      }
      if (real) {
        double d = e->s == F64 ? asD((uint64_t)e->c) : (double)asF((uint32_t)e->c);
        if (!std::isfinite(d)) throw std::string("non-finite constant in real mode");
        return dec(S, d);
      }
      if (e->s == F64) { double d = asD((uint64_t)e->c); return c.fpa_val(d); }
      return c.fpa_val(asF((uint32_t)e->c));
    case kVar: return c.constant(("v" + std::to_string((uint32_t)e->c)).c_str(), zsort(S, e->s, e->w));
    case kAdd: if (b1) return A(0) != A(1); return A(0) + A(1);
    case kSub: if (b1) return A(0) != A(1); return A(0) - A(1);
    case kMul: if (b1) return A(0) && A(1); return A(0) * A(1);
    case kUDiv: return z3::udiv(A(0), A(1));
    case kSDiv: return A(0) / A(1);
    case kURem: return z3::urem(A(0), A(1));
    case kSRem: return z3::srem(A(0), A(1));
    case kAnd: return b1 ? (A(0) && A(1)) : (A(0) & A(1));
    case kOr: return b1 ? (A(0) || A(1)) : (A(0) | A(1));
    case kXor:
      if (b1) { if (isC(e->a[1]) && e->a[1]->c) return !A(0); return A(0) != A(1); }
      return A(0) ^ A(1);
    case kShl: return z3::shl(A(0), A(1));
    case kLShr: return z3::lshr(A(0), A(1));
    case kAShr: return z3::ashr(A(0), A(1));
    case kConcat: {
      auto bvz = [&](int i) { auto x = A(i); return e->a[i]->w == 1 ? z3::ite(x, c.bv_val(1, 1), c.bv_val(0, 1)) : x; };
      return z3::concat(bvz(0), bvz(1));
    }
    case kExtract: {
      auto x = A(0).extract((int)e->c + e->w - 1, (int)e->c);
      if (e->w == 1) return x == c.bv_val(1, 1);
      return x;
    }
    case kZExt: if (b1) return z3::ite(A(0), c.bv_val(1, e->w), c.bv_val(0, e->w)); return z3::zext(A(0), e->w - e->a[0]->w);
    case kSExt: if (b1) return z3::ite(A(0), ~c.bv_val(0, e->w), c.bv_val(0, e->w)); return z3::sext(A(0), e->w - e->a[0]->w);
    case kEq: return A(0) == A(1);
    case kUlt: return b1 ? (!A(0) && A(1)) : z3::ult(A(0), A(1));
    case kUle: return b1 ? (!A(0) || A(1)) : z3::ule(A(0), A(1));
    case kSlt: return b1 ? (A(0) && !A(1)) : z3::slt(A(0), A(1));
    case kSle: return b1 ? (A(0) || !A(1)) : z3::sle(A(0), A(1));
    case kIte: return z3::ite(A(0), A(1), A(2));
    case kFAdd: if (real) return A(0) + A(1); return fpArith("fadd", [&] { return z3::expr(c, Z3_mk_fpa_add(c, rm, A(0), A(1))); });
    case kFSub: if (real) return A(0) - A(1); return fpArith("fsub", [&] { return z3::expr(c, Z3_mk_fpa_sub(c, rm, A(0), A(1))); });
    case kFMul: if (real) return A(0) * A(1); return fpArith("fmul", [&] { return z3::expr(c, Z3_mk_fpa_mul(c, rm, A(0), A(1))); });
    case kFDiv: if (real) return A(0) / A(1); return fpArith("fdiv", [&] { return z3::expr(c, Z3_mk_fpa_div(c, rm, A(0), A(1))); });
    case kFRem: if (real) throw std::string("frem in real mode"); return fpArith("frem", [&]() -> z3::expr { throw std::string("frem"); });
    case kFNeg: if (real) return -A(0); return z3::expr(c, Z3_mk_fpa_neg(c, A(0)));
    case kFAbs: if (real) return z3::ite(A(0) >= 0, A(0), -A(0)); return z3::expr(c, Z3_mk_fpa_abs(c, A(0)));
    case kFSqrt:
      if (real) { z3::expr_vector v(c); v.push_back(A(0)); return ufop(S, "sqrtR", v, c.real_sort()); }
      return fpArith("fsqrt", [&] { return z3::expr(c, Z3_mk_fpa_sqrt(c, rm, A(0))); });
    case kFEq: if (real) return A(0) == A(1); return z3::expr(c, Z3_mk_fpa_eq(c, A(0), A(1)));
    case kFLt: if (real) return A(0) < A(1); return z3::expr(c, Z3_mk_fpa_lt(c, A(0), A(1)));
    case kFLe: if (real) return A(0) <= A(1); return z3::expr(c, Z3_mk_fpa_leq(c, A(0), A(1)));
    case kFIsNaN: if (real) return c.bool_val(false); return z3::expr(c, Z3_mk_fpa_is_nan(c, A(0)));
    case kFpExt: case kFpTrunc:
      if (real) return A(0);
      if (e->k == kFpExt) return z3::expr(c, Z3_mk_fpa_to_fp_float(c, rm, A(0), zsort(S, F64, 64)));
      return fpArith("fptrunc", [&] { return z3::expr(c, Z3_mk_fpa_to_fp_float(c, rm, A(0), zsort(S, F32, 32))); });
    case kSiToFp:
      if (real) { if (b1) return z3::ite(A(0), c.real_val(-1), c.real_val(0)); return z3::to_real(z3::expr(c, Z3_mk_bv2int(c, A(0), true))); }
      if (b1) throw std::string("sitofp i1");
      return z3::expr(c, Z3_mk_fpa_to_fp_signed(c, rm, A(0), zsort(S, e->s, e->w)));
    case kUiToFp:
      if (real) { if (b1) return z3::ite(A(0), c.real_val(1), c.real_val(0)); return z3::to_real(z3::expr(c, Z3_mk_bv2int(c, A(0), false))); }
      if (b1) return z3::ite(A(0), c.fpa_val(1.0), c.fpa_val(0.0));
      return z3::expr(c, Z3_mk_fpa_to_fp_unsigned(c, rm, A(0), zsort(S, e->s, e->w)));
    case kFpToSi: case kFpToUi:
      if (real) {
        auto x = A(0);
        auto fl = z3::expr(c, Z3_mk_real2int(c, x));  // floor
        auto nfl = z3::expr(c, Z3_mk_real2int(c, -x));
        auto t = z3::ite(x >= 0, fl, -nfl);
        return z3::expr(c, Z3_mk_int2bv(c, e->w, t));
      }
      { auto rz = z3::expr(c, Z3_mk_fpa_rtz(c));
        return e->k == kFpToSi ? z3::expr(c, Z3_mk_fpa_to_sbv(c, rz, A(0), e->w)) : z3::expr(c, Z3_mk_fpa_to_ubv(c, rz, A(0), e->w)); }
    case kB2F:
      if (real) throw std::string("bit pattern to float in real mode");
      return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, A(0), zsort(S, e->s, e->w)));
    case kF2B:
      if (real) throw std::string("float to bit pattern in real mode");
      return z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, A(0)));
    case kFRound:
      if (real) {
        auto x = A(0);
        auto fl = z3::to_real(z3::expr(c, Z3_mk_real2int(c, x)));
        auto ce = -z3::to_real(z3::expr(c, Z3_mk_real2int(c, -x)));
        if ((int)e->c == kRFloor) return fl;
        if ((int)e->c == kRCeil) return ce;
        if ((int)e->c == kRTrunc) return z3::ite(x >= 0, fl, ce);
        auto half = c.real_val("1/2");
        auto rp = z3::to_real(z3::expr(c, Z3_mk_real2int(c, x + half)));
        auto rn = -z3::to_real(z3::expr(c, Z3_mk_real2int(c, half - x)));
        return z3::ite(x >= 0, rp, rn);
      }
      {
        Z3_ast m = (int)e->c == kRFloor ? Z3_mk_fpa_rtn(c) : (int)e->c == kRCeil ? Z3_mk_fpa_rtp(c) : (int)e->c == kRTrunc ? Z3_mk_fpa_rtz(c) : (int)e->c == kRRint ? Z3_mk_fpa_rne(c) : Z3_mk_fpa_rna(c);
        z3::expr mm(c, m);
        return z3::expr(c, Z3_mk_fpa_round_to_integral(c, mm, A(0)));
      }
    case kUF: {
      z3::expr_vector v(c);
      for (int i = 0; i < e->n; i++) v.push_back(A(i));
      return ufop(S, "uf_" + g_ufs[(uint32_t)e->c] + std::to_string(e->n), v, zsort(S, e->s, e->w));
    }
  }
  throw std::string("untranslatable expression");
}
static void axioms(Solver* S, E e) {
  auto& c = S->c;
  if (S->inst.count(e->id)) return;
  Solver::Inst in{e, {}};
  z3::expr me(c, S->memo[e->id]);
  bool real = g_mode == MReal;
  if (e->k >= kFAdd && e->k <= kFRem) {
    double lo, hi; bool nan;
    valueRange(e, &lo, &hi, &nan);
    in.ax.push_back(!z3::expr(c, Z3_mk_fpa_is_nan(c, me)));
    if (lo > -INFINITY) in.ax.push_back(z3::expr(c, Z3_mk_fpa_leq(c, c.fpa_val(lo), me)));
    if (hi < INFINITY) in.ax.push_back(z3::expr(c, Z3_mk_fpa_leq(c, me, c.fpa_val(hi))));
  } else if (e->k == kFSqrt) {
    z3::expr x(c, S->memo[e->a[0]->id]);
    if (real) { in.ax.push_back(me >= 0); in.ax.push_back(z3::implies(x >= 0, me * me == x)); }
    else if (g_mode == MUF) {
      z3::expr zero = c.fpa_val(0.0);
      if (e->s == F64) {
        in.ax.push_back(z3::implies(z3::expr(c, Z3_mk_fpa_leq(c, zero, x)), z3::expr(c, Z3_mk_fpa_leq(c, zero, me))));
      }
    }
    S->byUF[-1].push_back(e);
  } else {
    std::string nm = g_ufs[(uint32_t)e->c];
    if (e->n == 1 && monotone(nm) && e->s == F64) {
      z3::expr x(c, S->memo[e->a[0]->id]);
      auto lt = [&](z3::expr a, z3::expr b) { return real ? a < b : z3::expr(c, Z3_mk_fpa_lt(c, a, b)); };
      auto le = [&](z3::expr a, z3::expr b) { return real ? a <= b : z3::expr(c, Z3_mk_fpa_leq(c, a, b)); };
      auto cst = [&](double d) { return real ? dec(S, d) : c.fpa_val(d); };
      // pairwise monotonicity.  Over the reals the functions are strictly
      // increasing; rounded they are assumed non-decreasing.
      for (E o : S->byUF[(int)e->c]) {
        z3::expr ox(c, S->memo[o->a[0]->id]), oe(c, S->memo[o->id]);
        if (real) {
          in.ax.push_back(lt(x, ox) == lt(me, oe));
          in.ax.push_back((x == ox) == (me == oe));
        } else {
          in.ax.push_back(z3::implies(le(x, ox), le(me, oe)));
          in.ax.push_back(z3::implies(le(ox, x), le(oe, me)));
        }
      }
      // anchor points, evaluated with the real libm
      std::vector<double> pts;
      if (nm == "exp") pts = {-700, -10, -1, 0, 1, 5, 5.3, 5.6, 10, 700};
      else pts = {2.220446049250313e-16, 1e-10, 1e-5, 1e-3, 0.1, 1, 10, 1e3, 1e6, 1e300};
      for (double p : pts) {
        double v = nm == "exp" ? std::exp(p) : nm == "log10" ? std::log10(p) : nm == "log2" ? std::log2(p) : std::log(p);
        double s = std::fabs(v) * 1e-12;
        in.ax.push_back(z3::implies(le(x, cst(p)), le(me, cst(v + s))));
        in.ax.push_back(z3::implies(le(cst(p), x), le(cst(v - s), me)));
      }
      if (nm == "exp" && real) in.ax.push_back(me > 0);
    }
    S->byUF[(int)e->c].push_back(e);
  }
  S->inst.emplace(e->id, std::move(in));
}
static z3::expr tr(Solver* S, E e) {
  if (S->memo.size() < g_nexprs) S->memo.resize(g_nexprs + 4096, nullptr);
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (S->memo[x->id]) { st.pop_back(); continue; }
    bool rdy = true;
    for (int i = 0; i < x->n; i++) if (!S->memo[x->a[i]->id]) { st.push_back(x->a[i]); rdy = false; }
    if (!rdy) continue;
    z3::expr r = tr1(S, x);
    Z3_inc_ref(S->c, r);
    S->memo[x->id] = r;
    if (hasAxioms(x)) axioms(S, x);
    st.pop_back();
  }
  return z3::expr(S->c, S->memo[e->id]);
}
static void collectInst(Solver* S, E e, std::set<uint32_t>& seen, std::set<uint32_t>& out) {
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back(); st.pop_back();
    if (!(flagsOf(S, x) & 2) || !seen.insert(x->id).second) continue;
    if (hasAxioms(x)) out.insert(x->id);
    for (int i = 0; i < x->n; i++) st.push_back(x->a[i]);
  }
}
static void addTo(Solver* S, z3::solver& z, E e) {
  z.add(tr(S, e));
  if (flagsOf(S, e) & 2) {
    std::set<uint32_t> seen, out;
    collectInst(S, e, seen, out);
    for (auto id : out) for (auto& a : S->inst.at(id).ax) z.add(a);
  }
}
static void fillModel(Solver* S, z3::model m, const std::vector<E>& pc, E extra, Assign* out) {
  std::set<uint32_t> seen;
  std::vector<E> st(pc.begin(), pc.end());
  if (extra) st.push_back(extra);
  while (!st.empty()) {
    E x = st.back(); st.pop_back();
    if (!seen.insert(x->id).second) continue;
    for (int i = 0; i < x->n; i++) st.push_back(x->a[i]);
    if (x->k != kVar) continue;
    z3::expr v = m.eval(tr(S, x), true);
    u128 bits = 0;
    if (x->s == BV) {
      if (x->w == 1) bits = v.is_true();
      else {
        std::string s = Z3_get_numeral_string(S->c, v);
        for (char ch : s) bits = bits * 10 + (ch - '0');
      }
    } else if (g_mode == MReal) {
      double d;
      if (v.is_algebraic()) { z3::expr lo(S->c, Z3_get_algebraic_number_lower(S->c, v, 20)); d = Z3_get_numeral_double(S->c, lo); }
      else d = Z3_get_numeral_double(S->c, v);
      bits = x->s == F64 ? (u128)fromD(d) : (u128)fromF((float)d);
    } else {
      z3::expr b = m.eval(z3::expr(S->c, Z3_mk_fpa_to_ieee_bv(S->c, v)), true).simplify();
      const bool nan = m.eval(z3::expr(S->c, Z3_mk_fpa_is_nan(S->c, v)), true).simplify().is_true();
      if (!nan && b.is_numeral()) {
        std::string s = Z3_get_numeral_string(S->c, b);
        for (char ch : s) bits = bits * 10 + (ch - '0');
      } else bits = x->s == F64 ? 0x7ff8000000000000ull : 0x7fc00000;
    }
    (*out)[(uint32_t)x->c] = bits;
  }
}
static z3::tactic pickTactic(Solver* S, uint8_t fl) {
  auto& c = S->c;
  if (g_mode == MReal) return z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "solve-eqs") & z3::tactic(c, "smt");
  if (fl & 2) return z3::tactic(c, "default");
  return z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "fpa2bv") & z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "solve-eqs") &
         z3::tactic(c, "simplify") & z3::tactic(c, "bit-blast") & z3::tactic(c, "simplify") & z3::tactic(c, "sat");
}
static Res toRes(z3::check_result r) { return r == z3::sat ? SAT : r == z3::unsat ? UNSAT : UNKNOWN; }

// variables below e (sorted), cached for the expressions asked about
static const std::vector<uint32_t>& varsOf(E e) {
  static std::unordered_map<uint32_t, std::vector<uint32_t>> cache;
  auto it = cache.find(e->id);
  if (it != cache.end()) return it->second;
  static std::vector<uint32_t> ep; static uint32_t epoch = 0;
  if (ep.size() < g_nexprs) ep.resize(g_nexprs + 4096, 0);
  epoch++;
  std::vector<uint32_t> v;
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back(); st.pop_back();
    if (ep[x->id] == epoch) continue;
    ep[x->id] = epoch;
    if (x->k == kVar) v.push_back((uint32_t)x->c);
    for (int i = 0; i < x->n; i++) if (x->a[i]->k != kConst) st.push_back(x->a[i]);
  }
  std::sort(v.begin(), v.end());
  return cache[e->id] = std::move(v);
}
static std::vector<E> slice(const std::vector<E>& pc, E extra) {
  std::unordered_set<uint32_t> in;
  for (auto v : varsOf(extra)) in.insert(v);
  std::vector<char> take(pc.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (take[i]) continue;
      auto& vs = varsOf(pc[i]);
      bool hit = false;
      for (auto v : vs) if (in.count(v)) { hit = true; break; }
      if (!hit) continue;
      take[i] = 1; ch = true;
      for (auto v : vs) in.insert(v);
    }
  }
  std::vector<E> r;
  for (size_t i = 0; i < pc.size(); i++) if (take[i]) r.push_back(pc[i]);
  return r;
}
static Res solve1(Solver* S, const std::vector<E>& pc, E extra, Assign* m);
Res solve(Solver* S, const std::vector<E>& pc, E extra, Assign* m, const Assign* base) {
  if (extra && (!m || base)) {
    Assign own;
    Res r = solve1(S, slice(pc, extra), extra, m ? &own : nullptr);
    if (m && r == SAT) { *m = *base; for (auto& p : own) (*m)[p.first] = p.second; }
    return r;
  }
  return solve1(S, pc, extra, m);
}
static Res solve1(Solver* S, const std::vector<E>& pc, E extra, Assign* m) {
  auto t0 = std::chrono::steady_clock::now();
  g_ss.queries++;
  Res res = UNKNOWN;
  uint8_t fl = 0;
  for (E e : pc) fl |= flagsOf(S, e);
  if (extra) fl |= flagsOf(S, extra);
  try {
    bool oneshot = g_oneshotFirst || (g_mode == MExact && (fl & 1));
    if (!oneshot) {
      size_t k = 0;
      while (k < S->stack.size() && k < pc.size() && S->stack[k] == pc[k]) k++;
      if (S->stack.size() > k) { S->s.pop(S->stack.size() - k); S->stack.resize(k); }
      for (; k < pc.size(); k++) { S->s.push(); S->stack.push_back(pc[k]); addTo(S, S->s, pc[k]); }
      S->s.push();
      if (extra) addTo(S, S->s, extra);
      z3::params p(S->c);
      p.set("timeout", (unsigned)(g_mode == MReal ? std::min(g_qtimeout, 4000) : g_qtimeout));
      S->s.set(p);
      res = toRes(S->s.check());
      if (res == SAT && m) fillModel(S, S->s.get_model(), pc, extra, m);
      S->s.pop(1);
    }
    if (res == UNKNOWN) {
      g_ss.oneshot++;
      for (int attempt = 0; attempt < 2 && res == UNKNOWN; attempt++) {
        z3::solver z(S->c);
        if (g_mode == MReal) {
          if (attempt == 0 && !(fl & 2)) z = (z3::tactic(S->c, "simplify") & z3::tactic(S->c, "propagate-values") & z3::tactic(S->c, "purify-arith") & z3::tactic(S->c, "solve-eqs") & z3::tactic(S->c, "elim-term-ite") & z3::tactic(S->c, "qfnra-nlsat")).mk_solver();
          else if (attempt == 0) continue;
          else z = z3::solver(S->c);
        } else {
          if (attempt == 0) z = pickTactic(S, fl).mk_solver();
          else break;
        }
        z3::params p(S->c);
        p.set("timeout", (unsigned)g_qtimeout);
        z.set(p);
        for (E e : pc) addTo(S, z, e);
        if (extra) addTo(S, z, extra);
        res = toRes(z.check());
        if (res == SAT && m) fillModel(S, z.get_model(), pc, extra, m);
      }
    }
  } catch (std::string& ex) {
    fprintf(stderr, "solver: %s\n", ex.c_str());
    res = UNKNOWN;
    S->s.reset(); S->stack.clear();
  } catch (z3::exception& ex) {
    fprintf(stderr, "z3: %s\n", ex.msg());
    res = UNKNOWN;
    S->s.reset(); S->stack.clear();
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.time += dt; if (dt > g_ss.maxq) g_ss.maxq = dt;
  if (getenv("VSX_SLOW") && dt > atof(getenv("VSX_SLOW"))) {
    fprintf(stderr, "slow query %.2fs -> %d\n", dt, (int)res);
    for (E e : pc) fprintf(stderr, "   %s\n", show(e, 12).c_str());
    if (extra) fprintf(stderr, "  ? %s\n", show(extra, 12).c_str());
  }
  if (res == SAT) g_ss.sat++; else if (res == UNSAT) g_ss.unsat++; else g_ss.unknown++;
  return res;
}
std::string dumpSmt2(Solver* S, const std::vector<E>& pc, E extra) {
  z3::solver z(S->c);
  for (E e : pc) addTo(S, z, e);
  if (extra) addTo(S, z, extra);
  return z.to_smt2();
}
