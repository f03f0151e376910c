// Hash-consed expression DAG with constant folding.  Concrete values never
// reach this layer on the fast path (see Val in exec.h).
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
typedef unsigned __int128 u128;
typedef __int128 s128;

enum K : uint8_t {
  kConst, kVar,
  kAdd, kSub, kMul, kUDiv, kSDiv, kURem, kSRem, kAnd, kOr, kXor, kShl, kLShr, kAShr,
  kConcat, kExtract, kZExt, kSExt, kEq, kUlt, kUle, kSlt, kSle, kIte,
  kFAdd, kFSub, kFMul, kFDiv, kFRem, kFNeg, kFAbs, kFSqrt,
  kFEq, kFLt, kFLe, kFIsNaN,
  kFpExt, kFpTrunc, kSiToFp, kUiToFp, kFpToSi, kFpToUi, kF2B, kB2F, kFRound, kUF
};
enum Sort : uint8_t { BV, F32, F64 };
// rounding kinds for kFRound
enum { kRFloor, kRCeil, kRTrunc, kRRint, kRRound };

struct Expr {
  K k;
  Sort s;
  uint8_t n;
  bool undef;      // depends on an uninitialised value
  uint16_t w;      // bit width
  uint32_t id;
  uint32_t h;
  u128 c;          // constant bits / extract low bit / var index / uf index / round kind
  const Expr** a;  // kids
};
typedef const Expr* E;

enum Mode { MExact, MReal, MUF };
extern Mode g_mode;

struct VarInfo { std::string name; Sort s; int w; bool undef; bool ranged; double lo, hi; };
extern std::vector<VarInfo> g_vars;
extern std::vector<std::string> g_ufs;
extern uint32_t g_nexprs;

inline u128 maskw(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sx(u128 v, int w) {
  if (w >= 128) return (s128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (s128)((v ^ m) - m);
}
inline double asD(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
inline uint64_t fromD(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
inline float asF(uint32_t b) { float d; memcpy(&d, &b, 4); return d; }
inline uint32_t fromF(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }

E mkConst(u128 v, int w, Sort s = BV);
E mkVar(const std::string& name, int w, Sort s, bool undef = false);
// bounds a fresh floating-point variable; returns lo <= v && v <= hi unsimplified
E boundVar(E v, double lo, double hi);
int ufIndex(const std::string& name);
// generic constructors (fold + light simplification)
E mk1(K k, E a, int w, Sort s, u128 aux = 0);
E mk2(K k, E a, E b);
E mkIte(E c, E a, E b);
E mkUF(int uf, const std::vector<E>& args, int w, Sort s);
E mkExtract(E a, int lo, int w);
E mkConcat(E hi, E lo);
E mkNot(E a);
// interval of a floating-point expression's numeric values, and whether it can be NaN
void valueRange(E e, double* lo, double* hi, bool* nan);
inline bool isC(E e) { return e->k == kConst; }
inline E mkBool(bool b) { return mkConst(b, 1); }
std::string show(E e, int depth = 6);

// native folding, shared with the executor's concrete fast path
u128 foldBin(K k, u128 a, u128 b, int w, Sort s, bool* ok);
u128 foldUn(K k, u128 a, int wFrom, Sort sFrom, int wTo, Sort sTo, u128 aux, bool* ok);

// concrete evaluation under an assignment (exact mode, UF-free)
typedef std::unordered_map<uint32_t, u128> Assign;  // var index -> bits
bool evalE(E e, const Assign& a, u128* out);
int ktz(E e);  // known trailing zero bits
