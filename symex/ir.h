// Compact internal IR the executor runs; produced from LLVM bitcode by loader.cpp.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#include "expr.h"

struct Type {
  enum Kind : uint8_t { Int, F, D, Ptr, Struct, Array, Vec, Void, Other } k = Void;
  int w = 0;             // bit width of scalars
  uint64_t size = 0;     // alloc size in bytes
  uint64_t store = 0;    // store size
  std::vector<Type*> el; // struct elements; one entry for array/vector
  std::vector<uint64_t> off;
  uint64_t n = 0;        // element count of array/vector
  Sort sort() const { return k == F ? F32 : k == D ? F64 : BV; }
  bool agg() const { return k == Struct || k == Array || k == Vec; }
};

struct Val {
  E e = nullptr;            // symbolic (or >64 bit constant)
  uint64_t c = 0;           // concrete bits otherwise
  const Val* agg = nullptr; // aggregate elements (immutable, arena)
  static Val C(uint64_t v) { Val x; x.c = v; return x; }
};

// A constant that may need global addresses
struct COp {
  enum Kind : uint8_t { Bits, Global, Func, Undef, Agg, Expr } k = Bits;
  Type* t = nullptr;
  uint64_t lo = 0, hi = 0;
  int idx = -1;                 // global / function index
  std::vector<COp> sub;         // aggregate elements or expression operands
  int op = 0;                   // for Expr: internal opcode
  uint64_t konst = 0;           // for Expr gep: constant offset
};
struct Opnd { int reg = -1; int cst = -1; };  // cst: index into Program::consts

enum Op : uint8_t {
  oBin, oFNeg, oICmp, oFCmp, oAlloca, oLoad, oStore, oGep, oCast, oPhi, oSelect, oCall, oInvoke, oRet, oBr, oCondBr,
  oSwitch, oUnreachable, oLandingPad, oResume, oExtractValue, oInsertValue, oExtractElement, oInsertElement, oShuffle,
  oFreeze, oAtomicRMW, oCmpXchg, oFence, oUnsupported
};
struct Inst {
  Op op;
  uint8_t sub = 0;            // K opcode / predicate / cast
  bool flag = false;          // cleanup landingpad / atomicrmw...
  int dst = -1;
  Type* t = nullptr;          // result type (or stored type)
  Type* t2 = nullptr;         // source type
  std::vector<Opnd> a;
  std::vector<uint64_t> x;    // gep scales / indices / mask / switch values / phi blocks
  int b0 = -1, b1 = -1;       // successor blocks
  std::vector<int> blocks;    // switch / phi
  int fn = -1;                // direct callee
  int dbg = 0;                // index in Program::locs
};
struct Block { std::vector<Inst> in; };
struct Func {
  std::string name, pretty;
  bool decl = true;
  int nregs = 0, nargs = 0;
  bool vararg = false;
  Type* ret = nullptr;
  std::vector<Type*> argt;
  std::vector<uint64_t> byvalSize;
  std::vector<Block> b;
  int builtin = -1;
  bool visqol = false;
  uint64_t hits = 0;
};
struct Global {
  std::string name;
  uint64_t size = 0;
  bool isConst = false, hasInit = false;
  COp init;
};
struct Program {
  std::vector<Func> f;
  std::vector<Global> g;
  std::vector<COp> consts;
  std::vector<Type*> ctype;
  std::map<std::string, int> fidx, gidx;
  std::vector<int> ctors;
  std::vector<std::string> locs;
};
bool loadProgram(const std::string& file, Program& p, std::string& err);
