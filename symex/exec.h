// Symbolic executor over the internal IR.
#pragma once
#include <chrono>
#include <functional>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include "ir.h"
#include "solver.h"

enum ObjKind : uint8_t { okGlobal, okStack, okMalloc, okNew, okNewArr, okExc };
struct Slot {
  uint64_t raw = 0;
  E e = nullptr, e2 = nullptr;
  uint8_t mask = 0;   // initialised bytes (concrete parts)
  uint8_t form = 0;   // 0 concrete, 1 whole word e, 2 halves e/e2 (null = concrete), 3 bytes ((E*)e)[8]
};
struct ObjData { int rc = 1; std::vector<Slot> s; };
struct Obj {
  ObjData* d = nullptr;
  uint64_t size = 0;
  ObjKind kind = okGlobal;
  bool freed = false, ro = false;
  int site = 0;
};
struct Chunk {
  int rc = 1;
  Obj o[64];
  Chunk() {}
  Chunk(const Chunk& c) { for (int i = 0; i < 64; i++) { o[i] = c.o[i]; if (o[i].d) o[i].d->rc++; } }
  ~Chunk() { for (auto& x : o) if (x.d && --x.d->rc == 0) delete x.d; }
};
static const uint64_t kBase = 0x40000000ull;
static const uint32_t kFnBase = 0x50000000u;
struct Mem {
  std::vector<Chunk*> ch;
  uint32_t next = 1;
  Mem() {}
  Mem(const Mem& m) : ch(m.ch), next(m.next) { for (auto c : ch) c->rc++; }
  Mem& operator=(const Mem&) = delete;
  Mem(Mem&& m) noexcept : ch(std::move(m.ch)), next(m.next) { m.ch.clear(); }
  ~Mem() { for (auto c : ch) if (--c->rc == 0) delete c; }
  const Obj* get(uint32_t id) const { return id && id < next ? &ch[id >> 6]->o[id & 63] : nullptr; }
  Obj* mut(uint32_t id) {
    Chunk*& c = ch[id >> 6];
    if (c->rc > 1) { c->rc--; c = new Chunk(*c); }
    return &c->o[id & 63];
  }
  ObjData* data(uint32_t id) {  // writable content
    Obj* o = mut(id);
    if (o->d->rc > 1) { o->d->rc--; auto* n = new ObjData(); n->s = o->d->s; o->d = n; }
    return o->d;
  }
  uint32_t alloc(uint64_t size, ObjKind k, int site) {
    uint32_t id = next++;
    if ((id >> 6) >= ch.size()) ch.push_back(new Chunk());
    Obj* o = mut(id);
    o->d = new ObjData(); o->d->s.resize((size + 7) / 8);
    o->size = size; o->kind = k; o->site = site; o->freed = false; o->ro = false;
    return id;
  }
  void release(uint32_t id) {
    Obj* o = mut(id);
    if (o->d && --o->d->rc == 0) delete o->d;
    o->d = nullptr; o->freed = true;
  }
};
inline uint64_t addrOf(uint32_t id) { return ((uint64_t)id << 32) | kBase; }
struct Frame {
  int fn, block = 0, prev = -1;
  unsigned pc = 0;
  uint32_t base = 0;          // first register in State::regs
  std::vector<uint32_t> allocas;
  std::vector<Val> var;       // variadic arguments
};
struct Input { std::string name; Val v; char kind; int w; };
struct State {
  std::vector<Frame> fr;
  std::vector<Val> regs;
  Mem mem;
  std::vector<E> pc;
  std::unordered_set<E> pcs;
  std::unordered_map<E, uint64_t> known;
  std::shared_ptr<Assign> model;
  std::vector<Input> inputs;
  std::vector<int> reach;
  std::vector<int> todo;       // functions still to be called (constructors, then the entry)
  uint64_t excObj = 0; int excType = -1;
  std::vector<std::pair<uint64_t, int>> caught;
  uint64_t steps = 0;
  std::unordered_map<std::string, uint64_t> kv;   // model scratch
  int depth = 0;
};
struct PathEnd { int why; };   // 0 normal, 1 infeasible/assumed away, 2 error, 3 limit, 4 unsupported
struct Violation {
  std::string kind, msg, loc, stack;
  std::vector<std::pair<std::string, std::string>> inputs;  // name, "kind value"
  std::string smt2;
};
struct Options {
  uint64_t maxSteps = 30000000, maxPaths = 200000, maxAlloc = 64 << 20;
  double timeLimit = 800;
  int maxViol = 4, samples = 3;
  bool checkFpToInt = true;
  bool checkNanBranch = false, oomDrop = false;
  int iteCap = 300;
  std::map<std::string, std::string> params;
  std::string dumpDir;
};
struct Ex;
typedef bool (*BFn)(Ex&, State&, const Inst&, std::vector<Val>&, Val&);
struct Ex {
  Program& P;
  Options opt;
  Solver* Z;
  std::vector<std::unique_ptr<State>> work;
  std::vector<uint64_t> gaddr;      // global index -> address
  std::vector<Val> cval;            // program constants, evaluated
  std::vector<uint8_t> chave;
  std::vector<std::string> typeNames;  // exception type ids
  std::map<std::string, int> typeId;
  std::unordered_map<uint64_t, int> tiByAddr;
  std::vector<BFn> btab;
  // results
  uint64_t paths = 0, pathsErr = 0, pathsAssumed = 0, pathsLimit = 0, pathsUnsup = 0, steps = 0, forks = 0, asserts = 0, assertsProved = 0, assertsConcrete = 0,
           realExcluded = 0, freshUndef = 0;
  std::vector<Violation> viol;
  std::map<std::string, int> violCount;
  std::map<std::string, int> unsup, unknown;
  std::map<std::string, uint64_t> reachCount;
  std::vector<std::string> reachNames;
  std::vector<std::vector<std::pair<std::string, std::string>>> samples;
  std::vector<std::vector<std::string>> sampleReach;
  std::chrono::steady_clock::time_point t0;
  bool timedOut = false;
  Ex(Program& p) : P(p) {}
  double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
  void init(State& S);
  void explore(const std::string& entry);
  void run(State& S);
  // helpers used by builtins
  E toE(const Val& v, int w, Sort s);
  E toE(const Val& v, ::Type* t) { return toE(v, t->w, t->sort()); }
  Val fromE(E e);
  Val rdBytes(State& S, uint32_t id, uint64_t off, int n, Sort s, int w);
  void wrBytes(State& S, uint32_t id, uint64_t off, int n, const Val& v, Sort s);
  Val load(State& S, const Val& p, ::Type* t);
  void store(State& S, const Val& p, const Val& v, ::Type* t);
  Val loadScalar(State& S, const Val& p, int n, Sort s, int w);
  void storeScalar(State& S, const Val& p, const Val& v, int n, Sort s, int w);
  // returns object id and concrete offset for n bytes at p (symbolic parts concretised)
  void access(State& S, uint64_t addr, uint64_t n, bool wr, uint32_t& id, uint64_t& off);
  E splitBase(State& S, E addr, uint32_t& id);   // symbolic offset within object id
  uint8_t cbyte(State& S, uint64_t addr);
  std::string cstr(State& S, uint64_t addr, size_t max = 4096);
  uint64_t concretize(State& S, E e);
  uint64_t concVal(State& S, const Val& v) { return v.e ? concretize(S, v.e) : v.c; }
  bool decide(State& S, E c);
  void add(State& S, E c);
  bool feasible(State& S, E c, Assign* m = nullptr);   // unknown counts as feasible
  void assume(State& S, E c);
  void check(State& S, E c, const std::string& kind, const std::string& msg);  // assertion: must hold
  [[noreturn]] void error(State& S, const std::string& kind, const std::string& msg);
  void report(State& S, const std::string& kind, const std::string& msg, const Assign* m);
  [[noreturn]] void unsupported(State& S, const std::string& what);
  void undefCheck(State& S, E c, const char* what);
  E freshUndef_(int w, Sort s);
  std::string where(State& S);
  std::string backtrace(State& S);
  void fork(State& S, E cond, std::shared_ptr<Assign> m);   // push a copy of S constrained by cond
  void throwExc(State& S, uint64_t obj, int type);
  void throwStd(State& S, const char* zti, const std::string& msg);
  int typeOf(const std::string& zti);
  bool isSubtype(const std::string& a, const std::string& b);
  void unwind(State& S);
  void call(State& S, int fn, std::vector<Val>& args, std::vector<Val>* var = nullptr);
  Val cst(State& S, int idx);
  Val evalC(State& S, const COp& o);
  void initObj(State& S, uint32_t id, uint64_t off, const COp& o);
  Val bin(State& S, K k, const Val& a, const Val& b, ::Type* t);
  Val icmp(State& S, int pred, const Val& a, const Val& b, ::Type* t);
  Val fcmp(int pred, const Val& a, const Val& b, ::Type* t);
  Val castOp(State& S, int sub, const Val& v, ::Type* from, ::Type* to);
  Val select(const Val& c, const Val& a, const Val& b, ::Type* t);
  Val un(State& S, K k, const Val& a, int w, Sort s, u128 aux = 0);
  uint64_t doAlloc(State& S, const Val& size, ObjKind k, bool& failed);
  void doFree(State& S, const Val& p, ObjKind k);
  void copyMem(State& S, uint64_t dst, uint64_t src, uint64_t n);
  Val cmpMem(State& S, uint64_t a, uint64_t b, uint64_t n, bool eqOnly);
  void finishPath(State& S, int why);
  std::vector<std::pair<std::string, std::string>> inputsOf(State& S, const Assign& m);
};
void registerBuiltins(Ex& X);
extern const Val* agg(std::vector<Val> v);
