// IR-side bodies for library functions that are only declared in headers
// (libstdc++ and Abseil).  They implement the documented behaviour; the native
// replay links the real libraries instead.
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include "absl/base/internal/raw_logging.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
#include "absl/synchronization/mutex.h"
extern "C" int vsx_is_symbolic(uint64_t);
// ---------------------------------------------------------------- containers
namespace std {
typedef _Rb_tree_node_base RB;
static RB* rbmin(RB* x) { while (x->_M_left) x = x->_M_left; return x; }
static RB* rbmax(RB* x) { while (x->_M_right) x = x->_M_right; return x; }
RB* _Rb_tree_increment(RB* x) throw() {
  if (x->_M_right) return rbmin(x->_M_right);
  RB* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const RB* _Rb_tree_increment(const RB* x) throw() { return _Rb_tree_increment(const_cast<RB*>(x)); }
RB* _Rb_tree_decrement(RB* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) return rbmax(x->_M_left);
  RB* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const RB* _Rb_tree_decrement(const RB* x) throw() { return _Rb_tree_decrement(const_cast<RB*>(x)); }
// a plain (unbalanced) search tree: order and iteration are the same
void _Rb_tree_insert_and_rebalance(const bool left, RB* x, RB* p, RB& h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
RB* _Rb_tree_rebalance_for_erase(RB* const z, RB& h) throw() {
  auto link = [&](RB* from, RB* to) {
    if (h._M_parent == from) h._M_parent = to;
    else if (from->_M_parent->_M_left == from) from->_M_parent->_M_left = to;
    else from->_M_parent->_M_right = to;
    if (to) to->_M_parent = from->_M_parent;
  };
  RB *nl = z == h._M_left ? _Rb_tree_increment(z) : h._M_left, *nr = z == h._M_right ? _Rb_tree_decrement(z) : h._M_right;
  if (!z->_M_left) link(z, z->_M_right);
  else if (!z->_M_right) link(z, z->_M_left);
  else {
    RB* y = rbmin(z->_M_right);
    if (y->_M_parent != z) { link(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    link(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  h._M_left = h._M_parent ? nl : &h;
  h._M_right = h._M_parent ? nr : &h;
  return z;
}
}  // namespace std
// ---------------------------------------------------------------- absl::Status
namespace absl {
ABSL_NAMESPACE_BEGIN
Status::Status(absl::StatusCode code, absl::string_view msg) : rep_(CodeToInlinedRep(code)) {
  if (code != absl::StatusCode::kOk && !msg.empty()) rep_ = PointerToRep(new status_internal::StatusRep(code, msg, nullptr));
}
void Status::UnrefNonInlined(uintptr_t rep) {
  status_internal::StatusRep* r = RepToPointer(rep);
  if (--*reinterpret_cast<int32_t*>(&r->ref) == 0) { r->message.~basic_string(); ::operator delete(r); }
}
static StatusCode Local(int v) { return v >= 0 && v <= 16 ? (StatusCode)v : StatusCode::kUnknown; }
int Status::raw_code() const {
  if (IsInlined(rep_)) return static_cast<int>(InlinedRepToCode(rep_));
  return static_cast<int>(RepToPointer(rep_)->code);
}
absl::StatusCode Status::code() const { return Local(raw_code()); }
bool Status::EqualsSlow(const Status& a, const Status& b) { return a.message() == b.message() && a.raw_code() == b.raw_code(); }
static std::string g_empty;
const std::string* Status::EmptyString() { return &g_empty; }
static std::string g_moved = "moved";
const std::string* Status::MovedFromString() { return &g_moved; }
std::string Status::ToStringSlow(StatusToStringMode) const {
  std::string t = "ERROR: ";
  t.append(message().data(), message().size());
  return t;
}
#define MK(f, c) Status f(absl::string_view m) { return Status(absl::StatusCode::c, m); }
MK(AbortedError, kAborted) MK(AlreadyExistsError, kAlreadyExists) MK(CancelledError, kCancelled) MK(DataLossError, kDataLoss) MK(DeadlineExceededError, kDeadlineExceeded) MK(FailedPreconditionError, kFailedPrecondition) MK(InternalError, kInternal) MK(InvalidArgumentError, kInvalidArgument) MK(NotFoundError, kNotFound) MK(OutOfRangeError, kOutOfRange) MK(PermissionDeniedError, kPermissionDenied) MK(ResourceExhaustedError, kResourceExhausted) MK(UnauthenticatedError, kUnauthenticated) MK(UnavailableError, kUnavailable) MK(UnimplementedError, kUnimplemented) MK(UnknownError, kUnknown)
#define IS(f, c) bool f(const Status& s) { return s.code() == absl::StatusCode::c; }
IS(IsAborted, kAborted) IS(IsInvalidArgument, kInvalidArgument) IS(IsNotFound, kNotFound) IS(IsInternal, kInternal) IS(IsUnknown, kUnknown) IS(IsFailedPrecondition, kFailedPrecondition) IS(IsCancelled, kCancelled) IS(IsOutOfRange, kOutOfRange)
std::string StatusCodeToString(StatusCode) { return "CODE"; }
std::ostream& operator<<(std::ostream& os, const Status&) { return os; }
namespace internal_statusor {
void Helper::HandleInvalidStatusCtorArg(Status* s) { *s = absl::InternalError("An OK status is not a valid constructor argument to StatusOr<T>"); }
void Helper::Crash(const absl::Status&) { abort(); }
void ThrowBadStatusOrAccess(absl::Status) { throw std::logic_error("bad StatusOr access"); }
}  // namespace internal_statusor
// ---------------------------------------------------------------- strings
std::string StrCat(const AlphaNum& a, const AlphaNum& b) { std::string r(a.data(), a.size()); r.append(b.data(), b.size()); return r; }
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c) { std::string r = StrCat(a, b); r.append(c.data(), c.size()); return r; }
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& d) { std::string r = StrCat(a, b, c); r.append(d.data(), d.size()); return r; }
void StrAppend(std::string* d, const AlphaNum& a) { d->append(a.data(), a.size()); }
void StrAppend(std::string* d, const AlphaNum& a, const AlphaNum& b) { d->append(a.data(), a.size()); d->append(b.data(), b.size()); }
namespace strings_internal {
std::string CatPieces(std::initializer_list<absl::string_view> p) { std::string r; for (auto x : p) r.append(x.data(), x.size()); return r; }
}
namespace numbers_internal {
template <class T> static char* Put(T v, char* b) {
  // a number that is not constant only appears in messages: its value is not modelled
  if (vsx_is_symbolic((uint64_t)v)) { b[0] = '0'; b[1] = 0; return b + 1; }
  char t[24];
  int n = 0;
  uint64_t u = v < 0 ? 0 - (uint64_t)v : (uint64_t)v;
  do { t[n++] = '0' + u % 10; u /= 10; } while (u);
  if (v < 0) *b++ = '-';
  while (n) *b++ = t[--n];
  *b = 0;
  return b;
}
char* FastIntToBuffer(int32_t v, char* b) { return Put(v, b); }
char* FastIntToBuffer(uint32_t v, char* b) { return Put(v, b); }
char* FastIntToBuffer(int64_t v, char* b) { return Put(v, b); }
char* FastIntToBuffer(uint64_t v, char* b) { return Put(v, b); }
size_t SixDigitsToBuffer(double, char* b) { b[0] = '0'; b[1] = 0; return 1; }
}  // namespace numbers_internal
// ---------------------------------------------------------------- sync, log
void Mutex::Lock() {}
void Mutex::Unlock() {}
Mutex::~Mutex() {}
namespace raw_logging_internal {
void RawLog(absl::LogSeverity s, const char*, int, const char*, ...) { if (s == absl::LogSeverity::kFatal) abort(); }
}
ABSL_NAMESPACE_END
}  // namespace absl
// base-class subobject of an exception made by the code under test
namespace std {
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  size_t h = seed;
  for (size_t i = 0; i < n; i++) h = h * 131 + ((const unsigned char*)p)[i];
  return h;
}
}
