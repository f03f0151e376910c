// IR-side stream runtime: locale facets, file streams over g_vfs, filesystem.
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <locale>
#include <sstream>
#include "vfs.h"
extern "C" VFile g_vfs[16] = {};
extern "C" int vsx_snprintf_d(char* buf, size_t n, const char* fmt, int prec, double v);
static VFile* vfind(const char* n, bool create) {
  for (auto& f : g_vfs) if (f.state && !strcmp(f.name, n)) return &f;
  if (!create) return nullptr;
  for (auto& f : g_vfs) if (!f.state) { size_t k = strlen(n); if (k > 255) return nullptr; memcpy(f.name, n, k + 1); f.state = 1; f.n = 0; return &f; }
  return nullptr;
}
extern "C" VFile* vfs_find(const char* n, int create) { return vfind(n, create != 0); }
namespace std {
locale::facet::~facet() {}
__c_locale locale::facet::_S_get_c_locale() { return nullptr; }
const char* locale::facet::_S_get_c_name() throw() { return "C"; }
// codecvt: no conversion
locale::id codecvt<char, char, mbstate_t>::id;
codecvt<char, char, mbstate_t>::codecvt(size_t refs) : __codecvt_abstract_base<char, char, mbstate_t>(refs), _M_c_locale_codecvt(nullptr) {}
codecvt<char, char, mbstate_t>::~codecvt() {}
codecvt_base::result codecvt<char, char, mbstate_t>::do_out(state_type&, const intern_type* f, const intern_type*, const intern_type*& fn, extern_type* t, extern_type*, extern_type*& tn) const { fn = f; tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_unshift(state_type&, extern_type* t, extern_type*, extern_type*& tn) const { tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_in(state_type&, const extern_type* f, const extern_type*, const extern_type*& fn, intern_type* t, intern_type*, intern_type*& tn) const { fn = f; tn = t; return noconv; }
int codecvt<char, char, mbstate_t>::do_encoding() const throw() { return 1; }
bool codecvt<char, char, mbstate_t>::do_always_noconv() const throw() { return true; }
int codecvt<char, char, mbstate_t>::do_length(state_type&, const extern_type* f, const extern_type* e, size_t m) const { return (int)std::min<size_t>(m, e - f); }
int codecvt<char, char, mbstate_t>::do_max_length() const throw() { return 1; }
locale::id ctype<char>::id;
void ctype<char>::_M_widen_init() const {}
struct NumPut : num_put<char> {
  NumPut() : num_put<char>(1) {}
  iter_type w(iter_type s, const char* p, streamsize width, ios_base& io, char fill) const {
    streamsize n = strlen(p);
    bool left = (io.flags() & ios_base::adjustfield) == ios_base::left;
    if (!left) for (streamsize i = n; i < width; i++) { *s = fill; ++s; }
    for (; *p; ++p) { *s = *p; ++s; }
    if (left) for (streamsize i = n; i < width; i++) { *s = fill; ++s; }
    io.width(0);
    return s;
  }
  iter_type dbl(iter_type s, ios_base& io, char fill, double v) const {
    char b[400];
    auto fl = io.flags() & ios_base::floatfield;
    const char* f = fl == ios_base::fixed ? "%.*f" : fl == ios_base::scientific ? "%.*e" : "%.*g";
    vsx_snprintf_d(b, sizeof b, f, (int)io.precision(), v);
    return w(s, b, io.width(), io, fill);
  }
  iter_type integer(iter_type s, ios_base& io, char fill, bool neg, unsigned long long v) const {
    char b[32]; int k = 31; b[k] = 0;
    do { b[--k] = '0' + v % 10; v /= 10; } while (v);
    if (neg) b[--k] = '-';
    return w(s, b + k, io.width(), io, fill);
  }
  iter_type do_put(iter_type s, ios_base& io, char fill, bool v) const override { return integer(s, io, fill, false, v); }
  iter_type do_put(iter_type s, ios_base& io, char fill, long v) const override { return integer(s, io, fill, v < 0, v < 0 ? -(unsigned long long)v : v); }
  iter_type do_put(iter_type s, ios_base& io, char fill, unsigned long v) const override { return integer(s, io, fill, false, v); }
  iter_type do_put(iter_type s, ios_base& io, char fill, long long v) const override { return integer(s, io, fill, v < 0, v < 0 ? -(unsigned long long)v : v); }
  iter_type do_put(iter_type s, ios_base& io, char fill, unsigned long long v) const override { return integer(s, io, fill, false, v); }
  iter_type do_put(iter_type s, ios_base& io, char fill, double v) const override { return dbl(s, io, fill, v); }
  iter_type do_put(iter_type s, ios_base& io, char fill, long double v) const override { return dbl(s, io, fill, (double)v); }
};
size_t locale::id::_M_id() const throw() {
  if (this == &std::ctype<char>::id) return 1;
  if (this == &codecvt<char, char, mbstate_t>::id) return 2;
  if (this == &num_put<char>::id) return 3;
  return 0;
}
alignas(16) static char g_ctype[sizeof(ctype<char>)];
alignas(16) static char g_impl[sizeof(locale::_Impl)];
static const locale::facet* g_facets[8];
static ctype_base::mask g_mask[256];
static locale::_Impl* impl() {
  locale::_Impl* i = (locale::_Impl*)g_impl;
  if (!i->_M_facets) {
    ctype<char>* c = (ctype<char>*)g_ctype;
    c->_M_widen_ok = 1; c->_M_narrow_ok = 1; c->_M_table = g_mask;
    for (int k = 0; k < 256; k++) { c->_M_widen[k] = (char)k; c->_M_narrow[k] = (char)k; }
    for (char k : {' ', '\t', '\n', '\v', '\f', '\r'}) g_mask[(int)k] |= ctype_base::space;
    for (char k = '0'; k <= '9'; k++) g_mask[(int)k] |= ctype_base::digit;
    static codecvt<char, char, mbstate_t>* cv = new codecvt<char, char, mbstate_t>(1);
    static NumPut* np = new NumPut();
    g_facets[1] = (const locale::facet*)c; g_facets[2] = cv; g_facets[3] = np;
    const_cast<const locale::facet**&>(i->_M_facets) = g_facets;
    i->_M_facets_size = 8;
  }
  return i;
}
locale::locale() throw() : _M_impl(impl()) {}
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(8), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
void ios_base::_M_call_callbacks(event) throw() {}
// file buffers
typedef __basic_file<char> BF;
// _M_cfile points at the open state
struct VOpen { VFile* f; size_t pos; int write; };
BF::__basic_file(__c_lock*) throw() : _M_cfile(nullptr), _M_cfile_created(false) {}
BF::~__basic_file() { close(); }
bool BF::is_open() const throw() { return _M_cfile != nullptr; }
BF* BF::open(const char* n, ios_base::openmode m, int) {
  if (is_open()) return nullptr;
  const bool wr = (m & (ios_base::out | ios_base::app)) != 0;
  VFile* f = vfind(n, wr);
  if (!f || f->state == 2 || f->broken) return nullptr;
  if (wr && !(m & ios_base::app) && ((m & ios_base::trunc) || !(m & ios_base::in))) { f->n = 0; f->on = 0; f->data = nullptr; }
  VOpen* o = new VOpen{f, 0, wr};
  _M_cfile = (__c_file*)o; _M_cfile_created = true;
  return this;
}
BF* BF::close() {
  if (!is_open()) return nullptr;
  delete (VOpen*)_M_cfile; _M_cfile = nullptr;
  return this;
}
streamsize BF::xsgetn(char* s, streamsize n) {
  VOpen* o = (VOpen*)_M_cfile;
  size_t left = o->f->n - o->pos;
  size_t k = (size_t)n < left ? (size_t)n : left;
  memcpy(s, o->f->data + o->pos, k); o->pos += k;
  return k;
}
streamsize BF::xsputn(const char* s, streamsize n) {
  VFile* f = ((VOpen*)_M_cfile)->f;
  if (f->on + n > f->cap) {
    size_t c = (f->on + n) * 2 + 1024; char* b = new char[c];
    if (f->on) memcpy(b, f->out, f->on);
    f->out = b; f->cap = c;
  }
  memcpy(f->out + f->on, s, n); f->on += n;
  return n;
}
streamsize BF::xsputn_2(const char* a, streamsize n, const char* b, streamsize m) { xsputn(a, n); xsputn(b, m); return n + m; }
streamoff BF::seekoff(streamoff off, ios_base::seekdir w) throw() {
  VOpen* o = (VOpen*)_M_cfile;
  streamoff base = w == ios_base::beg ? 0 : w == ios_base::cur ? (streamoff)o->pos : (streamoff)(o->write ? o->f->n + o->f->on : o->f->n);
  base += off;
  if (base < 0) return -1;
  o->pos = base;
  return base;
}
int BF::sync() { return 0; }
streamsize BF::showmanyc() { VOpen* o = (VOpen*)_M_cfile; return o->f->n - o->pos; }
template <>
streamsize __copy_streambufs_eof(basic_streambuf<char>* in, basic_streambuf<char>* out, bool& ineof) {
  streamsize r = 0;
  ineof = true;
  int c = in->sgetc();
  while (c != -1) {
    const streamsize n = in->egptr() - in->gptr();
    if (n > 1) {
      const streamsize w = out->sputn(in->gptr(), n);
      in->gbump((int)w); r += w;
      if (w < n) { ineof = false; break; }
      c = in->underflow();
    } else {
      if (out->sputc((char)c) == -1) { ineof = false; break; }
      ++r;
      c = in->snextc();
    }
  }
  return r;
}
template <>
basic_istream<char>& getline(basic_istream<char>& in, string& s, char delim) {
  ios_base::iostate err = ios_base::goodbit;
  size_t n = 0;
  istream::sentry ok(in, true);
  if (ok) {
    s.erase();
    int c = in.rdbuf()->sgetc();
    while (c != -1 && (char)c != delim) { s += (char)c; ++n; c = in.rdbuf()->snextc(); }
    if (c == -1) err |= ios_base::eofbit;
    else { ++n; in.rdbuf()->sbumpc(); }
  }
  if (!n) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
template <>
basic_istream<char>& getline(basic_istream<char>& in, string& s) { return getline(in, s, '\n'); }
__attribute__((init_priority(200))) ostream cout(nullptr);
__attribute__((init_priority(200))) ostream cerr(nullptr);
__attribute__((init_priority(200))) istream cin(nullptr);
// filesystem
namespace filesystem {
inline namespace __cxx11 {
void path::_M_split_cmpts() {}
path::_List::_List() : _M_impl(nullptr) {}
path::_List::_List(const _List&) : _M_impl(nullptr) {}
path::_List& path::_List::operator=(const _List&) { return *this; }
void path::_List::_Impl_deleter::operator()(_Impl*) const noexcept {}
path& path::operator=(const path& o) { _M_pathname = o._M_pathname; return *this; }
}
path current_path() { return path("/cwd"); }
file_status status(const path& p) {
  VFile* f = vfind(p._M_pathname.c_str(), false);
  return file_status(!f ? file_type::not_found : f->state == 2 ? file_type::directory : file_type::regular, perms::all);
}
file_status status(const path& p, error_code&) noexcept { return status(p); }
}  // namespace filesystem
}  // namespace std
