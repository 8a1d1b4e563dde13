// Runtime for symbolic execution: the part of libstdc++/libsupc++/libc that is not header code.
#include <new>
#include <cstdint>
#include <locale>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <exception>
#include <functional>
#include <typeinfo>
#include <map>
#include <list>
#include <memory>
#include <unordered_map>
#include <cstring>
#include <cwchar>
#include <cstdio>
#include <cstdarg>
#include <system_error>
#include "sx.h"
#pragma clang section bss="rt.bss" data="rt.data" rodata="rt.ro"

// ------------------------------------------------------------------ allocation
static uint64_t fail_at = ~0ull, nalloc = 0, nfailed = 0, nlive = 0;
extern "C" {
void rt_fail_alloc_at(uint64_t k) { fail_at = k; nalloc = 0; nfailed = 0; }
uint64_t rt_alloc_failed() { return nfailed; }
uint64_t rt_alloc_count() { return nalloc; }
uint64_t rt_news() { return nlive - __sx_static_live(); }
}
void* operator new(std::size_t n) {
  if (nalloc++ == fail_at) { nfailed++; throw std::bad_alloc(); }
  void* p = __sx_malloc(n); if (!p) throw std::bad_alloc(); nlive++; return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) nlive--; __sx_free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { if (nalloc++ == fail_at) { nfailed++; return nullptr; } void* p = __sx_malloc(n); if (p) nlive++; return p; }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
extern "C" {
void* malloc(size_t n) { return __sx_malloc(n); }
void free(void* p) { __sx_free(p); }
void abort() { __sx_terminate("abort"); }
}

// ------------------------------------------------------------------ exceptions
namespace {
struct Hdr { // 80 bytes before the thrown object
  uint64_t pad0, pad1;
  const std::type_info* ti; void* adjusted; void (*dtor)(void*); long refs; long handlers; Hdr* next; uint64_t pad2; void* primary;
};
static_assert(sizeof(Hdr) == 80, "");
Hdr* caught = nullptr; unsigned uncaught_n = 0;
inline Hdr* hdr(void* o) { return reinterpret_cast<Hdr*>(o) - 1; }
inline void* obj(Hdr* h) { return h + 1; }
void release(Hdr* h) {
  if (--h->refs) return;
  if (h->primary != obj(h)) { Hdr* p = hdr(h->primary); __sx_free(h); release(p); return; }
  if (h->dtor) h->dtor(obj(h));
  __sx_free(h);
}
}
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept { Hdr* h = (Hdr*)__sx_malloc(n + sizeof(Hdr)); memset(h, 0, sizeof(Hdr)); return h + 1; }
void __cxa_free_exception(void* o) noexcept { __sx_free(hdr(o)); }
__attribute__((noreturn)) void __cxa_throw(void* o, std::type_info* ti, void (*d)(void*)) {
  Hdr* h = hdr(o); h->ti = ti; h->dtor = d; h->refs = 1; h->handlers = 0; h->primary = o; uncaught_n++; __sx_unwind(o);
}
void* __cxa_begin_catch(void* o) noexcept {
  Hdr* h = hdr(o); long c = h->handlers; c = c < 0 ? -c + 1 : c + 1; h->handlers = c; uncaught_n--;
  if (caught != h) { h->next = caught; caught = h; }
  return h->adjusted;
}
void __cxa_end_catch() {
  Hdr* h = caught; if (!h) return;
  long c = h->handlers;
  if (c < 0) { if (++c == 0) caught = h->next; h->handlers = c; return; }
  if (--c == 0) { caught = h->next; h->handlers = 0; release(h); return; }
  h->handlers = c;
}
__attribute__((noreturn)) void __cxa_rethrow() { Hdr* h = caught; if (!h) __sx_terminate("rethrow without exception"); h->handlers = -h->handlers; uncaught_n++; __sx_unwind(obj(h)); }
void* __cxa_get_exception_ptr(void* o) noexcept { return hdr(o)->adjusted; }
__attribute__((noreturn)) void __cxa_call_unexpected(void*) { __sx_terminate("unexpected exception"); }
__attribute__((noreturn)) void __cxa_pure_virtual() { __sx_terminate("pure virtual call"); }
__attribute__((noreturn)) void __cxa_bad_cast() { throw std::bad_cast(); }
__attribute__((noreturn)) void __cxa_bad_typeid() { throw std::bad_typeid(); }
__attribute__((noreturn)) void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
int __cxa_atexit(void (*)(void*), void*, void*) noexcept { return 0; }
int __cxa_thread_atexit(void (*)(void*), void*, void*) noexcept { return 0; }
int __cxa_guard_acquire(uint64_t* g) noexcept { if (*g & 1) return 0; __sx_init(1); return 1; }
void __cxa_guard_release(uint64_t* g) noexcept { *g = 1; __sx_init(-1); }
void __cxa_guard_abort(uint64_t* g) noexcept { *g = 0; __sx_init(-1); }
void* __dso_handle = nullptr;
}
namespace std {
void terminate() noexcept { __sx_terminate("std::terminate"); }
bool uncaught_exception() noexcept { return uncaught_n != 0; }
int uncaught_exceptions() noexcept { return uncaught_n; }
namespace __exception_ptr {
exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) { _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) hdr(_M_exception_object)->refs++; }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { release(hdr(_M_exception_object)); _M_exception_object = nullptr; } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const std::type_info* exception_ptr::__cxa_exception_type() const noexcept { return _M_exception_object ? hdr(_M_exception_object)->ti : nullptr; }
}
exception_ptr current_exception() noexcept { return caught ? exception_ptr(caught->primary) : exception_ptr(); }
void rethrow_exception(exception_ptr p) {
  void* prim = p._M_get(); Hdr* ph = hdr(prim); ph->refs++;
  Hdr* d = (Hdr*)__sx_malloc(sizeof(Hdr)); memset(d, 0, sizeof(Hdr)); d->ti = ph->ti; d->refs = 1; d->primary = prim; uncaught_n++;
  p.~exception_ptr(); new (&p) exception_ptr();
  __sx_unwind(obj(d));
}

exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}

// reference counted message, like libstdc++'s __cow_string
struct CowRep { long refs; };
static const char* cow_new(const char* s, size_t n) { CowRep* r = (CowRep*)__sx_malloc(sizeof(CowRep) + n + 1); r->refs = 1; memcpy(r + 1, s, n); ((char*)(r + 1))[n] = 0; return (char*)(r + 1); }
static void cow_drop(const char* p) { CowRep* r = (CowRep*)p - 1; if (--r->refs == 0) __sx_free(r); }
__cow_string::__cow_string(const std::string& s) { _M_p = cow_new(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = cow_new(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; ((CowRep*)_M_p - 1)->refs++; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { ((CowRep*)o._M_p - 1)->refs++; cow_drop(_M_p); _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() { cow_drop(_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; ((CowRep*)_M_p - 1)->refs++; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this = (const __cow_string&)o; }
#define EXC0(C) \
  C::C(const std::string& s) : _M_msg(s) {} C::C(const char* s) : _M_msg(s, strlen(s)) {} C::C(const C& o) noexcept : exception(o), _M_msg(o._M_msg) {} C& C::operator=(const C& o) noexcept { _M_msg = o._M_msg; return *this; } \
  C::~C() noexcept {} const char* C::what() const noexcept { return _M_msg._M_p; } C::C(C&& o) noexcept : _M_msg((const __cow_string&)o._M_msg) {} C& C::operator=(C&& o) noexcept { _M_msg = (const __cow_string&)o._M_msg; return *this; }
EXC0(runtime_error)
EXC0(logic_error)
#define EXC1(C, B) C::C(const std::string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept {}
EXC1(out_of_range, logic_error) EXC1(invalid_argument, logic_error) EXC1(length_error, logic_error) EXC1(domain_error, logic_error)
EXC1(range_error, runtime_error) EXC1(overflow_error, runtime_error) EXC1(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_ios_failure(const char* s) { throw runtime_error(s); }
void __throw_ios_failure(const char* s, int) { throw runtime_error(s); }
void __throw_system_error(int) { throw runtime_error("system error"); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __glibcxx_assert_fail(const char*, int, const char*, const char* c) noexcept { __sx_terminate(c ? c : "glibcxx assertion"); }

// ------------------------------------------------------------------ red-black tree (interface of tree.cc)
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base*& root = h._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* const g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) {
      _Rb_tree_node_base* const y = g->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); }
    } else {
      _Rb_tree_node_base* const y = g->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base*& root = h._M_parent; _Rb_tree_node_base*& leftmost = h._M_left; _Rb_tree_node_base*& rightmost = h._M_right;
  _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0; _Rb_tree_node_base* xp = 0;
  if (y->_M_left == 0) x = y->_M_right;
  else if (y->_M_right == 0) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left != 0) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        _Rb_tree_node_base* w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break;
        }
      } else {
        _Rb_tree_node_base* w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break;
        }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}

// ------------------------------------------------------------------ hashing, lists
namespace __detail {
static const unsigned long primes[] = {1, 2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933};
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { for (unsigned long p : primes) if (p >= n) { _M_next_resize = (size_t)(p * (double)_M_max_load_factor); return p; } return 172933; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t bkt, std::size_t elt, std::size_t ins) const {
  if (elt + ins > _M_next_resize) {
    size_t want = elt + ins; size_t mn = want > (_M_next_resize ? 0u : 11u) ? want : 11u;
    if (mn >= bkt) { size_t nb = mn + 1 > bkt * 2 ? mn + 1 : bkt * 2; return {true, _M_next_bkt(nb)}; }
    _M_next_resize = bkt; return {false, 0};
  }
  return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* const t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { auto n = x._M_next; x._M_next = y._M_next; y._M_next = n; auto p = x._M_prev; x._M_prev = y._M_prev; y._M_prev = p; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}
// Any function is a correct hash; a short one keeps path constraints small.
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed & 0xff; for (size_t i = 0; i < n; i++) h = (h << 1) + (size_t)__sx_concretize(c[i]); return h; }
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }

// ------------------------------------------------------------------ ios_base, locale
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() { }
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
locale ios_base::imbue(const locale& l) throw() { locale old = _M_ios_locale; _M_ios_locale = l; return old; }
ios_base::Init::Init() {}
void ios_base_library_init() {}
ios_base::Init::~Init() {}

locale::facet::~facet() {}
locale::id ctype<char>::id, ctype<wchar_t>::id;
size_t locale::id::_M_id() const throw() {
  if (this == &std::ctype<char>::id) return 1; if (this == &std::ctype<wchar_t>::id) return 2;
  if (this == &num_put<char>::id) return 3; if (this == &num_put<wchar_t>::id) return 4;
  if (this == &num_get<char>::id) return 5; if (this == &num_get<wchar_t>::id) return 6;
  if (this == &numpunct<char>::id) return 7; if (this == &numpunct<wchar_t>::id) return 8;
  return 0;
}
}
using namespace std;
namespace {
typedef std::ctype_base CB;
constexpr CB::mask ctm(int c) { return (CB::mask)((c >= 'A' && c <= 'Z' ? CB::upper | CB::alpha : 0) | (c >= 'a' && c <= 'z' ? CB::lower | CB::alpha : 0) | (c >= '0' && c <= '9' ? CB::digit : 0) | ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F') ? CB::xdigit : 0)
  | (c == ' ' || (c >= 9 && c <= 13) ? CB::space : 0) | (c == ' ' || c == 9 ? CB::blank : 0) | (c < 128 ? (c < 32 || c == 127 ? CB::cntrl : CB::print) : 0) | (c > 32 && c < 127 && !(c >= '0' && c <= '9') && !(c >= 'A' && c <= 'Z') && !(c >= 'a' && c <= 'z') ? CB::punct : 0)); }
#define CT4(c) ctm(c), ctm(c + 1), ctm(c + 2), ctm(c + 3)
#define CT16(c) CT4(c), CT4(c + 4), CT4(c + 8), CT4(c + 12)
#define CT64(c) CT16(c), CT16(c + 16), CT16(c + 32), CT16(c + 48)
const CB::mask ctype_tab[256] = { CT64(0), CT64(64), CT64(128), CT64(192) };

struct CtypeC : std::ctype<char> { CtypeC() : std::ctype<char>(ctype_tab, false, 1) {} };
struct CtypeW : std::ctype<wchar_t> { CtypeW() : std::ctype<wchar_t>(1) {} };
template <class C> struct Put : std::num_put<C> {
  typedef typename std::num_put<C>::iter_type It;
  bool grouped;
  explicit Put(bool g) : std::num_put<C>(1), grouped(g) {}
  // emit sign/prefix then body, padded
  It emit(It o, ios_base& io, C fill, const char* b, int n, int signlen) const {
    long w = io.width(); io.width(0); long padn = w > n ? w - n : 0; auto adj = io.flags() & ios_base::adjustfield;
    if (adj != ios_base::left && adj != ios_base::internal) while (padn > 0) { *o = fill; ++o; padn--; }
    for (int i = 0; i < n; i++) { if (i == signlen && adj == ios_base::internal) while (padn > 0) { *o = fill; ++o; padn--; } *o = (C)(unsigned char)b[i]; ++o; }
    while (padn > 0) { *o = fill; ++o; padn--; }
    return o;
  }
  It integer(It o, ios_base& io, C fill, unsigned long long v, bool neg, bool isSigned) const {
    auto fl = io.flags(); auto base = fl & ios_base::basefield; char buf[80]; int n = 0, signlen = 0;
    if (base == ios_base::hex || base == ios_base::oct) {
      unsigned sh = base == ios_base::hex ? 4 : 3, mask = (1u << sh) - 1; unsigned up = (fl & ios_base::uppercase) ? 'A' - 10 - '0' : 'a' - 10 - '0';
      int w = (int)io.width(); int digits;
      if (base == ios_base::hex && fill == C('0') && w > 0 && w < 16 && !(fl & ios_base::showbase) && (v >> (4 * w)) == 0 && __sx_is_symbolic(v)) digits = w; // zero padding to the width
      else { digits = 1; while (digits * sh < 64 && (v >> (digits * sh)) != 0) digits++; if (digits * (int)sh > 64) digits = 22; }
      if ((fl & ios_base::showbase) && v != 0) { buf[n++] = '0'; if (sh == 4) buf[n++] = (fl & ios_base::uppercase) ? 'X' : 'x'; signlen = n; }
      for (int i = digits - 1; i >= 0; i--) { unsigned d = (unsigned)(v >> (i * sh)) & mask; buf[n++] = (char)('0' + d + (((9 - (int)d) >> 31) & up)); }
      return emit(o, io, fill, buf, n, signlen);
    }
    if (neg) buf[n++] = '-'; else if (isSigned && (fl & ios_base::showpos)) buf[n++] = '+';
    signlen = n; char dg[24]; int k = 0;
    if (!__sx_is_symbolic(v)) { char t[24]; int m = 0; do { t[m++] = (char)('0' + v % 10); v /= 10; } while (v); while (m) dg[k++] = t[--m]; }
    else {
      unsigned long long p = 10; k = 1; while (k < 20 && v >= p) { k++; if (k < 20) p *= 10; }
      unsigned long long h = 0;
      for (int i = 0; i < k; i++) { unsigned char d = (unsigned char)__sx_sym(8, "rt.digit"); __sx_assume(d >= '0' && d <= '9'); dg[i] = (char)d; h = h * 10 + (d - '0'); }
      if (k == 20) __sx_assume(dg[0] == '1');
      if (k > 1) __sx_assume(dg[0] != '0');
      __sx_assume(h == v);
    }
    if (grouped) { int lead = k % 3 ? k % 3 : 3; for (int i = 0; i < k; i++) { if (i && (i - lead) % 3 == 0) buf[n++] = ','; buf[n++] = dg[i]; } }
    else for (int i = 0; i < k; i++) buf[n++] = dg[i];
    return emit(o, io, fill, buf, n, signlen);
  }
  It real(It o, ios_base& io, C fill, double v, bool) const {
    auto fl = io.flags(); char fmt[12]; int n = 0; fmt[n++] = '%'; if (fl & ios_base::showpos) fmt[n++] = '+'; if (fl & ios_base::showpoint) fmt[n++] = '#';
    auto ff = fl & ios_base::floatfield; bool up = !!(fl & ios_base::uppercase);
    if (ff != (ios_base::fixed | ios_base::scientific)) { fmt[n++] = '.'; fmt[n++] = '*'; }
    fmt[n++] = ff == ios_base::fixed ? 'f' : ff == ios_base::scientific ? (up ? 'E' : 'e') : ff == (ios_base::fixed | ios_base::scientific) ? (up ? 'A' : 'a') : (up ? 'G' : 'g'); fmt[n] = 0;
    char buf[400]; int len = __sx_fmt_double(buf, sizeof buf, fmt, (int)io.precision(), v);
    char out[600]; int m = 0; int sl = (buf[0] == '-' || buf[0] == '+') ? 1 : 0;
    if (grouped) { int e = sl; while (e < len && buf[e] >= '0' && buf[e] <= '9') e++; for (int i = 0; i < len; i++) { if (i > sl && i < e && (e - i) % 3 == 0) out[m++] = ','; out[m++] = buf[i] == '.' ? ';' : buf[i]; } }
    else for (int i = 0; i < len; i++) out[m++] = buf[i];
    return emit(o, io, fill, out, m, sl);
  }
  It do_put(It o, ios_base& io, C f, bool v) const override { if (io.flags() & ios_base::boolalpha) { const char* s = v ? "true" : "false"; return emit(o, io, f, s, v ? 4 : 5, 0); } return do_put(o, io, f, (long)v); }
  It do_put(It o, ios_base& io, C f, long v) const override { auto b = io.flags() & ios_base::basefield; bool dec = b != ios_base::hex && b != ios_base::oct; bool neg = dec && v < 0; return integer(o, io, f, neg ? 0ull - (unsigned long long)v : (unsigned long long)v, neg, true); }
  It do_put(It o, ios_base& io, C f, unsigned long v) const override { return integer(o, io, f, v, false, false); }
  It do_put(It o, ios_base& io, C f, long long v) const override { return do_put(o, io, f, (long)v); }
  It do_put(It o, ios_base& io, C f, unsigned long long v) const override { return integer(o, io, f, v, false, false); }
  It do_put(It o, ios_base& io, C f, double v) const override { return real(o, io, f, v, false); }
  It do_put(It o, ios_base& io, C f, long double v) const override { return real(o, io, f, (double)v, false); }
  It do_put(It o, ios_base& io, C f, const void* v) const override { return integer(o, io, f, (unsigned long)v, false, false); }
};
struct RtImpl { locale::_Impl impl; };
alignas(16) char cc[sizeof(CtypeC)], cw[sizeof(CtypeW)], pc[sizeof(Put<char>)], pw[sizeof(Put<wchar_t>)], gc[sizeof(Put<char>)], gw[sizeof(Put<wchar_t>)];
const locale::facet* facets[9]; const locale::facet* gfacets[9];
alignas(16) char impl0[sizeof(locale::_Impl)], impl1[sizeof(locale::_Impl)];
bool ready = false;
void setup() {
  if (ready) return; ready = true;
  for (int g = 0; g < 2; g++) {
    const locale::facet** F = g ? gfacets : facets;
    if (!g) { new (cc) CtypeC(); new (cw) CtypeW(); }
    F[1] = (CtypeC*)cc; F[2] = (CtypeW*)cw; F[3] = new (g ? gc : pc) Put<char>(g); F[4] = new (g ? gw : pw) Put<wchar_t>(g);
    locale::_Impl* i = (locale::_Impl*)(g ? impl1 : impl0); i->_M_refcount = 1000; i->_M_facets = F; i->_M_facets_size = 9; i->_M_caches = nullptr; i->_M_names = nullptr;
  }
}
}
namespace std {
locale::locale() throw() { setup(); _M_impl = (_Impl*)impl0; }
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::locale(const char*) { setup(); _M_impl = (_Impl*)impl0; }
locale::locale(_Impl* p) throw() : _M_impl(p) {}
locale::locale(const locale& a, const locale& b, category c) : _M_impl((c & numeric) ? b._M_impl : a._M_impl) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale& o) const throw() { return _M_impl == o._M_impl; }
const locale& locale::classic() { setup(); static locale l; return l; }
string locale::name() const { return _M_impl == (_Impl*)impl0 ? "C" : "*"; }

ctype<char>::ctype(const mask* t, bool d, size_t r) : facet(r), _M_c_locale_ctype(), _M_del(d), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(t), _M_widen_ok(0), _M_narrow_ok(0) {}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; }
const char* ctype<char>::do_toupper(char* l, const char* h) const { while (l < h) { *l = do_toupper(*l); ++l; } return h; }
char ctype<char>::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
const char* ctype<char>::do_tolower(char* l, const char* h) const { while (l < h) { *l = do_tolower(*l); ++l; } return h; }
void ctype<char>::_M_widen_init() const { for (int i = 0; i < 256; i++) _M_widen[i] = (char)i; _M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { for (int i = 0; i < 256; i++) _M_narrow[i] = (char)i; _M_narrow_ok = 1; }
ctype<wchar_t>::ctype(size_t r) : __ctype_abstract_base<wchar_t>(r), _M_c_locale_ctype(), _M_narrow_ok(false) {}
ctype<wchar_t>::~ctype() {}
bool ctype<wchar_t>::do_is(mask m, wchar_t c) const { bool sp = c == ' ' || (c >= 9 && c <= 13), dg = c >= '0' && c <= '9', up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z'; return ((m & space) && sp) || ((m & digit) && dg) || ((m & upper) && up) || ((m & lower) && lo) || ((m & alpha) && (up || lo)); }
const wchar_t* ctype<wchar_t>::do_is(const wchar_t*, const wchar_t* h, mask*) const { return h; }
const wchar_t* ctype<wchar_t>::do_scan_is(mask m, const wchar_t* l, const wchar_t* h) const { while (l < h && !do_is(m, *l)) ++l; return l; }
const wchar_t* ctype<wchar_t>::do_scan_not(mask m, const wchar_t* l, const wchar_t* h) const { while (l < h && do_is(m, *l)) ++l; return l; }
wchar_t ctype<wchar_t>::do_toupper(wchar_t c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; }
const wchar_t* ctype<wchar_t>::do_toupper(wchar_t*, const wchar_t* h) const { return h; }
wchar_t ctype<wchar_t>::do_tolower(wchar_t c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
const wchar_t* ctype<wchar_t>::do_tolower(wchar_t*, const wchar_t* h) const { return h; }
wchar_t ctype<wchar_t>::do_widen(char c) const { return (wchar_t)(unsigned char)c; }
const char* ctype<wchar_t>::do_widen(const char* l, const char* h, wchar_t* d) const { while (l < h) *d++ = do_widen(*l++); return h; }
char ctype<wchar_t>::do_narrow(wchar_t c, char d) const { return c >= 0 && c < 128 ? (char)c : d; }
const wchar_t* ctype<wchar_t>::do_narrow(const wchar_t* l, const wchar_t* h, char d, char* o) const { while (l < h) *o++ = do_narrow(*l++, d); return h; }
}
extern "C" __attribute__((noinline, optnone)) void rt_parallel(void (*f)(void*), void* c) { __sx_freeze(1); f(c); __sx_freeze(0); }
extern "C" void rt_grouping_locale(void* loc) { setup(); ((locale*)loc)->_M_impl = (locale::_Impl*)impl1; }

// ------------------------------------------------------------------ C library
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
void* rt_memchr(const void* p, int c, size_t n) __asm__("memchr");
void* rt_memchr(const void* p, int c, size_t n) { const unsigned char* b = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (b[i] == (unsigned char)c) return (void*)(b + i); return nullptr; }
size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { memcpy(d, s, n * sizeof(wchar_t)); return d; }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) { memmove(d, s, n * sizeof(wchar_t)); return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
wchar_t* rt_wmemchr(const wchar_t* a, wchar_t c, size_t n) __asm__("wmemchr");
wchar_t* rt_wmemchr(const wchar_t* a, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] == c) return (wchar_t*)a + i; return nullptr; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int* __errno_location() noexcept { static int e; return &e; }
int vsnprintf(char* out, size_t cap, const char* f, va_list ap) {
  size_t n = 0; auto put = [&](char c) { if (cap && n < cap - 1) out[n] = c; n++; };
  for (; *f; f++) {
    if (*f != '%') { put(*f); continue; }
    f++; bool left = false, zero = false, plus = false, space = false, alt = false; int width = 0, prec = -1, len = 0;
    for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'h') len--; else if (*f == 'l') len++; else if (*f == 'z' || *f == 'j' || *f == 't') len = 2; else break; }
    char body[420]; int m = 0, sign = 0; const char* s = body; char conv = *f; if (!conv) break;
    switch (conv) {
      case '%': put('%'); continue;
      case 'c': body[m++] = (char)va_arg(ap, int); zero = false; break;
      case 's': s = va_arg(ap, const char*); while ((prec < 0 || m < prec) && s[m]) m++; zero = false; break;
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
        unsigned long long v; bool neg = false, sg = conv == 'd' || conv == 'i';
        if (conv == 'p') { v = (unsigned long long)va_arg(ap, void*); alt = true; }
        else if (len > 0) v = va_arg(ap, unsigned long long);
        else { unsigned u = va_arg(ap, unsigned); if (len == -1) u = sg ? (unsigned)(int)(short)u : (unsigned short)u; else if (len < -1) u = sg ? (unsigned)(int)(signed char)u : (unsigned char)u; v = sg ? (unsigned long long)(long long)(int)u : u; }
        if (sg && (long long)v < 0) { neg = true; v = 0 - v; }
        if (neg) body[m++] = '-'; else if (sg && plus) body[m++] = '+'; else if (sg && space) body[m++] = ' ';
        if (alt && v && (conv == 'x' || conv == 'X' || conv == 'p')) { body[m++] = '0'; body[m++] = conv == 'X' ? 'X' : 'x'; }
        sign = m; char d[72]; int k = 0; const unsigned b = conv == 'o' ? 8 : (conv == 'x' || conv == 'X' || conv == 'p') ? 16 : 10;
        if (b == 10 && __sx_is_symbolic(v)) {
          unsigned long long p = 10; k = 1; while (k < 20 && v >= p) { k++; if (k < 20) p *= 10; }
          unsigned long long h = 0; for (int i = k; i-- > 0;) { unsigned char g = (unsigned char)__sx_sym(8, "rt.digit"); __sx_assume(g >= '0' && g <= '9'); d[i] = (char)g; h = h * 10 + (g - '0'); }
          if (k == 20) __sx_assume(d[k - 1] == '1');
          if (k > 1) __sx_assume(d[k - 1] != '0');
          __sx_assume(h == v);
        } else for (; v; v /= b) { unsigned g = (unsigned)(v % b); d[k++] = (char)(g < 10 ? '0' + g : (conv == 'X' ? 'A' : 'a') + (g - 10)); }
        if (!k && prec != 0) d[k++] = '0';
        while (k < prec && k < 70) d[k++] = '0';
        if (prec >= 0) zero = false;
        while (k) body[m++] = d[--k];
        break; }
      case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': case 'a': case 'A': {
        double v = va_arg(ap, double); char fm[10]; int q = 0; fm[q++] = '%'; if (plus) fm[q++] = '+'; if (space) fm[q++] = ' '; if (alt) fm[q++] = '#'; fm[q++] = '.'; fm[q++] = '*'; fm[q++] = conv; fm[q] = 0;
        m = __sx_fmt_double(body, sizeof body, fm, prec, v); sign = (m && (body[0] == '-' || body[0] == '+' || body[0] == ' ')) ? 1 : 0; break; }
      default: __sx_terminate("printf conversion");
    }
    int pad = width > m ? width - m : 0; int i = 0;
    if (!left && !zero) for (; pad; pad--) put(' ');
    if (!left && zero) { for (; i < sign; i++) put(s[i]); for (; pad; pad--) put('0'); }
    for (; i < m; i++) put(s[i]);
    for (; pad; pad--) put(' ');
  }
  if (cap) out[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
int snprintf(char* out, size_t cap, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsnprintf(out, cap, f, ap); va_end(ap); return n; }
int sprintf(char* out, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsnprintf(out, (size_t)1 << 30, f, ap); va_end(ap); return n; }
unsigned long long rt_strtoull(const char* s, char** end, int base, int sgn) {
  const char* p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) p++; bool neg = false; if (*p == '-' || *p == '+') neg = *p++ == '-';
  auto dig = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; };
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2]) < 16) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; bool any = false, over = false;
  for (; dig(*p) < base; p++) { unsigned long long t; if (__builtin_mul_overflow(v, (unsigned long long)base, &t) || __builtin_add_overflow(t, (unsigned long long)dig(*p), &v)) over = true; any = true; }
  if (end) *end = const_cast<char*>(any ? p : s);
  if (sgn) { const unsigned long long lim = neg ? 1ull << 63 : (1ull << 63) - 1; if (over || v > lim) { *__errno_location() = 34; return lim; } } else if (over) { *__errno_location() = 34; return ~0ull; }
  return neg ? 0 - v : v;
}
long long strtoll(const char* s, char** e, int b) noexcept { return (long long)rt_strtoull(s, e, b, 1); }
long strtol(const char* s, char** e, int b) noexcept { return (long)rt_strtoull(s, e, b, 1); }
unsigned long long strtoull(const char* s, char** e, int b) noexcept { return rt_strtoull(s, e, b, 0); }
unsigned long strtoul(const char* s, char** e, int b) noexcept { return (unsigned long)rt_strtoull(s, e, b, 0); }
int rt_atoi(const char* s) __asm__("atoi");
int rt_atoi(const char* s) { return (int)rt_strtoull(s, nullptr, 10, 1); }
double round(double x) { double t = __builtin_trunc(x); if (__builtin_fabs(x - t) >= 0.5) t += x < 0 ? -1.0 : 1.0; return t; }
double modf(double x, double* i) { double t = __builtin_trunc(x); *i = t; return x - t; }
double ldexp(double x, int e) { for (; e > 0; e--) x *= 2; for (; e < 0; e++) x *= 0.5; return x; }
double scalbn(double x, int e) { return ldexp(x, e); }
void __assert_fail(const char* e, const char*, unsigned, const char*) noexcept { __sx_terminate(e); }
// FILE model: a cursor over a buffer
struct RtFile { const void* data; size_t n, pos; int wide; int eof, err; int unget, has; int bad; };
void* rt_file(const void* d, size_t n, int wide) { RtFile* f = (RtFile*)__sx_malloc(sizeof(RtFile)); memset(f, 0, sizeof *f); f->data = d; f->n = n; f->wide = wide; return f; }
void* rt_file_failing(const void* d, size_t n, int wide) { RtFile* f = (RtFile*)rt_file(d, n, wide); f->bad = 1; return f; }
int rt_file_failed(void* f) { return ((RtFile*)f)->err; }
void rt_file_close(void* f) { __sx_free(f); }
int fgetc(FILE* fp) { RtFile* f = (RtFile*)fp; if (f->has) { f->has = 0; return f->unget; } if (f->pos >= f->n) { if (f->bad) { f->bad = 0; f->err = 1; } else f->eof = 1; return EOF; } return ((const unsigned char*)f->data)[f->pos++]; }
int getc(FILE* fp) { return fgetc(fp); }
int ungetc(int c, FILE* fp) { RtFile* f = (RtFile*)fp; if (c == EOF || f->has) return EOF; f->has = 1; f->unget = c & 0xff; f->eof = 0; return f->unget; }
wint_t fgetwc(FILE* fp) { RtFile* f = (RtFile*)fp; if (f->has) { f->has = 0; return (wint_t)f->unget; } if (f->pos >= f->n) { if (f->bad) { f->bad = 0; f->err = 1; } else f->eof = 1; return WEOF; } return ((const wchar_t*)f->data)[f->pos++]; }
wint_t getwc(FILE* fp) { return fgetwc(fp); }
wint_t ungetwc(wint_t c, FILE* fp) { RtFile* f = (RtFile*)fp; if (c == WEOF || f->has) return WEOF; f->has = 1; f->unget = (int)c; f->eof = 0; return c; }
int feof(FILE* fp) { return ((RtFile*)fp)->eof; }
int ferror(FILE* fp) { return ((RtFile*)fp)->err; }
char* fgets(char* s, int n, FILE* fp) { if (n <= 0) return nullptr; int i = 0; while (i < n - 1) { int c = fgetc(fp); if (c == EOF) break; s[i++] = (char)c; if (c == '\n') break; } if (!i) return nullptr; s[i] = 0; return s; }
wchar_t* fgetws(wchar_t* s, int n, FILE* fp) { if (n <= 0) return nullptr; int i = 0; while (i < n - 1) { wint_t c = fgetwc(fp); if (c == WEOF) break; s[i++] = (wchar_t)c; if (c == L'\n') break; } if (!i) return nullptr; s[i] = 0; return s; }
size_t fread(void* b, size_t sz, size_t n, FILE* fp) { size_t i = 0, t = sz * n; unsigned char* o = (unsigned char*)b; while (i < t) { int c = fgetc(fp); if (c == EOF) break; o[i++] = (unsigned char)c; } return sz ? i / sz : 0; }
}
extern "C" { extern char __libc_single_threaded; char __libc_single_threaded = 1; }   // libstdc++ asks it when it counts references
