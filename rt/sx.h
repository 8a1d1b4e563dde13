// Interface between harnesses and the symbolic engine (or, in the native replay build, rt/native.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t __sx_sym(unsigned width, const char* name);     // fresh symbolic value
void __sx_assume(bool);
void __sx_assert(bool, const char*);
void __sx_fail(const char*);
void __sx_cover(const char*);
void __sx_observe(const char* tag, uint64_t v);
void __sx_observe_bytes(const char* tag, const void* p, size_t n);
uint64_t __sx_concretize(uint64_t);
bool __sx_is_symbolic(uint64_t);
int __sx_param(int);
void* __sx_malloc(size_t);
void __sx_free(void*);
uint64_t __sx_live();
uint64_t __sx_static_live();                            // heap objects reachable from the program's globals
void __sx_forget_leaks();
int __sx_engine();
void __sx_freeze(int on);
void __sx_init(int enter);
void __sx_unwind(void*) __attribute__((noreturn));
void __sx_terminate(const char*) __attribute__((noreturn));
int __sx_fmt_double(char* buf, size_t cap, const char* fmt, int prec, double v);
// runtime services, implemented both in rt/rt.cpp and rt/native.cpp
void rt_fail_alloc_at(uint64_t k);   // the k-th operator new from now (0-based) throws bad_alloc; ~0 = never
uint64_t rt_alloc_failed();          // how many injected failures happened
uint64_t rt_alloc_count();           // operator new calls since the last rt_fail_alloc_at
uint64_t rt_news();                  // storage currently obtained from operator new and not released
void* rt_file(const void* data, size_t n, int wide); // a FILE* that reads the n units
void* rt_file_failing(const void* data, size_t n, int wide); // reading fails after the n units
int rt_file_failed(void*);
void rt_file_close(void*);
void rt_parallel(void (*f)(void*), void* ctx);        // f runs while other threads may run it too
void rt_grouping_locale(void* loc);                  // std::locale with thousands grouping
}
