// Native counterpart of the engine builtins and of rt.cpp: replays a trace (list of input values) against the
// real code linked with the real libstdc++, under AddressSanitizer and UndefinedBehaviorSanitizer.
#include "sx.h"
#include "entry.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <vector>
#include <map>
#include <locale>
#include <clocale>
#include <unistd.h>
#include <sys/socket.h>
#ifdef SX_THREADS
#include <thread>
#endif
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <link.h>
#include <algorithm>

extern "C" char __executable_start, etext;
static uint64_t fail_at = ~0ull, nalloc = 0, nfailed = 0; static int64_t nlive = 0;
// Counted blocks form a list; its links are stored inverted, so that the list is no root for reaches() below.
struct alignas(16) H { uint64_t counted, size; uintptr_t prev, next; };
static uintptr_t head = ~(uintptr_t)0; static uint64_t gen = 1;
static H* un(uintptr_t v) { return (H*)~v; }
#ifdef SX_THREADS
static const bool listed = false;   // a lock here would order the threads and hide their races
#else
static const bool listed = true;
#endif
static void* get(size_t n, void* ra) {
  bool mine = (char*)ra >= &__executable_start && (char*)ra < &etext;
  if (n > (4u << 20) && mine) return nullptr;
  if (mine) { if (nalloc++ == fail_at) { nfailed++; return nullptr; } nlive++; }
  H* h = (H*)malloc(n + sizeof(H)); h->counted = mine ? gen : 0; h->size = n;
  if (mine && listed) { h->prev = ~(uintptr_t)0; h->next = head; if (H* x = un(head)) x->prev = ~(uintptr_t)h; head = ~(uintptr_t)h; }
  return h + 1;
}
static void put(void* p) {
  if (!p) return; H* h = (H*)p - 1;
  if (h->counted && h->counted == gen) nlive--;
  if (h->counted && listed) { H *a = un(h->prev), *b = un(h->next); if (a) a->next = h->next; else head = h->next; if (b) b->prev = h->prev; }
  free(h);
}
// Blocks of this run that the program's static and thread-local objects own: reached from its writable data, conservatively.
struct Reach { H **idx, **q; bool* seen; size_t m = 0, nq = 0; uint64_t n = 0; };
__attribute__((no_sanitize("address", "thread", "undefined"))) static void scan(Reach& r, uintptr_t lo, uintptr_t hi) {
  for (uintptr_t p = (lo + 7) & ~(uintptr_t)7; p + 8 <= hi; p += 8) {
    uintptr_t v = *(volatile uintptr_t*)p; size_t a = 0, b = r.m;
    while (a < b) { size_t m = (a + b) / 2; if ((uintptr_t)(r.idx[m] + 1) <= v) a = m + 1; else b = m; }
    if (!a || r.seen[a - 1]) continue; H* h = r.idx[a - 1]; if (v > (uintptr_t)(h + 1) + h->size) continue;
    r.seen[a - 1] = true; r.q[r.nq++] = h; if (h->counted == gen) r.n++;
  }
}
static int roots(dl_phdr_info* i, size_t, void* d) {
  for (int k = 0; k < i->dlpi_phnum; k++) { auto& h = i->dlpi_phdr[k];
    if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) scan(*(Reach*)d, i->dlpi_addr + h.p_vaddr, i->dlpi_addr + h.p_vaddr + h.p_memsz);
    if (h.p_type == PT_TLS && i->dlpi_tls_data) scan(*(Reach*)d, (uintptr_t)i->dlpi_tls_data, (uintptr_t)i->dlpi_tls_data + h.p_memsz); }
  return 1;   // the main program only
}
static uint64_t static_live() {
  if (nlive <= 0) return 0;
  Reach r; for (H* h = un(head); h; h = un(h->next)) r.m++;
  r.idx = (H**)malloc(r.m * 8 + 8); r.q = (H**)malloc(r.m * 8 + 8); r.seen = (bool*)calloc(r.m + 1, 1);
  size_t i = 0; for (H* h = un(head); h; h = un(h->next)) r.idx[i++] = h;
  std::sort(r.idx, r.idx + r.m);
  dl_iterate_phdr(roots, &r);
  while (r.nq) { H* h = r.q[--r.nq]; scan(r, (uintptr_t)(h + 1), (uintptr_t)(h + 1) + h->size); }
  free(r.idx); free(r.q); free(r.seen); return r.n;
}
void* operator new(size_t n) { void* p = get(n, __builtin_return_address(0)); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = get(n, __builtin_return_address(0)); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, __builtin_return_address(0)); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }

struct In { char name[64]; unsigned w; uint64_t v; };
static In* ins; static size_t nins, cur; static int params[16]; static int nparams;
static FILE* out;
static void finish(int code) { fflush(out); _exit(code); }
extern "C" {
void rt_fail_alloc_at(uint64_t k) { fail_at = k; nalloc = 0; nfailed = 0; }
uint64_t rt_alloc_failed() { return nfailed; }
uint64_t rt_alloc_count() { return nalloc; }
static uint64_t owned() { return (uint64_t)(nlive - (int64_t)static_live()); }
uint64_t rt_news() { return owned(); }
uint64_t __sx_sym(unsigned w, const char* name) {
  while (cur < nins && !strncmp(ins[cur].name, "rt.", 3)) cur++;
  if (cur >= nins) { fprintf(out, "MISMATCH input %s not in trace\n", name); finish(21); }
  if (strcmp(ins[cur].name, name) || ins[cur].w != w) { fprintf(out, "MISMATCH input %s/%u, trace has %s/%u\n", name, w, ins[cur].name, ins[cur].w); finish(21); }
  return ins[cur++].v;
}
void __sx_assume(bool b) { if (!b) { fprintf(out, "ASSUME failed\n"); finish(20); } }
void __sx_assert(bool b, const char* m) { if (!b) { fprintf(out, "ASSERT %s\n", m); finish(10); } }
void __sx_fail(const char* m) { fprintf(out, "ASSERT %s\n", m); finish(10); }
void __sx_cover(const char*) {}
void __sx_observe(const char* t, uint64_t v) { fprintf(out, "%s=%llu\n", t, (unsigned long long)v); }
void __sx_observe_bytes(const char* t, const void* p, size_t n) { fprintf(out, "%s=", t); for (size_t i = 0; i < n; i++) fprintf(out, "%02x", ((const unsigned char*)p)[i]); fprintf(out, "\n"); }
uint64_t __sx_concretize(uint64_t v) { return v; }
bool __sx_is_symbolic(uint64_t) { return false; }
int __sx_param(int i) { return i < nparams ? params[i] : 0; }
uint64_t __sx_live() { return owned(); }
uint64_t __sx_static_live() { return static_live(); }
void __sx_forget_leaks() { nlive = 0; gen++; }
int __sx_engine() { return 0; }
static std::string units8(const void* d, size_t n, int wide) {   // wide reading goes through the locale's UTF-8 decoder
  if (!wide) return std::string((const char*)d, n);
  std::string u; for (size_t i = 0; i < n; i++) { uint32_t c = (uint32_t)((const wchar_t*)d)[i];
    if (c < 0x80) u += (char)c; else if (c < 0x800) { u += (char)(0xC0 | c >> 6); u += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { u += (char)(0xE0 | c >> 12); u += (char)(0x80 | (c >> 6 & 63)); u += (char)(0x80 | (c & 63)); }
    else { u += (char)(0xF0 | c >> 18); u += (char)(0x80 | (c >> 12 & 63)); u += (char)(0x80 | (c >> 6 & 63)); u += (char)(0x80 | (c & 63)); } }
  return u;
}
void* rt_file(const void* d, size_t n, int wide) {
  FILE* f = tmpfile(); int fd = fileno(f); std::string u = units8(d, n, wide);   // written below stdio, so that the stream has no orientation yet
  if (!u.empty() && write(fd, u.data(), u.size()) < 0) abort(); lseek(fd, 0, SEEK_SET); return f;
}
void* rt_file_failing(const void* d, size_t n, int wide) {   // a socket whose peer goes away without reading: ECONNRESET after the queued data
  int s[2]; std::string u = units8(d, n, wide); if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) abort();
  if (write(s[0], "x", 1) != 1 || (!u.empty() && write(s[1], u.data(), u.size()) < 0)) abort(); close(s[1]); return fdopen(s[0], "r");
}
void rt_parallel(void (*f)(void*), void* c) {
#ifdef SX_THREADS
  std::thread a([=] { for (int i = 0; i < 8; i++) f(c); }), b([=] { for (int i = 0; i < 8; i++) f(c); }); a.join(); b.join();
#else
  f(c);
#endif
}
int rt_file_failed(void* f) { return ferror((FILE*)f) != 0; }
void rt_file_close(void* f) { fclose((FILE*)f); }
struct Grp : std::numpunct<char> { char do_thousands_sep() const override { return ','; } std::string do_grouping() const override { return "\3"; } char do_decimal_point() const override { return ';'; } };
struct GrpW : std::numpunct<wchar_t> { wchar_t do_thousands_sep() const override { return L','; } std::string do_grouping() const override { return "\3"; } wchar_t do_decimal_point() const override { return L';'; } };
void rt_grouping_locale(void* l) { *(std::locale*)l = std::locale(std::locale(std::locale::classic(), new Grp), new GrpW); nlive -= 2; }
}
static std::vector<std::pair<const char*, void (*)()>>& entries() { static auto* e = new std::vector<std::pair<const char*, void (*)()>>; return *e; }
SxReg::SxReg(const char* n, void (*f)()) { entries().push_back({n, f}); }

// usage: native ENTRY P0,P1,.. TRACEFILE TIMEOUT   (TRACEFILE: traces separated by lines "--")
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  setlocale(LC_CTYPE, "C.UTF-8");
  void (*fn)() = nullptr; for (auto& e : entries()) if (!strcmp(e.first, argv[1])) fn = e.second;
  if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  for (char* p = strtok(argv[2], ","); p; p = strtok(nullptr, ",")) params[nparams++] = atoi(p);
  FILE* f = fopen(argv[3], "r"); if (!f) return 2;
  static In buf[65536]; ins = buf; out = stdout; char line[256]; int idx = 0; bool more = true;
  while (more) {
    nins = 0; cur = 0; more = false;
    while (fgets(line, sizeof line, f)) { if (!strncmp(line, "--", 2)) { more = true; break; } In& i = ins[nins++]; unsigned long long v; if (sscanf(line, "%63s %u %llu", i.name, &i.w, &v) != 3) { nins--; continue; } i.v = v; }
    if (!more) break;
    printf("TRACE %d\n", idx); fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); signal(SIGALRM, SIG_DFL); alarm(atoi(argv[4]));
      nlive = 0; gen++;
      try { fn(); } catch (std::exception& e) { fprintf(out, "UNCAUGHT %s\n", e.what()); finish(13); } catch (...) { fprintf(out, "UNCAUGHT\n"); finish(13); }
      nlive = (int64_t)owned(); if (nlive > 0) { fprintf(out, "LEAK %lld\n", (long long)nlive); finish(12); }
      finish(0);
    }
    int st; waitpid(p, &st, 0);
    printf("STATUS %d %s\n", WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st), WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "timeout" : ""); fflush(stdout);
    idx++;
  }
}
