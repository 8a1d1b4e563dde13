#pragma once
#ifdef SX_NATIVE
struct SxReg { SxReg(const char*, void (*)()); };
#define SX_ENTRY(n) extern "C" void n(); static SxReg sxreg_##n(#n, n); extern "C" void n()
#else
#define SX_ENTRY(n) extern "C" __attribute__((used)) void n()
#endif
