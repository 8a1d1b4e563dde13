// C24: structs with 1 to 50 bound fields (each count has its own macro). Generated once by hand-written script; plain code.
#include "gen.h"
template <class F> static bool fails(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
#define R_(i) REQUIRED(f##i)
#define O_(i) OPTIONAL(f##i, "k" #i)
struct S1 { int f1; int* all(int i) { int* a[] = { &f1 }; return a[i]; } CONFIGOR_BIND(json::value, S1, R_(1)) };
struct S2 { int f1, f2; int* all(int i) { int* a[] = { &f1, &f2 }; return a[i]; } CONFIGOR_BIND(json::value, S2, R_(1), R_(2)) };
struct S3 { int f1, f2, f3; int* all(int i) { int* a[] = { &f1, &f2, &f3 }; return a[i]; } CONFIGOR_BIND(json::value, S3, R_(1), R_(2), O_(3)) };
struct S4 { int f1, f2, f3, f4; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4 }; return a[i]; } CONFIGOR_BIND(json::value, S4, R_(1), R_(2), O_(3), R_(4)) };
struct S5 { int f1, f2, f3, f4, f5; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5 }; return a[i]; } CONFIGOR_BIND(json::value, S5, R_(1), R_(2), O_(3), R_(4), R_(5)) };
struct S6 { int f1, f2, f3, f4, f5, f6; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6 }; return a[i]; } CONFIGOR_BIND(json::value, S6, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6)) };
struct S7 { int f1, f2, f3, f4, f5, f6, f7; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7 }; return a[i]; } CONFIGOR_BIND(json::value, S7, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7)) };
struct S8 { int f1, f2, f3, f4, f5, f6, f7, f8; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8 }; return a[i]; } CONFIGOR_BIND(json::value, S8, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8)) };
struct S9 { int f1, f2, f3, f4, f5, f6, f7, f8, f9; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9 }; return a[i]; } CONFIGOR_BIND(json::value, S9, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9)) };
struct S10 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10 }; return a[i]; } CONFIGOR_BIND(json::value, S10, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10)) };
struct S11 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11 }; return a[i]; } CONFIGOR_BIND(json::value, S11, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11)) };
struct S12 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12 }; return a[i]; } CONFIGOR_BIND(json::value, S12, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12)) };
struct S13 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13 }; return a[i]; } CONFIGOR_BIND(json::value, S13, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13)) };
struct S14 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14 }; return a[i]; } CONFIGOR_BIND(json::value, S14, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14)) };
struct S15 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15 }; return a[i]; } CONFIGOR_BIND(json::value, S15, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15)) };
struct S16 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16 }; return a[i]; } CONFIGOR_BIND(json::value, S16, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16)) };
struct S17 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17 }; return a[i]; } CONFIGOR_BIND(json::value, S17, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17)) };
struct S18 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18 }; return a[i]; } CONFIGOR_BIND(json::value, S18, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18)) };
struct S19 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19 }; return a[i]; } CONFIGOR_BIND(json::value, S19, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19)) };
struct S20 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20 }; return a[i]; } CONFIGOR_BIND(json::value, S20, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20)) };
struct S21 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21 }; return a[i]; } CONFIGOR_BIND(json::value, S21, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21)) };
struct S22 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22 }; return a[i]; } CONFIGOR_BIND(json::value, S22, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22)) };
struct S23 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23 }; return a[i]; } CONFIGOR_BIND(json::value, S23, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23)) };
struct S24 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24 }; return a[i]; } CONFIGOR_BIND(json::value, S24, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24)) };
struct S25 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25 }; return a[i]; } CONFIGOR_BIND(json::value, S25, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25)) };
struct S26 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26 }; return a[i]; } CONFIGOR_BIND(json::value, S26, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26)) };
struct S27 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27 }; return a[i]; } CONFIGOR_BIND(json::value, S27, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27)) };
struct S28 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28 }; return a[i]; } CONFIGOR_BIND(json::value, S28, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28)) };
struct S29 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29 }; return a[i]; } CONFIGOR_BIND(json::value, S29, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29)) };
struct S30 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30 }; return a[i]; } CONFIGOR_BIND(json::value, S30, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30)) };
struct S31 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31 }; return a[i]; } CONFIGOR_BIND(json::value, S31, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31)) };
struct S32 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32 }; return a[i]; } CONFIGOR_BIND(json::value, S32, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31), R_(32)) };
struct S33 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33 }; return a[i]; } CONFIGOR_BIND(json::value, S33, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31), R_(32), O_(33)) };
struct S34 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34 }; return a[i]; } CONFIGOR_BIND(json::value, S34, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31), R_(32), O_(33), R_(34)) };
struct S35 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35 }; return a[i]; } CONFIGOR_BIND(json::value, S35, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31), R_(32), O_(33), R_(34), R_(35)) };
struct S36 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36 }; return a[i]; } CONFIGOR_BIND(json::value, S36, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31), R_(32), O_(33), R_(34), R_(35), O_(36)) };
struct S37 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37 }; return a[i]; } CONFIGOR_BIND(json::value, S37, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31), R_(32), O_(33), R_(34), R_(35), O_(36), R_(37)) };
struct S38 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38 }; return a[i]; } CONFIGOR_BIND(json::value, S38, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31), R_(32), O_(33), R_(34), R_(35), O_(36), R_(37), R_(38)) };
struct S39 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39 }; return a[i]; } CONFIGOR_BIND(json::value, S39, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31), R_(32), O_(33), R_(34), R_(35), O_(36), R_(37), R_(38), O_(39)) };
struct S40 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40 }; return a[i]; } CONFIGOR_BIND(json::value, S40, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31), R_(32), O_(33), R_(34), R_(35), O_(36), R_(37), R_(38), O_(39), R_(40)) };
struct S41 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41 }; return a[i]; } CONFIGOR_BIND(json::value, S41, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31), R_(32), O_(33), R_(34), R_(35), O_(36), R_(37), R_(38), O_(39), R_(40), R_(41)) };
struct S42 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42 }; return a[i]; } CONFIGOR_BIND(json::value, S42, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31), R_(32), O_(33), R_(34), R_(35), O_(36), R_(37), R_(38), O_(39), R_(40), R_(41), O_(42)) };
struct S43 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43 }; return a[i]; } CONFIGOR_BIND(json::value, S43, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31), R_(32), O_(33), R_(34), R_(35), O_(36), R_(37), R_(38), O_(39), R_(40), R_(41), O_(42), R_(43)) };
struct S44 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44 }; return a[i]; } CONFIGOR_BIND(json::value, S44, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31), R_(32), O_(33), R_(34), R_(35), O_(36), R_(37), R_(38), O_(39), R_(40), R_(41), O_(42), R_(43), R_(44)) };
struct S45 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45 }; return a[i]; } CONFIGOR_BIND(json::value, S45, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31), R_(32), O_(33), R_(34), R_(35), O_(36), R_(37), R_(38), O_(39), R_(40), R_(41), O_(42), R_(43), R_(44), O_(45)) };
struct S46 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46 }; return a[i]; } CONFIGOR_BIND(json::value, S46, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31), R_(32), O_(33), R_(34), R_(35), O_(36), R_(37), R_(38), O_(39), R_(40), R_(41), O_(42), R_(43), R_(44), O_(45), R_(46)) };
struct S47 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47 }; return a[i]; } CONFIGOR_BIND(json::value, S47, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31), R_(32), O_(33), R_(34), R_(35), O_(36), R_(37), R_(38), O_(39), R_(40), R_(41), O_(42), R_(43), R_(44), O_(45), R_(46), R_(47)) };
struct S48 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48 }; return a[i]; } CONFIGOR_BIND(json::value, S48, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31), R_(32), O_(33), R_(34), R_(35), O_(36), R_(37), R_(38), O_(39), R_(40), R_(41), O_(42), R_(43), R_(44), O_(45), R_(46), R_(47), O_(48)) };
struct S49 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49 }; return a[i]; } CONFIGOR_BIND(json::value, S49, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31), R_(32), O_(33), R_(34), R_(35), O_(36), R_(37), R_(38), O_(39), R_(40), R_(41), O_(42), R_(43), R_(44), O_(45), R_(46), R_(47), O_(48), R_(49)) };
struct S50 { int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50; int* all(int i) { int* a[] = { &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49, &f50 }; return a[i]; } CONFIGOR_BIND(json::value, S50, R_(1), R_(2), O_(3), R_(4), R_(5), O_(6), R_(7), R_(8), O_(9), R_(10), R_(11), O_(12), R_(13), R_(14), O_(15), R_(16), R_(17), O_(18), R_(19), R_(20), O_(21), R_(22), R_(23), O_(24), R_(25), R_(26), O_(27), R_(28), R_(29), O_(30), R_(31), R_(32), O_(33), R_(34), R_(35), O_(36), R_(37), R_(38), O_(39), R_(40), R_(41), O_(42), R_(43), R_(44), O_(45), R_(46), R_(47), O_(48), R_(49), R_(50)) };
static std::string key(int i) { char b[8]; int p = 0; b[p++] = i % 3 == 0 ? 'k' : 'f'; if (i >= 10) b[p++] = (char)('0' + i / 10); b[p++] = (char)('0' + i % 10); return std::string(b, (size_t)p); }
template <class S> static void run(int n) {
  S s = S(); for (int i = 0; i < n; i++) *s.all(i) = 1000 + i; int at = (int)choose((unsigned)n, "at"); int x = (int)sym(32, "x"); *s.all(at) = x; jv v = s; size_t want = 0;
  for (int i = 0; i < n; i++) { bool opt = (i + 1) % 3 == 0; bool there = v.data().object->count(key(i + 1)) == 1; bool w = !opt || i != at || x != 0; CHECK(there == w, "C24 a field is not stored under its key"); if (there) { want++; const jv& e = v.data().object->find(key(i + 1))->second; CHECK(e.is_integer() && e.data().integer == *s.all(i), "C24 a field is stored with another value"); } }
  CHECK(v.data().object->size() == want, "C24 a key that is not bound is stored"); S r = S(); from_value((const jv&)v, r); bool eq = true; for (int i = 0; i < n; i++) eq = eq & (*r.all(i) == *s.all(i)); CHECK(eq, "C24 converting back gives another struct");
  v.erase(key(at + 1)); bool opt = (at + 1) % 3 == 0; S q = S(); *q.all(at) = 77; CHECK(fails([&] { from_value((const jv&)v, q); }) == !opt, "C24 a missing key is treated wrongly"); if (opt) { eq = true; for (int i = 0; i < n; i++) eq = eq & (*q.all(i) == (i == at ? 77 : *s.all(i))); CHECK(eq, "C24 a missing optional key changes a field"); } __sx_cover("fields");
}
SX_ENTRY(bind_count) { switch (__sx_param(0)) {
  case 1: run<S1>(1); break;
  case 2: run<S2>(2); break;
  case 3: run<S3>(3); break;
  case 4: run<S4>(4); break;
  case 5: run<S5>(5); break;
  case 6: run<S6>(6); break;
  case 7: run<S7>(7); break;
  case 8: run<S8>(8); break;
  case 9: run<S9>(9); break;
  case 10: run<S10>(10); break;
  case 11: run<S11>(11); break;
  case 12: run<S12>(12); break;
  case 13: run<S13>(13); break;
  case 14: run<S14>(14); break;
  case 15: run<S15>(15); break;
  case 16: run<S16>(16); break;
  case 17: run<S17>(17); break;
  case 18: run<S18>(18); break;
  case 19: run<S19>(19); break;
  case 20: run<S20>(20); break;
  case 21: run<S21>(21); break;
  case 22: run<S22>(22); break;
  case 23: run<S23>(23); break;
  case 24: run<S24>(24); break;
  case 25: run<S25>(25); break;
  case 26: run<S26>(26); break;
  case 27: run<S27>(27); break;
  case 28: run<S28>(28); break;
  case 29: run<S29>(29); break;
  case 30: run<S30>(30); break;
  case 31: run<S31>(31); break;
  case 32: run<S32>(32); break;
  case 33: run<S33>(33); break;
  case 34: run<S34>(34); break;
  case 35: run<S35>(35); break;
  case 36: run<S36>(36); break;
  case 37: run<S37>(37); break;
  case 38: run<S38>(38); break;
  case 39: run<S39>(39); break;
  case 40: run<S40>(40); break;
  case 41: run<S41>(41); break;
  case 42: run<S42>(42); break;
  case 43: run<S43>(43); break;
  case 44: run<S44>(44); break;
  case 45: run<S45>(45); break;
  case 46: run<S46>(46); break;
  case 47: run<S47>(47); break;
  case 48: run<S48>(48); break;
  case 49: run<S49>(49); break;
  case 50: run<S50>(50); break;
} }
