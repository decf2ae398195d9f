// Selects the NEON code paths of the headers under test on a machine without NEON.
// Include after all standard headers and before any header under test.
#pragma once
#ifdef VERIF_NEON
#undef __AVX2__
#undef __AVX__
#undef __SSE4_2__
#undef __SSE4_1__
#undef __SSSE3__
#define __ARM_NEON 1
#if VERIF_NEON == 2
#define __aarch64__ 1
#endif
#endif
