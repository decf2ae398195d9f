// Generated by gen.py. Lane-by-lane definitions after the Arm reference, for execution on other machines.
#pragma once
#include <cstdint>

typedef float float32x4_t __attribute__((vector_size(16)));
typedef int8_t int8x16_t __attribute__((vector_size(16)));
typedef int16_t int16x8_t __attribute__((vector_size(16)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
typedef int64_t int64x2_t __attribute__((vector_size(16)));
typedef uint8_t uint8x16_t __attribute__((vector_size(16)));
typedef uint16_t uint16x8_t __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef uint64_t uint64x2_t __attribute__((vector_size(16)));
typedef int8_t int8x8_t __attribute__((vector_size(8)));
typedef uint8_t uint8x8_t __attribute__((vector_size(8)));
typedef int16_t int16x4_t __attribute__((vector_size(8)));
typedef uint16_t uint16x4_t __attribute__((vector_size(8)));
typedef int32_t int32x2_t __attribute__((vector_size(8)));
typedef uint32_t uint32x2_t __attribute__((vector_size(8)));
typedef float float32x2_t __attribute__((vector_size(8)));
struct int8x8x2_t { int8x8_t val[2]; };
struct uint8x8x2_t { uint8x8_t val[2]; };
#define VNE static inline __attribute__((always_inline))

VNE float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) {  float32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] + b[i]; return r; }
VNE float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) {  float32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] - b[i]; return r; }
VNE float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) {  float32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] * b[i]; return r; }
VNE float32x4_t vabsq_f32(float32x4_t a) {  float32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] < 0 ? -a[i] : a[i]; return r; }
VNE float32x4_t vnegq_f32(float32x4_t a) {  float32x4_t r; for (int i = 0; i < 4; ++i) r[i] = -a[i]; return r; }
VNE uint32x4_t vceqq_f32(float32x4_t a, float32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] == b[i] ? -1 : 0); return r; }
VNE uint32x4_t vcgtq_f32(float32x4_t a, float32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] > b[i] ? -1 : 0); return r; }
VNE uint32x4_t vcltq_f32(float32x4_t a, float32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] < b[i] ? -1 : 0); return r; }
VNE uint32x4_t vcleq_f32(float32x4_t a, float32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] <= b[i] ? -1 : 0); return r; }
VNE uint32x4_t vcgeq_f32(float32x4_t a, float32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] >= b[i] ? -1 : 0); return r; }
VNE float32x4_t vmaxq_f32(float32x4_t a, float32x4_t b) {  float32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VNE float32x4_t vminq_f32(float32x4_t a, float32x4_t b) {  float32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VNE float32x4_t vbslq_f32(uint32x4_t m, float32x4_t a, float32x4_t b) { return (float32x4_t)((m & (uint32x4_t)a) | (~m & (uint32x4_t)b)); }
VNE float32x4_t vdupq_n_f32(float a) {  float32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a; return r; }
#define vmovq_n_f32 vdupq_n_f32
VNE float32x4_t vld1q_f32(const float *p) { float32x4_t r; __builtin_memcpy(&r, p, 16); return r; }
VNE void vst1q_f32(float *p, float32x4_t a) { __builtin_memcpy(p, &a, 16); }
VNE float32x4_t vreinterpretq_f32_s8(int8x16_t a) { return (float32x4_t)a; }
VNE float32x4_t vreinterpretq_f32_s16(int16x8_t a) { return (float32x4_t)a; }
VNE float32x4_t vreinterpretq_f32_s32(int32x4_t a) { return (float32x4_t)a; }
VNE float32x4_t vreinterpretq_f32_s64(int64x2_t a) { return (float32x4_t)a; }
VNE float32x4_t vreinterpretq_f32_u8(uint8x16_t a) { return (float32x4_t)a; }
VNE float32x4_t vreinterpretq_f32_u16(uint16x8_t a) { return (float32x4_t)a; }
VNE float32x4_t vreinterpretq_f32_u32(uint32x4_t a) { return (float32x4_t)a; }
VNE float32x4_t vreinterpretq_f32_u64(uint64x2_t a) { return (float32x4_t)a; }
VNE float32x4_t vsetq_lane_f32(float x, float32x4_t a, int l) {  float32x4_t r; for (int i = 0; i < 4; ++i) r[i] = i == l ? x : a[i]; return r; }
VNE float vgetq_lane_f32(float32x4_t a, int l) { return a[l]; }
VNE float32x4_t vextq_f32(float32x4_t a, float32x4_t b, int s) {  float32x4_t r; for (int i = 0; i < 4; ++i) r[i] = i + s < 4 ? a[i + s] : b[i + s - 4]; return r; }
#ifdef __aarch64__
VNE uint32x4_t vceqzq_f32(float32x4_t a) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] == 0 ? -1 : 0); return r; }
VNE uint32x4_t vcgtzq_f32(float32x4_t a) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] > 0 ? -1 : 0); return r; }
VNE uint32x4_t vcltzq_f32(float32x4_t a) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] < 0 ? -1 : 0); return r; }
VNE uint32x4_t vclezq_f32(float32x4_t a) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] <= 0 ? -1 : 0); return r; }
VNE uint32x4_t vcgezq_f32(float32x4_t a) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] >= 0 ? -1 : 0); return r; }
VNE float vmaxvq_f32(float32x4_t a) { float r = a[0]; for (int i = 1; i < 4; ++i) r = a[i] > r ? a[i] : r; return r; }
VNE float vminvq_f32(float32x4_t a) { float r = a[0]; for (int i = 1; i < 4; ++i) r = a[i] < r ? a[i] : r; return r; }
#endif
VNE float32x2_t vget_low_f32(float32x4_t a) {  float32x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i]; return r; }
VNE float32x2_t vget_high_f32(float32x4_t a) {  float32x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i + 2]; return r; }
VNE float32x4_t vcombine_f32(float32x2_t a, float32x2_t b) {  float32x4_t r; for (int i = 0; i < 4; ++i) r[i] = i < 2 ? a[i] : b[i - 2]; return r; }
VNE int8x16_t vaddq_s8(int8x16_t a, int8x16_t b) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (int8_t)(uint8_t)((uint8_t)a[i] + (uint8_t)b[i]); return r; }
VNE int8x16_t vsubq_s8(int8x16_t a, int8x16_t b) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (int8_t)(uint8_t)((uint8_t)a[i] - (uint8_t)b[i]); return r; }
VNE int8x16_t vmulq_s8(int8x16_t a, int8x16_t b) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (int8_t)(uint8_t)((uint64_t)a[i] * (uint64_t)b[i]); return r; }
VNE int8x16_t vandq_s8(int8x16_t a, int8x16_t b) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = a[i] & b[i]; return r; }
VNE int8x16_t vorrq_s8(int8x16_t a, int8x16_t b) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = a[i] | b[i]; return r; }
VNE int8x16_t veorq_s8(int8x16_t a, int8x16_t b) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = a[i] ^ b[i]; return r; }
VNE int8x16_t vbicq_s8(int8x16_t a, int8x16_t b) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = a[i] & ~b[i]; return r; }
VNE int8x16_t vmvnq_s8(int8x16_t a) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = ~a[i]; return r; }
VNE int8x16_t vnegq_s8(int8x16_t a) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (int8_t)(uint8_t)(0 - (uint8_t)a[i]); return r; }
VNE int8x16_t vabsq_s8(int8x16_t a) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (int8_t)(uint8_t)(a[i] < 0 ? 0 - (uint8_t)a[i] : (uint8_t)a[i]); return r; }
VNE int8x16_t vqabsq_s8(int8x16_t a) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = a[i] == ((int8_t)(-((int8_t)(((uint8_t)-1) >> 1)) - 1)) ? ((int8_t)(((uint8_t)-1) >> 1)) : (int8_t)(a[i] < 0 ? -a[i] : a[i]); return r; }
VNE int8x16_t vqnegq_s8(int8x16_t a) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = a[i] == ((int8_t)(-((int8_t)(((uint8_t)-1) >> 1)) - 1)) ? ((int8_t)(((uint8_t)-1) >> 1)) : (int8_t)-a[i]; return r; }
VNE int8x16_t vqaddq_s8(int8x16_t a, int8x16_t b) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (int)a[i] + (int)b[i] > (int)((int8_t)(((uint8_t)-1) >> 1)) ? (int8_t)((int8_t)(((uint8_t)-1) >> 1)) : (int)a[i] + (int)b[i] < (int)((int8_t)(-((int8_t)(((uint8_t)-1) >> 1)) - 1)) ? (int8_t)((int8_t)(-((int8_t)(((uint8_t)-1) >> 1)) - 1)) : (int8_t)((int)a[i] + (int)b[i]); return r; }
VNE int8x16_t vqsubq_s8(int8x16_t a, int8x16_t b) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (int)a[i] - (int)b[i] > (int)((int8_t)(((uint8_t)-1) >> 1)) ? (int8_t)((int8_t)(((uint8_t)-1) >> 1)) : (int)a[i] - (int)b[i] < (int)((int8_t)(-((int8_t)(((uint8_t)-1) >> 1)) - 1)) ? (int8_t)((int8_t)(-((int8_t)(((uint8_t)-1) >> 1)) - 1)) : (int8_t)((int)a[i] - (int)b[i]); return r; }
VNE uint8x16_t vceqq_s8(int8x16_t a, int8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] == b[i] ? -1 : 0); return r; }
VNE uint8x16_t vcgtq_s8(int8x16_t a, int8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] > b[i] ? -1 : 0); return r; }
VNE uint8x16_t vcltq_s8(int8x16_t a, int8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] < b[i] ? -1 : 0); return r; }
VNE uint8x16_t vcleq_s8(int8x16_t a, int8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] <= b[i] ? -1 : 0); return r; }
VNE uint8x16_t vcgeq_s8(int8x16_t a, int8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] >= b[i] ? -1 : 0); return r; }
VNE int8x16_t vmaxq_s8(int8x16_t a, int8x16_t b) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VNE int8x16_t vminq_s8(int8x16_t a, int8x16_t b) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VNE int8x16_t vbslq_s8(uint8x16_t m, int8x16_t a, int8x16_t b) { return (int8x16_t)((m & (uint8x16_t)a) | (~m & (uint8x16_t)b)); }
VNE int8x16_t vdupq_n_s8(int8_t a) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = a; return r; }
#define vmovq_n_s8 vdupq_n_s8
VNE int8x16_t vld1q_s8(const int8_t *p) { int8x16_t r; __builtin_memcpy(&r, p, 16); return r; }
VNE void vst1q_s8(int8_t *p, int8x16_t a) { __builtin_memcpy(p, &a, 16); }
VNE int8x16_t vshlq_n_s8(int8x16_t a, int s) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (int8_t)((uint8_t)a[i] << s); return r; }
VNE int8x16_t vshrq_n_s8(int8x16_t a, int s) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (int8_t)(a[i] >> s); return r; }
VNE int8x16_t vreinterpretq_s8_f32(float32x4_t a) { return (int8x16_t)a; }
VNE int8x16_t vreinterpretq_s8_s16(int16x8_t a) { return (int8x16_t)a; }
VNE int8x16_t vreinterpretq_s8_s32(int32x4_t a) { return (int8x16_t)a; }
VNE int8x16_t vreinterpretq_s8_s64(int64x2_t a) { return (int8x16_t)a; }
VNE int8x16_t vreinterpretq_s8_u8(uint8x16_t a) { return (int8x16_t)a; }
VNE int8x16_t vreinterpretq_s8_u16(uint16x8_t a) { return (int8x16_t)a; }
VNE int8x16_t vreinterpretq_s8_u32(uint32x4_t a) { return (int8x16_t)a; }
VNE int8x16_t vreinterpretq_s8_u64(uint64x2_t a) { return (int8x16_t)a; }
VNE int8x16_t vsetq_lane_s8(int8_t x, int8x16_t a, int l) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = i == l ? x : a[i]; return r; }
VNE int8_t vgetq_lane_s8(int8x16_t a, int l) { return a[l]; }
VNE int8x16_t vextq_s8(int8x16_t a, int8x16_t b, int s) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = i + s < 16 ? a[i + s] : b[i + s - 16]; return r; }
VNE int8x16_t vornq_s8(int8x16_t a, int8x16_t b) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = a[i] | ~b[i]; return r; }
VNE uint8x16_t vtstq_s8(int8x16_t a, int8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] & b[i] ? -1 : 0); return r; }
VNE int8x16_t vabdq_s8(int8x16_t a, int8x16_t b) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (int8_t)(a[i] > b[i] ? (uint8_t)a[i] - (uint8_t)b[i] : (uint8_t)b[i] - (uint8_t)a[i]); return r; }
VNE int8x16_t vmlaq_s8(int8x16_t a, int8x16_t b, int8x16_t e) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (int8_t)(uint8_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)e[i]); return r; }
VNE int8x16_t vmlsq_s8(int8x16_t a, int8x16_t b, int8x16_t e) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (int8_t)(uint8_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)e[i]); return r; }
#ifdef __aarch64__
VNE uint8x16_t vceqzq_s8(int8x16_t a) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] == 0 ? -1 : 0); return r; }
VNE uint8x16_t vcgtzq_s8(int8x16_t a) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] > 0 ? -1 : 0); return r; }
VNE uint8x16_t vcltzq_s8(int8x16_t a) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] < 0 ? -1 : 0); return r; }
VNE uint8x16_t vclezq_s8(int8x16_t a) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] <= 0 ? -1 : 0); return r; }
VNE uint8x16_t vcgezq_s8(int8x16_t a) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] >= 0 ? -1 : 0); return r; }
VNE int8_t vmaxvq_s8(int8x16_t a) { int8_t r = a[0]; for (int i = 1; i < 16; ++i) r = a[i] > r ? a[i] : r; return r; }
VNE int8_t vminvq_s8(int8x16_t a) { int8_t r = a[0]; for (int i = 1; i < 16; ++i) r = a[i] < r ? a[i] : r; return r; }
VNE int8_t vaddvq_s8(int8x16_t a) { uint8_t r = 0; for (int i = 0; i < 16; ++i) r += (uint8_t)a[i]; return (int8_t)r; }
#endif
VNE int8x8_t vget_low_s8(int8x16_t a) {  int8x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i]; return r; }
VNE int8x8_t vget_high_s8(int8x16_t a) {  int8x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i + 8]; return r; }
VNE int8x16_t vcombine_s8(int8x8_t a, int8x8_t b) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = i < 8 ? a[i] : b[i - 8]; return r; }
VNE int16x8_t vaddq_s16(int16x8_t a, int16x8_t b) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (int16_t)(uint16_t)((uint16_t)a[i] + (uint16_t)b[i]); return r; }
VNE int16x8_t vsubq_s16(int16x8_t a, int16x8_t b) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (int16_t)(uint16_t)((uint16_t)a[i] - (uint16_t)b[i]); return r; }
VNE int16x8_t vmulq_s16(int16x8_t a, int16x8_t b) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (int16_t)(uint16_t)((uint64_t)a[i] * (uint64_t)b[i]); return r; }
VNE int16x8_t vandq_s16(int16x8_t a, int16x8_t b) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i] & b[i]; return r; }
VNE int16x8_t vorrq_s16(int16x8_t a, int16x8_t b) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i] | b[i]; return r; }
VNE int16x8_t veorq_s16(int16x8_t a, int16x8_t b) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i] ^ b[i]; return r; }
VNE int16x8_t vbicq_s16(int16x8_t a, int16x8_t b) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i] & ~b[i]; return r; }
VNE int16x8_t vmvnq_s16(int16x8_t a) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = ~a[i]; return r; }
VNE int16x8_t vnegq_s16(int16x8_t a) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (int16_t)(uint16_t)(0 - (uint16_t)a[i]); return r; }
VNE int16x8_t vabsq_s16(int16x8_t a) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (int16_t)(uint16_t)(a[i] < 0 ? 0 - (uint16_t)a[i] : (uint16_t)a[i]); return r; }
VNE int16x8_t vqabsq_s16(int16x8_t a) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i] == ((int16_t)(-((int16_t)(((uint16_t)-1) >> 1)) - 1)) ? ((int16_t)(((uint16_t)-1) >> 1)) : (int16_t)(a[i] < 0 ? -a[i] : a[i]); return r; }
VNE int16x8_t vqnegq_s16(int16x8_t a) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i] == ((int16_t)(-((int16_t)(((uint16_t)-1) >> 1)) - 1)) ? ((int16_t)(((uint16_t)-1) >> 1)) : (int16_t)-a[i]; return r; }
VNE int16x8_t vqaddq_s16(int16x8_t a, int16x8_t b) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (int)a[i] + (int)b[i] > (int)((int16_t)(((uint16_t)-1) >> 1)) ? (int16_t)((int16_t)(((uint16_t)-1) >> 1)) : (int)a[i] + (int)b[i] < (int)((int16_t)(-((int16_t)(((uint16_t)-1) >> 1)) - 1)) ? (int16_t)((int16_t)(-((int16_t)(((uint16_t)-1) >> 1)) - 1)) : (int16_t)((int)a[i] + (int)b[i]); return r; }
VNE int16x8_t vqsubq_s16(int16x8_t a, int16x8_t b) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (int)a[i] - (int)b[i] > (int)((int16_t)(((uint16_t)-1) >> 1)) ? (int16_t)((int16_t)(((uint16_t)-1) >> 1)) : (int)a[i] - (int)b[i] < (int)((int16_t)(-((int16_t)(((uint16_t)-1) >> 1)) - 1)) ? (int16_t)((int16_t)(-((int16_t)(((uint16_t)-1) >> 1)) - 1)) : (int16_t)((int)a[i] - (int)b[i]); return r; }
VNE uint16x8_t vceqq_s16(int16x8_t a, int16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] == b[i] ? -1 : 0); return r; }
VNE uint16x8_t vcgtq_s16(int16x8_t a, int16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] > b[i] ? -1 : 0); return r; }
VNE uint16x8_t vcltq_s16(int16x8_t a, int16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] < b[i] ? -1 : 0); return r; }
VNE uint16x8_t vcleq_s16(int16x8_t a, int16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] <= b[i] ? -1 : 0); return r; }
VNE uint16x8_t vcgeq_s16(int16x8_t a, int16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] >= b[i] ? -1 : 0); return r; }
VNE int16x8_t vmaxq_s16(int16x8_t a, int16x8_t b) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VNE int16x8_t vminq_s16(int16x8_t a, int16x8_t b) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VNE int16x8_t vbslq_s16(uint16x8_t m, int16x8_t a, int16x8_t b) { return (int16x8_t)((m & (uint16x8_t)a) | (~m & (uint16x8_t)b)); }
VNE int16x8_t vdupq_n_s16(int16_t a) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = a; return r; }
#define vmovq_n_s16 vdupq_n_s16
VNE int16x8_t vld1q_s16(const int16_t *p) { int16x8_t r; __builtin_memcpy(&r, p, 16); return r; }
VNE void vst1q_s16(int16_t *p, int16x8_t a) { __builtin_memcpy(p, &a, 16); }
VNE int16x8_t vshlq_n_s16(int16x8_t a, int s) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (int16_t)((uint16_t)a[i] << s); return r; }
VNE int16x8_t vshrq_n_s16(int16x8_t a, int s) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (int16_t)(a[i] >> s); return r; }
VNE int16x8_t vreinterpretq_s16_f32(float32x4_t a) { return (int16x8_t)a; }
VNE int16x8_t vreinterpretq_s16_s8(int8x16_t a) { return (int16x8_t)a; }
VNE int16x8_t vreinterpretq_s16_s32(int32x4_t a) { return (int16x8_t)a; }
VNE int16x8_t vreinterpretq_s16_s64(int64x2_t a) { return (int16x8_t)a; }
VNE int16x8_t vreinterpretq_s16_u8(uint8x16_t a) { return (int16x8_t)a; }
VNE int16x8_t vreinterpretq_s16_u16(uint16x8_t a) { return (int16x8_t)a; }
VNE int16x8_t vreinterpretq_s16_u32(uint32x4_t a) { return (int16x8_t)a; }
VNE int16x8_t vreinterpretq_s16_u64(uint64x2_t a) { return (int16x8_t)a; }
VNE int16x8_t vsetq_lane_s16(int16_t x, int16x8_t a, int l) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = i == l ? x : a[i]; return r; }
VNE int16_t vgetq_lane_s16(int16x8_t a, int l) { return a[l]; }
VNE int16x8_t vextq_s16(int16x8_t a, int16x8_t b, int s) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = i + s < 8 ? a[i + s] : b[i + s - 8]; return r; }
VNE int16x8_t vornq_s16(int16x8_t a, int16x8_t b) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i] | ~b[i]; return r; }
VNE uint16x8_t vtstq_s16(int16x8_t a, int16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] & b[i] ? -1 : 0); return r; }
VNE int16x8_t vabdq_s16(int16x8_t a, int16x8_t b) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (int16_t)(a[i] > b[i] ? (uint16_t)a[i] - (uint16_t)b[i] : (uint16_t)b[i] - (uint16_t)a[i]); return r; }
VNE int16x8_t vmlaq_s16(int16x8_t a, int16x8_t b, int16x8_t e) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (int16_t)(uint16_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)e[i]); return r; }
VNE int16x8_t vmlsq_s16(int16x8_t a, int16x8_t b, int16x8_t e) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (int16_t)(uint16_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)e[i]); return r; }
#ifdef __aarch64__
VNE uint16x8_t vceqzq_s16(int16x8_t a) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] == 0 ? -1 : 0); return r; }
VNE uint16x8_t vcgtzq_s16(int16x8_t a) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] > 0 ? -1 : 0); return r; }
VNE uint16x8_t vcltzq_s16(int16x8_t a) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] < 0 ? -1 : 0); return r; }
VNE uint16x8_t vclezq_s16(int16x8_t a) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] <= 0 ? -1 : 0); return r; }
VNE uint16x8_t vcgezq_s16(int16x8_t a) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] >= 0 ? -1 : 0); return r; }
VNE int16_t vmaxvq_s16(int16x8_t a) { int16_t r = a[0]; for (int i = 1; i < 8; ++i) r = a[i] > r ? a[i] : r; return r; }
VNE int16_t vminvq_s16(int16x8_t a) { int16_t r = a[0]; for (int i = 1; i < 8; ++i) r = a[i] < r ? a[i] : r; return r; }
VNE int16_t vaddvq_s16(int16x8_t a) { uint16_t r = 0; for (int i = 0; i < 8; ++i) r += (uint16_t)a[i]; return (int16_t)r; }
#endif
VNE int16x4_t vget_low_s16(int16x8_t a) {  int16x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i]; return r; }
VNE int16x4_t vget_high_s16(int16x8_t a) {  int16x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i + 4]; return r; }
VNE int16x8_t vcombine_s16(int16x4_t a, int16x4_t b) {  int16x8_t r; for (int i = 0; i < 8; ++i) r[i] = i < 4 ? a[i] : b[i - 4]; return r; }
VNE int32x4_t vaddq_s32(int32x4_t a, int32x4_t b) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (int32_t)(uint32_t)((uint32_t)a[i] + (uint32_t)b[i]); return r; }
VNE int32x4_t vsubq_s32(int32x4_t a, int32x4_t b) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (int32_t)(uint32_t)((uint32_t)a[i] - (uint32_t)b[i]); return r; }
VNE int32x4_t vmulq_s32(int32x4_t a, int32x4_t b) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (int32_t)(uint32_t)((uint64_t)a[i] * (uint64_t)b[i]); return r; }
VNE int32x4_t vandq_s32(int32x4_t a, int32x4_t b) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] & b[i]; return r; }
VNE int32x4_t vorrq_s32(int32x4_t a, int32x4_t b) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] | b[i]; return r; }
VNE int32x4_t veorq_s32(int32x4_t a, int32x4_t b) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] ^ b[i]; return r; }
VNE int32x4_t vbicq_s32(int32x4_t a, int32x4_t b) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] & ~b[i]; return r; }
VNE int32x4_t vmvnq_s32(int32x4_t a) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = ~a[i]; return r; }
VNE int32x4_t vnegq_s32(int32x4_t a) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (int32_t)(uint32_t)(0 - (uint32_t)a[i]); return r; }
VNE int32x4_t vabsq_s32(int32x4_t a) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (int32_t)(uint32_t)(a[i] < 0 ? 0 - (uint32_t)a[i] : (uint32_t)a[i]); return r; }
VNE int32x4_t vqabsq_s32(int32x4_t a) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] == ((int32_t)(-((int32_t)(((uint32_t)-1) >> 1)) - 1)) ? ((int32_t)(((uint32_t)-1) >> 1)) : (int32_t)(a[i] < 0 ? -a[i] : a[i]); return r; }
VNE int32x4_t vqnegq_s32(int32x4_t a) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] == ((int32_t)(-((int32_t)(((uint32_t)-1) >> 1)) - 1)) ? ((int32_t)(((uint32_t)-1) >> 1)) : (int32_t)-a[i]; return r; }
VNE int32x4_t vqaddq_s32(int32x4_t a, int32x4_t b) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (int64_t)a[i] + (int64_t)b[i] > (int64_t)((int32_t)(((uint32_t)-1) >> 1)) ? (int32_t)((int32_t)(((uint32_t)-1) >> 1)) : (int64_t)a[i] + (int64_t)b[i] < (int64_t)((int32_t)(-((int32_t)(((uint32_t)-1) >> 1)) - 1)) ? (int32_t)((int32_t)(-((int32_t)(((uint32_t)-1) >> 1)) - 1)) : (int32_t)((int64_t)a[i] + (int64_t)b[i]); return r; }
VNE int32x4_t vqsubq_s32(int32x4_t a, int32x4_t b) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (int64_t)a[i] - (int64_t)b[i] > (int64_t)((int32_t)(((uint32_t)-1) >> 1)) ? (int32_t)((int32_t)(((uint32_t)-1) >> 1)) : (int64_t)a[i] - (int64_t)b[i] < (int64_t)((int32_t)(-((int32_t)(((uint32_t)-1) >> 1)) - 1)) ? (int32_t)((int32_t)(-((int32_t)(((uint32_t)-1) >> 1)) - 1)) : (int32_t)((int64_t)a[i] - (int64_t)b[i]); return r; }
VNE uint32x4_t vceqq_s32(int32x4_t a, int32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] == b[i] ? -1 : 0); return r; }
VNE uint32x4_t vcgtq_s32(int32x4_t a, int32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] > b[i] ? -1 : 0); return r; }
VNE uint32x4_t vcltq_s32(int32x4_t a, int32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] < b[i] ? -1 : 0); return r; }
VNE uint32x4_t vcleq_s32(int32x4_t a, int32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] <= b[i] ? -1 : 0); return r; }
VNE uint32x4_t vcgeq_s32(int32x4_t a, int32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] >= b[i] ? -1 : 0); return r; }
VNE int32x4_t vmaxq_s32(int32x4_t a, int32x4_t b) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VNE int32x4_t vminq_s32(int32x4_t a, int32x4_t b) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VNE int32x4_t vbslq_s32(uint32x4_t m, int32x4_t a, int32x4_t b) { return (int32x4_t)((m & (uint32x4_t)a) | (~m & (uint32x4_t)b)); }
VNE int32x4_t vdupq_n_s32(int32_t a) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a; return r; }
#define vmovq_n_s32 vdupq_n_s32
VNE int32x4_t vld1q_s32(const int32_t *p) { int32x4_t r; __builtin_memcpy(&r, p, 16); return r; }
VNE void vst1q_s32(int32_t *p, int32x4_t a) { __builtin_memcpy(p, &a, 16); }
VNE int32x4_t vshlq_n_s32(int32x4_t a, int s) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (int32_t)((uint32_t)a[i] << s); return r; }
VNE int32x4_t vshrq_n_s32(int32x4_t a, int s) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (int32_t)(a[i] >> s); return r; }
VNE int32x4_t vreinterpretq_s32_f32(float32x4_t a) { return (int32x4_t)a; }
VNE int32x4_t vreinterpretq_s32_s8(int8x16_t a) { return (int32x4_t)a; }
VNE int32x4_t vreinterpretq_s32_s16(int16x8_t a) { return (int32x4_t)a; }
VNE int32x4_t vreinterpretq_s32_s64(int64x2_t a) { return (int32x4_t)a; }
VNE int32x4_t vreinterpretq_s32_u8(uint8x16_t a) { return (int32x4_t)a; }
VNE int32x4_t vreinterpretq_s32_u16(uint16x8_t a) { return (int32x4_t)a; }
VNE int32x4_t vreinterpretq_s32_u32(uint32x4_t a) { return (int32x4_t)a; }
VNE int32x4_t vreinterpretq_s32_u64(uint64x2_t a) { return (int32x4_t)a; }
VNE int32x4_t vsetq_lane_s32(int32_t x, int32x4_t a, int l) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = i == l ? x : a[i]; return r; }
VNE int32_t vgetq_lane_s32(int32x4_t a, int l) { return a[l]; }
VNE int32x4_t vextq_s32(int32x4_t a, int32x4_t b, int s) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = i + s < 4 ? a[i + s] : b[i + s - 4]; return r; }
VNE int32x4_t vornq_s32(int32x4_t a, int32x4_t b) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] | ~b[i]; return r; }
VNE uint32x4_t vtstq_s32(int32x4_t a, int32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] & b[i] ? -1 : 0); return r; }
VNE int32x4_t vabdq_s32(int32x4_t a, int32x4_t b) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (int32_t)(a[i] > b[i] ? (uint32_t)a[i] - (uint32_t)b[i] : (uint32_t)b[i] - (uint32_t)a[i]); return r; }
VNE int32x4_t vmlaq_s32(int32x4_t a, int32x4_t b, int32x4_t e) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (int32_t)(uint32_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)e[i]); return r; }
VNE int32x4_t vmlsq_s32(int32x4_t a, int32x4_t b, int32x4_t e) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (int32_t)(uint32_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)e[i]); return r; }
#ifdef __aarch64__
VNE uint32x4_t vceqzq_s32(int32x4_t a) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] == 0 ? -1 : 0); return r; }
VNE uint32x4_t vcgtzq_s32(int32x4_t a) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] > 0 ? -1 : 0); return r; }
VNE uint32x4_t vcltzq_s32(int32x4_t a) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] < 0 ? -1 : 0); return r; }
VNE uint32x4_t vclezq_s32(int32x4_t a) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] <= 0 ? -1 : 0); return r; }
VNE uint32x4_t vcgezq_s32(int32x4_t a) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] >= 0 ? -1 : 0); return r; }
VNE int32_t vmaxvq_s32(int32x4_t a) { int32_t r = a[0]; for (int i = 1; i < 4; ++i) r = a[i] > r ? a[i] : r; return r; }
VNE int32_t vminvq_s32(int32x4_t a) { int32_t r = a[0]; for (int i = 1; i < 4; ++i) r = a[i] < r ? a[i] : r; return r; }
VNE int32_t vaddvq_s32(int32x4_t a) { uint32_t r = 0; for (int i = 0; i < 4; ++i) r += (uint32_t)a[i]; return (int32_t)r; }
#endif
VNE int32x2_t vget_low_s32(int32x4_t a) {  int32x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i]; return r; }
VNE int32x2_t vget_high_s32(int32x4_t a) {  int32x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i + 2]; return r; }
VNE int32x4_t vcombine_s32(int32x2_t a, int32x2_t b) {  int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = i < 2 ? a[i] : b[i - 2]; return r; }
VNE int64x2_t vaddq_s64(int64x2_t a, int64x2_t b) {  int64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (int64_t)(uint64_t)((uint64_t)a[i] + (uint64_t)b[i]); return r; }
VNE int64x2_t vsubq_s64(int64x2_t a, int64x2_t b) {  int64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (int64_t)(uint64_t)((uint64_t)a[i] - (uint64_t)b[i]); return r; }
VNE int64x2_t vandq_s64(int64x2_t a, int64x2_t b) {  int64x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i] & b[i]; return r; }
VNE int64x2_t vorrq_s64(int64x2_t a, int64x2_t b) {  int64x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i] | b[i]; return r; }
VNE int64x2_t veorq_s64(int64x2_t a, int64x2_t b) {  int64x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i] ^ b[i]; return r; }
VNE int64x2_t vbicq_s64(int64x2_t a, int64x2_t b) {  int64x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i] & ~b[i]; return r; }
VNE int64x2_t vmvnq_s64(int64x2_t a) {  int64x2_t r; for (int i = 0; i < 2; ++i) r[i] = ~a[i]; return r; }
VNE int64x2_t vnegq_s64(int64x2_t a) {  int64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (int64_t)(uint64_t)(0 - (uint64_t)a[i]); return r; }
VNE int64x2_t vabsq_s64(int64x2_t a) {  int64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (int64_t)(uint64_t)(a[i] < 0 ? 0 - (uint64_t)a[i] : (uint64_t)a[i]); return r; }
VNE int64x2_t vqabsq_s64(int64x2_t a) {  int64x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i] == ((int64_t)(-((int64_t)(((uint64_t)-1) >> 1)) - 1)) ? ((int64_t)(((uint64_t)-1) >> 1)) : (int64_t)(a[i] < 0 ? -a[i] : a[i]); return r; }
VNE int64x2_t vqnegq_s64(int64x2_t a) {  int64x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i] == ((int64_t)(-((int64_t)(((uint64_t)-1) >> 1)) - 1)) ? ((int64_t)(((uint64_t)-1) >> 1)) : (int64_t)-a[i]; return r; }
VNE int64x2_t vqaddq_s64(int64x2_t a, int64x2_t b) {  int64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (__int128)a[i] + (__int128)b[i] > (__int128)((int64_t)(((uint64_t)-1) >> 1)) ? (int64_t)((int64_t)(((uint64_t)-1) >> 1)) : (__int128)a[i] + (__int128)b[i] < (__int128)((int64_t)(-((int64_t)(((uint64_t)-1) >> 1)) - 1)) ? (int64_t)((int64_t)(-((int64_t)(((uint64_t)-1) >> 1)) - 1)) : (int64_t)((__int128)a[i] + (__int128)b[i]); return r; }
VNE int64x2_t vqsubq_s64(int64x2_t a, int64x2_t b) {  int64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (__int128)a[i] - (__int128)b[i] > (__int128)((int64_t)(((uint64_t)-1) >> 1)) ? (int64_t)((int64_t)(((uint64_t)-1) >> 1)) : (__int128)a[i] - (__int128)b[i] < (__int128)((int64_t)(-((int64_t)(((uint64_t)-1) >> 1)) - 1)) ? (int64_t)((int64_t)(-((int64_t)(((uint64_t)-1) >> 1)) - 1)) : (int64_t)((__int128)a[i] - (__int128)b[i]); return r; }
VNE uint64x2_t vceqq_s64(int64x2_t a, int64x2_t b) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)(a[i] == b[i] ? -1 : 0); return r; }
VNE uint64x2_t vcgtq_s64(int64x2_t a, int64x2_t b) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)(a[i] > b[i] ? -1 : 0); return r; }
VNE uint64x2_t vcltq_s64(int64x2_t a, int64x2_t b) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)(a[i] < b[i] ? -1 : 0); return r; }
VNE uint64x2_t vcleq_s64(int64x2_t a, int64x2_t b) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)(a[i] <= b[i] ? -1 : 0); return r; }
VNE uint64x2_t vcgeq_s64(int64x2_t a, int64x2_t b) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)(a[i] >= b[i] ? -1 : 0); return r; }
VNE int64x2_t vbslq_s64(uint64x2_t m, int64x2_t a, int64x2_t b) { return (int64x2_t)((m & (uint64x2_t)a) | (~m & (uint64x2_t)b)); }
VNE int64x2_t vdupq_n_s64(int64_t a) {  int64x2_t r; for (int i = 0; i < 2; ++i) r[i] = a; return r; }
#define vmovq_n_s64 vdupq_n_s64
VNE int64x2_t vld1q_s64(const int64_t *p) { int64x2_t r; __builtin_memcpy(&r, p, 16); return r; }
VNE void vst1q_s64(int64_t *p, int64x2_t a) { __builtin_memcpy(p, &a, 16); }
VNE int64x2_t vshlq_n_s64(int64x2_t a, int s) {  int64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (int64_t)((uint64_t)a[i] << s); return r; }
VNE int64x2_t vshrq_n_s64(int64x2_t a, int s) {  int64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (int64_t)(a[i] >> s); return r; }
VNE int64x2_t vreinterpretq_s64_f32(float32x4_t a) { return (int64x2_t)a; }
VNE int64x2_t vreinterpretq_s64_s8(int8x16_t a) { return (int64x2_t)a; }
VNE int64x2_t vreinterpretq_s64_s16(int16x8_t a) { return (int64x2_t)a; }
VNE int64x2_t vreinterpretq_s64_s32(int32x4_t a) { return (int64x2_t)a; }
VNE int64x2_t vreinterpretq_s64_u8(uint8x16_t a) { return (int64x2_t)a; }
VNE int64x2_t vreinterpretq_s64_u16(uint16x8_t a) { return (int64x2_t)a; }
VNE int64x2_t vreinterpretq_s64_u32(uint32x4_t a) { return (int64x2_t)a; }
VNE int64x2_t vreinterpretq_s64_u64(uint64x2_t a) { return (int64x2_t)a; }
VNE int64x2_t vsetq_lane_s64(int64_t x, int64x2_t a, int l) {  int64x2_t r; for (int i = 0; i < 2; ++i) r[i] = i == l ? x : a[i]; return r; }
VNE int64_t vgetq_lane_s64(int64x2_t a, int l) { return a[l]; }
VNE int64x2_t vextq_s64(int64x2_t a, int64x2_t b, int s) {  int64x2_t r; for (int i = 0; i < 2; ++i) r[i] = i + s < 2 ? a[i + s] : b[i + s - 2]; return r; }
VNE int64x2_t vornq_s64(int64x2_t a, int64x2_t b) {  int64x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i] | ~b[i]; return r; }
#ifdef __aarch64__
VNE uint64x2_t vceqzq_s64(int64x2_t a) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)(a[i] == 0 ? -1 : 0); return r; }
VNE uint64x2_t vcgtzq_s64(int64x2_t a) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)(a[i] > 0 ? -1 : 0); return r; }
VNE uint64x2_t vcltzq_s64(int64x2_t a) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)(a[i] < 0 ? -1 : 0); return r; }
VNE uint64x2_t vclezq_s64(int64x2_t a) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)(a[i] <= 0 ? -1 : 0); return r; }
VNE uint64x2_t vcgezq_s64(int64x2_t a) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)(a[i] >= 0 ? -1 : 0); return r; }
VNE int64_t vaddvq_s64(int64x2_t a) { uint64_t r = 0; for (int i = 0; i < 2; ++i) r += (uint64_t)a[i]; return (int64_t)r; }
#endif
VNE uint8x16_t vaddq_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(uint8_t)((uint8_t)a[i] + (uint8_t)b[i]); return r; }
VNE uint8x16_t vsubq_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(uint8_t)((uint8_t)a[i] - (uint8_t)b[i]); return r; }
VNE uint8x16_t vmulq_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(uint8_t)((uint64_t)a[i] * (uint64_t)b[i]); return r; }
VNE uint8x16_t vandq_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = a[i] & b[i]; return r; }
VNE uint8x16_t vorrq_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = a[i] | b[i]; return r; }
VNE uint8x16_t veorq_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = a[i] ^ b[i]; return r; }
VNE uint8x16_t vbicq_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = a[i] & ~b[i]; return r; }
VNE uint8x16_t vmvnq_u8(uint8x16_t a) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = ~a[i]; return r; }
VNE uint8x16_t vqaddq_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (int)a[i] + (int)b[i] > (int)((uint8_t)-1) ? (uint8_t)((uint8_t)-1) : (int)a[i] + (int)b[i] < (int)0 ? (uint8_t)0 : (uint8_t)((int)a[i] + (int)b[i]); return r; }
VNE uint8x16_t vqsubq_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (int)a[i] - (int)b[i] > (int)((uint8_t)-1) ? (uint8_t)((uint8_t)-1) : (int)a[i] - (int)b[i] < (int)0 ? (uint8_t)0 : (uint8_t)((int)a[i] - (int)b[i]); return r; }
VNE uint8x16_t vceqq_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] == b[i] ? -1 : 0); return r; }
VNE uint8x16_t vcgtq_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] > b[i] ? -1 : 0); return r; }
VNE uint8x16_t vcltq_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] < b[i] ? -1 : 0); return r; }
VNE uint8x16_t vcleq_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] <= b[i] ? -1 : 0); return r; }
VNE uint8x16_t vcgeq_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] >= b[i] ? -1 : 0); return r; }
VNE uint8x16_t vmaxq_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VNE uint8x16_t vminq_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VNE uint8x16_t vbslq_u8(uint8x16_t m, uint8x16_t a, uint8x16_t b) { return (uint8x16_t)((m & (uint8x16_t)a) | (~m & (uint8x16_t)b)); }
VNE uint8x16_t vdupq_n_u8(uint8_t a) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = a; return r; }
#define vmovq_n_u8 vdupq_n_u8
VNE uint8x16_t vld1q_u8(const uint8_t *p) { uint8x16_t r; __builtin_memcpy(&r, p, 16); return r; }
VNE void vst1q_u8(uint8_t *p, uint8x16_t a) { __builtin_memcpy(p, &a, 16); }
VNE uint8x16_t vshlq_n_u8(uint8x16_t a, int s) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)((uint8_t)a[i] << s); return r; }
VNE uint8x16_t vshrq_n_u8(uint8x16_t a, int s) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] >> s); return r; }
VNE uint8x16_t vreinterpretq_u8_f32(float32x4_t a) { return (uint8x16_t)a; }
VNE uint8x16_t vreinterpretq_u8_s8(int8x16_t a) { return (uint8x16_t)a; }
VNE uint8x16_t vreinterpretq_u8_s16(int16x8_t a) { return (uint8x16_t)a; }
VNE uint8x16_t vreinterpretq_u8_s32(int32x4_t a) { return (uint8x16_t)a; }
VNE uint8x16_t vreinterpretq_u8_s64(int64x2_t a) { return (uint8x16_t)a; }
VNE uint8x16_t vreinterpretq_u8_u16(uint16x8_t a) { return (uint8x16_t)a; }
VNE uint8x16_t vreinterpretq_u8_u32(uint32x4_t a) { return (uint8x16_t)a; }
VNE uint8x16_t vreinterpretq_u8_u64(uint64x2_t a) { return (uint8x16_t)a; }
VNE uint8x16_t vsetq_lane_u8(uint8_t x, uint8x16_t a, int l) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = i == l ? x : a[i]; return r; }
VNE uint8_t vgetq_lane_u8(uint8x16_t a, int l) { return a[l]; }
VNE uint8x16_t vextq_u8(uint8x16_t a, uint8x16_t b, int s) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = i + s < 16 ? a[i + s] : b[i + s - 16]; return r; }
VNE uint8x16_t vornq_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = a[i] | ~b[i]; return r; }
VNE uint8x16_t vtstq_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] & b[i] ? -1 : 0); return r; }
VNE uint8x16_t vabdq_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] > b[i] ? (uint8_t)a[i] - (uint8_t)b[i] : (uint8_t)b[i] - (uint8_t)a[i]); return r; }
VNE uint8x16_t vmlaq_u8(uint8x16_t a, uint8x16_t b, uint8x16_t e) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(uint8_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)e[i]); return r; }
VNE uint8x16_t vmlsq_u8(uint8x16_t a, uint8x16_t b, uint8x16_t e) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(uint8_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)e[i]); return r; }
#ifdef __aarch64__
VNE uint8x16_t vceqzq_u8(uint8x16_t a) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(a[i] == 0 ? -1 : 0); return r; }
VNE uint8_t vmaxvq_u8(uint8x16_t a) { uint8_t r = a[0]; for (int i = 1; i < 16; ++i) r = a[i] > r ? a[i] : r; return r; }
VNE uint8_t vminvq_u8(uint8x16_t a) { uint8_t r = a[0]; for (int i = 1; i < 16; ++i) r = a[i] < r ? a[i] : r; return r; }
VNE uint8_t vaddvq_u8(uint8x16_t a) { uint8_t r = 0; for (int i = 0; i < 16; ++i) r += (uint8_t)a[i]; return (uint8_t)r; }
#endif
VNE uint8x8_t vget_low_u8(uint8x16_t a) {  uint8x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i]; return r; }
VNE uint8x8_t vget_high_u8(uint8x16_t a) {  uint8x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i + 8]; return r; }
VNE uint8x16_t vcombine_u8(uint8x8_t a, uint8x8_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = i < 8 ? a[i] : b[i - 8]; return r; }
VNE uint16x8_t vaddq_u16(uint16x8_t a, uint16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(uint16_t)((uint16_t)a[i] + (uint16_t)b[i]); return r; }
VNE uint16x8_t vsubq_u16(uint16x8_t a, uint16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(uint16_t)((uint16_t)a[i] - (uint16_t)b[i]); return r; }
VNE uint16x8_t vmulq_u16(uint16x8_t a, uint16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(uint16_t)((uint64_t)a[i] * (uint64_t)b[i]); return r; }
VNE uint16x8_t vandq_u16(uint16x8_t a, uint16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i] & b[i]; return r; }
VNE uint16x8_t vorrq_u16(uint16x8_t a, uint16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i] | b[i]; return r; }
VNE uint16x8_t veorq_u16(uint16x8_t a, uint16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i] ^ b[i]; return r; }
VNE uint16x8_t vbicq_u16(uint16x8_t a, uint16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i] & ~b[i]; return r; }
VNE uint16x8_t vmvnq_u16(uint16x8_t a) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = ~a[i]; return r; }
VNE uint16x8_t vqaddq_u16(uint16x8_t a, uint16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (int)a[i] + (int)b[i] > (int)((uint16_t)-1) ? (uint16_t)((uint16_t)-1) : (int)a[i] + (int)b[i] < (int)0 ? (uint16_t)0 : (uint16_t)((int)a[i] + (int)b[i]); return r; }
VNE uint16x8_t vqsubq_u16(uint16x8_t a, uint16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (int)a[i] - (int)b[i] > (int)((uint16_t)-1) ? (uint16_t)((uint16_t)-1) : (int)a[i] - (int)b[i] < (int)0 ? (uint16_t)0 : (uint16_t)((int)a[i] - (int)b[i]); return r; }
VNE uint16x8_t vceqq_u16(uint16x8_t a, uint16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] == b[i] ? -1 : 0); return r; }
VNE uint16x8_t vcgtq_u16(uint16x8_t a, uint16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] > b[i] ? -1 : 0); return r; }
VNE uint16x8_t vcltq_u16(uint16x8_t a, uint16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] < b[i] ? -1 : 0); return r; }
VNE uint16x8_t vcleq_u16(uint16x8_t a, uint16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] <= b[i] ? -1 : 0); return r; }
VNE uint16x8_t vcgeq_u16(uint16x8_t a, uint16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] >= b[i] ? -1 : 0); return r; }
VNE uint16x8_t vmaxq_u16(uint16x8_t a, uint16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VNE uint16x8_t vminq_u16(uint16x8_t a, uint16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VNE uint16x8_t vbslq_u16(uint16x8_t m, uint16x8_t a, uint16x8_t b) { return (uint16x8_t)((m & (uint16x8_t)a) | (~m & (uint16x8_t)b)); }
VNE uint16x8_t vdupq_n_u16(uint16_t a) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = a; return r; }
#define vmovq_n_u16 vdupq_n_u16
VNE uint16x8_t vld1q_u16(const uint16_t *p) { uint16x8_t r; __builtin_memcpy(&r, p, 16); return r; }
VNE void vst1q_u16(uint16_t *p, uint16x8_t a) { __builtin_memcpy(p, &a, 16); }
VNE uint16x8_t vshlq_n_u16(uint16x8_t a, int s) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)((uint16_t)a[i] << s); return r; }
VNE uint16x8_t vshrq_n_u16(uint16x8_t a, int s) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] >> s); return r; }
VNE uint16x8_t vreinterpretq_u16_f32(float32x4_t a) { return (uint16x8_t)a; }
VNE uint16x8_t vreinterpretq_u16_s8(int8x16_t a) { return (uint16x8_t)a; }
VNE uint16x8_t vreinterpretq_u16_s16(int16x8_t a) { return (uint16x8_t)a; }
VNE uint16x8_t vreinterpretq_u16_s32(int32x4_t a) { return (uint16x8_t)a; }
VNE uint16x8_t vreinterpretq_u16_s64(int64x2_t a) { return (uint16x8_t)a; }
VNE uint16x8_t vreinterpretq_u16_u8(uint8x16_t a) { return (uint16x8_t)a; }
VNE uint16x8_t vreinterpretq_u16_u32(uint32x4_t a) { return (uint16x8_t)a; }
VNE uint16x8_t vreinterpretq_u16_u64(uint64x2_t a) { return (uint16x8_t)a; }
VNE uint16x8_t vsetq_lane_u16(uint16_t x, uint16x8_t a, int l) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = i == l ? x : a[i]; return r; }
VNE uint16_t vgetq_lane_u16(uint16x8_t a, int l) { return a[l]; }
VNE uint16x8_t vextq_u16(uint16x8_t a, uint16x8_t b, int s) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = i + s < 8 ? a[i + s] : b[i + s - 8]; return r; }
VNE uint16x8_t vornq_u16(uint16x8_t a, uint16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = a[i] | ~b[i]; return r; }
VNE uint16x8_t vtstq_u16(uint16x8_t a, uint16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] & b[i] ? -1 : 0); return r; }
VNE uint16x8_t vabdq_u16(uint16x8_t a, uint16x8_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] > b[i] ? (uint16_t)a[i] - (uint16_t)b[i] : (uint16_t)b[i] - (uint16_t)a[i]); return r; }
VNE uint16x8_t vmlaq_u16(uint16x8_t a, uint16x8_t b, uint16x8_t e) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(uint16_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)e[i]); return r; }
VNE uint16x8_t vmlsq_u16(uint16x8_t a, uint16x8_t b, uint16x8_t e) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(uint16_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)e[i]); return r; }
#ifdef __aarch64__
VNE uint16x8_t vceqzq_u16(uint16x8_t a) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint16_t)(a[i] == 0 ? -1 : 0); return r; }
VNE uint16_t vmaxvq_u16(uint16x8_t a) { uint16_t r = a[0]; for (int i = 1; i < 8; ++i) r = a[i] > r ? a[i] : r; return r; }
VNE uint16_t vminvq_u16(uint16x8_t a) { uint16_t r = a[0]; for (int i = 1; i < 8; ++i) r = a[i] < r ? a[i] : r; return r; }
VNE uint16_t vaddvq_u16(uint16x8_t a) { uint16_t r = 0; for (int i = 0; i < 8; ++i) r += (uint16_t)a[i]; return (uint16_t)r; }
#endif
VNE uint16x4_t vget_low_u16(uint16x8_t a) {  uint16x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i]; return r; }
VNE uint16x4_t vget_high_u16(uint16x8_t a) {  uint16x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i + 4]; return r; }
VNE uint16x8_t vcombine_u16(uint16x4_t a, uint16x4_t b) {  uint16x8_t r; for (int i = 0; i < 8; ++i) r[i] = i < 4 ? a[i] : b[i - 4]; return r; }
VNE uint32x4_t vaddq_u32(uint32x4_t a, uint32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(uint32_t)((uint32_t)a[i] + (uint32_t)b[i]); return r; }
VNE uint32x4_t vsubq_u32(uint32x4_t a, uint32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(uint32_t)((uint32_t)a[i] - (uint32_t)b[i]); return r; }
VNE uint32x4_t vmulq_u32(uint32x4_t a, uint32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(uint32_t)((uint64_t)a[i] * (uint64_t)b[i]); return r; }
VNE uint32x4_t vandq_u32(uint32x4_t a, uint32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] & b[i]; return r; }
VNE uint32x4_t vorrq_u32(uint32x4_t a, uint32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] | b[i]; return r; }
VNE uint32x4_t veorq_u32(uint32x4_t a, uint32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] ^ b[i]; return r; }
VNE uint32x4_t vbicq_u32(uint32x4_t a, uint32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] & ~b[i]; return r; }
VNE uint32x4_t vmvnq_u32(uint32x4_t a) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = ~a[i]; return r; }
VNE uint32x4_t vqaddq_u32(uint32x4_t a, uint32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (int64_t)a[i] + (int64_t)b[i] > (int64_t)((uint32_t)-1) ? (uint32_t)((uint32_t)-1) : (int64_t)a[i] + (int64_t)b[i] < (int64_t)0 ? (uint32_t)0 : (uint32_t)((int64_t)a[i] + (int64_t)b[i]); return r; }
VNE uint32x4_t vqsubq_u32(uint32x4_t a, uint32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (int64_t)a[i] - (int64_t)b[i] > (int64_t)((uint32_t)-1) ? (uint32_t)((uint32_t)-1) : (int64_t)a[i] - (int64_t)b[i] < (int64_t)0 ? (uint32_t)0 : (uint32_t)((int64_t)a[i] - (int64_t)b[i]); return r; }
VNE uint32x4_t vceqq_u32(uint32x4_t a, uint32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] == b[i] ? -1 : 0); return r; }
VNE uint32x4_t vcgtq_u32(uint32x4_t a, uint32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] > b[i] ? -1 : 0); return r; }
VNE uint32x4_t vcltq_u32(uint32x4_t a, uint32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] < b[i] ? -1 : 0); return r; }
VNE uint32x4_t vcleq_u32(uint32x4_t a, uint32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] <= b[i] ? -1 : 0); return r; }
VNE uint32x4_t vcgeq_u32(uint32x4_t a, uint32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] >= b[i] ? -1 : 0); return r; }
VNE uint32x4_t vmaxq_u32(uint32x4_t a, uint32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VNE uint32x4_t vminq_u32(uint32x4_t a, uint32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VNE uint32x4_t vbslq_u32(uint32x4_t m, uint32x4_t a, uint32x4_t b) { return (uint32x4_t)((m & (uint32x4_t)a) | (~m & (uint32x4_t)b)); }
VNE uint32x4_t vdupq_n_u32(uint32_t a) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a; return r; }
#define vmovq_n_u32 vdupq_n_u32
VNE uint32x4_t vld1q_u32(const uint32_t *p) { uint32x4_t r; __builtin_memcpy(&r, p, 16); return r; }
VNE void vst1q_u32(uint32_t *p, uint32x4_t a) { __builtin_memcpy(p, &a, 16); }
VNE uint32x4_t vshlq_n_u32(uint32x4_t a, int s) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)((uint32_t)a[i] << s); return r; }
VNE uint32x4_t vshrq_n_u32(uint32x4_t a, int s) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] >> s); return r; }
VNE uint32x4_t vreinterpretq_u32_f32(float32x4_t a) { return (uint32x4_t)a; }
VNE uint32x4_t vreinterpretq_u32_s8(int8x16_t a) { return (uint32x4_t)a; }
VNE uint32x4_t vreinterpretq_u32_s16(int16x8_t a) { return (uint32x4_t)a; }
VNE uint32x4_t vreinterpretq_u32_s32(int32x4_t a) { return (uint32x4_t)a; }
VNE uint32x4_t vreinterpretq_u32_s64(int64x2_t a) { return (uint32x4_t)a; }
VNE uint32x4_t vreinterpretq_u32_u8(uint8x16_t a) { return (uint32x4_t)a; }
VNE uint32x4_t vreinterpretq_u32_u16(uint16x8_t a) { return (uint32x4_t)a; }
VNE uint32x4_t vreinterpretq_u32_u64(uint64x2_t a) { return (uint32x4_t)a; }
VNE uint32x4_t vsetq_lane_u32(uint32_t x, uint32x4_t a, int l) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = i == l ? x : a[i]; return r; }
VNE uint32_t vgetq_lane_u32(uint32x4_t a, int l) { return a[l]; }
VNE uint32x4_t vextq_u32(uint32x4_t a, uint32x4_t b, int s) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = i + s < 4 ? a[i + s] : b[i + s - 4]; return r; }
VNE uint32x4_t vornq_u32(uint32x4_t a, uint32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = a[i] | ~b[i]; return r; }
VNE uint32x4_t vtstq_u32(uint32x4_t a, uint32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] & b[i] ? -1 : 0); return r; }
VNE uint32x4_t vabdq_u32(uint32x4_t a, uint32x4_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] > b[i] ? (uint32_t)a[i] - (uint32_t)b[i] : (uint32_t)b[i] - (uint32_t)a[i]); return r; }
VNE uint32x4_t vmlaq_u32(uint32x4_t a, uint32x4_t b, uint32x4_t e) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(uint32_t)((uint64_t)a[i] + (uint64_t)b[i] * (uint64_t)e[i]); return r; }
VNE uint32x4_t vmlsq_u32(uint32x4_t a, uint32x4_t b, uint32x4_t e) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(uint32_t)((uint64_t)a[i] - (uint64_t)b[i] * (uint64_t)e[i]); return r; }
#ifdef __aarch64__
VNE uint32x4_t vceqzq_u32(uint32x4_t a) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = (uint32_t)(a[i] == 0 ? -1 : 0); return r; }
VNE uint32_t vmaxvq_u32(uint32x4_t a) { uint32_t r = a[0]; for (int i = 1; i < 4; ++i) r = a[i] > r ? a[i] : r; return r; }
VNE uint32_t vminvq_u32(uint32x4_t a) { uint32_t r = a[0]; for (int i = 1; i < 4; ++i) r = a[i] < r ? a[i] : r; return r; }
VNE uint32_t vaddvq_u32(uint32x4_t a) { uint32_t r = 0; for (int i = 0; i < 4; ++i) r += (uint32_t)a[i]; return (uint32_t)r; }
#endif
VNE uint32x2_t vget_low_u32(uint32x4_t a) {  uint32x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i]; return r; }
VNE uint32x2_t vget_high_u32(uint32x4_t a) {  uint32x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i + 2]; return r; }
VNE uint32x4_t vcombine_u32(uint32x2_t a, uint32x2_t b) {  uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = i < 2 ? a[i] : b[i - 2]; return r; }
VNE uint64x2_t vaddq_u64(uint64x2_t a, uint64x2_t b) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)(uint64_t)((uint64_t)a[i] + (uint64_t)b[i]); return r; }
VNE uint64x2_t vsubq_u64(uint64x2_t a, uint64x2_t b) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)(uint64_t)((uint64_t)a[i] - (uint64_t)b[i]); return r; }
VNE uint64x2_t vandq_u64(uint64x2_t a, uint64x2_t b) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i] & b[i]; return r; }
VNE uint64x2_t vorrq_u64(uint64x2_t a, uint64x2_t b) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i] | b[i]; return r; }
VNE uint64x2_t veorq_u64(uint64x2_t a, uint64x2_t b) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i] ^ b[i]; return r; }
VNE uint64x2_t vbicq_u64(uint64x2_t a, uint64x2_t b) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i] & ~b[i]; return r; }
VNE uint64x2_t vmvnq_u64(uint64x2_t a) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = ~a[i]; return r; }
VNE uint64x2_t vqaddq_u64(uint64x2_t a, uint64x2_t b) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (__int128)a[i] + (__int128)b[i] > (__int128)((uint64_t)-1) ? (uint64_t)((uint64_t)-1) : (__int128)a[i] + (__int128)b[i] < (__int128)0 ? (uint64_t)0 : (uint64_t)((__int128)a[i] + (__int128)b[i]); return r; }
VNE uint64x2_t vqsubq_u64(uint64x2_t a, uint64x2_t b) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (__int128)a[i] - (__int128)b[i] > (__int128)((uint64_t)-1) ? (uint64_t)((uint64_t)-1) : (__int128)a[i] - (__int128)b[i] < (__int128)0 ? (uint64_t)0 : (uint64_t)((__int128)a[i] - (__int128)b[i]); return r; }
VNE uint64x2_t vceqq_u64(uint64x2_t a, uint64x2_t b) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)(a[i] == b[i] ? -1 : 0); return r; }
VNE uint64x2_t vcgtq_u64(uint64x2_t a, uint64x2_t b) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)(a[i] > b[i] ? -1 : 0); return r; }
VNE uint64x2_t vcltq_u64(uint64x2_t a, uint64x2_t b) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)(a[i] < b[i] ? -1 : 0); return r; }
VNE uint64x2_t vcleq_u64(uint64x2_t a, uint64x2_t b) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)(a[i] <= b[i] ? -1 : 0); return r; }
VNE uint64x2_t vcgeq_u64(uint64x2_t a, uint64x2_t b) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)(a[i] >= b[i] ? -1 : 0); return r; }
VNE uint64x2_t vbslq_u64(uint64x2_t m, uint64x2_t a, uint64x2_t b) { return (uint64x2_t)((m & (uint64x2_t)a) | (~m & (uint64x2_t)b)); }
VNE uint64x2_t vdupq_n_u64(uint64_t a) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = a; return r; }
#define vmovq_n_u64 vdupq_n_u64
VNE uint64x2_t vld1q_u64(const uint64_t *p) { uint64x2_t r; __builtin_memcpy(&r, p, 16); return r; }
VNE void vst1q_u64(uint64_t *p, uint64x2_t a) { __builtin_memcpy(p, &a, 16); }
VNE uint64x2_t vshlq_n_u64(uint64x2_t a, int s) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)((uint64_t)a[i] << s); return r; }
VNE uint64x2_t vshrq_n_u64(uint64x2_t a, int s) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)(a[i] >> s); return r; }
VNE uint64x2_t vreinterpretq_u64_f32(float32x4_t a) { return (uint64x2_t)a; }
VNE uint64x2_t vreinterpretq_u64_s8(int8x16_t a) { return (uint64x2_t)a; }
VNE uint64x2_t vreinterpretq_u64_s16(int16x8_t a) { return (uint64x2_t)a; }
VNE uint64x2_t vreinterpretq_u64_s32(int32x4_t a) { return (uint64x2_t)a; }
VNE uint64x2_t vreinterpretq_u64_s64(int64x2_t a) { return (uint64x2_t)a; }
VNE uint64x2_t vreinterpretq_u64_u8(uint8x16_t a) { return (uint64x2_t)a; }
VNE uint64x2_t vreinterpretq_u64_u16(uint16x8_t a) { return (uint64x2_t)a; }
VNE uint64x2_t vreinterpretq_u64_u32(uint32x4_t a) { return (uint64x2_t)a; }
VNE uint64x2_t vsetq_lane_u64(uint64_t x, uint64x2_t a, int l) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = i == l ? x : a[i]; return r; }
VNE uint64_t vgetq_lane_u64(uint64x2_t a, int l) { return a[l]; }
VNE uint64x2_t vextq_u64(uint64x2_t a, uint64x2_t b, int s) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = i + s < 2 ? a[i + s] : b[i + s - 2]; return r; }
VNE uint64x2_t vornq_u64(uint64x2_t a, uint64x2_t b) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = a[i] | ~b[i]; return r; }
#ifdef __aarch64__
VNE uint64x2_t vceqzq_u64(uint64x2_t a) {  uint64x2_t r; for (int i = 0; i < 2; ++i) r[i] = (uint64_t)(a[i] == 0 ? -1 : 0); return r; }
VNE uint64_t vaddvq_u64(uint64x2_t a) { uint64_t r = 0; for (int i = 0; i < 2; ++i) r += (uint64_t)a[i]; return (uint64_t)r; }
#endif
#ifdef __aarch64__
VNE int8x16_t vqtbl1q_s8(int8x16_t a, uint8x16_t b) {  int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = b[i] < 16 ? a[b[i] & 15] : 0; return r; }
#endif
VNE int8x8_t vtbl1_s8(int8x8_t a, int8x8_t b) {  int8x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint8_t)b[i] < 8 ? a[(uint8_t)b[i] & 7] : 0; return r; }
VNE int8x8_t vtbl2_s8(int8x8x2_t t, int8x8_t b) {  int8x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint8_t)b[i] < 16 ? t.val[((uint8_t)b[i] >> 3) & 1][(uint8_t)b[i] & 7] : 0; return r; }
#ifdef __aarch64__
VNE uint8x16_t vqtbl1q_u8(uint8x16_t a, uint8x16_t b) {  uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = b[i] < 16 ? a[b[i] & 15] : 0; return r; }
#endif
VNE uint8x8_t vtbl1_u8(uint8x8_t a, uint8x8_t b) {  uint8x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint8_t)b[i] < 8 ? a[(uint8_t)b[i] & 7] : 0; return r; }
VNE uint8x8_t vtbl2_u8(uint8x8x2_t t, uint8x8_t b) {  uint8x8_t r; for (int i = 0; i < 8; ++i) r[i] = (uint8_t)b[i] < 16 ? t.val[((uint8_t)b[i] >> 3) & 1][(uint8_t)b[i] & 7] : 0; return r; }
#undef VNE
