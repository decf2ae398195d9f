#!/usr/bin/env python3
"""Writes arm_neon.h: the NEON intrinsics aicodix/code uses, as plain lane loops over vector-extension types."""
import re, sys, os
T = {'f32': ('float', 4), 's8': ('int8_t', 16), 's16': ('int16_t', 8), 's32': ('int32_t', 4), 's64': ('int64_t', 2),
     'u8': ('uint8_t', 16), 'u16': ('uint16_t', 8), 'u32': ('uint32_t', 4), 'u64': ('uint64_t', 2)}
def vt(k, q=True):
    c, n = T[k]
    if not q: n //= 2
    return '%s%dx%d_t' % (c.replace('_t', '').rstrip('0123456789') if k != 'f32' else 'float', int(re.sub(r'\D', '', k)), n)
o = ['// Generated by gen.py. Lane-by-lane definitions after the Arm reference, for execution on other machines.',
     '#pragma once', '#include <cstdint>', '']
for k, (c, n) in T.items():
    o.append('typedef %s %s __attribute__((vector_size(16)));' % (c, vt(k)))
for k in ('s8', 'u8', 's16', 'u16', 's32', 'u32', 'f32'):
    o.append('typedef %s %s __attribute__((vector_size(8)));' % (T[k][0], vt(k, False)))
o += ['struct int8x8x2_t { int8x8_t val[2]; };', 'struct uint8x8x2_t { uint8x8_t val[2]; };', '#define VNE static inline __attribute__((always_inline))', '']
def wide(k): return {'8': 'int', '16': 'int', '32': 'int64_t', '64': '__int128'}[k[1:]]
def u(k): return 'u' + k[1:]
def fn(ret, name, args, n, expr, decl=''):
    o.append('VNE %s %s(%s) { %s %s r; for (int i = 0; i < %d; ++i) r[i] = %s; return r; }' % (ret, name, args, decl, ret, n, expr))
INTS = [k for k in T if k != 'f32']
for k in T:
    c, n = T[k]; v = vt(k); ab = '%s a, %s b' % (v, v)
    if k == 'f32':
        fn(v, 'vaddq_f32', ab, n, 'a[i] + b[i]'); fn(v, 'vsubq_f32', ab, n, 'a[i] - b[i]'); fn(v, 'vmulq_f32', ab, n, 'a[i] * b[i]')
        fn(v, 'vabsq_f32', v + ' a', n, 'a[i] < 0 ? -a[i] : a[i]'); fn(v, 'vnegq_f32', v + ' a', n, '-a[i]')
    else:
        uc = T[u(k)][0]
        for nm, op in (('add', '+'), ('sub', '-')):
            fn(v, 'v%sq_%s' % (nm, k), ab, n, '(%s)(%s)((%s)a[i] %s (%s)b[i])' % (c, uc, uc, op, uc))
        if k[1:] != '64':
            fn(v, 'vmulq_%s' % k, ab, n, '(%s)(%s)((uint64_t)a[i] * (uint64_t)b[i])' % (c, uc))
        for nm, e in (('and', 'a[i] & b[i]'), ('orr', 'a[i] | b[i]'), ('eor', 'a[i] ^ b[i]'), ('bic', 'a[i] & ~b[i]')):
            fn(v, 'v%sq_%s' % (nm, k), ab, n, e)
        fn(v, 'vmvnq_%s' % k, v + ' a', n, '~a[i]')
        if k[0] == 's':
            fn(v, 'vnegq_%s' % k, v + ' a', n, '(%s)(%s)(0 - (%s)a[i])' % (c, uc, uc))
            fn(v, 'vabsq_%s' % k, v + ' a', n, '(%s)(%s)(a[i] < 0 ? 0 - (%s)a[i] : (%s)a[i])' % (c, uc, uc, uc))
            b = int(k[1:]); mx = '((%s)(((%s)-1) >> 1))' % (c, uc); mn = '((%s)(-%s - 1))' % (c, mx)
            fn(v, 'vqabsq_%s' % k, v + ' a', n, 'a[i] == %s ? %s : (%s)(a[i] < 0 ? -a[i] : a[i])' % (mn, mx, c))
            fn(v, 'vqnegq_%s' % k, v + ' a', n, 'a[i] == %s ? %s : (%s)-a[i]' % (mn, mx, c))
        else:
            mx = '((%s)-1)' % c; mn = '0'
        w = wide(k)
        for nm, op in (('qadd', '+'), ('qsub', '-')):
            fn(v, 'v%sq_%s' % (nm, k), ab, n, '(%s)a[i] %s (%s)b[i] > (%s)%s ? (%s)%s : (%s)a[i] %s (%s)b[i] < (%s)%s ? (%s)%s : (%s)((%s)a[i] %s (%s)b[i])'
               % (w, op, w, w, mx, c, mx, w, op, w, w, mn, c, mn, c, w, op, w))
    for nm, op in (('ceq', '=='), ('cgt', '>'), ('clt', '<'), ('cle', '<='), ('cge', '>=')):
        uk = u(k)
        fn(vt(uk), 'v%sq_%s' % (nm, k), ab, n, '(%s)(a[i] %s b[i] ? -1 : 0)' % (T[uk][0], op))
    if k[1:] != '64':
        fn(v, 'vmaxq_%s' % k, ab, n, 'a[i] > b[i] ? a[i] : b[i]'); fn(v, 'vminq_%s' % k, ab, n, 'a[i] < b[i] ? a[i] : b[i]')
    uv = vt(u(k))
    o.append('VNE %s vbslq_%s(%s m, %s a, %s b) { return (%s)((m & (%s)a) | (~m & (%s)b)); }' % (v, k, uv, v, v, v, uv, uv))
    fn(v, 'vdupq_n_%s' % k, c + ' a', n, 'a'); o.append('#define vmovq_n_%s vdupq_n_%s' % (k, k))
    o.append('VNE %s vld1q_%s(const %s *p) { %s r; __builtin_memcpy(&r, p, 16); return r; }' % (v, k, c, v))
    o.append('VNE void vst1q_%s(%s *p, %s a) { __builtin_memcpy(p, &a, 16); }' % (k, c, v))
    if k != 'f32':
        fn(v, 'vshlq_n_%s' % k, '%s a, int s' % v, n, '(%s)((%s)a[i] << s)' % (c, T[u(k)][0]))
        fn(v, 'vshrq_n_%s' % k, '%s a, int s' % v, n, '(%s)(a[i] >> s)' % c)
    for k2 in T:
        if k2 != k:
            o.append('VNE %s vreinterpretq_%s_%s(%s a) { return (%s)a; }' % (v, k, k2, vt(k2), v))
    # not used today, for code that may come
    fn(v, 'vsetq_lane_%s' % k, '%s x, %s a, int l' % (c, v), n, 'i == l ? x : a[i]')
    o.append('VNE %s vgetq_lane_%s(%s a, int l) { return a[l]; }' % (c, k, v))
    fn(v, 'vextq_%s' % k, ab + ', int s', n, 'i + s < %d ? a[i + s] : b[i + s - %d]' % (n, n))
    if k != 'f32':
        fn(v, 'vornq_%s' % k, ab, n, 'a[i] | ~b[i]')
        if k[1:] != '64':
            fn(vt(u(k)), 'vtstq_%s' % k, ab, n, '(%s)(a[i] & b[i] ? -1 : 0)' % T[u(k)][0])
            fn(v, 'vabdq_%s' % k, ab, n, '(%s)(a[i] > b[i] ? (%s)a[i] - (%s)b[i] : (%s)b[i] - (%s)a[i])' % (c, uc, uc, uc, uc))
            for nm, op in (('mla', '+'), ('mls', '-')):
                fn(v, 'v%sq_%s' % (nm, k), '%s a, %s b, %s e' % (v, v, v), n, '(%s)(%s)((uint64_t)a[i] %s (uint64_t)b[i] * (uint64_t)e[i])' % (c, uc, op))
    o.append('#ifdef __aarch64__')
    for nm, op in (('ceqz', '=='), ('cgtz', '>'), ('cltz', '<'), ('clez', '<='), ('cgez', '>=')):
        if k[0] != 'u' or nm == 'ceqz':
            fn(vt(u(k)), 'v%sq_%s' % (nm, k), v + ' a', n, '(%s)(a[i] %s 0 ? -1 : 0)' % (T[u(k)][0], op))
    if k[1:] != '64':
        o.append('VNE %s vmaxvq_%s(%s a) { %s r = a[0]; for (int i = 1; i < %d; ++i) r = a[i] > r ? a[i] : r; return r; }' % (c, k, v, c, n))
        o.append('VNE %s vminvq_%s(%s a) { %s r = a[0]; for (int i = 1; i < %d; ++i) r = a[i] < r ? a[i] : r; return r; }' % (c, k, v, c, n))
    if k != 'f32':
        o.append('VNE %s vaddvq_%s(%s a) { %s r = 0; for (int i = 0; i < %d; ++i) r += (%s)a[i]; return (%s)r; }' % (c, k, v, uc, n, uc, c))
    o.append('#endif')
    if k[1:] in ('8', '16', '32'):
        d = vt(k, False)
        fn(d, 'vget_low_' + k, v + ' a', n // 2, 'a[i]'); fn(d, 'vget_high_' + k, v + ' a', n // 2, 'a[i + %d]' % (n // 2))
        fn(v, 'vcombine_' + k, '%s a, %s b' % (d, d), n, 'i < %d ? a[i] : b[i - %d]' % (n // 2, n // 2))
for k in ('s8', 'u8'):
    v, d = vt(k), vt(k, False)
    o.append('#ifdef __aarch64__')
    fn(v, 'vqtbl1q_' + k, '%s a, uint8x16_t b' % v, 16, 'b[i] < 16 ? a[b[i] & 15] : 0')
    o.append('#endif')
    fn(d, 'vtbl1_' + k, '%s a, %s b' % (d, d), 8, '(uint8_t)b[i] < 8 ? a[(uint8_t)b[i] & 7] : 0')
    fn(d, 'vtbl2_' + k, '%sx2_t t, %s b' % (d[:-2], d), 8, '(uint8_t)b[i] < 16 ? t.val[((uint8_t)b[i] >> 3) & 1][(uint8_t)b[i] & 7] : 0')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'arm_neon.h'), 'w').write('\n'.join(o) + '\n#undef VNE\n')
