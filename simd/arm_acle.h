/* Stand-in for the compiler's <arm_acle.h>: the instructions that liblc3 uses, in portable C,
 * after the Arm C Language Extensions and the ARMv7 manual. Lets the ARM code run on this machine. */
#ifndef SIMD_ARM_ACLE_H
#define SIMD_ARM_ACLE_H
#include <stdint.h>
#include <string.h>

typedef int32_t __attribute__((may_alias)) int16x2_t;
typedef int32_t __attribute__((may_alias)) uint16x2_t;

static inline int32_t simd_lo(int32_t v) { return (int16_t)((uint32_t)v & 0xffffu); }
static inline int32_t simd_hi(int32_t v) { return (int16_t)((uint32_t)v >> 16); }
static inline int32_t simd_wadd(int32_t a, int32_t b) { return (int32_t)((uint32_t)a + (uint32_t)b); }
static inline int64_t simd_waddl(int64_t a, int64_t b) { return (int64_t)((uint64_t)a + (uint64_t)b); }

static inline int32_t __smlad(int32_t a, int32_t b, int32_t u) { return simd_wadd(simd_wadd(u, simd_hi(a) * simd_hi(b)), simd_lo(a) * simd_lo(b)); }
static inline int32_t __smladx(int32_t a, int32_t b, int32_t u) { return simd_wadd(simd_wadd(u, simd_hi(a) * simd_lo(b)), simd_lo(a) * simd_hi(b)); }
static inline int32_t __smuad(int32_t a, int32_t b) { return __smlad(a, b, 0); }
static inline int32_t __smuadx(int32_t a, int32_t b) { return __smladx(a, b, 0); }
static inline int64_t __smlald(int32_t a, int32_t b, int64_t u) { return simd_waddl(simd_waddl(u, simd_hi(a) * simd_hi(b)), simd_lo(a) * simd_lo(b)); }
static inline int64_t __smlaldx(int32_t a, int32_t b, int64_t u) { return simd_waddl(simd_waddl(u, simd_hi(a) * simd_lo(b)), simd_lo(a) * simd_hi(b)); }
#define __ssat(v, n) ({ int64_t simd_v = (v), simd_m = ((int64_t)1 << ((n) - 1)) - 1; (int32_t)(simd_v > simd_m ? simd_m : simd_v < -simd_m - 1 ? -simd_m - 1 : simd_v); })

/* liblc3 writes the `pkhbt` instruction in an assembler statement: the assembler gets it as a macro, so
 * what runs is the text of that statement with its operands. d = low half of a, high half of b. */
#ifdef __x86_64__
__asm__(".macro pkhbt d, a, b\n"
        " leaq -256(%rsp), %rsp\n movl \\a, (%rsp)\n movl \\b, 8(%rsp)\n"
        " movl (%rsp), \\d\n xorl 8(%rsp), \\d\n andl $0xffff, \\d\n xorl 8(%rsp), \\d\n"
        " leaq 256(%rsp), %rsp\n.endm\n"
        ".macro pkhtb d, a, b\n pkhbt \\d, \\b, \\a\n.endm\n");
#endif
#endif
