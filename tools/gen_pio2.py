#!/usr/bin/env python3
"""Writes harness/src/pio2.rs: for every exponent, the binary64 and binary32 numbers nearest to a
multiple of pi/2 (continued fraction of 2^e / (pi/2))."""
import os

def pi_bits(n):
    # Machin's formula in fixed point
    one = 1 << (n + 32)
    def atan_inv(k):
        t = s = one // k
        i, sg = 3, -1
        while t:
            t //= k * k
            s += sg * (t // i)
            i, sg = i + 2, -sg
        return s
    return (4 * (4 * atan_inv(5) - atan_inv(239))) >> 32

N = 2600
PI2 = pi_bits(N)  # pi * 2^N

def best(e, p, keep):
    """m with p bits such that m * 2^e is nearest to a multiple of pi/2"""
    # alpha = 2^e / (pi/2) = 2^(e+1+N) / PI2
    num, den = (1 << (e + 1 + N), PI2) if e + 1 + N >= 0 else (1, PI2 << -(e + 1 + N))
    full = num
    lo, hi = 1 << (p - 1), 1 << p
    q0, q1 = 1, 0
    cand = set()
    a, b = num, den
    while b:
        t = a // b
        a, b = b, a - t * b
        # intermediate fractions with the denominator in range
        for k in {1, 2, t // 2, t - 1, t}:
            if 0 < k <= t:
                q = k * q1 + q0
                if q and q < hi:
                    for j in {-(-lo // q), (hi - 1) // q}:
                        if lo <= j * q < hi:
                            cand.add(j * q)
        q0, q1 = q1, t * q1 + q0
        if q1 >= hi:
            break
    def dist(m):
        r = (m * full) % den
        return min(r, den - r)
    return sorted(cand, key=lambda m: (dist(m), m))[:keep]

out = ["//! Generated by tools/gen_pio2.py: significands and exponents of the numbers nearest to multiples of pi/2.", ""]
for name, p, lo, hi in (("F32", 24, -24, 104), ("F64", 53, -53, 971)):
    rows = []
    for e in range(lo, hi + 1):
        for m in best(e, p, 4):
            rows.append(f"({m}, {e})")
    out.append(f"pub const {name}: &[(u64, i32)] = &[")
    for i in range(0, len(rows), 8):
        out.append("    " + ", ".join(rows[i:i + 8]) + ",")
    out.append("];")
here = os.path.dirname(os.path.abspath(__file__))
open(os.path.join(here, "..", "harness", "src", "pio2.rs"), "w").write("\n".join(out) + "\n")
