#!/usr/bin/env python3
"""Writes sim/groups.h: fixed finite-field groups and primes the scenarios choose from."""
import os, random
R = random.Random(20240607)
SMALL = [q for q in range(3, 2000, 2) if all(q % d for d in range(3, int(q ** .5) + 1, 2))]
def prime(n, k=30):
    if n % 2 == 0 or any(n % q == 0 and n != q for q in SMALL): return False
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for _ in range(k):
        x = pow(R.randrange(2, n - 1), d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def rnd(bits, top=1): return R.getrandbits(bits) | 1 | (((1 << top) - 1) << (bits - top))
def rprime(bits, top=1, e=()):
    while True:
        p = rnd(bits, top)
        if all((p - 1) % x for x in e) and prime(p): return p
def group(L, N):
    q = rprime(N)
    while True:
        p = rnd(L); p -= p % (2 * q) - 1
        if p.bit_length() == L and prime(p): break
    h = 2
    while pow(h, (p - 1) // q, p) == 1: h += 1
    return p, q, pow(h, (p - 1) // q, p)
out = ["// Written by tools/mkgroups.py.", "#pragma once", "struct FGroup { int pbits, qbits; const char *p, *q, *g; };", "static const FGroup fgroups[] = {"]
for L, N in ((512, 160), (512, 160), (520, 224), (512, 256), (1000, 160), (1024, 160), (1024, 224), (1537, 256), (2048, 224), (2048, 256)):
    p, q, g = group(L, N); out.append('  {%d, %d, "%x",\n   "%x",\n   "%x"},' % (L, N, p, q, g))
out += ["};", "struct RPrimes { int bits; const char *p, *q; };", "static const RPrimes rprimes[] = {"]
E = (3, 5, 17, 257, 65537)
for a, b in ((256, 256), (256, 256), (300, 212), (257, 256), (260, 261), (384, 384), (390, 379), (512, 512), (513, 512), (515, 516), (768, 768), (1024, 1024), (1029, 1020)):
    while True:
        p, q = rprime(a, 2, E), rprime(b, 2, E)
        if p != q: break
    out.append('  {%d, "%x",\n   "%x"},' % ((p * q).bit_length(), p, q))
out.append("};")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim", "groups.h"), "w").write("\n".join(out) + "\n")
