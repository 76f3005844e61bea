#!/usr/bin/env python3
"""Cross-checks the C++ reference model against Python integers and hashlib (independent formulas)."""
import hashlib, os, subprocess, sys, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, 'build'); os.makedirs(B, exist_ok=True)
exe = os.path.join(B, 'selftest')
subprocess.check_call(['g++', '-std=c++17', '-O2', '-w', '-fno-strict-aliasing', '-o', exe, V + '/harness/selftest.cc', V + '/harness/ref.cc'])
P25 = 2**255 - 19; P448 = 2**448 - 2**224 - 1
L25 = 2**252 + 27742317777372353535851937790883648493
L448 = 2**446 - 13818066809895115352007386748515426880336692474882178609894547503885
I = lambda b: int.from_bytes(b, 'little')
def fb(h): return b'' if h == '-' else bytes.fromhex(h)
def ladder(k, u, p, a24, bits):
    x1 = u % p; x2, z2, x3, z3, sw = 1, 0, x1, 1, 0
    for t in range(bits - 1, -1, -1):
        b = (k >> t) & 1
        if sw ^ b: x2, x3, z2, z3 = x3, x2, z3, z2
        sw = b
        A = x2 + z2; AA = A * A; Bq = x2 - z2; BB = Bq * Bq; E = AA - BB; C = x3 + z3; D = x3 - z3
        DA = D * A; CB = C * Bq
        x3 = (DA + CB) ** 2 % p; z3 = x1 * (DA - CB) ** 2 % p; x2 = AA * BB % p; z2 = E * (AA + a24 * E) % p
    if sw: x2, z2 = x3, z3
    return x2 * pow(z2, p - 2, p) % p
def x25519(k, u):
    k = bytearray(k); k[0] &= 248; k[31] = k[31] & 127 | 64
    return ladder(I(k), I(u) & (2**255 - 1), P25, 121665, 255).to_bytes(32, 'little')
def x448(k, u):
    k = bytearray(k); k[0] &= 252; k[55] |= 128
    return ladder(I(k), I(u), P448, 39081, 448).to_bytes(56, 'little')
D25 = -121665 * pow(121666, P25 - 2, P25) % P25
D448 = -39081 % P448
def add(p, q, P, a, d):
    x1, y1 = p; x2, y2 = q; t = d * x1 * x2 * y1 * y2
    return ((x1 * y2 + x2 * y1) * pow(1 + t, P - 2, P) % P, (y1 * y2 - a * x1 * x2) * pow(1 - t, P - 2, P) % P)
def mul(k, p, P, a, d):
    r = (0, 1)
    for b in bin(k)[2:]:
        r = add(r, r, P, a, d)
        if b == '1': r = add(r, p, P, a, d)
    return r
def sqrt25(a):
    r = pow(a, (P25 + 3) // 8, P25)
    if r * r % P25 != a % P25: r = r * pow(2, (P25 - 1) // 4, P25) % P25
    return r if r * r % P25 == a % P25 else None
def sqrt448(a):
    r = pow(a, (P448 + 1) // 4, P448); return r if r * r % P448 == a % P448 else None
def dec(b, P, a, d, sq, nbits):
    y = I(b); s = y >> nbits; y &= (1 << nbits) - 1
    if y >= P: return None
    x = sq((y * y - 1) * pow(d * y * y - a, P - 2, P) % P)
    if x is None or (x == 0 and s): return None
    if x & 1 != s: x = P - x
    return (x, y)
def dec25(b): return dec(b, P25, -1, D25, sqrt25, 255)
def dec448(b): return dec(b, P448, 1, D448, sqrt448, 455)
def enc(p, nbits, n): return (p[1] | (p[0] & 1) << nbits).to_bytes(n, 'little')
B25 = dec25(bytes.fromhex('58' + '66' * 31))
B448 = (224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710, 298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660)
assert (B448[0]**2 + B448[1]**2 - 1 - D448 * B448[0]**2 * B448[1]**2) % P448 == 0
def m25(k): return mul(k, B25, P25, -1, D25)
def m448(k): return mul(k, B448, P448, 1, D448)
def ed25519(v, sk, m, c):
    h = bytearray(hashlib.sha512(sk).digest()); h[0] &= 248; h[31] = h[31] & 127 | 64; a = I(h[:32])
    pk = enc(m25(a), 255, 32)
    dom = b'' if v == 0 else b'SigEd25519 no Ed25519 collisions' + bytes([v == 2, len(c)]) + c
    if v == 2: m = hashlib.sha512(m).digest()
    r = I(hashlib.sha512(dom + h[32:] + m).digest()) % L25; R = enc(m25(r), 255, 32)
    k = I(hashlib.sha512(dom + R + pk + m).digest()) % L25
    return pk, R + ((r + k * a) % L25).to_bytes(32, 'little')
def shake(m, n): return hashlib.shake_256(m).digest(n)
def ed448(v, sk, m, c):
    h = bytearray(shake(sk, 114)); h[0] &= 252; h[55] |= 128; h[56] = 0; a = I(h[:57])
    pk = enc(m448(a), 455, 57); dom = b'SigEd448' + bytes([v == 2, len(c)]) + c
    if v == 2: m = shake(m, 64)
    r = I(shake(dom + h[57:] + m, 114)) % L448; R = enc(m448(r), 455, 57)
    k = I(shake(dom + R + pk + m, 114)) % L448
    return pk, R + ((r + k * a) % L448).to_bytes(57, 'little')
def ell(u):
    # straight-line map_to_curve_elligator2_curve25519 / edwards25519 of RFC 9380 appendix G.2 (different form from ref.cc)
    q = P25; c1 = (q + 3) // 8; c2 = pow(2, c1, q); c3 = sqrt25(q - 1); c4 = (q - 5) // 8; J = 486662
    tv1 = 2 * u * u % q; xd = (tv1 + 1) % q; x1n = -J % q; tv2 = xd * xd % q; gxd = tv2 * xd % q; gx1 = J * tv1 * x1n % q
    gx1 = (gx1 + 0) ; gx1 = J * tv1 % q; gx1 = gx1 * x1n % q; gx1 = (gx1 + tv2) % q; gx1 = gx1 * x1n % q
    tv3 = gxd * gxd % q; tv2 = tv3 * tv3 % q; tv3 = tv3 * gxd % q; tv3 = tv3 * gx1 % q; tv2 = tv2 * tv3 % q
    y11 = pow(tv2, c4, q) * tv3 % q; y12 = y11 * c3 % q
    y1 = y11 if y11 * y11 * gxd % q == gx1 else y12
    x2n = x1n * tv1 % q; y21 = y11 * u % q * c2 % q; y22 = y21 * c3 % q; gx2 = gx1 * tv1 % q
    y2 = y21 if y21 * y21 * gxd % q == gx2 else y22
    e3 = y1 * y1 * gxd % q == gx1
    xn = x1n if e3 else x2n; y = y1 if e3 else y2
    if e3 != bool(y & 1): y = -y % q
    xMn, xMd, yMn, yMd = xn, xd, y, 1
    s = sqrt25(-486664 % q); s = q - s if s & 1 else s
    xn = xMn * yMd * s % q; xd = xMd * yMn % q; yn = (xMn - xMd) % q; yd = (xMn + xMd) % q
    if xd * yd % q == 0: return (0, 1)
    return (xn * pow(xd, q - 2, q) % q, yn * pow(yd, q - 2, q) % q)
def h2c(m):
    acc = (0, 1)
    for i in range(2): acc = add(acc, ell(I(hashlib.sha512(bytes([i]) + m).digest()) % L25), P25, -1, D25)
    return mul(8, acc, P25, -1, D25)
# bit-granular SHA-512 in pure Python
import math
def primes(n):
    o = []; k = 2
    while len(o) < n:
        if all(k % q for q in o): o.append(k)
        k += 1
    return o
def iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if mid ** k <= n: lo = mid
        else: hi = mid - 1
    return lo
K512 = [iroot(p << 192, 3) & (2**64 - 1) for p in primes(80)]
H512 = [math.isqrt(p << 128) & (2**64 - 1) for p in primes(8)]
def sha512bits(m, ub, nb):
    bits = len(m) * 8 + nb
    last = (ub >> (8 - nb) << (8 - nb)) | (0x80 >> nb)
    x = m + bytes([last]); x += bytes((112 - len(x)) % 128) + bits.to_bytes(16, 'big')
    M = 2**64 - 1; rr = lambda v, n: (v >> n | v << 64 - n) & M
    H = list(H512)
    for o in range(0, len(x), 128):
        w = [int.from_bytes(x[o + 8 * i:o + 8 * i + 8], 'big') for i in range(16)]
        for i in range(16, 80):
            s0 = rr(w[i-15], 1) ^ rr(w[i-15], 8) ^ w[i-15] >> 7; s1 = rr(w[i-2], 19) ^ rr(w[i-2], 61) ^ w[i-2] >> 6
            w.append((w[i-16] + s0 + w[i-7] + s1) & M)
        a, b, c, d, e, f, g, h = H
        for i in range(80):
            t1 = (h + (rr(e, 14) ^ rr(e, 18) ^ rr(e, 41)) + (e & f ^ ~e & M & g) + K512[i] + w[i]) & M
            t2 = ((rr(a, 28) ^ rr(a, 34) ^ rr(a, 39)) + (a & b ^ a & c ^ b & c)) & M
            h, g, f, e, d, c, b, a = g, f, e, (d + t1) & M, c, b, a, (t1 + t2) & M
        H = [(p + q) & M for p, q in zip(H, (a, b, c, d, e, f, g, h))]
    return b''.join(v.to_bytes(8, 'big') for v in H)
# published vectors, so that the Python side is anchored too
assert x25519(bytes.fromhex('a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4'), bytes.fromhex('e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c')).hex() == 'c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552'
assert ed25519(0, bytes.fromhex('9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60'), b'', b'')[0].hex() == 'd75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a'
assert ed448(1, bytes.fromhex('6c82a562cb808d10d632be89c8513ebf6c929f34ddfa8c9f63c9960ef6e348a3528c8a3fcc2f044e39a3fc5b94492f8f032e7549a20098f95b'), b'', b'')[0].hex() == '5fd7449b59b461fd2ce787ec616ad46a1da1342485a70e1f8a0ea75d80e96778edf124769b46c7061bd6783df1e50f6cd1fa1abeafe8256180'
assert sha512bits(b'abc' , 0, 1) != hashlib.sha512(b'abc').digest()
n = collections.Counter()
def chk(ok, l):
    if not ok: print('SELFTEST MISMATCH', l[:300]); sys.exit(1)
b32 = lambda v: v.to_bytes(32, 'little')
b56 = lambda v: v.to_bytes(56, 'little')
for l in subprocess.check_output([exe], text=True).splitlines():
    f = l.split(); k = f[0]; n[k] += 1
    if k == 'x25519': chk(x25519(fb(f[1]), fb(f[2])) == fb(f[3]), l)
    elif k == 'x448': chk(x448(fb(f[1]), fb(f[2])) == fb(f[3]), l)
    elif k == 'x25519base': chk(x25519(fb(f[1]), b32(9)) == fb(f[2]), l)
    elif k == 'x448base': chk(x448(fb(f[1]), b56(5)) == fb(f[2]), l)
    elif k in ('sha512', 'sha384', 'sha3_256', 'sha3_512'): chk(hashlib.new(k, fb(f[1])).digest() == fb(f[2]), l)
    elif k in ('shake128', 'shake256'): chk(hashlib.new(k.replace('shake', 'shake_'), fb(f[1])).digest(len(fb(f[2]))) == fb(f[2]), l)
    elif k == 'ed25519': chk(ed25519(int(f[1]), *map(fb, f[2:5])) == (fb(f[5]), fb(f[6])) and f[7:] == ['2', '0'], l)
    elif k == 'ed448': chk(ed448(int(f[1]), *map(fb, f[2:5])) == (fb(f[5]), fb(f[6])) and f[7:] == ['2', '0'], l)
    elif k == 'ell': chk(ell(I(fb(f[1])) % P25) == (I(fb(f[2])), I(fb(f[3]))), l)
    elif k == 'h2c': chk(h2c(fb(f[1])) == (I(fb(f[2])), I(fb(f[3]))), l)
    elif k in ('fe25', 'fe448'):
        p = P25 if k == 'fe25' else P448; a, b = I(fb(f[1])), I(fb(f[2]))
        chk([a * b % p, (a + b) % p, (a - b) % p, pow(a, p - 2, p)] == [I(fb(x)) for x in f[3:7]], l)
    elif k in ('dec25', 'dec448'):
        r = (dec25 if k == 'dec25' else dec448)(fb(f[1])); chk((r is not None) == (f[2] == '1') and (r is None or r == (I(fb(f[3])), I(fb(f[4])))), l)
    elif k == 'sc448': chk(I(fb(f[1])) % L448 == I(fb(f[2])), l)
    elif k == 'sc25': chk(I(fb(f[1])) % L25 == I(fb(f[2])), l)
    elif k == 'sha512bits': chk(sha512bits(fb(f[1]), int(f[2]), int(f[3])) == fb(f[4]), l)
    elif k == 'tors25':
        pts = [(I(fb(f[i])), I(fb(f[i + 1]))) for i in range(1, 17, 2)]
        chk(len(set(pts)) == 8 and all(mul(8, p, P25, -1, D25) == (0, 1) for p in pts) and mul(4, pts[1], P25, -1, D25) != (0, 1), l)
    else: chk(False, l)
print('selftest ok:', dict(n))
