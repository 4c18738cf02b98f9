"""Development aid (python3-vt): recompute the filters of mc/data/filters.json independently."""
import json, sys, os
import mpmath as mp
mp.mp.dps = 200
G = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc", "data", "filters.json")))
f = lambda l: [float.fromhex(v) for v in l]
def polymul(a, b):
    r = [mp.mpf(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r
def spline(n):
    return [mp.binomial(n, k) / mp.mpf(2) ** n for k in range(n + 1)]
def qpoly(n):   # sum binom(n-1+k,k) y^k, y=(2-z-1/z)/4 ; as a polynomial in z of degree 2(n-1)
    r = [mp.mpf(0)] * (2 * n - 1)
    for k in range(n):
        t = [mp.mpf(1)]
        for _ in range(k):
            t = polymul(t, [mp.mpf(-1) / 4, mp.mpf(1) / 2, mp.mpf(-1) / 4])
        t = [mp.binomial(n - 1 + k, k) * v for v in t]
        off = (len(r) - len(t)) // 2
        for i, v in enumerate(t):
            r[off + i] += v
    return r
worst = 0
for N in range(1, 39):
    q = qpoly(N)
    h = [mp.mpf(1)]
    for _ in range(N):
        h = polymul(h, [mp.mpf(1) / 2, mp.mpf(1) / 2])
    if N > 1:
        roots = mp.polyroots(q[::-1], maxsteps=2000, extraprec=1500)
        ins = [z for z in roots if abs(z) < 1]
        assert len(ins) == N - 1
        for z in ins:
            h = polymul(h, [mp.mpc(1), -z])   # h as coefficients in ascending powers of 1/z
    s = sum(h)
    h = [mp.re(v / s * mp.sqrt(2)) for v in h]
    g = f(G["db%d" % N]["rec_lo"])
    e = max(abs(a - b) for a, b in zip(h, g))
    worst = max(worst, e)
    print("db%d" % N, mp.nstr(e, 3))
for name in G:
    if name[:4] != "bior" or name[4:] in ("4.4", "5.5", "6.8"):
        continue
    a, b = map(int, name[4:].split("."))
    # synthesis lowpass = spline of order a; analysis = spline(b) * q((a+b)/2)
    r = [v * mp.sqrt(2) for v in spline(a)]
    d = [v * mp.sqrt(2) for v in polymul(spline(b), qpoly((a + b) // 2))]
    for lab, want in (("rec_lo", r), ("dec_lo", d)):
        got = f(G[name][lab])
        nz = [i for i, v in enumerate(got) if v != 0]
        core = got[nz[0]:nz[-1] + 1]
        e = max(abs(x - y) for x, y in zip(core, want)) if len(core) == len(want) else "len %d %d" % (len(core), len(want))
        print(name, lab, mp.nstr(e, 3) if not isinstance(e, str) else e, nz[0], len(got) - nz[-1] - 1)
