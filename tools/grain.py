#!/usr/bin/env python3
"""Regenerates the published constants with the Grain LFSR of the reference script (independent
reimplementation) and compares them with golden/*.json.  Not used by any check; run once."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def grain(n, t, rf, rp, sbox):
    s = [int(c) for c in "".join([bin(1)[2:].zfill(2), bin(sbox)[2:].zfill(4), bin(n)[2:].zfill(12), bin(t)[2:].zfill(12), bin(rf)[2:].zfill(10), bin(rp)[2:].zfill(10)])] + [1] * 30
    def step():
        b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0]
        s.pop(0); s.append(b); return b
    for _ in range(160): step()
    while True:
        while step() == 0: step()
        yield step()
def bits(g, n):
    v = 0
    for _ in range(n): v = v * 2 + next(g)
    return v
for f in sorted(glob.glob(V + "/golden/*.json")):
    d = json.load(open(f)); p = int(d["p"]); n = p.bit_length(); t, rf, rp = d["t"], d["rf"], d["rp"]
    p2 = os.path.basename(f).startswith("poseidon2"); g = grain(n, t, rf, rp, 0 if p2 else 1)
    def const():
        v = bits(g, n)
        while v >= p: v = bits(g, n)
        return v
    bad = 0
    for r in range(rf + rp):
        full = r < rf // 2 or r >= rf // 2 + rp
        want = [const() for _ in range(t)] if (full or not p2) else [const()]
        got = [int(x) for x in d["rc"][r]][:len(want)]
        bad += got != want
    m = ""
    if not p2:
        while True:
            l = [bits(g, n) % p for _ in range(2 * t)]
            while len(set(l)) != len(l): l = [bits(g, n) % p for _ in range(2 * t)]
            xs, ys = l[:t], l[t:]
            if all((x + y) % p for x in xs for y in ys): break
        M = [[pow(x + y, -1, p) for y in ys] for x in xs]
        m = "MDS first draw " + ("matches" if M == [[int(v) for v in r] for r in d["mat"]] else "differs")
    else:
        # candidates for the diagonal: successive draws of t entries
        want = [(int(x) + 1) % p for x in d["diag_m1"]]
        for k in range(20000 // t):
            l = [bits(g, n) % p for _ in range(t)]
            if l == want: m = "diagonal is draw %d" % k; break
        else: m = "diagonal not among the first draws"
    print(os.path.basename(f), "t=%d rf=%d rp=%d d=%d" % (t, rf, rp, d["d"]), "rounds whose constants differ:", bad, m)
