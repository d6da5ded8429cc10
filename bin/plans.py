"""What each check runs.  A plan is a list of jobs; every job is one model-checking run of the
specification, or one recording of the implementation validated by TLC."""
import gsv
from gsv import conform, expect, mc, replay_hist

ASSUME = [
    "toy pairing groups of prime order (3, 5, 10007) run the library's generic code through its public API; their discrete logarithms are looked up in tables",
    "arkworks' field, curve and serialisation code is trusted",
    "TLC, its Json/IOUtils modules and the BigInteger override of GF are trusted",
]
SMALL = ",".join("%dx%d" % (a, b) for a, b in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 5), (5, 1), (3, 4), (4, 3), (6, 6), (7, 2), (2, 9), (10, 10)])
BIG = "1x16,16x1,17x2,2x17,31x1,1x32,33x3,3x33,1x64,65x1,8x8,16x16"
LONG = "100x1,1x100,128x2,2x129,1x256,256x1,257x1,1x512,520x1,1x1030,40x70"
# every length from 1 to 72 of one side against a short other side
SWEEP = ",".join("%dx%d,%dx%d" % (k, 1 + k % 3, 1 + k % 2, k) for k in range(1, 73))
HUGE = "100x1,1x100,64x64,128x2,2x129,130x130,1x256,257x1,40x70"


def prover(cx, *specs):
    out = []
    for (p, ty, m, n, coefs, few) in specs:
        c = {"P": p, "Ty": '"%s"' % ty, "M": m, "N": n, "Coefs": coefs, "FewKeys": few}
        w = 4 if cx.quick else 8
        out.append(lambda c=c, w=w: mc(cx, "MCProver", name="MCProver %(Ty)s P=%(P)s %(M)sx%(N)s" % c, consts=c, workers=w, mem="3g", timeout=850 if cx.quick else 3600))
    return out


def system(cx, *specs):
    out = []
    for s in specs:
        s = dict(s)
        s["Ty"] = '"%s"' % s["Ty"]
        w = 4 if cx.quick else 8
        out.append(lambda s=s, w=w: mc(cx, "MCSystem", name="MCSystem " + " ".join("%s=%s" % kv for kv in s.items()), consts=s, workers=w, mem="4g", timeout=850 if cx.quick else 3600))
    return out


def C(cx, scen, inst, n, seed=0, **kw):
    return lambda: conform(cx, scen, inst, n, seed=seed, **kw)


def X(cx, scen, n, seed=0, **kw):
    return lambda: expect(cx, scen, n, seed=seed, **kw)


def H(cx, inst, num, seed, profile, **kw):
    return lambda: replay_hist(cx, inst, num, seed, profile, **kw)


def c01(cx):
    if cx.quick:
        return prover(cx, (2, "QUAD", 1, 1, "{0, 1}", "TRUE"), (2, "MS1", 1, 1, "{1}", "TRUE"), (2, "MS2", 1, 1, "{1}", "TRUE")) + [
            C(cx, "complete", "toy10007", 1200, 1), C(cx, "complete", "toy10007", 1200, 2, threads=4),
            C(cx, "complete", "toy3", 1500, 3), C(cx, "complete", "toy5", 1500, 4, threads=2),
            C(cx, "complete", "toy10007", 4 * 24, 5, threads=3, args={"sizes": SMALL}),
            C(cx, "complete", "toy10007", 4 * 12, 6, threads=8, args={"sizes": BIG}),
            C(cx, "complete", "toy10007", 4 * 11, 8, threads=3, args={"sizes": LONG}),
            C(cx, "complete", "toy10007", 4 * 144, 9, threads=2, args={"sizes": SWEEP}),
            C(cx, "complete", "bls", 28, 7, threads=4, args={"sizes": "1x1,2x1,1x2,3x2,2x4,5x3,4x4"}),
            C(cx, "complete", "bls", 120, 10, threads=2, args={"edges": 1, "sizes": "1x1,2x1,1x2,3x2,2x4"}),
            C(cx, "complete", "clear", 500, 11, threads=2), C(cx, "complete", "clear", 400, 12, args={"edges": 1}), C(cx, "complete", "clear", 4 * 9, 13, threads=4, args={"sizes": "9x8,17x16,1x33,40x2,33x5,3x70,64x1,1x100,12x24"}),
        ]
    return (prover(cx, *[(2, t, 1, 1, "{0, 1}", "FALSE") for t in ("QUAD", "MS1", "MS2")], (2, "PPE", 1, 1, "{0, 1}", "TRUE"), (3, "QUAD", 1, 1, "{0, 1, 2}", "TRUE"), (2, "MS1", 2, 1, "{0, 1}", "TRUE"))
            + system(cx, dict(Ty="QUAD", P=3), dict(Ty="MS1", P=2), dict(Ty="MS2", P=2), dict(Ty="PPE", P=2))
            + [C(cx, "complete", "toy10007", 6000, 10 + k, threads=1 + k % 5) for k in range(8)]
            + [C(cx, "complete", "toy3", 10000, 30 + k) for k in range(3)] + [C(cx, "complete", "toy5", 10000, 40 + k) for k in range(3)]
            + [C(cx, "complete", "toy10007", 4 * 12, 50 + k, threads=k + 1, args={"sizes": BIG}) for k in range(6)]
            + [C(cx, "complete", "toy10007", 4 * 9, 60 + k, threads=3 * k + 1, args={"sizes": HUGE}) for k in range(2)]
            + [C(cx, "complete", "toy10007", 4 * 144 * 4, 80 + k, threads=1 + k, args={"sizes": SWEEP}) for k in range(4)]
            + [C(cx, "complete", "bls", 200, 70 + k, threads=2) for k in range(4)]
            + [C(cx, "complete", "clear", 4000, 120 + k, threads=1 + k, args={"edges": 2 * (k % 2)}) for k in range(4)] + [C(cx, "complete", "clear", 4 * 48, 130 + k, threads=2 + k, args={"sizes": BIG}) for k in range(2)]
            + [C(cx, "complete", "bls", 800, 100 + k, threads=2, args={"edges": 2, "sizes": "1x1,2x1,1x2,3x2,2x4"}) for k in range(4)])


def c02(cx):
    if cx.quick:
        return system(cx, dict(Ty="QUAD", P=2), dict(Ty="MS1", P=2, Coefs="{1}"), dict(Ty="MS2", P=2, Coefs="{1}")) + [
            C(cx, "verdict", "toy10007", 3000, 1), C(cx, "verdict", "toy10007", 3000, 2, threads=4),
            C(cx, "verdict", "toy3", 4000, 3), C(cx, "verdict", "toy5", 4000, 4),
            C(cx, "near", "toy3", 400, 5), C(cx, "near", "toy5", 60, 6),
            C(cx, "exhaust", "toy3", 1, 7, args={"lo": 0, "hi": 16}),
            C(cx, "verdict", "toy10007", 4 * 24, 8, args={"sizes": SMALL}), C(cx, "verdict", "toy10007", 4 * 12, 9, threads=8, args={"sizes": BIG}),
            C(cx, "verdict", "toy10007", 4 * 33, 11, threads=2, args={"sizes": LONG}),
            C(cx, "verdict", "toy10007", 4 * 144, 12, threads=2, args={"sizes": SWEEP}),
            C(cx, "verdict", "bls", 120, 10, threads=4, args={"sizes": "1x1,2x1,1x2,3x2,2x3"}),
            C(cx, "verdict", "bls", 160, 13, threads=2, args={"edges": 1, "sizes": "1x1,2x1,1x2,3x2,2x3"}),
            C(cx, "verdict", "clear", 900, 14, threads=2), C(cx, "verdict", "clear", 900, 15, args={"edges": 1}), C(cx, "verdict", "clear", 4 * 18, 16, threads=4, args={"sizes": "9x8,17x16,1x33,40x2,33x5,3x70,64x1,1x100,12x24"}),
        ]
    return (system(cx, dict(Ty="QUAD", P=3), dict(Ty="MS1", P=2), dict(Ty="MS2", P=2), dict(Ty="PPE", P=2))
            + [C(cx, "verdict", "toy10007", 15000, 10 + k, threads=1 + k % 5) for k in range(8)]
            + [C(cx, "verdict", "toy3", 20000, 20 + k) for k in range(3)] + [C(cx, "verdict", "toy5", 20000, 30 + k) for k in range(3)]
            + [C(cx, "near", "toy3", 4000, 40 + k) for k in range(4)] + [C(cx, "near", "toy5", 400, 50 + k) for k in range(4)]
            + [C(cx, "exhaust", "toy3", 1, 60 + k, args={"lo": 9 * (k % 9), "hi": 9 * (k % 9) + 9, "hide": k // 9}) for k in range(18)]
            + [C(cx, "verdict", "toy10007", 4 * 48, 80 + k, threads=1 + k, args={"sizes": BIG}) for k in range(4)]
            + [C(cx, "verdict", "toy10007", 4 * 9, 90 + k, threads=8, args={"sizes": HUGE}) for k in range(2)]
            + [C(cx, "verdict", "toy10007", 4 * 144 * 4, 120 + k, threads=1 + k, args={"sizes": SWEEP}) for k in range(4)]
            + [C(cx, "verdict", "clear", 8000, 160 + k, threads=1 + k, args={"edges": 2 * (k % 2)}) for k in range(4)] + [C(cx, "verdict", "clear", 4 * 48, 170 + k, threads=2 + k, args={"sizes": BIG}) for k in range(2)]
            + [C(cx, "verdict", "bls", 600, 95 + k, threads=2, args={"sizes": "1x1,2x1,1x2,3x2,2x3,4x4"}) for k in range(4)]
            + [C(cx, "verdict", "bls", 800, 140 + k, threads=2, args={"edges": 2, "sizes": "1x1,2x1,1x2,3x2,2x3"}) for k in range(4)])


def c03(cx):
    q = 1 if cx.quick else 12
    out = []
    for k in range(1 if cx.quick else 4):
        out += [C(cx, "illverify", "toy3", 5000 * q, 1 + 10 * k), C(cx, "illverify", "toy10007", 4000 * q, 2 + 10 * k, threads=4), C(cx, "illprove", "toy3", 5000 * q, 3 + 10 * k),
                C(cx, "illprove", "toy10007", 4000 * q, 4 + 10 * k, threads=3), C(cx, "illverify", "toy5", 4000 * q, 7 + 10 * k), C(cx, "illprove", "toy5", 4000 * q, 8 + 10 * k),
                C(cx, "illverify", "clear", 1000 * q, 9 + 10 * k), C(cx, "illprove", "clear", 800 * q, 10 + 10 * k), C(cx, "illverify", "bls", 150 * q, 5 + 10 * k, threads=2), C(cx, "illprove", "bls", 120 * q, 6 + 10 * k, threads=2)]
    return out


def c04(cx):
    wi = lambda inst, n, seed, **a: C(cx, "wi", inst, n, seed, args=a)
    # at full field size: whatever kind the witness is of, what blinds it has the one uniform law
    kinds = lambda n, ks: [C(cx, "fresh", "clear", n, 200 + 10 * k + i, module="TraceFreshClear", args={"what": w, "m": 1 + (i + k) % 2, "k": 1 + (i + k) // 2 % 2, "class": k}) for k in ks for i, w in enumerate(("PPE", "MS1", "MS2", "QUAD"))]
    if cx.quick:
        return prover(cx, (2, "QUAD", 1, 1, "{0, 1}", "TRUE"), (2, "MS1", 1, 1, "{1}", "TRUE"), (2, "MS2", 1, 1, "{1}", "TRUE")) + [
            wi("toy3", 6, 1, ty="QUAD", m=1, k=1, per=60), wi("toy3", 3, 2, ty="MS1", m=1, k=1, per=60), wi("toy3", 3, 3, ty="MS2", m=1, k=1, per=60),
            wi("toy3", 6, 4, ty="PPE", m=1, k=1, per=60, fixed=1), wi("toy3", 1, 5, ty="PPE", m=1, k=1, per=24),
            wi("toy3", 8, 6, ty="MS1", m=2, k=1, per=60, fixed=1), wi("toy3", 8, 7, ty="MS2", m=2, k=2, per=60, fixed=1),
            C(cx, "leak", "toy3", 30, 20), *kinds(62, (1, 2, 5, 7)),
            wi("toy3", 27, 11, ty="QUAD", m=1, k=1, per=40, shape=0), wi("toy3", 54, 12, ty="QUAD", m=0, k=0, per=60, fixed=1, shape=0),
            wi("toy3", 54, 13, ty="MS1", m=0, k=0, per=60, fixed=1, shape=0), wi("toy3", 54, 14, ty="MS2", m=0, k=0, per=60, fixed=1, shape=0), wi("toy3", 27, 15, ty="PPE", m=0, k=0, per=60, fixed=1, shape=0),
            wi("toy5", 4, 8, ty="QUAD", m=1, k=1, per=60), wi("toy5", 1, 9, ty="PPE", m=2, k=2, per=60, fixed=1), wi("toy3", 2, 10, ty="QUAD", m=2, k=2, per=60),
        ]
    return (prover(cx, *[(2, t, 1, 1, "{0, 1}", "FALSE") for t in ("QUAD", "MS1", "MS2")], (2, "PPE", 1, 1, "{0, 1}", "TRUE"), (3, "QUAD", 1, 1, "{0, 1, 2}", "TRUE"), (2, "MS1", 2, 1, "{0, 1}", "TRUE"))
            + kinds(500, range(1, 8)) + [C(cx, "leak", "toy3", 120, 15), C(cx, "leak", "toy5", 30, 16)]
            + [wi("toy3", 30, 20 + k, ty="QUAD", m=1 + k % 2, k=1 + k // 2, per=100) for k in range(4)]
            + [wi("toy3", 27, 70 + k, ty=t, m=1, k=1, per=30, shape=0) for k, t in enumerate(("QUAD", "MS1", "MS2"))]
            + [wi(i, 540, 80 + k, ty=t, m=0, k=0, per=80, fixed=1, shape=k) for k, (t, i) in enumerate((("QUAD", "toy3"), ("QUAD", "toy5"), ("MS1", "toy3"), ("MS2", "toy3"), ("MS1", "toy5"), ("MS2", "toy5")))]
            + [wi("toy3", 270, 90 + k, ty="PPE", m=0, k=0, per=80, fixed=1, shape=k) for k in range(3)]
            + [wi("toy3", 10, 30 + k, ty=t, m=1, k=1, per=100) for k, t in enumerate(("MS1", "MS2"))]
            + [wi("toy3", 3, 40 + k, ty=t, m=2, k=1, per=50) for k, t in enumerate(("MS1", "MS2"))]
            + [wi("toy3", 2, 50 + k, ty="PPE", m=1, k=1, per=60) for k in range(4)]
            + [wi("toy5", 10, 60 + k, ty=t, m=3, k=2, per=100, fixed=1) for k, t in enumerate(("QUAD", "MS1", "MS2", "PPE"))])


def c05(cx):
    k = lambda n, s: C(cx, "crs", "toy5", n, s, module="TraceKeys")
    if cx.quick:
        return [k(2600, 1), k(3200, 2), C(cx, "crs", "toy3", 3000, 3), C(cx, "crs", "toy10007", 3000, 4), X(cx, "crsbig", 300, 5), X(cx, "crsbig", 300, 6), X(cx, "crsbig", 300, 7), X(cx, "crsbig", 300, 8), C(cx, "keyentropy", "bls", 150, 9, module="TraceFreshBig"),
                C(cx, "crs", "clear", 800, 10, module="TraceKeysClear"), C(cx, "crs", "clear", 800, 11, module="TraceKeysClear")]
    return [k(6000, 10 + i) for i in range(8)] + [C(cx, "crs", "toy3", 20000, 3), C(cx, "crs", "toy10007", 30000, 4), C(cx, "keyentropy", "bls", 1000, 9, module="TraceFreshBig")] + [X(cx, "crsbig", 3000, 5 + i) for i in range(4)] + [C(cx, "crs", "clear", 4000, 20 + i, module="TraceKeysClear") for i in range(3)]


def c06(cx):
    if cx.quick:
        return [C(cx, "commit", "toy3", 4000, 1), C(cx, "commit", "toy10007", 4000, 2), C(cx, "commit", "toy10007", 2000, 3, threads=4),
                C(cx, "commit", "toy10007", 8 * 12, 4, args={"sizes": BIG}), C(cx, "commit", "toy5", 8 * 9, 5, threads=3, args={"sizes": HUGE}), C(cx, "commit", "toy10007", 8 * 10, 10, threads=2, args={"sizes": "257x1,520x1,1030x1,2049x1,4097x1,256x1,512x1,1024x1,768x1,300x1"}),
                C(cx, "commit", "toy10007", 8 * 140, 8, threads=2, args={"sizes": ",".join("%dx1" % k for k in range(1, 141))}),
                C(cx, "commit", "clear", 800, 11, threads=2), C(cx, "commit", "clear", 8 * 7, 12, args={"edges": 1, "sizes": "48x1,96x1,33x1,65x1,129x1,17x1,257x1"}),
                X(cx, "commit", 160, 6), X(cx, "commit", 48, 9, args={"edges": 1, "sizes": "48x1,64x1,56x1"}), X(cx, "commit", 8 * 6, 7, threads=2, args={"sizes": "8x1,16x1,17x1,33x1,64x1,65x1"})]
    return ([C(cx, "commit", "toy3", 20000, 10 + k) for k in range(2)] + [C(cx, "commit", "toy10007", 20000, 20 + k, threads=k + 1) for k in range(8)]
            + [C(cx, "commit", "toy10007", 8 * 24, 30 + k, threads=k + 1, args={"sizes": BIG}) for k in range(3)]
            + [C(cx, "commit", "toy10007", 8 * 27, 40 + k, threads=k + 1, args={"sizes": HUGE}) for k in range(3)]
            + [C(cx, "commit", "clear", 6000, 80 + k, threads=1 + k, args={"edges": 2 * (k % 2)}) for k in range(3)] + [C(cx, "commit", "clear", 8 * 9, 90, args={"sizes": HUGE})]
            + [X(cx, "commit", 2000, 50 + k) for k in range(3)] + [X(cx, "commit", 8 * 9, 60, args={"sizes": HUGE})]
            + [X(cx, "commit", 8 * 60, 70 + k, args={"edges": 2, "sizes": "48x1,64x1,56x1"}) for k in range(3)])


def c07(cx):
    fr = lambda n, s, **a: C(cx, "fresh", a.pop("inst", "toy5"), n, s, module="TraceFresh", args=a)
    fr3 = lambda n, s, **a: C(cx, "fresh", "toy3", n, s, module="TraceFresh", args=a)
    cl = lambda n, s, **a: C(cx, "fresh", "clear", n, s, module="TraceFreshClear", args=a)
    big = lambda n, s: C(cx, "freshbig", "bls", n, s, module="TraceFreshBig", consts=None)
    if cx.quick:
        return [fr(1700, 1, what="PPE", m=2, k=2), fr(1700, 2, what="MS1", m=2, k=3), fr(1700, 3, what="MS2", m=3, k=2), fr(1700, 4, what="QUAD", m=3, k=3, reuse=1),
                fr(1700, 5, what="single"), fr3(700, 6, what="PPE", m=9, k=8), fr3(700, 7, what="QUAD", m=17, k=33), fr3(700, 8, what="MS1", m=5, k=20, reuse=1), big(240, 9), C(cx, "freshbig", "bls", 300, 10, module="TraceFreshBig", args={"entropy": 1}), C(cx, "freshbig", "bls", 300, 11, module="TraceFreshBig", args={"entropy": 1})] + [
                fr3(560, 20 + i, what=w, m=1 + i % 3, k=1 + i % 2, shape=sh) for i, (w, sh) in enumerate((w, sh) for w in ("PPE", "MS1", "MS2", "QUAD") for sh in (0, 8, 18, 26))] + [
                cl(100, 50, what="PPE", m=3, k=2), cl(100, 51, what="MS1", m=2, k=9, reuse=1), cl(100, 52, what="MS2", m=7, k=2), cl(100, 53, what="QUAD", m=4, k=5, reuse=1), cl(160, 54, what="single"),
                cl(12, 55, what="PPE", m=40, k=36), cl(12, 56, what="QUAD", m=130, k=3), cl(12, 57, what="MS1", m=2, k=260), cl(12, 58, what="MS2", m=70, k=66)] + [
                cl(8, 60 + i, what=w, m=m, k=k) for i, (w, m, k) in enumerate((w, *mk) for w in ("PPE", "MS1", "MS2", "QUAD") for mk in ((260, 2), (2, 260)))] + [
                cl(62, 80 + i, what=w, m=1 + i % 3, k=1 + i // 2 % 3, **{"class": k}) for i, (w, k) in enumerate((w, k) for w in ("PPE", "MS1", "MS2", "QUAD", "single") for k in (2, 3, 4))]
    out = [fr(8000, 20 + i, what=w, m=m, k=k, reuse=r) for i, (w, m, k, r) in enumerate(
        [("PPE", 2, 2, 0), ("PPE", 1, 1, 1), ("MS1", 2, 3, 0), ("MS1", 3, 3, 1), ("MS2", 3, 2, 0), ("MS2", 1, 4, 1), ("QUAD", 3, 3, 1), ("QUAD", 6, 5, 0)])]
    out += [fr(8000, 30, what="single")] + [fr3(3000, 40 + i, what=w, m=m, k=k) for i, (w, m, k) in enumerate([("PPE", 16, 17), ("QUAD", 64, 65), ("MS1", 33, 40), ("MS2", 70, 12)])]
    out += [fr3(3000, 60 + i, what=w, m=1 + i % 4, k=1 + i % 3, shape=sh, reuse=i % 2) for i, (w, sh) in enumerate((w, sh) for w in ("PPE", "MS1", "MS2", "QUAD") for sh in range(27))]
    out += [cl(400, 180 + i, what=w, m=1 + i % 3, k=1 + i // 2 % 3, **{"class": k}) for i, (w, k) in enumerate((w, k) for w in ("PPE", "MS1", "MS2", "QUAD", "single") for k in range(1, 8))]
    out += [cl(600, 110 + i, what=w, m=1 + i, k=5 - i, reuse=i % 2) for i, w in enumerate(("PPE", "MS1", "MS2", "QUAD"))] + [cl(600, 120, what="single")]
    out += [cl(30, 130 + i, what=w, m=m, k=k) for i, (w, m, k) in enumerate((w, *mk) for w in ("PPE", "MS1", "MS2", "QUAD") for mk in ((300, 2), (2, 300), (65, 70)))]
    return out + [big(2000, 50 + i) for i in range(4)] + [C(cx, "freshbig", "bls", 3000, 60 + i, module="TraceFreshBig", args={"entropy": 1}) for i in range(2)]


def c08(cx):
    if cx.quick:
        return system(cx, dict(Ty="QUAD", P=2, NReg=2, MaxLen=2, Coefs="{1}", YRegs="{1}", FewKeys="TRUE")) + [
            H(cx, "toy10007", 90, 1, "lists"), H(cx, "toy10007", 60, 2, "lists", depth=60), H(cx, "toy3", 90, 3, "lists"), H(cx, "toy5", 60, 4, "stmt"), H(cx, "bls", 16, 5, "lists", depth=30),
            H(cx, "toy10007", 6, 6, "lists", MaxVals=24, MaxLen=80), H(cx, "toy10007", 5, 7, "lists", MaxVals=80, MaxLen=300), H(cx, "toy10007", 24, 8, "lists", NReg=5, MaxLen=12), H(cx, "clear", 30, 9, "lists")]
    return (system(cx, dict(Ty="QUAD", P=2, NReg=2, MaxLen=2, Coefs="{1}", YRegs="{1}", FewKeys="TRUE"), dict(Ty="QUAD", P=2, NReg=2, MaxLen=2, Coefs="{0, 1}", YRegs="{1, 2}", FewKeys="TRUE"))
            + [H(cx, "toy10007", 400, 10 + k, "lists", depth=40 + 20 * k) for k in range(6)] + [H(cx, "toy3", 400, 20 + k, "lists") for k in range(3)] + [H(cx, "bls", 60, 30 + k, "lists", threads=2) for k in range(4)] + [H(cx, "clear", 200, 50, "lists"), H(cx, "clear", 100, 51, "stmt")]
            + [H(cx, "toy10007", 40, 40, "lists", MaxVals=24, MaxLen=80), H(cx, "toy10007", 24, 41, "lists", MaxVals=80, MaxLen=300), H(cx, "toy10007", 150, 42, "lists", NReg=5, MaxLen=12, depth=60)])


def c09(cx):
    if cx.quick:
        return system(cx, dict(Ty="QUAD", P=2, NEq=2, FewKeys="TRUE", Coefs="{1}")) + [
            H(cx, "toy10007", 70, 1, "stmt"), H(cx, "toy10007", 50, 2, "stmt", depth=60, threads=4), H(cx, "toy3", 70, 3, "stmt"), H(cx, "toy5", 50, 4, "stmt", NEq=5, NPrf=5), H(cx, "bls", 12, 5, "stmt", depth=36),
            H(cx, "toy10007", 16, 6, "stmt", NEq=6, NPrf=6, depth=60), H(cx, "toy10007", 5, 7, "stmt", MaxVals=20, MaxLen=60), H(cx, "clear", 16, 8, "stmt")]
    return (system(cx, dict(Ty="QUAD", P=2, NEq=2, NPrf=2, FewKeys="TRUE", Coefs="{1}"))
            + [H(cx, "toy10007", 400, 10 + k, "stmt", depth=40 + 20 * k, threads=1 + k) for k in range(6)] + [H(cx, "toy3", 400, 20 + k, "stmt") for k in range(3)] + [H(cx, "bls", 60, 30 + k, "stmt", threads=2) for k in range(4)] + [H(cx, "clear", 200, 50 + k, "stmt", NEq=3 + 2 * k, NPrf=3 + 2 * k) for k in range(2)]
            + [H(cx, "toy10007", 100, 40 + k, "stmt", NEq=8, NPrf=8, depth=70 + 30 * k) for k in range(2)] + [H(cx, "toy10007", 30, 43, "stmt", MaxVals=20, MaxLen=60)])


def c10(cx):
    big = lambda q: [C(cx, "group", "clear", 2000 * q, 80), C(cx, "group", "clear", 2500 * q, 81, args={"edges": 1}), C(cx, "group", "clear", 3 * 140 * q, 82, args={"sweep": 1})]
    if cx.quick:
        return big(1) + [C(cx, "group", i, 8000, s) for s, i in enumerate(("toy3", "toy5", "toy10007"))] + [X(cx, "group", 900, 5), X(cx, "group", 3000, 6, args={"edges": 1}), C(cx, "group", "toy10007", 3 * 300, 7, args={"sweep": 1}), X(cx, "group", 3 * 36, 8, args={"sweep": 1}), C(cx, "matrix", "toy10007", 900, 9, args={"conv": 1}), X(cx, "matrix", 60, 10, args={"conv": 1})]
    return big(10) + [C(cx, "group", i, 40000, 10 * k + s) for k in range(3) for s, i in enumerate(("toy3", "toy5", "toy10007"))] + [X(cx, "group", 8000, 50 + k, args={"edges": 2 * (k % 2)}) for k in range(6)] + [C(cx, "group", "toy10007", 3 * 1400, 60 + k, args={"sweep": 1}) for k in range(2)] + [X(cx, "group", 3 * 140, 70, args={"sweep": 1}), C(cx, "matrix", "toy10007", 6000, 71, args={"conv": 1}), X(cx, "matrix", 600, 72, args={"conv": 1})]


def c11(cx):
    big = lambda q: [C(cx, "maps", "clear", 1000 * q, 80), C(cx, "maps", "clear", 1500 * q, 81, args={"edges": 1}), C(cx, "maps", "clear", 6 * 70 * q, 82, args={"sweep": 1}, threads=3)]
    if cx.quick:
        return big(1) + [C(cx, "maps", i, 6000, s) for s, i in enumerate(("toy3", "toy5", "toy10007"))] + [X(cx, "maps", 400, 5), X(cx, "maps", 900, 6, args={"edges": 1}), C(cx, "maps", "toy10007", 6 * 300, 7, args={"sweep": 1}), C(cx, "maps", "toy5", 6 * 140, 9, args={"sweep": 1}, threads=4), X(cx, "maps", 6 * 20, 8, args={"sweep": 1})]
    return big(8) + [C(cx, "maps", i, 30000, 10 * k + s) for k in range(3) for s, i in enumerate(("toy3", "toy5", "toy10007"))] + [X(cx, "maps", 4000, 50 + k, args={"edges": 2 * (k % 2)}) for k in range(6)] + [C(cx, "maps", "toy10007", 6 * 1100, 60 + k, args={"sweep": 1}, threads=1 + k) for k in range(3)] + [X(cx, "maps", 6 * 70, 70, args={"sweep": 1})]


def c12(cx):
    O = lambda np, nr, nc, k, w, seed, **kw: lambda: gsv.forced(cx, np, nr, nc, k, w, seed, **kw)
    big = lambda q: [C(cx, "matrix", "clear", 900 * q, 90), C(cx, "matrix", "clear", 500 * q, 91, args={"edges": 1}), C(cx, "matrix", "clear", 84 * 20 * q, 92, args={"sweep": 1, "lo": 1, "hi": 1 + 20 * q}), C(cx, "sched", "clear", 20 * q, 93)]
    if cx.quick:
        return big(1) + [O(1, 2, 2, 2, 2, 1), O(1, 1, 4, 1, 3, 2), O(2, 2, 1, 3, 2, 3), O(1, 3, 2, 2, 3, 4, limit=120), O(1, 2, 2, 2, 2, 5, workers=2), C(cx, "matrix", "toy3", 3000, 1, threads=2), C(cx, "matrix", "toy10007", 3000, 2), C(cx, "matrix", "toy10007", 144, 3, args={"sizes": BIG}),
                C(cx, "matrix", "toy5", 84, 4, args={"sizes": HUGE.replace("130x130,", "").replace("64x64,", "")}),
                C(cx, "matrix", "toy10007", 84 * 36, 8, args={"sweep": 1, "lo": 1, "hi": 37}), C(cx, "matrix", "toy10007", 84 * 36, 9, args={"sweep": 1, "lo": 37, "hi": 73}),
                C(cx, "sched", "toy10007", 120, 5), C(cx, "sched", "toy5", 10, 6, args={"sizes": "16x17,33x5,2x64,20x31,1x100", "reps": 6}), X(cx, "matrix", 200, 7), X(cx, "matrix", 300, 10, args={"edges": 1})]
    return (big(4) + [O(1, 2, 2, 2, 2, 1), O(1, 2, 2, 2, 4, 2, workers=2), O(1, 3, 2, 2, 3, 3), O(1, 2, 3, 3, 4, 4), O(1, 5, 1, 2, 3, 5), O(1, 1, 5, 2, 5, 6), O(2, 2, 1, 2, 3, 7), O(3, 1, 2, 2, 3, 8), O(2, 1, 3, 2, 2, 9, workers=3)]
            + [C(cx, "matrix", "toy3", 20000, 10 + k, threads=2) for k in range(2)] + [C(cx, "matrix", "toy10007", 20000, 20 + k) for k in range(4)]
            + [C(cx, "matrix", "toy10007", 576, 30 + k, args={"sizes": BIG}) for k in range(4)] + [C(cx, "matrix", "toy5", 216, 40 + k, args={"sizes": HUGE}) for k in range(3)]
            + [C(cx, "matrix", "toy10007", 84 * 36, 80 + k, args={"sweep": 1, "lo": 1 + 36 * k, "hi": 37 + 36 * k}) for k in range(6)]
            + [C(cx, "sched", "toy10007", 1500, 50 + k) for k in range(4)] + [C(cx, "sched", "toy5", 40, 60 + k, args={"sizes": BIG, "reps": 20}) for k in range(3)] + [X(cx, "matrix", 1500, 70 + k, args={"edges": 2 * (k % 2)}) for k in range(6)])


def wiremc(cx, **kw):
    return [lambda: mc(cx, "MCWire", consts=kw, workers=4 if cx.quick else 8, mem="4g")]


def c13(cx):
    W = lambda inst, n, s, **kw: C(cx, "wire", inst, n, s, module="TraceWire", **kw)
    if cx.quick:
        return wiremc(cx, Arts='{"Tag", "Com1", "Com2", "Commit1", "QUAD"}') + [
            W("toy7c", 1600, 1, args={"big": 300}), W("toy7c", 1600, 2, threads=4), W("toy10007", 1600, 3, args={"big": 70000}), W("toy3", 1600, 4),
            W("bls", 480, 5, args={"big": 140}), W("bls", 480, 6)]
    return wiremc(cx, Small=2) + [W(i, 12000, 10 * k + j, threads=1 + 2 * k, args={"big": 1000 * k + 256}) for k in range(3) for j, i in enumerate(("toy7c", "toy10007", "toy3", "toy5"))] + [
        W("bls", 4000, 40 + k, threads=1 + k) for k in range(4)]


def c14(cx):
    D = lambda inst, n, s, **kw: C(cx, "hostile", inst, n, s, module="TraceHostile", **kw)
    if cx.quick:
        return wiremc(cx, Arts='{"Tag", "Com2", "Commit2", "MS1"}') + [
            D("toy7c", 330, 1, args={"lo": 0, "hi": 128}), D("toy7c", 330, 2, args={"lo": 128, "hi": 256}), D("toy7c", 440, 3), D("toy7c", 440, 4),
            D("bls", 121, 5), D("bls", 121, 6)]
    return wiremc(cx, Small=2) + [D("toy7c", 4400, 10 + k, args={"lo": 32 * k, "hi": 32 * k + 32}) for k in range(8)] + [D("bls", 1100, 20 + k) for k in range(4)]


CTX = [("fwd", 1), ("shuf", 8), ("rev", 2), ("pool", 3), ("conc", 6), ("pool", 16), ("shuf", 1)]


def c15(cx):
    M = lambda inst, n, s, ctx=CTX, **a: lambda: gsv.memo(cx, inst, n, s, ctx, a)
    if cx.quick:
        return [M("toy10007", 40, 1), M("toy10007", 40, 2), M("toy5", 40, 3), M("toy3", 40, 4), M("toy10007", 6, 5, sizes="33x3,1x64,17x16,40x2,2x129,9x9"),
                M("clear", 8, 8, CTX[:5]), M("bls", 3, 6, CTX[:5]), M("bls", 2, 7, [("conc", 4), ("rev", 3), ("pool", 8)])]
    return ([M("toy10007", 200, 10 + k, CTX + [("conc", 12), ("shuf", 3), ("pool", 5)]) for k in range(4)] + [M("toy3", 300, 20 + k) for k in range(2)] + [M("toy5", 300, 30), M("clear", 80, 60)]
            + [M("toy10007", 12, 40 + k, sizes=BIG) for k in range(3)] + [M("bls", 14, 50 + k) for k in range(4)])


def c16(cx):
    if cx.quick:
        return [C(cx, "arteq", "toy3", 9600, 1), C(cx, "arteq", "toy10007", 6000, 2), C(cx, "arteq", "toy5", 6000, 3, threads=2), C(cx, "arteq", "clear", 2000, 6), C(cx, "arteq", "bls", 1200, 4), C(cx, "arteq", "bls", 1200, 5)]
    return [C(cx, "arteq", i, 60000, 10 * k + j) for k in range(3) for j, i in enumerate(("toy3", "toy5", "toy10007"))] + [C(cx, "arteq", "bls", 20000, 60 + k) for k in range(4)] + [C(cx, "arteq", "clear", 20000, 70)]


PLANS = {"C%02d" % i: globals()["c%02d" % i] for i in range(1, 17) if "c%02d" % i in globals()}


def replay(path):
    """repeat a recorded violation on the current tree"""
    import json
    rec = json.load(open(path))
    gsv.build()
    r = gsv.rerun(rec)
    if r.violation:
        print("event %s: %s" % (r.replay["line"], r.violation[:500]))
        print(json.dumps(r.replay["event"])[:2000])
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1
    print("not reproduced on this tree")
    return 0
