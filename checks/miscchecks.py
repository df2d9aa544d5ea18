"""C16, C17, C22: ids, paths and the path tree; C19, C20, C23 follow below."""
from core import *
import treechecks as tc

DENSE = [2**k - 1 for k in range(2, 16)]
HEX = {3: 162, 7: 91, 15: 66, 31: 52, 63: 43, 127: 37, 255: 32, 511: 29, 1023: 26, 2047: 24, 4095: 22, 8191: 20, 16383: 19}
LIM = 10**9


def id_models(ctx):
    inv = "INVARIANTS CounterShows WalkShows"
    for f, b in ctx.pick([(3, 100), (7, 200)], [(3, 100), (7, 200), (2, 256), (15, 1000), (3, 1000)]):
        ctx.model("dense ids, fan-out %d, %d ids" % (f, b), "IdPaths", cfg("SPECIFICATION MSpec", 'CONSTANTS Machine = "counter" Fan = %d Bound = %d' % (f, b),
                  inv, "PROPERTY CounterEnds", "CHECK_DEADLOCK FALSE"))
    for f, b in ctx.pick([(2, 4), (3, 5)], [(2, 4), (3, 5), (2, 6), (4, 6)]):
        ctx.model("sparse ids, fan-out %d, all hash functions on %d ids" % (f, b), "IdPaths", cfg("SPECIFICATION MSpec",
                  'CONSTANTS Machine = "walk" Fan = %d Bound = %d' % (f, b), inv, "PROPERTY WalkEnds", "CHECK_DEADLOCK FALSE"))


IDCONST = 'CONSTANTS Machine = "none" Fan = 2 Bound = 2\n'


def nine(n):
    return "%09d" % n


def dense_sample(ctx, f, count):
    rng = ctx.rng
    ns = {0, 1, 2, LIM - 1, LIM - 2, 10**8, 10**8 - 1, 2**29, 536870912 - 1, 2**16, 2**16 - 1, 2**24}
    k = 1
    while k < LIM:
        for d in (-1, 0, 1):
            ns.add(k + d)
        ns.add(k * (f - 1))
        ns.add(k * f - 1)
        k *= f
    k = 1
    while k < LIM:
        ns |= {k, k - 1, 9 * k, k + 1}
        k *= 10
    # numbers that differ in one digit, in base fan-out and in decimal
    for _ in range(4):
        n = rng.randrange(LIM)
        k = 1
        while k < LIM:
            ns |= {n, n + k, n - k, n + k * rng.randrange(1, f), (n // k) * k}
            k *= f
        k = 1
        while k < LIM:
            ns |= {n + k, n - k, n // k, n % (k * 10)}
            k *= 10
        s = list(nine(n))
        rng.shuffle(s)
        ns |= {int("".join(s)), int("".join(reversed(s)))}
    ns = [n for n in ns if 0 <= n < LIM]
    while len(ns) < count:
        ns.append(rng.randrange(10**rng.randrange(1, 10)))
    rng.shuffle(ns)
    return ns


def bad_dense(ctx):
    good = lambda: nine(ctx.rng.randrange(LIM))
    res = ["", "0", "12345678", "1234567890", "+12345678", "-12345678", "-00000001", "+00000000", " 12345678", "12345678 ", "1234 5678", "1_2345678", "12_345_67", "0x1234567",
           "0b1010101", "1234567.8", "1e8000000", "0000000-1", "abcdefabc", "12345678a", "a12345678", "\t12345678", "12345678\n", "999999999999999999", "٣٣٣٣a", "１２３", "²12345678", "1234567²",
           "123,45678", "0.0000001", "0x", "NaN", "000000000 ", "00000000", "0000000000", "+1e000000"]
    out = [["id", x] for x in res]
    for i in range(9):
        for c in ctx.rng.sample("+-_ .aAxfeEgG/:,;%\x00\x1f", 4):
            s = list(good())
            s[i] = c
            out.append(["id", "".join(s)])
    for i in range(9):
        b = [ord(c) for c in good()]
        b[i] = ctx.rng.choice([0, 47, 58, 128, 178, 255])
        out.append(["bytes", b])
    return out


def idscn(ctx, kind, ops=(), **c):
    return {"kind": kind, "par": False, "cfg": c, "ops": list(ops)}


def judge_ids(ctx, scns, what):
    for i, s in enumerate(scns):
        s["sid"] = i + 1
    evs = ctx.replay(scns, timeout=ctx.pick(400, 3400))
    ctx.cov["mappings"] = sum(e["ev"] == "path" for e in evs) + sum(e.get("count", 0) for e in evs if e["ev"] == "run")
    ctx.cov["refused"] = sum(bool(e.get("refused")) for e in evs)
    # runs over the same fan-out are compared with each other: no splitting there
    runs = {e["sid"] for e in evs if e["ev"] == "run"}
    ctx.validate("IdPathsTrace", IDCONST, [e for e in evs if e["sid"] in runs] or evs[:1], [s for s in scns if s["sid"] in runs] or scns[:1],
                 lambda e: what + json.dumps(trim(e)), shards=1)
    rest = [s for s in scns if s["sid"] not in runs]
    if rest:
        ctx.validate("IdPathsTrace", IDCONST, [e for e in evs if e["sid"] not in runs], rest, lambda e: what + json.dumps(trim(e)), shards=CORES)


def c16(ctx):
    id_models(ctx)
    scns = []
    for f in DENSE:
        ids = [["id", nine(n)] for n in dense_sample(ctx, f, ctx.pick(260, 1500))]
        ops = ids + bad_dense(ctx)
        ctx.rng.shuffle(ops)
        scns.append(idscn(ctx, "paths", ops, type="dense", fan=f))
    for f in DENSE:
        # runs of consecutive ids around boundaries
        ops, k, starts = [], 1, [0, LIM - 30000]
        while k * f < LIM:
            k *= f
            starts += [k - 10000, k * ctx.rng.randrange(1, f) - 10000]
        starts += [ctx.rng.randrange(LIM - 30000) for _ in range(8)]
        last = 0
        for a in sorted({max(0, min(a, LIM - 20000)) for a in starts}):
            a = max(a, last)
            n = min(20000, LIM - a)
            if n > 0:
                ops.append(["run", a, n])
            last = a + n
        scns.append(idscn(ctx, "paths", ops, type="dense", fan=f))
    if ctx.thorough:
        # every id
        for f in ctx.rng.sample(DENSE[:9], 3) + ctx.rng.sample(DENSE[9:], 1):
            per = LIM // 32
            for i in range(32):
                scns.append(idscn(ctx, "paths", [["run", i * per, per]], type="dense", fan=f))
    scns.append(idscn(ctx, "fanouts", type="dense", to=2100, all=1))
    scns.append(idscn(ctx, "fanouts", type="dense", **{"from": 2101}))
    judge_ids(ctx, scns, "nine-digit ids and their paths: ")


def hex_sample(ctx, f, count):
    rng, L = ctx.rng, HEX[f]
    lo, hi = f**(L - 1), f**L
    h = lambda n: "%x" % n
    res = ["0", "00", "1", "f", "F", "a", "c0ffee", "C0FFEE", "0" * 64, "f" * 64, "F" * 64, "1" + "0" * 63, "8" + "0" * 63, "7" + "f" * 63, "0" * 63 + "1", "f" * 200, "1" * 301, "deadbeef" * 8]
    res += [h(lo), h(lo - 1), h(lo + 1), h(hi - 1), h(hi), h(hi + 1), h(lo).upper(), "0" + h(lo), "000" + h(hi - 1), h(2 * lo), h(lo * (f - 1)), h(hi // 2)]
    for k in range(0, L, max(1, L // 6)):
        res += [h(lo + f**k), h(hi - 1 - f**k), h(lo + f**k * (f - 1))]
    n = rng.randrange(lo, hi)
    for k in rng.sample(range(L - 1), min(6, L - 1)):
        res += [h((n + f**k) % hi)]
    while len(res) < count:
        c = rng.randrange(6)
        if c == 0:
            res.append(h(rng.randrange(lo, hi)))
        elif c == 1:
            res.append(h(rng.randrange(lo)))
        elif c == 2:
            res.append("".join(rng.choice("0123456789abcdefABCDEF") for _ in range(rng.randrange(1, 90))))
        elif c == 3:
            res.append("".join(rng.choice("0123456789abcdef") for _ in range(64)))
        elif c == 4:
            res.append(h(rng.randrange(2**rng.randrange(1, 256))))
        else:
            res.append("0" * rng.randrange(1, 9) + h(rng.randrange(hi)))
    # ids that are hashed many times before their path is long enough
    def hashes(x):
        k, n = 0, int(x, 16)
        while not lo <= n < hi and k < 60:
            x = hashlib.sha256(x.encode()).hexdigest()
            k, n = k + 1, int(x, 16)
        return k
    many = sorted((h(rng.randrange(2**64)) for _ in range(ctx.pick(4000, 40000))), key=hashes)
    res += many[-4:]
    rng.shuffle(res)
    return res


def bad_hex(ctx):
    res = ["", "-1", "+1", "-", "+", "-0", "+0", "g", "0x12", "0X1f", "12_34", "_1", "1_", " 1", "1 ", "1\n", "\t1", "1.5", "xyz", "--1", "+-1", "-+1", "abcdefg", "12 34", "é", "１２", "#ff", "ffh", "0b12z", "\x00", "1\x00",
           "-" + "f" * 63, "+" + "f" * 63, "-" + "f" * 64, "+" + "f" * 64, "f" * 63 + "g", "g" + "f" * 63, "f" * 32 + "-" + "f" * 31, "f" * 32 + " " + "f" * 31]
    return [["id", x] for x in res] + [["bytes", [49, x]] for x in (128, 178, 255, 47, 58, 64, 71, 96, 103)]


def c17(ctx):
    id_models(ctx)
    scns = []
    per = ctx.pick(60, 300)
    for f in HEX:
        ids = [["id", x] for x in hex_sample(ctx, f, ctx.pick(110, 900))] + bad_hex(ctx)
        ctx.rng.shuffle(ids)
        for i in range(0, len(ids), per):
            scns.append(idscn(ctx, "paths", ids[i:i + per], type="hex", fan=f))
    for k in range(8):
        scns.append(idscn(ctx, "fanouts", type="hex", step=8, **{"from": k}))
    scns.append(idscn(ctx, "fanouts", type="hex", to=300, all=1, id="f" * 64))
    ctx.rng.shuffle(scns)
    judge_ids(ctx, scns, "hexadecimal ids and their paths: ")


# ---- the path tree ------------------------------------------------------------

def c22(ctx):
    inv = "INVARIANTS OncePerAncestor Shape KeysDistinct"
    for f, d, m in ctx.pick([(2, 2, 1), (3, 1, 1)], [(2, 2, 1), (3, 1, 2), (2, 2, 2), (3, 2, 0), (2, 3, 0)]):
        ctx.model("path tree, fan-out %d, depth %d" % (f, d), "PathTree", cfg("SPECIFICATION Spec", "CONSTANTS PFan = %d PDepth = %d Modes = %d" % (f, d, m),
                  inv, "PROPERTIES KeysStay OnlyPath", "CHECK_DEADLOCK FALSE"))
    rng = ctx.rng
    scns = []
    shapes = [(2, 1), (2, 2), (2, 5), (3, 3), (5, 2), (4, 4), (12, 2), (12, 3), (2, 12), (7, 11), (130, 2), (300, 2), (3, 40)]
    for fan, depth in shapes:
        for mode in ("tokens", "ints", "nils", "same"):
            for _ in range(ctx.pick(2, 12)):
                slots = sorted({0, 1, fan - 1, min(fan - 1, 11), min(fan - 1, 111), rng.randrange(fan)})
                ids = set()
                for _ in range(rng.randrange(2, 9)):
                    if ids and rng.random() < .7:        # shares a prefix with another
                        p = list(rng.choice(sorted(ids)))
                        p[rng.randrange(depth)] = rng.choice(slots)
                        ids.add(tuple(p))
                    else:
                        ids.add(tuple(rng.choice(slots) for _ in range(depth)))
                if fan > 11 and depth > 1:                # keys that look alike
                    ids |= {(1,) + (11,) * (depth - 1), (11,) * (depth - 1) + (1,), (1, 1) + (1,) * (depth - 2)}
                ids = [".".join(map(str, p)) for p in ids]
                ops = [["get", rng.choice(ids)]]
                for _ in range(rng.randrange(4, ctx.pick(16, 30) if fan * depth < 200 else 10)):
                    ops.append([rng.choice(["put", "put", "get"]), rng.choice(ids)])
                ops += [["get", x] for x in ids]
                scns.append({"kind": "ptree", "par": False, "cfg": {"fan": fan, "mode": mode, "scribble": rng.randrange(2)}, "ops": ops})
    # every history of three insertions over four leaves of a small tree
    leaves = ["0.0", "0.1", "1.0", "1.1"]
    for a in leaves:
        for b in leaves:
            for c in leaves:
                scns.append({"kind": "ptree", "par": False, "cfg": {"fan": 2, "scribble": rng.randrange(2)}, "ops": [["put", a], ["put", b], ["put", c]] + [["get", x] for x in leaves]})
    rng.shuffle(scns)
    for i, s in enumerate(scns):
        s["sid"] = i + 1
    evs = ctx.replay(scns)
    ctx.cov["calls"] = sum(e["ev"] == "call" for e in evs)
    ctx.validate("PathTreeTrace", "CONSTANTS PFan = 2 PDepth = 2 Modes = 0\n", evs, scns, lambda e: "the path tree did something its specification does not allow: " + json.dumps(trim(e)))


# ---- sharing ------------------------------------------------------------------

def c19(ctx):
    inv = "INVARIANTS Unchanged Verdicts Complete"
    base = dict(Layers=2, Rewrites="FALSE", Scratch="FALSE", NoJoin="FALSE", ProverOn="TRUE")
    consts = lambda n, **k: "CONSTANTS Verifiers = {%s} " % ", ".join("v%d" % i for i in range(n)) + " ".join("v%d = v%d" % (i, i) for i in range(n)) + " " + " ".join("%s = %s" % x for x in dict(base, **k).items())
    ctx.model("sharing", "Sharing", cfg("SPECIFICATION Spec", consts(2), inv, "CHECK_DEADLOCK FALSE"))
    if ctx.thorough:
        ctx.model("sharing, three verifiers", "Sharing", cfg("SPECIFICATION Spec", consts(3, Layers=1), inv, "CHECK_DEADLOCK FALSE"))
        ctx.model("sharing, three layers", "Sharing", cfg("SPECIFICATION Spec", consts(2, Layers=3, ProverOn="FALSE"), inv, "CHECK_DEADLOCK FALSE"))
    for name, what in (("Rewrites", "Unchanged"), ("Scratch", "Verdicts"), ("NoJoin", "Verdicts")):
        ctx.model("sharing with " + name, "Sharing", cfg("SPECIFICATION Spec", consts(2, **{name: "TRUE"}), "INVARIANT " + what, "CHECK_DEADLOCK FALSE"), expect_violation=what)
    ctx.model("prover without join", "Sharing", cfg("SPECIFICATION Spec", consts(1, NoJoin="TRUE"), "INVARIANT Complete", "CHECK_DEADLOCK FALSE"), expect_violation="Complete")
    rng = ctx.rng

    def scns(sets, args, **kw):
        out = []
        for fan, depth in sets:
            ids = set()
            while len(ids) < 4:
                ids.add(".".join(str(rng.randrange(fan)) for _ in range(depth)))
            ids = sorted(ids)
            ops = [["set", x, str(rng.choice([0, 1, 2**31, 2**62, rng.randrange(2**40)]) if k else "77")] for k, x in enumerate(ids[:3])]
            out.append({"kind": "share", "par": bool(rng.getrandbits(1)), "cfg": dict(kw, fan=fan, depth=depth, absent=ids[3], seed=rng.randrange(2**31)), "ops": ops})
        for name, n, m in args:
            out.append({"kind": "sharearg", "par": bool(rng.getrandbits(1)), "cfg": dict(kw, arg=name, n=n, m=m, seed=rng.randrange(2**31)), "ops": []})
        for i, s in enumerate(out):
            s["sid"] = i + 1
        return out

    args = [("range", 2, 1), ("range", 4, 1), ("sum", 4, 1), ("sum", 4, 3), ("sum", 8, 2), ("equal", 5, 2), ("equal", 5, 4), ("equality", 5, 1), ("ipa", 4, 1), ("ipa", 8, 1), ("reduce", 4, 1), ("reduce", 8, 1),
            ("opening", 5, 1), ("opening", 9, 1), ("aggregate", 5, 3), ("aggregate", 9, 2)]
    what = lambda e: "shared objects: " + json.dumps(trim(e, 2500))
    s = scns(ctx.pick([(3, 2), (3, 3), (3, 2), (7, 2), (3, 4), (3, 3)], [(3, 2), (3, 3), (7, 2), (3, 4), (7, 3), (15, 2), (3, 8)] * 3), args * ctx.pick(1, 4), alone=ctx.pick(24, 80), phases=ctx.pick(2, 6), threads=8, each=ctx.pick(3, 6))
    evs = ctx.replay(s, timeout=ctx.pick(400, 3000), env={"GOMAXPROCS": "8"})
    ctx.validate("SharingTrace", "", evs, s, what)
    ctx.cov["uses"] = sum(e["ev"] == "do" for e in evs)
    # under the race detector
    s = scns(ctx.pick([(3, 2), (3, 3)], [(3, 2), (3, 3), (7, 2), (3, 5)] * 2), args if ctx.thorough else args[::2] + args[1:2], alone=0, phases=2, threads=ctx.pick(3, 6), each=ctx.pick(2, 5))
    evs = ctx.replay(s, timeout=ctx.pick(400, 3000), race=True, env={"GOMAXPROCS": "8"})
    ctx.validate("SharingTrace", "", evs, s, what)
    ctx.cov["uses_watched_for_races"] = sum(e["ev"] == "do" for e in evs)


# ---- randomness ---------------------------------------------------------------

def c20(ctx):
    inv = "INVARIANTS NeverTwice NeverBare SetsDiffer"
    consts = lambda src, **k: 'CONSTANTS Processes = {p, q} p = p q = q Contents = {0, 1} Source = "%s" ' % src + " ".join("%s = %s" % x for x in dict(dict(MaxSteps=4, Elements=2), **k).items())
    ctx.model("randomness", "Masks", cfg("SPECIFICATION Spec", consts("fresh", MaxSteps=ctx.pick(4, 5)), inv, "CHECK_DEADLOCK FALSE"))
    for src, what in (("reseeded", "NeverTwice"), ("by content", "SetsDiffer"), ("by set", "NeverTwice"), ("one for all", "NeverTwice"), ("none at zero", "NeverBare")):
        ctx.model("randomness " + src, "Masks", cfg("SPECIFICATION Spec", consts(src), "INVARIANT " + what, "CHECK_DEADLOCK FALSE"), expect_violation=what)
    rng = ctx.rng
    # stored vertices of the tree, the same histories in several processes
    s = tc.exhaustive(ctx, ["set"], 2, closing=[["root"]], values=(0, 5))
    s += tc.histories(ctx, ["set"] * 5 + ["root", "get"], ctx.pick(14, 30), ctx.pick(2, 10), [["root"]])
    s += tc.histories(ctx, ["set"] * 5, ctx.pick(10, 20), ctx.pick(2, 8), impl="tree", big=False)
    s = [json.loads(json.dumps(x)) for x in s for _ in range(2 if len(x["ops"]) < 12 else 1)]
    for i, x in enumerate(s):
        x["sid"] = i + 1
    evs = ctx.replay(s)
    ctx.validate("LiabilitySetTrace", tc.watch("nonce"), evs, s, tc.describe, shards=1)
    ctx.cov["vertices"] = sum(e["ev"] == "put" for e in evs)
    # everything masked in the proofs
    out = []
    for fan, depth, sets, proofs in ctx.pick([(3, 2, 2, 3), (3, 3, 2, 2), (7, 2, 2, 2), (3, 4, 1, 2)], [(3, 2, 4, 6), (3, 3, 3, 4), (7, 2, 3, 4), (3, 4, 2, 4), (3, 8, 2, 2), (15, 2, 2, 3), (7, 3, 2, 3)]):
        for zero in (True, False):
            for _ in range(2):
                ids = tc.ids_for(ctx, fan, depth, 3)
                ops = [["set", x, "0" if zero else str(rng.choice([0, 1, 1, 2**40]))] for x in ids[:2]] + [["set", ids[0], "0" if zero else "7"]]
                out += [{"kind": "masks", "par": False, "cfg": {"fan": fan, "depth": depth, "sets": sets, "proofs": proofs}, "ops": ops}]
    for name, n, m in [("range", 2, 1), ("range", 4, 1), ("range", 8, 1), ("sum", 2, 1), ("sum", 4, 1), ("sum", 8, 1), ("sum", 4, 2), ("sum", 4, 3), ("sum", 8, 5), ("equal", 5, 2), ("equal", 5, 4), ("equal", 9, 2), ("equality", 5, 1), ("equality", 9, 1)]:
        for style in (0, 1, 2):
            seed = rng.randrange(2**31)
            for _ in range(ctx.pick(2, 8)):      # the same statement in several processes
                out.append({"kind": "maskarg", "par": bool(rng.getrandbits(1)), "cfg": {"arg": name, "n": n, "m": m, "style": style, "seed": seed, "proofs": ctx.pick(3, 10)}, "ops": []})
    # what becomes of the drawn numbers
    for name, n, m, parts in ctx.pick([("range", 2, 1, 8), ("sum", 2, 1, 1), ("sum", 4, 3, 1), ("equal", 5, 2, 1), ("equal", 5, 4, 1), ("equality", 5, 1, 1)],
                                      [("range", 2, 1, 8), ("range", 4, 1, 16), ("range", 8, 1, 32), ("sum", 8, 1, 1), ("sum", 16, 3, 1), ("equal", 5, 8, 1), ("equal", 9, 2, 1), ("equality", 9, 1, 1)]):
        for style in (0, 1):
            seed = rng.randrange(2**31)
            out += [{"kind": "entropy", "par": False, "cfg": {"arg": name, "n": n, "m": m, "style": style, "seed": seed, "part": k, "parts": parts}, "ops": []} for k in range(parts)]
    rng.shuffle(out)
    for i, x in enumerate(out):
        x["sid"] = i + 1
    evs = ctx.replay(out)
    ctx.cov["perturbed_draws"] = sum(e["tried"] for e in evs if e["ev"] == "entropy")
    ctx.cov["masked_elements"] = sum(len(e["list"]) for e in evs if e["ev"] == "elems")
    ctx.cov["uncalibrated"] = sum(e["ev"] == "uncalibrated" for e in evs)
    ctx.validate("MasksTrace", "", evs, out, lambda e: "random material occurs twice or not at all: " + json.dumps(trim(e, 1500)), shards=1)


# ---- public parameters --------------------------------------------------------

def c23(ctx):
    inv = "INVARIANTS Withheld Openable Critically Committable"
    consts = lambda m, n=6: 'CONSTANTS MaxN = %d Mistake = "%s"' % (n, m)
    ctx.model("reference string", "Params", cfg("SPECIFICATION Spec", consts("none", ctx.pick(12, 32)), inv, "CHECK_DEADLOCK FALSE"))
    for m, what in (("critical published", "Withheld"), ("one too early", "Openable"), ("generator at zero", "Critically"), ("cut short", "Openable")):
        ctx.model("reference string, " + m, "Params", cfg("SPECIFICATION Spec", consts(m), "INVARIANT " + what, "CHECK_DEADLOCK FALSE"), expect_violation=what)
    rng = ctx.rng
    out = []
    add = lambda kind, ops=(), **c: out.append({"kind": kind, "par": False, "cfg": c, "ops": list(ops)})
    for n in ctx.pick([2, 3, 4, 5, 6, 9, 17], list(range(2, 18)) + [33]):
        for _ in range(2):
            add("srs", n=n, poe=rng.choice([0, 2, 4]))
    small, large = [3, 7, 15, 31, 63, 127], ctx.pick([255], [255, 511, 1023])
    for typ in ("dense", "sparse"):
        for f in small:
            for _ in range(2 if f < 64 or ctx.thorough else 1):
                add("params", fan=f, type=typ)
        for f in large if ctx.thorough else large[:1 + (typ == "dense")]:
            add("params", fan=f, type=typ)
    unsupported = [0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 14, 16, 17, 30, 32, 33, 62, 64, 100, 126, 128, 254, 256, 257, 1000, 1022, 1024]
    for typ in ("dense", "sparse"):
        add("noparams", unsupported + sorted(rng.sample([x for x in range(2000) if (x + 1) & x], ctx.pick(20, 200))), type=typ)
    ctxs = ["a", "a 1", "a 11", "1", "11", "", " ", "u", "U range proof", "IPA u", "POE G", "POE H", "POE F", "sum argument Gs", "sum argument H", "range proof Hs", "range proof Fs", "range proof G"]
    gens = [{"N": n, "Ctx": c} for c in ctxs for n in (1, 13, 120)]
    add("gens", gens[:len(gens) // 2])
    add("gens", gens[len(gens) // 2:])
    add("gens", rng.sample(gens, 20))
    for f, d in ctx.pick([(3, 2), (3, 3), (7, 2)], [(3, 2), (3, 3), (7, 2), (7, 4), (15, 2)]):
        add("cross", fan=f, depth=d, id=".".join(str(rng.randrange(f)) for _ in range(d)), amount=rng.choice(["1", "5", str(2**62)]))
    for f, typ in ctx.pick([(15, "dense")], [(15, "dense"), (3, "dense"), (31, "dense"), (31, "sparse")]):
        add("cross", fan=f, type=typ)
    for i, x in enumerate(out):
        x["sid"] = i + 1
    # each scenario in a process of its own where possible; the largest first
    evs = ctx.replay(out, timeout=ctx.pick(450, 3400))
    ctx.cov["pairings"] = sum(len(e["classes"]) for e in evs if e["ev"] == "srs")
    ctx.cov["parameters"] = sum(e["ev"] == "params" for e in evs)
    ctx.validate("ParamsTrace", "", evs, out, lambda e: "public parameters are not what they should be: " + json.dumps(trim({k: v for k, v in e.items() if k not in ("gens", "g1", "g2", "srs", "poesrs", "sumGs", "rangeGs", "classes")}, 900)), shards=1)
    # sets, proofs and totals under the generated parameters
    s = []
    for f, typ in ctx.pick([(7, "dense"), (31, "dense"), (3, "sparse")], [(3, "dense"), (7, "dense"), (15, "dense"), (31, "dense"), (63, "dense"), (127, "dense"), (3, "sparse"), (7, "sparse"), (15, "sparse"), (31, "sparse"), (63, "sparse"), (127, "sparse")]):
        ids = tc.dense_ids(ctx, 8)[-2:] if typ == "dense" else ["%x" % rng.randrange(2**255), "c0ffee"]
        d = tc.DENSE_DEPTH[f] if typ == "dense" else HEX[f]
        s.append(tc.scn([["set", ids[0], "7"], ["set", ids[1], str(2**61)], ["set", ids[0], "12"], ["tot"], ["verifytot"], ["prove", ids[0]], ["prove", ids[1]]][:6 if typ == "sparse" else 7], f, d, ids=typ, params="real", puts="none", par=True))
    evs = ctx.replay(s, timeout=ctx.pick(450, 3400))
    ctx.validate("LiabilitySetTrace", tc.watch("proofs", "total"), evs, s, tc.describe)


# ---- vector algebra -------------------------------------------------------------

def c24(ctx):
    inv = "INVARIANTS Bilinear Splits Turns Inverse Folds Horner Binary"
    ctx.model("vector algebra", "Algebra", cfg("SPECIFICATION Spec", "CONSTANTS N = %d D = %d" % ctx.pick((4, 1), (4, 2)), inv, "CHECK_DEADLOCK FALSE"))
    cases = ctx.generate("GenAlgebra", cfg("SPECIFICATION Spec", "CONSTANTS D = 6 Lengths = {1, 2, 3, 4, 5, 6, 8, 11, 16}", "INVARIANT Emit", "CHECK_DEADLOCK FALSE"),
                         {}, num=ctx.pick(400, 4000), depth=2)
    cases += ctx.generate("GenAlgebra", cfg("SPECIFICATION Spec", "CONSTANTS D = 1 Lengths = {31, 33, 64, 65, 127, 130, 256, 257, 300, 511, 513, 600, 1025}", "INVARIANT Emit", "CHECK_DEADLOCK FALSE"),
                          {}, num=ctx.pick(26, 200), depth=2)
    ctx.rng.shuffle(cases)
    per = 8
    s = [{"kind": "algebra", "par": False, "cfg": {"seed": ctx.rng.randrange(1, 2**31), "powers": int(i % 8 == 0), "cases": cases[i * per:(i + 1) * per]}, "ops": []}
         for i in range((len(cases) + per - 1) // per)]
    evs = ctx.replay(s, timeout=ctx.pick(450, 3000))
    ctx.cov["calls"] = {}
    for e in evs:
        if e["ev"] == "call":
            ctx.cov["calls"][e["op"]] = ctx.cov["calls"].get(e["op"], 0) + 1
    ctx.cov["not_built"] = sorted({e["what"] for e in evs if e["ev"] == "unbuilt"})
    ctx.validate("AlgebraTrace", "", evs, s, lambda e: "an operation of the vector algebra does not do what it stands for: " + json.dumps(trim(e, 900)))


def c25(ctx):
    ids = "Ids = {%s}" % ", ".join("%d" % i for i in range(ctx.pick(4, 6)))
    run = lambda m, name, **kw: ctx.model(name, "Sizes", cfg("SPECIFICATION Spec", 'CONSTANTS %s Mistake = "%s"' % (ids, m), "INVARIANT Exact", "CHECK_DEADLOCK FALSE"), **kw)
    run("none", "sizes")
    for m in ("component left out", "shared counted twice", "shared subtracted twice"):
        run(m, "sizes, " + m, expect_violation="Exact")
    rng = ctx.rng
    s = []
    add = lambda **c: s.append({"kind": "sizes", "par": False, "cfg": dict(c, seed=rng.randrange(1, 2**31)), "ops": []})
    for typ in ("dense", "sparse"):
        for f in ctx.pick([3, 7, 15, 31, 63], [3, 7, 15, 31, 63, 127, 255]):
            add(what="params", fan=f, type=typ)
    for n in ctx.pick([2, 3, 5, 8], list(range(2, 20))):
        add(what="parts", n=n, m=rng.choice([1, 2, 4, 8]))
    for f, d in ctx.pick([(3, 2), (3, 3), (3, 5), (7, 2), (7, 4), (15, 3), (2, 2), (4, 3)], [(3, d) for d in range(2, 12)] + [(7, d) for d in range(2, 8)] + [(15, 3), (31, 3), (2, 9), (4, 3), (5, 5)]):
        for _ in range(ctx.pick(2, 5)):
            ids_used = sorted({".".join(str(rng.randrange(f)) for _ in range(d)) for _ in range(rng.randrange(1, 4))})
            add(what="proof", fan=f, depth=d, ids_used=ids_used)
    for i, x in enumerate(s):
        x["sid"] = i + 1
    evs = ctx.replay(s, timeout=ctx.pick(450, 3400))
    ctx.cov["sizes_compared"] = sum(e["ev"] in ("size", "grown") for e in evs)
    ctx.cov["not_built"] = sorted({e["what"] for e in evs if e["ev"] == "unbuilt"})
    ctx.validate("SizesTrace", "", evs, s, lambda e: "a reported size is not that of the elements it is made of: " + json.dumps(trim(e, 1500)))


def c26(ctx):
    consts = lambda tests: "CONSTANTS Procs = {p, q} Rounds = %d Per = 2 Tests = {%s} p = p q = q" % (ctx.pick(2, 4), ", ".join('"%s"' % t for t in tests))
    ctx.model("shapes", "Shapes", cfg("SPECIFICATION Spec", consts(["enough", "rest"]), "INVARIANTS StaysUp OnlyFitting", "PROPERTIES Answers", "CHECK_DEADLOCK FALSE"))
    ctx.model("shapes, ends not tested", "Shapes", cfg("SPECIFICATION Spec", consts(["rest"]), "INVARIANT StaysUp", "CHECK_DEADLOCK FALSE"), expect_violation="StaysUp")
    ctx.model("shapes, rests not tested", "Shapes", cfg("SPECIFICATION Spec", consts(["enough"]), "INVARIANT OnlyFitting", "CHECK_DEADLOCK FALSE"), expect_violation="OnlyFitting")
    rng = ctx.rng
    s = []

    def add(par=False, **c):
        s.append({"kind": "shapes", "par": par, "cfg": dict(c, seed=rng.randrange(1, 2**31), joint=ctx.pick(10, 60)), "ops": []})
    for f, d in ctx.pick([(3, 2), (3, 3), (3, 5), (7, 3)], [(3, d) for d in range(2, 10)] + [(7, 2), (7, 4), (7, 5), (15, 3)]):
        for par in (False, True):
            add(par, what="liability", fan=f, depth=d)
    for n in ctx.pick([2, 4], [2, 4, 8, 16, 32]):
        for what in ("range", "sum", "reduce") if n < 32 else ("sum", "reduce"):
            add(what=what, n=n)
    for n in (1, 2, 4, 8, 16):
        add(what="ipa", n=n)
    for n, m in ctx.pick([(4, 1), (5, 2), (4, 4), (9, 8)], [(n, m) for n in (4, 5, 9) for m in (1, 2, 4, 8, 16)]):
        add(what="equal", n=n, m=m)
    for i, x in enumerate(s):
        x["sid"] = i + 1
    evs = ctx.replay(s, timeout=ctx.pick(450, 3400))
    ctx.cov["shapes"] = sum(e["ev"] == "shape" for e in evs)
    ctx.cov["not_built"] = sorted({e["what"] for e in evs if e["ev"] == "unbuilt"})
    ctx.validate("ShapesTrace", "", evs, s, lambda e: "a proof of another shape is not refused with an error: " + json.dumps(trim(e, 900)))


CHECKS = {
    "C26": {"run": c26, "level": "model_checking", "assumptions": ["elements themselves are there and valid; only lists have other lengths"]},
    "C25": {"run": c25, "level": "model_checking", "assumptions": ["elements are as long as their Bytes()"]},
    "C24": {"run": c24, "level": "model_checking", "assumptions": ["results are recognized among small multiples of a random unit"]},
    "C23": {"run": c23, "level": "model_checking", "assumptions": ["the largest fan-outs (2047 and more) are only checked for their paths: their parameters take hours to generate"]},
    "C20": {"run": c20, "level": "model_checking", "assumptions": ["two random scalars coincide with negligible probability"]},
    "C19": {"run": c19, "level": "model_checking", "assumptions": ["schedules are those the Go runtime produces; the race detector sees conflicting accesses whatever their order"]},
    "C16": {"run": c16, "level": "model_checking", "assumptions": []},
    "C17": {"run": c17, "level": "model_checking", "assumptions": ["SHA-256 as used by the harness to recompute hash chains is the standard one"]},
    "C22": {"run": c22, "level": "model_checking", "assumptions": ["vertices are Go values of type *sparse.Vertex with an exported Data field, as in the package's interface"]},
}
