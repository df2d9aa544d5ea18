"""C09-C15: vector commitments and the arguments about them."""
from core import *

R = 21888242871839275222246405745257275088548364400416034343698204186575808495617

A = ["group, pairing and SHA-256 behave ideally (no collisions, no known discrete logarithms)"]


def vc_values(ctx):
    """Values whose pairwise differences are never 1 (the specification adds 1)."""
    pool = [5, R - 5, 2**63, 2**63 - 2, 2**31, R - 2**31, 2**62, R - 2**62, 2**127, R // 2, R - 3, ctx.rng.randrange(2**200, 2**201), ctx.rng.randrange(2**60)]
    vals = [0] + ctx.rng.sample(pool, 6)
    reps = [ctx.rng.choice(["", "", "neg", "big"]) for _ in vals]
    return [str(v) for v in vals], reps


def vc(ctx, watch):
    n = dict(N=3, P=3, Withheld="TRUE", Pairs="FALSE")
    mc = lambda **k: "CONSTANTS " + " ".join("%s = %s" % x for x in k.items())
    invs = "INVARIANTS Binding Honest Aggregation AggregationComplete"
    runs = [dict(n), dict(n, N=2, Pairs="TRUE", P=2)]
    if ctx.thorough:
        runs += [dict(n, N=2, P=3, Pairs="TRUE"), dict(n, N=4, P=2), dict(n, N=2, P=5)]
    for k in runs:
        ctx.model("vector commitment %s" % k, "VectorCommitment", cfg("SPECIFICATION Spec", mc(**k), invs, "CHECK_DEADLOCK FALSE"))
    ctx.model("vector commitment, critical power published", "VectorCommitment", cfg("SPECIFICATION Spec", mc(**dict(n, N=2, Withheld="FALSE")),
              "INVARIANT Binding", "CHECK_DEADLOCK FALSE"), expect_violation="Binding")
    scns = []
    many = [] if watch == "single" else ctx.pick([(2, 8, 24, "{17, 40, 65, 129, 200}"), (3, 8, 20, "{257, 300}")],
                                                 [(2, 24, 40, "{17, 40, 65, 129, 200}"), (3, 24, 40, "{257, 300, 513}")])
    for N, num, ops, sizes in [x + ("{}",) for x in ctx.pick([(5, 120, 40), (9, 60, 40), (2, 30, 30), (17, 30, 40), (300, 8, 60)], [(5, 400, 60), (9, 200, 60), (2, 60, 40), (3, 60, 40), (17, 80, 60), (33, 20, 40), (65, 8, 40), (300, 40, 60), (1030, 8, 60)])] + many:
        H = 4
        mod = "---- MODULE G ----\nEXTENDS GenVC\nHandlesV == 1..%d\nSizesV == %s\n====\n" % (H, sizes)
        hs = ctx.generate("G", cfg("SPECIFICATION Spec", "CONSTANTS N = %d NumValues = 7 MaxOps = %d" % (N, ops), "CONSTANT Handles <- HandlesV Sizes <- SizesV",
                                   "INVARIANT Emit", "CHECK_DEADLOCK FALSE"), {"G.tla": mod}, num=num, depth=ops + H + 2)
        for h in hs:
            vals, reps = vc_values(ctx)
            scns.append({"kind": "vc", "cfg": {"n": N, "values": vals, "reps": reps}, "ops": h})
    if watch == "aggregate":
        scns += grinding(ctx, ("weights of openings", 3000))
    ctx.rng.shuffle(scns)
    for i, s in enumerate(scns):
        s["sid"] = i + 1
    evs = ctx.replay(scns, timeout=ctx.pick(450, 3000))
    for k in ("verify", "agg", "altered"):
        x = [e["ok"] for e in evs if e["ev"] == k]
        ctx.cov[k] = {"accepted": sum(x), "refused": len(x) - sum(x)}
    ctx.log(str({k: ctx.cov[k] for k in ("verify", "agg", "altered")}))
    ctx.validate("VCTrace", "CONSTANT Watch = {%s}\n" % tla_str(watch), evs, scns, lambda e: "the vector commitment disagrees with its specification: " + json.dumps(trim(e)))



# ---- arguments ---------------------------------------------------------------

HOWS = ["add", "zero", "neg", "double", "other", "random"]
TOP = 2**63 - 1


def attacks(ctx, args, maxdrop=3):
    """The attacks FiatShamir.tla predicts if inputs are left out of challenges."""
    key = (tuple(args), maxdrop)
    cache = ctx.__dict__.setdefault("attacks", {})
    if key in cache:
        return list(cache[key])
    mod = "---- MODULE M ----\nEXTENDS FiatShamir\nArgsV == {%s}\n====\n" % ", ".join(map(tla_str, args))
    out = ctx.model("challenges of %s" % ", ".join(args), "M", cfg("SPECIFICATION Spec", "CONSTANT MaxDrop = %d" % maxdrop, "CONSTANT Args <- ArgsV",
                    "INVARIANTS Sound Monotone EveryComponentNeeded Emit", "CHECK_DEADLOCK FALSE"), extra={"M.tla": mod}, workers=1)
    res = []
    for line in out.splitlines():
        if line.startswith('"SCN'):
            a = json.loads(json.loads(line)[3:])
            a["dropped"] = sorted(a["dropped"])
            if a not in res:
                res.append(a)
    if not any(a["minimal"] for a in res):
        raise CheckError("no attacks")
    res.sort(key=lambda a: (not a["minimal"], len(a["dropped"]), json.dumps(a, sort_keys=True)))
    cache[key] = list(res)
    return res


ALGEBRA = {"C11": ["range", "link", "poly", "reduce"], "C12": ["sum", "sums", "ipa"], "C13": ["equality", "single", "ipa"], "C14": ["ipa", "ipaG"], "C15": ["reduce"]}


def algebra(ctx):
    """The equations of the arguments over small fields."""
    for a in ALGEBRA[ctx.prop]:
        small = {"sums": 7, "range": 7, "link": 11}.get(a, 5)
        for p in [small] + ([{"link": 17, "sums": 11, "single": 7, "equality": 7, "range": 7, "sum": 5, "poly": 5}.get(a, 7)] if ctx.thorough else []):
            ctx.model("equations of %s over %d elements" % (a, p), "ArgumentAlgebra",
                      cfg("SPECIFICATION Spec", 'CONSTANTS Prime = %d Arg = "%s"' % (p, a), "INVARIANT Sound", "CHECK_DEADLOCK FALSE"), timeout=1500)


def as_attack(ctx, a, **kw):
    return dict({"late": a["late"], "check": a["check"], "dropped": a["dropped"], "sub": "", "entry": ctx.rng.randrange(64), "round": ctx.rng.randrange(8)}, **kw)


SUBS = ["", "next", "prev"]


def spread_attacks(ctx, atts, scns, subs=SUBS, **kw):
    """Minimal attacks are tried with every way of leaving an input out."""
    todo = [(a, sub) for a in atts for sub in (subs if a["minimal"] else [ctx.rng.choice(subs)])]
    for k, (a, sub) in enumerate(todo):
        scns[k % len(scns)]["cfg"].setdefault("attacks", []).append(as_attack(ctx, a, sub=sub, **kw))


def arg(ctx, kind, **c):
    c.setdefault("seed", ctx.rng.randrange(1, 2**31))
    return {"kind": kind, "par": bool(ctx.rng.getrandbits(1)), "cfg": c, "ops": []}


def altered(ctx, kind, parts, hows, use=None, **c):
    """The same proof cannot be used by several processes; every part makes its own."""
    ps = list(range(parts))
    if use:
        ps = ctx.rng.sample(ps, use)
    return [arg(ctx, kind, alter=1, hows=list(hows), part=p, parts=parts, **c) for p in ps]


def judge(ctx, kind, scns, what, timeout=None):
    ctx.rng.shuffle(scns)
    for i, s in enumerate(scns):
        s["sid"] = i + 1
    evs = ctx.replay(scns, timeout=timeout or ctx.pick(600, 3000))
    v = [e for e in evs if e["ev"] == kind]
    ctx.cov["verdicts"] = {"accepted": sum(e["ok"] for e in v), "refused": sum(not e["ok"] for e in v), "honest": sum(e["honest"] for e in v),
                           "altered": sum(e["altered"] for e in v), "excused": sum(e["excused"] for e in v)}
    n = [e for e in evs if e["ev"] in ("uncalibrated", "unbuilt")]
    ctx.cov["not_built"] = len(n)
    if n:
        ctx.log("%d attempts could not be built: %s" % (len(n), sorted({(e["ev"], e["what"]) for e in n})[:6]))
    ctx.log(str(ctx.cov["verdicts"]))
    ctx.validate("ArgTrace", "CONSTANT Order <- OrderV\n", evs, scns, lambda e: what + " " + json.dumps(trim(e)),
                 extra={"ArgTrace.tla": open(os.path.join(SPECS, "ArgTrace.tla")).read().replace("CONSTANT Order ", "CONSTANT Order\nOrderV == %s " % tla_limbs(R), 1)})


def nested(ctx):
    """Attacks on inner product arguments that work inside other arguments."""
    return [a for a in attacks(ctx, ["ipa"], 2) if a["minimal"] and a["late"] in ("L1", "R1") and a["check"] == "product"]


def spread(l, k):
    return [x for x in (l[i::k] for i in range(k)) if x]


def grinding(ctx, *whats):
    """Challenges of many proofs: a prover may try as often as it likes."""
    for S, T in ((3, 3), (4, 4), (2, 5), (6, 4), (9, 2)):
        ctx.model("%d tries among %d challenges" % (T, S), "Grinding", cfg("SPECIFICATION Spec", "CONSTANTS S = %d T = %d Goal = 1" % (S, T), "INVARIANT Pigeonhole", "CHECK_DEADLOCK FALSE"))
    return [arg(ctx, "grind", what=w, samples=n) for w, n in whats]


def coincide(ctx, K, per):
    """Pairs of weights that schemes using some bits of the positions only would make equal."""
    out = ctx.model("pairs of %d weights" % K, "Weights", cfg("SPECIFICATION Spec", "CONSTANTS K = %d P = %d" % (K, 5 if K <= 4 else 0),
                    "INVARIANTS Exposes Covers Emit" + (" Sound PowersExpose LinesHide" if K <= 4 else ""), "CHECK_DEADLOCK FALSE"), workers=1)
    by = {}
    for line in out.splitlines():
        if line.startswith('"SCN'):
            a, b = json.loads(json.loads(line)[3:])
            by.setdefault(b - a, []).append([a, b])
    return [p for d in sorted(by) for p in ctx.rng.sample(by[d], min(per, len(by[d])))]


def c11(ctx):
    algebra(ctx)
    rng = ctx.rng
    s = []
    edge = [0, 1, 2, 3, TOP, TOP - 1, 2**62, 2**62 - 1, 2**32, 2**31, 2**53] + [2**k for k in range(63)]
    val = lambda: str(rng.choice(edge) if rng.random() < .6 else rng.randrange(2**rng.randrange(1, 64)))
    # honest vectors, edge values at every position
    pool = [str(x) for x in edge]
    for n, scn, per in ctx.pick([(2, 8, 14), (4, 8, 4), (8, 6, 2), (16, 2, 1)], [(2, 16, 60), (4, 16, 16), (8, 16, 6), (16, 8, 4), (32, 8, 1), (64, 4, 1)]):
        for _ in range(scn):
            h = [[val() for _ in range(n)] for _ in range(per)]
            h[0] = [rng.choice(["0", str(TOP), "1"]) for _ in range(n)]
            h[-1] = [rng.choice(pool) for _ in range(n)]
            s.append(arg(ctx, "range", n=n, honest=h, swaps=1))
    for n in ctx.pick([], [128, 256, 512]):
        s.append(dict(arg(ctx, "range", n=n, honest=[[val() for _ in range(n)]]), solo=True))
    for x in ("0", str(TOP), "1", str(2**62)):
        s.append(arg(ctx, "range", n=4, honest=[[x] * 4]))
        s.append(arg(ctx, "range", n=8, honest=[[x] * 8]))
    # entries out of range
    out = [2**63, 2**63 + 1, 2**64 - 1, 2**64, 2**64 + 5, 2**127, R - 1, R - 2, R - 2**62, R - 2**63, R // 2, R // 2 + 1, 2**253]
    k = 0
    for n in ctx.pick([2, 4, 8], [2, 4, 8, 16, 32]):
        lies = []
        for x in out + [rng.randrange(2**63, R) for _ in range(3)]:
            for kind, hows in (("lib", [""]), ("digit", ["", "ipa", "eq"]), ("mismatch", ["", "ipa", "eq"]), ("ir", ["final", "step"])):
                for how in hows:
                    lies.append([kind, how, str(rng.randrange(n)), str(rng.randrange(63)), str(x), val()])
        # bad digits of values in range
        for j in range(63):
            lies.append(["digit", rng.choice(["", "ipa", "eq"]), str(rng.randrange(n)), str(j), str(rng.randrange(2**63)), val()])
        rng.shuffle(lies)
        lies = lies[:ctx.pick({2: 110, 4: 60, 8: 24}, {2: 400, 4: 400, 8: 150, 16: 60, 32: 16})[n]]
        for i in range(8):
            s.append(arg(ctx, "range", n=n, lies=lies[i::8]))
    # every element
    for n, hows, parts, use in ctx.pick([(2, HOWS, 8, None), (4, HOWS[:1] + rng.sample(HOWS[1:], 1), 8, 4)], [(2, HOWS, 8, None), (4, HOWS, 16, None), (8, HOWS, 16, None)]):
        s += altered(ctx, "range", parts, hows, use, n=n, honest=[[val() for _ in range(n)]])
    # challenges
    att = [a for a in attacks(ctx, ["range"]) if ["y", "x"] not in a["dropped"] or a["check"] == "digits are bits"]
    red = [dict(a, late=a["late"][0], minimal=True) for a in attacks(ctx, ["reduction"], 1) if a["late"][0] != "V"]
    mini = [a for a in att if a["minimal"]] + red + nested(ctx)
    # y and z come from one function
    both = [dict(a, minimal=True) for a in att if not a["minimal"] and {d[0] for d in a["dropped"] if d[1] in "QR"} == {"y", "z"}]
    rest = [a for a in att if not a["minimal"]]
    small = [arg(ctx, "range", n=2) for _ in range(24)]
    spread_attacks(ctx, mini + both + (rest if ctx.thorough else ctx.rng.sample(rest, 40)), small, both=int(ctx.thorough))
    large = [arg(ctx, "range", n=n) for n in ctx.pick([4] * 6, [4] * 8 + [8] * 8)]
    spread_attacks(ctx, mini, large)
    hosts = small + large
    s += hosts
    s += [arg(ctx, "range", n=n, observe=1) for n in ctx.pick([2, 2, 4], [2, 2, 2, 4, 4, 8])]
    s += grinding(ctx, ("range", ctx.pick(12, 60)), ("reduction", 1000))
    judge(ctx, "range", s, "the range verifier disagrees with the specification:")


def c12(ctx):
    algebra(ctx)
    rng = ctx.rng
    s = []
    for n in ctx.pick([2, 4, 8, 16, 32], [2, 4, 8, 16, 32, 64, 128]):
        for m in ctx.pick([1, 2, 3, 5], [1, 2, 3, 4, 5, 7, 8, 11]):
            for _ in range(ctx.pick(4, 10) if n < 16 else 2):
                s.append(arg(ctx, "sum", n=n, m=m, style=rng.randrange(4), swaps=1, lies=1, observe=1))
    for n, m in ctx.pick([(512, 1)], [(256, 3), (512, 2), (1024, 1)]):
        s.append(arg(ctx, "sum", n=n, m=m, style=rng.randrange(4)))
    for n, m, hows, parts, use in ctx.pick([(4, 1, HOWS, 2, None), (8, 3, HOWS, 2, None)], [(2, 1, HOWS, 1, None), (4, 1, HOWS, 2, None), (8, 3, HOWS, 4, None), (16, 1, HOWS, 4, None), (32, 7, HOWS, 8, None)]):
        s += altered(ctx, "sum", parts, hows, use, n=n, m=m, style=rng.randrange(4))
    one = [arg(ctx, "sum", n=n, m=1, style=rng.randrange(4), lies=1) for n in (4, 8, 4, 8)]
    spread_attacks(ctx, attacks(ctx, ["sum"]), one)
    spread_attacks(ctx, nested(ctx), one, round=3)
    att = [a for a in attacks(ctx, ["sums"], 4)]
    v = [a for a in att if a["late"][0] == "V"]
    # only what leaves inputs out of tau concerns the weights
    v = [a for a in v if all(d[0] == "tau" for d in a["dropped"])]
    v = [dict(a, minimal=True) for a in v]
    many = [arg(ctx, "sum", n=n, m=m, style=rng.randrange(4), lies=1) for n, m in ((4, 3), (8, 3), (4, 2), (4, 3))]
    many[0]["cfg"]["n"] = 4
    for h in many:
        h["cfg"]["attacks"] = [as_attack(ctx, a) for a in v if h["cfg"]["m"] == 3 or ("V3" not in json.dumps(a))]
    inner = [a for a in attacks(ctx, ["sum"]) if a["late"] != "V"]
    for h in many[:2]:
        h["cfg"]["attacks"] += [as_attack(ctx, a) for a in inner]
    s += one + many
    for m in ctx.pick([4, 20, 161, 300], [4, 9, 20, 65, 161, 300, 513]):
        for c in spread(coincide(ctx, m, ctx.pick(2, 4)), ctx.pick(2, 8)):
            s.append(arg(ctx, "sum", n=2, m=m, style=rng.randrange(4), coincide=c))
    for n, m in ctx.pick([(2, 3), (4, 4), (2, 6)], [(2, 3), (4, 4), (2, 6), (8, 5), (2, 11)]):
        s.append(arg(ctx, "sum", n=n, m=m, style=rng.randrange(4), hidden=1))
    s += grinding(ctx, ("sum", 1000), ("sums", 1000), ("ipa", 1000))
    judge(ctx, "sum", s, "the sum verifier disagrees with the specification:")


def c13(ctx):
    algebra(ctx)
    rng = ctx.rng
    s = []
    for n in ctx.pick([3, 5, 9], [3, 4, 5, 9, 17, 33]):
        for batch, m in ctx.pick([(0, 1), (1, 2), (1, 4), (1, 8)], [(0, 1), (1, 2), (1, 4), (1, 8), (1, 16)]):
            for _ in range(ctx.pick(2, 6) if n * m <= 40 else 1):
                s.append(arg(ctx, "equal", n=n, m=m, batch=batch, style=rng.randrange(4), swaps=1, lies=2))
    # positions of nine bits and more
    for n, batch, m in ctx.pick([(300, 0, 1), (300, 1, 2)], [(300, 0, 1), (300, 1, 2), (1030, 0, 1), (1030, 1, 1)]):
        s.append(arg(ctx, "equal", n=n, m=m, batch=batch, style=rng.randrange(4), swaps=1))
    for n, m, batch, parts in ctx.pick([(5, 1, 0, 1), (5, 2, 1, 3), (5, 4, 1, 4)], [(3, 1, 0, 1), (5, 1, 0, 1), (5, 2, 1, 4), (5, 4, 1, 8), (9, 8, 1, 8)]):
        s += altered(ctx, "equal", parts, HOWS, None, n=n, m=m, batch=batch, style=rng.randrange(4))
    one = [arg(ctx, "equal", n=5, m=1, batch=0, style=rng.randrange(4), lies=2) for _ in range(4)]
    eq = lambda what: [as_attack(ctx, a, round=3) for a in attacks(ctx, [what], 4) + nested(ctx) if a["minimal"]]
    for h in one:
        h["cfg"]["attacks"] = eq("equality")
    many = [arg(ctx, "equal", n=5, m=m, batch=1, style=rng.randrange(4), lies=2) for m in (2, 4, 2, 4)]
    for h in many:
        h["cfg"]["attacks"] = eq("equalities")
    s += one + many
    for m in ctx.pick([2, 16, 256], [2, 4, 8, 16, 32, 64, 128, 256, 512]):
        for c in spread(coincide(ctx, 2 * m, {2: 9, 4: 9}.get(m, ctx.pick(2, 3))), ctx.pick(8, 16) if m > 8 else 1):
            s.append(arg(ctx, "equal", n=3, m=m, batch=1, style=rng.randrange(4), lies=1, coincide=c))
    for n, m in ctx.pick([(3, 2), (3, 4), (5, 8)], [(3, 2), (3, 4), (5, 8), (3, 16)]):
        s.append(arg(ctx, "equal", n=n, m=m, batch=1, style=rng.randrange(4), lies=1, hidden=1))
    s += grinding(ctx, ("equality", 1000), ("equalities", 1000), ("equality oracle", 3000), ("ipa", 1000))
    judge(ctx, "equal", s, "the equality verifier disagrees with the specification:")


def c14(ctx):
    algebra(ctx)
    rng = ctx.rng
    s = []
    for n, k in ctx.pick([(1, 4), (2, 24), (4, 24), (8, 24), (16, 12), (32, 6), (64, 2), (512, 1)], [(1, 4), (2, 40), (4, 40), (8, 40), (16, 20), (32, 12), (64, 6), (128, 4), (256, 2), (512, 2), (1024, 1)]):
        for i in range(k):
            s.append(arg(ctx, "ipa", n=n, small=i % 2, swaps=1, lies=1, observe=1))
    for n, parts in ctx.pick([(2, 1), (4, 2), (8, 3)], [(2, 1), (4, 2), (8, 4), (16, 4), (32, 8)]):
        s += altered(ctx, "ipa", parts, HOWS, None, n=n, small=rng.randrange(2))
    hosts = [arg(ctx, "ipa", n=n, small=0, lies=1) for n in (4, 4, 8, 2)]
    spread_attacks(ctx, attacks(ctx, ["ipa"], 3), hosts)
    s += hosts
    s += grinding(ctx, ("ipa", 1000))
    judge(ctx, "ipa", s, "the inner product verifier disagrees with the specification:")


def c15(ctx):
    algebra(ctx)
    rng = ctx.rng
    s = []
    for n, k in ctx.pick([(2, 32), (4, 32), (8, 32), (16, 24), (32, 12), (64, 4), (512, 1)], [(2, 40), (4, 40), (8, 40), (16, 20), (32, 12), (64, 6), (128, 4), (512, 2), (1024, 1)]):
        for i in range(k):
            s.append(arg(ctx, "reduce", n=n, style=i % 4, swaps=1, lies=1, observe=1))
    for n, parts in ctx.pick([(2, 1), (4, 1), (8, 2), (16, 2)], [(2, 1), (4, 2), (8, 4), (16, 4), (64, 8)]):
        s += altered(ctx, "reduce", parts, HOWS, None, n=n, style=rng.randrange(4))
    att = attacks(ctx, ["reduction"], 3)
    hosts = [arg(ctx, "reduce", n=n, style=2, lies=1) for n in (2, 4, 8, 16)]
    for h in hosts:
        seen = []
        for a in att:
            a = dict(a, late=a["late"][0])
            for sub in SUBS if a["minimal"] and a["late"] not in seen else []:
                h["cfg"].setdefault("attacks", []).append(as_attack(ctx, dict(a, dropped=[["x1", a["late"] + ("0" if a["late"] == "V" else "1")]]), sub=sub))
            seen.append(a["late"])
    s += hosts
    s += grinding(ctx, ("reduction", 2000))
    judge(ctx, "reduce", s, "the reduction verifier disagrees with the specification:")


CHECKS = {
    "C09": {"run": lambda c: vc(c, "single"), "level": "model_checking", "assumptions": A},
    "C10": {"run": lambda c: vc(c, "aggregate"), "level": "model_checking", "assumptions": A},
    "C11": {"run": c11, "level": "model_checking", "assumptions": A},
    "C12": {"run": c12, "level": "model_checking", "assumptions": A},
    "C13": {"run": c13, "level": "model_checking", "assumptions": A},
    "C14": {"run": c14, "level": "model_checking", "assumptions": A},
    "C15": {"run": c15, "level": "model_checking", "assumptions": A},
}
