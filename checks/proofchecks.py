"""C06, C07, C08: what a liability proof convinces of."""
from core import *
from treechecks import ids_for, dense_ids, DENSE_DEPTH, T

VARIANTS = {
    "range": ["lib", "digit:eq", "digit:ipa", "mismatch:eq", "mismatch:ipa", "ir:final", "ir:step"],
    "sum": ["real", "claim", "drop-c", "drop-cV", "drop-cW"],
    "equal": ["real", "honest", "w", "claim", "I", "J"],
    "claim": ["plain", "b", "s"],
    "lengths": ["extraV", "extraVR", "extraW", "-V", "-W", "-D", "-R", "+V", "+W", "+D", "+R", "-all", "+all", "-V-R", "-W-D"],
}


def consts(depth, dev, claims, lens):
    mod = "---- MODULE P ----\nEXTENDS ProofSystem\nClaimsV == %s\n====\n" % claims
    return mod, "CONSTANTS Depth = %d Bound = 2 MaxDev = %d Lens = %s\nClaims <- ClaimsV\n" % (depth, dev, lens)


SPACES = {2: (2, "-1..2", '{"right", "short", "long"}'), 3: (2, "0..1", '{"right"}'), 4: (2, "0..1", '{"right"}')}


def attempts(ctx, depth, dev=None):
    """All attempts that exactly one test stops, from TLC's exhaustive run."""
    d, claims, lens = SPACES[depth]
    mod, cs = consts(depth, dev or d, claims, lens)
    out = ctx.model("proof system, depth %d" % depth, "P", cfg("SPECIFICATION Spec", cs, "INVARIANTS Exact Emit", "CHECK_DEADLOCK FALSE"),
                    extra={"P.tla": mod}, timeout=1500)
    res = {}
    for line in out.splitlines():
        if line.startswith('"SCN'):
            a = json.loads(json.loads(line)[3:])
            if a["att"]["claim"] in (0, 1, -1) and (a["att"]["odd"][0] == "none" or a["att"]["claim"] == a["att"]["v"][str(depth - 1)]["a"]):
                res.setdefault(tuple(a["test"]), []).append(a)
    for k in res:
        res[k].sort(key=lambda a: json.dumps(a, sort_keys=True))
    want = 7 + 2 * (depth - 1) + 2 * depth - (0 if depth == 2 else 1) - 1
    if len(res) != want:
        raise CheckError("only %d of %d tests have attempts of their own" % (len(res), want))
    return res


def path_for(ctx, fan, depth):
    # some slot must stay off the path
    slots = list(range(fan))
    free = ctx.rng.choice(slots)
    return ".".join(str(ctx.rng.choice([s for s in slots if s != free])) for _ in range(depth))


def scenario(ctx, a, fan, depth, variants):
    path = path_for(ctx, fan, depth)
    odd = a["att"].get("odd", ["none", 0])
    if odd[0] == "twin":
        p = path.split(".")
        p[odd[1]] = p[odd[1] - 1]
        path = ".".join(p)
    unit = ctx.rng.choice([2**62, 2**63 - 1, ctx.rng.randrange(2**62, 2**63)])
    return {"kind": "attempt", "par": bool(ctx.rng.getrandbits(1)),
            "cfg": {"fan": fan, "depth": depth, "path": path, "unit": str(unit), "seed": ctx.rng.randrange(1, 2**31),
                    "test": a["test"], "att": a["att"], "variants": variants}, "ops": []}


def describe(e):
    return "a verifier accepted (or crashed on) something the specification says is false: " + json.dumps(trim(e, 900))


def judge(ctx, scns, depth=2, **kw):
    evs = ctx.replay(scns, **kw)
    n = len([e for e in evs if e["ev"] == "uncalibrated"])
    k = len([e for e in evs if e["ev"] in ("attempt", "present", "tamper", "length")])
    ctx.cov["judged"] = ctx.cov.get("judged", 0) + k
    ctx.cov["uncalibrated"] = ctx.cov.get("uncalibrated", 0) + n
    ctx.cov["unbuilt"] = ctx.cov.get("unbuilt", 0) + len([e for e in evs if e["ev"] == "unbuilt"])
    if n:
        ctx.log("%d scenarios could not be calibrated: %s" % (n, sorted({e["what"] for e in evs if e["ev"] == "uncalibrated"})))
    mod = "---- MODULE T ----\nEXTENDS ProofTrace\nClaimsV == {0}\n====\n"
    ctx.validate("T", 'CONSTANTS Depth = %d Bound = 2 MaxDev = 0 Lens = {"right"}\nClaims <- ClaimsV\n' % depth, evs, scns, describe, extra={"T.tla": mod})


def spread(ctx, options, n):
    """n attempts, as different from each other as the few we have allow."""
    return [options[i] for i in sorted(ctx.rng.sample(range(len(options)), min(n, len(options))))]


def c07(ctx):
    for fan, depth in ctx.pick([(3, 2), (3, 3)], [(3, 2), (3, 3), (3, 4), (7, 2)]):
        s = []
        for test, options in sorted(attempts(ctx, depth).items()):
            vs = VARIANTS.get(test[0], ["plain"])
            if test[0] == "claim":
                continue      # C06
            for a in options:
                if a["att"]["odd"][0] != "none":
                    s.append(scenario(ctx, a, fan, depth, ["plain"]))
            options = [a for a in options if a["att"]["odd"][0] == "none"]
            # the library's own prover, run on a store that says what is shown
            libs = [a for a in options if a["att"]["dig"] == a["att"]["sig"] == "opened" and a["att"]["len"] == "right" and a["att"]["claim"] >= 0]
            same = [a for a in libs if any(v["mask"] == 2 for v in a["att"]["v"].values())]
            if test[0] != "lengths":
                for a in spread(ctx, libs, ctx.pick(4, 20)) + spread(ctx, same, ctx.pick(2, 10)):
                    s.append(scenario(ctx, a, fan, depth, ["store"]))
            if test[0] == "link":
                for a in spread(ctx, same, ctx.pick(2, 10)):
                    s.append(scenario(ctx, a, fan, depth, ["plain"]))
            for a in spread(ctx, options, ctx.pick(2 if depth == 2 else 1, 8)):
                if test[0] == "range":
                    for v in (vs if ctx.thorough or depth == 2 else ctx.rng.sample(vs, 3)):
                        s.append(scenario(ctx, a, fan, depth, [v]))
                elif test[0] == "lengths":
                    s.append(scenario(ctx, a, fan, depth, vs[:3] + ctx.rng.sample(vs[3:], 4)))
                else:
                    use = vs if ctx.thorough or len(vs) < 4 or depth == 2 else ctx.rng.sample(vs, 3)
                    s.append(scenario(ctx, a, fan, depth, use))
        ctx.rng.shuffle(s)
        judge(ctx, s, depth, timeout=3000)


def present(ctx, fan, depth, used, amounts, budget, **kw):
    ops = []
    for i, a in zip(used, amounts):
        ops.append(["set", i, str(a)])
    proved = ctx.rng.sample(used[:len(amounts)], min(2, len(amounts)))
    ops += [["prove", i] for i in proved]
    ops += [["set", used[0], str(amounts[0] + 3)], ["prove", used[0]]]
    c = {"fan": fan, "depth": depth, "ids_used": used, "budget": budget, "seed": ctx.rng.randrange(1, 2**31)}
    c.update(kw)
    return {"kind": "present", "par": bool(ctx.rng.getrandbits(1)), "cfg": c, "ops": ops}


def c06(ctx):
    s = []
    for fan, depth, n in ctx.pick([(3, 2, 6), (3, 3, 4), (7, 2, 2)], [(3, 2, 24), (3, 3, 16), (7, 2, 10), (3, 5, 6), (15, 2, 4)]):
        for _ in range(n):
            ids = ids_for(ctx, fan, depth, 6)
            # ids that differ in exactly one position
            base = ids[0].split(".")
            for i in range(depth):
                b = list(base)
                b[i] = str((int(b[i]) + 1) % fan)
                if ".".join(b) not in ids:
                    ids.append(".".join(b))
            amounts = [ctx.rng.choice([0, 1, 5, 2**31, 2**32 + 7, 2**53, 2**60]) for _ in range(4)]
            s.append(present(ctx, fan, depth, ids, amounts, ctx.pick(40, 200)))
    for fan in ctx.pick([15], [15, 7, 31]):
        ids = dense_ids(ctx, 8)
        s.append(present(ctx, fan, DENSE_DEPTH[fan], ids, [7, 9, 2**40], ctx.pick(10, 60), ids="dense", params="real"))
    # a set with other layers than those who check its proofs expect; the
    # statements about equal entries are padded, so that either chain fits
    for fan, made, shown in ctx.pick([(3, 4, 5), (3, 5, 4), (3, 2, 3), (3, 3, 2), (3, 6, 9)],
                                     [(3, m, n) for m in range(2, 10) for n in range(2, 10) if m != n]):
        for layers in ctx.pick([max(made, shown)], [made, shown]):
            ids = ids_for(ctx, fan, max(made, shown), 6)
            ids.append(ids[0][:-1] + str((int(ids[0][-1]) + 1) % fan))
            s.append(present(ctx, fan, layers, ids, [5, 2**40], ctx.pick(16, 40), made_layers=made, shown_layers=shown))
    judge(ctx, s)
    for fan, depth in ctx.pick([(3, 2)], [(3, 2), (3, 3), (3, 4)]):
        opts = attempts(ctx, depth)
        s = []
        for a in spread(ctx, opts[("claim", 0)], ctx.pick(24, 100)):
            s.append(scenario(ctx, a, fan, depth, VARIANTS["claim"]))
        # wrong witnesses for a true tree
        honest = {"test": ["witness", 0], "att": {"pub": "honest", "w0": "published", "dig": "shown", "sig": "shown", "len": "right", "claim": 1,
                                                  "v": {str(i): {"a": 1, "b": 0, "s": 1, "mask": 0} for i in range(depth)}}}
        for _ in range(ctx.pick(16, 60)):
            x = scenario(ctx, honest, fan, depth, ["plain"] * 2)
            x["cfg"]["unit"] = str(ctx.rng.choice([1, 5, 2**33, 2**61]))
            s.append(x)
        for a in spread(ctx, opts[("rootV", 0)], 4) + spread(ctx, opts[("rootW", 0)], 4):
            s.append(scenario(ctx, a, fan, depth, ["plain"]))
        judge(ctx, s, depth, timeout=3000)


def tamper(ctx, fan, depth, what, parts, hows=()):
    ids = ids_for(ctx, fan, depth, 3)
    # two ids in one vertex
    base = ids[0].split(".")
    base[-1] = str((int(base[-1]) + 1) % fan)
    ids = [ids[0], ".".join(base)] + [i for i in ids[1:] if i != ".".join(base)][:1]
    seed = ctx.rng.randrange(1, 2**31)
    return [{"kind": "tamper", "par": bool(p % 2), "cfg": {"fan": fan, "depth": depth, "what": what, "part": p, "parts": parts, "hows": list(hows),
                                                           "ids_used": ids, "seed": seed}, "ops": []} for p in range(parts)]


def c08(ctx):
    s = []
    hows = ["add", "zero", "neg", "double", "other", "random"]
    if ctx.thorough:
        for fan, depth in [(3, 2), (3, 3), (7, 2), (3, 5)]:
            s += tamper(ctx, fan, depth, "leaves", 16, hows)
            for what, n in (("leafswap", 8), ("parts", 4), ("lengths", 4), ("total", 1), ("nodes", 8)):
                s += tamper(ctx, fan, depth, what, n)
    else:
        s += tamper(ctx, 3, 2, "leaves", 8, ["add", ctx.rng.choice(hows[1:])])
        s += tamper(ctx, 3, 3, "leaves", 16, [ctx.rng.choice(hows), "neg"])[:8]
        s += tamper(ctx, 3, 2, "leafswap", 4)[:2]
        for fan, depth in [(3, 2), (3, 3)]:
            for what, n in (("parts", 4), ("lengths", 2), ("total", 1), ("nodes", 4)):
                s += tamper(ctx, fan, depth, what, n)
    judge(ctx, s, 2, timeout=3000)
    # the proof system itself: every test is needed
    attempts(ctx, 2)


P = T + ["sub-proofs are sound for their relation (C09-C15); group and hash are ideal",
         "components the verifier recomputes or never reads (P and C of nested inner product arguments, the digest below the last vertex) are not relied on"]
CHECKS = {
    "C06": {"run": c06, "level": "model_checking", "assumptions": P},
    "C07": {"run": c07, "level": "model_checking", "assumptions": P},
    "C08": {"run": c08, "level": "model_checking", "assumptions": P},
}
