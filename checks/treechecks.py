"""C01-C05, C18, C20 (vertices), C21: the liability set as a state machine."""
from core import *

BIG = [0, 1, 2, 255, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53 + 1, 2**62]
HUGE = BIG + [2**63 - 1]


def value(n):
    return '[s |-> "%d", a |-> %s]' % (n, tla_limbs(n))


def gen(ctx, ids, values, kinds, ops, num, depth, closing=(), exhaustive=False):
    """Histories drawn by TLC from GenLiabilitySet."""
    mod = "---- MODULE G ----\nEXTENDS GenLiabilitySet\nIdsV == %s\nValuesV == %s\nKindsV == %s\nClosingV == %s\n====\n" % (
        tla_seq(map(tla_str, ids)), tla_seq(map(value, values)), tla_seq(map(tla_str, kinds)),
        tla_seq(tla_seq(map(tla_str, op)) for op in closing))
    c = cfg("SPECIFICATION Spec", "CONSTANTS MaxOps = %d Depth = %d Random = %s" % (ops, depth, "FALSE" if exhaustive else "TRUE"),
            "Ids <- IdsV Values <- ValuesV Kinds <- KindsV Closing <- ClosingV", "INVARIANT Emit", "CHECK_DEADLOCK FALSE")
    return ctx.generate("G", c, {"G.tla": mod}, num=None if exhaustive else num, depth=ops + 2)


def ids_for(ctx, fan, depth, n):
    """Dotted ids that share prefixes of every length and use the first, a
    middle and the last slot."""
    slots = sorted({0, 1, fan // 2, fan - 1, min(fan - 1, 200), min(fan - 1, 256), min(fan - 1, 300)})
    base = [ctx.rng.choice(slots) for _ in range(depth)]
    res = {tuple(base), (0,) * depth, (fan - 1,) * depth}
    for i in range(depth):
        p = list(base)
        p[i] = ctx.rng.choice([s for s in slots if s != p[i]])
        res.add(tuple(p))
    # anagrams and concatenation look-alikes
    if fan > 11:
        res.add(tuple([1] + [11] * (depth - 1)))
        res.add(tuple([11] * (depth - 1) + [1]))
    while len(res) < n:
        res.add(tuple(ctx.rng.choice(slots) for _ in range(depth)))
    res = sorted(res)
    ctx.rng.shuffle(res)
    return [".".join(map(str, p)) for p in res[:max(n, 3)]]


def dense_ids(ctx, n):
    ids = ["000000000", "000000001", "000000010", "999999999", "100000000", "000000099"]
    while len(ids) < n:
        ids.append("%09d" % ctx.rng.randrange(10**9))
    return ids[:n]


def scn(hist, fan, depth, **cfgs):
    c = {"fan": fan, "depth": depth}
    par = cfgs.pop("par", False)
    c.update(cfgs)
    return {"kind": "tree", "par": par, "cfg": c, "ops": hist}


DENSE_DEPTH = {3: 19, 7: 11, 15: 8, 31: 7, 63: 6, 127: 5, 255: 4, 511: 4, 1023: 3}


HEX_DEPTH = {3: 162, 7: 91, 15: 66, 31: 52, 63: 43}


def model(ctx, faults=False):
    ctx.model("design", "MCLiabilitySet", cfg("SPECIFICATION MCSpec",
              "CONSTANTS Fan = 2 Dep = 2 MaxAmount = %d MaxSets = 4 MaxFaults = 0" % ctx.pick(1, 2),
              "INVARIANTS InvWellFormed InvConsistent InvTotal InvRootCurrent InvLookup InvNonces InvEnabled",
              "PROPERTIES RootMoves Completes", "CHECK_DEADLOCK FALSE"))
    if faults or ctx.thorough:
        ctx.model("design with failing database", "MCLiabilitySet", cfg("SPECIFICATION MCSpec",
                  "CONSTANTS Fan = 2 Dep = 2 MaxAmount = 1 MaxSets = %d MaxFaults = %d" % ctx.pick((3, 2), (4, 3)),
                  "INVARIANTS InvWellFormed InvConsistent InvTotal InvRootCurrent InvLookup InvNonces InvEnabled", "CHECK_DEADLOCK FALSE"))
    if ctx.thorough:
        ctx.model("design, depth 3", "MCLiabilitySet", cfg("SPECIFICATION MCSpec",
                  "CONSTANTS Fan = 2 Dep = 3 MaxAmount = 1 MaxSets = 4 MaxFaults = 1",
                  "INVARIANTS InvWellFormed InvConsistent InvTotal InvRootCurrent InvLookup InvNonces InvEnabled", "CHECK_DEADLOCK FALSE"))


def watch(*xs):
    return "CONSTANT Watch = {%s}\n" % ", ".join('"%s"' % x for x in xs)


def shapes(ctx):
    """(fan-out, depth) pairs; all of them in the thorough tier."""
    small = [(3, 2), (3, 3), (7, 2), (3, 5)]
    return small if not ctx.thorough else small + [(7, 3), (15, 2), (3, 8), (31, 3)]


def histories(ctx, kinds, ops, num, closing=(), values=HUGE, big=True, **cfgs):
    """Random histories over several tree shapes and id kinds."""
    out = []
    for fan, depth in shapes(ctx):
        for h in gen(ctx, ids_for(ctx, fan, depth, 6), values, kinds, ops, num, depth, closing):
            out.append(scn(h, fan, depth, **cfgs))
    if big:
        for fan, depth in ctx.pick([(300, 2), (511, 3)], [(300, 2), (511, 3), (1023, 2), (255, 4)]):
            for h in gen(ctx, ids_for(ctx, fan, depth, 6), values, kinds, ops, max(1, num // 3), depth, closing):
                out.append(scn(h, fan, depth, **cfgs))
        for fan in ctx.pick([3, 255], [3, 7, 31, 127, 255, 511]):
            d = DENSE_DEPTH[fan]
            for h in gen(ctx, dense_ids(ctx, 7), values, kinds, ops, max(1, num // 3), d, closing):
                out.append(scn(h, fan, d, ids="dense", **cfgs))
    return out


def exhaustive(ctx, kinds, ops, ids=("0.1", "0.2", "1.1"), values=(0, 1, 5), fan=3, closing=(), limit=None, **cfgs):
    hs = gen(ctx, ids, values, kinds, ops, None, 2, closing, exhaustive=True)
    ctx.cov.setdefault("exhaustive_histories", 0)
    ctx.cov["exhaustive_histories"] += len(hs)
    if limit and len(hs) > limit:
        hs = ctx.rng.sample(hs, limit)
    return [scn(h, fan, 2, **cfgs) for h in hs]


def crowd(ctx, fan, n, closing, some=(), **cfgs):
    """n children below the root and n liabilities in one vertex, some of which change."""
    slots = sorted(ctx.rng.sample(range(fan), n))
    a = slots[n // 2]
    ids = ["%d.%d" % (i, ctx.rng.randrange(fan)) for i in slots if i != a] + ["%d.%d" % (a, i) for i in slots]
    first = list(ids)
    ctx.rng.shuffle(first)
    ops = [["set", i, str(ctx.rng.choice([0, 1, 7, 2**33 + k, 2**50]))] for k, i in enumerate(first)]
    for i in ctx.rng.sample(ids[:n - 1], 6) + ctx.rng.sample(ids[n - 1:], 6):
        ops += [["set", i, str(ctx.rng.choice([0, 5, 2**40, 2**31 - 1]))]] + [[x[0], i] if x[0] in ("get", "prove") else x for x in some]
    return scn(ops + list(closing), fan, 2, **cfgs)


def describe(e):
    return "the liability set did something the specification does not allow: " + json.dumps(trim(e, 900))


def go(ctx, scns, *w, **kw):
    evs = ctx.replay(scns, **kw)
    ctx.validate("LiabilitySetTrace", watch(*w), evs, scns, describe)


def c01(ctx):
    model(ctx)
    reads = [["get", i] for i in ("0.1", "0.2", "1.1", "2.2")]
    s = exhaustive(ctx, ["set", "neg", "get"] if ctx.thorough else ["set"], 3, closing=reads, puts="none")
    s += histories(ctx, ["set"] * 6 + ["get"] * 5 + ["neg"], ctx.pick(25, 60), ctx.pick(8, 40), puts="none")
    s += histories(ctx, ["set"] * 6 + ["get"] * 5, ctx.pick(15, 40), ctx.pick(3, 20), big=False, puts="none", impl="tree")
    # reads interleaved with everything else
    for h in gen(ctx, ids_for(ctx, 3, 2, 5), BIG[:7], ["set", "set", "get", "get", "get", "root", "tot", "prove", "neg"], 14, ctx.pick(2, 6), 2):
        s.append(scn(h, 3, 2, params="full", puts="none"))
    for fan, n in ctx.pick([(31, 22), (300, 270)], [(31, 31), (63, 40), (300, 300), (1023, 600)]):
        c = crowd(ctx, fan, n, [], [["get"]], puts="none")
        s.append(dict(c, ops=c["ops"] + [["get", i] for i in sorted({o[1] for o in c["ops"]})]))
    go(ctx, s, "reads")


def c02(ctx):
    model(ctx)
    walk = [["walk"]]
    s = exhaustive(ctx, ["set"], 3, closing=walk)
    s += histories(ctx, ["set"] * 9 + ["neg", "get", "walk"], ctx.pick(20, 50), ctx.pick(6, 30), walk)
    s += histories(ctx, ["set"] * 9 + ["walk"], ctx.pick(15, 40), ctx.pick(4, 15), walk, impl="tree")
    # crowded vertices: every slot of one vertex filled, then overwritten
    for fan in (3, 7, 15):
        ops = [["set", "0.%d" % i, str(3 * i + 1)] for i in range(fan)]
        ops += [["set", "0.%d" % i, str(n)] for i in range(fan) for n in (0, 2**40 + i)]
        ops += [["set", "%d.%d" % (i, fan - 1), str(i)] for i in range(fan)] + walk
        s.append(scn(ops, fan, 2))
    for fan, n in ctx.pick([(31, 22), (300, 30)], [(31, 31), (63, 40), (127, 127), (300, 300)]):
        s.append(crowd(ctx, fan, n, walk, walk if fan < 100 else []))
    go(ctx, s, "store")


def c03(ctx):
    model(ctx)
    s = exhaustive(ctx, ["set", "root"], 3, closing=[["root"]], puts="root")
    s += histories(ctx, ["set"] * 4 + ["root"] * 4 + ["get", "tot", "neg"], ctx.pick(22, 50), ctx.pick(7, 30), [["root"]], values=HUGE[:-1] + [3], puts="root")
    for h in gen(ctx, ids_for(ctx, 3, 2, 4), BIG[:7], ["set", "set", "root", "root", "tot", "prove"], 12, ctx.pick(4, 12), 2):
        s.append(scn(h + [["root"]], 3, 2, params="full", puts="root"))
    for fan, n in ctx.pick([(31, 22), (300, 60)], [(31, 31), (63, 40), (300, 300)]):
        s.append(crowd(ctx, fan, n, [["root"]], [["root"]], puts="root"))
    go(ctx, s, "root")


def c04(ctx):
    model(ctx)
    close = [["root"], ["tot"], ["verifytot"]]
    s = exhaustive(ctx, ["set"], 3, values=(0, 5), closing=[["tot"]], puts="none")
    s += histories(ctx, ["set"] * 6 + ["tot"] * 3 + ["root", "get"], ctx.pick(16, 35), ctx.pick(4, 12), close, puts="none")
    for fan, depth in ((3, 2), (7, 2), (3, 3)):
        for top in (2**63 - 1, 2**62, 2**32, 1, 0):
            i = ids_for(ctx, fan, depth, 4)
            s.append(scn([["set", i[0], str(top)], ["tot"], ["set", i[1], "0"], ["tot"], ["set", i[0], str(top // 2)], ["set", i[2], str(top - top // 2)],
                          ["tot"], ["root"], ["set", i[0], "0"], ["tot"], ["root"], ["verifytot"]], fan, depth, puts="none"))
    for fan, n in ctx.pick([(31, 22), (300, 60)], [(31, 31), (63, 40), (300, 300)]):
        s.append(crowd(ctx, fan, n, close, [["tot"]], puts="none"))
    go(ctx, s, "total")


def c05(ctx):
    model(ctx)
    s = []
    kinds = ["set"] * 5 + ["prove"] * 2
    for fan, depth, num, ops in ctx.pick([(3, 2, 8, 9), (3, 3, 5, 9), (3, 4, 3, 9), (7, 2, 4, 8), (3, 6, 2, 7)],
                                         [(3, 2, 24, 14), (3, 3, 16, 14), (3, 4, 12, 14), (3, 5, 8, 14), (7, 2, 12, 12), (7, 3, 8, 12), (15, 2, 6, 10), (3, 9, 4, 10)]):
        for k, h in enumerate(gen(ctx, ids_for(ctx, fan, depth, 5), HUGE, kinds, ops, num, depth)):
            done = [op for op in h if op[0] == "set"]
            extra = [["prove", done[-1][1]], ["prove", done[0][1]]] if done else []
            s.append(scn(h + extra, fan, depth, params="full", puts="none", par=k % 2 == 1))
    # the parameters of the deployed flow: nine digit ids
    for fan in ctx.pick([15], [15, 7, 31]):
        i = dense_ids(ctx, 8)[-2:]
        s.append(scn([["set", i[0], "7"], ["set", i[1], str(2**62)], ["set", i[0], "12"], ["prove", i[0]], ["prove", "000000000"]],
                     fan, DENSE_DEPTH[fan], ids="dense", params="real", puts="none", par=True))
    # every slot, hence every opening position
    for fan in (3, 7):
        ops = [["set", "%d.%d" % (i, (i + 1) % fan), str(2**i)] for i in range(fan)] + [["prove", "%d.%d" % (i, (i + 1) % fan)] for i in range(fan)]
        s.append(scn(ops, fan, 2, params="full", puts="none"))
    # wide vertices, whose positions take eight bits or more
    for fan, many in ctx.pick([(31, 4), (255, 1)], [(31, 31), (63, 12), (127, 6), (255, 4), (511, 2)]):
        top = [fan - 1, fan // 2, fan // 2 + 1, 0] + [ctx.rng.randrange(fan) for _ in range(many)]
        i = ["%d.%d" % x for x in zip(top, reversed(top[:many] if many > 1 else [fan // 2 + 1]))]
        ops = [["set", x, str(2**k + 1)] for k, x in enumerate(i)] + [["prove", x] for x in i[:many]] + [["prove", "1.1"]]
        s.append(dict(scn(ops, fan, 2, params="full", puts="none", par=True), solo=fan > 100))
    # the deployed flow for hexadecimal ids: the deepest trees, the largest batches
    for fan in ctx.pick([3], [3, 7, 31, 63]):
        x = "".join(ctx.rng.choice("0123456789abcdef") for _ in range(64))
        s.append(dict(scn([["set", x, "7"], ["set", "c0ffee", str(2**62)], ["prove", x], ["prove", "beef"]], fan, HEX_DEPTH[fan], ids="sparse", params="real", puts="none", par=True), solo=True))
    go(ctx, s, "proofs")


def c18(ctx):
    model(ctx)
    s = exhaustive(ctx, ["set"], 2, closing=[["dump"], ["vertices", "0.1"], ["vertices", "1.1"]], impl="tree")
    s += histories(ctx, ["set"] * 6 + ["vertices"] * 2 + ["dump"], ctx.pick(16, 40), ctx.pick(4, 20), [["dump"]], impl="tree")
    for fan in (3, 15, 127):
        ops = [["set", "0.%d" % i, str(i * i * i)] for i in range(fan)] + [["set", "%d.0" % i, str(2**62 // fan)] for i in range(fan)]
        s.append(scn(ops + [["dump"], ["vertices", "0.1"], ["vertices", "0.2"], ["vertices", "%d.0" % (fan - 1)]], fan, 2, impl="tree"))
    for fan, n in ctx.pick([(300, 258)], [(300, 300)]):
        s.append(crowd(ctx, fan, n, [["dump"], ["vertices", "%d.%d" % (fan - 1, fan - 1)], ["dump"]], impl="tree"))
    go(ctx, s, "io", "store")
    # any contents under any tree, short and long
    out = []
    for fan, depth, size in ctx.pick([(2, 1, 200), (3, 3, 60), (12, 2, 250), (300, 2, 256), (3, 2, 65521), (3, 3, 65536), (2, 2, 1 << 17)],
                                     [(2, 1, 200), (3, 3, 60), (12, 2, 250), (300, 2, 256), (3, 2, 65521), (3, 3, 65536), (2, 2, 1 << 17), (4, 2, 1 << 20), (65535, 2, 100), (3, 12, 1000), (2, 1, 1 << 24)]):
        for mode in ("tokens", "nils", "ints"):
            for _ in range(ctx.pick(2, 6)):
                ops = []
                for _ in range(ctx.rng.randrange(1, 9)):
                    ops.append(["put", ".".join(str(ctx.rng.choice([0, 1, fan - 1, ctx.rng.randrange(fan)])) for _ in range(depth))])
                    if ctx.rng.random() < .3:
                        ops.append(["dump"])
                out.append({"sid": len(out) + 1, "kind": "ptree", "par": False, "cfg": {"fan": fan, "mode": mode, "size": size}, "ops": ops + [["dump"]]})
    evs = ctx.replay(out)
    ctx.cov["dumps"] = sum(e["ev"] == "dump" for e in evs)
    ctx.validate("PathTreeTrace", "CONSTANTS PFan = 2 PDepth = 2 Modes = 0\n", evs, out, lambda e: "the tree was not written as it is: " + json.dumps(trim(e)))


def c21(ctx):
    model(ctx, faults=True)
    full = [["walk"], ["root"], ["tot"], ["get", "0.1"], ["get", "0.2"], ["get", "1.1"]]
    s = exhaustive(ctx, ["set", "fail"], ctx.pick(2, 3), ids=("0.1", "0.2") if not ctx.thorough else ("0.1", "1.1"), values=(1, 5), closing=full, limit=ctx.pick(400, 4000))
    for fan, depth in ctx.pick([(3, 2), (3, 3), (7, 4)], [(3, 2), (3, 3), (7, 4), (3, 6), (31, 3)]):
        for h in gen(ctx, ids_for(ctx, fan, depth, 5), [0, 1, 5, 7, 2**33, 2**50], ["set"] * 4 + ["fail"] * 3 + ["repair"] * 2 + ["get"] * 2 + ["root"], ctx.pick(16, 30),
                     ctx.pick(20, 80), depth, [["walk"], ["root"], ["tot"], ["verifytot"]]):
            s.append(scn(h, fan, depth))
        for h in gen(ctx, ids_for(ctx, fan, depth, 3), [0, 1, 5, 2**50], ["set"] * 2 + ["fail"] * 2, ctx.pick(8, 12), ctx.pick(2, 6), depth):
            ids = sorted({op[1] for op in h if op[0] == "set" and len(op) == 3})
            if depth <= 3:
                s.append(scn(h + [["walk"]] + [["prove", i] for i in ids[:2]], fan, depth, params="full"))
    go(ctx, s, "reads", "store", "root", "total", "proofs")


T = ["harness observes database writes and computes the openings of commitments itself (trusted oracle)",
     "the total of all liabilities stays below 2^63 (documented precondition of the library)"]
CHECKS = {
    "C01": {"run": c01, "level": "model_checking", "assumptions": T},
    "C02": {"run": c02, "level": "model_checking", "assumptions": T},
    "C03": {"run": c03, "level": "model_checking", "assumptions": T},
    "C04": {"run": c04, "level": "model_checking", "assumptions": T},
    "C05": {"run": c05, "level": "model_checking", "assumptions": T},
    "C18": {"run": c18, "level": "model_checking", "assumptions": T},
    "C21": {"run": c21, "level": "model_checking", "assumptions": T + ["a database failure is a panic of Put, before or after the value is stored"]},
}
