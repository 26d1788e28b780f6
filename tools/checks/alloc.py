"""A01, A02: the scratch allocator."""
import itertools, random
import script, vf
from . import PREBUILD, check


def exe():
    return vf.build("plain", "alloc", ["alloc.cc"], lambda f: f in ("allocator.cc", "system_aligned_alloc.cc"),
                    link_flags=script.LEDGER_WRAP)


PREBUILD.append(exe)


def enumerated(sizes, per_round, rounds, faults):
    """Every history of the design model's bounds, and each with a system
    request failing at every point."""
    out = []
    one = [r for n in range(per_round + 1) for r in itertools.product(sizes, repeat=n)]
    for hist in itertools.product(one, repeat=rounds):
        body = []
        for r in hist:
            body += ["A %d" % n for n in r] + ["R"]
        body.append("D")
        n = sum(map(len, hist))
        if n == 0:
            continue
        out.append(("all", ["S"] + body))
        if faults:
            for f in range(1, n + rounds + 1):
                out.append(("all fail %d" % f, ["S", "F %d" % f] + body))
    return out


def size(r):
    k = r.randrange(10)
    if k == 0:
        return 0
    if k < 3:
        return r.randrange(1, 130)
    if k < 5:
        return r.choice([63, 64, 65, 127, 128, 129, 1023, 1024, 1025, 4095, 4096])
    if k < 9:
        return r.randrange(1, 5000)
    return r.randrange(1, 200000)


def request(r, n=None):
    n = size(r) if n is None else n
    k = r.randrange(5)
    if k < 2:
        return "A %d" % n
    if k < 4:
        return "V %d %d" % (n, r.choice([0, 1, 64, 255, 256, 257, 511, 512, 513, 767, 768, 769, 1023,
                                         r.randrange(1024), r.randrange(1 << 20)]))
    t = r.choice([1, 2, 4, 8])
    return "T %d %d %d" % (t, n // t, r.randrange(2))


def random_history(r, faults):
    lines = ["S"]
    if faults:
        lines.append("F " + " ".join(str(r.randrange(1, 25)) for _ in range(r.choice([1, 1, 2, 4, 12]))))
    rounds = []
    for _ in range(r.randrange(1, 7)):
        if rounds and r.random() < 0.6:
            rounds.append(rounds[-1])
        else:
            rounds.append([request(r) for _ in range(r.randrange(0, 9))])
    for rd in rounds:
        for q in rd:
            if r.random() < 0.5:
                lines.append("W %d" % r.randrange(16))
            lines.append(q)
        lines.append("R")
    if r.random() < 0.5:
        lines += [request(r) for _ in range(r.randrange(1, 4))]
    lines.append("D")
    return ("random", lines)


def aliasing(r):
    """Every block address and hint modulo 1024, in steps of 64 and around them."""
    out = []
    for w in range(16):
        lines = ["S", "W %d" % w]
        for h in range(0, 1024, 64):
            for d in (-1, 0, 1, r.randrange(2, 63)):
                lines.append("V %d %d" % (r.choice([1, 64, 200]), (h + d) % 1024))
        lines += ["R"] + lines[2:] + ["R", "D"]
        out.append(("aliasing", lines))
    return out


def many(r, faults):
    """Rounds of many requests, and lives of many rounds."""
    out = []
    for i in range(24):
        lines = ["S"]
        if faults and i % 2:
            lines.append("F " + " ".join(str(r.randrange(1, 400)) for _ in range(r.choice([1, 2, 12]))))
        if i % 3:
            rd = [request(r, r.randrange(1, 3000)) for _ in range(r.choice([65, 130, 260, 300]))]
            lines += rd + ["R"] + rd + ["R"] + rd[:r.randrange(1, len(rd))] + ["R"]
        else:
            for _ in range(r.choice([70, 140, 300])):
                lines += [request(r) for _ in range(r.choice([0, 1, 1, 2, 3]))] + ["R"]
        out.append(("many", lines + ["D"]))
    return out


def huge(r, faults):
    G = 1 << 30
    out = []
    for sizes in ([G - 64, G, 2 * G], [2 * G - 1, 2 * G, 3 * G], [4 * G, 64], [G, G, G, G, G], [4 * G - 1, 1, 4 * G]):
        rd = [request(r, n) for n in sizes]
        lines = ["S"] + rd + ["R"] + rd + ["R"] + rd + ["R", "D"]
        out.append(("huge", lines))
        if faults:
            out.append(("huge", [lines[0], "F %d" % r.randrange(1, len(sizes) + 2)] + lines[1:]))
    return out


A01 = ("null", "there", "aligned", "disjoint", "aliasing", "kept", "intact")
A02 = ("null", "there", "disjoint", "kept", "intact", "freed", "steady", "leak")


def off(mine):
    return [c for c in set(A01 + A02) if c not in mine]


MUTANTS = ["Scratch_keepsize", "Scratch_nofailcheck", "Scratch_norewind", "Scratch_leak", "Scratch_exact"]


@check("A01")
def a01(ctx):
    r = random.Random(ctx.seed)
    vf.model_check(ctx, "Scratch")
    sc = enumerated([64, 128], 2, ctx.pick(3, 4), False)
    sc += [random_history(r, False) for _ in range(ctx.pick(1500, 12000))]
    sc += aliasing(r) + huge(r, False) + many(r, False)
    script.check(ctx, exe(), "AllocTrace", sc, off=off(A01))


@check("A02")
def a02(ctx):
    r = random.Random(ctx.seed)
    vf.model_check(ctx, "Scratch", ctx.pick("Scratch", "ScratchBig"))
    vf.model_mutants(ctx, "Scratch", MUTANTS)
    sc = enumerated([64, 128], 2, 3, True)
    if not ctx.quick:
        sc += enumerated([64, 128, 192], 2, 3, True) + enumerated([64, 128], 2, 4, True)
    sc += [random_history(r, True) for _ in range(ctx.pick(1500, 12000))]
    sc += huge(r, True) + many(r, True)
    script.check(ctx, exe(), "AllocTrace", sc, off=off(A02))
