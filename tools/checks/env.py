"""X02, X03: detection and tuning, on a simulated processor and clock.  X04: settings."""
import itertools, random
import script, vf
from . import PREBUILD, check


def exe(variant="plain"):
    return vf.build(variant, "env", ["env.cc"], None, libs=["-lcpuinfo"])


PREBUILD += [exe, lambda: exe("blind")]


def machine(r):
    """Caches and processors: sizes grow with the level, as on any real processor."""
    ncores = r.choice([1, 1, 2, 3, 4, 6])
    smt = r.choice([1, 1, 2])
    procs = ncores * smt
    core = [i // smt for i in range(procs)]
    caches, of = [], [[-1, -1, -1] for _ in range(procs)]
    kinds = [[r.choice([8, 16, 32, 48, 64]) << 10, r.choice([128, 256, 512, 1024]) << 10, r.choice([1, 2, 8, 32, 300]) << 20]
             for _ in range(3)]
    kind = [r.randrange(3) if r.random() < 0.5 else 0 for _ in range(ncores)]
    shape = [r.choice(["core", "core", "none", "pair"]), r.choice(["core", "pair", "none", "all", "core"]),
             r.choice(["all", "all", "none", "pair", "core"])]
    for lev in range(3):
        group = {"core": 1, "pair": 2, "all": ncores}.get(shape[lev])
        if group is None:
            continue
        for g0 in range(0, ncores, group):
            cores = list(range(g0, min(g0 + group, ncores)))
            n = len(cores) * smt
            size = kinds[kind[g0]][lev]
            start, count = g0 * smt, n
            if r.random() < 0.06:
                count = 0           # unknown
            elif r.random() < 0.05:
                start = procs + 3   # describes processors that cannot be seen
            elif r.random() < 0.03:
                count = procs + 5
            caches.append((size, start, count))
            for p in range(g0 * smt, g0 * smt + n):
                if r.random() > 0.04:
                    of[p][lev] = len(caches) - 1
    return caches, [(core[p], of[p]) for p in range(procs)], procs


def detect(ok, feats, others, vis, caches, procs):
    return "D %d %d %d %d %d %s %d %s" % (ok, feats, others, vis, len(caches), " ".join("%d %d %d" % c for c in caches),
                                         len(procs), " ".join("%d %d %d %d" % ((c,) + tuple(o)) for c, o in procs))


def sane(caches, procs, vis):
    """The last known level of a processor is no smaller than the level private to its core."""
    n = len(procs)

    def seen(i):
        return i < n and (vis < 0 or i < vis)
    for _, o in procs:
        prev = 0
        for c in o:
            if c < 0 or not caches[c][2] or not seen(caches[c][1]) or not seen(caches[c][1] + caches[c][2] - 1):
                continue
            if caches[c][0] < prev:
                return False
            prev = caches[c][0]
    return True


@check("X02")
def x02(ctx):
    r = random.Random(ctx.seed * 83 + 2)
    plain = ([(32768, 0, 1), (1 << 20, 0, 1)], [(0, [0, 1, -1])])
    lines = []
    for ok in (1, 0):
        for others in (0, 1):
            for feats in range(1024):
                lines.append(detect(ok, feats, others, -1, *plain))
    n = 0
    while n < ctx.pick(3000, 60000):
        caches, procs, count = machine(r)
        vis = -1
        if not sane(caches, procs, vis):
            continue
        n += 1
        lines.append(detect(int(r.random() > 0.03), r.choice([1023, 0, 255, r.randrange(1024)]), r.randrange(2), vis, caches, procs))
    sc = [("machines %d.." % i, ["S"] + lines[i:i + 100]) for i in range(0, len(lines), 100)]
    script.check(ctx, exe(), "Detect", sc)
    script.check(ctx, exe("blind"), "Detect", sc[::4])
    ctx.extra["machines"] = len(lines)


STEPS = [0, 1, 10, 50, 100, 125, 200, 240, 248, 249, 251, 252, 260, 300, 499, 500, 501, 1000, 100000]


def history(r, threads):
    ls = ["S"]
    if r.random() < 0.05:
        ls.append("I 0")
    ls.append("X" if threads else "R")
    for _ in range(r.randrange(3, 40)):
        what = r.random()
        if what < 0.35:
            ls.append("A %d" % r.choice(STEPS))
        elif what < 0.5:
            ls.append("K %d" % r.choice([0, 1, 2, 3, 4, 4, 5, 6, 7, 8, 20]))
        elif what < 0.6:
            ls.append("T %d" % r.choice([0, 0, 1, 2, 3]))
        elif threads:
            ls.append("M %d %d %d %d" % (r.choice([1, 1, 2, 3, 4]), r.choice([1, 8, 40, 64]), r.choice([1, 8, 40, 64]), r.choice([4, 100])))
        else:
            ls.append("V")
    return ls


@check("X03")
def x03(ctx):
    r = random.Random(ctx.seed * 89 + 3)
    sc = []
    ops = ["A 100", "A 249", "A 251", "K 1", "K 4", "K 0", "T 0", "T 3", "V"]
    for n in range(1, ctx.pick(4, 6)):
        for seq in itertools.product(ops, repeat=n):
            if n < 5 or r.random() < 0.5:
                ls = ["S", "R", "V"]
                for o in seq:
                    ls += [o, "V"]
                sc.append(("all", ls))
    for _ in range(ctx.pick(1500, 20000)):
        sc.append(("random", history(r, False)))
    for _ in range(ctx.pick(400, 4000)):
        sc.append(("context", history(r, True)))
    script.check(ctx, exe(), "Tune", sc)


# ------------------------------------------------------ contexts side by side
def settings_exe():
    return vf.build("plain", "settings", ["settings.cc"], None, libs=["-lcpuinfo"])


PREBUILD.append(settings_exe)


def setting(r, c):
    return r.choice([lambda: "U %d %d" % (c, r.randrange(4)), lambda: "T %d %d" % (c, r.choice([1, 2, 3, 4, 8, 100, 300, 40000, 70000])),
                     lambda: "G %d %d" % (c, r.randrange(2)), lambda: "W %d %d" % (c, r.choice([0, 1, 2, 5, 1000])),
                     lambda: "P %d %d" % (c, r.choice([0, 0, 1, 2, 4, 16, 32, 64, 17, 48, 80, 127, 126]))])()


def side_by_side(r):
    live, lines = [], ["S"]
    for _ in range(r.randrange(4, 60)):
        what = r.random()
        if not live or what < 0.08 and len(live) < 4:
            c = r.choice([x for x in range(6) if x not in live])
            live.append(c)
            lines.append("N %d" % c)
        elif what < 0.11 and len(live) > 1:
            lines.append("D %d" % live.pop(r.randrange(len(live))))
        elif what < 0.14:
            lines.append("X %d" % r.choice(live))
        elif what < 0.4:
            lines.append(setting(r, r.choice(live)))
        elif what < 0.6:
            lines.append("M %d %d %d %d" % (r.choice(live), r.choice([5, 5, 16, 33, 64]), r.randrange(2), r.randrange(2)))
        else:
            lines.append("V %d %d" % (r.choice(live), r.choice([127, 127, r.randrange(1, 128)])))
    return lines + ["V %d 127" % c for c in live]


@check("X04")
def x04(ctx):
    r = random.Random(ctx.seed * 101 + 4)
    sc = []
    # every setting against every other context and a multiplication, in every order
    sets = ["U %d 2", "T %d 3", "G %d 1", "W %d 7", "P %d 1", "P %d 16", "P %d 0", "M %d 5 1 0", "M %d 16 0 1", "X %d", "V %d 8"]
    for n in (2, 3):
        for seq in itertools.product(sets, repeat=n):
            if n == 3 and r.random() > ctx.pick(0.4, 1):
                continue
            ls = ["S", "N 0", "N 1"] + ([] if r.random() < 0.5 else ["V 0 127", "V 1 127"])
            for k, o in enumerate(seq):
                ls.append(o % (k % 2 if r.random() < 0.7 else r.randrange(2)))
            sc.append(("short", ls + ["V 0 127", "V 1 127", "N 2", "V 2 127"]))
    for _ in range(ctx.pick(600, 12000)):
        sc.append(("random", side_by_side(r)))
    script.check(ctx, settings_exe(), "Settings", sc)
