"""R01, R02: the profiler."""
import random
import script, vf
from . import PREBUILD, check

FILES = ("profiler/instrumentation.cc", "profiler/profiler.cc", "profiler/treeview.cc")


def exe():
    return vf.build("profplain", "profile", ["profile.cc"], lambda f: f in FILES, profiler=True)


PREBUILD.append(exe)

ARGS = [0, 0, 0, 0, 1, 2, 3, 4, 0, 0, 1, 1]


def label(r, wide):
    f = r.randrange(12)
    return "%d %s" % (f, " ".join(str(r.choice([0, 1, 2, 3] if not wide else [0, 1, -1, 7, 123456789, -2147483648]))
                                  for _ in range(ARGS[f])))


FORMATS = ["a", "b", "c", "work", "item %d", "part %d of %d", "box %d %d %d", "quad %d,%d,%d,%d", "a b", "item 1", "x=%d",
           "part %d"]
TEXTS = ["a", "item 1", "item 2", "part 1 of 2", "work", "x=1", "[other]", "part 1", "none", "box 0 0 0", "a b"]


def scenario(r):
    ls = ["S"]
    depth = {0: 0}
    nthreads = r.choice([0, 0, 1, 2, 3, 4])
    wide = r.random() < 0.2
    deep = r.random() < 0.15
    few = [label(r, wide) for _ in range(r.choice([1, 2, 3, 12]))]
    if r.random() < 0.4:  # labels that differ in one argument only
        f = r.choice([4, 5, 6, 7])
        args = [r.choice([0, 1, 5]) for _ in range(ARGS[f])]
        few = []
        for k in range(ARGS[f]):
            few += ["%d %s" % (f, " ".join(str(a + (i == k) * d) for i, a in enumerate(args))) for d in (0, 1)]
    live = [0]
    for t in range(1, nthreads + 1):
        ls.append("N %d" % t)
        live.append(t)
        depth[t] = 0
    on = False
    for profile in range(r.choice([1, 1, 2, 3])):
        for phase in ("before", "during"):
            if phase == "during":
                on = r.choice([1, 1, 2, 2, 0])
                ls.append("B %d %d" % (r.randrange(2), on))
            for _ in range(r.randrange(0, 12 if phase == "before" else 60)):
                x = r.random()
                t = r.choice(live)
                if x < 0.45:
                    for _ in range(r.randrange(1, 30) if deep else 1):
                        if depth[t] < 64:
                            ls.append("L %d %s" % (t, r.choice(few)))
                            depth[t] += 1
                elif x < 0.7:
                    if depth[t]:
                        ls.append("O %d" % t)
                        depth[t] -= 1
                elif x < 0.74:
                    if t and not depth[t]:
                        ls += ["E %d" % t, "N %d" % t]
                elif phase == "during" and on:
                    ls += ["K"] * r.choice([1, 1, 2, 5])
        ls.append("F")
        for f in r.sample(FORMATS, 3):
            ls.append("Q u %s" % f)
        for f in r.sample(TEXTS, 4):
            ls.append("Q f %s" % f)
        for _ in range(3):
            by = r.choice("uf")
            ls.append("C %s %d %s" % (by, r.choice([0, 0, 1, 2, 3]), r.choice(FORMATS if by == "u" else TEXTS)))
        ls.append("P")
    while any(depth.values()):
        for t in depth:
            if depth[t]:
                ls.append("O %d" % t)
                depth[t] -= 1
    return ls


def end_of(r):
    ls = ["F"] + ["Q u %s" % f for f in r.sample(FORMATS, 3)] + ["Q f %s" % f for f in r.sample(TEXTS, 4)]
    return ls + ["C u 1 %s" % r.choice(FORMATS), "C f 0 %s" % r.choice(TEXTS), "P"]


def lengthy(r):
    """Profiles of very many samples."""
    ls = ["S", "N 1", "L 0 %s" % label(r, False), "L 1 %s" % label(r, False), "B 0 1"]
    for n in (r.choice([126, 254, 32766, 65534]) - r.randrange(3), r.randrange(1, 9)):
        ls += ["K %d" % n, "L %d %s" % (r.randrange(2), label(r, False)), "K %d" % r.randrange(1, 9)]
    return ls + end_of(r) + ["O 0", "O 1"] + ["O %d" % int(x.split()[1]) for x in ls[5:] if x[0] == "L"]


def crowd(r):
    """Many threads: some alive all along, most come and go in between, and
    the last are again sampled together with the first."""
    ls = ["S", "L 0 %s" % label(r, False)]
    early = r.randrange(1, 5)
    for t in range(1, early + 1):
        ls += ["N %d" % t, "L %d %s" % (t, label(r, False))]
    on = r.random() < 0.3
    if on:
        ls += ["B 0 1", "K"]
    for i in range(r.choice([30, 125, 253, 253]) - r.randrange(4)):
        ls += ["N 99", "L 99 %s" % label(r, False), "O 99", "E 99"]
    late = r.choice([6, 12, 30])
    for t in range(100, 100 + late):
        ls += ["N %d" % t, "L %d %s" % (t, label(r, False))]
        if r.random() < 0.5:
            ls.append("L %d %s" % (t, label(r, True)))
    ls += ([] if on else ["B 0 1"]) + ["K", "L 0 2", "K 3"] + end_of(r)
    depth = {}
    for x in ls:
        if x[0] in "LO":
            t = int(x.split()[1])
            depth[t] = depth.get(t, 0) + (1 if x[0] == "L" else -1)
    return ls + ["O %d" % t for t in depth for _ in range(depth[t])]


@check("R01")
def r01(ctx):
    r = random.Random(ctx.seed * 97 + 1)
    ctx.assumptions = ["Samples are taken when the sampling thread's sleep ends; the harness decides when."]
    script.check(ctx, exe(), "Profile", [("profile", scenario(r)) for _ in range(ctx.pick(400, 6000))] +
                 [("lengthy", lengthy(r)) for _ in range(ctx.pick(12, 60))] + [("crowd", crowd(r)) for _ in range(ctx.pick(12, 120))])


def sched_exe(variant="prof"):
    return vf.build(variant, "profsched", ["profsched.cc"], lambda f: f in FILES, rt=True, profiler=True)


PREBUILD.append(sched_exe)


def sched_jobs(ctx):
    from .pool import Jobs
    r = random.Random(ctx.seed * 101 + 2)
    j = Jobs()
    specs = ["B1j1F/ab.c..", "aB1b.j1.F/a.", "B12j1j2F/abc.../ab..a.", "B1j1F1j1/a.b.", "1ByyFj1/abcd....",
             "B1a.j1F/abcdefg.......", "B12yj1a.j2F/a./b.", "BF", "aBF.", "B1F2j1j2BF/ayyb../bc..", "abB..F", "B123j1j2j3F/a./ab../c.",
             "1Bj1F2Bj2F/ab../a.", "B1j12j23j3F/a./b./c.", "aB1F.j1/aybyc..y.",
             # several threads ending together, and a profile afterwards
             "a12j1j2ByyF./b./c.", "a123j1j2j3ByyF./b./b./b.", "aB1234j1j2j3j4yyF./b./c./b./c.", "1a23j2j3ByyF.j1/byyyyyyyyyyyy./b./c."]
    if not all(consistent(s) for s in specs):
        raise vf.CheckError("inconsistent programs: %s" % [s for s in specs if not consistent(s)])
    for k in range(ctx.pick(8, 40)):
        specs.append(program(r))
    per = ctx.pick(24, 160)
    for i, sp in enumerate(specs):
        for mode in ("random", "pct"):
            j.add(kind="prof", spec=sp, mode=mode, seed=ctx.seed * 1000003 + i * 1000, count=per, switch=[120, 300, 600][i % 3],
                  depth=2 + i % 3, len=[40, 80, 150][i % 3], tick=500000)
    for sp, bound in (("B1j1F/a.", 2), ("B1j1F/ab..", 1), ("B1Fj1/a.", 2), ("aB1j1.F/b.", 1), ("B1j12j2F/a./b.", 1),
                      ("a12j1j2BF./b./c.", 1)):
        j.add(kind="prof", spec=sp, mode="dfs", seed=1, count=ctx.pick(300, 8000), bound=bound)
    return j.lines


def consistent(spec):
    """Scopes nest and every thread started is waited for."""
    progs = spec.split("/")
    for p in progs:
        d = 0
        for c in p:
            d += c in "abcdefg"
            d -= c == "."
            if d < 0:
                return False
        if d:
            return False
    main, k, started = progs[0], 0, {}
    while k < len(main):
        c = main[k]
        if c == "j":
            k += 1
            if started.get(main[k]) != 1:
                return False
            started[main[k]] = 2
        elif c.isdigit():
            if started.get(c) == 1 or int(c) >= len(progs):
                return False
            started[c] = 1
        k += 1
    return all(v == 2 for v in started.values())


def program(r):
    n = r.randrange(1, 4)
    progs = []
    for _ in range(n):
        p, d = "", 0
        for _ in range(r.randrange(1, 9)):
            x = r.random()
            if x < 0.5 and d < 8:
                p += r.choice("abcdefg")
                d += 1
            elif x < 0.8 and d:
                p += "."
                d -= 1
            else:
                p += "y"
        progs.append(p + "." * d)
    left = [str(t) for t in range(1, n + 1)]
    main, started, d, on = "", [], 0, False
    while left or started or on or d:
        x = r.random()
        if x < 0.2 and left:
            t = left.pop(0)
            main += t
            started.append(t)
        elif x < 0.4 and started:
            t = started.pop(r.randrange(len(started)))
            main += "j" + t
        elif x < 0.6:
            main += "F" if on else "B"
            on = not on
        elif x < 0.75 and d < 4:
            main += r.choice("abc")
            d += 1
        elif x < 0.95 and d:
            main += "."
            d -= 1
        else:
            main += "y"
        if len(main) > 40:
            for t in left:
                main += t
            for t in left + started:
                main += "j" + t
            left, started = [], []
            main += "F" if on else ""
            on = False
            main += "." * d
            d = 0
    if "B" not in main:
        main = "B" + main + "F"
    return main + "/" + "/".join(progs)


@check("R02")
def r02(ctx):
    from .pool import ASSUME
    ctx.assumptions = ASSUME
    vf.model_check(ctx, "Sampler", "Sampler" if ctx.quick else "SamplerBig")
    vf.model_check(ctx, "Sampler", "SamplerLive")
    vf.model_mutants(ctx, "Sampler", ["Sampler_noownerlock", "Sampler_nolocksample", "Sampler_release", "Sampler_keep",
                                      "Sampler_sizefirst", "Sampler_split"])
    vf.sched_check(ctx, sched_exe(), "ProfTrace", sched_jobs(ctx), tag="prof")
