"""K02, K03: the cache of packed matrices as a component."""
import itertools, random
import script, vf
from . import PREBUILD, check


def exe():
    return vf.build("plain", "cache", ["cache.cc"], lambda f: f in ("prepacked_cache.cc", "system_aligned_alloc.cc"),
                    link_flags=script.LEDGER_WRAP)


PREBUILD.append(exe)
SIZE = [1, 1, 2, 4, 4, 8]


class Key:
    def __init__(self, i, src, zp, ty, rows, cols, stride=None, order=0, kr=1, kc=1, ko=0):
        self.line = "G %d %d %d %d %d %d %d %d %d %d %d" % (
            i, src, zp, ty, rows, cols, (rows if order == 0 else cols) if stride is None else stride, order, kr, kc, ko)
        st = (rows if order == 0 else cols) if stride is None else stride
        self.bytes = st * (cols if order == 0 else rows) * SIZE[ty] + (4 * cols if ty < 4 else 0)


def enumerated(nkeys, length, clear=True):
    """All sequences of lookups (and clears) over a few keys of unequal sizes, of
    integer and float matrices, for every interesting budget."""
    keys = [Key(0, 0, 0, 0, 12, 1), Key(1, 1, 0, 4, 4, 2), Key(2, 2, 3, 0, 12, 3), Key(3, 3, 0, 5, 2, 4)][:nkeys]
    # sizes 16, 32, 48, 64
    total = sum(k.bytes for k in keys)
    out = []
    ops = [k.line for k in keys] + (["C"] if clear else [])
    for budget in range(0, total + 1, 16):
        for d in (0, -1) if budget else (0,):
            for seq in itertools.product(ops, repeat=length):
                out.append(("all budget=%d" % (budget + d), ["S %d 1" % (budget + d)] + list(seq) + ["D"]))
    return out


def keyset(r, n):
    """Keys that differ in few respects."""
    base = dict(src=r.randrange(4), zp=r.choice([0, 0, 5]), ty=r.randrange(6), rows=r.choice([1, 4, 16, 33]),
                cols=r.choice([1, 2, 8, 17]), stride=None, order=r.randrange(2), kr=r.choice([1, 4]), kc=r.choice([1, 8]),
                ko=r.randrange(2))
    seen, out = set(), []
    while len(out) < n:
        k = dict(base)
        for f in r.sample(sorted(k), r.randrange(1, 4)):
            k[f] = dict(src=r.randrange(6), zp=r.choice([0, 1, -1, 128]), ty=r.randrange(6), rows=r.choice([1, 4, 8, 16, 33, 200]),
                        cols=r.choice([1, 2, 8, 17, 64]), stride=None, order=r.randrange(2), kr=r.choice([1, 2, 4]),
                        kc=r.choice([1, 4, 8, 16]), ko=r.randrange(2))[f]
        if r.random() < 0.2:
            k["stride"] = (k["rows"] if k["order"] == 0 else k["cols"]) + r.randrange(0, 9)
        # data of one address has one type
        k["src"] = k["src"] * 6 + k["ty"]
        full = dict(k, stride=(k["rows"] if k["order"] == 0 else k["cols"]) if k["stride"] is None else k["stride"])
        ident = tuple(sorted((a, b) for a, b in full.items() if a != "ty"))
        if ident in seen:
            continue
        seen.add(ident)
        out.append(Key(len(out), **k))
    return out


def random_history(r):
    ks = keyset(r, r.randrange(2, 14))
    tot = sum(k.bytes for k in ks)
    budget = r.choice([0, tot, tot - 1, tot // 2, tot // 3, max(k.bytes for k in ks), r.randrange(tot + 1)])
    lines = ["S %d 1" % budget]
    n = r.randrange(3, 60)
    hot = r.sample(ks, min(len(ks), 3))
    for _ in range(n):
        if r.random() < 0.03:
            lines.append("C")
        else:
            lines.append(r.choice(hot if r.random() < 0.4 else ks).line)
    lines.append("D")
    return ("random", lines)


def long_life(r):
    """Lives of many thousand lookups: an entry is looked up again and again at once
    (which changes nothing), then others compete for room."""
    ks = keyset(r, r.randrange(3, 9))
    tot = sum(k.bytes for k in ks)
    lines = ["S %d 1" % r.choice([tot - 1, tot // 2, tot // 3, tot - min(k.bytes for k in ks)])]
    for _ in range(r.choice([1, 1, 2, 3])):
        lines += [r.choice(ks).line for _ in range(r.randrange(0, 8))]
        lines.append("%s %d" % (r.choice(ks).line, r.choice([250, 32760, 65530, 65530, 131064]) - r.randrange(12)))
        lines += [r.choice(ks).line for _ in range(r.randrange(4, 40))]
    return ("long", lines + ["D"])


def huge(r):
    """Sizes beyond 32 bits; logged in units of 64 bytes."""
    out = []
    G = 1 << 30
    ks = [Key(0, 0, 0, 0, 1 << 16, 1 << 15), Key(1, 1, 0, 4, 1 << 15, 3 << 13), Key(2, 2, 0, 5, 1 << 15, 1 << 14),
          Key(3, 3, 1, 0, 1 << 10, 1 << 10), Key(4, 4, 0, 4, 1 << 10, 1 << 12), Key(5, 5, 0, 2, 3 << 14, 1 << 14)]
    for budget in (1 << 28, 1 << 30, (1 << 31) - 64, 64):
        for _ in range(4):
            lines = ["S %d 64" % budget] + [r.choice(ks).line for _ in range(12)] + ["D"]
            out.append(("huge", lines))
    return out


K02 = ("bytes", "count", "budget", "released", "room", "fresh", "found")
K03 = ("found", "content", "kept", "inserted", "room", "fresh", "lru", "necessary")
MUTANTS = ["PackCache_" + b for b in ("nosums", "allsums", "hitstamp", "ge", "one", "after")]


def go(ctx, mine):
    r = random.Random(ctx.seed)
    vf.model_check(ctx, "PackCache", ctx.pick("PackCache", "PackCacheBig"))
    vf.model_mutants(ctx, "PackCache", MUTANTS)
    sc = enumerated(3, 5) if ctx.quick else enumerated(4, 6, False) + enumerated(3, 6)
    sc += [random_history(r) for _ in range(ctx.pick(2000, 12000))]
    sc += [long_life(r) for _ in range(ctx.pick(150, 1500))]
    sc += huge(r)
    script.check(ctx, exe(), "CacheTrace", sc, off=[c for c in set(K02 + K03) if c not in mine])


@check("K02")
def k02(ctx):
    go(ctx, K02)


@check("K03")
def k03(ctx):
    go(ctx, K03)
