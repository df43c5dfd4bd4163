"""P05, P06, B04, C03, N03: what the tables say about every code point, against Unicode 13.0."""
import json
import os
from . import check
from .common import *
from sa.expr import Table
from sa.vm import fresh_ref
from sa.report import HERE

N = MAXC + 1
_snap = None


def snapshot(name):
    global _snap
    if _snap is None:
        _snap = json.load(open(os.path.join(HERE, "oracle", "ucd13.json")))
    return _snap[name]


def expand(runs):
    """Runs of (start, value) as a list by code point; None becomes -1."""
    out = []
    for i, (s, v) in enumerate(runs):
        e = runs[i + 1][0] if i + 1 < len(runs) else N
        out.extend([-1 if v is None else v] * (e - s))
    return out


def table(ctx, name, data):
    p = ctx.project
    r = fresh_ref()
    o = ListO(data, Table("unicode13." + name, data))
    o.owner = None
    p.vm.base[r.id] = o
    return r


class Oracle(object):
    """Compares an accessor with a table of the snapshot."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.spec = ctx.spec("oracle")

    def run(self, mod, func, ref, tables, extra=(), truthy=False, label=None, hi=MAXC):
        c = var("c", 0, hi)
        self.ctx.equiv(label or func, lambda: self.ctx.anchor(mod, func), self.spec(ref), fixed(c, *extra), truthy=truthy,
                       ref_args=lambda vm, st, a: tuple(tables) + (a[0],), where="UnicodeData/%s.py:%s" % (mod.split(".")[1], func))
        self.ctx.count("code_points", hi + 1)

    def enum(self, mod, func, prop, **kw):
        self.run(mod, func, "at", [table(self.ctx, prop, expand(snapshot(prop)))], **kw)


CHAR = [("getGeneralCategory", "gc"), ("getScript", "sc"), ("getBlock", "blk"), ("getEastAsianWidth", "ea"), ("getLineBreak", "lb"),
        ("getSentenceBreak", "sb"), ("getWordBreak", "wb"), ("getGraphemeClusterBreak", "gcb"), ("getDecompType", "dt"), ("getNumericType", "nt")]
CP = "UnicodeData.CharProps"


EXPL = "The accessor is interpreted for a symbolic code point; the expression it computes over the tables of the source is compared, as a " \
       "closed form and then by finite enumeration of the form over every code point of each path, with Unicode 13.0."
TB = ["the abstract interpreter in /verif/sa", "CPython's compiler (source to bytecode)",
      "/verif/oracle/ucd13.json: Unicode 13.0 as recorded by Java 17 and (masked to what 13.0 assigns) perl's Unicode database"]


def done(**kw):
    return dict(explanation=EXPL, trusted=TB, **kw)


def unconfirmed(ctx, *props):
    n = sum(1 for p in props for v in expand(snapshot(p)) if v == -1)
    ctx.count("code_point_values_without_an_independent_source", n)


@check("P05")
def p05(ctx):
    o = Oracle(ctx)
    for f, p in CHAR:
        o.enum(CP, f, p)
    o.run(CP, "getAge", "age", [table(ctx, "age", expand(snapshot("age")))])
    v = expand(snapshot("nv"))
    kind = [-1 if x == -1 else 0 if x == "none" else 1 for x in v]
    num = [int(x.split("/")[0]) if k == 1 else 0 for k, x in zip(kind, v)]
    den = [int(x.split("/")[1]) if k == 1 else 1 for k, x in zip(kind, v)]
    o.run(CP, "getNumericValue", "number", [table(ctx, "nv", kind), table(ctx, "nv.num", num), table(ctx, "nv.den", den)])
    unconfirmed(ctx, *[p for _, p in CHAR])
    return done()


@check("P06")
def p06(ctx):
    o = Oracle(ctx)
    props = [k for k in snapshot("b1:0") and _snap if k[:3] in ("b1:", "b2:")]
    for k in props:
        o.enum(CP, "getBinaryProp", k, extra=(int(k[3:]), int(k[1])), truthy=True, label="getBinaryProp bit %s of column %s" % (k[3:], k[1]))
    for f, k in (("isAlphabetic", "b1:8"), ("isUWhiteSpace", "b1:0"), ("isExtendedPictograph", "b2:26"), ("isEmojiComponent", "b2:27"),
                 ("isEmoji", "b2:28"), ("isEmojiPresentation", "b2:29"), ("isEmojiModifier", "b2:30"), ("isEmojiModifierBase", "b2:31")):
        o.enum(CP, f, k, truthy=True)
    unconfirmed(ctx, *props)
    return done()


def mapped(name):
    """{c: image} as a list by code point (identity elsewhere)."""
    out = list(range(N))
    for k, v in snapshot(name).items():
        out[int(k, 16)] = -1 if v is None else v
    return out


@check("B04")
def b04(ctx):
    o = Oracle(ctx)
    BP = "UnicodeData.BidiProps"
    for f, p in (("getCharDirection", "bc"), ("getJoiningType", "jt"), ("getJoiningGroup", "jg"), ("getPairedBracketType", "bpt")):
        o.enum(BP, f, p)
    for f, p in (("isJoinControl", "join_c"), ("isBidiControl", "bidi_c"), ("isMirrored", "bidi_m")):
        o.enum(BP, f, p, truthy=True)
    for f, p in (("getMirror", "bmg"), ("getPairedBracket", "bpb")):
        o.run(BP, f, "at", [table(ctx, p, mapped(p))])
    unconfirmed(ctx, "bc", "jt", "jg", "bpt", "join_c", "bidi_c", "bidi_m")
    return done()


def texts(ctx, name):
    cols = [[1] * N, list(range(N)), [0] * N, [0] * N]
    for k, v in snapshot(name).items():
        c = int(k, 16)
        cols[0][c] = -1 if v is None else len(v)
        for i, x in enumerate(v or ()):
            cols[i + 1][c] = x
    return [table(ctx, "%s.%d" % (name, i), x) for i, x in enumerate(cols)]


@check("C03")
def c03(ctx):
    o = Oracle(ctx)
    m = "UnicodeData.CaseProps"
    for f, p in (("toLower", "slower"), ("toUpper", "supper"), ("toTitle", "stitle")):
        o.run(m, f, "at", [table(ctx, p, mapped(p))])
    for f, p in (("toFullLower", "flower"), ("toFullUpper", "fupper"), ("toFullTitle", "ftitle")):
        o.run(m, f, "text", texts(ctx, p))
    return done()


@check("N03")
def n03(ctx):
    from .norm import method, MOD
    o = Oracle(ctx)
    for name, f in (("nfd", "getDecomposition"), ("dm", "getRawDecomposition")):
        count, off, pool = [0] * N, [0] * N, []
        for k, v in snapshot(name).items():
            c = int(k, 16)
            if v is None:
                count[c] = -1
                continue
            count[c], off[c] = len(v), len(pool)
            pool += v
        t = [table(ctx, name + ".offset", off), table(ctx, name + ".count", count), table(ctx, name + ".pool", pool)]
        ctx.equiv(f, lambda: method(ctx, ctx.anchor(MOD, "nfcTrie"), f), o.spec("pooled"), fixed(code_point()),
                  ref_args=lambda vm, st, a: tuple(t) + (a[0],), where="UnicodeData/Normalizer2.py:Normalizer2." + f)
        ctx.count("code_points", N)
    return done()
