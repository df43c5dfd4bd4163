"""B01..B03: decoding of the bidi and shaping tables."""
from . import check
from .common import *
from sa.natives import SymArray

MOD = "UnicodeData.BidiProps"


def spec_of(ctx):
    t = trie_spec(ctx)
    inject = {k: v for k, v in module_attrs(ctx, "UnicodeData.BidiPropsData").items() if k.startswith("ubidi")}
    inject["lookup"] = t("lookup")
    return ctx.spec("bidi", inject)


def each(ctx, spec, names, truthy, hi=MAXC):
    c = code_point(hi)
    for n in names:
        ctx.equiv(n, lambda n=n: ctx.anchor(MOD, n), spec(n), fixed(c), truthy=truthy, where="UnicodeData/BidiProps.py:%s" % n)


@check("B01")
def b01(ctx):
    spec = spec_of(ctx)
    each(ctx, spec, ["getCharDirection", "getJoiningType", "getPairedBracketType"], False)
    each(ctx, spec, ["isJoinControl", "isBidiControl", "isMirrored"], True)
    return {"explanation": "Accessors of the 16-bit bidi word, interpreted for a symbolic code point and compared with ubidi_props.h."}


DATA = "UnicodeData.BidiPropsData"


def sym_trie_index(st):
    return NativeO(SymArray(), {"table": SymTable("bidiTrie", 0, 0xFFFF), "len": lin(0x10000), "off": lin(0)})


def any_mirrors(ctx, n):
    """Mirror lookups over a trie of unknown contents and a sorted mirror table of n unknown entries."""
    ms = [var("mirror%d" % i, 0, 0xFFFFFFFF) for i in range(n)]
    c = var("c", 0, 0xD7FF)

    def go():
        s = ctx.with_tables({(DATA, "ubidi_props_mirrors"): lambda st: ListO(list(ms)), (DATA, "ubidi_props_trieIndex"): sym_trie_index}, [MOD])
        spec = spec_of(s)
        f = Facts()
        for i, m in enumerate(ms):
            f = assume(f, sub(div(m, 1 << 21), n), "<")
            if i:
                f = assume(f, sub(sub(mod(m, 1 << 21), mod(ms[i - 1], 1 << 21)), 1), ">=")
        for name in ("getMirror", "getPairedBracket"):
            s.equiv("%s over any data with %d mirror entries" % (name, n), lambda: s.anchor(MOD, name), spec(name), fixed(c), facts=f.copy(),
                    where="UnicodeData/BidiProps.py:" + name)
    ctx.guard("any mirror table of %d entries" % n, go)


def any_joining_groups(ctx):
    """Joining groups over header values and arrays of unknown contents."""
    ix = [var("index%d" % i, 0, MAXC + 1) for i in range(16)]
    c = code_point()

    def arr(name):
        return lambda st: NativeO(SymArray(), {"table": SymTable(name, 0, 255), "len": lin(0x1000), "off": lin(0)})

    def go():
        s = ctx.with_tables({(DATA, "ubidi_props_indexes"): lambda st: ListO(list(ix)), (DATA, "ubidi_props_jgArray"): arr("jg"),
                             (DATA, "ubidi_props_jgArray2"): arr("jg2")}, [MOD])
        spec = spec_of(s)
        f = Facts()
        for a, b in ((4, 5), (5, 6), (6, 7)):
            f = assume(f, sub(ix[b], ix[a]), ">=")
        s.equiv("getJoiningGroup over any data", lambda: s.anchor(MOD, "getJoiningGroup"), spec("getJoiningGroup"), fixed(c), facts=f,
                where="UnicodeData/BidiProps.py:getJoiningGroup")
    ctx.guard("any joining group data", go)


def assume(f, x, rel):
    return f.assume(lin(x), rel) or f


@check("B02")
def b02(ctx):
    spec = spec_of(ctx)
    each(ctx, spec, ["getMirror", "getPairedBracket"], False)
    w = var("props", 0, 0xFFFF)
    ctx.equiv("getMirrorDeltaFromProps", lambda: ctx.anchor(MOD, "getMirrorDeltaFromProps"), spec("delta"), fixed(w),
              where="UnicodeData/BidiProps.py:getMirrorDeltaFromProps")
    for n in range(1, 6 if ctx.thorough else 4):
        any_mirrors(ctx, n)
    return {"explanation": "Mirror and paired bracket lookups (delta form and table form) for a symbolic code point, over the repository's tables and over "
                           "tries and sorted mirror tables of unknown contents and bounded length."}


@check("B03")
def b03(ctx):
    spec = spec_of(ctx)
    each(ctx, spec, ["getJoiningGroup"], False)
    any_joining_groups(ctx)
    return {"explanation": "Joining group lookup in both arrays for a symbolic code point."}
