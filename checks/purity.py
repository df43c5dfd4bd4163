"""E01: lookups do not depend on earlier lookups."""
from . import check
from .common import *
from . import uset

CHAR = """getGeneralCategory isLower isUpper isTitle isDigit isHexDigit isalpha isAlphabetic isalnum isalnumPOSIX isDefined isbase iscntrl isISOControl isThatControlSpace
 isThatASCIIControlSpace isspace isJavaSpaceChar isWhiteSpace isBlank isUWhiteSpace isPrint isPrintPOSIX isgraph isGraphPOSIX ispunct isIDStart isIDPart isIDIgnorable
 isJavaIDStart isJavaIDPart digitValue getNumericType getNumericTypeValue getNumericValue getAge getScript getBlock getEastAsianWidth getLineBreak getSentenceBreak
 getWordBreak getGraphemeClusterBreak getDecompType isExtendedPictograph isEmojiComponent isEmoji isEmojiPresentation isEmojiModifier isEmojiModifierBase""".split()
BIDI = "getCharDirection isMirrored getMirror isBidiControl isJoinControl getJoiningType getJoiningGroup getPairedBracketType getPairedBracket".split()
CASE = "toLower toUpper toTitle toFullLower toFullUpper toFullTitle".split()
UTIL = "isSurrogate isLead isTrail isUnicodeNoncharacter".split()
NORM = "getDecomposition getRawDecomposition getNorm16 getRawNorm16".split()
TRIES = [("UnicodeData.CharProps", "propsTrie"), ("UnicodeData.CharProps", "propsVectorTrie"), ("UnicodeData.BidiProps", "bidiPropsTrie"), ("UnicodeData.CaseProps", "casePropsTrie")]


def path_of(mod):
    return mod.replace(".", "/") + ".py"


def lookup(ctx, mod, name, get, make):
    """make(tag) -> arguments"""
    label = "%s.%s" % (mod.split(".")[1], name)
    where = "%s:%s" % (path_of(mod), name)

    def go():
        p, vm = ctx.project, ctx.project.vm
        f = get()
        known = set(vm.base)
        shared = []
        n = [0]

        def sink(leaf):
            n[0] += 1
            r = leaf.result
            if leaf.status == "ret" and isinstance(r, Ref) and r.id in known and vm.base[r.id].kind in ("list", "dict", "set"):
                shared.append(leaf.where() if leaf.frames else name)
            return False
        covered = vm.covered
        vm.covered, vm.effect_log = set(), []
        try:
            p.call(f, tuple(make("")), {}, st=p.state(), sink=sink)
            effects = vm.effect_log
        finally:
            vm.effect_log = None
            ctx.functions |= {c for c in vm.covered if not c[0].startswith("<")}
            vm.covered = covered
        ctx.count("paths", n[0])
        if not effects and not shared:
            ctx.ok(label, paths=n[0], rule="no path writes to anything that outlives the call, and no answer is an object that does")
            return
        ctx.count("lookups_with_effects")
        s = ctx.spec("purity")
        ctx.equiv(label + " after itself", s("again"), s("fresh"), lambda vm, st: ((f, tuple(make("1")), tuple(make("2"))), {}),
                  apart=True, where="%s (writes at %s)" % (where, "; ".join(sorted({str(e[0]) for e in effects} or set(shared)))[:200]))
    ctx.guard(label, go)


@check("E01")
def e01(ctx):
    c = lambda t: [var("c" + t, 0, MAXC)]
    jobs = []
    for mod, names in (("UnicodeData.CharProps", CHAR), ("UnicodeData.BidiProps", BIDI), ("UnicodeData.CaseProps", CASE), ("UnicodeData.Utilities", UTIL)):
        for n in names:
            jobs.append((mod, n, lambda q, mod=mod, n=n: q.anchor(mod, n), c))
    for col in range(3):
        jobs.append(("UnicodeData.CharProps", "getUnicodeProperties", lambda q: q.anchor("UnicodeData.CharProps", "getUnicodeProperties"), lambda t, col=col: c(t) + [col if t != "1" else (col + 1) % 3]))
    jobs.append(("UnicodeData.CharProps", "getBinaryProp", lambda q: q.anchor("UnicodeData.CharProps", "getBinaryProp"), lambda t: c(t) + [5 if t != "1" else 8]))
    jobs.append(("UnicodeData.Utilities", "surrogatesFromChar", lambda q: q.anchor("UnicodeData.Utilities", "surrogatesFromChar"), lambda t: [var("c" + t, 0x10000, MAXC)]))
    jobs.append(("UnicodeData.Utilities", "charFromSurrogates", lambda q: q.anchor("UnicodeData.Utilities", "charFromSurrogates"),
                 lambda t: [var("lead" + t, 0xD800, 0xDBFF), var("trail" + t, 0xDC00, 0xDFFF)]))
    for n in NORM:
        def get(q, n=n):
            from .norm import method
            return method(q, q.anchor("UnicodeData.Normalizer2", "nfcTrie"), n)
        jobs.append(("UnicodeData.Normalizer2", n, get, c if n != "getRawNorm16" else lambda t: [var("c" + t, 0, 0xD7FF)]))
    for mod, t in TRIES:
        def get(q, mod=mod, t=t):
            from .norm import method
            return method(q, q.anchor(mod, t), "get")
        jobs.append((mod, t + ".get", get, c))

    def one(q, j):
        if j[0] == "tries":
            s = q.spec("purity")
            for n, m in ((1, 1), (2, 3), (7, 4)):
                q.equiv("%s enumerated twice at once (%d, %d)" % (j[2], n, m), s("at_once"), s("apart"),
                        lambda vm, st: ((q.anchor(j[1], j[2]), n, m, var("c", 0, MAXC)), {}), apart=True, where="%s:%s.enumerator" % (path_of(j[1]), j[2]))
        elif j[0] == "set":
            u = uset.specs(q)
            build = u("build")
            s = q.spec("purity_sets", {"build": build})
            for n, m in ((1, 1), (1, 2), (2, 1), (2, 3), (5, 5)):
                q.equiv("a given UnicodeSet iterated twice at once (%d, %d)" % (n, m), s("set_at_once"), s("set_apart"),
                        lambda vm, st: ((st.alloc(ListO([5, 6, 9, 11, 20, 21, 30, 40])), n, m, var("c", 0, MAXC)), {}),
                        ref_args=lambda vm, st, a: (st.alloc(ListO([5, 6, 9, 11, 20, 21, 30, 40])), n, m, var("c", 0, MAXC)), apart=True,
                        where="UnicodeData/UnicodeSet.py:UnicodeSet.__iter__")
            for k in (2, 8):
                vs, f = uset.boundaries("a", k, Facts())
                if k == 2:
                    f = f.assume(sub(add(vs[0], 4), vs[1]), "<")
                for n, m in ((1, 1), (1, 2), (2, 1)):
                    q.equiv("a UnicodeSet of %d boundaries iterated twice at once (%d, %d)" % (k, n, m), s("set_at_once"), s("set_apart"),
                            lambda vm, st: ((st.alloc(ListO(list(vs))), n, m, var("c", 0, MAXC)), {}),
                            ref_args=lambda vm, st, a: (st.alloc(ListO(list(vs))), n, m, var("c", 0, MAXC)), facts=f, apart=True,
                            where="UnicodeData/UnicodeSet.py:UnicodeSet.__iter__")
        else:
            lookup(q, j[0], j[1], lambda: j[2](q), j[3])
    ctx.fan(jobs + [("tries",) + t for t in TRIES] + [("set",)], one, limit=120)
    return {"explanation": "Every lookup is interpreted for symbolic arguments while writes to anything that outlives the call are recorded; a lookup with such a "
                           "write (or with an answer that is shared) is interpreted again after itself with other unknown arguments and must answer as if first. "
                           "Enumerations and iterations are interleaved and must not disturb each other."}

