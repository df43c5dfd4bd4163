"""C01, C02: the case mapping algorithms."""
from . import check
from .common import *
from sa.natives import SymArray

MOD = "UnicodeData.CaseProps"


def spec_of(ctx):
    t = trie_spec(ctx)
    inject = {k: v for k, v in module_attrs(ctx, "UnicodeData.CasePropsData").items() if k.startswith("ucase")}
    inject["lookup"] = t("lookup")
    return ctx.spec("case", inject)


def each(ctx, spec, names):
    c = code_point()
    for n in names:
        ctx.equiv(n, lambda n=n: ctx.anchor(MOD, n), spec(n), fixed(c), where="UnicodeData/CaseProps.py:%s" % n)


class Record(SymArray):
    """Exceptions of unknown contents whose record at e has the slot flags `low`
    (the low byte of its first word); everything else is unknown."""

    def getitem(self, vm, st, ref, ob, k):
        if isinstance(k, (int, Lin)) and not isinstance(k, bool):
            i = self.wrap(st, lin(k), ob.data["len"])
            d = sub(add(lin(ob.data["off"]), i), ob.data["e"])
            if not d.terms:
                if d.const == 0:
                    return unlin(add(lin(ob.data["low"]), scale(read(ob.data["high"], 0), 256)))
            elif st.facts.decide(d, "==") is not False:
                raise Unsupported("exception word at an unknown place at %s" % st.where())
        return SymArray.getitem(self, vm, st, ref, ob, k)


def any_exceptions(ctx, names):
    """The mappings over a trie and exceptions of unknown contents, for every combination of slots."""
    c = var("c", 0, 0xD7FF)
    trie = SymTable("caseTrie", 0, 0xFFFF)
    word = read(trie, add(scale(read(trie, div(c, 32)), 4), mod(c, 32)))
    holder = {}

    def exc(st):
        holder["o"] = NativeO(Record(), {"table": SymTable("exceptions", 0, 0xFFFF), "high": SymTable("flagsHigh", 0, 255), "len": lin(0x10000),
                                         "off": lin(0), "e": div(word, 16), "low": 0})
        return holder["o"]

    def tr(st):
        return NativeO(SymArray(), {"table": trie, "len": lin(0x10000), "off": lin(0)})

    special = (0x130, 0x587)

    def part(s, lows):
        spec = spec_of(s)
        for low in lows:
            holder["o"].data["low"] = low
            for x in (c,) + special:
                f = Facts()
                if x is c:
                    for k in special:
                        f = f.assume(sub(c, k), "!=") or f
                w = word if x is c else subst(word, c, x)
                holder["o"].data["e"] = div(w, 16)
                f = f.assume(sub(mod(div(w, 8), 2), 1), "==") or f          # the code point has an exception record
                for n in names:
                    s.equiv("%s%s over any exception record with slots %02X" % (n, "" if x is c else " of U+%04X" % x, low),
                            lambda n=n: s.anchor(MOD, n), spec(n), fixed(x), facts=f.copy(), where="UnicodeData/CaseProps.py:%s" % n)

    def subst(w, c, x):
        return read(trie, add(scale(read(trie, x // 32), 4), x % 32))

    def go():
        s = ctx.with_tables({(MOD + "Data", "ucase_props_exceptions"): exc, (MOD + "Data", "ucase_props_trieIndex"): tr}, [MOD])
        spec_of(s)
        lows = [k for k in range(256) if ctx.thorough or k & 0x22 == 0 or k in (0xFF, 0xA2, 0x22)]
        s.fan([lows[i:i + 2] for i in range(0, len(lows), 2)], part)
    ctx.guard("exception records of any content", go)


@check("C01")
def c01(ctx):
    names = ["toLower", "toUpper", "toTitle"]
    each(ctx, spec_of(ctx), names)
    any_exceptions(ctx, names)
    return {"explanation": "Simple case mappings for a symbolic code point over the repository's tables (deltas, exception slots) and, for each combination "
                           "of slots, over tables of unknown contents (so single and double width slots in every position)."}


@check("C02")
def c02(ctx):
    names = ["toFullLower", "toFullUpper", "toFullTitle"]
    each(ctx, spec_of(ctx), names)
    any_exceptions(ctx, names)
    return {"explanation": "Full case mappings for a symbolic code point over the repository's tables and, for each combination of slots, over tables "
                           "of unknown contents: special casing, full mapping strings of every length, fallback to simple mappings."}
