"""S01: surrogate arithmetic, bit helpers, formatting."""
from . import check
from .common import *

MOD = "UnicodeData.Utilities"


@check("S01")
def s01(ctx):
    spec = ctx.spec("util")
    w = lambda n: "UnicodeData/Utilities.py:" + n
    c32 = var("c", 0, 0xFFFFFFFF)
    cp = code_point()
    for n in ("isSurrogate", "isLead", "isTrail"):
        ctx.equiv(n, lambda n=n: ctx.anchor(MOD, n), spec(n), fixed(c32), truthy=True, where=w(n))
    ctx.equiv("isUnicodeNoncharacter", lambda: ctx.anchor(MOD, "isUnicodeNoncharacter"), spec("isUnicodeNoncharacter"), fixed(var("c", 0, 0x7FFFFFFF)),
              truthy=True, where=w("isUnicodeNoncharacter"))
    s = var("s", 0xD800, 0xDFFF)
    for n in ("isSurrogateLead", "isSurrogateTrail"):
        ctx.equiv(n, lambda n=n: ctx.anchor(MOD, n), spec(n), fixed(s), truthy=True, where=w(n))
    ctx.equiv("charFromSurrogates", lambda: ctx.anchor(MOD, "charFromSurrogates"), spec("charFromSurrogates"),
              fixed(var("lead", 0xD800, 0xDBFF), var("trail", 0xDC00, 0xDFFF)), where=w("charFromSurrogates"))
    ctx.equiv("surrogatesFromChar", lambda: ctx.anchor(MOD, "surrogatesFromChar"), spec("surrogatesFromChar"), fixed(var("c", 0x10000, MAXC)),
              where=w("surrogatesFromChar"))
    words = (8, 16, 32, 64) if not ctx.thorough else range(1, 65)
    for word in words:
        for f in range(1, word + 1):
            ctx.equiv("arithmeticShift %d of %d bits" % (f, word), lambda: ctx.anchor(MOD, "arithmeticShift"), spec("signed_top"),
                      fixed(var("value", 0, (1 << word) - 1), word, f), where=w("arithmeticShift"))
    ctx.equiv("highBit", lambda: ctx.anchor(MOD, "highBit"), spec("highBit"), fixed(var("value", 0, (1 << 64) - 1)), where=w("highBit"))
    for k in range(0, 5):
        def args(vm, st):
            return ((st.alloc(ListO([var("c%d" % i, 0, MAXC) for i in range(k)])),), {})
        ctx.equiv("listOfCodes of %d" % k, lambda: ctx.anchor(MOD, "listOfCodes"), spec("code_list"), args, where=w("listOfCodes"))
    return {"explanation": "Each helper is interpreted for symbolic arguments over its whole domain and compared with arithmetic definitions "
                           "(surrogate predicates also on values above U+10FFFF; signed fields for every word and field width listed)."}
