"""N01, N02: decomposition mappings."""
from . import check
from .common import *
from sa.natives import SymArray, SymTrie

MOD = "UnicodeData.Normalizer2"


def spec_of(ctx):
    ref = ctx.spec("cptrie")("reference")
    inject = {k: v for k, v in module_attrs(ctx, "UnicodeData.Norm2NFCData").items() if k.startswith("norm2")}
    inject["reference"] = ref
    inject["Normalizer2"] = ctx.anchor(MOD, "Normalizer2")
    return ctx.spec("norm", inject)


def method(ctx, obj, name):
    p = ctx.project
    st = p.state()
    v = p.vm.getattr(st, obj, name)
    return v


def assume(f, x, rel):
    return f.assume(lin(x), rel) or f


def any_data(longest):
    """Facts and arguments of a normalizer over data of unknown contents."""
    norm, extra = SymTable("norm16", 0, 0xFFFF), SymTable("extraData", 0, 0xFFFF)
    ix = [var("indexes%d" % i, 0, 0xFFFF) for i in range(20)]
    c = code_point()
    f = Facts()
    f = assume(f, sub(ix[10], 4), ">=")
    for a, b in ((10, 14), (14, 11), (11, 15), (15, 16), (16, 17), (17, 12), (12, 13)):
        f = assume(f, sub(ix[b], ix[a]), ">=")
    f = assume(f, sub(0xFC00, ix[13]), ">=")
    f = assume(f, mod(lin(ix[13]), 8), "==")
    off = div(sub(0xFC00, ix[13]), 2)
    n0 = read(norm, lin(c))
    c1 = add(sub(add(c, div(n0, 8)), div(lin(ix[13]), 8)), 65)
    n1 = read(norm, c1)
    for n in (n0, n1):
        i = add(off, div(n, 2))
        first = read(extra, i)
        f = assume(f, sub(mod(first, 32), longest + 1), "<")
        b = mod(div(first, 128), 2)
        for j in (sub(sub(i, b), 1), sub(i, 1), sub(i, 2)):
            w = read(extra, j)
            for k in range(longest + 1, 32):
                f = assume(f, sub(w, k), "!=")
    return norm, extra, ix, c, f


def generic(ctx, spec, longest):
    norm, extra, ix, c, f = any_data(longest)

    def args(vm, st):
        t = st.alloc(NativeO(SymTrie(), {"table": norm}))
        e = st.alloc(NativeO(SymArray(), {"table": extra, "len": lin(var("extraLength", 0x400, 0xFFFFF)), "off": lin(0)}))
        return ((t, st.alloc(ListO(list(ix))), e, c), {})
    for n, a, b in (("getDecomposition", "target_decomposition", "given_decomposition"),
                    ("getRawDecomposition", "target_raw_decomposition", "given_raw_decomposition")):
        ctx.equiv("%s over any data (mappings of at most %d units)" % (n, longest), spec(a), spec(b), args, facts=f,
                  where="UnicodeData/Normalizer2.py:Normalizer2.%s" % n)


def long_mappings(ctx, spec):
    """Extra data with known mappings of every form; where the trie leads is known, the code point is not."""
    def units(n, k):
        out, j = [], 0
        while len(out) < n:
            j += 1
            if j % 4 == 2 and len(out) + 2 <= n:
                out += [0xD800 + (k * 37 + j) % 0x400, 0xDC00 + (k * 91 + j) % 0x400]
            else:
                out.append((0x40 + k * 131 + j * 17) % 0xD800)
        return out
    extra, at = [1] * 64, []
    pos = [0x1234] * 0x50
    for n in (0, 1, 2, 3, 5, 14, 15, 16, 17, 18, 30, 31):
        for ccc in (0, 1):
            for raw in (None, 0, 1, 2, 17, 31, "unit"):
                if raw == "unit" and n < 2 or raw is not None and n == 0:
                    continue
                k = len(at)
                if raw == "unit":
                    pos.append(0x100 + 7 * k)
                elif raw is not None:
                    pos += units(raw, k + 1) + [raw]
                if ccc:
                    pos.append(0x1E6 + k)
                at.append((len(pos), n, ccc, raw))
                pos.append(n | (0x80 if ccc else 0) | (0x40 if raw is not None else 0) | (0x20 if k % 3 == 0 else 0) | (k % 5 << 8))
                pos += units(n, k)
    ix = [0] * 20
    for i, v in ((8, 0xC0), (9, 0x300), (10, 4), (14, 0x10), (11, 0x20), (15, 0x30), (16, 0x40), (17, 0x50), (12, 0x7000), (13, 0xFB80), (18, 0x300)):
        ix[i] = v
    norm = SymTable("norm16", 0, 0xFFFF)

    def one(ctx, item):
        i, n, ccc, raw = item
        c = code_point()
        f = assume(Facts(), sub(read(norm, lin(c)), 2 * i), "==")

        def args(vm, st):
            t = st.alloc(NativeO(SymTrie(), {"table": norm}))
            return ((t, st.alloc(ListO(list(ix))), tuple(extra + pos), c), {})
        for m, a, b in (("getDecomposition", "target_decomposition", "given_decomposition"),
                        ("getRawDecomposition", "target_raw_decomposition", "given_raw_decomposition")):
            ctx.equiv("%s over a mapping of %d units%s, %s" % (m, n, " with a class word" if ccc else "", "no raw mapping" if raw is None else "raw mapping: %s" % raw),
                      spec(a), spec(b), args, facts=f, where="UnicodeData/Normalizer2.py:Normalizer2.%s" % m)
    ctx.fan(at, one)


@check("N01")
def n01(ctx):
    spec = spec_of(ctx)
    c = code_point()
    ctx.equiv("getDecomposition (NFC data)", lambda: method(ctx, ctx.anchor(MOD, "nfcTrie"), "getDecomposition"), spec("nfc_decomposition"), fixed(c),
              where="UnicodeData/Normalizer2.py:Normalizer2.getDecomposition")
    ctx.equiv("getRawDecomposition (NFC data)", lambda: method(ctx, ctx.anchor(MOD, "nfcTrie"), "getRawDecomposition"), spec("nfc_raw_decomposition"),
              fixed(c), where="UnicodeData/Normalizer2.py:Normalizer2.getRawDecomposition")
    generic(ctx, spec, 3 if ctx.thorough else 2)
    long_mappings(ctx, spec)
    return {"explanation": "Full and raw decompositions for a symbolic code point, over the NFC tables of the repository and over normalization "
                           "data of unknown contents (thresholds ordered as ICU orders them, mappings of bounded length)."}


@check("N02")
def n02(ctx):
    spec = spec_of(ctx)
    s = var("c", 0xAC00, 0xD7A3)
    for n, r in (("hangulDecomposition", "hangul"), ("rawHangulDecomposition", "raw_hangul")):
        ctx.equiv(n, lambda n=n: method(ctx, ctx.anchor(MOD, "nfcTrie"), n), spec(r), fixed(s), where="UnicodeData/Normalizer2.py:Normalizer2." + n)
    for n, r in (("getDecomposition", "hangul"), ("getRawDecomposition", "raw_hangul")):
        ctx.equiv("%s of a syllable" % n, lambda n=n: method(ctx, ctx.anchor(MOD, "nfcTrie"), n), spec(r), fixed(s),
                  where="UnicodeData/Normalizer2.py:Normalizer2." + n)
    return {"explanation": "The arithmetic Hangul decompositions for a symbolic syllable, called directly and through the public methods."}
