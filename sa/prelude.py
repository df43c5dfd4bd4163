def _any(it):
    for x in it:
        if x:
            return True
    return False


def _all(it):
    for x in it:
        if not x:
            return False
    return True


def _sum(it, start=0):
    for x in it:
        start = start + x
    return start


def _contains(it, v):
    for x in it:
        if x is v or x == v:
            return True
    return False


def _tolist(it):
    out = []
    for x in it:
        out.append(x)
    return out


def _extend(lst, it):
    for x in it:
        lst.append(x)


def _singles(run):
    for x in run:
        yield (x,)


def _sized_iter(o):
    i = 0
    while i < len(o):
        yield o[i]
        i += 1


def _getitem_iter(o):
    i = 0
    while True:
        try:
            v = o[i]
        except IndexError:
            return
        yield v
        i += 1


def _iter2(f, sentinel):
    while True:
        v = f()
        if v == sentinel:
            return
        yield v


_missing = ("missing",)


def _min(it, *, key=None, default=_missing):
    best = _missing
    bk = None
    for x in it:
        k = x if key is None else key(x)
        if best is _missing or k < bk:
            best, bk = x, k
    if best is _missing:
        if default is _missing:
            raise ValueError("min() arg is an empty sequence")
        return default
    return best


def _max(it, *, key=None, default=_missing):
    best = _missing
    bk = None
    for x in it:
        k = x if key is None else key(x)
        if best is _missing or k > bk:
            best, bk = x, k
    if best is _missing:
        if default is _missing:
            raise ValueError("max() arg is an empty sequence")
        return default
    return best


def _sorted(it, *, key=None, reverse=False):
    out = []
    keys = []
    for x in it:
        k = x if key is None else key(x)
        i = len(out)
        while i > 0 and (keys[i - 1] < k if reverse else k < keys[i - 1]):
            i -= 1
        out.insert(i, x)
        keys.insert(i, k)
    return out


def _reversed(o):
    i = len(o) - 1
    while i >= 0:
        yield o[i]
        i -= 1


def _zip(*its, strict=False):
    iters = [iter(i) for i in its]
    if not iters:
        return
    while True:
        vals = []
        for i in iters:
            try:
                vals.append(next(i))
            except StopIteration:
                return
        yield tuple(vals)


def _enumerate(it, start=0):
    for x in it:
        yield start, x
        start += 1


def _map(f, *its):
    if len(its) == 1:
        for x in its[0]:
            yield f(x)
    else:
        for xs in _zip(*its):
            yield f(*xs)


def _filter(f, it):
    for x in it:
        if (x if f is None else f(x)):
            yield x


# itertools

def _chain(*its):
    for it in its:
        for x in it:
            yield x


def _chain_from(its):
    for it in its:
        for x in it:
            yield x


def _count(start=0, step=1):
    while True:
        yield start
        start = start + step


def _islice(it, *args):
    s = slice(*args)
    start = s.start or 0
    stop = s.stop
    step = s.step or 1
    i = 0
    want = start
    if stop is not None and stop <= start:
        return
    for x in it:
        if i == want:
            yield x
            want += step
        i += 1
        if stop is not None and i >= stop:
            return


def _takewhile(f, it):
    for x in it:
        if not f(x):
            return
        yield x


def _dropwhile(f, it):
    dropping = True
    for x in it:
        if dropping and f(x):
            continue
        dropping = False
        yield x


def _repeat(v, n=None):
    if n is None:
        while True:
            yield v
    for _ in range(n):
        yield v


def _cycle(it):
    vals = list(it)
    while vals:
        for v in vals:
            yield v


def _pairwise(it):
    first = True
    prev = None
    for x in it:
        if not first:
            yield prev, x
        prev = x
        first = False


def _accumulate(it, func=None, *, initial=None):
    total = initial
    started = initial is not None
    if started:
        yield total
    for x in it:
        if not started:
            total = x
            started = True
        else:
            total = total + x if func is None else func(total, x)
        yield total


def _zip_longest(*its, fillvalue=None):
    iters = [iter(i) for i in its]
    alive = [True] * len(iters)
    while True:
        vals = []
        for k in range(len(iters)):
            if alive[k]:
                try:
                    vals.append(next(iters[k]))
                    continue
                except StopIteration:
                    alive[k] = False
            vals.append(fillvalue)
        if True not in alive:
            return
        yield tuple(vals)


def _starmap(f, it):
    for x in it:
        yield f(*x)


def _product(*its):
    pools = [list(i) for i in its]
    res = [()]
    for p in pools:
        res = [r + (x,) for r in res for x in p]
    for r in res:
        yield r


def _compress(data, sel):
    for d, s in _zip(data, sel):
        if s:
            yield d


def _filterfalse(f, it):
    for x in it:
        if not (x if f is None else f(x)):
            yield x


def _groupby(it, key=None):
    out = []
    for x in it:
        k = x if key is None else key(x)
        if out and out[-1][0] == k:
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    for k, g in out:
        yield k, iter(g)


def _reduce(f, it, *init):
    started = len(init) > 0
    acc = init[0] if started else None
    for x in it:
        if started:
            acc = f(acc, x)
        else:
            acc = x
            started = True
    if not started:
        raise TypeError("reduce() of empty iterable")
    return acc


# bisect (the documented algorithm)

def _bisect_left(a, x, lo=0, hi=None, *, key=None):
    if lo < 0:
        raise ValueError("lo must be non-negative")
    if hi is None:
        hi = len(a)
    while lo < hi:
        mid = (lo + hi) // 2
        v = a[mid] if key is None else key(a[mid])
        if v < x:
            lo = mid + 1
        else:
            hi = mid
    return lo


def _bisect_right(a, x, lo=0, hi=None, *, key=None):
    if lo < 0:
        raise ValueError("lo must be non-negative")
    if hi is None:
        hi = len(a)
    while lo < hi:
        mid = (lo + hi) // 2
        v = a[mid] if key is None else key(a[mid])
        if x < v:
            hi = mid
        else:
            lo = mid + 1
    return lo


def _insort(a, x, lo=0, hi=None, *, key=None):
    a.insert(_bisect_right(a, x if key is None else key(x), lo, hi, key=key), x)


def _identity_deco(*a, **k):
    if len(a) == 1 and not k and callable(a[0]):
        return a[0]

    def deco(f):
        return f
    return deco


def _wraps(*a, **k):
    def deco(f):
        return f
    return deco


def _cmp_to_key(f):
    class K:
        def __init__(self, v):
            self.v = v

        def __lt__(self, o):
            return f(self.v, o.v) < 0
    return K


class _nullcontext:
    def __init__(self, v=None):
        self.v = v

    def __enter__(self):
        return self.v

    def __exit__(self, *a):
        return False


# ---- bytes whose contents are unknown
def _at(b, i, sub):
    for j in range(len(sub)):
        if b[i + j] != sub[j]:
            return False
    return True


def _bytes_find(b, sub, start=0, end=None):
    n = len(b) if end is None else end
    if isinstance(sub, int):
        sub = (sub,)
    i = start
    while i + len(sub) <= n:
        if _at(b, i, sub):
            return i
        i += 1
    return -1


def _bytes_rfind(b, sub, start=0, end=None):
    n = len(b) if end is None else end
    if isinstance(sub, int):
        sub = (sub,)
    i = n - len(sub)
    while i >= start:
        if _at(b, i, sub):
            return i
        i -= 1
    return -1


def _bytes_index(b, sub, start=0, end=None):
    i = _bytes_find(b, sub, start, end)
    if i < 0:
        raise ValueError("subsection not found")
    return i


def _bytes_contains(b, sub):
    return _bytes_find(b, sub) >= 0


def _bytes_count(b, sub):
    n, i = 0, 0
    if isinstance(sub, int):
        sub = (sub,)
    while i + len(sub) <= len(b):
        if _at(b, i, sub):
            n += 1
            i += len(sub)
        else:
            i += 1
    return n


def _bytes_split(b, sep, maxsplit=-1):
    out, start, i = [], 0, 0
    while i + len(sep) <= len(b) and maxsplit != 0:
        if _at(b, i, sep):
            out.append(b[start:i])
            i += len(sep)
            start = i
            maxsplit -= 1
        else:
            i += 1
    out.append(b[start:])
    return out


def _bytes_partition(b, sep):
    i = _bytes_find(b, sep)
    if i < 0:
        return (b, b"", b"")
    return (b[:i], sep, b[i + len(sep):])


def _bytes_startswith(b, sub):
    return len(sub) <= len(b) and _at(b, 0, sub)


def _bytes_endswith(b, sub):
    return len(sub) <= len(b) and _at(b, len(b) - len(sub), sub)


def _bytes_rstrip(b, what):
    n = len(b)
    while n and b[n - 1] in what:
        n -= 1
    return b[:n]


def _bytes_decode(b, encoding="utf-8", errors="strict"):
    limit = 256 if encoding.lower().replace("_", "-") in ("latin-1", "latin1", "iso-8859-1", "iso8859-1") else 128
    s = ""
    for x in b:
        if x >= limit:
            if encoding.lower() in ("ascii", "us-ascii"):
                raise UnicodeDecodeError("ascii", b, 0, 1, "ordinal not in range(128)")
            return _unfollowed(b, encoding)
        s += chr(x)
    return s


def _text_split(s, sep=None, maxsplit=-1):
    if sep is None:
        if maxsplit >= 0:
            return _unfollowed(s, "split at whitespace")
        out, start = [], -1
        for i in range(len(s)):
            if _blank(s[i]):
                if start >= 0:
                    out.append(s[start:i])
                start = -1
            elif start < 0:
                start = i
        if start >= 0:
            out.append(s[start:])
        return out
    return _bytes_split(s, sep, maxsplit)


def _blank(ch):
    c = ord(ch)
    if c < 128:
        return c == 32 or 9 <= c <= 13 or 28 <= c <= 31
    return c == 0x85 or c == 0xA0 or c == 0x1680 or 0x2000 <= c <= 0x200A or c == 0x2028 or c == 0x2029 or c == 0x202F or c == 0x205F or c == 0x3000


def _text_rsplit(s, sep=None, maxsplit=-1):
    if sep is None or maxsplit >= 0:
        return _unfollowed(s, "rsplit")
    return _bytes_split(s, sep)


def _text_partition(s, sep):
    i = _bytes_find(s, sep)
    if i < 0:
        return (s, "", "")
    return (s[:i], sep, s[i + len(sep):])


def _text_rpartition(s, sep):
    i = _bytes_rfind(s, sep)
    if i < 0:
        return ("", "", s)
    return (s[:i], sep, s[i + len(sep):])


def _text_replace(s, old, new, count=-1):
    if not old:
        return _unfollowed(s, "replacement of nothing")
    out, start, i = "", 0, 0
    while i + len(old) <= len(s) and count != 0:
        if _at(s, i, old):
            out += s[start:i] + new
            i += len(old)
            start = i
            count -= 1
        else:
            i += 1
    return out + s[start:]


def _text_find(s, sub, start=0, end=None):
    return _bytes_find(s, sub, start, end)


def _text_rfind(s, sub, start=0, end=None):
    return _bytes_rfind(s, sub, start, end)


def _text_index(s, sub, start=0, end=None):
    return _bytes_index(s, sub, start, end)


def _text_count(s, sub):
    return _bytes_count(s, sub)


def _text_contains(s, sub):
    return _bytes_find(s, sub) >= 0


def _space(s, what):
    if what is None:
        for ch in s:
            if ord(ch) > 126:
                return _unfollowed(s, "strip")
        return " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f"
    return what


def _text_strip(s, what=None):
    return _text_lstrip(_text_rstrip(s, what), what)


def _text_rstrip(s, what=None):
    what = _space(s, what)
    n = len(s)
    while n and s[n - 1] in what:
        n -= 1
    return s[:n]


def _text_lstrip(s, what=None):
    what = _space(s, what)
    i = 0
    while i < len(s) and s[i] in what:
        i += 1
    return s[i:]


def _text_int(s, base=10):
    n, i, sign = 0, 0, 1
    if base < 2 or base > 36:
        return _unfollowed(s, "int")
    for ch in s:
        k = ord(ch)
        if k > 126 or k == 95 or k == 32 or k < 14 or 27 < k < 32:
            return _unfollowed(s, "int")
    if len(s) and (s[0] == "-" or s[0] == "+"):
        sign = -1 if s[0] == "-" else 1
        i = 1
    if base in (2, 8, 16) and len(s) > i + 1 and s[i] == "0" and s[i + 1] in {2: "bB", 8: "oO", 16: "xX"}[base]:
        return _unfollowed(s, "int with a prefix")
    if i == len(s):
        raise ValueError("invalid literal for int()")
    while i < len(s):
        k = ord(s[i])
        if 48 <= k < 58:
            d = k - 48
        elif 65 <= k < 91:
            d = k - 55
        elif 97 <= k < 123:
            d = k - 87
        else:
            d = 99
        if d >= base:
            raise ValueError("invalid literal for int()")
        n = n * base + d
        i += 1
    return sign * n
