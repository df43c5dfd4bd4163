# A lookup after another lookup, and after its answer was changed by the caller.


def poke(v):
    if isinstance(v, list):
        v.append("changed")
        if len(v) > 1:
            v[0] = "changed"
    elif isinstance(v, dict):
        v["changed"] = "changed"
    elif isinstance(v, set):
        v.add("changed")


def attempt(f, args):
    try:
        return f(*args)
    except Exception:
        return None


def again(f, first, second):
    poke(attempt(f, first))
    return f(*second)


def fresh(f, first, second):
    return f(*second)


def taken(it, n):
    out = []
    while n > 0:
        r, v = next(it)
        out.append((r.start, r.stop, v))
        n -= 1
    return out


def at_once(t, n, m, c):
    a = iter(t.enumerator())
    x = taken(a, n)
    b = iter(t.enumerator())
    y = taken(b, m)
    t.get(c)
    z = taken(a, n)
    y += taken(b, m)
    return (x + z, y)


def apart(t, n, m, c):
    return (taken(iter(t.enumerator()), 2 * n), taken(iter(t.enumerator()), 2 * m))
