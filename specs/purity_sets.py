# Iterators over one set, at the same time and one after the other.


def set_at_once(bounds, n, m, c):
    s = build(bounds)
    a = iter(s)
    x = [next(a) for _ in range(n)]
    b = iter(s)
    y = [next(b) for _ in range(m)]
    c in s
    s.size()
    x += [next(a) for _ in range(n)]
    y += [next(b) for _ in range(m)]
    return (x, y)


def set_apart(bounds, n, m, c):
    s = build(bounds)
    a, b = iter(s), iter(s)
    return ([next(a) for _ in range(2 * n)], [next(b) for _ in range(2 * m)])
