# Maximal ranges of one value, from stretches (start, end, value) in ascending order.


def merged(start, limit, stretches):
    out = []
    for a, b, v in stretches:
        a = max(a, start)
        b = min(b, limit)
        if a < b:
            if out and out[-1][3] == v:
                out[-1] = (out[-1][0], b, 1, v)
            else:
                out.append((a, b, 1, v))
    return out


def merged_bit(start, limit, bit, stretches):
    return merged(start, limit, [(a, b, (v // 2 ** bit) % 2) for a, b, v in stretches])
