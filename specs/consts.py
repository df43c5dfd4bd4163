# ICU uchar.h


def U_MASK(x):
    return 2 ** x
