"""Checks that quantify over sizes only up to a bound: their level is 'other', not 'proof'."""
BOUNDED = set("T02 T04 N01 N04 U01 U02 U03 U04 U05 U06 D01 D02 M01 M02 M03 M04 X01 X02 X03 E01".split())


def level(pid):
    return "other" if pid in BOUNDED else "proof"
