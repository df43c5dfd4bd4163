# Character records of the UCD XML files (UAX #42): an attribute missing from a char element is taken from its group.


class Element:
    """As xml.etree.ElementTree.Element, as far as attributes go."""

    def __init__(self, tag, attrib):
        self.tag = tag
        self.attrib = attrib

    def get(self, key, default=None):
        return self.attrib.get(key, default)

    def keys(self):
        return self.attrib.keys()

    def items(self):
        return self.attrib.items()


def text(char, group, tag):
    if tag in char.attrib:
        return char.attrib[tag]
    if tag in group.attrib:
        return group.attrib[tag]
    return ""


def flag(char, group, tag):
    return text(char, group, tag) == "Y"


def hexadecimal(s):
    n = 0
    for ch in s:
        k = ord(ch)
        n = 16 * n + (k - 48 if k < 58 else k - 55)
    return n


def own(char, group):
    return hexadecimal(text(char, group, "cp"))


def words(s):
    out = []
    w = ""
    for ch in s:
        if ch == " ":
            out.append(w)
            w = ""
        else:
            w += ch
    out.append(w)
    return out


def sequence(char, group, tag):
    s = ""
    for w in words(text(char, group, tag)):
        s += chr(hexadecimal(w))
    return s


def mapped(char, group, tag):
    """A case mapping: nothing or # is the character itself."""
    t = text(char, group, tag)
    if t == "" or t == "#":
        return chr(own(char, group))
    return sequence(char, group, tag)


def decomposed(char, group, tag):
    """A decomposition: nothing or # is none."""
    t = text(char, group, tag)
    if t == "" or t == "#":
        return None
    return sequence(char, group, tag)


def folded(char, group, tag):
    t = text(char, group, tag)
    if t == "":
        return None
    if t == "#":
        return chr(own(char, group))
    return sequence(char, group, tag)


def mirror(char, group, tag):
    t = text(char, group, tag)
    return own(char, group) if t == "" else hexadecimal(t)


def bracket(char, group, tag):
    t = text(char, group, tag)
    return own(char, group) if t == "#" else hexadecimal(t)


def spaced(char, group, tag):
    s = ""
    for ch in text(char, group, tag):
        s += " " if ch == "_" else ch
    return s


def several(char, group, tag):
    return words(text(char, group, tag))


def name(char, group, tag):
    s = ""
    for ch in text(char, group, tag):
        s += text(char, group, "cp") if ch == "#" else ch
    return s


def integer(char, group, tag):
    n = 0
    for ch in text(char, group, tag):
        n = 10 * n + ord(ch) - 48
    return n


def number(char, group, tag):
    t = text(char, group, tag)
    if t == "NaN":
        return None
    sign, num, den, top = 1, 0, 0, True
    for ch in t:
        if ch == "-":
            sign = -1
        elif ch == "/":
            top = False
        elif top:
            num = 10 * num + ord(ch) - 48
        else:
            den = 10 * den + ord(ch) - 48
    return sign * num if top else sign * num / den


def code_point(char, group, tag):
    return own(char, group)


def observe(make, char, group, path):
    """A field of the record that make builds."""
    v = make(Element("char", char), Element("group", group))
    for n in path:
        v = getattr(v, n)
    return v


def expect(rule, char, group, tag):
    return rule(Element("char", char), Element("group", group), tag)


def observe_second(make, before, char, group, path):
    """The same after other records, the last of them kept."""
    for c, g in before:
        other = observe(make, c, g, path)
    v = make(Element("char", char), Element("group", group))
    make(Element("char", before[0][0]), Element("group", before[0][1]))
    for n in path:
        v = getattr(v, n)
    return v
