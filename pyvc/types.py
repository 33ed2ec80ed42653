"""Static types of the verified subset and the class schema."""
import re


def parse(s):
    """'list[ref]' style text -> type tuple.  Class names are references."""
    if isinstance(s, tuple):
        return s
    toks = re.findall(r"[A-Za-z_][A-Za-z_0-9]*!?|[\[\],]", s)
    pos = [0]

    def ty():
        t = toks[pos[0]]
        pos[0] += 1
        args = []
        if pos[0] < len(toks) and toks[pos[0]] == "[":
            pos[0] += 1
            while True:
                args.append(ty())
                x = toks[pos[0]]
                pos[0] += 1
                if x == "]":
                    break
        if t in ("int", "real", "bool", "atom", "none", "any", "func", "void", "iset", "irel"):
            return (t,)
        if t in ("list", "set"):
            return (t, args[0])
        if t in ("dict", "ddict"):
            return (t, args[0], args[1])
        if t == "tuple":
            return ("tuple",) + tuple(args)
        if t == "alt":
            return ("alt",) + tuple(args)
        if t == "opt":
            return ("opt", args[0])
        if t in ENUMS:
            return ("enum", t)
        if t.endswith("!"):
            return ("ref", t[:-1], True)
        return ("ref", t, False)

    r = ty()
    assert pos[0] == len(toks), s
    return r


ENUMS = {}      # name -> list of member names
SCHEMA = {}     # class -> {field: type}
BASES = {}      # class -> base class or None
RECORDS = set()  # classes standing for dictionaries with fixed string keys
AT = {}         # class -> 'module:Class' in the source (default: searched by name)


def declare(cls, base=None, at=None, **fields):
    SCHEMA[cls] = fields
    BASES[cls] = base
    if at:
        AT[cls] = at


def record(cls, **fields):
    """A dictionary with fixed string keys: field k and presence flag has:k."""
    d = {}
    for k, v in fields.items():
        k = k.replace("__", ".")
        d[k] = v
        d["has:" + k] = "bool"
    SCHEMA[cls] = d
    BASES[cls] = None
    RECORDS.add(cls)


def finish():
    for c in SCHEMA:
        SCHEMA[c] = {k: parse(v) for k, v in SCHEMA[c].items()}


def root(c):
    while BASES.get(c):
        c = BASES[c]
    return c


def subclasses(c):
    return [x for x in BASES if is_sub(x, c)]


def is_sub(a, b):
    while a is not None:
        if a == b:
            return True
        a = BASES.get(a)
    return False


def field_owner(c, f):
    while c is not None:
        if f in SCHEMA.get(c, {}):
            return c
        c = BASES.get(c)
    return None


def field_type(c, f):
    o = field_owner(c, f)
    return SCHEMA[o][f] if o else None


def key(t):
    k = t[0]
    if k == "ref":
        return root(t[1])
    if k in ("int", "atom", "any", "?", "none"):
        return "int"
    if k == "enum":
        return "int"
    if k == "opt":
        return key(t[1])
    if k == "ddict":
        k = "dict"
    if k in ("list", "set"):
        return "%s[%s]" % (k, key(t[1]))
    if k == "dict":
        return "dict[%s,%s]" % (key(t[1]), key(t[2]))
    if k == "tuple":
        return "tuple[%s]" % ",".join(key(x) for x in t[1:])
    return k


def is_heap(t):
    return t[0] in ("ref", "list", "dict", "ddict", "set", "alt") or (t[0] == "opt" and is_heap(t[1]))


def flatten(t, path=""):
    """leaves of a (possibly tuple) type."""
    if t[0] == "tuple":
        out = []
        for i, x in enumerate(t[1:]):
            out += flatten(x, path + ".%d" % i)
        return out
    return [(path, t)]


def compatible(src, dst):
    if src == dst or dst[0] in ("any", "?") or src[0] in ("any", "?"):
        return True
    if src[0] == "none":
        return dst[0] == "opt" or dst[0] in ("ref",) and False
    if dst[0] == "opt":
        return compatible(src[1] if src[0] == "opt" else src, dst[1])
    if src[0] == "opt":
        return compatible(src[1], dst)
    if src[0] == "ref" and dst[0] == "ref":
        return is_sub(src[1], dst[1]) or is_sub(dst[1], src[1])
    num = ("int", "atom", "real", "bool", "enum")
    if src[0] in num and dst[0] in num:
        return not (src[0] == "real" and dst[0] in ("int", "atom"))
    if src[0] in ("dict", "ddict") and dst[0] in ("dict", "ddict"):
        return inner(src[1], dst[1]) and inner(src[2], dst[2])
    if src[0] == dst[0] and len(src) == len(dst):
        return all(inner(a, b) for a, b in zip(src[1:], dst[1:]))
    return False


def inner(src, dst):
    """Element types of containers: no downcasts."""
    if src[0] == "ref" and dst[0] == "ref":
        return is_sub(src[1], dst[1])
    return compatible(src, dst)
