"""Hash-consed symbolic terms."""

FRESH = {"call", "out", "idx", "guard", "phi"}


class T:
    __slots__ = ("op", "a", "atoms", "hasref", "id", "__weakref__")

    def __repr__(self):
        return show(self)


_tab = {}
_EMPTY = frozenset()


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    t.id = len(_tab)
    at = _EMPTY
    hr = op == "ref"
    for x in a:
        if type(x) is T:
            if x.atoms:
                at = at | x.atoms if at else x.atoms
            hr = hr or x.hasref
        elif type(x) is tuple:
            for y in x:
                if type(y) is T:
                    if y.atoms:
                        at = at | y.atoms if at else y.atoms
                    hr = hr or y.hasref
                elif type(y) is tuple:
                    for z in y:
                        if type(z) is T:
                            at = at | z.atoms
                            hr = hr or z.hasref
    if op in FRESH or op == "sym" and not a[0].startswith("the "):
        at = at | frozenset([t])
    elif op == "old":
        at = _EMPTY
    elif op == "seqof":
        at = at - frozenset([a[0]])
    t.atoms = at
    t.hasref = hr
    _tab[k] = t
    return t


def C(v):
    return mk("c", v)


TRUE = C(("b", True))
FALSE = C(("b", False))
UNIT = mk("tup", ())
UNINIT = mk("uninit")


def isconst(t):
    return t.op == "c"


def cval(t):
    """The python value of a constant term (None if it is not one)."""
    if t.op == "c" and t.a[0][0] in ("b", "i", "s", "y", "ch"):
        return t.a[0][1]
    return None


def subst(x, old, new, memo=None):
    """Replace the atom `old` by `new` in a term / tuple / frozenset."""
    if memo is None:
        memo = {}
    if type(x) is T:
        if old not in x.atoms:
            return x
        if x is old:
            return new
        r = memo.get(x)
        if r is None:
            if x.op == "seqof" and x.a[0] is old:
                return x
            r = mk(x.op, *[subst(y, old, new, memo) for y in x.a])
            memo[x] = r
        return r
    if type(x) is tuple:
        return tuple(subst(y, old, new, memo) for y in x)
    if type(x) is frozenset:
        return frozenset(subst(y, old, new, memo) for y in x)
    return x


def mentions(x, atom):
    if type(x) is T:
        return atom in x.atoms
    if type(x) in (tuple, frozenset):
        return any(mentions(y, atom) for y in x)
    return False


def subterms(t, seen=None):
    """All subterms of t (t included), each once."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if type(x) is T:
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x.a)
        elif type(x) in (tuple, frozenset):
            st.extend(x)


def short(n):
    """A short readable version of a path."""
    n = n.replace("pizauth::", "").replace("server::", "").replace("std::", "")
    return n


def show(t, d=6):
    if type(t) is not T:
        if type(t) is tuple:
            return "(" + ", ".join(show(x, d) for x in t) + ")"
        return str(t)
    if d == 0:
        return "…"
    o, a = t.op, t.a
    if o == "c":
        v = a[0]
        if v[0] == "s":
            return '"%s"' % v[1]
        return str(v[1]) if len(v) > 1 else str(v[0])
    if o == "fld":
        return "%s.%s" % (show(a[0], d - 1), a[1].split("::")[-1])
    if o == "agg":
        return "%s#%s{%s}" % (short(a[0]), a[1], ", ".join(show(x, d - 1) for x in a[2]))
    if o in ("tup", "arr"):
        return "(" + ", ".join(show(x, d - 1) for x in a[0]) + ")"
    if o == "call":
        return "%s(%s)" % (short(a[0]), ", ".join(show(x, d - 1) for x in a[2]))
    if o == "op":
        return "%s(%s)" % (short(a[0]), ", ".join(show(x, d - 1) for x in a[1:]))
    if o in ("guard", "xguard"):
        return "%s[%s:%s]" % (o, a[0].split(".")[-1], a[1].split(".")[-1])
    if o == "phi":
        return "phi%d" % t.id
    if o == "out":
        return "out:%s(%s)" % ("::".join(short(a[0]).split("::")[-2:]), ", ".join(show(x, d - 1) for x in a[3:]))
    if o == "sym":
        return "$" + str(a[0])
    if o == "idx":
        return "idx(%s)" % show(a[1], d - 1)
    if o == "ix":
        return "%s[%s]" % (show(a[0], d - 1), show(a[1], d - 1))
    if o == "clo":
        return "closure<%s>" % short(a[0])
    if o == "fn":
        return "fn<%s>" % short(a[0])
    return "%s(%s)" % (o, ", ".join(show(x, d - 1) for x in a))
