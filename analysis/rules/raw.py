"""The raw state behind the global lock: what the guard's methods do (Contract), and C04, C01, C02, C25."""
from rules.common import *
from rules.events import raw_store, raw_entry, raw_active, is_details
from rules.notify import is_name

ID = "AccountId"
ARG = [mk("sym", "arg%d" % i) for i in range(5)]


def is_id(t):
    return t.op == "agg" and t.a[0].split("::")[-1] == ID


def guarded(t, seen=()):
    """The guard of the global lock from whose contents t was read (None if it was not)."""
    t = E.strip(t)
    n = 0
    while n < 30:
        n += 1
        if t.op == "mval":
            return t.a[0] if lock_is_global(t.a[0]) else None
        if t.op in ("fld", "ix", "upd"):
            t = E.strip(t.a[0])
        elif t.op in ("at",):
            t = E.strip(t.a[0])
        elif t.op == "old":
            t = E.strip(t.a[-1])
        elif t.op == "phi" and t not in seen:
            for x in E.CUR[0].phi_in.get(t, ()):
                g = guarded(x, seen + (t,)) if type(x) is T else None
                if g is not None:
                    return g
            return None
        else:
            return None
    return None


def equal_facts(st):
    """The pairs of terms that are known to be equal."""
    for k, v in st.facts.items():
        if v == ("=", True) and k.op == "op" and k.a[0] == "eq":
            yield E.strip(k.a[1]), E.strip(k.a[2])
            for a, b in truths(k, True):
                if a.op == "op" and a.a[0] == "eq" and a is not k:
                    yield E.strip(a.a[1]), E.strip(a.a[2])


def equals(st, t):
    """The terms known to equal t."""
    r = {E.strip(t)}
    ps = list(equal_facts(st))
    for _ in range(3):
        n = len(r)
        for a, b in ps:
            if a in r or b in r:
                r |= {a, b}
        if len(r) == n:
            break
    return r


def part(e, j, label=None):
    return mk("fld", e, label or str(j))


class Contract(Rule):
    """The methods of the guard do what the other rules take them to do."""
    prims = ()

    @staticmethod
    def keeps(k):
        return k.op == "op" and k.a[0] in ("eq", "exists") and mentions(k, ARG[2])

    def on(self, eng, st, ev):
        p = getattr(eng, "cur_prim", None)
        if p not in self.prims:
            return
        if ev.kind == "store":
            self.stored(eng, st, ev, p)
        elif ev.kind == "exhausted" and source(ev.args[0]) is not None and is_details(source(ev.args[0])[1]) and not partial(ev.args[0]):
            self.put(st, "went through", True)
        elif ev.kind == "back":
            self.again(eng, st, ev, p)
        elif ev.kind == "exit":
            self.saw("methods of the guard", p)
            getattr(self, "c_" + p)(eng, st, ev, E.strip(ev.ret))

    def wrong(self, eng, st, ev, p, msg):
        self.bad(eng, st, ev, "%s: %s" % (p, msg.split(":")[0]), "the guard's method %s %s" % (p, msg))

    def entry(self, eng, t, j):
        """The current entry of which t is part j."""
        t = E.strip(t)
        if t.op == "fld" and t.a[1] in (j, str(j)):
            e = E.strip(t.a[0])
            if raw_entry(e) is e:
                return e
        return None

    def has_id(self, st, e):
        x = part(e, 1)
        eqs = equals(st, ARG[2])
        if x in eqs:
            return True
        for a, b in equal_facts(st):
            if a.op == b.op == "fld" and set((E.strip(a.a[0]), E.strip(b.a[0]))) == {ARG[2], x} and a.a[1] == b.a[1] and "AccountId" in str(a.a[1]):
                return True
        return False

    def stored(self, eng, st, ev, p):
        l = self.get(st, "stores") or ()
        self.put(st, "stores", l + ((tuple(x[2].split("::")[-1] if x[0] == "f" and type(x[2]) is str else x[1] if x[0] == "ix" else x[0]
                                           for x in ev.args[1]), ev.args[0], E.strip(ev.args[2])),))
        if p in ("config", "validate_act_name", "is_act_id_valid", "act_ids", "act_id_matching_token_state", "account", "tokenstate"):
            self.wrong(eng, st, ev, p, "changes something")

    def changes(self, eng, st, ev, p):
        """The stores to the entry with the id that was passed: [(path below the entry, value)]; reports other stores."""
        out = []
        for path, base, val in self.get(st, "stores") or ():
            if path[:1] == ("LockedState.account_count",):
                continue
            ok = len(path) > 2 and path[0] == "LockedState.details" and guarded(base) is not None
            if ok:
                i = path[1]
                ok = any(x.op == "fld" and x.a[1] in (1, "1") and E.strip(x.a[0]).op == "ix" and E.strip(x.a[0]).a[1] is i and is_details(E.strip(x.a[0]).a[0])
                         for x in equals(st, ARG[2])) or self.inner(st, i)
            if not ok:
                self.wrong(eng, st, ev, p, "changes something other than the entry with the reference it was given")
                continue
            out.append((path[2:], val))
        return out

    def inner(self, st, i):
        for a, b in equal_facts(st):
            for x, y in ((a, b), (b, a)):
                if x.op == "fld" and x.a[0] is ARG[2] and y.op == "fld" and y.a[0].op == "fld" and E.strip(y.a[0].a[0]).op == "ix" and E.strip(y.a[0].a[0]).a[1] is i:
                    return True
        return False

    def c_config(self, eng, st, ev, r):
        if not (fname(r).endswith("LockedState.config") and guarded(r) is not None):
            self.wrong(eng, st, ev, "config", "does not return the current configuration: %s" % show(r, 4))

    def found(self, eng, st, ev, p, r, test):
        """r is Some(reference) of an entry for which test holds, or None where there is no such entry"""
        if r.op == "agg" and r.a[1] == 1:
            e = self.entry(eng, r.a[2][0], 1)
            if e is None or not test(e):
                self.wrong(eng, st, ev, p, "may return the reference of another account: %s" % show(r, 5))
        elif not (r.op == "agg" and r.a[1] == 0):
            self.wrong(eng, st, ev, p, "returns something unexpected: %s" % show(r, 5))
        elif p == "validate_act_name":
            self.absent(eng, st, ev, p, lambda el: {frozenset((ARG[2], part(el, 0)))})

    def absent(self, eng, st, ev, p, want):
        n = 0
        for k, v in st.facts.items():
            if k.op == "op" and k.a[0] == "exists" and is_details(k.a[2]) and v == ("=", False) and cval(k.a[1]) == "any":
                n += 1
                el = mk("ix", k.a[2], mk("sym", "any"))
                rs = closure_results(eng, st, k.a[3], el)
                if not all(x.op == "op" and x.a[0] == "eq" and frozenset((E.strip(x.a[1]), E.strip(x.a[2]))) in want(el) for x in rs):
                    self.wrong(eng, st, ev, p, "may not find an existing account: %s" % "; ".join(show(x, 5) for x in rs))
        if not n and not self.get(st, "went through"):
            self.wrong(eng, st, ev, p, "may not look at all accounts")

    WANT = {"validate_act_name": 0, "is_act_id_valid": 1}

    def again(self, eng, st, ev, p):
        """A search that goes on to the next entry has found that this one is not the right one."""
        if p in self.WANT:
            for k, v in st.facts.items():
                if k.op == "op" and k.a[0] == "eq" and v == ("=", False):
                    xs = {E.strip(k.a[1]), E.strip(k.a[2])}
                    if ARG[2] in xs and any(self.entry(eng, x, self.WANT[p]) is not None for x in xs):
                        return
            self.wrong(eng, st, ev, p, "may pass over the right entry")

    def c_validate_act_name(self, eng, st, ev, r):
        self.found(eng, st, ev, "validate_act_name", r, lambda e: part(e, 0) in equals(st, ARG[2]))

    def c_act_id_matching_token_state(self, eng, st, ev, r):
        def test(e):
            d = st.facts.get(mk("discr", part(e, 2)))
            n = [x["n"] for x in eng.p.adts[TS]["v"] if d is not None and d[0] == "=" and int(x["d"]) == int(d[1])]
            return n == ["Pending"] and any(x.op == "fld" and x.a[1] == TS + "::Pending.state" and E.strip(x.a[0]) is part(e, 2) for x in equals(st, ARG[2]))
        self.found(eng, st, ev, "act_id_matching_token_state", r, test)

    def c_is_act_id_valid(self, eng, st, ev, r):
        c = cval(r)
        if c is None and r.op == "op" and r.a[0] == "exists":
            c = "both"
            el = mk("ix", r.a[2], mk("sym", "any"))
            rs = closure_results(eng, st, r.a[3], el)
            if is_details(r.a[2]) and cval(r.a[1]) == "any" and all(x.op == "op" and x.a[0] == "eq" and {E.strip(x.a[1]), E.strip(x.a[2])} == {ARG[2], part(el, 1)} for x in rs):
                return
        if c in (True, 1):
            es = [self.entry(eng, x.a[0] if x.op == "fld" and "AccountId" in str(x.a[1]) else x, 1) for y in equal_facts(st) for x in y]
            if not any(e is not None and self.has_id(st, e) for e in es):
                self.wrong(eng, st, ev, "is_act_id_valid", "may accept a reference that is not current")
        elif c in (False, 0):
            self.absent(eng, st, ev, "is_act_id_valid", lambda el: {frozenset((ARG[2], part(el, 1)))})
        else:
            self.wrong(eng, st, ev, "is_act_id_valid", "returns something unexpected: %s" % show(r, 4))

    def c_act_ids(self, eng, st, ev, r):
        if r.op == "it":
            n, s = source(r)
            if is_details(s) and not partial(r):
                el = mk("ix", s, mk("sym", "any"))
                vals = [el]
                t, stages = r, []
                while t.op == "it":
                    stages = list(t.a[1]) + stages
                    t = t.a[0]
                for x in stages:
                    if x.a[0] in ("map",):
                        vals = [z for y in vals for z in closure_results(eng, st, x.a[1], y)]
                    elif x.a[0] in ("copied", "cloned"):
                        pass
                    else:
                        vals = [None]
                        break
                if vals and all(v is not None and self.entry(eng, v, 1) is el for v in vals):
                    return
            self.wrong(eng, st, ev, "act_ids", "does not go through the references of all accounts: %s" % show(r, 5))
            return
        ls = [(e, s) for e, s in list_alts(eng, r)]
        for e, s in ls:
            for x in e:
                if self.entry(eng, x, 1) is None:
                    self.wrong(eng, st, ev, "act_ids", "returns something that is not the reference of an account: %s" % show(x, 5))

    def c_account(self, eng, st, ev, r):
        if r.op == "at" and fname(r.a[0]).endswith("Config.accounts") and guarded(r.a[0]) is not None:
            for k in equals(st, r.a[1]):
                e = self.entry(eng, k, 0)
                if e is not None and self.has_id(st, e):
                    return
        self.wrong(eng, st, ev, "account", "may return another account: %s" % show(r, 5))

    def c_tokenstate(self, eng, st, ev, r):
        e = self.entry(eng, r, 2)
        if e is None or not self.has_id(st, e):
            self.wrong(eng, st, ev, "tokenstate", "may return the state of another account: %s" % show(r, 5))

    def updated(self, eng, st, ev, p, r, want):
        ch = dict(self.changes(eng, st, ev, p))
        if want not in [(k, v) for k, v in ch.items()]:
            self.wrong(eng, st, ev, p, "does not store what it was given")
        i = ch.get(("1",))
        extra = [k for k in ch if k != want[0] and k != ("1",)]
        if extra:
            self.wrong(eng, st, ev, p, "changes other parts of the entry")
        return i

    def c_tokenstate_replace(self, eng, st, ev, r):
        i = self.updated(eng, st, ev, "tokenstate_replace", r, (("2",), ARG[3]))
        if i is None or i is not r:
            self.wrong(eng, st, ev, "tokenstate_replace", "does not return the new reference")

    def c_tokenstate_set_ongoing_refresh(self, eng, st, ev, r):
        i = self.updated(eng, st, ev, "tokenstate_set_ongoing_refresh", r, (("2", "Active.ongoing_refresh"), ARG[3]))
        if i is None or i is not r:
            self.wrong(eng, st, ev, "tokenstate_set_ongoing_refresh", "does not return the new reference")

    def c_tokenstate_set_last_notification(self, eng, st, ev, r):
        ch = self.changes(eng, st, ev, "tokenstate_set_last_notification")
        for k, v in ch:
            if k != ("2", "Pending.last_notification") or not (v.op == "agg" and v.a[1] == 1 and v.a[2][0] is ARG[3]):
                self.wrong(eng, st, ev, "tokenstate_set_last_notification", "changes other things: %s" % (k,))
        if not ch:
            self.wrong(eng, st, ev, "tokenstate_set_last_notification", "does not record the notification")

    def finish(self, eng):
        got = set(x for s in self.n.values() for x in s)
        for p in self.prims:
            if p not in got:
                eng.violate(self.prop, "no " + p, "the guard's method %s never returns" % p, None, None)


def contract(prop_, *prims_):
    return type("Contract" + prop_, (Contract,), {"prop": prop_, "prims": prims_})


class Derived(Rule):
    """Comparing references compares their numbers; copying a reference, a state or an account copies all of it."""

    def on(self, eng, st, ev):
        if ev.kind != "exit":
            return
        ty, what = eng.cur_derived
        self.saw("comparisons and copies", "%s of %s" % (what, ty))
        r = E.strip(ev.ret)
        key = "%s of %s" % (what, ty)
        if what == "clone":
            if not self.copy(eng, r, ARG[1]):
                self.bad(eng, st, ev, key, "a copy of a value of type %s differs from the original: %s" % (ty, show(r, 4)))
            return
        if ty not in ("AccountId", "AccountDump"):
            return
        adt = [a for a in eng.p.adts if a.split("::")[-1] == ty][0]
        fs = [(x[0], i) for i, x in enumerate(eng.p.adts[adt]["v"][0]["f"])]
        want = [frozenset((eng.fld(ARG[1], "%s.%s" % (adt, n), i), eng.fld(ARG[2], "%s.%s" % (adt, n), i))) for n, i in fs]
        if len(want) == 1:
            want = [frozenset(ARG[1:3])]         # equality of the only field is written as equality of the values
        pos = what == "eq"
        c = cval(r)
        if c is None:
            neg = False
            while r.op == "op" and r.a[0] == "not":
                r, neg = E.strip(r.a[1]), not neg
            rest = frozenset(E.strip(x) for x in r.a[1:3]) if r.op == "op" and r.a[0] in ("eq", "Eq") else None
            known = [frozenset(x) for x in equal_facts(st)] + [rest]
            ok = all(w in known for w in want) and neg == (not pos)
        elif bool(c) == pos:
            ok = all(w in [frozenset(x) for x in equal_facts(st)] for w in want)
        else:
            ok = any(v == ("=", False) and k.op == "op" and k.a[0] == "eq" and frozenset(E.strip(x) for x in k.a[1:3]) in want for k, v in st.facts.items())
        if not ok:
            self.bad(eng, st, ev, key, "comparing values of type %s does not compare (exactly) their fields: %s" % (ty, show(r, 4)))

    def copy(self, eng, r, x):
        if r is x or r.op == "old":
            return r is x
        if r.op == "agg":
            v = eng.p.adts[r.a[0]]["v"][r.a[1]]
            en = len(eng.p.adts[r.a[0]]["v"]) > 1
            for i, (f, y) in enumerate(zip(v["f"], r.a[2])):
                lab = "%s::%s.%s" % (r.a[0], v["n"], f[0]) if en else "%s.%s" % (r.a[0], f[0])
                if E.strip(y) is not eng.fld(x, lab, i):
                    return False
            return True
        return False


def derived(prop_):
    return type("Derived" + prop_, (Derived,), {"prop": prop_})


# ------------------------------------------------------------------ references (C04)
COUNT = "LockedState.account_count"


def entry_parts(eng, t):
    """(name, reference, state, the old entry if it is a copy of one) of an entry of the list of accounts, or None."""
    t = E.strip(t)
    if t.op == "ix" and is_details(t.a[0]):
        return part(t, 0), part(t, 1), part(t, 2), t
    if t.op == "tup" and len(t.a[0]) == 3:
        a, b, c = [E.strip(x) for x in t.a[0]]
        if is_id(b) or raw_entry(b) is not None and b.op == "fld" and b.a[1] in (1, "1"):
            return a, b, c, None
    if t.op == "upd" and t.a[1] in (0, 1, 2, "0", "1", "2"):
        ps = [None, None, None]
        x = t
        while x.op == "upd":
            j = int(x.a[1])
            if ps[j] is None:
                ps[j] = E.strip(x.a[2])
            x = E.strip(x.a[0])
        if x.op == "ix" and is_details(x.a[0]):
            ps = [p if p is not None else part(x, j) for j, p in enumerate(ps)]
            return ps[0], ps[1], ps[2], None
    return None


class C04(Rule):
    prop = "C04"
    seen_fns = set()

    def __init__(self):
        super().__init__()
        self.need = {"references minted": 3, "states replaced": 2}
        self.kinds = {}

    def start(self, eng):
        self.raw = False

    def on(self, eng, st, ev):
        k = ev.kind
        if k == "agg" and ev.name.split("::")[-1] == ID:
            self.mint(eng, st, ev)
        elif k == "agg" and ev.name.split("::")[-1] == "LockedState":
            self.whole(eng, st, ev)
        elif k == "store":
            self.store(eng, st, ev)
        elif k in ("push", "insert"):
            p = entry_parts(eng, ev.args[1])
            if p is not None:
                self.entry(eng, st, ev, p)
        elif k == "release" and lock_is_global(ev.args[0]):
            self.section(eng, st, ev)
        elif k == "exit":
            self.section(eng, st, ev)
        elif k == "call" and held_global(st):
            if re.search(r"mem::(swap|replace|take)$", nm(ev)) and any(E.strip(x).op == "mval" and lock_is_global(E.strip(x).a[0]) for x in ev.args[:1]):
                self.bad(eng, st, ev, "state swapped in %s" % short(ev.fn), "the whole state, including the counter of references, is replaced")

    def avail(self, st):
        return self.get(st, "avail") or frozenset()

    def mint(self, eng, st, ev):
        C04.seen_fns.add(ev.fn)
        t = E.strip(ev.args[0])
        x = E.strip(t.a[2][0]) if t.a[2] else t
        gs = held_global(st)
        f = short(ev.fn)
        self.saw("references minted", where2(ev))
        if self.get(st, "pend") is not None:
            self.bad(eng, st, ev, "minted twice in %s" % f, "a reference is minted before the counter was advanced past the previous one")
        if not gs:
            self.put(st, "avail", self.avail(st) | {t})
            self.put(st, "local", (self.get(st, "local") or frozenset()) | {x})
            return
        cur = None
        for g in gs:
            b = mk("mval", g)
            i = [j for j, y in enumerate(eng.p.adts["pizauth::server::state::LockedState"]["v"][0]["f"]) if y[0] == "account_count"]
            if i:
                cur = E.strip(eng.snap(st, eng.read(st, b, (("f", i[0], "pizauth::server::state::LockedState.account_count"),))))
        b = self.get(st, "bumped")
        if b is not None and b is x:
            pass
        elif cur is None or cur is not x:
            self.bad(eng, st, ev, "not from the counter in %s" % f, "a reference is minted with a number that is not the counter's: %s" % show(x, 4))
        if b is not None:
            self.kinds.setdefault("before" if b is x else "after", ev)
            self.put(st, "bumped", None)
        else:
            self.kinds.setdefault("before", ev)
            self.put(st, "pend", x)
        self.put(st, "avail", self.avail(st) | {t})

    def use(self, eng, st, ev, i):
        """Is i a new reference that was not yet given to an account?"""
        a = self.avail(st)
        if i in a:
            self.put(st, "avail", (a - {i}) or None)
            return True
        return False

    def more(self, eng, v, old):
        """Is v old plus a positive constant?"""
        v = E.strip(v)
        m = some_of(v)
        if m is not None:
            v = E.strip(m)
        if v.op in ("op", "call") and callee(v).split("::")[-1] in ("Add", "checked_add", "strict_add"):
            a = [E.strip(x) for x in cargs(v)]
            c = cval(a[1])
            return a[0] is old and type(c) is int and c >= 1
        return False

    def store(self, eng, st, ev):
        p = raw_store(ev)
        b = E.strip(ev.args[0])
        f = short(ev.fn)
        if not p:
            if b.op == "mval" and lock_is_global(b.a[0]) and not ev.args[1]:
                self.bad(eng, st, ev, "state replaced in %s" % f, "the whole state, including the counter of references, is replaced")
            return
        if p[0] == COUNT:
            x = self.get(st, "pend")
            v = E.strip(ev.args[2])
            if x is not None:
                if not self.more(eng, v, x):
                    self.bad(eng, st, ev, "counter in %s" % f, "after minting a reference the counter is not set to a larger number: %s" % show(v, 4))
                self.put(st, "pend", None)
            else:
                a = [E.strip(y) for y in cargs(v)] if v.op == "op" else []
                if not a or not self.more(eng, v, a[0]) or not (fname(a[0]).endswith(COUNT) and guarded(a[0]) is not None or a[0].op in ("phi", "op")):
                    self.bad(eng, st, ev, "counter in %s" % f, "the counter of references is set to something other than a larger number: %s" % show(v, 4))
                self.put(st, "bumped", a[0] if a else v)
            return
        if p[0] != "LockedState.details":
            return
        raw = [x[2].split("::")[-1] if x[0] == "f" and type(x[2]) is str else x[1] if x[0] == "ix" else x[0] for x in ev.args[1]]
        if len(raw) == 1:
            return
        ix, rest = raw[1], raw[2:]
        self.saw("states replaced", where2(ev))
        if not rest:
            q = entry_parts(eng, ev.args[2])
            if q is None:
                self.bad(eng, st, ev, "entry in %s" % f, "an entry of unknown contents is installed: %s" % show(ev.args[2], 4))
            else:
                self.entry(eng, st, ev, q)
        elif str(rest[0]) == "1":
            i = E.strip(ev.args[2])
            if len(rest) > 1 or not self.use(eng, st, ev, i):
                self.bad(eng, st, ev, "reference in %s" % f, "an account is given a reference that is not a new one: %s" % show(i, 4))
            self.put(st, "ids", (self.get(st, "ids") or frozenset()) | {ix})
        elif str(rest[0]) == "2":
            if len(rest) == 2 and rest[1] == "Pending.last_notification":
                return
            self.put(st, "states", (self.get(st, "states") or frozenset()) | {ix})

    def entry(self, eng, st, ev, p):
        name, i, ts, old = p
        f = short(ev.fn)
        self.saw("entries built", where2(ev))
        if old is not None:
            return
        e = raw_entry(i)
        if e is not None and i.op == "fld":
            if raw_entry(ts) is e and ts is part(e, 2):
                return
            self.bad(eng, st, ev, "old reference in %s" % f, "an account keeps its reference although its token state is replaced")
            return
        if is_id(i) and self.use(eng, st, ev, i):
            return
        self.bad(eng, st, ev, "reference in %s" % f, "an account is given a reference that is not a new one: %s" % show(i, 4))

    def section(self, eng, st, ev):
        """The end of a critical section."""
        if self.get(st, "pend") is not None:
            self.bad(eng, st, ev, "counter not advanced in %s" % short(ev.fn), "a reference is minted without advancing the counter: the next one will be the same")
            self.put(st, "pend", None)
        lost = (self.get(st, "states") or frozenset()) - (self.get(st, "ids") or frozenset())
        if lost:
            self.bad(eng, st, ev, "state without reference in %s" % short(ev.fn), "an account's token state is replaced without giving it a new reference")
        for k in ("states", "ids", "bumped", "avail"):
            self.put(st, k, None)

    def whole(self, eng, st, ev):
        """A state is created: the counter must be beyond all references in it."""
        t = E.strip(ev.args[0])
        fs = [x[0] for x in eng.p.adts[t.a[0]]["v"][0]["f"]]
        f = short(ev.fn)
        self.saw("states created", where(ev))
        if "account_count" not in fs:
            self.bad(eng, st, ev, "no counter", "the state has no counter of references")
            return
        if held_global(st):
            self.bad(eng, st, ev, "state created in %s" % f, "a new state (with a new counter of references) is created while the server runs")
        c = E.strip(t.a[2][fs.index("account_count")])
        ms = self.get(st, "local") or frozenset()
        if cval(c) is not None and not ms:
            pass
        elif c.op == "phi":
            ins = [E.strip(x) for x in eng.phi_in.get(c, ())]
            old = mk("old", C(("s", "it")), c)
            start = [x for x in ins if cval(x) is not None]
            if not all(cval(x) is not None or self.more(eng, x, old) for x in ins):
                self.bad(eng, st, ev, "counter in %s" % f, "the initial counter of references is not advanced for every reference")
            for m in ms:
                y = m
                while y.op == "old":
                    y = E.strip(y.a[-1])
                if y is not c and y not in start:
                    self.bad(eng, st, ev, "initial references in %s" % f, "initial references are not taken from the counter: %s" % show(m, 4))
        elif callee(c).split("::")[-1] in ("len", "count"):
            for m in ms:
                if not any(x.op == "idx" for x in subterms(m)) and cval(m) is None:
                    self.bad(eng, st, ev, "initial references in %s" % f, "initial references are not the positions of the accounts: %s" % show(m, 4))
        else:
            self.bad(eng, st, ev, "counter in %s" % f, "cannot tell that the initial counter is beyond all references: %s" % show(c, 4))
        self.put(st, "local", None)
        self.put(st, "avail", None)

    def finish(self, eng):
        if len(self.kinds) > 1:
            eng.violate(self.prop, "mixed", "references are taken from the counter before advancing it in some places, and after in others", self.kinds["after"], None)


class C04raw(C04):
    """The same for the methods of the guard; and every place that makes references was looked at."""

    def __init__(self):
        super().__init__()
        self.need = {"references minted": 1, "states replaced": 2}

    def finish(self, eng):
        super().finish(eng)
        for b in eng.p.local:
            if any(x.startswith("agg:") and x.endswith("::" + ID) for x in callees(eng.p)[b["id"]]) and b["id"] not in C04.seen_fns \
                    and not re.search(r" as (std|core)::", b["id"]):
                eng.violate(self.prop, "minted in %s" % short(b["id"]), "references are made in a function that no analysed path calls: %s" % b["id"], None, None)


# ------------------------------------------------------------------ reloads (C01)
ACCT = "pizauth::config::Account."
DUMPED = "pizauth::config::AccountDump."
SECURE = ("auth_uri", "auth_uri_fields", "client_id", "client_secret", "redirect_uri", "scopes", "token_uri")


def account_of(t, owner=ACCT):
    """(field, collection, key) if t is a field of the element of a collection of accounts with that key."""
    t = E.strip(t)
    if t.op == "fld" and str(t.a[1]).startswith(owner):
        x = E.strip(t.a[0])
        return str(t.a[1])[len(owner):], x
    return None


def keyed(x):
    """(collection, key) of an element of a map."""
    x = E.strip(x)
    if x.op == "at":
        return E.strip(x.a[0]), E.strip(x.a[1])
    m = some_of(x)
    if m is not None:
        m = E.strip(m)
        if m.op in ("op", "call") and callee(m).split("::")[-1] == "get":
            a = cargs(m)
            return (E.strip(a[0]), E.strip(a[1])) if len(a) == 2 else None
    return None


def accounts_of(coll):
    """The configuration whose accounts coll is."""
    coll = E.strip(coll)
    if coll.op == "fld" and fname(coll).endswith("Config.accounts"):
        return E.strip(coll.a[0])
    return None


def is_current(conf):
    """The guard, if conf is the current configuration."""
    conf = E.strip(conf)
    if conf.op == "fld" and fname(conf).endswith("LockedState.config"):
        return guarded(conf)
    return None


def is_empty_state(t):
    t = E.strip(t)
    return t.op == "agg" and t.a[0] == TS and not t.a[2]


class C01(Rule):
    prop = "C01"

    def __init__(self):
        super().__init__()
        self.need = {"accounts kept": 1, "accounts started afresh": 1, "reloads": 1}
        self.keeps = self.kept_fact

    def kept_fact(self, k):
        if k.op == "op" and k.a[0] == "eq":
            return any(x.op == "fld" and str(x.a[1]).startswith(ACCT) and any(y.op == "guard" for y in x.atoms) for x in k.a[1:3])
        return self.absence(k)

    def absence(self, k):
        """A fact about whether an account of some name exists in the current configuration (or the current list)."""
        if k.op == "discr":
            x = E.strip(k.a[0])
            if x.op in ("op", "call") and callee(x).split("::")[-1] in ("get", "get_key_value", "find", "position"):
                return any(is_current(y) is not None for y in map(accounts_of, cargs(x)) if y is not None) or any(is_details(y) for y in subterms(x))
            return False
        if k.op in ("op", "call"):
            l = k.a[0] if k.op == "op" else callee(k).split("::")[-1]
            if l == "exists":
                return is_details(k.a[2]) or any(is_details(y) or y.op == "fld" and accounts_of(y) is not None for y in subterms(k.a[2]))
            if "contains" in str(l):
                return any(accounts_of(y) is not None or is_details(y) for y in subterms(k))
        return False

    def reason(self, st):
        """Is there a reason known for which an account starts afresh?"""
        for k, v in st.facts.items():
            if v == ("=", False) and k.op == "op" and k.a[0] == "eq":
                for x in k.a[1:3]:
                    for y in subterms(x):
                        if y.op == "fld" and str(y.a[1]).startswith(ACCT) and any(z.op == "guard" for z in y.atoms):
                            if y.a[1][len(ACCT):] in SECURE + ("name",):
                                return True
                        elif y.op in ("at",) and is_current(accounts_of(y.a[0]) or y) is not None and x.op != "fld":
                            return True
            elif self.absence(k) and (v in (("=", 0), ("=", False), ("!", frozenset([1])), ("!", frozenset([True])))):
                return True
        return False

    def on(self, eng, st, ev):
        k = ev.kind
        if k in ("push", "insert") and held_global(st):
            p = entry_parts(eng, ev.args[1])
            if p is not None:
                self.entry(eng, st, ev, p)
        elif k in ("next", "elem", "exhausted") and held_global(st):
            if k != "elem":
                self.turn(eng, st, ev)
            self.search(eng, st, ev)
        elif k == "back" and type(self.get(st, "look")) is T:
            self.put(st, "look", self.passed(st, self.get(st, "look")))
        elif k == "store":
            p = raw_store(ev)
            if p == ("LockedState.config",):
                self.put(st, "conf", E.strip(ev.args[2]))
            elif p == ("LockedState.details",):
                self.saw("reloads", where2(ev))
                self.put(st, "stored", True)
            elif p and p[0] == "LockedState.config":
                self.bad(eng, st, ev, "config in %s" % short(ev.fn), "part of the current configuration is changed in place")
        elif k == "release" and lock_is_global(ev.args[0]) or k == "exit":
            self.section(eng, st, ev)

    def search(self, eng, st, ev):
        """Looking for the entry of an account that exists always finds it: the paths on which all entries turn
        out to have another name are not possible."""
        s = source(ev.args[0])[1]
        if self.get(st, "over") is None or not is_details(s) or partial(ev.args[0]):
            return
        if ev.kind == "elem" and len(ev.args) > 1:
            if type(self.get(st, "look")) is not str:
                self.put(st, "look", E.strip(ev.args[1]))
        elif ev.kind == "exhausted":
            l = self.get(st, "look")
            if l != "maybe" and type(l) is not T and any(self.exists(fk, v) for fk, v in st.facts.items()):
                self.put(st, "void", True)
            self.put(st, "look", None)

    def exists(self, k, v):
        """Is this the fact that an account of the new configuration exists in the current one?"""
        if v not in (("=", 1), ("=", True), ("!", frozenset([0])), ("!", frozenset([False]))):
            return False
        x = E.strip(k.a[0]) if k.op == "discr" else k
        l = callee(x).split("::")[-1] if x.op in ("op", "call") else ""
        if l not in (("get", "get_key_value") if k.op == "discr" else ("contains_key",)):
            return False
        a = cargs(x)
        return len(a) == 2 and is_current(accounts_of(a[0]) or a[0]) is not None and self.new_key(a[1])

    def new_key(self, x):
        """Is x (part of) an element of the accounts of a configuration that is not the current one?"""
        return any(y.op == "fld" and fname(y).endswith("Config.accounts") and is_current(y.a[0]) is None for y in subterms(x))

    def passed(self, st, e):
        """Is an entry known not to be that of the account at hand?"""
        for k, v in st.facts.items():
            if v == ("=", False) and k.op == "op" and k.a[0] == "eq":
                for x, y in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                    if bare(x) is bare(part(e, 0)) and self.new_key(y):
                        return None
        return "maybe"

    def turn(self, eng, st, ev):
        n, s = source(ev.args[0])
        colls = [x for x in subterms(s) if x.op == "fld" and fname(x).endswith("Config.accounts") and is_current(x.a[0]) is None]
        if not colls:
            return
        o = self.get(st, "over")
        if ev.kind == "next" and o is not None and self.get(st, "n") != 1 and not self.get(st, "void"):
            self.bad(eng, st, ev, "entries in %s" % short(ev.fn), "a reload does not make exactly one entry for each account of the new configuration")
        if ev.kind == "next":
            if o is None and partial(ev.args[0]):
                self.bad(eng, st, ev, "accounts in %s" % short(ev.fn), "a reload does not go through all accounts of the new configuration")
            self.put(st, "over", E.strip(colls[0].a[0]))
            self.put(st, "n", 0)
            self.put(st, "look", None)
            self.put(st, "void", None)
        else:
            self.put(st, "all", E.strip(colls[0].a[0]))
            self.put(st, "over", None)
            self.put(st, "n", None)

    def entry(self, eng, st, ev, p):
        name, i, ts, old = p
        f = short(ev.fn)
        if self.get(st, "over") is not None:
            self.put(st, "n", min((self.get(st, "n") or 0) + 1, 2))
        names = equals(st, name)
        key = [x for x in names if x.op == "ix" and any(fname(y).endswith("Config.accounts") and is_current(y.a[0]) is None for y in subterms(x) if y.op == "fld")]
        key += [x for x in names if x.op == "fld" and x.a[0].op == "ix" and x.a[1] in (0, "0") and not is_details(E.strip(x.a[0]).a[0])]
        if not key:
            self.bad(eng, st, ev, "name in %s" % f, "an entry is made for a name that is not one from the new configuration: %s" % show(name, 4))
        if is_empty_state(ts):
            self.saw("accounts started afresh", where(ev))
            if not self.reason(st):
                self.bad(eng, st, ev, "afresh in %s" % f, "a reload may discard an account's state although none of its security-relevant settings changed")
            return
        e = raw_entry(ts)
        if e is None or E.strip(ts) is not part(e, 2):
            self.bad(eng, st, ev, "state in %s" % f, "a reload gives an account a state that is neither empty nor its old one: %s" % show(ts, 4))
            return
        self.saw("accounts kept", where(ev))
        if part(e, 0) not in names:
            self.bad(eng, st, ev, "other account's state in %s" % f, "a reload may give an account the state of another one")
            return
        same, confs = {}, set()
        for a, b in equal_facts(st):
            x, y = account_of(a), account_of(b)
            if x is None or y is None or x[0] != y[0]:
                continue
            kx, ky = keyed(x[1]), keyed(y[1])
            if kx is None or ky is None or kx[1] not in names or ky[1] not in names:
                continue
            cx, cy = accounts_of(kx[0]), accounts_of(ky[0])
            for c, d in ((cx, cy), (cy, cx)):
                if c is not None and d is not None and is_current(c) is not None and is_current(c) is guarded(e) and is_current(d) is None:
                    same.setdefault(d, set()).add(x[0])
        best = max(same.items(), key=lambda z: len(z[1] & set(SECURE)), default=(None, set()))
        for fld_ in SECURE:
            if fld_ not in best[1]:
                self.bad(eng, st, ev, "%s not compared" % fld_, "a reload keeps an account's state although its %s may have changed" % fld_)
        if best[0] is not None and best[0] is not self.get(st, "over") and self.get(st, "over") is not None:
            self.bad(eng, st, ev, "other configuration in %s" % f, "the account is compared with one of another configuration than the one that is loaded")

    def section(self, eng, st, ev):
        c, d = self.get(st, "conf"), self.get(st, "stored")
        f = short(ev.fn)
        if c is not None and not d:
            self.bad(eng, st, ev, "accounts of %s" % f, "the configuration is replaced but the list of accounts is not")
        if d:
            if c is None:
                self.bad(eng, st, ev, "configuration of %s" % f, "the list of accounts is replaced but the configuration is not")
            elif self.get(st, "all") is not c:
                self.bad(eng, st, ev, "all accounts of %s" % f, "the list of accounts was not made from (all of) the configuration that is installed")
        for k in ("conf", "stored", "all", "over", "n", "look", "void"):
            self.put(st, k, None)


# ------------------------------------------------------------------ restores (C02)
class Restore(Rule):
    """Shared by C02 and C25: the accounts for which a restore is justified."""

    def __init__(self):
        super().__init__()
        self.keeps = self.kept_fact

    def kept_fact(self, k):
        if k.op == "op" and k.a[0] == "eq":
            return any(x.op == "fld" and str(x.a[1]).startswith(DUMPED) for x in k.a[1:3])
        return k.op == "discr" and raw_entry(k.a[0]) is not None and any(x.op in ("guard", "phi") for x in k.atoms)

    def dumped(self, eng, t):
        """(collection of the dump, key) of the dump entry from which a state was made."""
        for x in subterms(E.strip(t)):
            k = keyed(x) if x.op in ("at", "fld") else None
            if k is not None and E.strip(k[0]).op == "fld" and fname(k[0]).endswith("Dump.accounts"):
                return k
        return None

    def active(self, eng, t):
        """The token state of variant Active in t (a state, or something that holds one)."""
        t = E.strip(t)
        if t.op == "agg" and t.a[0] == TS:
            return t if eng.p.adts[TS]["v"][t.a[1]]["n"] == "Active" else None
        if t.op == "tup":
            for x in t.a[0]:
                r = self.active(eng, x)
                if r is not None:
                    return r
        return None

    def justified(self, eng, st, k):
        """Why the state dumped under k must not be restored (None if it may)."""
        coll, key = k
        names = equals(st, key)
        d = E.strip(coll.a[0])
        vf = [v for x, v in st.facts.items() if x.op == "fld" and fname(x).endswith("Dump.version") and E.strip(x.a[0]) is d]
        if not any(v[0] == "=" for v in vf):
            return "version", "the dump's version is not checked"
        es = [E.strip(x.a[0]) for x in names if x.op == "fld" and x.a[1] in (0, "0") and raw_entry(x) is E.strip(x.a[0])]
        if not any(raw_active(eng, st, e) is False for e in es):
            return "active", "the account may have an active token"
        got = set()
        for a, b in equal_facts(st):
            for x, y in ((a, b), (b, a)):
                p, q = account_of(x), account_of(y, DUMPED)
                if p is None or q is None or p[0] != q[0]:
                    continue
                kp, q1 = keyed(p[1]), E.strip(q[1])
                kq = keyed(q1.a[0]) if q1.op == "fld" and q1.a[1] in (0, "0") else None
                if kp is None or kq is None or kp[1] not in names or kq[1] not in names or kq[0] is not coll:
                    continue
                c = accounts_of(kp[0])
                if c is not None and is_current(c) is not None and any(guarded(e) is is_current(c) for e in es):
                    got.add(p[0])
        for f in SECURE:
            if f not in got:
                return f, "the account's %s may differ from the dumped one" % f
        return None

    def refuted(self, eng, st, e):
        """Is it known that the account of entry e is not to be restored?"""
        if raw_active(eng, st, e) is True:
            return True
        names = equals(st, part(e, 0))
        for k, v in st.facts.items():
            if v == ("=", False) and k.op == "op" and k.a[0] == "eq":
                for x, y in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                    p, q = account_of(x), account_of(y, DUMPED)
                    if p is not None and q is not None and p[0] == q[0] and p[0] in SECURE:
                        kp = keyed(p[1])
                        if kp is not None and kp[1] in names:
                            return True
            if k.op == "discr":
                x = E.strip(k.a[0])
                if x.op in ("op", "call") and callee(x).split("::")[-1] == "get" and fname(E.strip(cargs(x)[0])).endswith("Dump.accounts") and \
                        E.strip(cargs(x)[1]) in names and v in (("=", 0), ("!", frozenset([1]))):
                    return True
                if x.op == "fld" and x.a[1] in (1, "1") and keyed(x.a[0]) is not None and keyed(x.a[0])[1] in names and \
                        fname(keyed(x.a[0])[0]).endswith("Dump.accounts"):
                    adt = [a for a in eng.p.adts if a.endswith("::TokenStateDump")]
                    if adt:
                        n = {int(y["d"]): y["n"] for y in eng.p.adts[adt[0]]["v"]}
                        act = [d for d, m in n.items() if m == "Active"]
                        if v[0] == "=" and int(v[1]) not in act or v[0] == "!" and set(act) <= set(int(z) for z in v[1]):
                            return True
        return False

    def over_details(self, it):
        n, s = source(it)
        return is_details(s) or any(x.op == "op" and x.a[0] == "len" and is_details(x.a[1]) for x in subterms(s))


class C02(Restore):
    prop = "C02"

    def __init__(self):
        super().__init__()
        self.need = {"states restored": 1, "restores justified": 1}
        self.good, self.poor, self.later = set(), {}, []

    def on(self, eng, st, ev):
        k = ev.kind
        if k in ("push", "insert"):
            l = [x for x in ev.args[1:] if type(x) is T]
            for x in l:
                a = self.active(eng, x)
                if a is not None:
                    self.candidate(eng, st, ev, a, [E.strip(y) for y in l])
        elif k == "store":
            p = raw_store(ev)
            if len(p) > 2 and p[0] == "LockedState.details":
                raw = [x[2] if x[0] == "f" else x[1] if x[0] == "ix" else x[0] for x in ev.args[1]]
                if str(raw[2]) == "2":
                    self.restored(eng, st, ev, raw[1], E.strip(ev.args[2]), len(raw) > 3)
            elif len(p) == 2 and p[0] == "LockedState.details":
                q = entry_parts(eng, ev.args[2])
                raw = [x[1] for x in ev.args[1] if x[0] == "ix"]
                if q is not None and raw:
                    self.restored(eng, st, ev, raw[0], q[2], False)

    def candidate(self, eng, st, ev, a, l):
        k = self.dumped(eng, a)
        if k is None:
            return
        why = self.justified(eng, st, k)
        f = short(ev.fn)
        if why is None:
            self.saw("restores justified", where(ev))
            keys = [x for y in l for x in ([y] if y.op != "tup" else [E.strip(z) for z in y.a[0]])]
            if not any(x in keys for x in equals(st, k[1])):
                self.bad(eng, st, ev, "name in %s" % f, "a dumped state is kept for an account of another name")
            self.good.add(bare(a))
        else:
            self.poor[bare(a)] = why

    def restored(self, eng, st, ev, ix, v, deep):
        f = short(ev.fn)
        self.saw("states restored", where2(ev))
        k = self.dumped(eng, v)
        if deep or k is None:
            self.bad(eng, st, ev, "state in %s" % f, "an account is given a state that does not come from a dump: %s" % show(v, 4))
            return
        if self.active(eng, v) is None:
            self.bad(eng, st, ev, "inactive state in %s" % f, "an account's state may be replaced by one that is not an active token: %s" % show(v, 4))
            return
        names = equals(st, k[1])
        mine = [x for x in names if x.op == "fld" and x.a[1] in (0, "0") and E.strip(x.a[0]).op == "ix" and E.strip(x.a[0]).a[1] is ix]
        if not mine:
            self.bad(eng, st, ev, "account in %s" % f, "a dumped state may be given to an account of another name")
        why = self.justified(eng, st, k)
        if why is not None:
            self.later.append((eng, st, ev, bare(E.strip(v)), why, f))
        else:
            self.saw("restores justified", where2(ev))

    def finish(self, eng):
        # states that were collected to be restored are justified where they are collected
        for g, st, ev, v, why, f in self.later:
            if v in self.good and v not in self.poor:
                continue
            why = self.poor.get(v, why)
            self.bad(eng, st, ev, "%s in %s" % (why[0], f), "a token is restored although %s" % why[1])


# ------------------------------------------------------------------ all or nothing (C25)
class Hidden:
    """A term in a rule's state that does not keep the facts about it alive."""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return type(o) is Hidden and self.t is o.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return show(self.t, 3)


class C25(Restore):
    prop = "C25"

    def __init__(self):
        super().__init__()
        self.need = {"reloads acknowledged": 1, "reloads refused": 1, "restores acknowledged": 1, "restores refused": 1, "accounts left alone by a restore": 1}
        self.cands = False
        self.keeps = lambda k: request_text(k) or (self.kept_fact(k) or self.lookup(k)) and \
            (not any(x.op == "old" for x in subterms(k)) or any(x.op == "ix" and is_details(x.a[0]) and x.a[1].op != "old" for x in subterms(k)))

    def lookup(self, k):
        """A fact about whether the dump has an account, or about the state it has for it."""
        if k.op != "discr":
            return False
        x = E.strip(k.a[0])
        while x.op == "fld" and x.a[1] in (0, 1, "0", "1"):
            x = E.strip(x.a[0])
        kk = keyed(x)
        if kk is not None:
            return fname(kk[0]).endswith("Dump.accounts")
        return x.op in ("op", "call") and callee(x).split("::")[-1] == "get" and bool(cargs(x)) and fname(E.strip(cargs(x)[0])).endswith("Dump.accounts")

    CLEAR = ("verb", "conf", "details", "changed", "all", "ix", "done", "drained", "item", "answered")

    def on(self, eng, st, ev):
        k = ev.kind
        if k == "next" and source(ev.args[0])[0] == "incoming" or k == "call" and nm(ev).endswith("UnixListener::accept") or k == "exit":
            if serves_client(eng):
                self.over(eng, st, ev)
                for x in self.CLEAR:
                    self.put(st, x, None)
            return
        if not serves_client(eng):
            return
        c = self.get(st, "verb")
        if c is None and k in ("call", "acquire", "enter"):
            c = command(eng, st)
            if c in ("reload", "restore"):
                self.put(st, "verb", c)
        if k == "store":
            p = raw_store(ev)
            if p and p[0] != "LockedState.account_count":
                self.put(st, "changed", True)
                if p == ("LockedState.config",):
                    self.put(st, "conf", self.configured(E.strip(ev.args[2])))
                elif p == ("LockedState.details",):
                    self.put(st, "details", True)
                elif len(p) >= 2:
                    v = E.strip(ev.args[2])
                    if self.active(eng, v) is not None and self.dumped(eng, v) is not None:
                        self.put(st, "item", None)
                        self.put(st, "done", True)
        elif k in ("push", "insert"):
            for x in ev.args[1:]:
                if type(x) is T and self.active(eng, x) is not None and self.dumped(eng, x) is not None:
                    self.put(st, "done", True)
                    self.cands = True
        elif k in ("next", "elem", "exhausted") and c == "restore":
            self.turn(eng, st, ev)
        elif k == "back" and c == "restore":
            # at the end of a turn what is known of the element is about to become outdated
            i = self.get(st, "ix")
            if i is not None and not self.get(st, "done") and self.refuted_at(eng, st, i.t):
                self.put(st, "done", True)
        p = reply(ev)
        if p is not None:
            self.answer(eng, st, ev, (text(p[0]) or "").startswith("ok"))

    def configured(self, v):
        m = some_of(v)
        m = E.strip(m) if m is not None else None
        return m is not None and "Config::from_path" in callee(m) and any(fname(y).split("::")[-1].startswith("AuthenticatorState.") for x in cargs(m) for y in subterms(x)) or None

    def over_cands(self, eng, it):
        n, s = source(it)
        if any(x.op == "op" and x.a[0] == "emptymap" or x.op == "arr" and not x.a[0] for x in subterms(s)):
            return True
        seen, work = set(), [s]
        while work:
            x = work.pop()
            for y in subterms(x):
                if y in seen:
                    continue
                seen.add(y)
                if y.op == "phi":
                    work += [z for z in eng.phi_in.get(y, ()) if type(z) is T]
                elif y.op == "agg" and y.a[0] == TS and self.active(eng, y) is not None and self.dumped(eng, y) is not None:
                    return True
        return False

    def turn(self, eng, st, ev):
        k, it = ev.kind, ev.args[0]
        f = short(ev.fn)
        if self.over_details(it):
            if k == "elem":
                if not self.get(st, "all"):
                    v = E.strip(ev.args[1])
                    es = [x for x in subterms(v) if x.op == "ix" and is_details(x.a[0])]
                    self.put(st, "ix", Hidden(es[0].a[1] if es else v))
                    self.put(st, "done", None)
                return
            if k == "next" and self.get(st, "ix") is None and not self.get(st, "all") and partial(it):
                self.bad(eng, st, ev, "accounts in %s" % f, "a restore does not go through all accounts")
            i = self.get(st, "ix")
            if i is not None:
                if not self.get(st, "done") and not self.refuted_at(eng, st, i.t):
                    self.bad(eng, st, ev, "left out in %s" % f, "a restore may leave out a token that the dump holds for an account that has none")
                else:
                    self.saw("accounts left alone by a restore", f)
                self.put(st, "ix", None)
            if k == "exhausted":
                if self.get(st, "all"):
                    self.put(st, "drained", True)
                self.put(st, "all", True)
        elif self.over_cands(eng, it):
            if k == "elem":
                self.put(st, "item", True)
                return
            if self.get(st, "item"):
                self.bad(eng, st, ev, "not stored in %s" % f, "a token that is to be restored may not be stored")
            if k == "exhausted":
                self.put(st, "drained", True)

    def refuted_at(self, eng, st, i):
        es = set()
        for k in st.facts:
            for y in subterms(k):
                if y.op == "ix" and y.a[1] is i and is_details(y.a[0]):
                    es.add(y)
        return any(self.refuted(eng, st, e) for e in es)

    def answer(self, eng, st, ev, ok):
        c = self.get(st, "verb")
        if c not in ("reload", "restore"):
            return
        f = short(ev.fn)
        self.saw("%ss %s" % (c, "acknowledged" if ok else "refused"), where2(ev))
        self.put(st, "answered", True)
        if not ok:
            if self.get(st, "changed"):
                self.bad(eng, st, ev, "%s refused in %s" % (c, f), "the client is told that a %s failed although it changed something" % c)
            return
        if c == "reload":
            if not self.get(st, "conf"):
                self.bad(eng, st, ev, "reload in %s" % f, "a reload is acknowledged although the configuration file's configuration was not installed")
            elif not self.get(st, "details"):
                self.bad(eng, st, ev, "reload in %s" % f, "a reload is acknowledged although the list of accounts was not replaced")
        else:
            if not self.get(st, "all"):
                self.bad(eng, st, ev, "restore in %s" % f, "a restore is acknowledged although not all accounts were considered")
            elif self.cands and not self.get(st, "drained"):
                self.bad(eng, st, ev, "restore in %s" % f, "a restore is acknowledged although not all tokens it was to restore were stored")

    def over(self, eng, st, ev):
        c = self.get(st, "verb")
        if c in ("reload", "restore") and not self.get(st, "answered"):
            self.bad(eng, st, ev, "%s not answered" % c, "a %s ends without the client being told whether it succeeded" % c)
