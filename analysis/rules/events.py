"""What follows a change of a token state: C15 (events), C14 (wake-ups)."""
from rules.common import *
from rules.refresh import is_refresh, ACT
from rules.notify import is_event, queued, queued_event, event_variant, WORDS, EVENT

EV = "TokenEvent"
DETAILS = "LockedState.details"


def event_of(eng, t):
    """(name, variant) of a queued event."""
    t = E.strip(t)
    if t.op == "tup" and len(t.a[0]) == 2:
        a, b = [E.strip(x) for x in t.a[0]]
    elif t.op == "agg" and len(t.a[2]) == 2:
        a, b = [E.strip(x) for x in t.a[2]]
    else:
        return None, None
    if a.op == "agg" and a.a[0].split("::")[-1] == EV:
        a, b = b, a
    if b.op == "agg" and b.a[0].split("::")[-1] == EV:
        return a, eng.p.adts[b.a[0]]["v"][b.a[1]]["n"]
    return a, None


def raw_store(ev):
    """The path of fields of the guarded state that a store event writes: (struct field, ...), () if it is something else."""
    p = [x[2].split("::")[-1] if x[0] == "f" and type(x[2]) is str else x[0] for x in ev.args[1]] if len(ev.args) > 1 else []
    return tuple(p) if p and p[0].startswith("LockedState.") else ()


def raw_entry(t):
    """The entry of the raw list of accounts of which t is a part."""
    t = E.strip(t)
    n = 0
    while t.op == "fld" and n < 6:
        t = E.strip(t.a[0])
        n += 1
    if t.op == "ix" and is_details(t.a[0]):
        return t
    return None


def is_details(t, seen=()):
    """Is t the list of accounts (possibly with some of its entries changed)?"""
    t = E.strip(t)
    while t.op in ("op", "old", "upd") and (t.op == "upd" or t.a[0] in ("mutof", "gen", "it")):
        t = E.strip(t.a[0] if t.op == "upd" else t.a[-1])
    if t.op == "phi":
        return t not in seen and any(is_details(x, seen + (t,)) for x in E.CUR[0].phi_in.get(t, ()) if type(x) is T)
    return t.op == "fld" and fname(t).endswith(DETAILS)


def raw_active(eng, st, e):
    """Is the token state of a raw entry known to be active? True / False / None"""
    for k, v in st.facts.items():
        if k.op == "discr":
            x = E.strip(k.a[0])
            if x.op == "fld" and E.strip(x.a[0]) is e and x.a[1] in (2, "2"):
                d = {int(y["d"]): y["n"] for y in eng.p.adts[TS]["v"]}
                if v[0] == "=":
                    return d[int(v[1])] == "Active"
                left = [n for i, n in d.items() if i not in v[1]]
                if "Active" not in left:
                    return False
                if left == ["Active"]:
                    return True
    return None


class C15(Rule):
    prop = "C15"

    def __init__(self):
        super().__init__()
        self.need = {"events raised": 6, "New": 1, "Refresh": 1, "Revoked": 1, "Invalidated": 2, "tokens discarded by a reload": 1}
        self.keeps = self.kept_fact

    def kept_fact(self, k):
        if request_text(k):
            return True
        if k.op == "discr":
            return raw_entry(k.a[0]) is not None and any(x.op == "guard" for x in k.atoms)
        return k.op == "op" and k.a[0] == "exists" and any(x.op == "guard" for x in k.atoms) and any(raw_entry(x) is x for x in subterms(k))

    def on(self, eng, st, ev):
        k = ev.kind
        if k == "call" and NETREQ.search(nm(ev)):
            self.put(st, "net", "code" if in_tcp(eng, st) else ("refresh", is_refresh(eng, ev)))
        elif k == "prim" and ev.name in CHANGES:
            self.change(eng, st, ev)
        elif k == "call" and EXEC.search(nm(ev)):
            p = cmd_parts(eng, ev.args[0])
            x = p[2].get("PIZAUTH_EVENT") if p is not None else None
            if x is not None and queued_event(eng, st, x) is None:
                self.bad(eng, st, ev, "reported in %s" % short(ev.fn), "the event command is not told the kind of the event that happened: %s" % show(x, 4))
        elif k in ("push", "insert") and is_event(eng, ev.args[1]):
            self.event(eng, st, ev)
        elif k == "push":
            self.listed(eng, st, ev)
        elif k == "skip":
            self.skipped(eng, st, ev)
        elif k == "store" and raw_store(ev) == (DETAILS,):
            self.reload(eng, st, ev)
        elif k == "next":
            n, s = source(ev.args[0])
            if n == "incoming":
                self.due(eng, st, ev)
                self.put(st, "net", None)
            elif self.get(st, "list") is not None:
                l = self.get(st, "list")
                if l == "each":
                    self.bad(eng, st, ev, "list in %s" % short(ev.fn), "a token that a reload discarded is not announced as invalidated")
                if self.names(eng, s) and not partial(ev.args[0]) or s.op == "arr" and not s.a[0] and not self.get(st, "listed"):
                    self.put(st, "list", "each")
                    self.put(st, "open", True)
        elif k == "exhausted":
            self.put(st, "open", None)
            if self.get(st, "list") == "each":
                self.put(st, "list", "some")
        elif k == "exit":
            self.due(eng, st, ev)

    # ---- ordinary changes
    def todo(self, st):
        return self.get(st, "todo") or frozenset()

    def change(self, eng, st, ev):
        f = short(ev.fn)
        i = ev.args[1]
        r = id_root(i)
        n, d = new_state(eng, st, ev)
        olds = old_variants(eng, st, ev.args[0], i)
        if n == "ongoing":
            return
        net = self.get(st, "net")
        what = None
        if n == "Active":
            x = E.strip(d["access_token"])
            b = ts_base(x.a[0]) if x.op == "fld" and x.a[1] == ACT + "access_token" else None
            if b and id_root(b[1]) is r:
                return        # the same token
            what = "New" if net == "code" else "Refresh" if net else None
            if what is None:
                self.bad(eng, st, ev, "token in %s" % f, "a token is stored that comes neither from a code exchange nor from a refresh")
                return
        elif n in ("Empty", "Pending"):
            if n == "Empty" and eng.cur_root is None and self.verb(eng, st) == "revoke":
                what = "Revoked"
            elif olds == ["Active"]:
                what = "Invalidated"
            elif "Active" in olds:
                what = "Invalidated?"
            else:
                return
        else:
            b = ts_base(ev.args[2])
            if not (b and id_root(b[1]) is r):
                self.bad(eng, st, ev, "state in %s" % f, "cannot tell which token state is stored: %s" % show(ev.args[2], 4))
            return
        self.saw("changes that need an event", where2(ev), what)
        self.put(st, "todo", self.todo(st) | frozenset([(what, r)]))

    def verb(self, eng, st):
        return command(eng, st)

    def event(self, eng, st, ev):
        f = short(ev.stack[-2] if len(ev.stack) > 1 else ev.fn)
        self.saw("events raised", where2(ev))
        name, var = event_of(eng, ev.args[1])
        if var is None:
            self.bad(eng, st, ev, "unknown event in %s" % f, "cannot tell which event is raised: %s" % show(ev.args[1], 4))
            return
        self.saw(var, where2(ev))
        if self.get(st, "list") == "each" and var == "Invalidated" and raw_entry(name) is not None:
            self.put(st, "list", "some")
            return
        for w, r in self.todo(st):
            if w.rstrip("?") == var and self.name_of(name, r):
                self.put(st, "todo", frozenset(x for x in self.todo(st) if x != (w, r)) or None)
                return
        why = "no such change was made (changes without an event so far: %s)" % (", ".join(sorted(w for w, r in self.todo(st))) or "none")
        self.bad(eng, st, ev, "%s in %s" % (var, f), "%s is raised for %s although %s" % (var, show(name, 4), why))

    def name_of(self, name, r):
        a = account_field(name)
        if a is not None:
            return a[1] == "name" and same(id_root(a[0].a[2]), r)
        s = id_src(r)
        return s is not None and s.a[0] == "validate_act_name" and norm(E.strip(s.a[2])) is norm(name)

    def due(self, eng, st, ev):
        for w, r in self.todo(st):
            if not w.endswith("?"):
                self.bad(eng, st, ev, "no %s (%s)" % (w, self.src(r)), "%s is not raised after the change that calls for it" % w)
            else:
                self.bad(eng, st, ev, "maybe no %s (%s)" % (w[:-1], self.src(r)), "a token that may have been active is discarded without an event")
        l = self.get(st, "list")
        if l in ("stored", "each"):
            self.bad(eng, st, ev, "reload", "tokens that a reload discarded are not announced as invalidated")
        if l is not None and self.get(st, "open"):
            self.bad(eng, st, ev, "some of a reload", "not all of the tokens that a reload discarded may be announced as invalidated")
        self.put(st, "todo", None)
        self.put(st, "list", None)
        self.put(st, "open", None)
        self.put(st, "listed", None)

    def src(self, r):
        s = id_src(r)
        return s.a[0] if s is not None else show(r, 3)

    # ---- reload
    def names(self, eng, s):
        """Is s a list of names of accounts that a reload found to have lost their token?"""
        for x in alts(eng, s):
            while x.op in ("it", "old"):
                x = E.strip(x.a[-1] if x.op == "old" else x.a[0])
            if x.op == "seqof" and raw_entry(x.a[1]) is not None:
                return True
            if x.op in ("arr", "op", "phi"):
                for e, s2 in list_alts(eng, x):
                    if any(raw_entry(y) is not None for y in list(e) + list(s2) if type(y) is T):
                        return True
        return False

    def listed(self, eng, st, ev):
        """A list of names of accounts that lose their token."""
        e = raw_entry(ev.args[1])
        if e is None or E.strip(ev.args[1]) is e or E.strip(ev.args[1]).a[1] not in (0, "0"):
            return
        f = short(ev.fn)
        self.saw("tokens discarded by a reload", where2(ev))
        self.put(st, "listed", True)
        if raw_active(eng, st, e) is not True:
            self.bad(eng, st, ev, "listed in %s" % f, "an account may be announced as invalidated although it had no active token")
        if self.kept(eng, st, e) is not False:
            self.bad(eng, st, ev, "listed although kept in %s" % f, "an account may be announced as invalidated although its token is kept")

    def kept(self, eng, st, e):
        """Is the reference of entry e known (not) to be among the new ones? True / False / None"""
        ref = eng.fld(e, "1", 1)

        def theirs(x):
            # the reference of an entry of another list
            x = E.strip(x)
            return x.op == "fld" and x.a[1] in (1, "1") and not is_details(E.strip(x.a[0]).a[0] if E.strip(x.a[0]).op == "ix" else x.a[0])
        for k, v in st.facts.items():
            if v[0] != "=" or k.op != "op" or e not in set(subterms(k)):
                continue
            if k.a[0] == "eq" and ref in k.a[1:3] and any(theirs(x) for x in k.a[1:3]) and v[1] is True:
                return True
            if k.a[0] == "exists" and not is_details(k.a[2]):
                el = mk("ix", k.a[2], mk("sym", "any"))
                rs = closure_results(eng, st, k.a[3], el)
                want = mk("op", "eq", ref, eng.fld(el, "1", 1)), mk("op", "eq", eng.fld(el, "1", 1), ref)
                neg = cval(k.a[1]) == "all"
                ok = bool(rs)
                for r in rs:
                    if neg:
                        r = E.strip(r.a[1]) if r.op == "op" and r.a[0] == "not" else mk("sym", "?")
                    ok = ok and r in want
                if ok:
                    return bool(v[1])
        return None

    def skipped(self, eng, st, ev):
        v = E.strip(ev.args[0])
        e = raw_entry(v)
        if e is None or eng.cur_root is not None or self.verb(eng, st) != "reload":
            return
        self.saw("accounts passed over by a reload", where2(ev))
        if raw_active(eng, st, e) is not False and self.kept(eng, st, e) is not True:
            self.bad(eng, st, ev, "passed over in %s" % short(ev.fn), "a reload may discard an active token without announcing it as invalidated")

    def reload(self, eng, st, ev):
        if self.get(st, "list") is None:
            self.put(st, "list", "stored")




class C15words(Rule):
    """The text of an event is that of its kind."""
    prop = "C15"
    wants = r"TokenEvent as std::fmt::Display>::fmt$"

    def __init__(self):
        super().__init__()
        self.found = {}
        self.keeps = lambda k: k.op == "discr" and is_arg(k.a[0])

    def on(self, eng, st, ev):
        if ev.kind == "return" and re.search(self.wants, ev.name):
            f = st.facts.get(mk("discr", mk("sym", "arg1")))
            v = event_variant(eng, f[1]) if f is not None and f[0] == "=" else None
            if self.get(st, "text") != WORDS.get(v) and not (E.strip(ev.args[0]).op == "agg" and E.strip(ev.args[0]).a[1] == 1):
                self.bad(eng, st, ev, "text of %s" % v, "%s is reported as %s" % (v, self.get(st, "text")))
        if ev.kind != "call" or not re.search(r"::(write_fmt|write_str|write_char|pad)$", ev.name or ""):
            return
        s = text(E.strip(ev.args[1]))
        f = st.facts.get(mk("discr", mk("sym", "arg1")))
        v = event_variant(eng, f[1]) if f is not None and f[0] == "=" else None
        if v is None or s is None:
            return self.bad(eng, st, ev, "text", "an event is converted to a text that does not only depend on its kind: %s" % show(ev.args[1], 4))
        self.saw("texts of events", v)
        old = self.get(st, "text") or ""
        self.put(st, "text", old + s)
        if not WORDS.get(v, "").startswith(old + s):
            self.bad(eng, st, ev, "text of %s" % v, "%s is reported as %s" % (v, old + s))



def is_arg(t):
    t = E.strip(t)
    return t.op == "sym" and str(t.a[0]).startswith("arg")
