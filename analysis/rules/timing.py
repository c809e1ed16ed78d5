"""C26: when tokens are refreshed."""
from rules.common import *
from rules.refresh import ACT, act_field
from rules.http import NETREQ

# what the manual documents as the values of settings that are left out everywhere
DEFAULT = {"refresh_at_least": (90 * 60, 0), "refresh_before_expiry": (90, 0), "refresh_retry": (40, 0)}
INSTANTS = {"Active." + x for x in ("access_token_expiry", "access_token_obtained", "last_refresh_attempt")}


def discr(st, t):
    t = E.strip(t)
    if t.op == "agg":
        return t.a[1]
    for k in (mk("discr", t), mk("op", "discr", t)):
        f = st.facts.get(k)
        if f is not None:
            return f[1] if f[0] == "=" else 1 - min(f[1]) if len(f[1]) == 1 else None
    return None


def inside(t):
    """What an Option holds."""
    return mk("fld", t, "std::option::Option::Some.0")


class C26(Rule):
    prop = "C26"

    def __init__(self):
        super().__init__()
        self.need = {"times at which a refresh is due": 3, "values of settings": 6, "automatic refreshes": 1, "accounts found to be due": 1,
                     "refresh requests": 1}
        self.verdict = {}        # (function, instant that it returns) -> what is wrong with it
        self.keeps = self.timed

    def timed(self, k):
        return k.op == "op" and k.a[0] == "lt" and "Instant::now" in callee(E.strip(k.a[1])) + callee(E.strip(k.a[2])) or \
            k.op == "discr" and callee(E.strip(k.a[0])).endswith("checked_duration_since")

    # -- what an instant is
    def base(self, t):
        """The token state whose instants t is computed from."""
        b = {x.a[0] for x in subterms(t) if x.op == "fld" and fname(x) in INSTANTS}
        return b.pop() if len(b) == 1 else None

    def parts(self, t):
        """The instants of which t is the earliest."""
        t = E.strip(t)
        if callee(t).split("::")[-1] == "min" and len(cargs(t)) == 2:
            a, b = cargs(t)
            return self.parts(a) + self.parts(b)
        return [t]

    def field(self, t, b):
        for x in INSTANTS:
            if is_fld(t, x) and t.a[0] is b:
                return x[len("Active."):]
        return None

    def sum(self, t, b):
        """(field, setting value, 'add'/'sub') of a checked sum or difference (its Option)."""
        t = E.strip(t)
        c = callee(t).split("::")[-1]
        if c not in ("checked_add", "checked_sub"):
            return None
        a, d = [E.strip(x) for x in cargs(t)]
        if is_fld(a, "Some.0"):
            a = E.strip(a.a[0])
            if self.field(a, b) != "last_refresh_attempt":
                return None
        f = self.field(a, b)
        return (f, d, c[8:]) if f else None

    RULES = {("access_token_expiry", "sub"): "refresh_before_expiry", ("access_token_obtained", "add"): "refresh_at_least",
             ("last_refresh_attempt", "add"): "refresh_retry"}

    def option(self, st, t, b):
        """(setting, problem) of an Option of an instant relative to token state b."""
        s = self.sum(t, b)
        if s is None:
            return None, None
        k = self.RULES.get((s[0], s[2]))
        if k is None:
            return None, None
        return k, self.setting(st, s[1], k, b)

    def setting(self, st, d, k, b):
        """What is wrong with value d of setting k (None if it is right)."""
        if d.op == "phi":
            return "cannot tell which value of %s is used" % k
        y = some_of(d)
        y = E.strip(y) if y is not None else None
        own = glob = None
        g, i = ts_base(b) or (None, None)
        for f in st.facts:
            x = E.strip(f.a[0]) if f.op == "discr" else None
            if x is not None and is_fld(x, "Account." + k) and account_field(x) and id_root(account_field(x)[0].a[2]) is id_root(i):
                own = discr(st, x)
            elif x is not None and is_fld(x, "Config." + k):
                glob = discr(st, x)
        if y is not None and is_fld(y, "Account." + k):
            a = account_field(y)
            if a is None or id_root(a[0].a[2]) is not id_root(i):
                return "%s is that of another account" % k
            self.saw("values of settings", k + " account")
            return None
        if y is not None and is_fld(y, "Config." + k):
            self.saw("values of settings", k + " global")
            return None if own == 0 else "the global value of %s is used although the account may have its own" % k
        if d.op == "c" and d.a[0][0] == "dur":
            self.saw("values of settings", k + " default")
            if tuple(d.a[0][1]) != DEFAULT[k]:
                return "the default of %s is not the documented one" % k
            return None if own == 0 and glob == 0 else "the default of %s is used although it may be set" % k
        return "cannot tell which value of %s is used: %s" % (k, show(d, 4))

    def judge(self, eng, st, t):
        """What is wrong with instant t as the time at which a token should be refreshed (None if nothing is)."""
        b = self.base(t)
        if b is None:
            return "it depends on several tokens"
        lra = act_field(eng, b, "last_refresh_attempt")
        kinds = set()
        failed = set()        # sums that are out of range
        for f in st.facts:
            if f.op == "discr" and discr(st, f.a[0]) == 0:
                k, bad = self.option(st, f.a[0], b)
                if k is not None and bad is None:
                    failed.add(k)
        other = []
        for p in self.parts(t):
            y = some_of(p)
            k, bad = self.option(st, y, b) if y is not None else (None, None)
            if bad:
                return bad
            if k:
                kinds.add(k)
            elif self.field(p, b) == "access_token_expiry" or callee(p).endswith("Instant::now"):
                other.append(p)
            else:
                return "it is %s" % show(p, 4)
        if other:
            if "refresh_before_expiry" not in failed:
                return "refresh_before_expiry may be ignored"
            kinds.add("refresh_before_expiry")
        # comparisons instead of minima
        for f, v in st.facts.items():
            if f.op == "op" and f.a[0] == "lt" and v[0] == "=":
                lo, hi = (f.a[1], f.a[2]) if v[1] else (f.a[2], f.a[1])
                if E.strip(lo) is E.strip(t):
                    for p in self.parts(hi):
                        y = some_of(p)
                        k, bad = self.option(st, y, b) if y is not None else (None, None)
                        if k and not bad:
                            kinds.add(k)
        tried = discr(st, lra)
        if "refresh_retry" in kinds:
            if tried != 1:
                return "there may have been no attempt to refresh it"
            if kinds != {"refresh_retry"}:
                return "it is not (only) the time of the last attempt plus refresh_retry"
        else:
            if tried != 0:
                return "there may have been an attempt to refresh it"
            for k in ("refresh_before_expiry", "refresh_at_least"):
                if k not in kinds | failed:
                    return "%s may be ignored" % k
        self.saw("times at which a refresh is due", "%s; out of range: %s" % (sorted(kinds), sorted(failed)))
        return None

    # -- events
    def on(self, eng, st, ev):
        if ev.kind == "return" and ev.args:
            v = E.strip(ev.args[0])
            if v.op == "agg" and v.a[0] == "std::option::Option":
                v = E.strip(v.a[2][0]) if v.a[1] == 1 else None
            elif callee(v).split("::")[-1] in ("checked_add", "checked_sub"):
                v = inside(v)
            if v is not None and v.op != "phi" and self.combined(v):
                k = (ev.name, v)
                self.verdict[k] = self.verdict.get(k) or self.judge(eng, st, v)
        elif ev.kind == "elem" and ev.name == "next":
            i = E.strip(ev.args[1])
            if id_src(i) is not None:
                b = ev.args[0]
                b = E.strip(b.a[0]) if b.op == "it" else b
                self.put(st, "direct", True if b.op == "op" and b.a[0] == "act_ids" else None)
        elif ev.kind == "push" and eng.cur_root is not None and not serves_client(eng):
            i = E.strip(ev.args[1]) if len(ev.args) > 1 else None
            if i is not None and id_src(i) is not None and self.automatic(eng):
                w = self.due(eng, st, ev, i)
                if w:
                    self.put(st, "undue", w)
        elif ev.kind == "spawn" and eng.cur_root is not None and not serves_client(eng):
            clo = E.strip(ev.args[0])
            if clo.op == "clo" and any(NETREQ.search(M.simp(x)) for x in reach(eng.p, clo.a[0])) and not tcp_term(eng, clo):
                self.saw("automatic refreshes", where2(ev))
                ids = self.ids(clo)
                w = self.get(st, "undue")
                if not ids:
                    w = "cannot tell which account is refreshed"
                elif self.get(st, "direct") or w:
                    w = self.due(eng, st, ev, ids[0])
                if w:
                    self.bad(eng, st, ev, "not due in %s" % short(ev.fn), "an account is refreshed automatically although it may not be due: %s" % w)
        elif ev.kind == "prim" and ev.name in CHANGES:
            self.attempt(eng, st, ev)
        elif ev.kind == "call" and NETREQ.search(nm(ev)) and not in_tcp(eng, st):
            from rules.refresh import is_refresh
            i = is_refresh(eng, ev)
            self.saw("refresh requests", where2(ev))
            if i is None or self.get(st, "attempt") is not id_root(i):
                self.bad(eng, st, ev, "unrecorded attempt in %s" % short(ev.fn), "a refresh is attempted without recording the time of the attempt")
        elif ev.kind == "release" and lock_is_global(ev.args[0]):
            pass

    def combined(self, v):
        """Is v computed from the instants of a token (rather than just one of them)?"""
        return any(callee(x).split("::")[-1] in ("checked_add", "checked_sub", "min") for x in subterms(v) if x.op in ("op", "call")) and \
            any(is_fld(x, y) for x in subterms(v) for y in INSTANTS)

    def automatic(self, eng):
        return any(NETREQ.search(M.simp(x)) for x in reach(eng.p, eng.cur_root.a[0]))

    def due(self, eng, st, ev, i):
        """Account i is going to be refreshed: why may it not be due (None if it is)?"""
        self.saw("accounts found to be due", where2(ev))
        why = "it is not compared with the current time"
        for f, v in st.facts.items():
            t = None
            if f.op == "op" and f.a[0] == "lt":
                if v == ("=", False) and callee(E.strip(f.a[1])).endswith("Instant::now"):
                    t = f.a[2]
                elif v == ("=", True) and callee(E.strip(f.a[2])).endswith("Instant::now"):
                    t = f.a[1]
            elif f.op == "discr" and callee(E.strip(f.a[0])).endswith("Instant::checked_duration_since"):
                a, b = [E.strip(x) for x in cargs(E.strip(f.a[0]))]
                if v == ("=", 1) and callee(a).endswith("Instant::now"):
                    t = b
                elif v == ("=", 0) and callee(b).endswith("Instant::now"):
                    t = a
            if t is not None:
                why = self.legit(eng, st, E.strip(t), i)
                if why is None:
                    return None
        return why

    def legit(self, eng, st, t, i, fns=(), n=0):
        """What is wrong with t as the time at which account i should be refreshed."""
        if t.op == "phi" and n < 8:
            al = [E.strip(x) for x in eng.phi_in.get(t, ()) if x.op != "old"]
            return next((w for w in [self.legit(eng, st, x, i, fns + (t.a[0],), n + 1) for x in al] if w), None)
        if n and callee(t).split("::")[-1] in ("checked_add", "checked_sub"):
            t = inside(t)
        if t.op == "fld" and fname(t) == "Some.0" and E.strip(t.a[0]).op == "phi":
            return self.legit(eng, st, E.strip(t.a[0]), i, fns, n + 1)
        if t.op == "agg" and t.a[0] == "std::option::Option":
            return self.legit(eng, st, E.strip(t.a[2][0]), i, fns, n + 1) if t.a[1] == 1 else None
        b = self.base(t)
        tb = ts_base(b) if b is not None else None
        if tb is None or id_root(tb[1]) is not id_root(i):
            return "the time compared with is not that of the account: %s" % show(t, 3)
        for k in fns:
            for f in {x for x, v in self.verdict if v is t}:
                if f in str(k):
                    return self.verdict[(f, t)]
        return self.judge(eng, st, t)

    def ids(self, clo):
        out = []
        for x in clo.a[1:]:
            for y in (x if type(x) is tuple else [x]):
                if type(y) is T and id_src(y) is not None:
                    out.append(y)
        return out

    def attempt(self, eng, st, ev):
        n, d = new_state(eng, st, ev)
        if n != "Active":
            return
        i = ev.args[1]
        l = E.strip(d["last_refresh_attempt"])
        old = ts_base(ev.args[2])
        tok = E.strip(d["access_token"])
        kept = is_fld(tok, "Active.access_token") and old is not None
        if l.op == "agg" and l.a[1] == 1 and callee(E.strip(l.a[2][0])).endswith("Instant::now"):
            self.put(st, "attempt", id_root(i))
            self.saw("attempts recorded", where2(ev))
            if not kept:
                self.bad(eng, st, ev, "attempt in %s" % short(ev.fn), "a new token is stored as if it had been attempted to refresh it")
        elif l.op == "agg" and l.a[1] == 0:
            if kept:
                self.bad(eng, st, ev, "attempt forgotten in %s" % short(ev.fn), "the time of the last attempt to refresh a token is forgotten")
        elif not (is_fld(l, "Active.last_refresh_attempt") and kept and id_root(old[1]) is id_root(i)):
            self.bad(eng, st, ev, "attempt in %s" % short(ev.fn), "the time of the last attempt to refresh a token is set to something else: %s" % show(l, 4))

