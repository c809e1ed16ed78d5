"""C39, C40: what control clients are told is so."""
from rules.common import *
from rules.events import raw_store
from rules.auth import NOW

SIGTERM = re.compile(r"signal::(raise|kill)$|::(raise|kill|abort)$")


def states_of(eng, st, named_only=True):
    """The variants that the state of the account named in the request may have (None if nothing is known)."""
    out = None
    for k, v in st.facts.items():
        if k.op != "discr":
            continue
        b = ts_base(k.a[0])
        if b is None or named_only and named(eng, b[1]) is None:
            continue
        ds = {int(x["d"]): x["n"] for x in eng.p.adts[TS]["v"]}
        s = {ds[v[1]]} if v[0] == "=" else {n for d, n in ds.items() if d not in v[1]}
        out = s if out is None else out & s
    return out


class Served(Rule):
    """Follows one control request at a time."""
    marks = ()

    def on(self, eng, st, ev):
        if ev.kind == "next" and source(ev.args[0])[0] == "incoming" or ev.kind == "call" and nm(ev).endswith("UnixListener::accept"):
            self.over(eng, st, ev)
            for x in self.marks:
                self.put(st, x, None)
        elif ev.kind == "exit":
            self.over(eng, st, ev)
        elif serves_client(eng):
            self.served(eng, st, ev)

    def over(self, eng, st, ev):
        pass

    def starts(self, eng, p, w):
        """Does a reply start with a word for certain?"""
        t = [text(x) for x in alts(eng, p)]
        return bool(t) and all(x is not None and x.startswith(w) for x in t)


class C39(Served):
    prop = "C39"
    marks = ("sched", "pend", "url", "conf", "rest", "term", "verb")

    def __init__(self):
        super().__init__()
        self.need = {"replies `scheduled`": 1, "replies `pending`": 2, "reloads acknowledged": 1, "restores acknowledged": 1, "shutdowns": 1,
                     "errors for accounts that exist": 1, "URLs of new authentications": 2}
        self.keeps = lambda k: request_text(k) or k.op == "discr" and (callee(k.a[0]) == "validate_act_name" and from_client(k) or
                                                                     callee(k.a[0]) == "tokenstate" and from_client(k)) \
            or k.op == "fld" and fname(k).endswith("Active.ongoing_refresh") and from_client(k)

    def served(self, eng, st, ev):
        k = ev.kind
        if k == "spawn":
            if eng.contains(ev.extra, lambda x: named(eng, x) is not None):
                self.put(st, "sched", True)
        elif k == "prim" and ev.name == "tokenstate_replace":
            if new_state(eng, st, ev)[0] == "Pending" and named(eng, ev.args[1]) is not None:
                self.put(st, "pend", True)
                u = new_state(eng, st, ev)[1].get("url")
                self.put(st, "url", E.strip(u) if type(u) is T else None)
        elif k == "store" and raw_store(ev) == ("LockedState.config",):
            new = eng.contains(ev.args[2], lambda x: x.op in ("op", "call") and callee(x).endswith("Config::from_path") and
                               any(fname(y).split("::")[-1].startswith("AuthenticatorState.") for y in subterms(x)))
            self.put(st, "conf", "new" if new else "other")
        elif k == "exhausted" and command(eng, st) == "restore" and any(fname(x).split("::")[-1] in ("Dump.accounts", "LockedState.details", "Config.accounts")
                                                                        for x in subterms(ev.args[0])) and self.opened(st):
            self.put(st, "rest", True)
        elif k == "call" and SIGTERM.search(nm(ev)) and command(eng, st) == "shutdown":
            if any(x.op == "agg" and x.a[0].endswith("Signal") and self.term(eng, x) for y in ev.args for x in subterms(y)):
                self.put(st, "term", True)
                self.saw("shutdowns", where2(ev))
        elif k == "exitproc" and command(eng, st) == "shutdown":
            self.put(st, "term", True)
        if self.get(st, "verb") is None and k in ("call", "acquire", "prim", "enter") and command(eng, st) == "shutdown":
            self.put(st, "verb", "shutdown")
        p = reply(ev)
        if p:
            self.reply(eng, st, ev, p)

    def opened(self, st):
        """Has the dump been decrypted?"""
        return any(k.op == "discr" and v == ("=", 0) and re.search(r"Aead::decrypt", show(k.a[0], 6)) for k, v in st.facts.items())

    def term(self, eng, x):
        vs = eng.p.adts.get(x.a[0])
        return vs is None or vs["v"][x.a[1]]["n"] in ("SIGTERM", "SIGINT", "SIGQUIT", "SIGKILL")

    def reply(self, eng, st, ev, p):
        f = short(ev.fn)
        c = command(eng, st)
        if self.get(st, "verb"):
            self.put(st, "verb", "answered")
        s = states_of(eng, st)
        if self.starts(eng, p[0], "scheduled:"):
            self.saw("replies `scheduled`", where2(ev))
            if not self.get(st, "sched"):
                self.bad(eng, st, ev, "scheduled in %s" % f, "a refresh is reported as scheduled although none was started for the account named")
        elif self.starts(eng, p[0], "pending:"):
            self.saw("replies `pending`", (where2(ev), c))
            if not self.get(st, "pend") and s != {"Pending"}:
                self.bad(eng, st, ev, "pending in %s" % f, "an authentication is reported as pending although none may be for the account named")
            u = self.get(st, "url")
            if len(p) > 1 and u is not None:
                self.saw("URLs of new authentications", where2(ev))
                if not set(alts(eng, p[1])) <= set(alts(eng, u)) | {u}:
                    self.bad(eng, st, ev, "URL in %s" % f, "the URL handed out is not that of the authentication that was just made pending: %s" % show(p[1], 4))
        elif self.starts(eng, p[0], "ok:"):
            if c == "reload":
                self.saw("reloads acknowledged", where2(ev))
                if self.get(st, "conf") != "new":
                    self.bad(eng, st, ev, "reload in %s" % f, "a reload is acknowledged although the configuration was not replaced by what the file now says")
            elif c == "restore":
                self.saw("restores acknowledged", where2(ev))
                if not self.get(st, "rest"):
                    self.bad(eng, st, ev, "restore in %s" % f, "a restore is acknowledged although the accounts of the dump were not restored")
        elif self.starts(eng, p[0], "error:"):
            if c == "reload" and self.get(st, "conf"):
                self.bad(eng, st, ev, "error of reload in %s" % f, "a reload is reported to have failed although the configuration was replaced")
            if c == "restore" and self.get(st, "rest"):
                self.bad(eng, st, ev, "error of restore in %s" % f, "a restore is reported to have failed although it was carried out")
            if c in ("showtoken", "refresh") and self.known(st):
                self.saw("errors for accounts that exist", (where2(ev), tuple(text(x) or "" for x in p)))
                if not self.get(st, "sched") and not self.get(st, "pend") and not self.ongoing(eng, st):
                    self.bad(eng, st, ev, "nothing done in %s" % f, "a client that needs a token is told to wait although nothing was started that could produce one")

    def ongoing(self, eng, st):
        return any(k.op == "fld" and fname(k).endswith("Active.ongoing_refresh") and v == ("=", True) and
                   (ts_base(k.a[0]) or (0, None))[1] is not None and named(eng, ts_base(k.a[0])[1]) is not None for k, v in st.facts.items())

    def known(self, st):
        return any(k.op == "discr" and callee(k.a[0]) == "validate_act_name" and from_client(k) and v == ("=", 1) for k, v in st.facts.items())

    def over(self, eng, st, ev):
        if self.get(st, "verb") == "shutdown" and not self.get(st, "term"):
            self.bad(eng, st, ev, "shutdown", "a request to shut down ends without the server being stopped")


# ------------------------------------------------------------------ status (C40)
TIMES = {"obtained ": "Active.access_token_obtained", "expires ": "Active.access_token_expiry", "last refresh attempt ": "Active.last_refresh_attempt",
         "last notification ": "Pending.last_notification"}


class C40(Served):
    prop = "C40"
    marks = ("line", "n", "all", "list")

    def __init__(self):
        super().__init__()
        self.need = {"lines": 4, "status replies": 1}
        self.checked = {}
        self.keeps = lambda k: request_text(k) or "Active.access_token_expiry" in show(k, 6) and (
            k.op == "op" and k.a[0] == "lt" or k.op == "discr" and callee(k.a[0]).endswith("checked_duration_since"))

    def lines(self, eng, t):
        """The account whose name a text starts with, and the other parts."""
        p = [E.strip(x) for x in M.fmt_parts(t)]
        a = account_field(p[0]) if p else None
        return (a[0], p[1:]) if a is not None and a[1] == "name" else (None, p)

    def served(self, eng, st, ev):
        if command(eng, st) != "status":
            return
        k = ev.kind
        if k in ("next", "elem", "exhausted"):
            s = source(ev.args[0])[1]
            if callee(s) != "act_ids":
                return
            if k == "next":
                if partial(ev.args[0]):
                    self.bad(eng, st, ev, "some in %s" % short(ev.fn), "the status may leave out accounts")
                if self.get(st, "line") and self.get(st, "n") != 1:
                    self.bad(eng, st, ev, "lines in %s" % short(ev.fn), "the status does not have exactly one line for each account")
                self.put(st, "line", True)
                self.put(st, "n", 0)
            elif k == "exhausted":
                self.put(st, "line", None)
                self.put(st, "all", True)
        elif k == "push" and len(ev.args) > 1:
            v = E.strip(ev.args[1])
            if v.op == "phi":
                # what a closure with many paths returns
                ls = [self.lines(eng, y) for y in alts(eng, v)]
                if ls and all(a is not None and a is ls[0][0] for a, rest in ls):
                    self.put(st, "n", min((self.get(st, "n") or 0) + 1, 2))
                    self.joined(eng, st, ev, v, ls)
                return
            a, rest = self.lines(eng, v)
            if a is None:
                return
            self.put(st, "n", min((self.get(st, "n") or 0) + 1, 2))
            self.line(eng, st, ev, a, rest)
        elif k == "return" and ev.args:
            self.judge(eng, st, ev, ev.args[0])
        p = reply(ev)
        if p:
            self.reply(eng, st, ev, p)

    def classes(self, parts):
        """Which states the text of a line speaks of: set of 'Empty', 'Pending', 'valid', 'expired'"""
        t = " ".join(text(x) or "" for x in parts).lower()
        out = set()
        for w, c in (("no access token", "Empty"), ("pending", "Pending"), ("active access token", "valid"), ("expired", "expired")):
            if w in t:
                out.add(c)
        return out

    def facts(self, eng, st, a=None):
        """What is known about the states of accounts: {(guard, id): set of classes}"""
        out = {}
        ds = {int(x["d"]): x["n"] for x in eng.p.adts[TS]["v"]}
        for k, v in st.facts.items():
            if k.op == "discr":
                b = ts_base(k.a[0])
                if b is not None:
                    s = {ds[v[1]]} if v[0] == "=" else {n for d, n in ds.items() if d not in v[1]}
                    s = {y for x in s for y in (("valid", "expired") if x == "Active" else (x,))}
                    out[b] = out.get(b, s) & s
        for b in out:
            # the token may expire between two looks at the clock
            for e in self.unexpired(eng, st, b):
                out[b] = out[b] - {"expired" if e else "valid"}
        return out

    def unexpired(self, eng, st, b):
        out = set()
        for k, v in st.facts.items():
            if k.op == "op" and k.a[0] == "lt" and v[0] == "=":
                for now, exp, want in ((k.a[1], k.a[2], True), (k.a[2], k.a[1], False)):
                    now, exp = E.strip(now), E.strip(exp)
                    if NOW.search(callee(now)) and exp.op == "fld" and fname(exp).endswith("Active.access_token_expiry") and ts_base(exp.a[0]) == b:
                        out.add(v[1] is want)
            z = k.a[0] if k.op == "discr" else k
            if callee(z).endswith("checked_duration_since") and v[0] == "=":
                a = [E.strip(q) for q in cargs(z)]
                if len(a) == 2 and NOW.search(callee(a[1])) and fname(a[0]).endswith("Active.access_token_expiry") and ts_base(a[0].a[0]) == b:
                    out.add(bool(v[1]))
        return out

    def problem(self, eng, st, parts, b=None):
        """What is wrong with the parts of a line: None (nothing), a text, or '?' if that cannot be told here."""
        cl = self.classes(parts)
        if not cl:
            return "?"
        fs = self.facts(eng, st)
        if b is None:
            if len(fs) != 1:
                return "?"
            b = list(fs)[0]
        if b not in fs:
            return "?"
        if not fs[b] <= cl:
            return "the status may report a state (%s) that is not the account's (%s)" % ("/".join(sorted(cl)), "/".join(sorted(fs[b])))
        for i, x in enumerate(parts[:-1]):
            for w, fld in TIMES.items():
                if (text(x) or "").endswith(w):
                    z = {y for y in subterms(parts[i + 1]) if y.op == "fld" and fname(y).split("::")[-1] in TIMES.values()}
                    if any(fname(y).split("::")[-1] != fld or ts_base(y.a[0]) != b for y in z):
                        return "the status reports another time as `%s`" % w.strip()
        return None

    def judge(self, eng, st, ev, v):
        v = E.strip(v)
        p = [E.strip(x) for x in M.fmt_parts(v)]
        if self.classes(p):
            self.checked.setdefault(v, set()).add(self.problem(eng, st, p))

    def joined(self, eng, st, ev, v, ls):
        """A line that was put together on several paths (and judged at the end of each)."""
        r = {x for y in alts(eng, v) for x in self.checked.get(E.strip(y), {"?"})} - {None}
        for a, rest in ls:
            for c in self.classes(rest):
                self.saw("lines", c)
        if r:
            self.bad(eng, st, ev, "state in %s" % short(ev.fn), sorted(r)[-1] if r != {"?"} else "cannot tell which state the status reports")

    def line(self, eng, st, ev, a, rest):
        f = short(ev.fn)
        b = (a.a[1], id_root(a.a[2]))
        r = self.problem(eng, st, rest, b)
        cl = self.classes(rest)
        if r == "?" or r and any(x.op == "phi" for x in rest):
            w = set()
            for x in rest:
                for y in alts(eng, x):
                    w |= self.checked.get(E.strip(y), {"?"} if x.op == "phi" else set())
                    cl |= self.classes([E.strip(z) for z in M.fmt_parts(y)])
            r = next((x for x in sorted(w, key=str) if x), None) if w else "?"
        for c in cl:
            self.saw("lines", c)
        if r:
            self.bad(eng, st, ev, "state in %s" % f, r if r != "?" else "cannot tell which state the status reports: %s" % ", ".join(show(x, 3) for x in rest))

    def deep(self, eng, x):
        seen, work = set(), [x]
        while work:
            for z in subterms(work.pop()):
                if z not in seen:
                    seen.add(z)
                    if z.op == "phi":
                        work += [q for q in eng.phi_in.get(z, ()) if q not in seen]
        return seen

    def reply(self, eng, st, ev, p):
        f = short(ev.fn)
        if not self.starts(eng, p[0], "ok:"):
            return
        self.saw("status replies", where2(ev))
        al = set().union(*[self.deep(eng, x) for x in p])
        for x in al:
            # a list made of all accounts at once
            if x.op == "op" and x.a[0] == "seqof" and len(x.a) > 3 and any(callee(E.strip(y)) == "act_ids" for y in subterms(x.a[1])):
                a, rest = self.lines(eng, x.a[2])
                if a is not None:
                    self.line(eng, st, ev, a, rest)
                    self.put(st, "all", True)
                    if x.a[3].a if type(x.a[3]) is T else x.a[3]:
                        self.bad(eng, st, ev, "some in %s" % f, "the status may leave out accounts")
            if x.op in ("op", "call", "out") and CUTS.search(callee(x)) and self.made_of_lines(eng, x):
                self.bad(eng, st, ev, "%s in %s" % (callee(x).split("::")[-1], f), "the status may leave out accounts")
        if not self.get(st, "all"):
            self.bad(eng, st, ev, "not all in %s" % f, "the status may leave out accounts")

    def made_of_lines(self, eng, x):
        """Is x an operation on the list of lines (and not on something within a line)?"""
        r = E.strip(cargs(x)[0]) if cargs(x) else None
        n = 0
        while r is not None and n < 12:
            n += 1
            if r.op == "phi":
                return any(y.op in ("op", "out", "arr") and (y.op != "op" or y.a[0] == "push") for y in eng.phi_in.get(r, ()) if type(y) is T)
            if r.op == "arr" or r.op == "op" and r.a[0] in ("seqof", "push", "emptyvec"):
                return True
            if r.op == "it":
                r = E.strip(r.a[0])
            elif r.op in ("op", "call", "out") and cargs(r):
                r = E.strip(cargs(r)[0])
            else:
                return False
        return False


CUTS = re.compile(r"::(truncate|retain|retain_mut|dedup|dedup_by|dedup_by_key|last|first|get|pop|remove|swap_remove|drain|split_off|split_first|split_last|"
                  r"take|skip|filter|step_by|clear|take_while|skip_while|nth|max|min)$")
