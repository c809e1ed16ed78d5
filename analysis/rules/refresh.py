"""Refreshing: C03 (stale results), C12 (one refresh at a time, always ends), C13 (transient failures)."""
from rules.common import *

SLOW_OPS = ("network", "child", "sleep")
NEEDS_ID = ("account", "tokenstate") + MUTATIONS
ACT = TS + "::Active."


def act_field(eng, t, f):
    v = [v for v in eng.p.adts[TS]["v"] if v["n"] == "Active"][0]
    j = [x[0] for x in v["f"]].index(f)
    return eng.fld(t, ACT + f, j)


def bool_of(st, t):
    """Truth value of a term on this path (None if unknown)."""
    t = E.strip(t)
    c = cval(t)
    if c is not None:
        return bool(c)
    neg = False
    while t.op == "op" and t.a[0] == "not":
        t = E.strip(t.a[1])
        neg = not neg
    f = st.facts.get(t)
    if f is None:
        return None
    v = f[1] if f[0] == "=" else (True if 0 in f[1] or False in f[1] else None)
    return None if v is None else bool(v) != neg


class C03(Rule):
    prop = "C03"

    def __init__(self):
        super().__init__()
        self.need = {"uses of an account id": 10, "changes of a token state": 6, "changes after a slow operation": 3}

    def on(self, eng, st, ev):
        if ev.kind == "call":
            k = blocking(eng, ev)
            if k in SLOW_OPS:
                self.put(st, "slow", frozenset())
        elif ev.kind == "next" and source(ev.args[0])[0] in ("incoming", "act_ids", "iter"):
            if source(ev.args[0])[0] == "incoming":
                self.put(st, "slow", None)
        elif ev.kind == "prim":
            g = ev.args[0]
            f = short(ev.fn)
            if ev.name in ("validate_act_name", AID, "act_ids"):
                s = self.get(st, "slow")
                if s is not None:
                    self.put(st, "slow", s | frozenset([g]))
            elif ev.name in NEEDS_ID:
                self.saw("uses of an account id", where2(ev))
                i = ev.args[1]
                if not self.held(st, g):
                    self.bad(eng, st, ev, "%s without lock in %s" % (ev.name, f), "%s without holding the lock" % ev.name)
                elif not M.id_ok(eng, st, g, i):
                    self.bad(eng, st, ev, "%s in %s" % (ev.name, f), "%s is applied to an account id that may be stale (it was not checked "
                             "since the lock was acquired, or the account changed since)" % ev.name)
                if ev.name in MUTATIONS:
                    self.change(eng, st, ev, f, i)

    def held(self, st, g):
        return any(x is g for x in st.held)

    def change(self, eng, st, ev, f, i):
        self.saw("changes of a token state", where2(ev))
        s = self.get(st, "slow")
        if s is not None:
            self.saw("changes after a slow operation", where2(ev))
            r = id_src(i)
            if r is None:
                self.bad(eng, st, ev, "unknown id in %s" % f, "cannot tell where the id of the changed account comes from: %s" % show(i, 4))
            elif any(r.a[1] is g for g in s):
                self.bad(eng, st, ev, "%s of a looked up account in %s" % (ev.name, f), "the result of a slow operation is applied to "
                         "an account that was only looked up afterwards, so it may have changed meanwhile")
        if ev.name != "tokenstate_replace":
            return
        root = id_root(i)
        for x in subterms(ev.args[2]):
            if x.op == "op" and x.a[0] == "tokenstate" and id_root(x.a[2]) is not root and not same(id_root(x.a[2]), root):
                self.bad(eng, st, ev, "state of another account in %s" % f, "the new token state is made from that of another account")


SPINE = re.compile(r"(::into_(string|json|reader)|serde_json::from_str|ErrorKind|Transport::kind|Error::kind|wait_timeout|wait|status|success|code|"
                   r"Command::(spawn|status|output)|rem_euclid|env::var|var_os)$")


def spine(t):
    """The call from which a value was taken."""
    n = 0
    while n < 30:
        n += 1
        t = E.strip(t)
        if t.op in ("fld", "discr"):
            t = t.a[0]
        elif t.op in ("op", "call"):
            c = callee(t)
            if NETREQ.search(c):
                return t
            if t.op == "op" and t.a[0] in ("eq", "lt", "not") or SPINE.search(c):
                t = t.a[1] if t.op == "op" else (t.a[2][0] if t.a[2] else t)
                if type(t) is not T:
                    return None
            else:
                return t
        else:
            return None
    return None


def outcome_fact(k):
    """A fact about the outcome of a network request."""
    if k.op not in ("discr", "op", "call"):
        return False
    if k.op == "op" and k.a[0] == "eq":
        s = [spine(x) for x in k.a[1:3]]
    else:
        s = [spine(k)]
    return any(x is not None and x.op in ("op", "call") and NETREQ.search(callee(x)) is not None for x in s)


CMDCALL = re.compile(r"(env::var(_os)?|Command::(spawn|status|output)|Child::(wait|try_wait|wait_with_output)|ChildExt::wait_timeout(_ms)?|"
                     r"ExitStatus::success)$")


def cmd_fact(k):
    """A fact about the outcome of a command."""
    x = k
    if k.op == "discr":
        x = k.a[0]
        if some_of(x) is not None:
            x = some_of(x)
    return x.op in ("op", "call") and CMDCALL.search(callee(x)) is not None


TRANSIENT = {"ConnectionFailed", "Dns", "Io"}


class Outcome:
    """What is known on a path about the outcome of a request."""

    def __init__(self, eng, st, send):
        self.send = send
        self.res = self.err = self.body = self.parse = None
        self.kinds = set()
        self.notkinds = set()
        for k, v in st.facts.items():
            if k.op == "discr":
                x = k.a[0]
                if x is send:
                    self.res = v[1] if v[0] == "=" else 1 if 0 in v[1] else 0
                elif x.op == "fld" and x.a[0] is send and x.a[1].endswith("Err.0"):
                    self.err = v[1] if v[0] == "=" else None
                    if v[0] == "!":
                        self.err = 1 if 0 in v[1] else 0
                elif callee(x).split("::")[-1] in ("into_string", "into_json") and some_of(E.strip(cargs(x)[0])) is send:
                    self.body = v[1] if v[0] == "=" else 1 if 0 in v[1] else 0
                elif callee(x).endswith("::kind") and spine(x) is send:
                    names = {int(y["d"]): y["n"] for y in self.kindadt(eng)}
                    if v[0] == "=":
                        self.kinds.add(names.get(int(v[1]), "?"))
                    else:
                        self.notkinds |= set(names.get(int(y), "?") for y in v[1])
            elif k.op == "op" and k.a[0] == "eq":
                for a, b in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                    a, b = E.strip(a), E.strip(b)
                    if callee(a).endswith("::kind") and spine(a) is send and b.op == "agg":
                        n = eng.p.adts[b.a[0]]["v"][b.a[1]]["n"] if b.a[0] in eng.p.adts else str(b.a[1])
                        if v == ("=", True):
                            self.kinds.add(n)
                        elif v == ("=", False):
                            self.notkinds.add(n)

    def kindadt(self, eng):
        return eng.p.adts.get("ureq::ErrorKind", {}).get("v", [])

    def transient(self):
        """True / False / None (not known)"""
        if self.res is None:
            return None
        if self.res == 0:
            return None if self.body is None else self.body == 1
        if self.err is None:
            return None
        if self.err == 0:
            return False
        if self.kinds:
            return bool(self.kinds & TRANSIENT)
        if self.notkinds >= TRANSIENT:
            return False
        return None


def is_refresh(eng, ev):
    """Is this call event the sending of a refresh request? -> account id"""
    if ev.kind != "call" or not NETREQ.search(nm(ev)):
        return None
    from rules.http import request_parts
    r = request_parts(ev.args[0])
    a = account_field(r["url"]) if r else None
    return a[0].a[2] if a else None


class C12(Ids, Rule):
    prop = "C12"

    def __init__(self):
        super().__init__()
        self.need = {"refreshes marked as in progress": 1, "refresh requests": 1, "refreshes that end": 3}

    def on(self, eng, st, ev):
        self.step(eng, st, ev)
        self.follow(st, ev, self.get(st, "mark"))

    def step(self, eng, st, ev):
        if ev.kind == "prim" and ev.name in CHANGES:
            f = short(ev.fn)
            i = ev.args[1]
            n, d = new_state(eng, st, ev)
            if ev.name == "tokenstate_set_ongoing_refresh" or n == "Active":
                og = E.strip(d["ongoing_refresh"])
                b = bool_of(st, og)
            else:
                og = None
                b = False
            old = M.tokenstate_of(eng, st, ev.args[0], i)
            was = bool_of(st, act_field(eng, old, "ongoing_refresh"))
            if n is None:
                bs = ts_base(ev.args[2])
                if not (bs and id_root(bs[1]) is id_root(i)):
                    self.bad(eng, st, ev, "unknown state in %s" % f, "cannot tell whether the stored state has a refresh in progress")
                return
            mine = self.get(st, "mark")
            if b is False:
                if mine is id_root(i):
                    self.saw("refreshes that end", where2(ev))
                    self.put(st, "mark", None)
            elif b is True:
                if og is not None and cval(og) is not None and was is not True:
                    # marked here
                    self.saw("refreshes marked as in progress", where2(ev))
                    if was is not False:
                        self.bad(eng, st, ev, "mark in %s" % f, "a refresh is marked as in progress although another one may be in progress")
                    self.put(st, "mark", id_root(i))
                elif was is True and mine is not id_root(i):
                    self.bad(eng, st, ev, "second refresh in %s" % f, "a refresh is marked as in progress while another one is in progress")
            else:
                x = og
                copied = x.op == "fld" and x.a[1] == ACT + "ongoing_refresh" and (ts_base(x.a[0]) or (0, 0))[1] and \
                    id_root(ts_base(x.a[0])[1]) is id_root(i)
                if not copied:
                    self.bad(eng, st, ev, "unknown mark in %s" % f, "cannot tell whether a refresh is marked as in progress: %s" % show(og, 4))
        elif ev.kind == "release" and lock_is_global(ev.args[0]):
            m = self.get(st, "mark")
            if m is not None and self.gone(st, m):
                self.put(st, "mark", None)
        elif ev.kind == "call" and NETREQ.search(nm(ev)) and not in_tcp(eng, st):
            self.saw("refresh requests", where2(ev))
            i = is_refresh(eng, ev)
            if i is None or self.get(st, "mark") is not i:
                self.bad(eng, st, ev, "request in %s" % short(ev.fn), "a refresh request is sent although that refresh was not marked as "
                         "in progress beforehand")
        elif ev.kind in ("exit", "panic", "exitproc"):
            if self.get(st, "mark") is not None:
                self.bad(eng, st, ev, "left marked (%s)" % (ev.kind if ev.kind != "panic" else "panic in %s" % short(ev.fn)),
                         "a refresh ends while it is still marked as in progress, so that no other refresh of the account will start")


class C13(Ids, Rule):
    prop = "C13"

    def __init__(self):
        super().__init__()
        self.keeps = lambda k: outcome_fact(k) or cmd_fact(k)
        self.need = {"refresh requests": 1, "tokens kept": 2, "tokens discarded": 2, "commands run after failures": 1}

    def on(self, eng, st, ev):
        self.step(eng, st, ev)
        s = self.get(st, "send")
        self.follow(st, ev, s[1] if s else None)

    def step(self, eng, st, ev):
        if ev.kind == "call":
            n = nm(ev)
            if NETREQ.search(n) and not in_tcp(eng, st):
                i = is_refresh(eng, ev)
                if i is not None:
                    self.saw("refresh requests", where2(ev))
                    self.put(st, "send", (ev.ret, i))
                    self.put(st, "st", "sent")
                return
        s = self.get(st, "send")
        if s is None:
            return
        send, acc = s
        if ev.kind == "call":
            n = nm(ev)
            if n.endswith("Command::new"):
                self.command(eng, st, ev, send)
                self.put(st, "waited", None)
            elif re.search(r"ChildExt::wait_timeout(_ms)?$|Child.*::wait_timeout(_ms)?$", n):
                d = E.strip(ev.args[1])
                if seconds(d) != 180 and not (n.endswith("_ms") and cval(d) == 180000):
                    self.bad(eng, st, ev, "timeout in %s" % short(ev.fn), "the transient-error command's timeout is not the documented 3 minutes: %s" % show(d, 4))
                self.put(st, "waited", True)
            elif re.search(r"Child::(kill|try_wait)$", n):
                self.put(st, "waited", True)
            elif re.search(r"Command::(status|output)$", n) or re.search(r"Child::(wait|wait_with_output)$", n) and not self.get(st, "waited"):
                self.bad(eng, st, ev, "no timeout in %s" % short(ev.fn), "the transient-error command is waited for without a timeout")
        if ev.kind == "release":
            if self.gone(st, acc):
                self.put(st, "st", "gone")
        if ev.kind == "prim" and ev.name in CHANGES and id_root(ev.args[1]) is acc:
            f = short(ev.fn)
            o = Outcome(eng, st, send)
            t = o.transient()
            n, d = new_state(eng, st, ev)
            stt = self.get(st, "st")
            if n == "Active" and E.strip(d["access_token"]).op and self.new_token(eng, d, acc):
                if t is not False and not (o.res == 0 and o.body in (0, None)):
                    self.bad(eng, st, ev, "success in %s" % f, "a token is stored although the refresh failed")
                for k, want in (("consecutive_refresh_fails", 0), ("last_refresh_attempt", None)):
                    x = E.strip(d[k])
                    if want == 0 and cval(x) != 0 or want is None and not (x.op == "agg" and x.a[1] == 0):
                        self.bad(eng, st, ev, "%s after success in %s" % (k, f), "%s is not reset after a successful refresh" % k)
                self.put(st, "st", "over")
            elif n == "Active":
                # a failure is recorded
                if t is not True:
                    self.bad(eng, st, ev, "kept after other failure in %s" % f, "the token is kept although the failure may not be a "
                             "transient one (%s)" % self.describe(o))
                self.saw("failures counted", where2(ev))
                self.counted(eng, st, ev, f, d, acc)
                self.put(st, "st", "counted")
            elif n == "ongoing":
                if t is not True:
                    self.bad(eng, st, ev, "kept after other failure in %s" % f, "the token is kept although the failure may not be a "
                             "transient one (%s)" % self.describe(o))
                if stt not in ("counted", "cmd"):
                    self.bad(eng, st, ev, "not counted in %s" % f, "a transient failure is not counted")
                self.saw("tokens kept", where2(ev))
                due = self.due(eng, st)
                if stt == "counted" and due:
                    self.bad(eng, st, ev, "command not run in %s" % f, "after six consecutive transient failures the configured command "
                             "may not be run")
                if stt == "cmd" and not self.cmd_ok(st):
                    self.bad(eng, st, ev, "kept after command failed in %s" % f, "the token is kept although the transient-error command "
                             "may have failed")
                self.put(st, "st", "over")
            elif n == "Empty":
                self.saw("tokens discarded", where2(ev))
                if t is not False and not (o.res == 0 and o.body == 0):
                    # only after the command failed
                    if not self.get(st, "wantcmd"):
                        self.bad(eng, st, ev, "discarded in %s" % f, "the token is discarded although the failure may be a transient "
                                 "one (%s)" % self.describe(o))
                    elif self.cmd_ok(st) is not False:
                        self.bad(eng, st, ev, "discarded after command in %s" % f, "the token is discarded although the transient-error "
                                 "command may have succeeded")
                self.put(st, "st", "over")
            else:
                self.bad(eng, st, ev, "state %s in %s" % (n, f), "after a refresh the account is left in state %s" % n)
        elif ev.kind == "call" and re.search(r"env::var(_os)?$", nm(ev)) and self.get(st, "st") == "counted":
            self.put(st, "st", "cmd")
            self.put(st, "wantcmd", True)
            if not self.due(eng, st):
                self.bad(eng, st, ev, "command run early in %s" % short(ev.fn), "the transient-error command is run although the number of "
                         "consecutive failures is not a multiple of six")
        elif ev.kind == "exit":
            stt = self.get(st, "st")
            if stt not in ("over", "gone"):
                o = Outcome(eng, st, send)
                self.bad(eng, st, ev, "ends %s (%s)" % (stt, self.describe(o)), "a refresh ends without its outcome being recorded (%s)" % self.describe(o))

    def new_token(self, eng, d, acc):
        v = E.strip(d["access_token"])
        b = ts_base(v.a[0]) if v.op == "fld" and v.a[1] == ACT + "access_token" else None
        return not (b and id_root(b[1]) is acc)

    def describe(self, o):
        if o.res is None:
            return "outcome not looked at"
        if o.res == 0:
            return "response received" if o.body == 0 else "response unreadable" if o.body == 1 else "response not read"
        if o.err == 0:
            return "HTTP error status"
        return "error " + ("/".join(sorted(o.kinds)) if o.kinds else "other than %s" % "/".join(sorted(o.notkinds)) if o.notkinds else "of any kind")

    def counted(self, eng, st, ev, f, d, acc):
        x = E.strip(d["consecutive_refresh_fails"])
        ok = x.op == "op" and x.a[0] == "Add" and any(cval(y) == 1 for y in x.a[1:]) and \
            any(y.op == "fld" and y.a[1] == ACT + "consecutive_refresh_fails" for y in map(E.strip, x.a[1:]))
        if not ok:
            self.bad(eng, st, ev, "count in %s" % f, "the number of consecutive failures is not increased by one: %s" % show(x, 4))
        l = E.strip(d["last_refresh_attempt"])
        if not (l.op == "agg" and l.a[1] == 1 and NOW.search(callee(E.strip(l.a[2][0])))):
            # it may have been set before the request was sent
            self.bad(eng, st, ev, "attempt in %s" % f, "the time of the failed refresh is not recorded: %s" % show(l, 4))
        a = E.strip(d["access_token"])
        for k in ("access_token", "refresh_token", "access_token_expiry", "access_token_obtained"):
            v = E.strip(d[k])
            b = ts_base(v.a[0]) if v.op == "fld" and v.a[1] == ACT + k else None
            if not (b and id_root(b[1]) is acc):
                self.bad(eng, st, ev, "%s after failure in %s" % (k, f), "%s is changed although the refresh failed" % k)

    def due(self, eng, st):
        """Is a command configured and may the number of failures be a multiple of six?"""
        cmd = None
        mult = None
        for k, v in st.facts.items():
            if k.op == "discr" and fname(k.a[0]).endswith("Config.transient_error_if_cmd"):
                cmd = v[1] == 1 if v[0] == "=" else 0 in v[1]
            r = k
            if r.op == "op" and r.a[0] == "eq":
                z = [y for y in r.a[1:3] if cval(E.strip(y)) == 0]
                r = [y for y in r.a[1:3] if cval(E.strip(y)) != 0]
                r = E.strip(r[0]) if z and r else k
                vv = (v[1] is True) if v[0] == "=" else None
            else:
                vv = v[1] == 0 if v[0] == "=" else (False if 0 in v[1] else None)
            c = callee(r).split("::")[-1]
            if c in ("rem_euclid", "Rem", "is_multiple_of") and len(cargs(r)) >= 2 and cval(E.strip(cargs(r)[-1])) == 6 and \
                    self.fails(eng, E.strip(cargs(r)[0])):
                mult = vv if c != "is_multiple_of" else (v == ("=", True))
        if cmd is False:
            return False
        return mult is not False

    def fails(self, eng, x):
        return x.op == "op" and x.a[0] == "Add" and any(y.op == "fld" and y.a[1] == ACT + "consecutive_refresh_fails"
                                                         for y in map(E.strip, x.a[1:]))

    def command(self, eng, st, ev, send):
        self.saw("commands run after failures", where2(ev))
        o = Outcome(eng, st, send)
        if o.transient() is not True:
            self.bad(eng, st, ev, "command in %s" % short(ev.fn), "the transient-error command is run after a failure that may not be transient")

    def cmd_ok(self, st):
        """Did the command succeed? True/False/None"""
        r = None
        for k, v in st.facts.items():
            c = callee(k).split("::")[-1]
            if c == "success" and v[0] == "=":
                return bool(v[1])
            if k.op == "discr":
                x = k.a[0]
                c = callee(x).split("::")[-1]
                val = v[1] if v[0] == "=" else (0 if 1 in v[1] else 1)
                if c in ("var", "var_os", "spawn", "wait_timeout", "status", "output", "wait") and val == 1 and "Command::" in callee(x) + "Command::":
                    r = False if c not in ("var_os",) else r
                if some_of(x) is not None and callee(some_of(x)).split("::")[-1] == "wait_timeout" and val == 0:
                    r = False
        return r


# ------------------------------------------------------------------ C44: nothing is sent twice
class C44(Rule):
    prop = "C44"

    def __init__(self):
        super().__init__()
        self.keeps = lambda k: outcome_fact(k)
        self.need = {"requests of token endpoints": 2, "requests found to be without response": 1}

    def on(self, eng, st, ev):
        p = self.get(st, "sent")
        if p is not None:
            o = Outcome(eng, st, p)
            if o.res == 1 and o.err == 1:
                self.saw("requests found to be without response", short(ev.fn or "?"))
                self.put(st, "sent", None)
            elif o.res == 0 or o.res == 1 and o.err == 0:
                self.put(st, "sent", None)
                self.put(st, "answered", True)
        if ev.kind == "call" and NETREQ.search(nm(ev)):
            self.saw("requests of token endpoints", where2(ev))
            if self.get(st, "answered") or self.get(st, "sent") is not None:
                self.bad(eng, st, ev, "sent again in %s" % short(ev.fn), "a code or refresh token is sent again although the server may have "
                         "answered the first request (reused codes are refused, and make servers revoke what they issued)")
            if type(ev.ret) is T:
                self.put(st, "sent", ev.ret)


# ------------------------------------------------------------------ C45: bounded time
LIMIT = re.compile(r"^ureq::.*(AgentBuilder|Request)::timeout$")
LONGEST = 300


def seconds(t):
    if type(t) is T and t.op == "c" and t.a[0][0] == "dur":
        return t.a[0][1][0] + t.a[0][1][1] / 1e9
    return None


def bounded(eng, it):
    """Does the iterator end after a number of elements that is fixed in the program?"""
    for x in subterms(it):
        if x.op == "agg" and x.a[0].endswith(("ops::Range", "ops::RangeInclusive")) and len(x.a[2]) >= 2 and all(cval(E.strip(y)) is not None for y in x.a[2][:2]):
            return True
        if x.op in ("arr", "tup") or x.op in ("op", "call") and re.search(r"(Iterator::take|RangeInclusive::new|iter::repeat_n)$", callee(x)) and \
                any(type(cval(E.strip(y))) is int for y in cargs(x)[-2:]):
            return True
        if x.op == "stage" and x.a and "take" == cval(x.a[0]):
            return True
    return False


class C45(Rule):
    prop = "C45"

    def __init__(self):
        super().__init__()
        self.need = {"requests with a time limit": 2}
        self.keeps = lambda k: k.op == "op" and k.a[0] in ("lt", "eq") and any(type(y) is T and cval(y) is not None for y in k.a[1:]) and \
            any(z.op == "phi" for z in subterms(k))

    def on(self, eng, st, ev):
        if ev.kind == "elem":
            if self.get(st, "sites") and any(type(a) is T and bounded(eng, a) for a in ev.args):
                self.put(st, "counted", True)
        elif ev.kind == "back":
            if self.get(st, "sites"):
                self.put(st, "turned", self.get(st, "turned", frozenset()) | {(ev.fn, ev.extra[1])})
        elif ev.kind == "call" and NETREQ.search(nm(ev)):
            d = [seconds(E.strip(y)) for x in subterms(ev.args[0]) if x.op in ("op", "call", "out") and LIMIT.search(callee(x)) for y in cargs(x)[-1:]]
            self.saw("requests with a time limit", where2(ev))
            if not d:
                self.bad(eng, st, ev, "no limit in %s" % short(ev.fn), "a request to a token endpoint has no limit on its total time")
            elif any(x is None or not 0 < x <= LONGEST for x in d):
                self.bad(eng, st, ev, "limit in %s" % short(ev.fn), "the limit on the time of a request to a token endpoint is not known to be positive and at "
                         "most %d seconds" % LONGEST)
            s = self.get(st, "sites", frozenset())
            if ev.site in s and not self.get(st, "counted") and not self.counter(eng, st, ev):
                self.bad(eng, st, ev, "unbounded in %s" % short(ev.fn), "a request to a token endpoint may be repeated without end")
            self.put(st, "sites", s | {ev.site})
            self.put(st, "counted", None)
            self.put(st, "turned", None)

    def counter(self, eng, st, ev):
        """Is something that is counted in the loop that repeats the request known to be within a fixed bound?"""
        turned = self.get(st, "turned", frozenset())
        for k, v in st.facts.items():
            if not (k.op == "op" and k.a[0] in ("lt", "eq") and v[0] == "=" and any(cval(E.strip(y)) is not None for y in k.a[1:])):
                continue
            for x in subterms(k):
                if x.op == "phi" and x.a[0][1:3] in turned and ev.site.startswith(x.a[0][0] + "@") and \
                        any(y.op == "op" and re.match(r"(Add|Sub)", y.a[0]) for z in eng.phi_in.get(x, ()) for y in subterms(z)):
                    return True
        return False
