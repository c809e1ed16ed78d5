"""C32: what a dump holds, how it is laid out, and what a restore makes of it."""
from rules.raw import *

DUMPS = "pizauth::server::state::TokenStateDump"
NOW = re.compile(r"(Instant|SystemTime)::now$")
TIMES = ("access_token_obtained", "access_token_expiry")
KEPT = ("access_token", "refresh_token")
CRYPT = re.compile(r"::(encrypt|decrypt|encrypt_in_place|decrypt_in_place)$")
SER = re.compile(r"^(bincode|serde_\w+|postcard|ciborium|rmp_serde)::.*(serialize|to_vec|encode)\w*$")
SAME = re.compile(r"::(as_slice|from_slice|to_vec|as_ref|to_owned|into_boxed_slice|into_vec|as_bytes|clone_from_slice|deref|borrow|from|into)$")


def linear(t):
    """A time as a sum of atoms: {term or "now": coefficient}."""
    t = E.strip(t)
    if t.op == "fld" and re.search(r"(Some|Ok|Err)\.0$", str(t.a[1])):
        x = E.strip(t.a[0])
        if x.op in ("op", "call"):
            r = operation(x)
            if r is not None:
                return r
    if t.op in ("op", "call"):
        r = operation(t)
        if r is not None:
            return r
    return {t: 1}


def operation(x):
    n = callee(x)
    a = cargs(x)
    if NOW.search(n):
        return {"now": 1}
    f = n.split("::")[-1]
    if len(a) == 2 and f in ("checked_add", "add", "Add"):
        return plus(linear(a[0]), linear(a[1]), 1)
    if len(a) == 2 and f in ("checked_sub", "sub", "Sub", "checked_duration_since", "duration_since"):
        return plus(linear(a[0]), linear(a[1]), -1)
    if len(a) == 1 and f == "elapsed":
        return plus({"now": 1}, linear(a[0]), -1)
    return None


def plus(a, b, s):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def impossible(st):
    """The time calculations that are known to have failed: their values as sums."""
    r = []
    for k, v in st.facts.items():
        if k.op == "discr":
            x = E.strip(k.a[0])
            if x.op in ("op", "call") and operation(x) is not None:
                n = callee(x).split("::")[-1]
                bad = 1 if n in ("duration_since", "elapsed") else 0      # Err of a Result, None of an Option
                if v == ("=", bad) or v[0] == "!" and 1 - bad in v[1]:
                    r.append(operation(x))
    return r


def pieces(t, out=None):
    """The byte strings that t is put together from."""
    out = [] if out is None else out
    t = E.strip(t)
    n = callee(t) if t.op in ("op", "call") else ""
    f = n.split("::")[-1]
    if t.op in ("op", "call") and f in ("extend", "concat", "append", "push_str", "chain"):
        for x in cargs(t):
            pieces(x, out)
    elif t.op in ("arr", "tup"):
        for x in t.a[0]:
            pieces(x, out)
    elif t.op == "it":
        pieces(t.a[0], out)
    elif t.op in ("op", "call") and SAME.search(n) and cargs(t):
        pieces(cargs(t)[-1], out)
    else:
        out.append(t)
    return out


def plain(t):
    """t without conversions between kinds of byte strings."""
    p = pieces(t)
    return p[0] if len(p) == 1 else E.strip(t)


def size_of(t):
    """The number of bytes of t, if it is an array of known size (possibly filled by a call)."""
    for x in subterms(t):
        if x.op == "op" and x.a[0] == "repeat" and type(cval(x.a[2])) is int:
            return cval(x.a[2])
        if x.op == "repeat" and type(cval(x.a[1])) is int:
            return cval(x.a[1])
    for x in subterms(t):
        c = cval(x)
        if type(c) is bytes:
            return len(c)
    return None


def window(t):
    """(what, start, end) of a slice with constant ends."""
    t = plain(t)
    if t.op == "op" and t.a[0] == "slice":
        b, r = E.strip(t.a[1]), E.strip(t.a[2])
        if r.op == "agg":
            k = r.a[0].split("::")[-1]
            v = [cval(x) for x in r.a[2]]
            if k == "RangeTo":
                return b, 0, v[0]
            if k == "RangeFrom":
                return b, v[0], None
            if k == "Range":
                return b, v[0], v[1]
    if t.op == "fld" and t.a[1] in (0, 1, "0", "1"):
        x = E.strip(t.a[0])
        m = some_of(x)
        x = E.strip(m) if m is not None else x
        if x.op in ("op", "call") and re.search(r"split_at\w*$", callee(x)):
            a = cargs(x)
            return (E.strip(a[0]), 0, cval(a[1])) if int(t.a[1]) == 0 else (E.strip(a[0]), cval(a[1]), None)
    return None


class C32(Restore):
    prop = "C32"

    def __init__(self):
        super().__init__()
        self.keeps = self.held
        self.need = {"kinds of token state in a dump": 2, "settings of accounts in a dump": 7, "dumps sent": 1, "dumps read": 1,
                     "tokens restored": 1, "versions": 2, "accounts dumped": 1}
        self.enc, self.dec, self.ver = {}, {}, {}
        self.lay = {}

    def held(self, k):
        if k.op == "discr":
            x = E.strip(k.a[0])
            if x.op in ("op", "call"):
                return operation(x) is not None or CRYPT.search(callee(x)) is not None or "deserialize" in callee(x)
            return self.kept_fact(k)
        if k.op == "fld":
            return fname(k).endswith("Dump.version")
        return k.op == "op" and k.a[0] in ("lt", "eq") and (any("version" in fname(y) for y in subterms(k) if y.op == "fld") or from_client(k) and "len" in show(k, 4))

    def on(self, eng, st, ev):
        k = ev.kind
        if k == "next" and source(ev.args[0])[0] == "incoming" or k == "call" and nm(ev).endswith("UnixListener::accept") or k == "exit":
            for x in ("verb", "ix", "all", "failed"):
                self.put(st, x, None)
            return
        if k == "call":
            self.call(eng, st, ev)
        if k in ("call", "acquire", "enter"):
            c = command(eng, st)
            if c is not None and c != self.get(st, "verb"):
                self.put(st, "verb", c)
        if k in ("call", "enter", "leave", "agg") and self.get(st, "verb") in ("dump", "restore"):
            self.failures(st)
        if k == "agg":
            self.made(eng, st, ev)
            if E.strip(ev.args[-1]).op == "agg" and E.strip(ev.args[-1]).a[0] in (TS, DUMPS):
                self.put(st, "failed", None)
        if k in ("insert", "push"):
            self.insert(eng, st, ev)
        elif k in ("next", "elem", "exhausted"):
            self.turn(eng, st, ev)

    def failures(self, st):
        """Remember which conversions of times failed (in the rule's state, which keeps the paths apart)."""
        got = set()
        for b in impossible(st):
            for y, c in b.items():
                if type(y) is T and y.op == "fld" and fname(y).split(".")[-1] in TIMES:
                    n = fname(y).split(".")[-1]
                    got.add((n, "all" if len(b) == 1 and c == 1 else "ahead" if b.get("now") == -1 else "behind" if b.get("now") == 1 else "?"))
        r = frozenset(n for n in TIMES if (n, "all") in got or (n, "ahead") in got and (n, "behind") in got) | self.get(st, "failed", frozenset())
        if r:
            self.put(st, "failed", r)

    # -- dumping
    def made(self, eng, st, ev):
        t = E.strip(ev.args[-1])
        if t.op != "agg":
            return
        if t.a[0] == DUMPS and self.get(st, "verb") == "dump" and "serde::" not in ev.fn:
            i = self.get(st, "ix")
            self.state(eng, st, ev, t, i.t if i is not None else None, short(ev.fn))
        if t.a[0] == TS:
            a = self.active(eng, t)
            if a is not None and self.dumped(eng, a) is not None:
                self.restored(eng, st, ev, a)

    def insert(self, eng, st, ev):
        for x in ev.args[1:]:
            x = E.strip(x)
            for y in subterms(x):
                if y.op == "agg" and y.a[0] == ACCT.replace("Account.", "AccountDump"):
                    return self.account(eng, st, ev, y)

    def account(self, eng, st, ev, d):
        f = short(ev.fn)
        vs = []
        for x in ev.args[1:]:
            x = E.strip(x)
            vs += [E.strip(y) for y in x.a[0]] if x.op == "tup" else [x]
        flat = []
        for x in vs:
            flat += [E.strip(y) for y in x.a[0]] if x.op == "tup" else [x]
        names = eng.p.adts[d.a[0]]["v"][0]["f"]
        owners = set()
        for (n, *_), x in zip(names, d.a[2]):
            p = account_of(E.strip(x))
            if p is None or p[0] != n:
                self.bad(eng, st, ev, "%s in %s" % (n, f), "the %s recorded in a dump is not the account's %s" % (n, n))
                continue
            owners.add(p[1])
            self.saw("settings of accounts in a dump", n)
        if {n for n, *_ in names} < set(SECURE):
            self.bad(eng, st, ev, "settings in %s" % f, "a dump does not record all security-relevant settings of an account")
        es = [x for x in flat if x.op == "fld" and raw_entry(x) is not None and x.a[1] in (0, "0")]
        if not es:
            self.bad(eng, st, ev, "name in %s" % f, "an account is not recorded in a dump under its name")
            return
        e = raw_entry(es[0])
        for o in owners:
            q = keyed(o)
            if q is None or q[1] not in equals(st, es[0]) or accounts_of(q[0]) is None or is_current(accounts_of(q[0])) is None:
                self.bad(eng, st, ev, "account in %s" % f, "the settings recorded for an account in a dump may be those of another account or configuration")
        ss = [y for x in flat for y in alts(eng, x) if y.op == "agg" and y.a[0] == DUMPS]
        if not ss:
            self.bad(eng, st, ev, "state in %s" % f, "what a dump records as the state of an account is not known")
            return
        o = self.owner(ss[0])
        if o is not None and o is not e:
            self.bad(eng, st, ev, "state in %s" % f, "a dump may record a token under the name of another account")
        i = self.get(st, "ix")
        if i is not None and i.t is e.a[1]:
            self.put(st, "ix", None)
        self.saw("accounts dumped", f)

    def state(self, eng, st, ev, d, i, f):
        """A token state is made for a dump; i is the index of the account."""
        v = eng.p.adts[DUMPS]["v"][d.a[1]]
        if v["n"] != "Active":
            self.saw("kinds of token state in a dump", v["n"])
            if not any(raw_active(eng, st, e) is False for e in self.entries(st, i)):
                self.bad(eng, st, ev, "inactive in %s" % f, "an account that may be active is recorded in a dump without its token")
            if any(self.secret(x) for x in d.a[2]):
                self.bad(eng, st, ev, "pending in %s" % f, "a dump records a pending authentication")
            return
        self.saw("kinds of token state in a dump", "Active")
        e = self.owner(d)
        for (n, *_), x in zip(v["f"], d.a[2]):
            x = E.strip(x)
            mine = lambda y: y.op == "fld" and fname(y).split(".")[-1] == n and e is not None and E.strip(y.a[0]) is part(e, 2)
            if n in KEPT and not mine(x):
                self.bad(eng, st, ev, "%s in %s" % (n, f), "the %s recorded in a dump is not the account's %s" % (n, n))
            elif n in TIMES:
                self.time(eng, st, ev, x, mine, n, f)
        if {n for n, *_ in v["f"]} < set(KEPT + TIMES):
            self.bad(eng, st, ev, "token in %s" % f, "a dump does not record all that a token needs")

    def owner(self, d):
        for x in d.a[2]:
            e = raw_entry(E.strip(x))
            if e is not None:
                return e
        return None

    def entries(self, st, i):
        r = set()
        for k in st.facts:
            for y in subterms(k):
                if y.op == "ix" and is_details(y.a[0]) and (i is None or y.a[1] is i):
                    r.add(y)
        return r

    def secret(self, x):
        return any(y.op == "fld" and fname(y).split(".")[-1] in ("state", "code_verifier", "url") for y in subterms(x))

    def time(self, eng, st, ev, x, test, n, f):
        l = linear(x)
        if len(l) == 1:
            (k, c), = l.items()
            if k == "now" and c == 1:
                got = self.get(st, "failed", ())
                if n in got:
                    return
                self.bad(eng, st, ev, "%s in %s" % (n, f), "the current time is used as %s although it may be known" % n)
                return
            if type(k) is T and c == 1 and test(k):
                return
        self.bad(eng, st, ev, "%s in %s" % (n, f), "%s is not what it is converted from" % n)

    # -- reading
    def restored(self, eng, st, ev, a, deep=None):
        f = short(ev.fn)
        v = eng.p.adts[TS]["v"][a.a[1]]
        key = self.dumped(eng, a)
        ok = lambda y, n: y.op == "fld" and fname(y) in (DUMPS + ".Active." + n, "Active." + n) or y.op == "fld" and fname(y).split(".")[-1] == n
        for (n, *_), x in zip(v["f"], a.a[2]):
            x = E.strip(x)
            test = lambda y: ok(y, n) and self.dumped(eng, y) == key and not raw_entry(y)
            if n in KEPT:
                if not test(x):
                    self.bad(eng, st, ev, "%s in %s" % (n, f), "the %s that is restored is not the dumped %s" % (n, n))
            elif n in TIMES:
                self.time(eng, st, ev, x, test, n, f)
            elif n == "ongoing_refresh" and cval(x) is not False or n == "consecutive_refresh_fails" and cval(x) != 0 or \
                    n == "last_refresh_attempt" and not (x.op == "agg" and not x.a[2]):
                self.bad(eng, st, ev, "%s in %s" % (n, f), "a restored token starts with a %s of its own" % n)
        self.saw("tokens restored", f)
        for x, w in st.facts.items():
            if x.op == "fld" and fname(x).endswith("Dump.version") and w[0] == "=":
                self.ver.setdefault("restored", {})[w[1]] = (st, ev)
                self.saw("versions", "restored")

    # -- going through the accounts
    def turn(self, eng, st, ev):
        it = ev.args[0]
        if not self.over_details(it):
            return
        if ev.kind != "elem":
            self.put(st, "failed", None)
        if self.get(st, "verb") != "dump":
            return
        f = short(ev.fn)
        if ev.kind == "elem":
            es = [x for x in subterms(E.strip(ev.args[1])) if x.op == "ix" and is_details(x.a[0])]
            self.put(st, "ix", Hidden(es[0].a[1] if es else E.strip(ev.args[1])))
        else:
            if self.get(st, "ix") is not None:
                self.bad(eng, st, ev, "left out in %s" % f, "an account may be left out of a dump")
            if ev.kind == "next" and partial(it):
                self.bad(eng, st, ev, "accounts in %s" % f, "a dump does not go through all accounts")
            self.put(st, "ix", None)
            if ev.kind == "exhausted":
                self.put(st, "all", True)

    # -- the layout
    def call(self, eng, st, ev):
        n = nm(ev)
        f = short(ev.fn)
        if SER.search(n) and any(E.strip(x).op == "agg" and E.strip(x).a[0].endswith("::Dump") for x in ev.args):
            d = [E.strip(x) for x in ev.args if E.strip(x).op == "agg" and E.strip(x).a[0].endswith("::Dump")][0]
            for (m, *_), x in zip(eng.p.adts[d.a[0]]["v"][0]["f"], d.a[2]):
                if m == "version":
                    self.ver.setdefault("dumped", {})[cval(x)] = (st, ev)
                    self.saw("versions", "dumped")
            if not self.get(st, "all"):
                self.bad(eng, st, ev, "accounts in %s" % f, "a dump may be made without all accounts")
        elif CRYPT.search(n) and len(ev.args) > 2:
            self.crypt(eng, st, ev, n, f)
        p = reply(ev)
        if p is None:
            return
        c = self.get(st, "verb")
        if c == "dump" and not (text(p[0]) or "").startswith("error") or any(self.cipher(x) for y in p for x in pieces(y)):
            self.sent(eng, st, ev, [x for y in p for x in pieces(y)], f)
        elif c == "restore" and not (text(p[0]) or "").startswith("ok"):
            self.refused(eng, st, ev, f)

    def cipher(self, x):
        m = some_of(x)
        x = E.strip(m) if m is not None else x
        if x.op == "fld" and str(x.a[1]).endswith("Ok.0"):
            x = E.strip(x.a[0])
        return x if x.op in ("op", "call") and re.search(r"::encrypt$", callee(x)) else None

    def crypt(self, eng, st, ev, n, f):
        key, nonce, data = E.strip(ev.args[0]), plain(ev.args[1]), E.strip(ev.args[2])
        if n.endswith("encrypt"):
            self.enc[key] = (st, ev)
            if not any(x.op in ("op", "call") and SER.search(callee(x)) for x in subterms(data)):
                self.bad(eng, st, ev, "content in %s" % f, "what is encrypted is not the dump")
            if not (nonce.op == "out" or nonce.op in ("op", "call")) or not any(
                    x.op == "op" and x.a[0].endswith("rand::rng") or x.op in ("op", "call") and re.search(r"(rand::rng|OsRng|thread_rng|getrandom)", callee(x))
                    for x in subterms(nonce)):
                self.bad(eng, st, ev, "nonce in %s" % f, "the nonce of a dump is not freshly random")
            elif any(x.op == "op" and x.a[0] == "splice" for x in subterms(nonce)):
                self.bad(eng, st, ev, "nonce in %s" % f, "the nonce of a dump is only partly random")
        else:
            self.dec[key] = (st, ev)
            a, b = window(nonce), window(data)
            if a is None or b is None or not from_client(a[0]):
                self.bad(eng, st, ev, "layout in %s" % f, "where a restore reads the nonce and the content of a dump from is not known")
                return
            self.saw("dumps read", f)
            if a[0] is not b[0]:
                self.bad(eng, st, ev, "layout in %s" % f, "a restore reads the nonce and the content from different data")
            self.lay.setdefault("read", {})[(a[1], a[2], b[1], b[2])] = (st, ev)

    def sent(self, eng, st, ev, ps, f):
        cs = [(i, self.cipher(x)) for i, x in enumerate(ps) if self.cipher(x) is not None]
        if len(cs) != 1 or len(ps) != 2:
            self.bad(eng, st, ev, "layout in %s" % f, "a dump is not made up of the nonce and the encrypted content")
            return
        self.saw("dumps sent", f)
        i, c = cs[0]
        nonce = plain(cargs(c)[1])
        if ps[1 - i] is not nonce:
            self.bad(eng, st, ev, "nonce sent in %s" % f, "a dump does not hold the nonce that it was encrypted with")
            return
        n = size_of(nonce)
        lay = (0, n, n, None) if i == 1 else None
        self.lay.setdefault("written", {})[lay] = (st, ev)

    def refused(self, eng, st, ev, f):
        """A restore may only be refused because the dump is malformed or has another version."""
        ok = False
        for k, v in st.facts.items():
            if k.op == "discr":
                x = E.strip(k.a[0])
                n = callee(x) if x.op in ("op", "call") else ""
                if (re.search(r"::decrypt$", n) or "deserialize" in n) and (v == ("=", 1) or v[0] == "!" and 0 in v[1]):
                    ok = True
            if k.op == "fld" and fname(k).endswith("Dump.version") and v[0] == "!":
                ok = True
            if k.op == "op" and k.a[0] == "eq" and any("Dump.version" in fname(y) for y in subterms(k) if y.op == "fld") and v == ("=", False):
                ok = True
            if k.op == "op" and k.a[0] == "lt" and from_client(k) and "len" in show(k, 4) and type(cval(k.a[2])) is int and cval(k.a[2]) <= 28 and v == ("=", True):
                ok = True
        self.saw("refusals", where2(ev))
        if not ok:
            self.bad(eng, st, ev, "refused in %s" % f, "a restore may refuse a well-formed dump of the same version")

    def finish(self, eng):
        def diff(a, b, key, msg):
            if a and b and set(a) != set(b):
                for k in list(b) if set(b) - set(a) else list(a):
                    if k not in a or k not in b:
                        st, ev = (b if k in b else a)[k]
                        self.bad(eng, st, ev, key, msg)
        diff(self.enc, self.dec, "key", "a restore uses another key than a dump")
        diff(self.ver.get("dumped"), self.ver.get("restored"), "version", "a restore accepts another version than the one dumped")
        diff(self.lay.get("written"), self.lay.get("read"), "layout", "a restore reads nonce or content from where the dump did not put it")


class C32serde(Rule):
    """Derived serialisation: every field is written, in order, and read back into its own place."""
    prop = "C32"
    wants = r"serde::Serialize for .*>::serialize$|serde::Deserialize<'de> for .*__Visitor.*::visit_(seq|enum)$"

    def __init__(self):
        super().__init__()
        self.need = {"types written": 3, "types read": 3}

    def on(self, eng, st, ev):
        k = ev.kind
        if k == "call" and re.search(r"serde::ser::Serialize\w+::(serialize_field|serialize_element|skip_field|end)$", nm(ev)):
            s = self.get(st, "seq", ())
            if nm(ev).endswith("end"):
                self.whole(eng, st, ev, s)
            else:
                x = E.strip(ev.args[-1])
                self.put(st, "seq", s + (str(x.a[1]) if x.op == "fld" and E.strip(x.a[0]) is ARG[1] else "?",))
        elif k == "agg" and "Deserialize" in eng.cur_body:
            t = E.strip(ev.args[-1])
            if t.op == "agg" and t.a[0] in eng.p.adts and t.a[0].startswith("pizauth") and t.a[2] and not t.a[0].split("::")[-1].startswith("__"):
                self.saw("types read", t.a[0])
                for i, x in enumerate(t.a[2]):
                    if self.nth(x) != i:
                        self.bad(eng, st, ev, "read %s" % short(t.a[0]), "a field of %s is not read from where it is written" % short(t.a[0]))

    def nth(self, x):
        x = E.strip(x)
        while x.op == "fld":
            x = E.strip(x.a[0])
        if x.op not in ("op", "call") or not callee(x).endswith("::next_element"):
            return None
        n = 0
        y = E.strip(cargs(x)[0])
        while y.op == "out" and callee(y).endswith("::next_element"):
            n += 1
            y = E.strip(cargs(y)[0])
        return n

    def whole(self, eng, st, ev, s):
        m = re.search(r"Serialize for ([\w:]+)>::serialize", eng.cur_body)
        adt = eng.p.adts.get(m.group(1)) if m else None
        self.put(st, "seq", None)
        if adt is None:
            self.bad(eng, st, ev, "write %s" % short(eng.cur_body), "the type that is written is not known")
            return
        for v in adt["v"]:
            want = tuple(x[0] for x in v["f"])
            if tuple(x.split(".")[-1] for x in s) == want:
                self.saw("types written", m.group(1))
                return
        self.bad(eng, st, ev, "write %s" % short(m.group(1)), "not every field of %s is written, in order" % short(m.group(1)))
