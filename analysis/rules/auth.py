"""Authentication requests (C08) and the replies to control requests (C11, C33)."""
from rules.common import *

RNG = re.compile(r"^rand::(rng|thread_rng|rngs::thread::rng)$|OsRng")
STATE_LEN, VERIFIER_LEN = 8, 64


def fills(t):
    """The random fills that a term depends on."""
    return set(x for x in subterms(t) if x.op == "out" and re.search(r"::(try_)?fill(_bytes)?$", callee(x)))


def random_string(t):
    """(fill, length) if t is the base64 form of an array filled from the random number generator."""
    t = E.strip(t)
    if not callee(t).endswith("Engine::encode"):
        return None
    a = cargs(t)
    if "URL_SAFE_NO_PAD" not in show(a[0], 3):
        return None
    x = E.strip(a[1])
    if x.op != "out" or not re.search(r"::(try_)?fill(_bytes)?$", callee(x)):
        return None
    b = cargs(x)
    if not RNG.search(callee(E.strip(b[0]))) and not RNG.search(show(b[0], 2)):
        return None
    r = E.strip(b[1])
    if r.op == "op" and r.a[0] == "repeat" or r.op == "repeat":
        n = cval(E.strip(r.a[-1]))
        if type(n) is int:
            return x, n
    return None


class C08(Rule):
    prop = "C08"

    def __init__(self):
        super().__init__()
        self.stored = set()
        self.shown = []
        self.need = {"authorisation URLs": 1, "URLs with scopes": 1, "URLs with extra fields": 1, "URLs shown": 1}

    def fields(self, eng, st, ev):
        """Every entry of auth_uri_fields becomes a parameter."""
        k = ev.kind
        if k in ("next", "elem", "exhausted"):
            s = source(ev.args[0])[1]
            rest = s.op == "op" and s.a[0] == "rest"
            a = account_field(s.a[1] if rest else s)
            if a is not None and a[1] == "auth_uri_fields":
                if self.some_only(ev.args[0], a[0]) or self.get(st, "field") == "open" and k != "elem":
                    self.put(st, "left", True)
                self.put(st, "field", "open" if k == "elem" else None)

    def on(self, eng, st, ev):
        self.fields(eng, st, ev)
        if ev.kind == "push" and len(ev.args) > 1:
            e = E.strip(ev.args[1])
            if e.op == "tup" and len(e.a[0]) == 2:
                kv = [account_field(x) for z in e.a[0] for x in subterms(z)]
                if any(x is not None and x[1] == "auth_uri_fields" for x in kv):
                    self.put(st, "field", None)
            if e.op == "tup" and len(e.a[0]) == 2 and cval(E.strip(e.a[0][0])) == "scope":
                self.put(st, "scope", True)
            return
        if ev.kind == "prim" and ev.name == "tokenstate_replace":
            n, d = new_state(eng, st, ev)
            if n == "Pending":
                self.store(eng, st, ev, d)
            self.put(st, "scope", None)
        p = reply(ev)
        if p is not None:
            for x, al in url_parts(eng, p):
                self.saw("URLs shown", where2(ev))
                for y in al:
                    if not fname(y).endswith("Pending.url"):
                        self.shown.append((norm(y), ev, st.trace))

    def store(self, eng, st, ev, d):
        f = short(ev.fn)
        i = id_root(ev.args[1])
        acc = mk("op", "account", ev.args[0], i)
        if self.get(st, "left"):
            self.bad(eng, st, ev, "some fields in %s" % f, "a configured auth_uri_field may be missing from the authorisation URL")
        self.put(st, "left", None)
        self.put(st, "field", None)
        cp = [k for k in ("url", "state", "code_verifier") if self.copied(d[k], k, i)]
        if cp:
            if len(cp) < 3:
                self.bad(eng, st, ev, "partly renewed in %s" % f, "only part of a pending authentication is renewed")
            return
        self.saw("authorisation URLs", where2(ev))
        used = {}
        for k, n in (("state", STATE_LEN), ("code_verifier", VERIFIER_LEN)):
            r = random_string(d[k])
            if r is None:
                self.bad(eng, st, ev, "%s in %s" % (k, f), "the %s is not freshly drawn from the random number generator: %s" % (k, show(d[k], 6)))
            elif r[1] != n:
                self.bad(eng, st, ev, "length of %s in %s" % (k, f), "the %s is made of %d random bytes instead of %d" % (k, r[1], n))
            else:
                used[k] = r[0]
        if len(used) == 2 and (fills(used["state"]) & fills(used["code_verifier"])):
            self.bad(eng, st, ev, "shared randomness in %s" % f, "the state and the verifier are made of the same random bytes")
        sv, cv = E.strip(d["state"]), E.strip(d["code_verifier"])
        u = E.strip(d["url"])
        self.stored.add(norm(u))
        x = some_of(u)
        if x is None or not callee(x).endswith("Url::parse_with_params"):
            return self.bad(eng, st, ev, "URL in %s" % f, "cannot tell how the authorisation URL is made: %s" % show(u, 5))
        base = account_field(cargs(x)[0])
        if base is None or base[0] is not acc or base[1] != "auth_uri":
            self.bad(eng, st, ev, "base URL in %s" % f, "the authorisation URL is not based on the account's auth_uri: %s" % show(cargs(x)[0], 4))
        noscopes = any(fk.op == "op" and fk.a[0] == "len" and account_field(fk.a[1]) == (acc, "scopes") and v == ("=", 0)
                       or callee(fk).endswith("is_empty") and account_field(cargs(fk)[0]) == (acc, "scopes") and v == ("=", True)
                       for fk, v in st.facts.items())
        scope = False
        for elems, star in list_alts(eng, cargs(x)[1]):
            scope |= self.params(eng, st, ev, f, acc, elems, star, sv, cv)
        if not noscopes and not self.get(st, "scope") and not scope:
            self.bad(eng, st, ev, "no scope in %s" % f, "the authorisation URL may lack the account's scopes")
        if self.get(st, "scope") or scope:
            self.saw("URLs with scopes", where2(ev))

    def finish(self, eng):
        for y, ev, tr in self.shown:
            if y not in self.stored:
                eng.violate(self.prop, "shown in %s" % short(ev.fn), "the URL shown to the user is not the one remembered: %s" % show(y, 4), ev, None)

    def copied(self, v, k, i):
        v = E.strip(v)
        if v.op == "fld" and fname(v).endswith("Pending." + k):
            b = ts_base(v.a[0])
            return b is not None and id_root(b[1]) is i
        return False

    def params(self, eng, st, ev, f, acc, elems, star, sv, cv):
        d = {}
        for e in elems:
            e = E.strip(e)
            if e.op != "tup" or len(e.a[0]) != 2:
                self.bad(eng, st, ev, "parameter in %s" % f, "a parameter of the authorisation URL is not known: %s" % show(e, 4))
                continue
            k, v = E.strip(e.a[0][0]), E.strip(e.a[0][1])
            if cval(k) is None:
                if self.extra(k, acc) and self.extra(v, acc):
                    self.saw("URLs with extra fields", where2(ev))
                else:
                    self.leak(eng, st, ev, f, e, cv)
                continue
            k = cval(k)
            if k in d and d[k] is not v:
                self.bad(eng, st, ev, "parameter %s twice in %s" % (k, f), "parameter %s is in the authorisation URL twice" % k)
            d[k] = v
        ex = False
        for e in star:
            e = E.strip(e) if type(e) is T else e
            if type(e) is T and any(self.extra(x, acc) for x in subterms(e)):
                ex = True
                if any(self.some_only(x, acc) for x in subterms(e)):
                    self.bad(eng, st, ev, "some fields in %s" % f, "a configured auth_uri_field may be missing from the authorisation URL")
            if type(e) is T:
                self.leak(eng, st, ev, f, e, cv)
        if ex:
            self.saw("URLs with extra fields", where2(ev))
        elif not any(E.strip(e).op == "tup" and cval(E.strip(E.strip(e).a[0][0])) is None for e in elems):
            known = [fk for fk, v in st.facts.items() if fk.op == "op" and fk.a[0] == "exhausted" and v == ("=", True)]
            if not any(eng.contains(k, lambda y: y.op == "fld" and fname(y).endswith("Account.auth_uri_fields")) for k in known) and not \
                    self.iterated(st):
                self.bad(eng, st, ev, "extra fields in %s" % f, "the authorisation URL may lack the configured auth_uri_fields")
        want = {"access_type": lambda v: cval(v) == "offline", "response_type": lambda v: cval(v) == "code",
                "code_challenge_method": lambda v: cval(v) == "S256", "client_id": lambda v: account_field(v) == (acc, "client_id"),
                "redirect_uri": lambda v: is_redirect_of(eng, v, acc), "state": lambda v: v is sv,
                "code_challenge": lambda v: self.challenge(v, cv)}
        for k, ok in sorted(want.items()):
            if k not in d:
                self.bad(eng, st, ev, "%s missing in %s" % (k, f), "the authorisation URL lacks parameter %s" % k)
            elif not ok(d[k]):
                self.bad(eng, st, ev, "%s in %s" % (k, f), "parameter %s of the authorisation URL is not what it has to be: %s" % (k, show(d[k], 5)))
        for k, v in d.items():
            if k == "scope":
                c = E.strip(v)
                if not (callee(c).split("::")[-1] in ("join", "concat") and account_field(cargs(c)[0]) == (acc, "scopes") and
                        cval(E.strip(cargs(c)[1])) == " "):
                    self.bad(eng, st, ev, "scope in %s" % f, "the scope parameter is not the account's scopes separated by spaces: %s" % show(v, 5))
            elif k not in want:
                self.leak(eng, st, ev, f, v, cv)
        return "scope" in d

    def some_only(self, x, acc):
        """Is x an iteration over, or a copy of, only part of auth_uri_fields?"""
        y = source(x)[1] if x.op == "it" else x
        rest = y.op == "op" and y.a[0] == "rest"
        if rest:
            y = E.strip(y.a[1])
        if account_field(y) != (acc, "auth_uri_fields"):
            return False
        n = x
        while type(n) is T and n.op == "it":
            if any(s.a[0] in ("filter", "filter_map", "take_while", "map_while") for s in n.a[1]):
                return True
            n = n.a[0]
        return rest or x.op == "it" and partial(x)

    def iterated(self, st):
        t = st.trace
        n = 0
        while t is not None and n < 60:
            v = t[0][2]
            if type(v) is T and v.op == "op" and v.a[0] == "exhausted" and any(y.op == "fld" and fname(y).endswith("Account.auth_uri_fields")
                                                                               for y in subterms(v)):
                return True
            t = t[1]
            n += 1
        return False

    def extra(self, v, acc):
        """Part of an entry of auth_uri_fields?"""
        v = E.strip(v)
        while v.op in ("fld", "ix"):
            if account_field(v) == (acc, "auth_uri_fields"):
                return True
            v = E.strip(v.a[0])
        return account_field(v) == (acc, "auth_uri_fields")

    def leak(self, eng, st, ev, f, v, cv):
        if self.open(v, cv) or eng.contains(v, lambda x: x.op == "fld" and re.search(
                r"(client_secret|access_token|refresh_token|code_verifier)$", fname(x)) is not None):
            self.bad(eng, st, ev, "secret in %s" % f, "a secret is put into the authorisation URL: %s" % show(v, 5))

    def open(self, v, cv):
        """Does v contain cv other than hashed?"""
        v = E.strip(v)
        if v is cv:
            return True
        if callee(v).split("::")[-1] in ("finalize", "digest"):
            return False
        out = []
        for y in v.a:
            if type(y) is T:
                out.append(y)
            elif type(y) is tuple:
                out += [z for z in y if type(z) is T]
        return any(self.open(y, cv) for y in out) if len(out) < 30 and cv.atoms & v.atoms else False

    def challenge(self, v, cv):
        v = E.strip(v)
        if not callee(v).endswith("Engine::encode") or "URL_SAFE_NO_PAD" not in show(cargs(v)[0], 3):
            return False
        h = E.strip(cargs(v)[1])
        c = callee(h)
        if c.endswith("Digest::digest"):
            return E.strip(cargs(h)[-1]) is cv
        if not c.endswith("::finalize"):
            return False
        x = E.strip(cargs(h)[0])
        return x.op in ("out", "call", "op") and re.search(r"::(update|chain_update)$", callee(x)) is not None and \
            E.strip(cargs(x)[1]) is cv and callee(E.strip(cargs(x)[0])).endswith("::new")


URLS = re.compile(r"Url::parse_with_params$")


def url_parts(eng, parts):
    """The authorisation URLs among the parts of a reply: [(part, alternatives)]"""
    out = []
    for p in parts:
        a = alts(eng, p)
        l = [x for x in a if any(fname(y).endswith("Pending.url") or some_of(y) is not None and URLS.search(callee(some_of(y))) for y in subterms(x))]
        if l:
            out.append((p, a))
    return out


class C11(Rule):
    prop = "C11"

    def __init__(self):
        super().__init__()
        self.need = {"access tokens handed out": 1, "URLs handed out": 2, "replies": 10}
        self.keeps = lambda k: request_text(k) or k.op == "op" and k.a[0] == "lt" and "access_token_expiry" in show(k, 6)

    def on(self, eng, st, ev):
        p = reply(ev)
        if p is None:
            return
        f = short(ev.fn)
        self.saw("replies", where2(ev))
        if command(eng, st) == "dump":
            return
        for x in p:
            for y in self.holds(eng, x, "access_token"):
                self.token(eng, st, ev, f, p, x, y)
            for y in self.holds(eng, x, "refresh_token"):
                self.bad(eng, st, ev, "refresh token in %s" % f, "a reply contains a refresh token")
        if p and (text(p[0]) or "").startswith("access_token:") and not any(self.holds(eng, x, "access_token") for x in p):
            self.bad(eng, st, ev, "no token in %s" % f, "a reply `access_token:` does not contain the account's access token: %s"
                     % ", ".join(show(x, 4) for x in p))
        for x, al in url_parts(eng, p):
            self.url(eng, st, ev, f, p, x, al)

    def holds(self, eng, x, k):
        return [y for y in eng.expand_all(x) if y.op == "fld" and fname(y).endswith("Active." + k)] if hasattr(eng, "expand_all") else \
            [y for y in self.deep(eng, x) if y.op == "fld" and fname(y).endswith("Active." + k)]

    def deep(self, eng, x):
        seen, work = set(), [x]
        while work:
            y = work.pop()
            for z in subterms(y):
                if z not in seen:
                    seen.add(z)
                    if z.op == "phi":
                        work += [q for q in eng.phi_in.get(z, ()) if q not in seen]
        return seen

    def token(self, eng, st, ev, f, p, x, y):
        self.saw("access tokens handed out", where2(ev))
        if len(p) != 2 or text(p[0]) != "access_token:" or x is not y:
            self.bad(eng, st, ev, "form in %s" % f, "an access token is written otherwise than as `access_token:` and the token: %s"
                     % ", ".join(show(z, 3) for z in p))
        b = ts_base(y.a[0])
        if b is None:
            return self.bad(eng, st, ev, "token in %s" % f, "cannot tell whose access token is handed out: %s" % show(y, 5))
        if named(eng, b[1]) is None:
            self.bad(eng, st, ev, "account in %s" % f, "the access token handed out is not known to be that of the account named in the request")
        ok = False
        for k, v in st.facts.items():
            if k.op == "op" and k.a[0] == "lt":
                for now, exp, want in ((k.a[1], k.a[2], True), (k.a[2], k.a[1], False)):
                    now, exp = E.strip(now), E.strip(exp)
                    if NOW.search(callee(now)) and exp.op == "fld" and fname(exp).endswith("Active.access_token_expiry") and \
                            ts_base(exp.a[0]) == b and v == ("=", True) and want:
                        ok = True
                    # !(expiry <= now) is the same
            c = callee(k).split("::")[-1]
            if c in ("checked_duration_since",) or k.op == "discr" and callee(k.a[0]).split("::")[-1] == "checked_duration_since":
                z = k.a[0] if k.op == "discr" else k
                a = [E.strip(q) for q in cargs(z)]
                if len(a) == 2 and NOW.search(callee(a[1])) and fname(a[0]).endswith("Active.access_token_expiry") and ts_base(a[0].a[0]) == b and v == ("=", 1):
                    ok = True
        if not ok:
            self.bad(eng, st, ev, "expired in %s" % f, "an access token is handed out although it may have expired")

    def url(self, eng, st, ev, f, p, x, al):
        self.saw("URLs handed out", where2(ev))
        if len(p) != 2 or text(p[0]) != "pending:":
            self.bad(eng, st, ev, "form of URL in %s" % f, "an authorisation URL is written otherwise than as `pending:` and the URL")
        names = set()
        for y in al:
            i = None
            if fname(y).endswith("Pending.url"):
                b = ts_base(y.a[0])
                i = b[1] if b else None
            elif some_of(y) is not None and URLS.search(callee(some_of(y))):
                a = account_field(cargs(some_of(y))[0])
                i = a[0].a[2] if a else None
            n = named(eng, i) if i is not None else None
            if n is None:
                self.bad(eng, st, ev, "whose URL in %s" % f, "the authorisation URL handed out is not known to be that of the account named in the request: %s" % show(y, 5))
            else:
                names.add(n)
        ws = word_fact(eng, st, "withurl")
        if not any(w not in names for w in ws):
            self.bad(eng, st, ev, "URL not asked for in %s" % f, "an authorisation URL is handed out although the client may not have asked for it")


class C33(Rule):
    prop = "C33"

    def __init__(self):
        super().__init__()
        self.need = {"revocations": 1, "other changes by requests": 1, "acknowledgements": 1}
        self.keeps = lambda k: request_text(k) or k.op == "discr" and callee(k.a[0]) == "validate_act_name" and from_client(k)

    def on(self, eng, st, ev):
        if ev.kind == "next" and source(ev.args[0])[0] == "incoming" or ev.kind == "call" and nm(ev).endswith("UnixListener::accept"):
            self.over(eng, st, ev)
            for x in ("done", "verb", "answered"):
                self.put(st, x, None)
        elif ev.kind == "exit":
            self.over(eng, st, ev)
        if not serves_client(eng):
            return
        if self.get(st, "verb") is None and ev.kind in ("call", "acquire", "prim", "enter") and command(eng, st) == "revoke":
            self.put(st, "verb", "revoke")
        if self.get(st, "verb") == "revoke" and self.known(st):
            self.put(st, "verb", "revoke existing")
        if ev.kind == "prim" and ev.name in CHANGES:
            f = short(ev.fn)
            c = command(eng, st)
            n, d = new_state(eng, st, ev)
            if c == "revoke":
                self.saw("revocations", where2(ev))
                if n != "Empty":
                    self.bad(eng, st, ev, "state in %s" % f, "a revocation leaves the account in state %s" % n)
                elif named(eng, ev.args[1]) is None or id_root(ev.args[1]) is not ev.args[1]:
                    self.bad(eng, st, ev, "account in %s" % f, "a revocation changes an account other than the one named")
                else:
                    self.put(st, "done", True)
                return
            self.saw("other changes by requests", where2(ev))
            old = old_variants(eng, st, ev.args[0], ev.args[1])
            if "Active" in old and n != "Active" and ev.name == "tokenstate_replace":
                self.bad(eng, st, ev, "%s in %s" % (c, f), "a request other than a revocation (%s) may discard an active token" % c)
        p = reply(ev)
        if p is not None and command(eng, st) == "revoke":
            ok = (text(p[0]) or "").startswith("ok")
            known = self.known(st)
            if ok:
                self.saw("acknowledgements", where2(ev))
                if not self.get(st, "done"):
                    self.bad(eng, st, ev, "acknowledged in %s" % short(ev.fn), "a revocation is acknowledged although the token was not discarded")
            elif self.get(st, "done"):
                self.bad(eng, st, ev, "error in %s" % short(ev.fn), "a revocation is reported to have failed although the token was discarded")
            elif known:
                self.bad(eng, st, ev, "refused in %s" % short(ev.fn), "the revocation of an existing account's token is refused")
            self.put(st, "answered", True)

    def known(self, st):
        return any(k.op == "discr" and callee(k.a[0]) == "validate_act_name" and from_client(k) and v == ("=", 1) for k, v in st.facts.items())

    def over(self, eng, st, ev):
        if self.get(st, "verb") == "revoke existing" and not self.get(st, "done"):
            self.bad(eng, st, ev, "not done", "a revocation of an existing account's token ends without discarding the token")
