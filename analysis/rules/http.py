"""What browsers and OAuth servers can cause: C07, C09, C10, C27, C30, C34, C35."""
from rules.common import *


def url_facts(eng, st, u):
    """[(part, other url)] for the parts of u that are known to equal those of another URL."""
    out = []
    for f, v in st.facts.items():
        if v != ("=", True) or f.op != "op" or f.a[0] != "eq":
            continue
        x, y = E.strip(f.a[1]), E.strip(f.a[2])
        m = re.search(r"Url::(\w+)$", callee(x))
        if m and callee(y) == callee(x):
            a, b = E.strip(cargs(x)[0]), E.strip(cargs(y)[0])
            for p, q in ((a, b), (b, a)):
                if p is u:
                    out.append((m.group(1), q))
    return out


def url_of(t):
    """Parsed URL -> the URL term without what unwraps it."""
    return E.strip(t)


def matches(eng, st, i):
    """Is the request that selected id i known to match the redirect URI of its account? (None or what is missing)"""
    u = matched_id(eng, st, i)
    if u is None:
        return "its `state` parameter was not matched with that account's pending authentication"
    acc = id_root(i)
    need = {"scheme": ("scheme",), "host": ("host_str", "host"), "port": ("port", "port_or_known_default")}
    have = set()
    for part, other in url_facts(eng, st, u):
        p, o, _ = redirect_leaves(eng, other)
        if p and not o and all(account_field(x) and same(account_field(x)[0].a[2], acc) and
                               account_field(x)[1] == "redirect_uri" for x in p):
            if part == "origin":
                have |= {"scheme", "host", "port"}
            for k, names in need.items():
                if part in names:
                    have.add(k)
    miss = [k for k in need if k not in have]
    return "its %s was not compared with that of the redirect URI" % " and ".join(miss) if miss else None


class C07(Rule):
    prop = "C07"

    def __init__(self):
        super().__init__()
        self.keeps = url_fact
        self.need = {"changes of a token state by a browser's request": 2, "requests sent for a browser's request": 1}

    def on(self, eng, st, ev):
        if ev.kind == "prim" and ev.name in MUTATIONS and in_tcp(eng, st):
            self.saw("changes of a token state by a browser's request", where2(ev))
            self.gate(eng, st, ev, ev.args[1], "changes the token state of an account")
        elif ev.kind == "call" and NETREQ.search(nm(ev)) and in_tcp(eng, st):
            self.saw("requests sent for a browser's request", where2(ev))
            r = request_parts(ev.args[0])
            a = account_field(r["url"]) if r else None
            if a is None:
                self.bad(eng, st, ev, "request in %s" % short(ev.fn), "a browser's request causes an outgoing request that is "
                         "not tied to the account that it matched")
                return
            self.gate(eng, st, ev, a[0].a[2], "causes a request to an OAuth server")

    def gate(self, eng, st, ev, i, what):
        why = matches(eng, st, i)
        if why:
            self.bad(eng, st, ev, "%s in %s: %s" % (what, short(ev.fn), why),
                     "an incoming HTTP request %s although %s" % (what, why))


REQ = re.compile(r"(Agent::|^ureq::)(post|request|get|put|delete|request_url|head|patch)$")


def request_parts(t):
    """The parts of a request that is being built."""
    chain = []
    n = 0
    while n < 20:
        n += 1
        t = E.strip(t)
        c = callee(t)
        m = REQ.search(c)
        if m:
            a = cargs(t)
            method = m.group(2)
            agent = a[0] if "Agent" in c else None
            if method.startswith("request"):
                method = (cval(E.strip(a[-2])) or "?").lower()
            return {"method": method, "url": E.strip(a[-1]), "chain": chain, "agent": agent}
        if not cargs(t):
            return None
        chain.append(t)
        t = cargs(t)[0]
    return None


BUILDER = re.compile(r"(AgentBuilder::(new|timeout\w*|user_agent|redirects|max_idle\w*|https_only|no_delay|build)|ureq::agent|"
                     r"Agent::(new|clone)|ureq::builder)$")


class C09(Rule):
    prop = "C09"

    def __init__(self):
        super().__init__()
        self.need = {"token requests": 2, "grant authorization_code": 1, "grant refresh_token": 1}

    def on(self, eng, st, ev):
        if ev.kind != "call" or not NETREQ.search(nm(ev)):
            return
        self.saw("token requests", where2(ev))
        f = short(ev.fn)
        r = request_parts(ev.args[0])
        if r is None or not nm(ev).endswith("send_form"):
            return self.bad(eng, st, ev, "kind of request in %s" % f, "an outgoing request is not a form sent by POST (%s)" % last(ev, 2))
        if r["method"] != "post":
            self.bad(eng, st, ev, "method in %s" % f, "credentials are sent with method %s" % r["method"])
        for c in r["chain"]:
            if not re.search(r"Request::(timeout|set)$", callee(c)) or \
                    callee(c).endswith("set") and any(text(E.strip(x)) is None for x in cargs(c)[1:]):
                self.bad(eng, st, ev, "request option in %s" % f, "the request carries something besides its form (%s)" % callee(c))
        x = r["agent"]
        n = 0
        while x is not None and n < 12:
            n += 1
            x = E.strip(x)
            if not BUILDER.search(callee(x)):
                self.bad(eng, st, ev, "agent option in %s" % f, "the request is sent through an agent with option %s" % callee(x))
                break
            x = cargs(x)[0] if cargs(x) else None
        a = account_field(r["url"])
        if a is None or a[1] != "token_uri":
            return self.bad(eng, st, ev, "destination in %s" % f, "credentials are sent to a URL that is not the token URI of an account: %s"
                            % show(r["url"], 4))
        acc = a[0]
        forms = list_alts(eng, ev.args[1])
        for elems, star in forms:
            self.form(eng, st, ev, f, acc, elems, star)

    def secret(self, eng, t):
        return eng.contains(t, lambda x: x.op == "fld" and re.search(
            r"(refresh_token|access_token|client_secret|code_verifier)$", fname(x)) is not None)

    def form(self, eng, st, ev, f, acc, elems, star):
        d = {}
        ok = True
        for e in list(elems) + sorted(star, key=lambda x: x.id):
            if type(e) is not T or e.op != "tup" or len(e.a[0]) != 2 or type(cval(E.strip(e.a[0][0]))) is not str:
                self.bad(eng, st, ev, "form field in %s" % f, "a form field of a token request is not known: %s" % show(e, 4))
                ok = False
                continue
            k = cval(E.strip(e.a[0][0]))
            if k in d and d[k] is not e.a[0][1]:
                self.bad(eng, st, ev, "field %s twice in %s" % (k, f), "form field %s is sent twice" % k)
            d[k] = E.strip(e.a[0][1])
        if not ok:
            return
        grant = cval(d.get("grant_type", UNIT))
        req = {"authorization_code": ["code", "client_id", "code_verifier", "redirect_uri"],
               "refresh_token": ["client_id", "refresh_token"]}.get(grant)
        if req is None:
            return self.bad(eng, st, ev, "grant type in %s" % f, "a token request has grant_type %s" % grant)
        self.saw("grant " + grant, where2(ev))
        for k in req:
            if k not in d:
                self.bad(eng, st, ev, "no %s in %s" % (k, f), "a token request lacks form field %s" % k)
        for k, v in sorted(d.items()):
            if k == "grant_type":
                continue
            if k not in req and k != "client_secret":
                self.bad(eng, st, ev, "field %s in %s" % (k, f), "a token request carries form field %s" % k)
                continue
            self.saw("form fields", "%s %s" % (k, where(ev)))
            why = self.value(eng, st, acc, k, v)
            if why:
                self.bad(eng, st, ev, "%s in %s" % (k, f), "form field %s of a token request %s: %s" % (k, why, show(v, 5)))
        cs = mk("discr", eng.fld(acc, "pizauth::config::Account.client_secret", field_index(eng, "pizauth::config::Account", "client_secret")))
        known = st.facts.get(cs)
        if "client_secret" not in d and known != ("=", 0):
            self.bad(eng, st, ev, "client_secret missing in %s" % f, "a token request may lack the configured client secret")
        if grant == "authorization_code":
            s = id_src(acc.a[2])
            if s is None or s.a[0] != AID:
                self.bad(eng, st, ev, "code for unmatched account in %s" % f, "an authorisation code is sent for an account that "
                         "was not matched with the request")

    def value(self, eng, st, acc, k, v):
        if k in ("client_id", "client_secret"):
            x = some_of(v) if k == "client_secret" else v
            a = account_field(x) if x is not None else None
            return None if a and a[0] is acc and a[1] == k else "is not that of the account whose token URI it is sent to"
        if k == "redirect_uri":
            return None if is_redirect_of(eng, v, acc) else "is not the redirect URI of the account"
        if k == "code":
            q = query_pair(eng, st, v)
            u = matched_id(eng, st, acc.a[2])
            if q is None or q[1] != "code" or u is None or q[0] is not u:
                return "is not the `code` of the request that matched the account"
            return None
        lab = {"code_verifier": "Pending.code_verifier", "refresh_token": "Active.refresh_token"}[k]
        x = some_of(v) if k == "refresh_token" else v
        if x is not None and x.op == "fld" and fname(x) == "TokenState::" + lab or x is not None and x.op == "fld" and x.a[1].endswith(lab):
            b = ts_base(x.a[0])
            if b and b[0] is acc.a[1] and id_root(b[1]) is acc.a[2]:
                return None
        return "does not come from the token state of the account (read under the same lock)"


def field_index(eng, adt, f):
    for j, (n, _) in enumerate(eng.p.adts[adt]["v"][0]["f"]):
        if n == f:
            return j
    return 0


def response_of(t):
    """Chase a value taken from a JSON response: (json value, key, how it was read) or None."""
    t = E.strip(t)
    how = []
    n = 0
    while n < 12:
        n += 1
        t = E.strip(t)
        if t.op == "op" and t.a[0] == "json":
            k = cval(E.strip(t.a[2]))
            return E.strip(t.a[1]), k, how
        if t.op == "fld":
            how.append(t.a[1].split("::", 1)[-1] if type(t.a[1]) is str else str(t.a[1]))
            t = t.a[0]
        elif t.op in ("op", "call") and cargs(t):
            how.append(callee(t).split("::")[-1])
            t = cargs(t)[0]
        else:
            return None
    return None


PLAIN = {"as_str", "as_u64", "to_owned", "to_string", "into", "from", "clone", "cloned", "copied", "as_deref", "as_ref", "get", "take", "map", "unwrap",
         "expect", "from_value", "String.0", "Some.0", "Ok.0", "Number.0", "String", "into_string", "try_into", "borrow", "as_object", "Object.0"}


def plain(how):
    """Is a string read from a response left as it is?"""
    return all(h in PLAIN or h.split("::")[-1] in PLAIN for h in how)


def body_of(eng, t):
    """The network request whose successful response the JSON value t was parsed from."""
    out = []
    for x in alts(eng, t):
        y = some_of(x)
        if y is None:
            return None
        c = callee(y)
        if c.endswith("Response::into_json"):
            rs = [cargs(y)[0]]
        elif c.endswith("serde_json::from_str") or c.endswith("from_str") or c.endswith("str::parse"):
            rs = []
            for b in alts(eng, cargs(y)[0]):
                while b.op == "agg" and b.a[0].endswith("Option") and b.a[1] == 1:
                    b = E.strip(b.a[2][0])
                z = some_of(b)
                if z is not None and z.op == "phi":
                    zs = [q for q in alts(eng, z) if not (q.op == "agg" and q.a[0].endswith("Option") and q.a[1] == 0 or q.op == "old" and q.a[1] is z)]
                    zs = [some_of(E.strip(q.a[2][0])) if q.op == "agg" and q.a[2] else None for q in zs]
                else:
                    zs = [z]
                for z in zs:
                    if z is None or not callee(z).endswith("Response::into_string"):
                        return None
                    rs.append(cargs(z)[0])
        else:
            return None
        for r in rs:
            q = some_of(E.strip(r))
            if q is None or not NETREQ.search(callee(q)):
                return None
            out.append(q)
    return out[0] if out else None


def is_none(eng, st, t):
    t = E.strip(t)
    if t.op == "agg" and t.a[0].endswith("Option"):
        return t.a[1] == 0
    f = st.facts.get(mk("discr", t))
    if f is None:
        return None
    return f[1] == 0 if f[0] == "=" else (False if 0 in f[1] else None)


def json_str(eng, st, p, key):
    """Is the member `key` of JSON value p a string? (True / False / None if unknown)"""
    j = mk("op", "json", p, C(("s", key)))
    for f, v in st.facts.items():
        if f.op == "discr" and f.a[0].op in ("op", "call") and callee(f.a[0]).endswith("Value::as_str") and cargs(f.a[0])[0] is j:
            return v == ("=", 1) if v[0] == "=" else 0 in v[1]
    f = st.facts.get(mk("op", "serde_json::Value::is_string", j))
    if f is not None and f[0] == "=":
        return bool(f[1])
    g = st.facts.get(mk("discr", mk("op", "jsonget", p, C(("s", key)))))
    if g == ("=", 0) or g is not None and g[0] == "!" and 1 in g[1]:
        return False
    d = st.facts.get(mk("discr", j))
    if d is not None:
        return d[1] == 3 if d[0] == "=" else (False if 3 in d[1] else None)
    return None


class C10(Rule):
    prop = "C10"

    def __init__(self):
        super().__init__()
        self.need = {"tokens stored from responses": 2}

    def on(self, eng, st, ev):
        if ev.kind == "call":
            n = nm(ev)
            if NETREQ.search(n) or re.search(r"Response::into_(string|json|reader)$", n):
                self.put(st, "nows", ())
            elif NOW.search(n) and self.get(st, "nows") is not None:
                self.put(st, "nows", (self.get(st, "nows") + (ev.ret,))[-4:])
        if ev.kind != "prim" or ev.name != "tokenstate_replace":
            return
        n, d = new_state(eng, st, ev)
        if n != "Active" and n is not None:
            return
        f = short(ev.fn)
        if n is None:
            b = ts_base(ev.args[2])
            if b and id_root(b[1]) is id_root(ev.args[1]):
                return
            return self.bad(eng, st, ev, "unknown state in %s" % f, "cannot tell which token state is stored: %s" % show(ev.args[2], 4))
        at = E.strip(d["access_token"])
        if self.copied(d, ev, "access_token"):
            self.saw("token states copied", where2(ev))
            for k in ("access_token_obtained", "access_token_expiry", "refresh_token"):
                if not self.copied(d, ev, k):
                    self.bad(eng, st, ev, "%s changed in %s" % (k, f), "%s of an active token is changed although no new token was "
                             "received" % k)
            return
        self.saw("tokens stored from responses", where2(ev))
        r = response_of(at)
        q = body_of(eng, r[0]) if r else None
        if q is None or r[1] != "access_token" or not any(h in ("as_str", "Value::String.0", "String.0") or h.endswith("String.0") for h in r[2]):
            return self.bad(eng, st, ev, "access token in %s" % f, "the stored access token is not the string `access_token` of a "
                            "successful response: %s" % show(at, 6))
        if not plain(r[2]):
            self.bad(eng, st, ev, "access token changed in %s" % f, "the stored access token is not exactly the one received: %s" % show(at, 6))
        p = r[0]
        if json_str(eng, st, p, "error") is not False:
            self.bad(eng, st, ev, "error accepted in %s" % f, "a token is stored although the response may contain an `error`")
        tt = False
        for x, v in st.facts.items():
            if v == ("=", "Bearer"):
                y = response_of(x)
                tt |= y is not None and y[0] is p and y[1] == "token_type" and plain(y[2])
        if not tt:
            self.bad(eng, st, ev, "token_type in %s" % f, "a token is stored although its type may not be `Bearer`")
        nows = self.get(st, "nows") or ()
        ob = E.strip(d["access_token_obtained"])
        if ob not in nows:
            self.bad(eng, st, ev, "obtained in %s" % f, "the time at which the token was obtained is not taken after the response "
                     "was received")
        self.expiry(eng, st, ev, f, p, E.strip(d["access_token_expiry"]), nows)
        self.put(st, "nows", None)
        self.refresh(eng, st, ev, f, p, E.strip(d["refresh_token"]), id_root(ev.args[1]))

    def copied(self, d, ev, k):
        v = E.strip(d[k])
        if v.op == "fld" and v.a[1].endswith("Active." + k):
            b = ts_base(v.a[0])
            return b is not None and id_root(b[1]) is id_root(ev.args[1])
        return False

    def expiry(self, eng, st, ev, f, p, t, nows):
        y = some_of(t)
        ok = False
        if y is not None and callee(y).endswith("Instant::checked_add") and E.strip(cargs(y)[0]) in nows:
            d = E.strip(cargs(y)[1])
            r = response_of(d)
            if r and r[0] is p and r[1] == "expires_in" and [h for h in r[2] if h not in ("Option::Some.0", "option::Option::Some.0")] == ["from_secs", "as_u64"]:
                ok = True
            else:
                # fall back on refresh_at_least, but only if the other cannot be represented
                for x, v in st.facts.items():
                    if v in (("=", 0),) and x.op == "discr" and callee(x.a[0]).endswith("Instant::checked_add"):
                        r = response_of(E.strip(cargs(x.a[0])[1]))
                        if r and r[0] is p and r[1] == "expires_in" and cargs(x.a[0])[0] is cargs(y)[0]:
                            ok = True
        if not ok:
            self.bad(eng, st, ev, "expiry in %s" % f, "the expiry stored is not the moment of the response plus its `expires_in`: %s" % show(t, 6))

    def refresh(self, eng, st, ev, f, p, t, root):
        s = json_str(eng, st, p, "refresh_token")
        code = (id_src(ev.args[1]) or mk("op", "?")).a[0] == AID
        inner = E.strip(t.a[2][0]) if t.op == "agg" and t.a[1] == 1 else None
        r = response_of(inner if inner is not None else t)
        b = None
        x = inner if inner is not None else t
        y = some_of(x) if some_of(x) is not None else x
        if y.op == "fld" and y.a[1].endswith("Active.refresh_token"):
            b = ts_base(y.a[0])
        if r and r[0] is p:
            if r[1] != "refresh_token":
                self.bad(eng, st, ev, "refresh token in %s" % f, "the stored refresh token is member `%s` of the response" % r[1])
            elif not plain(r[2]):
                self.bad(eng, st, ev, "refresh token changed in %s" % f, "the stored refresh token is not exactly the one received: %s" % show(t, 6))
        elif t.op == "agg" and t.a[1] == 0:
            if s is True:
                self.bad(eng, st, ev, "refresh token dropped in %s" % f, "a refresh token that was received is not stored")
            elif not code:
                j = st.facts.get(mk("discr", mk("op", "jsonget", p, C(("s", "refresh_token")))))
                if not (j == ("=", 1) or j is not None and j[0] == "!" and 0 in j[1]):
                    self.bad(eng, st, ev, "refresh token lost in %s" % f, "the refresh token is discarded although the response may "
                             "contain none")
        elif b is not None and id_root(b[1]) is root and not code:
            if s is True or s is None:
                self.bad(eng, st, ev, "old refresh token in %s" % f, "the old refresh token is kept although the response may contain "
                         "a new one")
        else:
            self.bad(eng, st, ev, "refresh token in %s" % f, "the stored refresh token is neither that of the response nor the old "
                     "one: %s" % show(t, 5))


class C34(Ids, Rule):
    prop = "C34"

    def __init__(self):
        super().__init__()
        self.keeps = url_fact
        self.need = {"exchanges": 1, "failures reset": 2, "errors reported in a redirect": 1}
        self.keys = {}
        self.exits = []

    def learn(self, eng, st):
        """Which parameter the closures that searched the query look for."""
        for f, v in st.facts.items():
            if f.op == "fld" and f.a[0].op == "ix" and v[0] == "=" and type(v[1]) is str and f.a[0].a[1].op == "op" \
                    and f.a[0].a[1].a[0] == "wit" and callee(E.strip(f.a[0].a[0])).endswith("query_pairs"):
                c = f.a[0].a[1].a[2]
                if c.op == "clo":
                    self.keys[c] = v[1]

    def on(self, eng, st, ev):
        if not in_tcp(eng, st):
            return
        self.follow(st, ev, self.get(st, "open"))
        if ev.kind == "call" and NETREQ.search(nm(ev)):
            r = request_parts(ev.args[0])
            a = account_field(r["url"]) if r else None
            if a:
                self.saw("exchanges", where2(ev))
                self.put(st, "open", a[0].a[2])
                self.put(st, "msg", None)
        elif ev.kind == "prim" and ev.name == "tokenstate_replace":
            n, _ = new_state(eng, st, ev)
            if n == "Active":
                if self.get(st, "open") is id_root(ev.args[1]):
                    self.put(st, "open", None)
            elif n == "Empty":
                self.saw("failures reset", where2(ev))
                self.put(st, "open", None)
                self.put(st, "report", id_root(ev.args[1]))
                self.put(st, "done", True)
                self.learn(eng, st)
                u = matched_id(eng, st, ev.args[1])
                if self.has(st, u, "error"):
                    self.saw("errors reported in a redirect", where2(ev))
            else:
                self.bad(eng, st, ev, "state in %s" % short(ev.fn), "after a browser's request the account is left in state %s" % n)
        elif ev.kind == "prim" and ev.name == AID:
            self.put(st, "asked", True)
        elif ev.kind == "spawn":
            if self.get(st, "report") is not None and has_env(eng, ev.extra, "PIZAUTH_MSG"):
                self.put(st, "report", None)
        elif ev.kind == "call" and is_log(ev, ("Error",)):
            if self.get(st, "report") is not None:
                self.put(st, "report", None)
        if ev.kind in ("exit", "panic", "exitproc", "release") and self.get(st, "asked"):
            if ev.kind == "release":
                i = self.get(st, "open")
                if i is not None and self.gone(st, i):
                    self.put(st, "open", None)     # its state was replaced by someone else
                    self.put(st, "done", True)
                return
            self.learn(eng, st)
            self.over(eng, st, ev)

    def has(self, st, u, key):
        for f, v in st.facts.items():
            if v == ("=", key) and f.op == "fld" and f.a[0].op == "ix" and callee(E.strip(f.a[0].a[0])).endswith("query_pairs") \
                    and E.strip(cargs(E.strip(f.a[0].a[0]))[0]) is u:
                return True
        return False

    def over(self, eng, st, ev):
        i = self.get(st, "open")
        if i is not None:
            self.bad(eng, st, ev, "not reset (%s)" % self.why(eng, st), "a failed exchange (%s) ends without resetting the pending "
                     "authentication" % self.why(eng, st))
        if self.get(st, "report") is not None:
            self.bad(eng, st, ev, "not reported (%s)" % self.why(eng, st), "a failed authentication (%s) is not reported to the user"
                     % self.why(eng, st))
        if self.get(st, "done") is None and i is None:
            # nothing was sent, nothing changed: then there was no `error`
            for f, v in list(st.facts.items()):
                if f.op == "discr" and v == ("=", 1) and f.a[0].op == "op" and f.a[0].a[0] == AID:
                    i = mk("fld", f.a[0], "std::option::Option::Some.0")
                    if matches(eng, st, i) is None and self.get(st, "sent") is None:
                        u = matched_id(eng, st, i)
                        if self.has(st, u, "error"):
                            self.bad(eng, st, ev, "error in redirect ignored", "an error that the authorisation server reports in the "
                                     "redirect does not end the authentication")
                        absent = [g.a[3] for g, w in st.facts.items() if w == ("=", False) and g.op == "op" and g.a[0] == "exists"
                                  and callee(E.strip(g.a[2])).endswith("query_pairs")]
                        self.exits.append((ev, st.trace, absent))

    def why(self, eng, st):
        w = "no response"
        for f, v in st.facts.items():
            if f.op == "discr" and v[0] == "=" and f.a[0].op in ("op", "call"):
                c = callee(f.a[0]).split("::")[-1]
                if c == "checked_add" and v[1] == 0:
                    return "expiry"
                if c in ("from_str",) and v[1] == 1:
                    w = "malformed JSON"
                elif c == "into_string" and v[1] == 1 and w == "no response":
                    w = "unreadable response"
        return w

    def finish(self, eng):
        for ev, tr, absent in self.exits:
            if not any(self.keys.get(c) == "error" for c in absent):
                eng.violate(self.prop, "redirect ignored before looking for an error",
                            "a matching redirect is ignored although it may report an error", ev, None)


def is_log(ev, levels):
    """Is this call event a log statement (of one of the levels)?"""
    n = nm(ev)
    if not n.startswith("log::"):
        return False
    s = " ".join(show(a, 3) for a in ev.args)
    return "log" in n and (not levels or any(("Level::%s" % l) in s or ("Level#%d" % {"Error": 0, "Warn": 1, "Info": 2, "Debug": 3, "Trace": 4}[l]) in s
                                             for l in levels) or "__private_api" in n and "log" in n)


def has_env(eng, clo, key):
    """Does a spawned closure set an environment variable?"""
    if clo is None:
        return False
    if any(text(y) == key for y in subterms(clo)):
        return True
    b = eng.p.bodies.get(clo.a[0])
    return b is not None and key in repr(b["blocks"]) or any(key in repr(x["blocks"]) for x in eng.p.local
                                                               if b is not None and x["id"] in reach(eng.p, b["id"]))


READS = re.compile(r"::(read|read_to_end|read_to_string|read_exact|read_line|read_until|read_buf|read_vectored|bytes|lines|split|"
                   r"fill_buf|skip_until|copy)$")


def tcp_stream(x):
    """Is x an accepted TCP connection?"""
    return x.op == "ix" and any(y.op in ("op", "call") and "TcpListener::incoming" in str(y.a[0]) for y in subterms(x.a[0])) or \
        x.op in ("op", "call") and re.search(r"TcpListener::(accept|incoming)$", callee(x)) is not None


class C27(Rule):
    prop = "C27"
    MAX = 16 * 1024

    def __init__(self):
        super().__init__()
        self.need = {"reads from a browser's connection": 2, "limits": 1}

    def on(self, eng, st, ev):
        if ev.kind != "call" or not in_tcp(eng, st):
            return
        n = nm(ev)
        if n.endswith("Read::take"):
            if eng.contains(ev.args[0], tcp_stream):
                self.saw("limits", where2(ev))
                k = cval(E.strip(ev.args[1]))
                if type(k) is not int or k > self.MAX:
                    self.bad(eng, st, ev, "limit in %s" % short(ev.fn), "the limit for the data of an HTTP request is %s"
                             % (k if k is not None else show(ev.args[1], 3)))
                if self.get(st, "taken"):
                    self.bad(eng, st, ev, "second limit in %s" % short(ev.fn), "the limit for the data of an HTTP request is applied "
                             "more than once to the same connection")
                self.put(st, "taken", True)
            return
        if n.endswith("Take::set_limit"):
            self.bad(eng, st, ev, "limit changed in %s" % short(ev.fn), "the limit for the data of an HTTP request is changed")
        if n.startswith("std::io::") and READS.search(n) and ev.args:
            if not eng.contains(ev.args[0], tcp_stream):
                return
            self.saw("reads from a browser's connection", where2(ev))
            if self.unlimited(eng, ev.args[0]):
                self.bad(eng, st, ev, "%s in %s" % (last(ev), short(ev.fn)), "an unlimited amount of data may be read from a browser's "
                         "connection (%s)" % last(ev, 2))

    def unlimited(self, eng, t):
        seen, work = set(), [t]
        while work:
            x = work.pop()
            if type(x) is tuple:
                work += list(x)
                continue
            if type(x) is not T or x in seen:
                continue
            seen.add(x)
            if x.op in ("op", "call", "out") and callee(x).endswith("Read::take"):
                k = cval(E.strip(cargs(x)[1]))
                if type(k) is int and k <= self.MAX:
                    continue
            if tcp_stream(x):
                return True
            if x.op in ("op", "call", "out") and re.search(r"Take::(into_inner|get_mut|get_ref)$", callee(x)):
                return True
            if x.op == "phi":
                work += list(eng.phi_in.get(x, ()))
            elif x.op == "out":
                a = cargs(x)
                k = cval(x.a[2]) if x.a[2].op == "c" else 0
                work.append(a[k] if type(k) is int and k < len(a) else a)
            else:
                work += [y for y in x.a if type(y) in (T, tuple)]
        return False


SETUP = re.compile(r"(ServerConnection::new|try_clone|TcpStream::\w+|Builder::spawn\w*)$")


class C35(Rule):
    prop = "C35"

    def __init__(self):
        super().__init__()
        self.need = {"accepting loops": 2, "threads for connections": 2}
        self.keeps = lambda k: k.op == "discr" and (SETUP.search(callee(k.a[0])) is not None or tcp_stream(k.a[0]))

    def on(self, eng, st, ev):
        if in_tcp(eng, st, ev) and ev.kind == "call" and st.held:
            k = blocking(eng, ev)
            if k:
                self.bad(eng, st, ev, "%s under a lock" % last(ev, 2), "a connection's thread can block (%s) while it holds a lock that other connections' threads need (%s)"
                         % (last(ev, 2), ", ".join(sorted(short(g.a[0]) for g in st.held))))
        if ev.kind == "elem" and is_incoming(ev.args[0]):
            self.put(st, "conn", ev.fn)
        elif ev.kind == "spawn" and eng.contains(ev.extra, tcp_stream):
            self.put(st, "conn", None)
        elif ev.kind == "back" and self.get(st, "conn") is not None and self.get(st, "conn") == ev.fn:
            if not any(k.op == "discr" and v == ("=", 1) for k, v in st.facts.items()) and self.get(st, "loop"):
                self.bad(eng, st, ev, "connection dropped", "a connection may be dropped without being handled although nothing went wrong with it")
        if ev.kind == "next" and is_incoming(ev.args[0]):
            self.put(st, "conn", None)
        if ev.kind == "next" and is_incoming(ev.args[0]):
            self.saw("accepting loops", short(ev.stack[0] if ev.stack else ev.fn))
            self.put(st, "loop", True)
            if stops_early(ev.args[0]):
                self.bad(eng, st, ev, "accepting loop ends", "an error on one connection ends the loop that accepts connections")
        if ev.kind == "exhausted" and is_incoming(ev.args[0]):
            self.put(st, "done", True)
        if not self.get(st, "loop"):
            return
        root = ev.stack[0] if ev.stack else ev.fn
        if ev.kind == "spawn":
            if eng.contains(ev.extra, tcp_stream):
                self.saw("threads for connections", where(ev))
        elif ev.kind == "call":
            k = blocking(eng, ev)
            if k and not re.search(r"TcpListener::", nm(ev)):
                self.bad(eng, st, ev, "%s in accepting loop" % last(ev, 2), "the thread that accepts connections can block (%s)" % last(ev, 2))
            if re.search(r"(JoinHandle|ScopedJoinHandle)(::<.*>)?::join$|thread::scope$", nm(ev)):
                self.bad(eng, st, ev, "join in accepting loop", "the thread that accepts connections waits for another thread")
        elif ev.kind in ("acquire", "cond_wait"):
            self.bad(eng, st, ev, "%s in accepting loop" % ev.kind, "the thread that accepts connections can block (lock %s)" % ev.name)
        elif ev.kind in ("panic", "exitproc"):
            self.bad(eng, st, ev, "%s in accepting loop" % ev.kind, "the thread that accepts connections can be ended by an error (%s)" % last(ev, 2))
        elif ev.kind == "exit":
            if not self.get(st, "done"):
                self.bad(eng, st, ev, "accepting loop ends", "an error on one connection ends the loop that accepts connections")


def stops_early(it):
    """May an iterator stop before what it iterates over has ended?"""
    return partial(it) or any(x.op in ("op", "call", "stage") and any(type(a) is str and re.search(r"(^|::)(map_while|take_while|take|scan|try_fold|step_by)$", a)
                                                                       for a in x.a) for x in subterms(it))


def is_incoming(it):
    n, x = source(it)
    n = callee(x)
    return "TcpListener::" in n and n.split("::")[-1] in ("incoming", "into_incoming")


class C30(Rule):
    prop = "C30"

    def __init__(self):
        super().__init__()
        self.need = {"listeners": 2, "ports set in redirect URIs": 2, "request URIs": 2}
        self.nones = []

    def finish(self, eng):
        for k, want, none, ev, tr in self.nones:
            if not any(want in self.port_of(eng, x) for x in none):
                eng.violate(self.prop, "%s reported as none" % k, "`info` may report that there is no %s although there is" % k, ev, None)
        super().finish(eng)

    def port_of(self, eng, t, d=0):
        """Which configured address a port term belongs to: set of 'http_listen' / 'https_listen' / 'none' / '?'"""
        out = set()
        for x in alts(eng, t):
            if x.op == "agg" and x.a[0].endswith("Option"):
                if x.a[1] == 0:
                    out.add("none")
                else:
                    out |= self.port_of(eng, x.a[2][0], d + 1)
            elif some_of(x) is not None and d < 6 and not callee(x):
                y = E.strip(some_of(x))
                if y.op == "fld" and self.objport(eng, y):
                    out |= self.port_of(eng, y, d + 1)
                else:
                    out |= self.bound(eng, x)
            elif x.op == "fld":
                d2 = self.objport(eng, x)
                if d2 is not None and d < 6:
                    for v in d2:
                        out |= self.port_of(eng, v, d + 1)
                else:
                    out |= self.bound(eng, x)
            else:
                out |= self.bound(eng, x)
        return out

    def objport(self, eng, x):
        """Definitions of a field of the global state."""
        if x.a[0].op == "sym" and x.a[0] in eng.objs:
            f = fname(x).split(".")[-1]
            out = []
            for o in eng.objs[x.a[0]]:
                names = [q[0] for q in eng.p.adts[o.a[0]]["v"][0]["f"]]
                if f in names:
                    out.append(o.a[2][names.index(f)])
            return out
        return None

    def bound(self, eng, x):
        if not callee(x).endswith("SocketAddr::port"):
            return {"?"}
        out = set()
        for b in eng.expand(x):
            if b.op in ("op", "call") and callee(b).endswith("TcpListener::bind"):
                out.add(addr_of(b))
        return out or {"?"}

    def on(self, eng, st, ev):
        if ev.kind == "call" and nm(ev).endswith("TcpListener::bind"):
            self.saw("listeners", where2(ev))
            a = addr_of(ev.ret)
            if a == "?":
                self.bad(eng, st, ev, "address in %s" % short(ev.fn), "a listener is bound to something other than a configured "
                         "address: %s" % show(ev.args[0], 4))
        elif ev.kind == "agg" and ev.name.endswith("::" + GLOBAL):
            pass
        elif ev.kind == "call" and nm(ev).endswith("Url::set_port"):
            self.saw("ports set in redirect URIs", where2(ev))
            u = E.strip(ev.args[0])
            sch = self.scheme(eng, st, u)
            p = self.port_of(eng, ev.args[1])
            want = {"https": "https_listen", "http": "http_listen"}.get(sch)
            notls = any(f.op == "discr" and v == ("=", 0) and self.port_of(eng, f.a[0]) & {"https_listen"} for f, v in st.facts.items())
            if notls and sch == "https":
                want = None
            if want is None:
                # scheme not https, or https while there is no TLS listener (ruled out by the configuration check)
                want = "http_listen"
                if sch is None:
                    if not notls:
                        self.bad(eng, st, ev, "port regardless of scheme in %s" % short(ev.fn), "the port of a redirect URI is set "
                                 "without regard to its scheme")
            bad = p - {want, "none"}
            if bad:
                self.bad(eng, st, ev, "port of %s in %s" % (sch, short(ev.fn)), "the port of a redirect URI with scheme %s is that of %s"
                         % (sch, ", ".join(sorted(bad))))
        elif ev.kind == "insert" and len(ev.args) >= 3:
            k = cval(E.strip(ev.args[1]))
            if k in ("http_port", "https_port"):
                self.saw("ports reported", where2(ev))
                v = E.strip(ev.args[2])
                want = "http_listen" if k == "http_port" else "https_listen"
                if cval(v) == "none":
                    none = tuple(f.a[0] for f, x in st.facts.items() if f.op == "discr" and x == ("=", 0) and E.strip(f.a[0]).op == "fld")
                    self.nones.append((k, want, none, ev, st.trace))
                    return
                p = self.port_of(eng, v)
                if p - {want, "none"}:
                    self.bad(eng, st, ev, "%s reported" % k, "`info` reports as %s that of %s" % (k, ", ".join(sorted(p))))
        elif ev.kind == "call" and nm(ev).endswith("Url::parse") and in_tcp(eng, st):
            t = E.strip(ev.args[0])
            if account_field(t) or not eng.contains(t, lambda x: x.op in ("op", "call", "out") and re.search(r"::read(_line|_until|_to_string|_to_end|)$", callee(x)) is not None):
                return
            self.saw("request URIs", where2(ev))
            parts = M.fmt_parts(t)
            s = cval(parts[0]) if parts else None
            tls = eng.contains(eng.cur_root, lambda x: x.op in ("op", "call") and callee(x).endswith("TcpListener::bind") and addr_of(x) == "https_listen")
            plain = eng.contains(eng.cur_root, lambda x: x.op in ("op", "call") and callee(x).endswith("TcpListener::bind") and addr_of(x) == "http_listen")
            enc = eng.contains(t, lambda x: x.op in ("op", "call") and callee(x).startswith("rustls::"))
            want = "https://" if tls and not plain else "http://" if plain and not tls else "?"
            if s is None or not s.startswith(want) or enc != tls:
                self.bad(eng, st, ev, "scheme of requests in %s" % short(eng.cur_root.a[0]), "a request on the listener for %s is treated "
                         "as %s (%s)" % (want, s, "TLS" if enc else "plain"))

    def scheme(self, eng, st, u):
        for f, v in st.facts.items():
            if callee(f).endswith("Url::scheme") and E.strip(cargs(f)[0]) is u:
                if v[0] == "=":
                    return v[1]
                if "https" in v[1]:
                    return "http"
        return None


def addr_of(b):
    """Which configured address a bind() call uses."""
    a = E.strip(cargs(b)[0])
    a = some_of(a) if some_of(a) is not None else a
    f = fname(a).split(".")[-1]
    if a.op == "fld" and f in ("http_listen", "https_listen"):
        return f
    return "?"
