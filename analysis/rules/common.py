"""Recognisers that several rules share."""
from lib import *

AID = "act_id_matching_token_state"
CHANGES = ("tokenstate_replace", "tokenstate_set_ongoing_refresh")
MUTATIONS = CHANGES + ("tokenstate_set_last_notification",)
NOW = re.compile(r"(^|::)(Instant|SystemTime)::now$")


def is_fld(t, label):
    return t.op == "fld" and type(t.a[1]) is str and t.a[1].split("::")[-1] == label


def fname(t):
    """Name of the field that a term reads (variant.field or struct.field)."""
    return t.a[1].split("::")[-1] if t.op == "fld" and type(t.a[1]) is str else ""


def callee(t):
    """Name of the function whose result t is."""
    if t.op in ("call", "out"):
        return M.simp(t.a[0])
    if t.op == "op":
        return M.simp(t.a[0])
    return ""


def cargs(t):
    if t.op == "call":
        return t.a[2]
    if t.op == "out":
        return t.a[4] if len(t.a) > 4 else t.a[3]
    if t.op == "op":
        return t.a[1:]
    return ()


def alts(eng, t, n=40):
    """The values that t may have, looking through loop-widened and joined values."""
    seen, out, work = set(), [], [t]
    while work and len(seen) < n:
        x = E.strip(work.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            work += list(eng.phi_in.get(x, ()))
        else:
            out.append(x)
    return out


_norm = {}


def norm(t):
    """A term without the distinction between a lock that is held and one that was released since."""
    r = _norm.get(t)
    if r is None:
        r = t
        for g in [x for x in t.atoms if x.op == "guard"]:
            r = subst(r, g, mk("xguard", g.a[0], g.a[1]))
        _norm[t] = r
    return r


_bare = {}


def bare(t):
    """A term without the distinction between loop iterations (and between held and released locks)."""
    if type(t) is tuple:
        return tuple(bare(x) for x in t)
    if type(t) is not T:
        return t
    r = _bare.get(t)
    if r is None:
        if t.op == "old":
            r = bare(t.a[-1])
        elif t.op == "guard":
            r = mk("xguard", t.a[0], t.a[1])
        else:
            r = mk(t.op, *[bare(x) for x in t.a])
        _bare[t] = r
    return r


def same(a, b):
    return a is b or norm(a) is norm(b)


def some_of(t):
    """x if t is x.Some.0 / x.Ok.0"""
    if t.op == "fld" and t.a[1] in ("std::option::Option::Some.0", "std::result::Result::Ok.0"):
        return t.a[0]
    return None


def tcp_term(eng, t):
    """Does a term contain a TCP connection (or listener)?"""
    return eng.contains(t, lambda x: x.op in ("op", "call") and re.search(r"Tcp(Listener|Stream)::", str(x.a[0])) is not None)


def in_tcp(eng, st, ev=None):
    """Is this a thread that handles a connection from a browser?"""
    c = eng.cur_root
    if c is None:
        return False
    d = eng.__dict__.setdefault("_tcp", {})
    r = d.get(c)
    if r is None:
        r = d[c] = tcp_term(eng, c)
    return r


def id_src(i):
    """The prim by which an id was originally obtained, or None."""
    r = id_root(i)
    if r.op == "fld" and r.a[0].op == "op" and r.a[0].a[0] in ("validate_act_name", AID):
        return r.a[0]
    if r.op == "ix" and r.a[0].op == "op" and r.a[0].a[0] == "act_ids":
        return r.a[0]
    return None


id_root = M.id_root


def ts_base(t):
    """(guard, id) of a token-state term, looking through partial updates."""
    n = 0
    while n < 20:
        n += 1
        t = E.strip(t)
        if t.op == "upd":
            t = t.a[0]
        elif t.op == "op" and t.a[0] == "tokenstate":
            return t.a[1], t.a[2]
        elif t.op == "agg" and t.a[0] == TS:
            b = [ts_base(f.a[0]) for f in t.a[2] if f.op == "fld" and type(f.a[1]) is str and f.a[1].startswith(TS)]
            b = set(x for x in b if x)
            return list(b)[0] if len(b) == 1 else None
        else:
            return None
    return None


def ts_fields(eng, t):
    """{field: value} of a token state under construction (agg or partially updated), and its variant."""
    t = E.strip(t)
    if t.op == "agg" and t.a[0] == TS:
        v = eng.p.adts[TS]["v"][t.a[1]]
        return v["n"], {f[0]: x for f, x in zip(v["f"], t.a[2])}
    if t.op == "upd":
        n, d = None, {}
        x = t
        while x.op == "upd":
            lab = x.a[1]
            if type(lab) is str and lab.startswith(TS + "::"):
                n, f = lab[len(TS) + 2:].split(".")
                d.setdefault(f, x.a[2])
            x = E.strip(x.a[0])
        if n:
            v = [y for y in eng.p.adts[TS]["v"] if y["n"] == n][0]
            for j, f in enumerate(v["f"]):
                d.setdefault(f[0], eng.fld(x, "%s::%s.%s" % (TS, n, f[0]), j))
        return n, d
    return None, {}


def new_state(eng, st, ev):
    """(variant, fields) of the state installed by a replacement event; variant None if unknown."""
    if ev.name == "tokenstate_set_ongoing_refresh":
        return "ongoing", {"ongoing_refresh": ev.args[2]}
    n, d = ts_fields(eng, ev.args[2])
    if n is None:
        n = eng.variant(st, ev.args[2])
        if n:
            v = [y for y in eng.p.adts[TS]["v"] if y["n"] == n][0]
            d = {f[0]: eng.fld(ev.args[2], "%s::%s.%s" % (TS, n, f[0]), j) for j, f in enumerate(v["f"])}
    return n, d


def old_variant(eng, st, g, i):
    t = M.tokenstate_of(eng, st, g, i)
    eng.discr_ty.setdefault(t, TS)
    return eng.variant(st, t)


def old_variants(eng, st, g, i):
    """The variants that the current state of i may have."""
    t = E.strip(M.tokenstate_of(eng, st, g, i))
    names = [v["n"] for v in eng.p.adts[TS]["v"]]
    if t.op == "agg":
        return [names[t.a[1]]]
    f = st.facts.get(mk("discr", t))
    if f is None:
        n, _ = ts_fields(eng, t)
        return [n] if n else names
    ds = {int(v["d"]): v["n"] for v in eng.p.adts[TS]["v"]}
    if f[0] == "=":
        return [ds[f[1]]]
    return [n for d, n in ds.items() if d not in f[1]]


def query_pair(eng, st, v, key=None):
    """(url, key) if v is the value of a query parameter whose name is known on this path."""
    v = E.strip(v)
    if v.op != "fld":
        return None
    e = v.a[0]
    if e.op == "ix":
        x = E.strip(e.a[0])
        if x.op in ("op", "call") and callee(x).endswith("Url::query_pairs"):
            k = eng.fld(e, 0, 0) if False else None
            for f, val in st.facts.items():
                if f.op == "fld" and f.a[0] is e and f is not v and val[0] == "=" and type(val[1]) is str:
                    return E.strip(cargs(x)[0]), val[1]
    return None


def matched_id(eng, st, i):
    """The URL of the request whose `state` parameter selected id i."""
    s = id_src(i)
    if s is None or s.a[0] != AID:
        return None
    for k in alts(eng, s.a[2]):
        q = query_pair(eng, st, k)
        if q and q[1] == "state":
            return q[0]
    return None


def account_of(i_or_src, g):
    return mk("op", "account", g, id_root(i_or_src))


def redirect_leaves(eng, t):
    """For a URL that set_port was applied to: (the terms parsed, other origins, ports)."""
    parsed, other, ports = [], [], []
    seen, work = set(), [t]
    while work:
        x = E.strip(work.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            work += list(eng.phi_in.get(x, ()))
        elif x.op == "out" and callee(x).endswith("Url::set_port"):
            a = cargs(x)
            work.append(a[0])
            ports.append(a[1])
        elif some_of(x) is not None and callee(some_of(x)).endswith("Url::parse"):
            parsed.append(E.strip(cargs(some_of(x))[0]))
        elif x.op == "agg" and x.a[0].endswith("Result") and x.a[1] == 0:
            work.append(x.a[2][0])
        elif x.op == "agg" and x.a[0].endswith("Result"):
            pass
        elif some_of(x) is not None:
            work.append(some_of(x))
        else:
            other.append(x)
    return parsed, other, ports


def is_redirect_of(eng, t, acc):
    """Is t the redirect URI of account acc (as configured, possibly with its port set)?"""
    p, o, _ = redirect_leaves(eng, t)
    return bool(p) and not o and all(x.op == "fld" and same(x.a[0], acc) and fname(x).endswith("Account.redirect_uri") for x in p)


def account_field(t):
    """(account term, field) if t is a field of an account."""
    t = E.strip(t)
    n = 0
    if t.op == "fld" and t.a[0].op == "op" and t.a[0].a[0] == "account":
        return t.a[0], fname(t).split(".")[-1]
    return None


def list_alts(eng, t):
    """The possible element lists of a vector: [(elements, elements that may follow any number of times)]."""
    t = E.strip(t)
    seen = {}

    def go(x):
        x = E.strip(x)
        while x.op == "old":
            x = E.strip(x.a[1])
        if x.op == "arr":
            return [(tuple(x.a[0]), frozenset())]
        if x.op == "op" and x.a[0] == "push":
            return [(e + (x.a[2],), s) for e, s in go(x.a[1])]
        if x.op == "op" and x.a[0] in ("emptyvec", "emptymap", "empty"):
            return [((), frozenset())]
        if x.op == "op" and x.a[0] == "extend":
            return [(e, s | frozenset([mk("op", "elemof", x.a[2])])) for e, s in go(x.a[1])]
        if x.op == "phi":
            if x in seen:
                return [((), frozenset(["self"]))]
            seen[x] = 1
            base, star = [], set()
            for y in eng.phi_in.get(x, ()):
                for e, s in go(y):
                    if "self" in s:
                        star |= set(e) | (s - {"self"})
                    else:
                        base.append((e, s))
            del seen[x]
            return [(e, s | frozenset(star)) for e, s in base]
        return [((mk("op", "unknown", x),), frozenset())]
    return go(t)


def url_fact(k):
    """Is a fact about a request's URL (its parts, its query, the state it selected)?"""
    if k.op == "op" and k.a[0] == "eq":
        return all(re.search(r"Url::\w+$", callee(E.strip(x))) is not None for x in k.a[1:3])
    return False


def valid_fact(k):
    return k.op == "op" and k.a[0] == "valid"


class Ids:
    """Mixin: which id an account that a rule follows has at present, and whether it was found to have changed."""

    def follow(self, st, ev, root):
        """Call for every event; root is the account that is followed at present."""
        if root is None:
            self.put(st, "cur", None)
        elif ev.kind == "prim" and ev.name in CHANGES and id_root(ev.args[1]) is root:
            self.put(st, "cur", ev.ret)

    def gone(self, st, root):
        """Was the account that is followed as `root` found to have been changed by another thread?"""
        cur = self.get(st, "cur") or root
        return any(v == ("=", False) and valid_fact(f) and f.a[2] is cur for f, v in st.facts.items())


# ------------------------------------------------------------------ the control socket
VERBS = {"dump", "info", "reload", "refresh", "restore", "revoke", "showtoken", "shutdown", "status"}
_ctl = {}


def from_client(t):
    """Does a term depend on the connection of a control client?"""
    r = _ctl.get(t)
    if r is None:
        r = _ctl[t] = any(x.op in ("op", "call") and re.search(r"UnixListener::(incoming|accept)$", callee(x)) is not None for x in subterms(t))
    return r


ALTERS = re.compile(r"(^|str>?::|String::|u8\]?>?::|char::)(trim\w*|to_(ascii_)?(lower|upper)case|make_ascii_\w+case|replace|replacen|from_utf8_lossy|escape_\w+|truncate|split_\w*whitespace)$")


def altered(t, memo={}):
    """Is a text from a client's request not just a part of it, but changed (its case, the spaces around it and the like)?"""
    r = memo.get(t)
    if r is None:
        r = memo[t] = False
        if t.op in ("op", "call", "out") and ALTERS.search(callee(t)):
            r = True
        elif not client_stream(t) or t.op == "out":
            r = any(altered(y) for x in t.a for y in (x if type(x) is tuple else (x,)) if type(y) is T and not (client_stream(y) and y.op != "out"))
        memo[t] = r
    return r


def client_stream(t):
    """Is t a connection accepted on the control socket (possibly read from or written to already)?"""
    n = 0
    while n < 40:
        n += 1
        t = E.strip(t)
        if t.op == "out":
            a = cargs(t)
            k = cval(t.a[2]) if type(t.a[2]) is T else t.a[2]
            if type(k) is not int:
                k = 0
            if not a or k >= len(a):
                return False
            t = a[k]
        elif t.op == "ix" or t.op == "fld":
            t = t.a[0]
        elif t.op in ("op", "call") and re.search(r"UnixListener::(incoming|accept)$", callee(t)):
            return True
        elif t.op == "flat" or t.op in ("op", "call") and cargs(t):
            t = t.a[0] if t.op == "flat" else cargs(t)[0]
        else:
            return False
        if type(t) is not T:
            return False
    return False


WRITE = re.compile(r"Write::(write|write_all|write_fmt|write_vectored|write_all_vectored)$")


def reply(ev):
    """The parts of what a call event writes to a control client, or None."""
    if ev.kind == "call" and WRITE.search(nm(ev)) and len(ev.args) > 1 and client_stream(ev.args[0]):
        return [E.strip(x) for x in M.fmt_parts(ev.args[1])]
    return None


def text(t):
    """The text of a constant string or byte string (None otherwise)."""
    c = cval(t) if type(t) is T else None
    if type(c) is bytes:
        return c.decode("latin-1")
    return c if type(c) is str else None


def command(eng, st):
    """The control request that is being handled on this path (None if not known)."""
    r = None
    for k, v in st.facts.items():
        if v[0] == "=":
            s = v[1] if type(v[1]) in (str, bytes) else None
            x = k
            if s is None and v[1] is True and k.op == "op" and k.a[0] == "eq":
                for a, b in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                    if text(E.strip(b)) is not None:
                        s, x = text(E.strip(b)), a
            if type(s) is bytes:
                s = s.decode("latin-1")
            if s in VERBS and from_client(x) and not (r is not None and r != s):
                r = s
    return r


def request_text(k):
    """A fact about the text of a control request."""
    if k.op == "op" and k.a[0] == "eq":
        return any(text(E.strip(x)) is not None for x in k.a[1:3]) and from_client(k)
    return k.op in ("fld", "ix") and from_client(k) and "from_utf8" in show(k, 8)


def word_fact(eng, st, word):
    """The parts of the request that are known to equal a word on this path."""
    out = []
    for k, v in st.facts.items():
        if v == ("=", word) and from_client(k):
            out.append(k)
        elif v == ("=", True) and k.op == "op" and k.a[0] == "eq":
            for a, b in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                if text(E.strip(b)) == word and from_client(a):
                    out.append(E.strip(a))
    return out


def named(eng, i):
    """Is id i that of the account that the control client named? (the name's term, or None)"""
    s = id_src(i)
    if s is None or s.a[0] != "validate_act_name" or not from_client(s.a[2]) or altered(s.a[2]):
        return None
    return s.a[2]


def serves_client(eng):
    """Is the thread under analysis one that answers control clients (the main thread, or one that is given the connection)?"""
    c = eng.cur_root
    if c is None:
        return True
    caps = []
    for x in c.a[1:]:
        caps += list(x) if type(x) is tuple else [x]
    return any(type(x) is T and client_stream(x) for x in caps)


# ------------------------------------------------------------------ commands
EXEC = re.compile(r"(process::Command::(spawn|status|output)|CommandExt::exec)$")


def cmd_parts(eng, t):
    """(program, arguments, {environment variable: value}, other settings) of a command that is started."""
    args, env, other = [], [], []
    n = 0
    while n < 60:
        n += 1
        t = E.strip(t)
        c = callee(t)
        a = cargs(t)
        m = c.split("::")[-1]
        if c.endswith("Command::new"):
            return E.strip(a[0]), args[::-1], dict(env[::-1]), other
        if "Command::" not in c and "CommandExt" not in c or not a:
            return None
        if m == "arg":
            args.append(E.strip(a[1]))
        elif m == "args":
            l = [e for e, s in list_alts(eng, a[1]) if not s]
            x = E.strip(a[1])
            if x.op == "tup":
                l = [x.a[0]]
            if len(l) != 1:
                return None
            args += [E.strip(y) for y in l[0][::-1]]
        elif m == "env":
            env.append((text(E.strip(a[1])), E.strip(a[2])))
        elif m not in ("stdin", "stdout", "stderr"):
            other.append(m)
        t = a[0]
    return None


def config_field(t):
    """Name of the field of the configuration that t reads."""
    t = E.strip(t)
    x = some_of(t)
    if x is not None:
        t = E.strip(x)
    if t.op == "fld" and t.a[0].op == "op" and t.a[0].a[0] == "config":
        return fname(t).split(".")[-1]
    return None


def thread_reaches(eng, pat):
    """Does the spawned thread under analysis contain a (transitive) call to a function whose name matches?"""
    c = eng.cur_root
    return c is not None and any(re.search(pat, x) for x in reach(eng.p, c.a[0]) | {c.a[0]})


def partial(it):
    """May an iterator leave out elements of what it iterates over (skip, take, step_by)?"""
    n = 0
    while type(it) is T and it.op == "it" and n < 20:
        if cval(it.a[2]) == -1 and not (it.a[0].op == "op" and it.a[0].a[0] in ("chain", "zip")):
            return True
        it = it.a[0]
        n += 1
    return False


def closure_outcomes(eng, st, clo, elem):
    """As closure_results, with what is known when it returns: [(facts, result)]."""
    out = []
    rules, eng.rules = eng.rules, []
    try:
        for s, r in eng.call_value(st.copy(), eng.fr0, clo, [elem], "rule", None):
            out.append((list(s.facts.items()), E.strip(eng.snap(s, r))))
    finally:
        eng.rules = rules
    return out


def closure_results(eng, st, clo, elem):
    """What closure clo returns for elem: [result term]."""
    out = []
    rules, eng.rules = eng.rules, []
    try:
        for s, r in eng.call_value(st.copy(), eng.fr0, clo, [elem], "rule", None):
            out.append(E.strip(eng.snap(s, r)))
    finally:
        eng.rules = rules
    return out
