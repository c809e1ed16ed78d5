"""C23, C24: what becomes of the options of the configuration file."""
from rules.common import *
from lib import text_fns

SOME0 = "std::option::Option::Some.0"
OK0 = "std::result::Result::Ok.0"
CONF, ACC = "pizauth::config::Config", "pizauth::config::Account"
TOP, FIELD = "pizauth::config_ast::TopLevel", "pizauth::config_ast::AccountField"
SPAN_STR = re.compile(r"Lexer::span_str$")
MANDATORY = {"auth_uri", "client_id", "token_uri"}
URIS = {"auth_uri", "token_uri", "redirect_uri"}
# what the manual documents as the value of an option that is left out
DEFAULTS = {"auth_notify_interval": {15 * 60}, "http_listen": {"127.0.0.1:0"}, "https_listen": {"127.0.0.1:0"},
            "redirect_uri": {"http://localhost/"}, "auth_uri_fields": {()}, "scopes": {()}}
LEXER = {}        # keyword of each token (found by C23, used by C23grammar)


def camel(s):
    return "".join(x.capitalize() for x in s.split("_"))


def snake(s):
    return re.sub(r"(?<!^)([A-Z])", r"_\1", s).lower()


def lit(t):
    """The Python value of a constant setting."""
    t = E.strip(t)
    if t.op == "agg" and t.a[0] == "std::option::Option":
        return lit(t.a[2][0]) if t.a[1] == 1 else None
    if t.op == "c" and t.a[0][0] == "dur":
        return t.a[0][1][0] if t.a[0][1][1] == 0 else t.a[0][1]
    if t.op == "c":
        return cval(t)
    if t.op == "op" and t.a[0].split("::")[-1] in ("default", "emptyvec", "empty") or t.op == "arr" and not t.a[0]:
        return ()
    return None


def elem_variant(eng, st, x):
    """(enum, variant) of an option."""
    f = st.facts.get(mk("discr", x)) or st.facts.get(mk("op", "discr", x))
    ty = eng.discr_ty.get(x)
    if f is None or f[0] != "=" or ty not in (TOP, FIELD):
        return None
    return ty, eng.p.adts[ty]["v"][f[1]]["n"]


class Options(Rule):
    """What each option does to the variables that become the fields of the configuration."""

    def __init__(self):
        super().__init__()
        self.keeps = self.kept

    def kept(self, k):
        return k.op in ("discr",) and E.strip(k.a[0]).op == "phi" or k.op == "op" and k.a[0] == "discr" and E.strip(k.a[1]).op == "phi"

    def loops(self, st):
        return tuple(sorted(((k, E.strip(v)) for k, v in st.cells.items() if E.strip(v).op == "phi"), key=str))

    def on(self, eng, st, ev):
        if ev.kind == "back":
            cur = self.get(st, "cur")
            for lp, x, snap, loc in cur or ():
                if lp == (ev.fn, ev.extra):
                    ev.loc = list(loc)
                    v = elem_variant(eng, st, x)
                    if v is not None:
                        ch = {}
                        for k, ph in snap:
                            now = st.cells.get(k)
                            if now is not None and E.strip(now) is not ph:
                                ch[ph] = eng.snap(st, now)
                        self.option(eng, st, ev, v[0], v[1], x, ch, {ph for k, ph in snap})
            self.put(st, "cur", tuple(c for c in cur or () if c[0] != (ev.fn, ev.extra)) or None)
        elif ev.kind == "elem" and ev.name == "next" and ev.args:
            self.other(eng, st, ev)
            x = E.strip(ev.args[1])
            if eng.discr_ty.get(x) in (TOP, FIELD):
                if partial(ev.args[0]):
                    self.bad(eng, st, ev, "some options in %s" % short(ev.fn), "some options of the configuration file are left out")
                self.put(st, "cur", (self.get(st, "cur") or ()) + (((ev.fn, st.loops.get("cur")), x, self.loops(st), tuple(ev.loc)),))
        elif ev.kind == "agg" and ev.name in (CONF, ACC):
            v = ev.args[0]
            self.made(eng, st, ev, ev.name, dict(zip([f[0] for f in eng.p.adts[ev.name]["v"][0]["f"]], v.a[2])))
        else:
            self.other(eng, st, ev)

    def option(self, eng, st, ev, enum, var, x, ch, seen):
        pass

    def made(self, eng, st, ev, what, fields):
        pass

    def other(self, eng, st, ev):
        pass

    def is_none(self, st, t):
        t = E.strip(t)
        if t.op == "agg" and t.a[0] == "std::option::Option":
            return t.a[1] == 0
        for k in (mk("discr", t), mk("op", "discr", t)):
            if st.facts.get(k) == ("=", 0):
                return True
        return False


def roots(eng, v):
    """(loop variables that setting v comes from, constants it may be otherwise, other things it may be)."""
    phis, consts, other = set(), set(), set()
    seen, work = set(), [(E.strip(v), 0)]
    while work:
        x, d = work.pop()
        x = E.strip(x)
        if (x, d) in seen or len(seen) > 200:
            continue
        seen.add((x, d))
        if x.op == "phi":
            al = eng.phi_in.get(x, ())
            if any(y.op == "old" or x in y.atoms for y in al):
                phis.add((x, d))
            else:
                work += [(y, d) for y in al]
        elif x.op == "fld" and x.a[1] == SOME0:
            work.append((E.strip(x.a[0]), d + 1))
        elif x.op == "agg" and x.a[0] == "std::option::Option":
            if x.a[1] == 1 and d > 0:
                work.append((x.a[2][0], d - 1))
            elif x.a[1] == 1:
                if lit(x) is not None:
                    consts.add(lit(x))
                else:
                    work.append((x.a[2][0], d))
            elif d == 0:
                consts.add(None)
        elif lit(x) is not None:
            consts.add(lit(x))
        else:
            other.add(x)
    return phis, consts, other


UNORDERED = re.compile(r"(Hash|BTree)(Map|Set)$|BinaryHeap$")


class C23(Options):
    prop = "C23"

    def __init__(self):
        super().__init__()
        self.need = {"options": 24, "options that must not be repeated": 24, "configurations made": 1, "accounts made": 1, "fields": 20, "lexer rules": 20}
        self.changes = {}        # (enum, variant) -> [(variables and their new values, those that were unset, event)]
        self.fieldof = {}        # variable -> {(struct, field)}
        self.unset = {}
        self.built = {}
        self.lexer = {}
        self.kinds = {}

    # -- each option
    def option(self, eng, st, ev, enum, var, x, ch, seen):
        un = frozenset(ph for ph in ch if self.is_none(st, ph))
        if (enum, var) == (TOP, "Account"):
            a = self.get(st, "added")
            if a is not None and not self.absent(st, *a):
                self.bad(eng, st, ev, "Account repeated", "an account may be specified more than once")
            self.put(st, "added", None)
        self.changes.setdefault((enum, var), []).append((ch, un, ev, x, st, seen, self.get(st, "spanned") is x))
        self.put(st, "spanned", None)
        if not ch:
            return
        self.saw("options", "%s::%s" % (short(enum), var))

    def payload(self, t, x, enum, var):
        """Which payload of option x a span is."""
        t = E.strip(t)
        if t.op == "fld" and E.strip(t.a[0]) is x and t.a[1].startswith("%s::%s." % (enum, var)):
            return int(t.a[1].rsplit(".", 1)[1])
        return None

    def shape(self, eng, t, span):
        """Is t the text at a span (for which span(t) holds), taken as the value of an option: its kind."""
        t = E.strip(t)
        if t.op == "fld" and t.a[1] == OK0:
            c = E.strip(t.a[0])
            if callee(c) in self.fns(eng) and self.text(cargs(c)[0], span):
                return "time"
        if callee(t) in self.fns(eng) and len(cargs(t)) == 1 and self.text(cargs(t)[0], span):
            return callee(t)
        return None

    def fns(self, eng):
        r = getattr(self, "_fns", None)
        if r is None:
            r = self._fns = set(text_fns(eng.p))
        return r

    def text(self, t, span):
        t = E.strip(t)
        return SPAN_STR.search(callee(t)) is not None and span(E.strip(cargs(t)[1]))

    def value(self, eng, t, x, enum, var):
        """The kind of value that t is for option x, if it is what the user wrote."""
        t = E.strip(t)
        if t.op == "agg" and t.a[0] == "std::option::Option" and t.a[1] == 1:
            return self.value(eng, t.a[2][0], x, enum, var)
        if t.op == "agg" and t.a[0] == "std::option::Option":
            return "none"
        k = self.shape(eng, t, lambda s: self.payload(s, x, enum, var) is not None)
        if k is not None:
            return k if k == "time" else ("string", k)
        if t.op == "seqof" and not t.a[2]:
            ix, v = t.a[0], E.strip(t.a[1])
            if ix.op != "idx" or self.payload(ix.a[1], x, enum, var) is None:
                return None
            el = eng.index(ix.a[1], ix)
            if v.op == "tup":
                ks = []
                for j, y in enumerate(v.a[0]):
                    ks.append(self.shape(eng, y, lambda s: s is E.strip(eng.fld(el, str(j), j)) or s is E.strip(mk("fld", el, j))))
                return ("pairs",) + tuple(ks) if None not in ks and "time" not in ks else None
            k = self.shape(eng, v, lambda s: s is el)
            return ("list", k) if k is not None and k != "time" else None
        if t.op == "arr" and not t.a[0] and self._exh:
            return ("list",)
        if t.op == "phi" and self._exh:
            ks = set()
            for y in map(E.strip, eng.phi_in.get(t, ())):
                if y.op == "op" and y.a[0] == "push":
                    ks |= {k for x2, k in self.built.get(t, ()) if x2 is x}
            return ("list",) + tuple(ks) if ks and None not in ks else None
        return None

    def spans(self, eng, ev):
        """The option whose list of spans is iterated over."""
        it = ev.args[0]
        if it.op == "it" and not it.a[1] and not partial(it):
            b = E.strip(it.a[0])
            if b.op == "fld" and str(b.a[1]).rpartition("::")[0] in (TOP, FIELD):
                return E.strip(b.a[0])
        return None

    def on(self, eng, st, ev):
        if ev.kind == "back":
            cur = self.get(st, "span")
            if cur is not None and cur[0] == (ev.fn, ev.extra):
                lp, x, el, snap = cur
                for k, ph in snap:
                    now = st.cells.get(k)
                    now = E.strip(now) if now is not None else ph
                    if now is not ph:
                        kind = None
                        if now.op == "op" and now.a[0] == "push" and E.strip(now.a[1]) is ph:
                            v = E.strip(now.a[2])
                            if v.op == "tup":
                                ks = [self.shape(eng, y, lambda s: s in (E.strip(eng.fld(el, str(j), j)), mk("fld", el, j))) for j, y in enumerate(v.a[0])]
                                kind = ks[0] if len(set(ks)) == 1 and ks[0] != "time" else None
                            else:
                                kind = self.shape(eng, v, lambda s: s is el)
                                kind = None if kind == "time" else kind
                        self.built.setdefault(ph, set()).add((x, kind))
                    else:
                        self.built.setdefault(ph, set()).add((x, None))
                self.put(st, "span", None)
        if ev.kind == "call" and ev.f and ev.f.get("item") in ("collect", "from_iter", "extend") or ev.kind == "push" and ev.name == "collect":
            self.order(eng, st, ev)
        super().on(eng, st, ev)

    def order(self, eng, st, ev):
        """Lists of strings must not go through a collection that orders its elements itself, or drops some."""
        ts = [eng.p.ty(a) for a in (ev.f or {}).get("a", ()) if type(a) is int]
        if not any(UNORDERED.search(t.split("<")[0]) for t in ts[1:] + ts[:1]) or any("Account" in t for t in ts):
            return
        if any(type(x) is T and any(SPAN_STR.search(callee(y)) for y in subterms(x) if y.op in ("op", "call")) for x in ev.args):
            self.bad(eng, st, ev, "order in %s" % short(ev.fn), "a list that the user wrote goes through a %s, which does not keep its order or its repetitions" % ts[-1].split("<")[0].split("::")[-1])

    # -- the result
    def made(self, eng, st, ev, what, fields):
        w = what.split("::")[-1]
        self.saw("configurations made" if what == CONF else "accounts made", where(ev))
        for f, v in fields.items():
            if what == ACC and f == "name":
                if not self.is_name(eng, v):
                    self.bad(eng, st, ev, "Account.name", "an account is not named as in the configuration file: %s" % show(v, 4))
                continue
            if what == CONF and f == "accounts":
                self.accounts = v
                self.acc_ev = (ev, st)
                continue
            ph, consts, other = roots(eng, v)
            self.saw("fields", "%s.%s" % (w, f))
            if other or len({p for p, d in ph}) > 1 or not ph and not consts:
                self.bad(eng, st, ev, "%s.%s" % (w, f), "setting %s is not (only) what its option says: %s" % (f, show(v, 4)))
                continue
            for p, d in ph:
                self.fieldof.setdefault(p, set()).add((what, f))
            want = DEFAULTS.get(f, set())
            if f in MANDATORY and consts:
                self.bad(eng, st, ev, "%s left out" % f, "a configuration without %s is accepted" % f)
            elif not consts - {None} <= want:
                self.bad(eng, st, ev, "default of %s" % f, "the value of %s, if it is left out, is not the documented default: %s" % (f, sorted(map(str, consts - want))))
            for c in consts - {None}:
                self.saw("defaults", (f, str(c)))
            if not ph:
                self.unset.setdefault((what, f), []).append(({k.a[-1] for k, v in st.facts.items() if v == ("=", 0) and (k.op == "discr" or k.op == "op" and k.a[0] == "discr")}, ev, st))
            if f in MANDATORY and any(d == 0 for p, d in ph) and not self.string_field(eng, what, f):
                self.bad(eng, st, ev, "%s may be missing" % f, "%s may be missing from a configuration" % f)

    def string_field(self, eng, what, f):
        for n, t in [(x[0], x[1]) for x in eng.p.adts[what]["v"][0]["f"]]:
            if n == f:
                return "Option" not in (eng.p.ty(t) if type(t) is int else str(t))
        return True

    def is_name(self, eng, v):
        v = E.strip(v)
        return self.shape(eng, v, lambda s: s.op == "fld" and s.a[1].startswith(TOP + "::Account.")) not in (None, "time")

    def other(self, eng, st, ev):
        if ev.kind == "elem" and ev.name == "next":
            x = self.spans(eng, ev)
            if x is not None:
                self.put(st, "span", ((ev.fn, st.loops.get("cur")), x, E.strip(ev.args[1]), self.loops(st)))
        elif ev.kind == "exhausted" and ev.name == "next":
            x = self.spans(eng, ev)
            if x is not None:
                self.put(st, "spanned", x)
        elif ev.kind == "insert" and self.has_account(eng, ev.args[2] if len(ev.args) > 2 else None):
            self.saw("accounts added", where(ev))
            m, k = ev.args[0], E.strip(ev.args[1])
            if not self.is_name(eng, k):
                self.bad(eng, st, ev, "key", "an account is stored under another name than its own: %s" % show(k, 4))
            for a in alts(eng, ev.args[2]):
                if a.op == "agg" and a.a[0] == ACC:
                    names = [f[0] for f in eng.p.adts[ACC]["v"][0]["f"]]
                    if E.strip(a.a[2][names.index("name")]) is not k:
                        self.bad(eng, st, ev, "key and name", "an account is stored under another name than its own")
            self.put(st, "added", (E.strip(m), k))
            if self.absent(st, m, k):
                self.put(st, "added", None)
        elif ev.kind == "call" and re.search(r"^lrlex::Rule::<?.*::new$", ev.name or "") and len(ev.args) > 4:
            s = [self.plain(a) for a in ev.args]
            name = next((x for x in s[1:4] if type(x) is str), None)
            rx = next((x for a, x in zip(ev.args[3:], s[3:]) if type(x) is str), None)
            if name and rx:
                self.lexer[name] = rx
                self.saw("lexer rules", name)

    def plain(self, a):
        a = E.strip(a)
        if a.op == "agg" and a.a[0] == "std::option::Option" and a.a[1] == 1:
            a = E.strip(a.a[2][0])
        return cval(a)

    def has_account(self, eng, v):
        return v is not None and any(a.op == "agg" and a.a[0] == ACC for a in alts(eng, v))

    def absent(self, st, m, k):
        """Is it known that map m has no entry for k?"""
        m = E.strip(m)
        if m.op == "op" and m.a[0] == "emptymap":
            return True
        return any(v == ("=", 0) and f.op in ("discr", "op") and any(y.op == "op" and y.a[0] == "get" and E.strip(y.a[1]) is m and E.strip(y.a[2]) is k
                                                                     for y in f.a if type(y) is T) for f, v in st.facts.items())

    def finish(self, eng):
        LEXER.clear()
        LEXER.update(self.lexer)
        if not self.fieldof:
            return
        strs = {}
        for enum, struct in ((TOP, CONF), (FIELD, ACC)):
            have = {f[0] for f in eng.p.adts[struct]["v"][0]["f"]}
            for v in eng.p.adts[enum]["v"]:
                n = v["n"]
                if enum == TOP and n == "Account":
                    self.accs(eng)
                    continue
                f = snake(n)
                none = False
                if f not in have and f.endswith("_none") and f[:-5] in have:
                    f, none = f[:-5], True
                got = self.changes.get((enum, n), [])
                if not got:
                    if f in have:
                        eng.violate(self.prop, "%s rejected" % n, "option %s can never be given" % f, None, None)
                    else:
                        self.saw("options that are always rejected", n)
                    continue
                if f not in have:
                    ev, st = got[0][2], got[0][4]
                    self.bad(eng, st, ev, "%s ignored" % n, "option %s is accepted but has no effect on the configuration" % f)
                    continue
                self.saw("options that must not be repeated", n)
                done = False
                for ch, un, ev, x, st, seen, self._exh in got:
                    mine = [p for p in ch if (struct, f) in self.fieldof.get(p, ())]
                    for p in ch:
                        for s2, f2 in self.fieldof.get(p, ()):
                            if (s2, f2) != (struct, f) and s2 == struct:
                                self.bad(eng, st, ev, "%s sets %s" % (n, f2), "option %s changes setting %s" % (f, f2))
                    for p in mine:
                        done = True
                        k = self.value(eng, ch[p], x, enum, n)
                        if k is None or (k == "none") != none:
                            self.bad(eng, st, ev, "value of %s" % n, "setting %s is not what the user wrote: %s" % (f, show(ch[p], 5)))
                        elif type(k) is tuple:
                            for s in k[1:]:
                                strs.setdefault(s, (n, ev, st))
                        if p not in un:
                            self.bad(eng, st, ev, "%s repeated" % n, "option %s may be given more than once" % f)
                    if not mine and any((struct, f) in self.fieldof.get(p, ()) for p in seen):
                        self.bad(eng, st, ev, "%s dropped" % n, "option %s is accepted but may have no effect" % f)
                if not done:
                    self.bad(eng, got[0][4], got[0][2], "%s dropped" % n, "option %s is accepted but has no effect" % f)
        for p, fs in self.fieldof.items():
            for sf in fs:
                for none, ev, st in self.unset.get(sf, ()):
                    if p not in none and all(p2 not in none for p2, fs2 in self.fieldof.items() if sf in fs2):
                        self.bad(eng, st, ev, "%s discarded" % sf[1], "setting %s may be discarded although the option is given" % sf[1])
        if len(strs) > 1:
            for s, (n, ev, st) in strs.items():
                self.bad(eng, st, ev, "text of %s" % n, "the strings of some options are read by %s, others differently" % short(s))

    def accs(self, eng):
        got = [x for x in self.changes.get((TOP, "Account"), [])]
        ok = False
        for ch, un, ev, x, st, seen, exh in got:
            for p, v in ch.items():
                if E.strip(v).op == "op" and E.strip(v).a[0] == "insert":
                    ok = True
        if got:
            self.saw("options that must not be repeated", "Account")
        if got and not ok:
            self.bad(eng, got[0][4], got[0][2], "Account dropped", "accounts are not added to the configuration")
        v = getattr(self, "accounts", None)
        if v is not None:
            ev, st = self.acc_ev
            for a in alts(eng, v):
                while a.op == "old":
                    a = E.strip(a.a[1])
                if a.op == "phi" or a.op == "op" and a.a[0] in ("insert", "emptymap"):
                    continue
                self.bad(eng, st, ev, "Config.accounts", "the accounts of a configuration are not those of the file: %s" % show(a, 4))


# ------------------------------------------------------------------ the grammar
def grammar(path):
    """The productions of a grammar file, in order: [(nonterminal, [symbols])] (a token is written in quotes)."""
    s = open(path).read()
    parts = re.split(r"(?m)^%%[^\n]*$", s)
    if len(parts) < 2:
        raise ValueError("no rules in %s" % path)
    s = parts[1]
    s = re.sub(r"(?m)^\s*//[^\n]*$", "", s)
    s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
    out, i, n = [], 0, len(s)
    head, syms = None, []

    def ws(i):
        while i < n and s[i].isspace():
            i += 1
        return i
    while True:
        i = ws(i)
        if i >= n:
            return out
        if head is None:
            m = re.compile(r"([A-Za-z_]\w*)\s*(->)?").match(s, i)
            head, i = m.group(1), m.end()
            depth = 0
            while s[i] != ":" or s[i:i + 2] == "::" or s[i - 1] == ":":
                i += 1
            i += 1
            syms = []
            continue
        c = s[i]
        if c == "{":
            d, j, q = 0, i, None
            while True:
                if q:
                    if s[j] == "\\":
                        j += 1
                    elif s[j] == q:
                        q = None
                elif s[j] == '"':
                    q = '"'
                elif s[j] == "{":
                    d += 1
                elif s[j] == "}":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
        elif c in "|;":
            out.append((head, syms))
            syms = []
            if c == ";":
                head = None
            i += 1
        elif c in "\"'":
            j = s.index(c, i + 1)
            syms.append('"' + s[i + 1:j])
            i = j + 1
        elif c == "%":
            j = i + 1
            while j < n and (s[j].isalnum() or s[j] == "_"):
                j += 1
            i = j
            if s[i - 6:i] != "%empty":
                i = ws(i)
                j = s.index(s[i], i + 1) if s[i] in "\"'" else i
                i = j + 1
        else:
            m = re.compile(r"[A-Za-z_]\w*").match(s, i)
            syms.append(m.group(0))
            i = m.end()


class C23grammar(Rule):
    """What the productions of the grammar make of the file."""
    prop = "C23"
    wants = r"config_y::__gt_action_\d+$"

    def __init__(self):
        super().__init__()
        self.need = {"productions": 20, "keywords": 20}
        self.made = {}
        self.prods = None

    def start(self, eng):
        import glob
        import os
        fs = sorted(glob.glob(os.path.join(eng.repo, "src", "**", "*.y"), recursive=True))
        self.prods = [p for f in fs for p in grammar(f)] if len(fs) == 1 else []

    def args(self, eng, t, out=None, d=0):
        """The symbols of the production that t is made of, in order."""
        if out is None:
            out = []
        t = E.strip(t) if type(t) is T else t
        if type(t) is tuple:
            for x in t:
                self.args(eng, x, out, d + 1)
        elif type(t) is T:
            if t.op == "sym":
                m = re.match(r"arg(\d+)$", t.a[0])
                if m:
                    out.append(int(m.group(1)) - 4)
            elif t.op == "phi" and d < 30:
                alt = [self.args(eng, x, None, d + 1) for x in eng.phi_in.get(t, ())]
                out += alt[0] if alt and all(x == alt[0] for x in alt) else [-9]
            else:
                for x in t.a:
                    self.args(eng, x, out, d + 1)
        return out

    def on(self, eng, st, ev):
        if ev.kind != "return" or ev.name != eng.cur_body or len(ev.stack) > 1 or not re.search(self.wants, ev.name):
            return
        i = int(eng.cur_body.rsplit("_", 1)[1])
        if i >= len(self.prods):
            self.bad(eng, st, ev, "production %d" % i, "there is no production for this action")
            return
        head, syms = self.prods[i]
        v = E.strip(ev.args[0])
        if v.op == "agg" and v.a[0] == "std::result::Result" and v.a[1] == 1:
            return
        if v.op == "agg" and v.a[0] == "std::result::Result":
            v = E.strip(v.a[2][0])
        elif head not in ("Unmatched",) and self.content(syms):
            self.bad(eng, st, ev, "result of %s" % self.name(head, syms), "cannot tell what the production makes: %s" % show(v, 4))
            return
        name = self.name(head, syms)
        self.saw("productions", "%d %s" % (i, name))
        want = self.content(syms)
        got = [x for x in self.args(eng, v) if x > 0]
        if v.op == "agg" and v.a[0] in (TOP, FIELD):
            var = eng.p.adts[v.a[0]]["v"][v.a[1]]["n"]
            self.made.setdefault((v.a[0], var), set()).add(i)
            words = [s[1:] for s in syms if s[0] == '"' and (LEXER.get(s[1:]) or "").replace("_", "").isalpha()]
            self.saw("keywords", var)
            none = "none" in [LEXER[w] for w in words]
            key = [w for w in words if LEXER[w] != "none"]
            if len(key) != 1 or camel(LEXER[key[0]]) + ("None" if none else "") != var:
                self.bad(eng, st, ev, "keyword of %s" % var, "%s is what %s becomes" % (var, " ".join(LEXER.get(w, w) for w in words)))
            # the places of keywords matter only for error messages
            got = [x for x in got if x in want]
            if var == "AuthErrorCmd":
                want = []
                got = []
        if [x for x in want if syms[x - 1] != '"NONE'] != [x for x in got if syms[x - 1] != '"NONE']:
            self.bad(eng, st, ev, "value of %s" % name, "the production does not pass on what the user wrote, in its order: parts %s instead of %s" % (got, want))

    def content(self, syms):
        """The symbols that carry what the user wrote."""
        return [j + 1 for j, s in enumerate(syms) if s[0] != '"' or s[1:] in ("STRING", "TIME", "INT", "NONE")]

    def name(self, head, syms):
        return "%s: %s" % (head, " ".join(s.replace('"', "") for s in syms))

    def finish(self, eng):
        for enum in (TOP, FIELD):
            for v in eng.p.adts[enum]["v"]:
                if len(self.made.get((enum, v["n"]), ())) != 1:
                    eng.violate(self.prop, "productions of %s" % v["n"], "%s is made by %d productions" % (v["n"], len(self.made.get((enum, v["n"]), ()))), None, None)


# ------------------------------------------------------------------ what is rejected
SCHEME = re.compile(r"^url::Url::scheme$")
PARSE = re.compile(r"^url::Url::parse$")


def scheme_of(k):
    """The text whose parse's scheme term k is."""
    if SCHEME.search(callee(k)):
        u = E.strip(cargs(k)[0])
        if u.op == "fld" and u.a[1] == OK0:
            u = E.strip(u.a[0])
        if PARSE.search(callee(u)):
            return E.strip(cargs(u)[0])
    return None


class C24(Options):
    prop = "C24"

    def __init__(self):
        super().__init__()
        self.need = {"URI options": 3, "configurations": 1, "accounts compared with the listeners": 1, "accounts made": 1, "login hints compared": 1}
        self.redirects = {}

    def kept(self, k):
        return super().kept(k) or k.op == "op" and k.a[0] in ("len", "exists") or SCHEME.search(callee(k)) is not None or \
            k.op == "discr" and PARSE.search(callee(E.strip(k.a[0]))) is not None or \
            k.op in ("discr", "op") and any(type(y) is T and E.strip(y).op == "fld" and E.strip(y).a[1] == SOME0 and E.strip(E.strip(y).a[0]).op == "phi" for y in k.a)

    def good_uris(self, st):
        out = set()
        for k, v in st.facts.items():
            s = scheme_of(k)
            if s is not None and v in (("=", "http"), ("=", "https")):
                out.add(s)
        return out

    def variable(self, eng, st, var):
        """The loop variable that option var sets, if its value is a loop variable on this path."""
        def says(y, n=0):
            for x in subterms(y):
                if x.op == "fld" and str(x.a[1]).rsplit(".", 1)[0].endswith("::" + var):
                    return True
                if x.op == "phi" and n < 2 and x is not p and any(says(z, n + 1) for z in eng.phi_in.get(x, ()) if z.op != "old"):
                    return True
            return False
        live = set()
        for v in st.cells.values():
            live |= v.atoms
        for k in st.facts:
            live |= k.atoms
        for p in live:
            if p.op == "phi" and any(y.op == "old" for y in eng.phi_in.get(p, ())) and any(says(y) for y in eng.phi_in.get(p, ())):
                if not any(z.op == "op" and z.a[0] == "insert" for z in eng.phi_in[p]):
                    return p
        return None

    def discr(self, st, t):
        for k in (mk("discr", t), mk("op", "discr", t)):
            f = st.facts.get(k)
            if f is not None:
                return f[1] if f[0] == "=" else (1 - min(f[1]) if f[0] == "!" and len(f[1]) == 1 else None)
        return None

    def may_none(self, eng, st, t, n=0):
        """May the setting t (Option<..>) be None?"""
        t = E.strip(t)
        if t.op == "agg":
            return t.a[1] == 0
        d = self.discr(st, t)
        if d is not None:
            return d == 0
        if t.op == "phi" and n < 4:
            return any(self.may_none(eng, st, y, n + 1) for y in eng.phi_in.get(t, ()) if y.op != "old")
        if t.op == "fld" and t.a[1] == SOME0:
            p = E.strip(t.a[0])
            if p.op == "phi":
                if self.discr(st, p) == 0:
                    return False
                return any(y.op == "agg" and y.a[1] == 1 and self.may_none(eng, st, y.a[2][0], n + 1) for y in map(E.strip, eng.phi_in.get(p, ())))
        return True

    def disabled(self, eng, st, name):
        """May listener `name` be disabled, by what is known on this path?"""
        p = self.variable(eng, st, camel(name))
        return p is not None and self.may_none(eng, st, mk("fld", p, SOME0))

    def option(self, eng, st, ev, enum, var, x, ch, seen):
        good = self.good_uris(st) | (self.get(st, "uris") or frozenset())
        f = snake(var)
        if f in URIS:
            self.saw("URI options", f)
            for p, v in ch.items():
                v = E.strip(v)
                if v.op == "agg" and v.a[1] == 1 and E.strip(v.a[2][0]) not in good:
                    self.bad(eng, st, ev, "%s unchecked" % f, "%s is accepted although it may not be an http or https URI" % f)
        self.put(st, "uris", None)

    def other(self, eng, st, ev):
        if ev.kind == "return":
            g = self.good_uris(st)
            if g and self.get(st, "cur"):
                self.put(st, "uris", (self.get(st, "uris") or frozenset()) | frozenset(g))
        elif ev.kind == "elem" and ev.name == "next":
            el = self.account_elem(eng, ev)
            if el is not None:
                self.put(st, "acct", ((ev.fn, st.loops.get("cur")), el, tuple(ev.loc)))
            b = E.strip(ev.args[0].a[0]) if ev.args[0].op == "it" else None
            if b is not None and b.op == "fld" and b.a[1] == SOME0 and b.a[0] is self.variable(eng, st, "AuthUriFields"):
                self.put(st, "pair", ((ev.fn, st.loops.get("cur")), E.strip(ev.args[1])))
        elif ev.kind == "exhausted" and ev.name == "next":
            if self.account_elem(eng, ev) is not None and not partial(ev.args[0]):
                self.put(st, "checked", True)
            b = E.strip(ev.args[0].a[0]) if ev.args[0].op == "it" else None
            if b is not None and b.op == "fld" and b.a[1] == SOME0 and b.a[0] is self.variable(eng, st, "AuthUriFields") and not partial(ev.args[0]) and not self.get(st, "hinted"):
                self.put(st, "hint", True)

    def on(self, eng, st, ev):
        if ev.kind == "back":
            a = self.get(st, "acct")
            if a is not None and a[0] == (ev.fn, ev.extra):
                self.put(st, "acct", None)
                ev.loc = list(a[2])
                self.listeners(eng, st, ev, a[1])
            a = self.get(st, "pair")
            if a is not None and a[0] == (ev.fn, ev.extra):
                self.put(st, "pair", None)
                k = E.strip(eng.fld(a[1], "0", 0))
                if not any(f[0] == "!" and "login_hint" in f[1] and E.strip(x) in (k, mk("fld", a[1], 0)) for x, f in st.facts.items()):
                    self.put(st, "hinted", True)
        super().on(eng, st, ev)

    def account_elem(self, eng, ev):
        """The elements' collection, if it is that of the accounts."""
        it = ev.args[0]
        b = it
        n = 0
        while type(b) is T and n < 10 and (b.op == "it" or b.op == "op" and b.a[0] in ("entries", "values", "keys", "iter")):
            b = b.a[0] if b.op == "it" else b.a[1]
            n += 1
        b = E.strip(b)
        if b.op != "phi":
            return None
        names = [f[0] for f in eng.p.adts[ACC]["v"][0]["f"]]
        mine = {E.strip(a.a[2][names.index("redirect_uri")]) for y in map(E.strip, eng.phi_in.get(b, ())) if y.op == "op" and y.a[0] == "insert" and len(y.a) > 3
                for a in alts(eng, y.a[3]) if a.op == "agg" and a.a[0] == ACC}
        if not mine:
            return None
        self.redirects[b] = mine
        return b

    def listeners(self, eng, st, ev, coll):
        https = None
        mine = self.redirects.get(coll, ())
        for k, v in st.facts.items():
            s = scheme_of(k)
            if s is not None and (s.op == "fld" and s.a[1] == ACC + ".redirect_uri" or s in mine):
                https = v == ("=", "https") or (False if v[0] == "=" or v[0] == "!" and "https" in v[1] else https)
            elif k.op == "discr" and PARSE.search(callee(E.strip(k.a[0]))) and v == ("=", 1):
                s = E.strip(cargs(E.strip(k.a[0]))[0])
                if s.op == "fld" and s.a[1] == ACC + ".redirect_uri" or s in mine:
                    https = False
        self.saw("accounts compared with the listeners", (where(ev)[0:20], https))
        if https is not False and self.disabled(eng, st, "https_listen"):
            self.bad(eng, st, ev, "https redirect", "an account with an https redirect URI is accepted although the https listener may be disabled")
        if https is not True and self.disabled(eng, st, "http_listen"):
            self.bad(eng, st, ev, "http redirect", "an account with an http redirect URI is accepted although the http listener may be disabled")

    def nonempty(self, st, t):
        t = E.strip(t)
        if t.op == "op" and t.a[0] == "insert":
            return True
        for k, v in st.facts.items():
            if k.op == "op" and k.a[0] == "len" and E.strip(k.a[1]) is t or k.op == "len" and E.strip(k.a[0]) is t:
                if v == ("!", frozenset([0])) or v[0] == "!" and 0 in v[1] or v[0] == "=" and v[1] != 0:
                    return True
            elif k.op == "op" and k.a[0] == "lt" and cval(k.a[1]) == 0 and v == ("=", True) and t in k.atoms:
                return True
        return False

    def made(self, eng, st, ev, what, f):
        if what == ACC:
            self.saw("accounts made", where(ev))
            h = self.variable(eng, st, "LoginHint")
            q = self.variable(eng, st, "AuthUriFields")
            if h is not None and q is not None:
                self.saw("login hints compared", where(ev))
            if h is not None and q is not None and self.discr(st, h) != 0 and self.discr(st, q) != 0 and not self.get(st, "hint"):
                src = mk("fld", q, SOME0)
                ok = False
                for k, v in st.facts.items():
                    if k.op == "op" and k.a[0] == "exists" and v == ("=", False) and cval(k.a[1]) == "any" and self.same_list(eng, k.a[2], q):
                        ok = ok or self.compares(eng, st, k.a[3], src)
                if not ok:
                    self.bad(eng, st, ev, "login_hint twice", "an account may set login_hint twice over (as an option and in auth_uri_fields)")
            self.put(st, "hint", None)
            self.put(st, "hinted", None)
            return
        self.saw("configurations", (where(ev), show(f["http_listen"], 2), show(f["https_listen"], 2)))
        if self.may_none(eng, st, f["http_listen"]) and self.may_none(eng, st, f["https_listen"]):
            self.bad(eng, st, ev, "no listener", "a configuration in which both listeners are disabled is accepted")
        if not self.nonempty(st, f["accounts"]):
            self.bad(eng, st, ev, "no account", "a configuration without accounts is accepted")
        if not self.get(st, "checked") and (self.may_none(eng, st, f["http_listen"]) or self.may_none(eng, st, f["https_listen"])):
            self.bad(eng, st, ev, "redirects unchecked", "it is not checked that the accounts' redirect URIs have a listener")
        if not any(v == ("=", 0) and self.errors(k) for k, v in st.facts.items()):
            self.bad(eng, st, ev, "syntax errors", "a configuration file with syntax errors may be accepted")

    def same_list(self, eng, x, q):
        x = E.strip(x)
        return x.op == "fld" and x.a[1] == SOME0 and E.strip(x.a[0]) is q

    def compares(self, eng, st, clo, src):
        """Does the closure ask whether a pair's first part is login_hint?"""
        el = eng.index(src, mk("idx", "rule", src))
        n = 0
        for facts, r in closure_outcomes(eng, st, clo, el):
            if cval(r) is True:
                continue
            n += 1
            if not any(v == ("!", frozenset(["login_hint"])) or v[0] == "!" and "login_hint" in v[1] for k, v in facts if self.first(eng, k, el)) and \
                    not any(v is False and t.op == "op" and t.a[0] == "eq" and "login_hint" in (cval(E.strip(t.a[1])), cval(E.strip(t.a[2]))) for t, v in truths(r, False)):
                return False
        return n > 0

    def first(self, eng, k, el):
        return E.strip(k) in (E.strip(eng.fld(el, "0", 0)), mk("fld", el, 0), mk("fld", el, "0"))

    def errors(self, k):
        """Is k the number of errors of a parse?"""
        x = k.a[0] if k.op == "len" else k.a[1] if k.op == "op" and k.a[0] in ("len",) else None
        x = E.strip(x) if type(x) is T else None
        return x is not None and x.op == "fld" and x.a[1] in (1, "1") and "::parse" in callee(E.strip(x.a[0]))


from rules.events import raw_store  # noqa: E402
from lib import conf_returning, truths  # noqa: E402


class C24server(Rule):
    """A configuration that is rejected changes nothing."""
    prop = "C24"

    def __init__(self):
        super().__init__()
        self.need = {"configurations installed": 1, "rejections": 1}
        self.keeps = self.outcome

    def made(self, t):
        t = E.strip(t)
        return callee(t) in self.fns()

    def fns(self):
        r = getattr(self, "_fns", None)
        if r is None:
            r = self._fns = set(conf_returning(E.CUR[0].p))
        return r

    def outcome(self, k):
        return k.op == "discr" and self.made(k.a[0])

    def rejected(self, st):
        return any(v == ("=", 1) and self.outcome(k) for k, v in st.facts.items())

    def accepted(self, eng, t):
        return all(x.op == "fld" and x.a[1] == OK0 and self.made(x.a[0]) for x in alts(eng, t))

    def on(self, eng, st, ev):
        if ev.kind == "store":
            p = raw_store(ev)
            if p and p[0] in ("LockedState.config", "LockedState.details"):
                if p == ("LockedState.config",):
                    self.saw("configurations installed", where2(ev))
                    if not self.accepted(eng, E.strip(ev.args[2])):
                        self.bad(eng, st, ev, "installed in %s" % short(ev.fn), "what is installed is not a configuration that was read and accepted")
                if self.rejected(st):
                    self.bad(eng, st, ev, "store in %s" % short(ev.fn), "a configuration that is rejected changes the server's state")
        elif ev.kind == "prim" and ev.name in CHANGES and self.rejected(st):
            self.bad(eng, st, ev, "%s in %s" % (ev.name, short(ev.fn)), "a configuration that is rejected changes an account's state")
        elif ev.kind == "call" and self.rejected(st):
            p = reply(ev)
            if p is not None:
                self.saw("rejections", where2(ev))
                if (text(p[0]) or "").startswith("ok"):
                    self.bad(eng, st, ev, "acknowledged in %s" % short(ev.fn), "a reload is acknowledged although the configuration was rejected")
        elif ev.kind in ("exitproc",) and serves_client(eng) and self.rejected(st):
            self.bad(eng, st, ev, "exit", "a configuration that is rejected ends the server")


# ------------------------------------------------------------------ times
UNITS = {"d": 86400, "h": 3600, "m": 60, "s": 1}


class TimeText(Rule):

    @staticmethod
    def wants(prog):
        return [x for x in text_fns(prog) if "Duration" in prog.ty(prog.bodies[x]["locals"][0][0])]

    def __init__(self):
        super().__init__()
        self.need = {"units of time": 4}
        self.keeps = self.spelt
        self.judged = set()

    def spelt(self, k):
        return E.CUR[0].cur_body in self.fns

    def start(self, eng):
        self.fns = [x for x in text_fns(eng.p) if "Duration" in eng.p.ty(eng.p.bodies[x]["locals"][0][0])]

    def unit(self, st):
        for k, v in st.facts.items():
            if v[0] == "=" and type(v[1]) is int and type(v[1]) is not bool and chr(v[1]) in UNITS if v[0] == "=" and type(v[1]) is int and 0 < v[1] < 200 else False:
                return chr(v[1])
            if v[0] == "=" and type(v[1]) is str and v[1] in UNITS:
                return v[1]
            if v == ("=", True) and k.op in ("op", "call") and re.search(r"::ends_with$", callee(k)):
                c = E.strip(cargs(k)[1])
                s = cval(c)
                s = chr(s) if type(s) is int and 0 < s < 200 else s
                if s in UNITS:
                    return s
            if v == ("=", 1) and k.op == "discr" and re.search(r"::strip_suffix$", callee(E.strip(k.a[0]))):
                s = cval(E.strip(cargs(E.strip(k.a[0]))[1]))
                s = chr(s) if type(s) is int and 0 < s < 200 else s
                if s in UNITS:
                    return s
        return None

    def number(self, t):
        """Is t the number that was written?"""
        t = E.strip(t)
        if t.op == "fld" and t.a[1] == OK0:
            c = E.strip(t.a[0])
            return callee(c).endswith("::parse") or callee(c).endswith("from_str_radix") or callee(c).endswith("::from_str")
        return False

    def seconds(self, t):
        """(factor, is overflow reported) of a number of seconds."""
        t = E.strip(t)
        if self.number(t):
            return 1, True
        if t.op == "fld" and t.a[1] == SOME0:
            c = E.strip(t.a[0])
            if callee(c).endswith("::checked_mul"):
                a, b = [E.strip(x) for x in cargs(c)]
                for x, y in ((a, b), (b, a)):
                    if self.number(x) and type(cval(y)) is int:
                        return cval(y), True
        if t.op in ("op", "call"):
            a = [E.strip(x) for x in cargs(t) if type(x) is T]
            if len(a) == 2 and re.search(r"(Mul|_mul|::mul)", callee(t)):
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    if self.number(x) and type(cval(y)) is int:
                        return cval(y), False
        return None, None

    def on(self, eng, st, ev):
        if ev.kind != "return" or eng.cur_body not in self.fns:
            return
        v = E.strip(ev.args[0])
        if not (v.op == "agg" and v.a[0] == "std::result::Result" and v.a[1] == 0):
            return
        d = E.strip(v.a[2][0])
        if not re.search(r"Duration::from_\w+$", callee(d)) and not (d.op == "c" and d.a[0][0] == "dur"):
            if ev.name == eng.cur_body and len(ev.stack) <= 1 and not all(x in self.judged for x in alts(eng, d)):
                self.bad(eng, st, ev, "time", "cannot tell what a time becomes: %s" % show(d, 4))
            return
        u = self.unit(st)
        f, chk = self.seconds(cargs(d)[0]) if d.op != "c" and callee(d).endswith("from_secs") else (None, None)
        if f is not None and callee(d).endswith("from_secs"):
            self.saw("units of time", u)
        self.judged.add(d)
        self.judge(eng, st, ev, u, f, chk, d)

    def judge(self, eng, st, ev, u, f, chk, d):
        pass


class C23time(TimeText):
    prop = "C23"

    def judge(self, eng, st, ev, u, f, chk, d):
        if u is None or f != UNITS[u]:
            self.bad(eng, st, ev, "unit %s" % u, "a time in unit %s is taken to be %s" % (u, show(d, 5)))


class C24time(TimeText):
    prop = "C24"

    def judge(self, eng, st, ev, u, f, chk, d):
        if not chk:
            self.bad(eng, st, ev, "overflow of unit %s" % u, "a time in unit %s that is too large is not rejected" % u)


# ------------------------------------------------------------------ C30: the addresses that are listened on if none are configured
class C30defaults(Rule):
    prop = "C30"

    def __init__(self):
        super().__init__()
        self.need = {"default addresses": 2}

    def on(self, eng, st, ev):
        if ev.kind != "agg" or ev.name != CONF:
            return
        d = dict(zip([f[0] for f in eng.p.adts[CONF]["v"][0]["f"]], ev.args[0].a[2]))
        for f in ("http_listen", "https_listen"):
            if f not in d:
                self.bad(eng, st, ev, "no %s" % f, "there is no setting %s" % f)
                continue
            for c in roots(eng, d[f])[1]:
                if type(c) is str and re.match(r"(127\.\d+\.\d+\.\d+|\[::1\]|localhost):0$", c):
                    self.saw("default addresses", (f, c))
                elif c is not None:
                    self.bad(eng, st, ev, "default of %s" % f, "without %s, the server listens on %s: that is not a loopback address with a port chosen by the system" % (f, c))
