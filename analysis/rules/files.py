"""C43: which files the server and its clients use."""
from rules.common import *
from rules import client
from rules.client import Client, CONNECT, BIND, FACTS, mentions

READ = re.compile(r"(^|::)Config::from_path$")
ENV = re.compile(r"env::var(_os)?$")
OPT = re.compile(r"Matches::opt_(str|get|get_default|default)$")
PURE = re.compile(r"(PathBuf::from|as_path|to_path_buf|to_owned|clone|into|as_ref|deref|from|as_os_str|as_str|to_string|into_os_string|into_boxed_path|into_path_buf|leak|as_mut_os_string|as_mut_os_str|as_bytes)$")
ABS = re.compile(r"(fs::canonicalize|Path(Buf)?::canonicalize|path::absolute)$")
MOVE = re.compile(r"(env::set_current_dir|(^|::)f?chdir)$")
DETACH = re.compile(r"(^|::)daemon$")
PATHS = re.compile(r"env::var|Matches::opt_")


def parts(t, n=0):
    """The components of a path: a list of texts and terms, "/" first where it was made absolute."""
    t = E.strip(t)
    if n > 20:
        return [t]
    x = text(t)
    if x is not None:
        return [y for y in x.split("/") if y] if not x.startswith("/") else ["/"] + [y for y in x.split("/") if y]
    c = callee(t) if t.op in ("op", "call", "out") else ""
    a = cargs(t) if c else ()
    if t.op == "out" and c.endswith("PathBuf::push") or t.op != "out" and re.search(r"Path(Buf)?::join$", c):
        return parts(a[0], n + 1) + parts(a[1], n + 1)
    if re.search(r"PathBuf::new$", c):
        return []
    if t.op != "out" and ABS.search(c):
        return ["/"] + [y for y in parts(a[0], n + 1) if y != "/"]
    if re.search(r"env::current_dir$", c):
        return ["/"]
    if t.op == "fld" and type(t.a[0]) is T:
        b = E.strip(t.a[0])
        if b.op in ("op", "call"):
            if re.search(r"env::current_dir$", callee(b)):
                return ["/"]
            if ABS.search(callee(b)):
                return ["/"] + [y for y in parts(cargs(b)[0], n + 1) if y != "/"]
            if ENV.search(callee(b)):
                return [("env", text(E.strip(cargs(b)[0])))]
            if OPT.search(callee(b)):
                return [("opt", text(E.strip(cargs(b)[1])))]
    if t.op in ("arr", "tup"):
        return [y for z in t.a[0] for y in parts(z, n + 1)]
    if t.op in ("op", "call") and PURE.search(c) and len(a) == 1:
        return parts(a[0], n + 1)
    return [t]


def absent(st, pat, names):
    """Is it known that this variable or option is not there?"""
    for k, v in st.facts.items():
        if k.op != "discr" and not (k.op == "op" and k.a[0] == "discr"):
            continue
        x = E.strip(k.a[0] if k.op == "discr" else k.a[1])
        if x.op not in ("op", "call") or not pat.search(callee(x)):
            continue
        a = cargs(x)
        if text(E.strip(a[-1])) not in names:
            continue
        gone = 1 if callee(x).endswith("env::var") else 0
        if v == ("=", gone):
            return True
        if v[0] == "!" and (1 - gone) in v[1]:
            return True
    for k, v in st.facts.items():
        if v == ("=", False) and k.op in ("op", "call") and re.search(r"Matches::opt_present$", callee(k)) and pat is OPT and text(E.strip(cargs(k)[1])) in names:
            return True
    return False


CFLAG = ("c", "config")


class C43(Client):
    prop = "C43"
    fields = set()      # the fields of the shared state from which a reload takes the path
    elsewhere = {}      # changes of the working directory by the running server

    def __init__(self):
        super().__init__()
        self.moved = {}
        self.rel = None
        self.socks = {}
        self.need = {"readings of the configuration at start": 1, "states made": 1, "reloads' paths compared": 1, "commands using the socket": 6}

    def relevant(self, k):
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = mentions(k, FACTS) or mentions(k, PATHS, {})
        return r

    def on(self, eng, st, ev):
        if self.get(st, "cmd") is None:
            self.put(st, "cmd", self.given(st))
        self.last = (ev, st)
        if ev.kind == "call":
            n = nm(ev)
            if READ.search(n):
                self.read(eng, st, ev)
            elif MOVE.search(n) and self.cmd(st) == "server":
                self.moved[where2(ev)] = (ev, st)
            elif DETACH.search(n) and ev.args and cval(E.strip(ev.args[0])) is not True:
                self.moved[where2(ev)] = (ev, st)
            elif (CONNECT.search(n) or BIND.search(n)) and self.cmd(st) and ev.args:
                for x in alts(eng, ev.args[0]):
                    self.socks.setdefault(self.cmd(st), set()).add(tuple(y if type(y) is not T else show(y, 6) for y in parts(x)))
                self.saw("commands using the socket", self.cmd(st))
        elif ev.kind == "agg" and ev.name.endswith(GLOBAL):
            self.made(eng, st, ev)

    def read(self, eng, st, ev):
        self.saw("readings of the configuration at start", where2(ev))
        a = E.strip(ev.args[0])
        for x in alts(eng, a):
            p = parts(x)
            if p[:1] == ["/"]:
                p = p[1:]
            else:
                self.rel = (ev, st)
            one = a.op != "phi"
            if len(p) == 1 and p[0][0] == "opt" and p[0][1] in CFLAG if type(p[0]) is tuple else False:
                continue
            if p[-1:] != ["pizauth.conf"] or type(p[0]) is not tuple:
                self.bad(eng, st, ev, "path", "the configuration may be read from a file which is neither the one given with -c nor a documented default: %s" % show(x, 6))
                continue
            d = p[:-1]
            if d not in ([("env", "XDG_CONFIG_HOME")], [("env", "HOME"), ".config"]):
                self.bad(eng, st, ev, "default", "the default configuration file is not in a documented directory: %s" % show(x, 6))
                continue
            if one and not absent(st, OPT, CFLAG):
                self.bad(eng, st, ev, "-c ignored", "a default configuration file may be read although -c was given")
            if one and d[0][1] == "HOME" and not absent(st, ENV, ("XDG_CONFIG_HOME",)):
                self.bad(eng, st, ev, "order", "$HOME/.config may be used although $XDG_CONFIG_HOME is set")
        self.put(st, "read", (a, ev.ret))

    def made(self, eng, st, ev):
        self.saw("states made", where2(ev))
        r = self.get(st, "read")
        if r is None:
            return self.bad(eng, st, ev, "no file", "the server's state is made without having read a configuration file")
        vals = E.strip(ev.args[0]).a[2]
        for (nme, _), x in zip(eng.owners(ev.name)[0][2], vals):
            if nme in C43.fields:
                self.saw("reloads' paths compared", nme)
                x = E.strip(x)
                if x is not r[0] and parts(x) != parts(r[0]) and [y for y in parts(x) if y != "/"] != [y for y in parts(r[0]) if y != "/"]:
                    self.bad(eng, st, ev, "another file", "a reload reads another file than the one the server was started with: %s" % show(x, 6))
        if type(r[1]) is T and not any(y is r[1] for x in vals for y in subterms(x)):
            self.bad(eng, st, ev, "another configuration", "the server's first configuration is not the one read from the file")

    def finish(self, eng):
        super().finish(eng)
        if self.rel is not None:
            for w, (ev, st) in sorted(list(self.moved.items()) + list(C43.elsewhere.items()), key=lambda x: x[0]):
                self.bad(eng, st, ev, "directory changed in %s" % short(ev.fn or "?"), "the working directory changes although the path of the configuration file may be relative: a reload would read another file")
        base = self.socks.get("server")
        if base is None:
            return
        for c in sorted(self.socks):
            self.saw("sockets compared", c)
            if self.socks[c] != base:
                ev, st = self.last
                eng.violate(self.prop, "socket of %s" % c, "the command %s uses another socket than the server listens on: %s" % (c, sorted(self.socks[c] ^ base, key=str)[:2]), ev, st)


class C43reload(Rule):
    prop = "C43"

    def __init__(self):
        super().__init__()
        self.need = {"readings of the configuration at reload": 1}
        C43.fields = set()
        C43.elsewhere = {}

    def on(self, eng, st, ev):
        if ev.kind != "call":
            return
        n = nm(ev)
        if READ.search(n):
            self.saw("readings of the configuration at reload", where2(ev))
            for x in alts(eng, ev.args[0]):
                x = E.strip(x)
                while x.op == "fld" and re.match(r"Box\.", fname(x)) or x.op in ("op", "call") and PURE.search(callee(x)) and len(cargs(x)) == 1:
                    x = E.strip(x.a[0] if x.op == "fld" else cargs(x)[0])
                if x.op == "fld" and GLOBAL in str(x.a[1]) and E.strip(x.a[0]).op == "sym":
                    C43.fields.add(fname(x).split(".")[-1])
                else:
                    self.bad(eng, st, ev, "reload", "a reload may read another file than the one the server was started with: %s" % show(x, 5))
        elif MOVE.search(n):
            C43.elsewhere[where2(ev)] = (ev, st)
