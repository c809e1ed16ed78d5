"""The command line: control protocol, exit statuses, the socket's directory, starting the server."""
from rules.common import *
from rules.secrets import LOG

# What each client command asks for, and the reply that confirms that it succeeded.
CLI = {"dump": "dump", "info": "info", "refresh": "refresh", "reload": "reload", "restore": "restore", "revoke": "revoke",
       "show": "showtoken", "shutdown": "shutdown", "status": "status"}
DONE = {"refresh": "scheduled", "reload": "ok", "restore": "ok", "revoke": "ok", "show": "access_token", "status": "ok"}
PRINTS = ("show", "status")          # the rest of the reply is what was asked for
ARGS = {"refresh": 1, "revoke": 1, "show": 1}
CONNECT = re.compile(r"UnixStream::connect(_addr)?$")
READ = re.compile(r"::(read_to_string|read_to_end|read|read_exact|read_line|read_until)$")
STDOUT = re.compile(r"(^std::io::_print$|io::stdio::_print$)")
FACTS = re.compile(r"(env::args(_os)?|UnixStream::connect\w*|io::\w+::(read|write|flush)\w*|getopts::\w+.*::(parse|opt_\w+)|io::read_to_string|"
                   r"set_permissions|Path::(exists|is_file|is_dir|try_exists|join)|PathBuf::push|Config::from_\w+|TcpListener::bind|UnixListener::bind|Builder::spawn|daemon)$")


def mentions(t, pat, memo={}):
    k = (t, pat)
    r = memo.get(k)
    if r is None:
        r = memo[k] = any(x.op in ("op", "call", "out") and pat.search(callee(x)) is not None for x in subterms(t))
    return r


def stream_of(t):
    """The connection that a stream term comes from: its connect call, and what was written to it, in order (None otherwise)."""
    wrote = []
    n = 0
    while n < 60:
        n += 1
        t = E.strip(t)
        if t.op == "fld" and re.search(r"(Ok|Some)\.0$", str(t.a[1])):
            t = t.a[0]
        elif t.op == "out":
            a = cargs(t)
            k = cval(t.a[2]) if type(t.a[2]) is T else t.a[2]
            if type(k) is not int or k >= len(a):
                k = 0
            if WRITE.search(callee(t)) and k == 0:
                wrote.append([E.strip(x) for x in M.fmt_parts(a[1])])
            t = a[k]
        elif t.op in ("op", "call"):
            if CONNECT.search(callee(t)):
                return t, [p for w in wrote[::-1] for p in w]
            if re.search(r"(map_err|unwrap\w*|expect|try_clone|ok_or\w*|ok|BufReader::new|BufWriter::new|by_ref|take|chain|as_\w+|into_inner)$", callee(t)) and cargs(t):
                t = cargs(t)[0]
            else:
                return None
        else:
            return None
        if type(t) is not T:
            return None
    return None


def read_from(t):
    """If t is what was read from a connection: (connection, what was sent before)."""
    t = E.strip(t)
    n = 0
    while t.op in ("op", "call") and re.search(r"(String::from_utf8\w*|str::from_utf8\w*|trim\w*|to_owned|to_string|as_bytes|as_str|as_slice|clone|io::read_to_string)$|^(utf8|from_utf8)$", callee(t)) and cargs(t) and n < 20:
        if callee(t).endswith("io::read_to_string"):
            return stream_of(cargs(t)[0])
        t, n = E.strip(cargs(t)[0]), n + 1
    if t.op == "fld" and re.search(r"(Ok|Some)\.0$", str(t.a[1])):
        return read_from(t.a[0])
    if t.op == "out" and READ.search(callee(t)):
        k = cval(t.a[2]) if type(t.a[2]) is T else t.a[2]
        if k != 0:
            return stream_of(cargs(t)[0])
    return None


def replies(t):
    """The replies of the server that a term depends on."""
    out = []
    for x in subterms(t):
        if (x.op == "out" or x.op in ("op", "call")) and (READ.search(callee(x)) or callee(x).endswith("io::read_to_string")):
            r = read_from(x) if x.op == "out" else (stream_of(cargs(x)[0]) if callee(x).endswith("io::read_to_string") else None)
            if r is not None:
                out.append(x)
    return out


def limited(t):
    """Is a stream read through something that ends before the stream does?"""
    n = 0
    while type(t) is T and n < 60:
        n, t = n + 1, E.strip(t)
        if t.op in ("op", "call") and re.search(r"io::(Read|BufRead)::(take|bytes)$", callee(t)):
            return True
        if t.op == "out":
            k = cval(t.a[2]) if type(t.a[2]) is T else t.a[2]
            a = cargs(t)
            t = a[k] if type(k) is int and k < len(a) else a[0] if a else None
        elif t.op in ("op", "call") and cargs(t):
            t = cargs(t)[0]
        elif t.op in ("fld", "ix"):
            t = t.a[0]
        else:
            return False
    return False


SPLIT = re.compile(r"str>?::(splitn|split|split_once|split_terminator|rsplitn|strip_prefix|starts_with)$|^(split_once|strip_prefix|splitn|split|starts_with)$")


def colon(t):
    c = cval(t) if type(t) is T else None
    return c in (58, ":", b":") or text(t) == ":"


def piece(t):
    """If t is a part of a reply: (the reply, "word" | "rest" | "all")."""
    t = E.strip(t)
    if read_from(t) is not None:
        return t, "all"
    b, k = None, None
    if t.op == "ix":
        b, k = E.strip(t.a[0]), cval(t.a[1]) if type(t.a[1]) is T else t.a[1]
    elif t.op == "fld" and str(t.a[1]) in ("0", "1"):
        b, k = E.strip(t.a[0]), int(str(t.a[1]))
        if b.op == "fld" and str(b.a[1]).endswith("Some.0"):
            b = E.strip(b.a[0])
    elif t.op == "fld" and str(t.a[1]).endswith("Some.0"):
        b = E.strip(t.a[0])
        if b.op in ("op", "call") and callee(b).split("::")[-1] == "strip_prefix":
            s = text(E.strip(cargs(b)[1]))
            p = piece(cargs(b)[0])
            if p is not None and p[1] == "all" and s is not None and s.endswith(":") and s.count(":") == 1:
                return p[0], "rest"
            return None
        return piece(b)
    if b is None or not (b.op in ("op", "call")) or not SPLIT.search(callee(b)):
        return None
    m = callee(b).split("::")[-1]
    a = cargs(b)
    p = piece(a[0])
    if p is None or p[1] != "all":
        return None
    if m in ("splitn", "split") and colon(a[-1]) or m == "split_once" and colon(a[-1]):
        if k == 0:
            return p[0], "word"
        if k == 1 and (m == "split_once" or m == "splitn" and cval(a[1]) == 2):
            return p[0], "rest"
    return None


def known(st, isr):
    """What is known of replies on this path: {reply: [word or None, rest known to be empty, words known not to be first]}."""
    out = {}

    def put(r, word=None, empty=False, no=()):
        e = out.setdefault(r, [None, False, set()])
        if word is not None:
            e[0] = word
        e[1] |= empty
        e[2] |= set(no)
    for k, v in st.facts.items():
        if not isr(k):
            continue
        if v[0] == "=" and type(v[1]) in (str, bytes) or v[0] == "!":
            p = piece(k)
            if p is None:
                if k.op == "op" and k.a[0] == "len" and v[0] == "=" and v[1] == 0:
                    p = piece(k.a[1])
                    if p is not None and p[1] == "rest":
                        put(p[0], empty=True)
                continue
            vs = [v[1]] if v[0] == "=" else list(v[1])
            vs = [x.decode("latin-1") if type(x) is bytes else x for x in vs if type(x) in (str, bytes)]
            if p[1] == "word":
                put(p[0], *([vs[0]] if v[0] == "=" else [None]), no=vs if v[0] == "!" else ())
            elif p[1] == "rest" and v[0] == "=" and vs == [""]:
                put(p[0], empty=True)
            elif p[1] == "all":
                for s in vs:
                    w, c, r = s.partition(":")
                    if v[0] == "=" and c:
                        put(p[0], w, r == "")
        elif v[0] == "=" and k.op == "op" and k.a[0] == "len" and v[1] == 0:
            p = piece(k.a[1])
            if p is not None and p[1] == "rest":
                put(p[0], empty=True)
        elif v[0] == "=" and k.op == "op" and k.a[0] == "eq":
            for a, b in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                s = text(E.strip(b))
                p = piece(a) if s is not None else None
                if p is None:
                    continue
                if v[1] is True or v[1] == 1:
                    if p[1] == "word":
                        put(p[0], s)
                    elif p[1] == "rest" and s == "":
                        put(p[0], empty=True)
                    elif p[1] == "all" and ":" in s:
                        put(p[0], s.partition(":")[0], s.partition(":")[2] == "")
                elif p[1] == "word":
                    put(p[0], no=[s])
        elif v[0] == "=" and (k.op in ("op", "call") and callee(k).split("::")[-1] in ("starts_with", "is_empty") or k.op == "discr"):
            x = k
            val = v[1] in (True, 1)
            if k.op == "discr":
                x = E.strip(k.a[0])
                if not (x.op in ("op", "call") and callee(x).split("::")[-1] == "strip_prefix"):
                    continue
            if callee(x).split("::")[-1] == "is_empty":
                p = piece(cargs(x)[0])
                if p is not None and p[1] == "rest" and val:
                    put(p[0], empty=True)
                continue
            s = text(E.strip(cargs(x)[1]))
            p = piece(cargs(x)[0])
            if p is not None and p[1] == "all" and s is not None and s.endswith(":"):
                put(p[0], *([s[:-1]] if val else [None]), no=() if val else [s[:-1]])
        elif v[0] == "=" and k.op == "op" and k.a[0] == "discr":
            pass
    return out


def argv1(t):
    return any(x.op in ("op", "call") and re.search(r"env::args(_os)?$", callee(x)) for x in subterms(t))


def ok_fact(st, t, yes=True):
    """Is the result t known to be Ok (or, with yes False, Err) on this path?"""
    for k, v in st.facts.items():
        if (k.op == "discr" or k.op == "op" and k.a[0] == "discr") and v == ("=", 0 if yes else 1):
            x = k.a[0] if k.op == "discr" else k.a[1]
            if E.strip(x) is E.strip(t):
                return True
    return False


class Client(Rule):
    """Common part: what is known on a path about the command and the server's reply."""

    def __init__(self):
        super().__init__()
        self.memo = {}
        self.mr = {}
        self.keeps = self.relevant

    def relevant(self, k):
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = mentions(k, FACTS)
        return r

    def isr(self, k):
        r = self.mr.get(k)
        if r is None:
            r = self.mr[k] = bool(replies(k))
        return r

    def cmd(self, st):
        """The command that the user gave (None if it is not known on this path)."""
        return self.get(st, "cmd")

    def given(self, st):
        for k, v in st.facts.items():
            if v[0] != "=" or not (k.op != "op" or k.a[0] in ("eq", "at", "json")):
                continue
            if type(v[1]) is str and argv1(k) and self.first(k):
                return v[1]
            if v[1] is True and k.op == "op" and k.a[0] == "eq":
                for a, b in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                    if text(E.strip(b)) is not None and argv1(a) and self.first(a):
                        return text(E.strip(b))
        return None

    def first(self, t):
        """Is t the first argument (and not something made from the arguments)?"""
        return not mentions(t, re.compile(r"getopts::")) and not self.isr(t)

    def on(self, eng, st, ev):
        if self.get(st, "cmd") is None:
            self.put(st, "cmd", self.given(st))
        if ev.kind == "call" and CONNECT.search(nm(ev)):
            self.put(st, "connected", True)
        if self.get(st, "connected"):
            for r, (w, e, no) in known(st, self.isr).items():
                if w is not None and self.get(st, "word") != (w, e):
                    old = self.get(st, "word")
                    if old is None or old[0] != w or not old[1]:
                        self.put(st, "word", (w, e))
                        self.saw("kinds of reply told apart", "%s: %s" % (self.cmd(st), w))
        self.event(eng, st, ev)

    def event(self, eng, st, ev):
        pass

    def printed(self, ev):
        """What a call event writes to standard output (None if nothing)."""
        n = nm(ev)
        if STDOUT.search(n):
            return [E.strip(x) for a in ev.args for x in M.fmt_parts(a)]
        if WRITE.search(n) and len(ev.args) > 1 and mentions(ev.args[0], re.compile(r"io::(stdio::)?stdout$")):
            return [E.strip(x) for x in M.fmt_parts(ev.args[1])]
        return None

    def said(self, eng, ev):
        """The parts of what a call event logs or writes to standard error (None if nothing)."""
        n = nm(ev)
        if STDOUT.search(n):
            return None
        if LOG.search(n) or WRITE.search(n) and len(ev.args) > 1 and mentions(ev.args[0], re.compile(r"io::(stdio::)?stderr$")):
            out = []
            for a in ev.args:
                if type(a) is T:
                    for x in alts(eng, a):
                        out += [E.strip(y) for p in M.fmt_parts(x) for y in alts(eng, E.strip(p))]
            return out
        return None


class C22(Client):
    prop = "C22"

    def __init__(self):
        super().__init__()
        self.need = {"connections of client commands": 9, "exits with success": 9, "exits with failure": 10, "confirmed by the server": 6}

    def event(self, eng, st, ev):
        if ev.kind == "exit":
            self.success(eng, st, ev)
        elif ev.kind == "exitproc":
            c = cval(ev.args[0]) if ev.args and type(ev.args[0]) is T else None
            if c == 0:
                self.success(eng, st, ev)
            else:
                self.failure(eng, st, ev, c)
        elif ev.kind == "call":
            p = self.printed(ev)
            if p is not None:
                self.put(st, "printed", self.get(st, "printed", ()) + (tuple(p),) if len(self.get(st, "printed", ())) < 3 else self.get(st, "printed"))
            elif CONNECT.search(nm(ev)):
                self.connect(eng, st, ev)

    def connect(self, eng, st, ev):
        c = self.cmd(st)
        if c == "server":
            return
        self.saw("connections of client commands", c)
        if c is None:
            return self.bad(eng, st, ev, "unknown command", "the server is contacted for an unknown command")
        parsed, helped, free = False, True, None
        for k, v in st.facts.items():
            if (k.op == "discr" or k.op == "op" and k.a[0] == "discr") and v == ("=", 0) and self.parse(E.strip(k.a[-1])):
                parsed = True
            elif k.op in ("op", "call") and callee(k).endswith("Matches::opt_present") and text(E.strip(cargs(k)[1])) in ("h", "help") and v == ("=", False):
                helped = False
            elif k.op == "op" and k.a[0] == "len" and fname(E.strip(k.a[1])).endswith("Matches.free") and v[0] == "=":
                free = v[1]
            elif k.op == "op" and k.a[0] == "eq" and v == ("=", True):
                for a, b in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                    if a.op == "op" and a.a[0] == "len" and fname(E.strip(a.a[1])).endswith("Matches.free"):
                        free = cval(b)
        if not parsed:
            self.bad(eng, st, ev, "options of %s" % c, "the server is contacted although the options may be wrong")
        if helped:
            self.bad(eng, st, ev, "help of %s" % c, "the server is contacted although only the usage was asked for")
        if free != ARGS.get(c, 0):
            self.bad(eng, st, ev, "arguments of %s" % c, "the server is contacted although the number of arguments may be wrong")

    def parse(self, t):
        return t.op in ("op", "call") and callee(t).endswith("Options::parse")

    def success(self, eng, st, ev):
        c = self.cmd(st)
        if c == "server":
            return
        self.saw("exits with success", c)
        if c not in CLI:
            return self.bad(eng, st, ev, "success of no command", "the process exits with status 0 although no command was carried out")
        printed = self.get(st, "printed", ())
        if c == "info":
            if not printed:
                self.bad(eng, st, ev, "info prints nothing", "`info` exits with status 0 without having printed anything")
            return
        if c == "shutdown":
            if not any(self.delivered(k) and v == ("=", 0) for k, v in st.facts.items()):
                self.bad(eng, st, ev, "shutdown not delivered", "`shutdown` exits with status 0 although its request may not have been delivered")
            else:
                self.saw("confirmed by the server", c)
            return
        if c == "dump":
            return self.dumped(eng, st, ev, printed)
        w = self.get(st, "word")
        if w is None or w[0] != DONE[c] or not w[1] and c not in PRINTS:
            return self.bad(eng, st, ev, "%s unconfirmed" % c, "`%s` exits with status 0 although the server may not have confirmed success" % c)
        self.saw("confirmed by the server", c)
        if c in PRINTS:
            ps = [x for p in printed for x in p if not (text(x) is not None and text(x).strip("\n") == "")]
            good = len(ps) == 1 and (piece(ps[0]) or (None, None))[1] == "rest"
            if not good:
                self.bad(eng, st, ev, "%s prints" % c, "`%s` exits with status 0 without having printed exactly what was asked for" % c)
        elif printed:
            self.bad(eng, st, ev, "%s prints" % c, "`%s` writes to standard output" % c)

    def delivered(self, k):
        if not (k.op == "discr" or k.op == "op" and k.a[0] == "discr"):
            return False
        x = E.strip(k.a[-1])
        if not (x.op in ("op", "call") and WRITE.search(callee(x)) and len(cargs(x)) > 1):
            return False
        s = stream_of(cargs(x)[0])
        return s is not None and "".join(text(y) or "?" for y in s[1] + [E.strip(z) for z in M.fmt_parts(cargs(x)[1])]).startswith("shutdown:")

    def dumped(self, eng, st, ev, printed):
        full = wrote = flushed = False
        for k, v in st.facts.items():
            d = k.op == "discr" or k.op == "op" and k.a[0] == "discr"
            x = E.strip(k.a[-1]) if d else k
            if d and v == ("=", 0) and x.op in ("op", "call") and mentions(x, re.compile(r"io::(stdio::)?stdout$")):
                if WRITE.search(callee(x)) and not callee(x).endswith("::write") and len(cargs(x)) > 1 and read_from(cargs(x)[1]) is not None:
                    wrote = True
                elif callee(x).endswith("::flush"):
                    flushed = True
            elif k.op == "op" and k.a[0] == "len" and read_from(k.a[1]) is not None and (v[0] == "!" and 0 in v[1] or v[0] == "=" and v[1] != 0):
                full = True
            elif k.op in ("op", "call") and callee(k).split("::")[-1] == "is_empty" and read_from(cargs(k)[0]) is not None and v == ("=", False):
                full = True
            elif k.op == "op" and k.a[0] == "lt" and v == ("=", True) and cval(k.a[1]) == 0 and k.a[2].op == "op" and k.a[2].a[0] == "len" and read_from(k.a[2].a[1]) is not None:
                full = True
            elif k.op == "op" and k.a[0] == "eq" and v == ("=", False) and any(a.op == "op" and a.a[0] == "len" and read_from(a.a[1]) is not None and cval(b) == 0 for a, b in ((k.a[1], k.a[2]), (k.a[2], k.a[1]))):
                full = True
        if not full:
            self.bad(eng, st, ev, "dump empty", "`dump` exits with status 0 although the server may have sent no dump")
        elif not wrote or not flushed or len(printed) != 1:
            self.bad(eng, st, ev, "dump not written", "`dump` exits with status 0 although the dump may not have been written in full")
        else:
            self.saw("confirmed by the server", "dump")

    def failure(self, eng, st, ev, c):
        cmd = self.cmd(st)
        self.saw("exits with failure", where2(ev))
        if c != 1:
            self.bad(eng, st, ev, "status", "the process exits with a status that may not be 0 or 1")
        if cmd == "server":
            return
        printed = self.get(st, "printed", ())
        if cmd == "dump":
            if any((k.op == "discr" or k.op == "op" and k.a[0] == "discr") and v == ("=", 1) and mentions(k, re.compile(r"io::(stdio::)?stdout$")) for k, v in st.facts.items()):
                return
        w = self.get(st, "word")
        if printed:
            self.bad(eng, st, ev, "%s prints" % cmd, "`%s` exits with failure having written to standard output" % cmd)
        if w is not None and cmd in DONE and w[0] == DONE[cmd] and (cmd in PRINTS or w[1]):
            self.bad(eng, st, ev, "%s confirmed" % cmd, "`%s` exits with failure although the server confirmed success" % cmd)


# ------------------------------------------------------------------ C21: the protocol
TABLE = {}            # what the server accepts and answers (found by C21server, used by C21)


def reqpart(t):
    """If t is a part of a control request: (part, the term that gives its bounds or delimiter). Parts: "all", "verb", "rest", ("rest", k, n, delimiter)."""
    t = E.strip(t)
    n = 0
    while n < 20:
        n += 1
        if t.op == "fld" and re.search(r"(Ok|Some)\.0$", str(t.a[1])) and E.strip(t.a[0]).op in ("op", "call") and \
                re.search(r"(from_utf8\w*|ok|ok_or\w*|map_err)$", callee(E.strip(t.a[0]))):
            t = E.strip(cargs(E.strip(t.a[0]))[0])
        elif t.op in ("op", "call") and re.search(r"(from_utf8\w*|to_vec|to_owned|to_string|as_bytes|as_str|as_slice|clone|into)$", callee(t)) and cargs(t):
            t = E.strip(cargs(t)[0])
        else:
            break
    if t.op == "out" and READ.search(callee(t)) and client_stream(cargs(t)[0]) and (cval(t.a[2]) if type(t.a[2]) is T else t.a[2]) != 0:
        return "all", None
    if t.op in ("op", "call") and callee(t) == "slice":
        b, r = cargs(t)
        p = reqpart(b)
        if p is None or p[0] != "all" or r.op != "agg":
            return None
        if r.a[0].endswith("RangeTo"):
            return "verb", r.a[2][0]
        if r.a[0].endswith("RangeFrom"):
            return "rest", r.a[2][0]
        return None
    b, k = None, None
    if t.op == "ix":
        b, k = E.strip(t.a[0]), cval(t.a[1]) if type(t.a[1]) is T else t.a[1]
    elif t.op == "fld" and str(t.a[1]) in ("0", "1"):
        b, k = E.strip(t.a[0]), int(str(t.a[1]))
        if b.op == "fld" and str(b.a[1]).endswith("Some.0"):
            b = E.strip(b.a[0])
    if b is None or b.op not in ("op", "call") or not SPLIT.search(callee(b)):
        return None
    m = callee(b).split("::")[-1]
    a = cargs(b)
    p = reqpart(a[0])
    if p is None:
        return None
    d = cval(a[-1])
    d = chr(d) if type(d) is int and 0 <= d < 0x110000 else text(a[-1])
    lim = cval(a[1]) if m == "splitn" else 2 if m == "split_once" else None
    if p[0] == "all" and d == ":":
        return ("verb", None) if k == 0 else ("rest", None) if k == 1 and lim == 2 else None
    if p[0] == "rest" and m in ("splitn", "split", "split_once"):
        return ("rest", k, lim, d), p[1]
    return None


class C21server(Rule):
    prop = "C21"

    def __init__(self):
        super().__init__()
        self.keeps = request_text
        self.need = {"requests served": 9, "kinds of replies": 12, "named accounts": 3, "texts of requests": 1, "turns of the accept loop": 1}
        self.words, self.url, self.forms, self.nothing, self.verbs = {}, set(), {}, set(), set()
        self.texts = set()

    def known_words(self, st, want):
        out = set()
        for k, v in st.facts.items():
            if not from_client(k):
                continue
            if v[0] == "=" and type(v[1]) in (str, bytes):
                p = reqpart(k)
                if p is not None and want(p[0]):
                    out.add(v[1] if type(v[1]) is str else v[1].decode("latin-1"))
            elif v == ("=", True) and k.op == "op" and k.a[0] == "eq":
                for a, b in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                    p = reqpart(a) if text(E.strip(b)) is not None else None
                    if p is not None and want(p[0]):
                        out.add(text(E.strip(b)))
        return out

    def on(self, eng, st, ev):
        if not serves_client(eng):
            return
        c = command(eng, st)
        if c is not None:
            self.verbs.add(c)
            self.saw("requests served", c)
        if ev.kind == "call":
            n = nm(ev)
            if READ.search(n) and ev.args and client_stream(ev.args[0]):
                self.put(st, "serving", True)
                if limited(ev.args[0]):
                    self.bad(eng, st, ev, "request cut off", "a request may be read only up to a limit")
            elif re.search(r"UnixListener::accept$", n):
                self.put(st, "serving", None)
                self.saw("turns of the accept loop", where2(ev))
            elif re.search(r"(signal::raise|signal::kill|process::abort|libc::raise|libc::kill)$", n) and c != "shutdown":
                self.bad(eng, st, ev, "signal", "the server is stopped by a request that does not ask for it")
            p = reply(ev)
            if p is not None:
                self.answer(eng, st, ev, c, p)
        elif ev.kind == "prim" and ev.name.endswith("validate_act_name") and from_client(ev.args[1]):
            self.account(eng, st, ev, c)
        elif ev.kind == "next" and eng.cur_root is None and ev.args and from_client(ev.args[0]) and source(ev.args[0])[0] in ("incoming",):
            self.put(st, "serving", None)
            self.saw("turns of the accept loop", where2(ev))
            if partial(ev.args[0]):
                self.bad(eng, st, ev, "some connections", "some connections to the control socket are left out")
        elif ev.kind == "exit" and eng.cur_root is None and self.get(st, "serving"):
            self.bad(eng, st, ev, "server ends", "the server may end after having served a request")
        elif ev.kind == "exitproc" and self.get(st, "serving") and c != "shutdown":
            self.bad(eng, st, ev, "server exits", "a request may make the server exit")

    def account(self, eng, st, ev, c):
        self.saw("named accounts", c)
        if altered(ev.args[1]):
            self.bad(eng, st, ev, "altered name", "the account looked up for `%s` is not the one named in the request but one derived from it" % c)
        p = reqpart(ev.args[1])
        self.forms.setdefault(c, set()).add(p[0] if p is not None else None)
        if p is None:
            return
        if p[1] is not None:
            self.bounds(eng, st, ev, p[1])

    def bounds(self, eng, st, ev, b):
        """Does what follows the command start after the first colon?"""
        self.saw("texts of requests", ev.fn)
        b = E.strip(b)
        plus = 0
        if b.op == "op" and b.a[0] == "Add":
            x, y = b.a[1], b.a[2]
            plus, b = (cval(y), E.strip(x)) if cval(y) is not None else (cval(x), E.strip(y))
        f = E.strip(b.a[0]) if b.op == "fld" else b
        if cval(b) is not None or plus != 1:
            return self.bad(eng, st, ev, "start of the argument", "the argument of a request is not what follows its first colon")
        chars = set()
        todo = [x for x in subterms(f)]
        for x in todo:
            c = cval(x)
            if type(c) is int and c in (58,) or text(x) == ":":
                chars.add(":")
            elif text(x) is not None and len(text(x)) == 1:
                chars.add(text(x))
            if x.op == "clo":
                for r in closure_results(eng, st, x, mk("sym", "c")):
                    for y in subterms(r):
                        d = cval(y)
                        if type(d) is int and type(d) is not bool and 9 <= d < 127 and d not in (10, 13):
                            chars.add(chr(d))
                        elif type(d) in (str, bytes) and len(d) == 1:
                            chars.add(text(y))
        if chars and ":" not in chars:
            self.bad(eng, st, ev, "delimiter", "the command of a request does not end at its first colon")

    def answer(self, eng, st, ev, c, parts):
        t = text(parts[0]) if parts else None
        if c in ("dump", "info"):
            self.nothing.add(c)
            return
        if t is None or ":" not in t:
            return self.bad(eng, st, ev, "reply to %s" % c, "a reply to `%s` does not begin with a word and a colon" % c)
        w = t.split(":")[0]
        self.saw("kinds of replies", (c, w))
        if c is None:
            if w != "error":
                self.bad(eng, st, ev, "reply to no command", "a request that is not understood is not answered by an error")
            return
        if c not in ("refresh", "restore", "revoke", "showtoken") and self.more(st):
            return              # a request that no client sends
        self.words.setdefault(c, set()).add(w)
        if len(parts) > 1 or not t.endswith(w + ":"):
            self.texts.add((c, w))
        if w == "pending" and len(parts) > 1:
            self.url |= self.known_words(st, lambda p: type(p) is tuple and p[1] == 0) or {None}

    def more(self, st):
        """Is the request known to have an argument?"""
        for k, v in st.facts.items():
            x = None
            if k.op == "op" and k.a[0] == "len" and (v[0] == "!" and 0 in v[1] or v[0] == "=" and v[1] != 0):
                x = k.a[1]
            elif k.op in ("op", "call") and callee(k).split("::")[-1] == "is_empty" and v == ("=", False):
                x = cargs(k)[0]
            if type(x) is T and (reqpart(x) or (0,))[0] == "rest":
                return True
        return False

    def finish(self, eng):
        TABLE.clear()
        TABLE.update(words=self.words, url=self.url, forms=self.forms, verbs=self.verbs, texts=self.texts)
        if None in self.url or len(self.url) != 1:
            eng.violate("C21", "withurl", "URLs are not sent exactly when one word of the request asks for them", None, None)


class C21(Client):
    prop = "C21"

    def __init__(self):
        super().__init__()
        self.need = {"requests of client commands": 9, "errors reported": 6, "kinds of reply told apart": 14}
        self.seen = {}
        self.ok = set()

    def event(self, eng, st, ev):
        c = self.cmd(st)
        w = self.get(st, "word")
        if w is not None and (ev.kind == "exit" or ev.kind == "exitproc" and cval(ev.args[0]) == 0):
            self.ok.add((c, w[0], w[1]))
        if w is not None:
            self.seen.setdefault(c, set()).add(w[0])
        if ev.kind == "call":
            n = nm(ev)
            if READ.search(n) and ev.args:
                s = stream_of(ev.args[0])
                if s is not None:
                    self.request(eng, st, ev, c, s[1])
                    if not self.get(st, "shut"):
                        self.bad(eng, st, ev, "end of %s" % c, "`%s` waits for the reply without having ended its request, which the server reads to its end" % c)
                    if limited(ev.args[0]):
                        self.bad(eng, st, ev, "reply of %s cut off" % c, "`%s` reads the reply only up to a limit" % c)
            if re.search(r"UnixStream::shutdown$", n) and len(ev.args) > 1 and stream_of(ev.args[0]) is not None:
                k = E.strip(ev.args[1])
                self.put(st, "shut", k.op == "agg" and k.a[1] == 1 or None)
            elif WRITE.search(n) and ev.args and stream_of(ev.args[0]) is not None:
                self.put(st, "shut", None)
            if w is not None and w[0] in ("error", "pending"):
                said = self.said(eng, ev)
                if said and self.shown(ev) and any((piece(x) or (0, ""))[1] in ("rest", "all") for x in said):
                    self.put(st, "told", True)
        elif ev.kind == "exit" or ev.kind == "exitproc":
            ok = ev.kind == "exit" or cval(ev.args[0]) == 0
            if c == "shutdown" and ok:
                for k, v in st.facts.items():
                    if v == ("=", 0) and (k.op == "discr" or k.op == "op" and k.a[0] == "discr"):
                        x = E.strip(k.a[-1])
                        if x.op in ("op", "call") and WRITE.search(callee(x)) and len(cargs(x)) > 1 and stream_of(cargs(x)[0]) is not None:
                            self.request(eng, st, ev, c, stream_of(cargs(x)[0])[1] + [E.strip(z) for z in M.fmt_parts(cargs(x)[1])])
            if w is not None and w[0] in ("error", "pending"):
                self.saw("errors reported", (c, w[0]))
                if ok:
                    self.bad(eng, st, ev, "%s of %s" % (w[0], c), "`%s` exits with status 0 although the server replied `%s`" % (c, w[0]))
                elif not self.get(st, "told"):
                    self.bad(eng, st, ev, "%s of %s untold" % (w[0], c), "`%s` does not report what the server replied with `%s`" % (c, w[0]))

    def shown(self, ev):
        """Is a log message an error (which is shown whatever the verbosity)?"""
        if "log::" not in nm(ev):
            return True
        return any(x.op == "agg" and x.a[0].endswith("Level") and x.a[1] == 0 for x in ev.args if type(x) is T)

    def request(self, eng, st, ev, c, parts):
        self.saw("requests of client commands", c)
        lit, rest = "", []
        for i, p in enumerate(parts):
            if text(p) is None or rest:
                rest.append(p)
            else:
                lit += text(p)
        while rest and text(rest[-1]) == "":
            rest.pop()
        verb, colon, arg = lit.partition(":")
        key = "request of %s" % c
        if not colon or verb != CLI.get(c) or verb not in TABLE.get("verbs", ()):
            return self.bad(eng, st, ev, key, "the request that `%s` sends is not the one that the server recognises for it" % c)
        forms = TABLE["forms"].get(verb, set())
        if not forms:
            if verb == "restore":
                if arg or len(rest) != 1 or not mentions(rest[0], re.compile(r"io::(stdio::)?stdin$")):
                    self.bad(eng, st, ev, key, "`restore` does not send what it read from standard input")
            elif arg or rest:
                self.bad(eng, st, ev, key, "`%s` sends an argument that the server does not expect" % c)
            return
        if len(rest) != 1 or not self.argument(rest[0]):
            return self.bad(eng, st, ev, key, "`%s` does not send the account that the user named" % c)
        for f in forms:
            if f is None:
                continue
            if f == "rest":
                if arg:
                    self.bad(eng, st, ev, key, "`%s` sends more than the server expects" % c)
            elif type(f) is tuple:
                if f[1] != 1 or f[2] != 2 or not arg.endswith(f[3]) or arg.count(f[3]) != 1:
                    self.bad(eng, st, ev, key, "the server does not take `%s`'s request apart as it was put together" % c)
                    continue
                hide = None
                for k, v in st.facts.items():
                    if k.op in ("op", "call") and callee(k).endswith("Matches::opt_present") and text(E.strip(cargs(k)[1])) == "u" and v[0] == "=":
                        hide = v[1]
                if hide is None or (arg[:-1] in TABLE["url"]) == hide:
                    self.bad(eng, st, ev, "-u of %s" % c, "`%s` does not ask for URLs exactly if -u is absent" % c)

    def argument(self, t):
        t = E.strip(t)
        return t.op == "ix" and fname(E.strip(t.a[0])).endswith("Matches.free") and (cval(t.a[1]) if type(t.a[1]) is T else t.a[1]) == 0 or \
            t.op == "fld" and str(t.a[1]).endswith("Some.0") and fname(E.strip(cargs(E.strip(t.a[0]))[0] if cargs(E.strip(t.a[0])) else t)).endswith("Matches.free")

    def finish(self, eng):
        back = {v: k for k, v in CLI.items()}
        for verb, ws in sorted(TABLE.get("words", {}).items(), key=str):
            for w in sorted(ws):
                if w not in self.seen.get(back.get(verb), ()):
                    eng.violate("C21", "%s of %s unknown" % (w, verb), "`%s` does not recognise the reply `%s` that the server may give" % (back.get(verb), w), None, None)
                elif (verb, w) in TABLE["texts"] and DONE.get(back.get(verb)) == w and (back.get(verb), w, False) not in self.ok:
                    eng.violate("C21", "%s of %s with a text" % (w, verb), "`%s` does not take the server's reply `%s`, which may have a text, for a success"
                                % (back.get(verb), w), None, None)


# ------------------------------------------------------------------ C18, client part
class C18client(Client):
    prop = "C18"

    def __init__(self):
        super().__init__()
        self.need = {"messages of the client": 5}

    def event(self, eng, st, ev):
        if ev.kind == "call":
            said = self.said(eng, ev)
            if not said:
                return
            self.saw("messages of the client", where2(ev))
            c = self.cmd(st)
            said = [x for x in said if not (E.strip(x).op == "fld" and str(E.strip(x).a[1]).endswith("Err.0"))]
            if any(self.stdin(x) for x in said):
                self.bad(eng, st, ev, "stdin", "a dump reaches a message of `%s`" % c)
            rs = [x for x in said if self.isr(x)]
            if not rs or c not in ("show", "dump"):
                return
            w = self.get(st, "word")
            if c == "dump" or not (w is not None and w[0] != "access_token" or self.get(st, "notoken")):
                self.bad(eng, st, ev, "reply of %s" % c, "a reply that may be %s reaches a message of `%s`" % ("a dump" if c == "dump" else "an access token", c))
        elif ev.kind in ("return", "agg") or ev.kind == "call":
            pass

    def stdin(self, t):
        t = E.strip(t)
        if read_from(t) is not None:
            return False
        if t.op == "out":
            k = cval(t.a[2]) if type(t.a[2]) is T else t.a[2]
            return READ.search(callee(t)) is not None and k != 0 and mentions(cargs(t)[0], re.compile(r"io::(stdio::)?stdin$")) or any(self.stdin(x) for x in cargs(t))
        return any(self.stdin(y) for x in t.a for y in (x if type(x) is tuple else (x,)) if type(y) is T)

    def on(self, eng, st, ev):
        super().on(eng, st, ev)
        if self.get(st, "connected") and self.get(st, "word") is None and not self.get(st, "notoken"):
            for r, (w, e, no) in known(st, self.isr).items():
                if "access_token" in no:
                    self.put(st, "notoken", True)
            for k, v in st.facts.items():
                if k.op == "op" and k.a[0] == "len" and v[0] in ("!", "=") and self.isr(k):
                    x = E.strip(k.a[1])
                    if x.op in ("op", "call") and callee(x).endswith("splitn") and cval(cargs(x)[1]) == 2 and colon(cargs(x)[2]) and (v[0] == "!" and 2 in v[1] or v[0] == "=" and v[1] != 2):
                        self.put(st, "notoken", True)
                elif (k.op == "discr" or k.op == "op" and k.a[0] == "discr") and v == ("=", 0) and self.isr(k):
                    x = E.strip(k.a[-1])
                    if x.op in ("op", "call") and callee(x).endswith("split_once") and colon(cargs(x)[1]):
                        self.put(st, "notoken", True)


# ------------------------------------------------------------------ C19, C20: the socket and its directory
def last_part(t):
    """(directory, last component) of a path term, or None."""
    t = E.strip(t)
    n = 0
    while n < 10:
        n += 1
        if t.op == "out" and callee(t).endswith("PathBuf::push"):
            a = cargs(t)
            return E.strip(a[0]), text(E.strip(a[1]))
        if t.op in ("op", "call") and re.search(r"Path(Buf)?::(join|with_file_name)$", callee(t)) and callee(t).endswith("join"):
            return E.strip(cargs(t)[0]), text(E.strip(cargs(t)[1]))
        if t.op in ("op", "call") and re.search(r"(as_path|to_path_buf|to_owned|clone|into|as_ref|deref|from|canonicalize)$", callee(t)) and cargs(t):
            t = E.strip(cargs(t)[0])
            continue
        return None
    return None


def is_socket(eng, t):
    return any((last_part(x) or (0, 0))[1] == "pizauth.sock" for x in alts(eng, t)) if type(t) is T else False


REMOVE = re.compile(r"(^std::fs::(remove_file|remove_dir|remove_dir_all|rename|write|copy|hard_link|soft_link)|unlink(at)?|File::(create|create_new|options)|OpenOptions::open)$")
BIND = re.compile(r"Unix(Listener|Datagram)::bind(_addr)?$")
DAEMON = re.compile(r"(^|::)(daemon|fork)$")
TRUE_IF_THERE = re.compile(r"Path::(exists|is_dir|is_file|is_symlink)$")


class C19(Client):
    prop = "C19"

    def __init__(self):
        super().__init__()
        self.both = set()
        self.need = {"directories made private": 2, "uses of the socket": 12, "exits with success": 2}

    def on(self, eng, st, ev):
        if ev.kind == "call":
            n = nm(ev)
            self.settle(eng, st)
            if n.endswith("fs::set_permissions") and len(ev.args) > 1:
                self.make_private(eng, st, ev)
            elif re.search(r"(fs::create_dir(_all)?|DirBuilder::create)$", n):
                self.put(st, "made", E.strip(ev.args[-1]))
            elif (CONNECT.search(n) or BIND.search(n) or REMOVE.search(n)) and any(is_socket(eng, a) for a in ev.args):
                self.use(eng, st, ev)
        elif ev.kind == "return":
            self.settle(eng, st)
        elif ev.kind == "exit" or ev.kind == "exitproc" and cval(ev.args[0]) == 0:
            self.settle(eng, st)
            self.saw("exits with success", ev.kind)
            if self.get(st, "private") != 2:
                self.bad(eng, st, ev, "exit", "the process may exit with status 0 without having made its directories private")
            self.saw("exits with success", "end")

    def settle(self, eng, st):
        """A change of permissions that turned out to have succeeded."""
        p = self.get(st, "pending")
        if p is None:
            return
        call, x = p
        if not ok_fact(st, call):
            if ok_fact(st, call, False):
                self.put(st, "pending", None)
            return
        self.put(st, "pending", None)
        base = self.get(st, "base")
        d = last_part(x)
        self.saw("directories made private", show(x, 4))
        if d is not None and d[1] is not None and base is not None and E.strip(d[0]) is E.strip(base):
            self.both.add(E.strip(x))
            self.put(st, "base", None)
            self.put(st, "private", 2)
        else:
            self.put(st, "base", x)

    def make_private(self, eng, st, ev):
        x = E.strip(ev.args[0])
        mode = [cval(cargs(y)[-1]) for y in subterms(ev.args[1]) if y.op in ("op", "call", "out") and re.search(r"(from_mode|set_mode)$", callee(y))]
        if mode != [0o700]:
            return self.bad(eng, st, ev, "mode", "a directory is given permissions that may not be 0700")
        made = self.get(st, "made")
        there = any(k.op in ("op", "call") and TRUE_IF_THERE.search(callee(k)) and E.strip(cargs(k)[0]) is x and v == ("=", True) for k, v in st.facts.items())
        if not there and made is not x:
            return self.bad(eng, st, ev, "creation", "a directory may not be created although it does not exist")
        self.put(st, "made", None)
        self.put(st, "pending", (ev.ret, x) if type(ev.ret) is T else None)

    def use(self, eng, st, ev):
        self.saw("uses of the socket", where2(ev))
        for a in ev.args:
            if type(a) is not T or not is_socket(eng, a):
                continue
            good = self.get(st, "private") == 2
            for x in alts(eng, a):
                d = last_part(x)
                if d is None or d[1] != "pizauth.sock" or not all(E.strip(y) in self.both for y in alts(eng, d[0])):
                    good = False
            if not good:
                self.bad(eng, st, ev, "%s in %s" % (last(ev), short(ev.fn)), "the control socket is used although its directory may not be private")


class C20(Client):
    prop = "C20"

    def __init__(self):
        super().__init__()
        self.need = {"attempts to connect": 1, "removals": 1, "starts of a server": 4, "exits of the server command": 1}

    def on(self, eng, st, ev):
        super().on(eng, st, ev)
        if self.cmd(st) != "server":
            return
        if not self.get(st, "clear"):
            for k, v in st.facts.items():
                if k.op in ("op", "call") and callee(k).endswith("Path::exists") and v == ("=", False) and is_socket(eng, cargs(k)[0]):
                    self.put(st, "clear", "absent")
                elif (k.op == "discr" or k.op == "op" and k.a[0] == "discr") and v == ("=", 1):
                    x = E.strip(k.a[-1])
                    if x.op in ("op", "call") and CONNECT.search(callee(x)) and is_socket(eng, cargs(x)[0]):
                        self.put(st, "clear", "dead")
        if ev.kind == "call":
            n = nm(ev)
            if CONNECT.search(n):
                self.saw("attempts to connect", where2(ev))
            elif REMOVE.search(n) and not n.endswith("::options"):
                self.saw("removals", where2(ev))
                if self.get(st, "clear") != "dead":
                    self.bad(eng, st, ev, "removal in %s" % short(ev.fn), "a file is removed or replaced although a server may be answering on the socket")
            elif BIND.search(n) or DAEMON.search(n) or re.search(r"TcpListener::bind$", n):
                self.started(eng, st, ev, n.split("::")[-1])
        elif ev.kind == "spawn":
            self.started(eng, st, ev, "a thread")
        elif ev.kind == "exit" or ev.kind == "exitproc":
            self.saw("exits of the server command", ev.kind)
            if (ev.kind == "exit" or cval(ev.args[0]) != 1) and not self.get(st, "clear"):
                self.bad(eng, st, ev, "exit", "the server command may exit with a status other than 1 although a server is running")

    def started(self, eng, st, ev, what):
        self.saw("starts of a server", where2(ev))
        if not self.get(st, "clear"):
            self.bad(eng, st, ev, "%s in %s" % (what, short(ev.fn)), "a server is started although another one may be answering on the socket")


# ------------------------------------------------------------------ C31: start-up
WAIT = r"Condvar::wait(_while|_timeout|_timeout_while|_timeout_ms)?$"
MAYFAIL = re.compile(r"((Tcp|Unix)Listener::bind|thread::Builder::spawn\w*|generate_simple_self_signed|ServerConfig::builder.*with_single_cert)$")


class C31(Client):
    prop = "C31"

    def __init__(self):
        super().__init__()
        self.need = {"daemonisation": 1, "threads started": 6, "steps that may fail": 3, "accept loops": 1, "rejected configurations": 1}

    def start(self, eng):
        g = callees(eng.p)
        self.waiters = {b for b, s in g.items() if any(re.search(WAIT, M.simp(x)) for x in s)}

    def event(self, eng, st, ev):
        if self.cmd(st) != "server":
            return
        self.settle(eng, st)
        if ev.kind == "call":
            n = nm(ev)
            if DAEMON.search(n):
                self.saw("daemonisation", where2(ev))
                self.config(eng, st, ev, "the server detaches from the terminal")
                if self.get(st, "threads"):
                    self.bad(eng, st, ev, "thread before detaching", "a thread was started before detaching from the terminal (it does not survive)")
                self.put(st, "detached", True)
            elif MAYFAIL.search(n):
                self.saw("steps that may fail", where2(ev))
                self.config(eng, st, ev, "a service is set up")
                if type(ev.ret) is T:
                    self.put(st, "pending", self.get(st, "pending", frozenset()) | {ev.ret})
                if BIND.search(n):
                    self.serving(eng, st, ev)
                elif n.endswith("TcpListener::bind"):
                    self.put(st, "ports", self.get(st, "ports", frozenset()) | {E.strip(ev.args[0])})
            elif re.search(r"UnixListener::(accept|incoming)$", n):
                self.saw("accept loops", where2(ev))
                self.serving(eng, st, ev)
            else:
                self.complain(eng, st, ev)
        elif ev.kind == "spawn":
            self.saw("threads started", where2(ev))
            clo = ev.args[0]
            bid = clo.a[0] if clo.op == "clo" else None
            self.config(eng, st, ev, "a thread is started")
            r = (reach(eng.p, bid) | {bid}) if bid else set()
            t = self.get(st, "threads", frozenset())
            served = {E.strip(cargs(x)[0]) for x in subterms(clo) if x.op in ("op", "call") and callee(x).endswith("TcpListener::bind")}
            self.put(st, "threads", t | {(bid, frozenset(r & self.waiters), frozenset(served))})
        elif ev.kind == "exit" or ev.kind == "exitproc" and cval(ev.args[0]) == 0:
            if not self.get(st, "threads"):
                self.bad(eng, st, ev, "exit", "the server command may exit with status 0 without having started")
            if self.get(st, "failed") or self.get(st, "pending"):
                self.bad(eng, st, ev, "exit", "the server may exit with status 0 although a service could not be started")
        elif ev.kind == "exitproc":
            if self.rejected(st):
                self.saw("rejected configurations", ev.fn)
                if not self.get(st, "said"):
                    self.bad(eng, st, ev, "silent", "an invalid configuration is not reported on standard error")

    def result(self, st, good):
        """A configuration that is known to have been read (or rejected)."""
        for k, v in st.facts.items():
            if (k.op == "discr" or k.op == "op" and k.a[0] == "discr") and v == ("=", 0 if good else 1):
                x = E.strip(k.a[-1])
                if x.op in ("op", "call") and callee(x) .endswith(("Config::from_path", "Config::from_str")):
                    return x
        return None

    def rejected(self, st):
        return self.result(st, False)

    def config(self, eng, st, ev, what):
        if self.result(st, True) is None and not self.get(st, "valid"):
            self.bad(eng, st, ev, "no configuration in %s" % short(ev.fn), "%s although the configuration may be invalid" % what)
        else:
            self.put(st, "valid", True)

    def complain(self, eng, st, ev):
        r = self.rejected(st)
        if r is not None and not self.get(st, "detached"):
            n = nm(ev)
            if re.search(r"(_eprint|eprint)$", n) or WRITE.search(n) and mentions(ev.args[0], re.compile(r"stderr$")):
                if any(x.op == "fld" and str(x.a[1]).endswith("Err.0") and E.strip(x.a[0]) is r for a in ev.args if type(a) is T for x in eng.expand(a)):
                    self.put(st, "said", True)

    def settle(self, eng, st):
        p = self.get(st, "pending")
        if not p:
            return
        left = set()
        for x in p:
            if ok_fact(st, x):
                continue
            if ok_fact(st, x, False):
                self.put(st, "failed", True)
                continue
            left.add(x)
        self.put(st, "pending", frozenset(left) or None)

    def serving(self, eng, st, ev):
        """The server is about to answer requests: everything must be running by now."""
        if self.get(st, "failed") or any(not BIND.search(callee(x)) for x in self.get(st, "pending", ())):
            self.bad(eng, st, ev, "failed service", "the server may answer requests although a service could not be started")
        ts = self.get(st, "threads", frozenset())
        run = [t for t in ts if t[1]]
        if set().union(*[t[1] for t in ts]) != self.waiters or len(run) < 3:
            self.bad(eng, st, ev, "missing service", "the server may answer requests before its eventer, refresher and notifier are all running")
        for b in self.get(st, "ports", ()):
            if not any(b in t[2] for t in ts):
                self.bad(eng, st, ev, "missing listener", "the server may answer requests although nothing accepts connections to a port that it listens on")
