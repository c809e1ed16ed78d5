"""C18: where secrets may flow."""
from rules.common import *
from rules.events import raw_entry, is_details

NAMES = {"access_token": "an access token", "refresh_token": "a refresh token", "client_secret": "a client secret",
         "code_verifier": "a PKCE verifier", "id_token": "an identity token", "code": "an authorisation code"}
WHOLE = {"account": "an account's settings", "tokenstate": "a token state", "config": "the configuration"}
STATE = {"LockedState.config": "the configuration", "LockedState.details": "the token states", "Config.accounts": "the accounts' settings",
         "Dump.accounts": "a dump's content"}
ONEWAY = re.compile(r"(^sha2::|digest::(?!generic_array)|Digest::|Sha256|::len$|::is_(empty|some|none|ok|err|ascii|char_boundary)$|::(count|position|rposition|capacity|"
                    r"contains|contains_key|starts_with|ends_with|eq|ne|lt|le|gt|ge|cmp|partial_cmp|hash|find|rfind|port|scheme|parse_from_rfc|"
                    r"checked_\w+_since|duration_since|checked_add|checked_sub|elapsed|status|status_text|header|headers_names|"
                    r"validate_act_name|act_ids|is_act_id_valid|act_id_matching_token_state|posof|discr|ovf|exists|valid|now|as_secs|as_millis)$)")
ENCRYPTED = re.compile(r"::encrypt(_in_place)?$")
RANDOM = re.compile(r"(^rand::|^getrandom|Rng::fill$|RngCore::|::fill_bytes$)")
BODY = re.compile(r"(^ureq::.*::(into_string|into_json|into_reader|read_to_string|read_to_vec|body|read_json)$|::decrypt$|::deserialize$)")
SEND = re.compile(r"^ureq::.*::(send_form|send|send_string|send_bytes|send_json|call|do_call)$")
LOG = re.compile(r"(^log::__private_api::log\w*$|^log::Log::log$|syslog|^std::io::_e?print$|^std::io::stdio::_e?print$|^(eprint|print)|panicking::(panic_fmt|panic_display|panic_str)|begin_panic$|"
                 r"::(expect_failed|unwrap_failed)$)")
FILES = re.compile(r"(^std::fs::|^std::fs::File|OpenOptions|^std::env::set_var$|^nix::sys::.*write|^std::os::unix::fs::)")
CHILDREN = re.compile(r"(process::Command::(env|envs|arg|args|new|current_dir)|CommandExt::arg0)$")
READ = re.compile(r"::(read|read_to_end|read_to_string|read_exact|read_line|read_until|read_buf|bytes|lines|fill_buf)$")
WRITES = re.compile(r"^std::io::(Write|BufWriter)::(write|write_all|write_fmt|write_vectored)$|^std::io::(copy)$")
PASS_ERR = re.compile(r"(Utf8Error|from_utf8_lossy)")


class C18(Rule):
    prop = "C18"

    def __init__(self):
        super().__init__()
        self.need = {"log messages": 10, "child processes": 2, "control replies": 10, "web replies": 2, "authorisation URLs": 1, "requests": 2,
                     "access tokens sent to clients": 1}
        self.keeps = self.known
        self.sent = {}       # query parameters handed to a new thread: their names
        self.memo, self.asked_pair = {}, False
        self.verifiers, self.leaks = set(), []
        self.made = None

    def known(self, k):
        """Facts about the names of query parameters, the request, and prefixes of replies."""
        return k.op == "fld" and k.a[1] in (0, "0") and k.a[0].op == "ix" and any(callee(x).endswith("Url::query_pairs") for x in subterms(k) if x.op in ("op", "call")) or request_text(k)

    # -- what a value reveals
    def reveals(self, eng, st, t, seen=(), n=0):
        """The secret that someone who sees t learns (None if none)."""
        t = E.strip(t) if type(t) is T else t
        if type(t) is not T or n > 60:
            return None
        if t.id in self.memo:
            return None
        asked, self.asked_pair = self.asked_pair, False
        r = self.reveals1(eng, st, t, seen, n)
        if r is None and not seen and not self.asked_pair:
            self.memo[t.id] = None         # whatever the path
        self.asked_pair |= asked
        return r

    def reveals1(self, eng, st, t, seen, n):
        go = lambda x: self.reveals(eng, st, x, seen, n + 1)
        o = t.op
        if o in ("const", "sym", "fn", "idx", "closure", "cell", "guard", "xguard", "opq", "discr"):
            return None
        if o == "mval":
            return "the server's state" if lock_is_global(t.a[0]) else None
        if o == "fld":
            lab = str(t.a[1])
            f = lab.split("::")[-1]
            if lab.startswith("pizauth::") or "::" not in lab and re.match(r"[A-Z]\w+\.\w", lab):
                nm_ = f.split(".")[-1]
                if nm_ in NAMES:
                    return NAMES[nm_]
                if f in STATE:
                    return STATE[f]
                if re.match(r"(Account|AccountDump|Config|TokenState|TokenStateDump|Dump|LockedState|Pending|Active|AuthenticatorState)\b", f):
                    return None
                return go(t.a[0])
            base = E.strip(t.a[0])
            if f.endswith("Err.0"):
                return None
            q = self.pair(eng, st, t)
            if q is not None:
                return q or None
            if t.a[1] in (0, 1, "0", "1") and raw_entry(t) is base:
                return None
            if t.a[1] in (0, "0") and base.op == "ix" and E.strip(base.a[0]).op == "fld" and fname(E.strip(base.a[0])).endswith(".accounts"):
                return None
            return go(base)
        if o == "at":
            k = text(E.strip(t.a[1]))
            b = go(t.a[0])
            if k is not None and b is not None and fname(E.strip(t.a[0])) not in STATE:
                return NAMES.get(k)
            return b
        if o == "phi":
            if t in seen:
                return None
            for x in eng.phi_in.get(t, ()):
                r = self.reveals(eng, st, x, seen + (t,), n + 1) if type(x) is T else None
                if r:
                    return r
            return None
        if o in ("call", "op", "out"):
            nme = callee(t)
            if t.op == "op" and t.a[0] in ("eq", "lt", "not", "len", "discr", "count", "exists", "posof", "ovf", "valid", "emptymap", "Add", "Sub", "BitAnd", "BitOr"):
                return None
            if nme in WHOLE or nme.split("::")[-1] in WHOLE and t.op == "op":
                return WHOLE[nme.split("::")[-1]]
            if BODY.search(nme):
                if any(fname(E.strip(x)).endswith("Status.1") for x in cargs(t)):
                    return None            # the body of a response that reports failure
                return "a server's response" if nme.startswith("ureq") else "a dump's content"
            if ENCRYPTED.search(nme):
                return "a dump"
            if self.made is None:
                self.made = {M.simp(x) for x in conf_returning(eng.p)}
            if nme in self.made:
                return "the configuration"
            if ONEWAY.search(nme) or CHILD.search(nme) or nme.endswith("Command::spawn") or SEND.search(nme):
                return None
            if nme.split("::")[-1] in ("get", "json", "index", "pointer") and len(cargs(t)) == 2:
                k = text(E.strip(cargs(t)[1]))
                b = go(cargs(t)[0])
                return NAMES.get(k) if k is not None and b is not None and fname(E.strip(cargs(t)[0])) not in STATE else b
            if nme.endswith("Url::query_pairs") or nme.endswith("Url::query"):
                return "a request's parameters" if in_tcp(eng, st) else go(cargs(t)[0])
            if in_tcp(eng, st) and READ.search(nme):
                return "a web request's content"
            if re.search(r"(::keys|^keys)$", nme):
                return None
            for x in cargs(t):
                r = go(x) if type(x) is T else None
                if r:
                    return r
            return None
        if o in ("agg", "closure"):
            xs = t.a[2] if o == "agg" else ()
        elif o in ("tup", "arr"):
            xs = t.a[0]
        else:
            xs = [x for x in t.a if type(x) is T]
        for x in xs:
            r = go(x)
            if r:
                return r
        return None

    def pair(self, eng, st, t):
        """What a part of a request's query parameter reveals: None if t is none, "" if nothing."""
        if t.a[1] not in (0, 1, "0", "1"):
            return None
        e = E.strip(t.a[0])
        if e.op != "ix":
            return None
        x = E.strip(e.a[0])
        if not (x.op in ("op", "call") and callee(x).endswith("Url::query_pairs")):
            return None
        if t.a[1] in (0, "0"):
            return ""
        self.asked_pair = True
        q = query_pair(eng, st, t)
        if q is None:
            ks = self.sent.get(t) if eng.cur_root is not None else None
            if ks and None not in ks:
                return next((NAMES[k] for k in sorted(ks) if k in NAMES), "")
            return "a request's parameters"
        return NAMES.get(q[1], "")

    # -- where it goes
    def on(self, eng, st, ev):
        if ev.kind == "call":
            self.call(eng, st, ev, nm(ev))
        elif ev.kind == "agg":
            t = E.strip(ev.args[-1])
            if t.op == "agg" and t.a[0] == TS and eng.p.adts[TS]["v"][t.a[1]]["n"] == "Pending":
                for (n, *_), x in zip(eng.p.adts[TS]["v"][t.a[1]]["f"], t.a[2]):
                    if n == "code_verifier":
                        self.verifiers.add(E.strip(x))
                    if n == "url":
                        self.sink(eng, st, ev, "authorisation URLs", [x], "the authorisation URL", ev.fn)
        elif ev.kind in ("push", "insert"):
            c = ev.args[0]
            if any(x.op == "mval" and not lock_is_global(x.a[0]) for x in subterms(c)):
                self.sink(eng, st, ev, "queued values", ev.args[1:], "a queue shared between threads", ev.fn)
        elif ev.kind == "spawn":
            for a in ev.args:
                for y in subterms(a) if type(a) is T else ():
                    if y.op == "fld" and y.a[1] in (1, "1") and y.a[0].op == "ix":
                        q = query_pair(eng, st, y)
                        self.sent.setdefault(y, set()).add(q[1] if q else None)
        elif ev.kind == "panic":
            self.sink(eng, st, ev, "panics", ev.args, "a panic message", ev.fn)

    def call(self, eng, st, ev, n):
        if LOG.search(n):
            self.sink(eng, st, ev, "log messages", ev.args, "a log message or the terminal", ev.fn)
        elif CHILDREN.search(n):
            self.sink(eng, st, ev, "child processes", ev.args[1:], "a command or its environment", ev.fn)
        elif FILES.search(n):
            self.sink(eng, st, ev, "files", ev.args, "the file system", ev.fn)
        elif SEND.search(n):
            self.request(eng, st, ev)
        elif re.search(r"^ureq::.*::(post|get|put|request|request_url|delete|head|set|query|query_pairs|timeout)$|^ureq::(post|get|put|request|request_url|head)$", n):
            self.sink(eng, st, ev, "requests", ev.args, "the URL or a header of a request", ev.fn)
        elif reply(ev) is not None:
            self.answer(eng, st, ev, reply(ev))
        elif WRITES.search(n) or WRITE.search(n):
            if len(ev.args) > 1:
                to = ev.args[0]
                if in_tcp(eng, st):
                    self.sink(eng, st, ev, "web replies", ev.args[1:], "the reply to a web browser", ev.fn)
                elif any(x.op in ("call", "out") and re.search(r"(File::|OpenOptions|stdout|stderr|Child|ChildStdin)", callee(x)) for x in subterms(to)) or \
                        any(x.op == "fld" and fname(x).split(".")[-1] == "stdin" for x in subterms(to)):
                    self.sink(eng, st, ev, "streams", ev.args[1:], "a file, the terminal or a command", ev.fn)

    def request(self, eng, st, ev):
        self.saw("requests", where2(ev))
        for x in ev.args[1:]:
            if type(x) is not T:
                continue
            for y in subterms(x):
                if y.op == "fld" and fname(y).split(".")[-1] == "access_token":
                    self.bad(eng, st, ev, "request in %s" % short(ev.fn), "an access token is sent to a server")

    def answer(self, eng, st, ev, parts):
        self.saw("control replies", where2(ev))
        f = short(ev.fn)
        for i, x in enumerate(parts):
            self.later(eng, st, ev, x, "a client of the control socket")
            r = self.reveals(eng, st, x)
            if r is None or r == "a dump" and command(eng, st) == "dump" and len(parts) == 1:
                continue
            if r == NAMES["access_token"] and i == len(parts) - 1 and i > 0 and (text(parts[0]) or "").startswith("access_token:") and fname(x) .endswith("Active.access_token"):
                if self.asked(eng, st):
                    self.saw("access tokens sent to clients", f)
                    continue
                self.bad(eng, st, ev, "token in %s" % f, "an access token is sent to a client that may not have asked for it")
                continue
            self.bad(eng, st, ev, "%s in %s" % (r, f), "%s is sent to a client of the control socket" % r)

    def asked(self, eng, st):
        return command(eng, st) in ("showtoken", "show")

    def sink(self, eng, st, ev, what, args, to, fn):
        self.saw(what, where2(ev))
        for x in args:
            if type(x) is not T:
                continue
            self.later(eng, st, ev, x, to)
            r = self.reveals(eng, st, x)
            if r:
                self.bad(eng, st, ev, "%s to %s in %s" % (r, to, short(fn)), "%s reaches %s" % (r, to))

    # -- a verifier that is shown before it is stored
    def later(self, eng, st, ev, x, to):
        if any(RANDOM.search(callee(y)) for y in subterms(x) if y.op in ("call", "out")):
            self.leaks.append((x, to, ev, st))

    def finish(self, eng):
        for x, to, ev, st in self.leaks:
            for y in exposed(eng, x):
                if y in self.verifiers or any(y.op in ("call", "out") and y in set(content(v)) and RANDOM.search(callee(y)) for v in self.verifiers):
                    self.bad(eng, st, ev, "verifier to %s in %s" % (to, short(ev.fn)), "a PKCE verifier reaches %s" % to)
                    break


def exposed(eng, t):
    """The subterms of t that someone who sees t learns."""
    seen, work = set(), [t]
    while work:
        x = E.strip(work.pop())
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op in ("op", "call", "out") and ONEWAY.search(callee(x)):
            continue
        if x.op == "phi":
            work += [y for y in eng.phi_in.get(x, ()) if type(y) is T]
        todo = list(x.a)
        while todo:
            y = todo.pop()
            if type(y) is T:
                work.append(y)
            elif type(y) in (tuple, list, frozenset):
                todo += y


def content(v):
    return [x for x in subterms(v)]
