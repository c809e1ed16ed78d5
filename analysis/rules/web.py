"""C41, C42: the certificate of the HTTPS listener, and what browsers are answered."""
from rules.common import *
from rules.http import tcp_stream, READS
from lib import NETREQ

PRIVATE = re.compile(r"KeyPair::(serialize_\w+|serialized_der|into)$")
CERTS = re.compile(r"with_single_cert(_with_ocsp)?$")
OUTSIDE = re.compile(r"(::write_all|::write|::write_fmt|::write_str|fs::write|_print|_eprint|log::\w*log\w*|json::\w+|syslog|OpenOptions::open|File::create)$")


def strip_empty(y):
    """Is a call made on an empty list?"""
    a = cargs(y)
    return bool(a) and E.strip(a[0]).op in ("arr", "tup") and not E.strip(a[0]).a[0]


def made(t):
    """The certificates (with their keys) that a term was made from."""
    return {x for x in subterms(t) if x.op in ("op", "call") and re.search(r"generate_simple_self_signed$|KeyPair::generate\w*$", callee(x))}


class C41(Rule):
    prop = "C41"

    def __init__(self):
        super().__init__()
        self.need = {"certificates served": 1, "public keys reported": 1, "private keys used": 1, "replies with a key": 1}
        self.keeps = lambda k: k.op == "discr" and k.a[0].op == "fld" and fname(k.a[0]) == GLOBAL + ".https_pub_key" or request_text(k)
        self.keys = []
        self.served = set()

    def on(self, eng, st, ev):
        if ev.kind == "agg" and ev.name.endswith("::" + GLOBAL):
            names = [f[0] for f in eng.p.adts[ev.args[0].a[0]]["v"][0]["f"]]
            if "https_pub_key" not in names:
                return self.bad(eng, st, ev, "no key", "the public key of the HTTPS listener is not kept")
            t = E.strip(ev.args[0].a[2][names.index("https_pub_key")])
            for x in alts(eng, t):
                if x.op == "agg" and x.a[0].endswith("Option") and x.a[1] == 0:
                    continue
                self.reported(eng, st, ev, x)
        elif ev.kind == "call" and CERTS.search(nm(ev)):
            self.certificate(eng, st, ev)
        elif ev.kind == "call" and command(eng, st) == "info" and (reply(ev) or None) is not None:
            self.info(eng, st, ev)
        if ev.kind == "call" and OUTSIDE.search(nm(ev)):
            for x in ev.args[1:] if re.search(r"::write", nm(ev)) else ev.args:
                if self.leaks(x):
                    self.bad(eng, st, ev, "private key in %s" % short(ev.fn), "the private key of the HTTPS listener leaves the server")

    def info(self, eng, st, ev):
        """The reply to `info` contains the public key whenever there is one."""
        own = lambda x: x.op == "fld" and fname(x) == GLOBAL + ".https_pub_key"
        if (text(reply(ev)[0]) or "").startswith("error:"):
            return
        v = [x.a[-1] for p in reply(ev) for x in subterms(p) if x.op in ("op", "insert") and len(x.a) > 2 and cval(E.strip(x.a[-2])) == "https_pub_key"]
        if v:
            self.saw("replies with a key", where2(ev))
            y = E.strip(v[0])
            while y.op == "fld" and not own(y) and fname(y) == "Some.0":
                y = E.strip(y.a[0])
            if not own(y):
                self.bad(eng, st, ev, "key in info", "`info` reports another public key than that of the HTTPS listener: %s" % show(v[0], 4))
        elif not any(k.op == "discr" and own(E.strip(k.a[0])) and x == ("=", 0) for k, x in st.facts.items()):
            self.bad(eng, st, ev, "no key in info", "`info` may not report the public key of the HTTPS listener although there is one")

    def leaks(self, t):
        """Does a term contain the private key? (Not as part of a TLS connection, or of what was read from one.)"""
        seen, work = set(), [t]
        while work:
            x = work.pop()
            if type(x) is tuple:
                work += list(x)
            elif type(x) is T and x not in seen:
                seen.add(x)
                if x.op in ("op", "call", "out", "agg") and str(x.a[0]).startswith("rustls::"):
                    continue
                if x.op in ("op", "call") and PRIVATE.search(callee(x)):
                    return True
                work += [y for y in x.a if type(y) in (T, tuple)]
        return False

    def deep(self, eng, x):
        """All subterms of x, with those of the lists it was built from in loops."""
        seen, work = set(), [x]
        while work:
            for z in subterms(work.pop()):
                if z not in seen:
                    seen.add(z)
                    if z.op == "phi":
                        work += [q for q in eng.phi_in.get(z, ()) if q not in seen]
        return seen

    def reported(self, eng, st, ev, x):
        terms = self.deep(eng, x)
        calls = [y for y in terms if y.op in ("op", "call")]
        raw = [y for y in calls if re.search(r"(public_key_raw|public_key_der|subject_public_key_info)$", callee(y))]
        if any(PRIVATE.search(callee(y)) for y in calls):
            return self.bad(eng, st, ev, "private key reported", "the private key of the HTTPS listener is reported as its public key")
        if not raw:
            if any(callee(y).endswith("::join") and strip_empty(y) for y in calls):
                return  # A key of no bytes.
            return self.bad(eng, st, ev, "key reported", "the public key reported is not taken from a key: %s" % show(x, 5))
        self.saw("public keys reported", where2(ev))
        self.keys += [(made(y), ev) for y in raw]
        over = [y for y in terms if y not in raw and any(z in raw for z in subterms(y))]
        if any(y.op == "op" and y.a[0] == "fmtspec" and cval(y.a[2])[0] & 4 or y.op == "it" and partial(y) or y.op == "seqof" and y.a[2] or
               y.op in ("op", "call") and re.search(r"(^|::)(rest|take|skip|step_by|filter|chunks|truncate|first|last|get|take_while|skip_while|filter_map)$", callee(y)) or
               y.op == "stage" and str(y.a[0]) in ("filter", "take", "skip", "step_by", "take_while", "skip_while", "filter_map") for y in over):
            self.bad(eng, st, ev, "part of key", "only part of the public key is reported")

    def certificate(self, eng, st, ev):
        f = short(ev.fn)
        a = ev.args[-2:]
        c, k = made(a[0]), made(a[1])
        if not c:
            return self.bad(eng, st, ev, "certificate in %s" % f, "the certificate served is not one made by this server: %s" % show(a[0], 5))
        self.saw("certificates served", where2(ev))
        p = [y for y in subterms(a[1]) if y.op in ("op", "call") and PRIVATE.search(callee(y))]
        if not p or c != k:
            return self.bad(eng, st, ev, "key in %s" % f, "the key of the HTTPS listener is not that of its certificate: %s" % show(a[1], 5))
        self.saw("private keys used", where2(ev))
        self.served |= {frozenset(c)}

    def finish(self, eng):
        reported = {frozenset(m) for m, ev in self.keys}
        for m, ev in self.keys:
            if frozenset(m) not in self.served or self.served - reported:
                eng.violate(self.prop, "other key", "the public key reported is not that of the certificate the HTTPS listener serves", ev, None)
        super().finish(eng)


class C41client(Rule):
    """What `pizauth info` prints is what the server said, under the right label."""
    prop = "C41"
    labels = (("HTTP port:", "http_port"), ("HTTPS port:", "https_port"), ("HTTPS public key:", "https_pub_key"))

    def __init__(self):
        super().__init__()
        self.need = {"values printed": 3}

    def on(self, eng, st, ev):
        if ev.kind != "call" or not re.search(r"_print$|::write(_all|_fmt|_str)?$", nm(ev)) or not ev.args:
            return
        parts = [x for a in ev.args for p in M.fmt_parts(a) for x in alts(eng, p)]
        last = ""
        for x in parts:
            t = text(x)
            if t is not None:
                last = t
                continue
            for label, key in self.labels:
                if last.rstrip().endswith(label) and not (label.startswith("HTTP ") and last.rstrip().endswith("HTTPS" + label[4:])):
                    got = {cval(z) for y in subterms(x) if y.op == "op" and y.a[0] == "json" for z in y.a[2:]} & {k for _, k in self.labels}
                    self.saw("values printed", label)
                    if got != {key}:
                        self.bad(eng, st, ev, "%s printed" % key, "the client prints as `%s` something else: %s" % (label, show(x, 4)))
                    if any(y.op in ("op", "call") and re.search(r"(^|::)(slice|split|trim\w*|get|chars|bytes|truncate|replace\w*|to_\w*case|strip_\w+|split_\w+)$", callee(y)) for y in subterms(x)) or \
                            any(y.op == "slice" for y in subterms(x)):
                        self.bad(eng, st, ev, "%s printed in part" % key, "the client does not print the value of `%s` in full" % label)
            last = ""


# ------------------------------------------------------------------ what browsers are answered (C42)
class C42(Rule):
    prop = "C42"

    def __init__(self):
        super().__init__()
        self.need = {"answers": 4, "exchanges announced": 1}
        self.keeps = self.uri_fact

    def on(self, eng, st, ev):
        if not in_tcp(eng, st) or not eng.contains(eng.cur_root, tcp_stream):
            return
        f = short(ev.fn)
        k = ev.kind
        if k in ("release", "return") and not self.get(st, "code") and self.broken(eng, st):
            self.put(st, "code", "none")
        if k == "call" and READS.search(nm(ev)) and ev.args and eng.contains(ev.args[0], tcp_stream):
            self.put(st, "read", True)
        elif k == "call" and WRITE.search(nm(ev)) and len(ev.args) > 1 and eng.contains(ev.args[0], tcp_stream):
            parts = [y for x in M.fmt_parts(ev.args[1]) for y in alts(eng, x)]
            bad = [x for x in parts if text(x) is None]
            if bad:
                self.bad(eng, st, ev, "answer in %s" % f, "an answer to a browser contains something that is not fixed: %s" % show(bad[0], 5))
            t = (text(parts[0]) if parts else None) or ""
            if t.startswith("HTTP/"):
                n = t.split(" ")
                code = n[1][:3] if len(n) > 1 else ""
                self.saw("answers", (where2(ev), t[:40]))
                if self.get(st, "code"):
                    self.bad(eng, st, ev, "second answer in %s" % f, "a request from a browser may be answered twice")
                self.put(st, "code", code)
                if code.startswith("2") and self.get(st, "failed"):
                    self.bad(eng, st, ev, "success in %s" % f, "a browser is told that the authentication is being processed although it failed")
                if not re.match(r"HTTP/1\.[01] \d\d\d( [^\r\n]*)?\r\n([^\r\n]+\r\n)*\r\n", t) and len(parts) == 1:
                    self.bad(eng, st, ev, "form in %s" % f, "an answer to a browser is not well-formed HTTP: %r" % t[:60])
            elif not self.get(st, "code"):
                self.bad(eng, st, ev, "no status in %s" % f, "an answer to a browser does not start with a status line: %r" % t[:60])
        elif k == "call" and NETREQ.search(nm(ev)) and not self.get(st, "sent"):
            self.put(st, "sent", True)
            c = self.get(st, "code")
            self.saw("exchanges announced", where2(ev))
            if not c:
                self.bad(eng, st, ev, "not answered in %s" % f, "a browser has to wait for an answer until the authorisation server has answered")
            elif not c.startswith("2"):
                self.bad(eng, st, ev, "refused in %s" % f, "a code is exchanged although the browser was told that the request failed")
        elif k == "prim" and ev.name == "tokenstate_replace" and not self.get(st, "sent") and new_state(eng, st, ev)[0] == "Empty":
            self.put(st, "failed", True)
        elif k == "exit":
            c = self.get(st, "code")
            if not c and self.get(st, "read"):
                self.bad(eng, st, ev, "unanswered in %s" % f, "a request from a browser may not be answered at all")

    def broken(self, eng, st):
        """Could the redirect URI of the account not be made? (the configuration does not allow that)"""
        return any(v == ("=", 1) and self.uri_fact(k) for k, v in st.facts.items())

    def uri_fact(self, k):
        if k.op != "discr" or not re.search(r"Url::(parse|set_port|set_scheme|set_host)$", callee(k.a[0])):
            return False
        return any(x.op == "fld" and fname(x).endswith("Account.redirect_uri") for x in subterms(k.a[0]))
