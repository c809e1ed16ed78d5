"""What the rules share: groups of analysis roots, the base class of rules, recognisers of terms."""
import json
import os
import re
import time

from terms import *
import engine as E
import models as M

GLOBAL = "AuthenticatorState"     # the struct whose mutex is the global lock
TS = M.TS


# ------------------------------------------------------------------ names of calls
def nm(ev):
    """The name of the called function, without generic arguments."""
    return M.simp(ev.name) if ev.name else ""


def last(ev, k=1):
    return "::".join(nm(ev).split("::")[-k:])


def selfty(eng, ev):
    f = ev.f
    if f and f.get("self") is not None:
        return eng.p.ty(f["self"])
    c = ev.extra
    if c is not None and getattr(c, "argtys", None) and c.argtys[0] is not None:
        return eng.p.ty(c.argtys[0])
    return ""


NET = re.compile(r"^ureq::.*::(send_form|send|send_string|send_bytes|send_json|call|into_string|into_reader|into_json|"
                 r"do_call|try_from_response)$|^ureq::.*::run$")
NETREQ = re.compile(r"^ureq::.*::(send_form|send|send_string|send_bytes|send_json|call|do_call)$")
CHILD = re.compile(r"(Command::(output|status)|Child::(wait|wait_with_output)|ChildExt::wait_timeout(_ms)?)$")
SLEEP = re.compile(r"(thread::(sleep|sleep_ms|sleep_until|park|park_timeout)|JoinHandle::join|mpsc::Receiver::recv(_timeout)?|"
                   r"nix::unistd::(pause|sleep)|Barrier::wait)$")
IO = re.compile(r"^std::io::(Read|Write|BufRead|BufReader|BufWriter)::(?!take|bytes|by_ref|new|with_capacity|get_ref|chain)|"
                r"^std::io::(copy|read_to_string)$|^std::io::impls::|^rustls::.*(complete_io|read_tls|write_tls)$")
CONN = re.compile(r"((Unix|Tcp)(Stream|Listener)::(connect|connect_timeout|accept|peek)|ToSocketAddrs::to_socket_addrs|Url::socket_addrs)$")
MEM = re.compile(r"^(&mut )*(std::vec::Vec<u8|std::string::String|std::io::Cursor|\[u8\]|std::io::Std(err|out)|"
                 r"std::collections::VecDeque<u8)")


def blocking(eng, ev):
    """Kind of blocking operation of a call event (or None)."""
    n = nm(ev)
    if NET.search(n):
        return "network"
    if CHILD.search(n):
        return "child"
    if SLEEP.search(n):
        return "sleep"
    if CONN.search(n):
        return "connect"
    if IO.search(n) and not MEM.search(selfty(eng, ev)):
        return "io"
    return None


# ------------------------------------------------------------------ rules
class Rule(E.Rule):
    prop = None

    def __init__(self):
        self.n = {}           # what was checked: description -> set of places
        self.need = {}        # description -> least number of places

    def saw(self, what, where="", k=None):
        self.n.setdefault(what, set()).add(where if k is None else (where, k))

    def bad(self, eng, st, ev, key, msg):
        eng.violate(self.prop, key, msg, ev, st)

    def start(self, eng):
        pass

    def finish(self, eng):
        pass

    # path-local state of the rule
    def get(self, st, k, d=None):
        return st.rules.get((self.prop, k), d)

    def put(self, st, k, v):
        if v is None:
            st.rules.pop((self.prop, k), None)
        else:
            st.rules[(self.prop, k)] = v


def where(ev):
    return "%s (%s)" % (short(ev.fn or "?"), ev.loc)


def where2(ev):
    """With the caller."""
    return " > ".join(short(x) for x in ev.stack[-3:]) + " (%s, %s)" % (ev.loc, ev.site.split("@")[-2] if ev.site and "@" in ev.site else "")


def source(it):
    """Where an iterator's elements come from: (name of the making function, term)."""
    x = it
    n = 0
    while type(x) is T and x.op == "it" and n < 20:
        x = x.a[0]
        n += 1
    x = E.strip(x)
    return (M.simp(x.a[0]).split("::")[-1] if x.op in ("op", "call") else x.op), x


def lock_is_global(g):
    return g.op in ("guard", "xguard") and GLOBAL in g.a[0]


def held_global(st):
    return [g for g in st.held if lock_is_global(g)]


def truths(t, val):
    """The atomic consequences of boolean term t being val: [(term, val)]."""
    out = []
    work = [(t, val)]
    while work:
        t, val = work.pop()
        if type(val) is int and type(val) is not bool and t.op == "op" and t.a[0] in ("eq", "lt", "not", "BitAnd", "BitOr"):
            val = bool(val)
        if t.op == "op" and t.a[0] == "not" and type(val) is bool:
            work.append((t.a[1], not val))
        elif t.op == "op" and t.a[0] == "BitAnd" and val is True:
            work += [(t.a[1], True), (t.a[2], True)]
        elif t.op == "op" and t.a[0] == "BitOr" and val is False:
            work += [(t.a[1], False), (t.a[2], False)]
        else:
            out.append((t, val))
            if t.op == "op" and t.a[0] == "eq" and val is True:
                x, y = t.a[1], t.a[2]
                if x.op == y.op and x.op in ("tup", "agg"):
                    xs = x.a[2] if x.op == "agg" else x.a[0]
                    ys = y.a[2] if y.op == "agg" else y.a[0]
                    for p, q in zip(xs, ys):
                        work.append((mk("op", "eq", p, q), True))
    return out


# ------------------------------------------------------------------ groups of roots
def callees(prog):
    """Call graph by name: body id -> set of names (closures count as called where they are made)."""
    g = getattr(prog, "_cg", None)
    if g is not None:
        return g
    g = {}
    for b in prog.local:
        s = set()

        def walk(x):
            if type(x) is dict:
                if x.get("k") in ("fn", "closure") and type(x.get("n")) is str:
                    s.add(x["n"])
                    if type(x.get("r")) is str:
                        s.add(x["r"])
                if x.get("a") == "closure" and type(x.get("n")) is str:
                    s.add(x["n"])
                if x.get("a") == "adt":
                    s.add("agg:" + x["n"])
                for y in x.values():
                    walk(y)
            elif type(x) is list:
                for y in x:
                    walk(y)
        walk(b["blocks"])
        g[b["id"]] = s
    prog._cg = g
    return g


def reach(prog, bid):
    m = getattr(prog, "_reach", None)
    if m is None:
        m = prog._reach = {}
    if bid in m:
        return m[bid]
    g = callees(prog)
    seen = set()
    work = [bid]
    while work:
        x = work.pop()
        for y in g.get(x, ()):
            if y not in seen:
                seen.add(y)
                if y in g:
                    work.append(y)
    m[bid] = seen
    return seen


def conf_returning(prog):
    """Local functions that make a configuration (Result<Config, _>)."""
    r = []
    for b in prog.local:
        if b["kind"] in ("fn", "method"):
            t = prog.types[b["locals"][0][0]]
            if t["k"] == "adt" and t["n"].endswith("Result") and t["a"] and prog.adt_of(t["a"][0]) == "pizauth::config::Config":
                r.append(b["id"])
    return r


def exact(ids):
    return ["^" + re.escape(i) + "$" for i in ids]


def server_root(prog):
    """The innermost function that both creates the global state and binds the control socket."""
    c = []
    for b in prog.local:
        if b["kind"] not in ("fn", "method"):
            continue
        r = reach(prog, b["id"])
        if any(x.endswith("UnixListener::bind") for x in r) and any(x.startswith("agg:") and x.endswith("::" + GLOBAL) for x in r):
            c.append(b["id"])
    inner = [x for x in c if not any(y != x and y in reach(prog, x) for y in c)]
    return inner


class Analysis:
    def __init__(self, mir, tier="quick", verbose=False):
        self.prog = E.Program(mir)
        self.tier = tier
        self.verbose = verbose
        self.stats = {"functions": set(), "steps": 0, "events": 0, "paths": 0, "roots": []}

    def engine(self, rules, **kw):
        kw.setdefault("budget", 3000000)
        eng = E.Engine(self.prog, rules, **kw)
        eng.repo = getattr(self, "repo", os.environ.get("PZ_REPO", "/repo"))
        return eng

    def done(self, eng):
        s = self.stats
        s["functions"] |= set(x for x in eng.fns if self.prog.bodies[x]["local"])
        s["steps"] += eng.nsteps
        s["events"] += eng.nevents
        s["paths"] += eng.paths

    def twice(self, run, rules, **kw):
        """Run without rules until the loop-widened values are stable, then with the rules."""
        eng = self.engine([], **kw)
        run(eng)
        for i in range(4):
            ph, dt = eng.phi_in, eng.discr_ty
            eng = self.engine(rules, **kw)
            eng.phi_in = ph
            eng.discr_ty.update(dt)
            for r in rules:
                r.__init__()
                r.start(eng)
            run(eng)
            if not eng.phi_grown:
                break
        for r in rules:
            r.finish(eng)
        self.done(eng)
        return eng

    def spawned(self, eng):
        seen = []
        while eng.spawned:
            clo, parent = eng.spawned.pop(0)
            b = self.prog.bodies.get(clo.a[0])
            if b is None:
                continue
            seen.append(clo.a[0])
            eng.cur_root = clo
            eng.run_root(clo.a[0], [clo] + [mk("sym", "arg")] * (b["argc"] - 1), name="thread:" + clo.a[0])
        return seen

    def server(self, rules):
        """The server: its main thread (including control requests) and every thread that it starts."""
        roots = server_root(self.prog)
        if not roots:
            raise Missing("no function that creates %s and binds the control socket" % GLOBAL)
        self.stats["roots"] += roots

        def run(eng):
            for r in roots:
                eng.cur_root = None
                eng.run_root(r)
            self.stats["roots"] = sorted(set(self.stats["roots"]) | set(self.spawned(eng)))
        return self.twice(run, rules, opaque=exact(conf_returning(self.prog)))

    def raw(self, rules):
        """The methods of the guard of the global state (which the other groups treat as primitives), each on its own."""
        eng0 = self.engine([])
        table = M.prim_table(eng0)
        miss = [x for x in E.PRIMS if x not in table.values()]
        if miss:
            raise Missing("no method of the guard is %s" % ", ".join(miss))
        self.stats["roots"] += sorted(table)
        cls = [b for b in self.prog.local if b["id"] in table][0]["implself"]

        def run(eng):
            eng.cur_root = None
            adt = self.prog.adt_of(cls)
            names = [x[0] for x in self.prog.adts[adt]["v"][0]["f"]]
            for b in sorted(table):
                body = self.prog.bodies[b]
                st = E.State()
                g = mk("guard", "pizauth::server::state::AuthenticatorState.locked_state", "root")
                st.held = (g,)
                st.cells[("c", -1, 1)] = mk("agg", adt, 0, tuple(g for x in names))
                args = [mk("ref", ("c", -1, 1), (), self.prog.ty(body["locals"][1][0]).startswith("&mut"))]
                for i in range(2, body["argc"] + 1):
                    args.append(mk("sym", "arg%d" % i))
                eng.cur_prim = table[b]
                eng.run_root(b, args, st, name="prim:" + table[b])
        return self.twice(run, rules, prims=False)

    def derived(self, rules):
        """The comparison and copying of references and token states (which the other groups take to be structural)."""
        pat = re.compile(r"::(AccountId|TokenState|Account|AccountDump)( as std::(cmp::PartialEq>::(eq|ne)|clone::Clone>::clone))$")
        ids = [b["id"] for b in self.prog.local if pat.search(b["id"])]
        self.stats["roots"] += ids

        def run(eng):
            eng.cur_root = None
            for i in ids:
                eng.cur_derived = pat.search(i).group(1), pat.search(i).group(2).split("::")[-1]
                eng.run_root(i, [mk("sym", "arg%d" % j) for j in range(1, self.prog.bodies[i]["argc"] + 1)], name="derived:" + i)
        return self.twice(run, rules, prims=False)

    def bodies(self, rules):
        """Single functions, each on its own with unknown arguments: those that the rules ask for (their `wants`: a pattern or a
        function of the program)."""
        ids = set()
        for r in rules:
            if callable(r.wants):
                ids |= set(r.wants(self.prog))
            else:
                ids |= {b["id"] for b in self.prog.local if re.search(r.wants, b["id"]) and "promoted[" not in b["id"]}
        ids = sorted(ids)
        self.stats["roots"] += ids

        def run(eng):
            eng.cur_root = None
            for i in ids:
                eng.cur_body = i
                eng.run_root(i, [mk("sym", "arg%d" % j) for j in range(1, self.prog.bodies[i]["argc"] + 1)], name="body:" + i)
        return self.twice(run, rules, prims=False)

    def config(self, rules):
        """The construction of a configuration from the text of the configuration file."""
        made = conf_returning(self.prog)
        roots = [x for x in made if not any(y != x and x in reach(self.prog, y) for y in made)]
        if not roots:
            raise Missing("no function that makes a configuration")
        self.stats["roots"] += roots

        def run(eng):
            eng.cur_root = None
            eng.option_facts = False
            for r in roots:
                eng.run_root(r, [mk("sym", "arg%d" % j) for j in range(1, self.prog.bodies[r]["argc"] + 1)])
        return self.twice(run, rules, opaque=exact(text_fns(self.prog)))

    def main(self, rules):
        """The command line: main and everything it calls except the server proper."""
        roots = [b["id"] for b in self.prog.local if b["id"].split("::")[-1] == "main" and b["kind"] == "fn"]
        if not roots:
            raise Missing("no main function")
        self.stats["roots"] += roots
        ctl = control_fns(self.prog)

        def run(eng):
            for r in roots:
                eng.cur_root = None
                eng.run_root(r)
        return self.twice(run, rules, opaque=exact(conf_returning(self.prog) + ctl))


class Missing(Exception):
    pass


def control_fns(prog):
    """The local functions that take a UnixStream and have to do with the server's state."""
    def takes(b, what):
        return any(what in prog.ty(b["locals"][i][0]) for i in range(1, b["argc"] + 1))
    state = {b["id"] for b in prog.local if takes(b, "AuthenticatorState")}
    return [b["id"] for b in prog.local if b["kind"] in ("fn", "method") and takes(b, "UnixStream") and
            (b["id"] in state or state & set(reach(prog, b["id"])))]


def text_fns(prog):
    """The innermost local functions from the text of an option to a string or time (which are looked at on their own)."""
    c = {}
    for b in prog.local:
        if b["kind"] in ("fn", "method") and b["argc"] == 1 and prog.ty(b["locals"][1][0]) == "&str":
            r = prog.ty(b["locals"][0][0])
            if r == "std::string::String" or re.match(r"std::result::Result<\S*Duration,", r):
                c[b["id"]] = r == "std::string::String"
    out = []
    for x, s in c.items():
        near = [y for y, s2 in c.items() if y != x and s2 == s]
        if s and any(y in reach(prog, x) for y in near):
            continue           # a wrapper
        if not s and any(x in reach(prog, y) for y in near):
            continue           # the inside of a time function
        out.append(x)
    return sorted(out)
