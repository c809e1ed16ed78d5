"""A path-sensitive abstract interpreter over the MIR dumped by the driver.

All local functions and closures are inlined; values are terms (terms.py); branches on unknown values
fork the path and are recorded as facts; loops are closed by widening the values that change to `phi`
terms. Rules observe the events of every path (see `Rule`)."""
import json
import re
import sys

from terms import *
from terms import _EMPTY

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class Program:
    def __init__(self, path):
        with open(path) as f:
            self.m = json.load(f)
        self.types = self.m["types"]
        self.adts = self.m["adts"]
        self.records_as_tuples()
        self.bodies = {}
        for b in self.m["bodies"]:
            self.bodies.setdefault(b["id"], b)
        self._heads = {}
        self._live = {}
        self.local = [b for b in self.m["bodies"] if b["local"]]

    def records_as_tuples(self):
        """Whether the entries of a list kept in the server's state are tuples or structs of the program makes no
        difference: the structs that lists of accounts are made of are turned into the tuples the rules know,
        (name, reference, state)."""
        def short(i):
            return self.ty(i).split("<")[0].split("::")[-1]
        want = ["String", "AccountId", "TokenState"]
        ren = {}
        for n, a in self.adts.items():
            if a["local"] and a["kind"] == "struct" and len(a["v"]) == 1:
                fs = [short(f[1]) for f in a["v"][0]["f"]]
                if sorted(fs) == sorted(want):
                    ren[n] = [want.index(x) for x in fs]
        if not ren:
            return
        def fix(x):
            if type(x) is dict:
                if x.get("k") == "agg" and x.get("a") == "adt" and x.get("n") in ren:
                    o = [None] * 3
                    for i, y in zip(ren[x["n"]], x["o"]):
                        o[i] = y
                    x["o"] = o
                    x["a"] = "tuple"
                for y in x.values():
                    fix(y)
            elif type(x) is list:
                if len(x) >= 3 and x[0] == "f" and type(x[2]) is str and x[2].rsplit(".", 1)[0] in ren:
                    x[1] = ren[x[2].rsplit(".", 1)[0]][x[1]]
                    x[2] = str(x[1])
                else:
                    for y in x:
                        fix(y)
        fix(self.m["bodies"])
        for t in self.types:
            if t["k"] == "adt" and t["n"] in ren:
                fs = [None] * 3
                for i, f in zip(ren[t["n"]], self.adts[t["n"]]["v"][0]["f"]):
                    fs[i] = f[1]
                t.clear()
                t.update({"k": "tuple", "a": fs})

    def ty(self, i, d=8):
        """A type as a string."""
        if i is None:
            return "?"
        t = self.types[i]
        k = t["k"]
        if d == 0:
            return "…"
        if k == "adt":
            return t["n"] + ("<" + ",".join(self.ty(x, d - 1) for x in t["a"]) + ">" if t["a"] else "")
        if k in ("ref", "ptr"):
            return ("&mut " if t["m"] else "&") + self.ty(t["t"], d - 1)
        if k == "tuple":
            return "(" + ",".join(self.ty(x, d - 1) for x in t["a"]) + ")"
        if k in ("array", "slice"):
            return "[" + self.ty(t["t"], d - 1) + "]"
        if k == "closure":
            return "closure " + t["n"]
        if k == "fndef":
            return "fn " + t["n"]
        if k in ("dyn", "other"):
            return t["s"]
        if k == "param":
            return t["n"]
        return k

    def adt_of(self, i):
        while i is not None:
            t = self.types[i]
            if t["k"] in ("ref", "ptr"):
                i = t["t"]
                continue
            return t["n"] if t["k"] == "adt" else None
        return None

    def heads(self, b):
        """(loop heads, back edges) of a body."""
        r = self._heads.get(b["id"])
        if r is not None:
            return r
        bl = b["blocks"]

        def succs(i):
            t = bl[i]["t"]
            k = t["k"]
            if k in ("goto", "drop", "assert"):
                return [t["t"]]
            if k == "call":
                return [] if t["t"] is None else [t["t"]]
            if k == "switch":
                return [x[1] for x in t["v"]] + [t["e"]]
            return []
        color = {}
        back = set()
        npred = {}
        stack = [(0, iter(succs(0)))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                npred[s] = npred.get(s, 0) + 1
                if color.get(s) == 1:
                    back.add((n, s))
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter(succs(s))))
                    break
            else:
                color[n] = 2
                stack.pop()
        r = (frozenset(h for _, h in back), frozenset(back), npred)
        self._heads[b["id"]] = r
        return r

    def live(self, b):
        """Locals that are live at the start of each block (locals whose address is taken always are)."""
        r = self._live.get(b["id"])
        if r is not None:
            return r
        bl = b["blocks"]
        taken = {0}
        use, kill, succ = [], [], []

        def place(p, u, k, isdef=False):
            for e in p["p"]:
                if e != "*" and e[0] == "i" and e[1] not in k:
                    u.add(e[1])
            if isdef and not p["p"]:
                k.add(p["l"])
            elif p["l"] not in k:
                u.add(p["l"])

        def opnd(o, u, k):
            if o["k"] in ("copy", "move"):
                place(o["p"], u, k)

        def rv(r, u, k):
            kk = r["k"]
            if kk in ("ref", "discr", "rawptr", "len"):
                if "p" in r:
                    place(r["p"], u, k)
                    if kk in ("ref", "rawptr") and "*" not in r["p"]["p"]:
                        taken.add(r["p"]["l"])
            for x in ("o", "a", "b"):
                y = r.get(x)
                if type(y) is dict:
                    opnd(y, u, k)
                elif type(y) is list:
                    for z in y:
                        if type(z) is dict:
                            opnd(z, u, k)
        for blk in bl:
            u, k = set(), set()
            for s in blk["st"]:
                if s["k"] == "=":
                    rv(s["r"], u, k)
                    place(s["p"], u, k, True)
                elif s["k"] == "sd":
                    place(s["p"], u, k)
                elif s["k"] == "dead":
                    k.add(s["l"])
            t = blk["t"]
            sc = []
            if t["k"] in ("goto", "drop", "assert"):
                sc = [t["t"]]
            if t["k"] == "drop":
                place(t["p"], u, k)
            elif t["k"] == "assert":
                opnd(t["o"], u, k)
            elif t["k"] == "switch":
                opnd(t["o"], u, k)
                sc = [x[1] for x in t["v"]] + [t["e"]]
            elif t["k"] == "call":
                for a in t["a"]:
                    opnd(a, u, k)
                if t["f"]["k"] != "fn":
                    opnd(t["f"], u, k)
                if t["t"] is not None:
                    place(t["d"], u, k, True)
                    sc = [t["t"]]
            use.append(u)
            kill.append(k)
            succ.append(sc)
        n = len(bl)
        lin = [set(u) for u in use]
        pred = [[] for _ in range(n)]
        for i in range(n):
            for j in succ[i]:
                pred[j].append(i)
        work = list(range(n))
        while work:
            i = work.pop()
            out = set()
            for j in succ[i]:
                out |= lin[j]
            new = use[i] | (out - kill[i])
            if new != lin[i]:
                lin[i] = new
                work.extend(pred[i])
        r = [x | taken for x in lin]
        self._live[b["id"]] = r
        return r

    def find(self, suffix, kinds=("fn", "method")):
        """Local bodies whose path ends with `suffix`."""
        return [b for b in self.local if b["kind"] in kinds
                and (b["id"] == suffix or b["id"].endswith("::" + suffix))]


class State:
    __slots__ = ("cells", "heap", "facts", "rules", "held", "loops", "made", "trace")

    def __init__(self):
        self.cells = {}
        self.heap = {}
        self.facts = {}
        self.rules = {}
        self.held = ()
        self.loops = {}
        self.made = _EMPTY
        self.trace = None

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.rules = dict(self.rules)
        s.held = self.held
        s.loops = dict(self.loops)
        s.made = self.made
        s.trace = self.trace
        return s

    def key(self):
        return (frozenset(self.cells.items()), frozenset(self.heap.items()), frozenset(self.facts.items()),
                frozenset(self.rules.items()), self.held)

    def rename(self, old, new):
        """Replace atom `old` everywhere."""
        m = {}
        if new.op == "old":
            for k in [k for k in self.facts if old in k.atoms]:
                del self.facts[k]
            for k in [k for k in self.heap if old in k[0].atoms]:
                del self.heap[k]
        for k, v in self.cells.items():
            if old in v.atoms:
                self.cells[k] = subst(v, old, new, m)
        for k in [k for k, v in self.heap.items() if old in v.atoms or mentions(k, old)]:
            v = self.heap.pop(k)
            self.heap[subst(k, old, new, m)] = subst(v, old, new, m)
        for k in [k for k in self.facts if old in k.atoms]:
            v = self.facts.pop(k)
            self.facts[subst(k, old, new, m)] = v
        for k, v in self.rules.items():
            if mentions(v, old):
                self.rules[k] = subst(v, old, new, m)
        if mentions(self.held, old):
            self.held = tuple(subst(x, old, new, m) for x in self.held)


class Ev:
    __slots__ = ("kind", "name", "args", "ret", "loc", "fn", "f", "stack", "extra", "site")

    def __init__(self, kind, name, args, ret, loc, fn, f=None, stack=(), extra=None, site=None):
        self.kind = kind
        self.name = name
        self.args = args
        self.ret = ret
        self.loc = loc
        self.fn = fn
        self.f = f
        self.stack = stack
        self.extra = extra
        self.site = site


class Rule:
    """Base class of rules. `on` is called for every event on every path."""
    name = "rule"

    keeps = None      # keeps(fact term): should this fact be remembered although its terms are no longer used?

    def on(self, eng, st, ev):
        pass


class Frame:
    __slots__ = ("b", "depth", "ctx", "stack")

    def __init__(self, b, depth, ctx, stack):
        self.b = b
        self.depth = depth
        self.ctx = ctx
        self.stack = stack


class Call:
    __slots__ = ("n", "r", "item", "trait", "args", "f", "loc", "site", "fr", "ret_ty", "argtys", "mutargs", "target")


def strip(v):
    while v.op == "shr":
        v = v.a[0]
    return v


def some(x):
    return mk("agg", "std::option::Option", 1, (x,))


NONE = mk("agg", "std::option::Option", 0, ())


def ok(x):
    return mk("agg", "std::result::Result", 0, (x,))


def err(x):
    return mk("agg", "std::result::Result", 1, (x,))


PRIMS = ("validate_act_name", "is_act_id_valid", "act_ids", "act_id_matching_token_state", "account",
         "tokenstate", "tokenstate_set_ongoing_refresh", "tokenstate_set_last_notification",
         "tokenstate_replace", "config")


CUR = [None]            # the engine that is running


class Engine:
    def __init__(self, prog, rules=(), opaque=(), prims=True, budget=400000):
        CUR[0] = self
        self.p = prog
        self.rules = list(rules)
        self.keepers = [r.keeps for r in rules if r.keeps is not None]
        self.keepmemo = {}
        self.opaque = [re.compile(x) for x in opaque]
        self.prims = prims
        self.budget = budget
        self.nsteps = 0
        self.phi_in = {}
        self.violations = {}
        self.fns = set()
        self.spawned = []
        self.chain = []
        self.want_chain = any(getattr(r, "chain", False) for r in self.rules)
        self.spawn_seen = set()
        self.paths = 0
        self.nevents = 0
        self.ncalls = set()
        self.unmodelled = {}
        self.cenv = {}
        self.discr_ty = {}
        self.promoted_cache = {}
        self.join_at = 8
        self.phi_grown = False
        self.canon = True
        self.option_facts = True      # keep apart the rounds of a loop by whether optional variables are set
        self.options_at = {}
        self.objs = {}
        self.objfld = {}
        self.fr0 = Frame({"id": "?", "blocks": []}, 0, "?", ())
        import models
        self.models = models

    # ---------------------------------------------------------------- reporting
    def violate(self, rule, key, msg, ev=None, st=None):
        loc = ev.loc if ev is not None else None
        k = (rule, key)
        if k in self.violations:
            return
        path = []
        t = st.trace if st is not None else None
        while t is not None and len(path) < 60:
            path.append(t[0])
            t = t[1]
        path.reverse()
        self.violations[k] = {"rule": rule, "key": key, "msg": msg, "loc": loc,
                              "fn": ev.fn if ev is not None else None,
                              "stack": list(ev.stack) if ev is not None else [], "path": path}

    def emit(self, st, ev):
        self.nevents += 1
        for r in self.rules:
            r.on(self, st, ev)

    # ---------------------------------------------------------------- terms
    def expand(self, t):
        """All subterms of t, looking through loop-widened values."""
        seen = set()
        work = [t]
        while work:
            x = work.pop()
            for y in subterms(x, seen):
                yield y
                if y.op == "phi":
                    for z in self.phi_in.get(y, ()):
                        if z not in seen:
                            work.append(z)

    def contains(self, t, pred):
        return any(pred(x) for x in self.expand(t))

    def fld(self, v, label, idx):
        o = v.op
        if o == "shr":
            x = self.fld(v.a[0], label, idx)
            return mk("shr", x) if self.owned_guards(x) else x
        if o == "agg":
            n = label.rsplit(".", 1)[0] if "." in label else None
            if idx < len(v.a[2]):
                return v.a[2][idx]
        elif o in ("tup", "arr"):
            if idx < len(v.a[0]):
                return v.a[0][idx]
        elif o == "clo":
            if idx < len(v.a[1]):
                return v.a[1][idx]
        elif o == "upd":
            if type(v.a[1]) is str:
                return v.a[2] if v.a[1] == label else self.fld(v.a[0], label, idx)
        elif o == "op":
            if label == "std::option::Option::Some.0":
                if v.a[0] == "get":
                    return mk("at", v.a[1], v.a[2])
                if v.a[0] == "getix":
                    return self.index(v.a[1], v.a[2])
                if v.a[0] == "jsonget":
                    return mk("op", "json", v.a[1], v.a[2])
            if v.a[0].endswith("WithOverflow"):
                if idx == 0:
                    return self.binop(v.a[0][:-12], v.a[1], v.a[2])
                return mk("op", "ovf", v.a[1], v.a[2])
        elif o == "ovfpair":
            return v.a[idx]
        if o in ("mapix",):
            return v.a[idx]
        if label in self.objfld:
            return self.objfld[label]
        return mk("fld", v, label)

    def setp(self, v, projs, val):
        if not projs:
            return val
        v = strip(v)
        p = projs[0]
        if p[0] == "f":
            idx, label = p[1], p[2]
            if v.op == "agg" and idx < len(v.a[2]):
                fs = list(v.a[2])
                fs[idx] = self.setp(fs[idx], projs[1:], val)
                return mk("agg", v.a[0], v.a[1], tuple(fs))
            if v.op in ("tup", "arr") and idx < len(v.a[0]):
                fs = list(v.a[0])
                fs[idx] = self.setp(fs[idx], projs[1:], val)
                return mk(v.op, tuple(fs))
            if v.op == "clo" and idx < len(v.a[1]):
                fs = list(v.a[1])
                fs[idx] = self.setp(fs[idx], projs[1:], val)
                return mk("clo", v.a[0], tuple(fs))
            # Materialise an opaque value of known type.
            owner = label.rsplit(".", 1)[0]
            for adt, vi, names in self.owners(owner):
                fs = []
                for j, (fname, _) in enumerate(names):
                    lab = owner + "." + fname
                    x = self.fld(v, lab, j) if v.op != "uninit" else UNINIT
                    fs.append(self.setp(x, projs[1:], val) if j == idx else x)
                return mk("agg", adt, vi, tuple(fs))
            if v.op in ("uninit",) and label.isdigit():
                fs = [UNINIT] * (idx + 1)
                fs[idx] = self.setp(UNINIT, projs[1:], val)
                return mk("tup", tuple(fs))
            return mk("upd", v, label, self.setp(self.fld(v, label, idx), projs[1:], val))
        if p[0] == "sl":
            return mk("op", "splice", v, p[1], self.setp(mk("op", "slice", v, p[1]), projs[1:], val))
        if p[0] == "ix":
            i = p[1]
            if v.op == "arr" and isconst(i) and type(cval(i)) is int and cval(i) < len(v.a[0]):
                fs = list(v.a[0])
                fs[cval(i)] = self.setp(fs[cval(i)], projs[1:], val)
                return mk("arr", tuple(fs))
            return mk("upd", v, i, self.setp(self.index(v, i), projs[1:], val))
        return mk("upd", v, "?", val)

    def owners(self, owner):
        """Resolve `Adt` or `Adt::Variant` to (adt, variant index, fields)."""
        a = self.p.adts.get(owner)
        if a and a["kind"] == "struct" and a["v"]:
            return [(owner, 0, a["v"][0]["f"])]
        if "::" in owner:
            e, vn = owner.rsplit("::", 1)
            a = self.p.adts.get(e)
            if a:
                for i, v in enumerate(a["v"]):
                    if v["n"] == vn:
                        return [(e, i, v["f"])]
        return []

    def index(self, v, i):
        v = strip(v)
        if v.op == "arr" and isconst(i) and type(cval(i)) is int and cval(i) < len(v.a[0]):
            return v.a[0][cval(i)]
        if v.op == "upd" and v.a[1] is i:
            return v.a[2]
        return mk("ix", v, i)

    def proj(self, st, v, p):
        if v.op == "ref":
            v = self.load(st, v)
        if p[0] == "f":
            return self.fld(v, p[2], p[1])
        if p[0] == "ix":
            return self.index(v, p[1])
        if p[0] == "sl":
            return mk("op", "slice", v, p[1])
        if p[0] == "sub":
            return mk("op", "subslice", v, C(("i", p[1])), C(("i", p[2])))
        if p[0] == "cend":
            return mk("op", "fromend", v, C(("i", p[1])))
        return mk("op", "proj?", v)

    # ---------------------------------------------------------------- memory
    def resolve(self, st, fr, pl):
        base = ("c", fr.depth, pl["l"])
        projs = ()
        for e in pl["p"]:
            if e == "*":
                v = self.read(st, base, projs)
                w = strip(v)
                if w.op == "ref":
                    base, projs = w.a[0], w.a[1]
                else:
                    base, projs = v, ()
            elif e[0] == "f":
                projs = projs + (("f", e[1], e[2]),)
            elif e[0] == "v":
                pass
            elif e[0] == "i":
                i = st.cells.get(("c", fr.depth, e[1]), UNINIT)
                projs = projs + (("ix", i),)
            elif e[0] == "c":
                if e[3]:
                    projs = projs + (("cend", e[1]),)
                else:
                    projs = projs + (("ix", C(("i", e[1]))),)
            elif e[0] == "s":
                projs = projs + (("sub", e[1], e[2]),)
            else:
                projs = projs + (("?",),)
        return base, projs

    def read(self, st, base, projs):
        if type(base) is tuple:
            v = st.cells.get(base, UNINIT)
            for p in projs:
                v = self.proj(st, v, p)
            return v
        b = strip(base)
        if st.heap:
            for k in range(len(projs), -1, -1):
                h = st.heap.get((b, projs[:k]))
                if h is not None:
                    v = h
                    for p in projs[k:]:
                        v = self.proj(st, v, p)
                    return v
        v = base
        for p in projs:
            v = self.proj(st, v, p)
        if st.heap:
            n = len(projs)
            for k in sorted([k for k in st.heap if k[0] is b and len(k[1]) > n and k[1][:n] == projs], key=lambda k: len(k[1])):
                v = self.setp(v, k[1][n:], st.heap[k])
        return v

    def load(self, st, ref):
        return self.read(st, ref.a[0], ref.a[1])

    def write(self, st, base, projs, val, ev=None):
        if type(base) is tuple:
            if projs:
                old = st.cells.get(base, UNINIT)
                # a field path that runs through a reference
                v = old
                for k, p in enumerate(projs):
                    if v.op == "ref":
                        return self.write(st, v.a[0], v.a[1] + projs[k:], val, ev)
                    v = self.proj(st, v, p)
                st.cells[base] = self.setp(old, projs, val)
            else:
                st.cells[base] = val
            return
        b = strip(base)
        if ev is not None:
            ev.args = (b, projs, self.snap(st, val))
        for k, p in enumerate(projs):
            if p[0] in ("ix", "sl"):
                # Elements may alias: the write changes the collection as a whole.
                coll = self.read(st, b, projs[:k])
                val = self.setp(coll, projs[k:], self.snap(st, val))
                projs = projs[:k]
                break
        n = len(projs)
        for k in [k for k in st.heap if k[0] is b and len(k[1]) > n and k[1][:n] == projs]:
            del st.heap[k]
        for k in range(n, -1, -1):
            h = st.heap.get((b, projs[:k]))
            if h is not None:
                st.heap[(b, projs[:k])] = self.setp(h, projs[k:], val)
                break
        else:
            st.heap[(b, projs)] = val
        if ev is not None:
            self.emit(st, ev)

    def snap(self, st, v, memo=None):
        """v with references to local variables replaced by what they point to."""
        if type(v) is T:
            if not v.hasref:
                return v
            if memo is None:
                memo = {}
            if v in memo:
                # None: the value of this reference contains the reference itself.
                return memo[v] or mk("deepref")
            if v.op == "ref":
                memo[v] = None
                r = self.snap(st, self.load(st, v), memo)
            else:
                r = mk(v.op, *[self.snap(st, x, memo) for x in v.a])
            memo[v] = r
            return r
        if type(v) is tuple:
            return tuple(self.snap(st, x, memo) for x in v)
        return v

    def owned_guards(self, v):
        """Guards owned by (not merely borrowed in) a value."""
        if not v.atoms:
            return ()
        if v.op == "guard":
            return (v,)
        if v.op == "agg":
            xs = v.a[2]
        elif v.op in ("tup", "arr"):
            xs = v.a[0]
        elif v.op == "clo":
            xs = v.a[1]
        else:
            return ()
        r = ()
        for x in xs:
            r = r + self.owned_guards(x)
        return r

    def fresh(self, st, t):
        """t is created anew: occurrences from an earlier visit of its site become old."""
        if t in st.made:
            st.rename(t, mk("old", C(("s", "gen")), t))
        else:
            st.made = st.made | frozenset([t])
        return t

    def release(self, st, g, ev):
        if g in st.held:
            st.held = tuple(x for x in st.held if x is not g)
            ev.kind = "release"
            ev.args = (g,)
            self.emit(st, ev)
            for k in [k for k in st.heap if mentions(k, g)]:
                del st.heap[k]
            st.rename(g, mk("xguard", g.a[0], g.a[1]))

    # ---------------------------------------------------------------- facts
    BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128,
            "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}

    def cast(self, st, r, v):
        """A numeric conversion: the identity unless it may lose something."""
        to = self.p.ty(r["t"])
        o = r["o"]
        fr_ = self.p.ty(o["p"]["t"]) if "p" in o else None
        c = cval(v)
        b = self.BITS.get(to)
        if type(c) is int and b:
            c &= (1 << b) - 1
            if to[0] == "i" and c >> (b - 1):
                c -= 1 << b
            return C(("i", c))
        f = self.BITS.get(fr_)
        if b and f and (b >= f and to[0] == fr_[0] or b > f and fr_[0] == "u") or fr_ in ("bool", "char") or c is not None or b and fr_ is not None and not f and not fr_.startswith("f"):
            return v
        return mk("op", "as " + to, strip(self.snap(st, v)))

    def binop(self, op, a, b):
        ca, cb = cval(a), cval(b)
        if op in ("Eq", "Ne"):
            r = self.eq(a, b)
            return r if op == "Eq" else self.neg(r)
        if op in ("Lt", "Gt", "Le", "Ge"):
            return self.cmp(op, a, b)
        if type(ca) is int and type(cb) is int:
            try:
                v = {"Add": ca + cb, "Sub": ca - cb, "Mul": ca * cb, "BitAnd": ca & cb, "BitOr": ca | cb,
                     "BitXor": ca ^ cb, "Shl": ca << cb if cb < 200 else None, "Shr": ca >> cb,
                     "AddUnchecked": ca + cb, "SubUnchecked": ca - cb,
                     "Div": ca // cb if cb else None, "Rem": ca % cb if cb else None}.get(op)
                if v is not None:
                    return C(("i", v))
            except Exception:
                pass
        if type(ca) is bool and type(cb) is bool:
            if op == "BitAnd":
                return C(("b", ca and cb))
            if op == "BitOr":
                return C(("b", ca or cb))
        if op in ("BitAnd", "BitOr"):
            for x, y in ((a, b), (b, a)):
                if x is TRUE:
                    return y if op == "BitAnd" else TRUE
                if x is FALSE:
                    return FALSE if op == "BitAnd" else y
        return mk("op", op, a, b)

    def cmp(self, op, a, b):
        if op == "Gt":
            return self.cmp("Lt", b, a)
        if op == "Le":
            return self.neg(self.cmp("Lt", b, a))
        if op == "Ge":
            return self.neg(self.cmp("Lt", a, b))
        ca, cb = cval(a), cval(b)
        if type(ca) is int and type(cb) is int:
            return C(("b", ca < cb))
        a, b = strip(a), strip(b)
        return FALSE if a is b else mk("op", "lt", a, b)

    def neg(self, t):
        if t is TRUE:
            return FALSE
        if t is FALSE:
            return TRUE
        if t.op == "op" and t.a[0] == "not":
            return t.a[1]
        return mk("op", "not", t)

    def eq(self, a, b):
        a, b = strip(a), strip(b)
        if a is b:
            return TRUE
        ca, cb = cval(a), cval(b)
        if type(ca) is bytes and type(cb) is str:
            cb = cb.encode()
        if type(cb) is bytes and type(ca) is str:
            ca = ca.encode()
        if a.op == "fld" and b.op == "fld" and a.a[1] == b.a[1] and self.single(a.a[1]):
            return self.eq(a.a[0], b.a[0])
        for x, y in ((a, b), (b, a)):
            if x.op == "fld" and self.single(x.a[1]) and y.op != "fld" and not isconst(y):
                pass
        if ca is not None and cb is not None:
            return C(("b", ca == cb))
        for x, y in ((a, b), (b, a)):
            if x.op == "agg" and not x.a[2]:
                if y.op == "agg":
                    return C(("b", x.a[1] == y.a[1])) if x.a[1] != y.a[1] or not y.a[2] else mk("op", "eq", a, b)
                ad = self.p.adts.get(x.a[0])
                if ad and ad["kind"] == "enum":
                    d = int(ad["v"][x.a[1]]["d"])
                    self.discr_ty[y] = x.a[0]
                    return self.eq(mk("discr", y), C(("i", d)))
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] != b.a[1]:
            return FALSE
        if a.op == b.op and a.op in ("agg", "tup"):
            xa = a.a[2] if a.op == "agg" else a.a[0]
            xb = b.a[2] if b.op == "agg" else b.a[0]
            if len(xa) == len(xb) and len(xa) == 1:
                return self.eq(xa[0], xb[0])
        if cb is None and ca is not None:
            a, b = b, a
        elif ca is None and cb is None and a.id > b.id:
            a, b = b, a
        return mk("op", "eq", a, b)

    def single(self, label):
        o = self.owners(label.rsplit(".", 1)[0]) if "." in label else []
        return len(o) == 1 and len(o[0][2]) == 1 and self.p.adts[o[0][0]]["kind"] == "struct"

    def truth(self, st, t):
        """True / False / None for a boolean term under the facts."""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.op == "op" and t.a[0] == "not":
            r = self.truth(st, t.a[1])
            return None if r is None else not r
        if t.op == "op" and t.a[0] == "eq" and isconst(t.a[2]):
            f = st.facts.get(t.a[1])
            if f is not None:
                v = cval(t.a[2])
                if f[0] == "=":
                    return f[1] == v
                if v in f[1]:
                    return False
            return None
        f = st.facts.get(t)
        if f is not None and f[0] == "=":
            return f[1]
        if f is not None and f[0] == "!":
            if True in f[1]:
                return False
            if False in f[1]:
                return True
        if t.op == "op" and t.a[0] in ("BitAnd", "BitOr"):
            x, y = self.truth(st, t.a[1]), self.truth(st, t.a[2])
            if t.a[0] == "BitAnd":
                if x is False or y is False:
                    return False
                if x and y:
                    return True
            else:
                if x or y:
                    return True
                if x is False and y is False:
                    return False
        return None

    def assume(self, st, t, val):
        """Add the fact that boolean term t is val; False if that contradicts the facts."""
        r = self.truth(st, t)
        if r is not None:
            return r == val
        if t.op == "op":
            if t.a[0] == "not":
                return self.assume(st, t.a[1], not val)
            if t.a[0] == "eq":
                if isconst(t.a[2]):
                    return self.assume_val(st, t.a[1], cval(t.a[2]), val)
                if val:
                    x, y = t.a[1], t.a[2]
                    for p, q in ((x, y), (y, x)):
                        if p.op == "agg" and q.op != "agg":
                            ad = self.p.adts.get(p.a[0])
                            if ad and ad["kind"] == "enum":
                                self.discr_ty[q] = p.a[0]
                                d = mk("discr", q)
                                if not self.assume_val(st, d, int(ad["v"][p.a[1]]["d"]), True):
                                    return False
                                vn = ad["v"][p.a[1]]
                                for j, (fname, _) in enumerate(vn["f"]):
                                    lab = "%s::%s.%s" % (p.a[0], vn["n"], fname)
                                    if not self.assume(st, self.eq(self.fld(q, lab, j), p.a[2][j]), True):
                                        return False
                    if x.op == y.op and x.op in ("tup", "agg"):
                        xa = x.a[2] if x.op == "agg" else x.a[0]
                        ya = y.a[2] if y.op == "agg" else y.a[0]
                        for p, q in zip(xa, ya):
                            if not self.assume(st, self.eq(p, q), True):
                                return False
            if t.a[0] == "BitAnd" and val:
                return self.assume(st, t.a[1], True) and self.assume(st, t.a[2], True)
            if t.a[0] == "BitOr" and not val:
                return self.assume(st, t.a[1], False) and self.assume(st, t.a[2], False)
        st.facts[t] = ("=", val)
        return True

    def assume_val(self, st, t, v, positive):
        f = st.facts.get(t)
        if positive:
            if f is not None:
                if f[0] == "=" and f[1] != v:
                    return False
                if f[0] == "!" and v in f[1]:
                    return False
            st.facts[t] = ("=", v)
            return True
        if f is not None and f[0] == "=":
            return f[1] != v
        ex = (f[1] if f is not None else frozenset()) | frozenset([v])
        if t.op == "discr":
            ad = self.p.adts.get(self.discr_ty.get(t.a[0]))
            if ad:
                rest = [int(x["d"]) for x in ad["v"] if int(x["d"]) not in ex]
                if not rest:
                    return False
                if len(rest) == 1:
                    st.facts[t] = ("=", rest[0])
                    return True
        st.facts[t] = ("!", ex)
        return True

    def variant(self, st, v):
        """The variant name of an enum value if it is known."""
        v = strip(v)
        if v.op == "agg":
            return self.p.adts[v.a[0]]["v"][v.a[1]]["n"]
        f = st.facts.get(mk("discr", v))
        if f is not None and f[0] == "=":
            ad = self.p.adts.get(self.discr_ty.get(v))
            if ad:
                for x in ad["v"]:
                    if int(x["d"]) == f[1]:
                        return x["n"]
        return None

    # ---------------------------------------------------------------- operands, rvalues
    def operand(self, st, fr, o):
        k = o["k"]
        if k == "copy":
            b, p = self.resolve(st, fr, o["p"])
            return self.read(st, b, p)
        if k == "move":
            b, p = self.resolve(st, fr, o["p"])
            v = self.read(st, b, p)
            if type(b) is tuple:
                if not p:
                    st.cells.pop(b, None)
                elif self.owned_guards(v):
                    st.cells[b] = self.setp(st.cells.get(b, UNINIT), p, mk("moved"))
            return v
        if k == "fn":
            return mk("fn", o["n"], _Box(o))
        if k == "closure":
            return mk("clo", o["n"], ())
        if k == "const":
            return self.const(st, o)
        if k == "param":
            x = self.const_param(o["n"])
            return x if x.a[0][1] is not None else mk("opq", "const " + o["n"])
        return mk("opq", k)

    def const_args(self, f):
        """The const parameters in a callee."""
        ca = f.get("ca") if isinstance(f, dict) else None
        if not ca:
            return self.cenv
        return {**self.cenv, **{n: self.cenv.get(v) if isinstance(v, str) else v for n, v in ca}}

    def const_param(self, n):
        """A number, or the value of the const parameter of that name."""
        if isinstance(n, str):
            n = self.cenv.get(n)
        return C(("i", n))

    def const(self, st, o):
        n = o.get("name")
        v = o.get("v")
        if n and "::promoted[" in n and n in self.p.bodies:
            return self.promoted(n)
        if v:
            if "b" in v:
                return TRUE if v["b"] else FALSE
            if "i" in v:
                return C(("i", int(v["i"])))
            if "c" in v:
                return C(("ch", int(v["c"])))
            if "s" in v:
                return C(("s", v["s"]))
            if "y" in v:
                return C(("y", bytes(v["y"])))
            if "dur" in v:
                return C(("dur", tuple(v["dur"])))
            if "z" in v:
                t = self.p.types[o["t"]]
                if t["k"] == "tuple":
                    return UNIT
                if t["k"] == "closure":
                    return mk("clo", t["n"], ())
                if t["k"] == "adt":
                    ad = self.p.adts.get(t["n"])
                    if ad and ad["kind"] == "struct":
                        return mk("agg", t["n"], 0, ())
        return mk("opq", n or ("const:" + self.p.ty(o["t"]) + ":" + json.dumps(v)))

    def promoted(self, n):
        r = self.promoted_cache.get(n)
        if r is None:
            self.promoted_cache[n] = mk("opq", n)
            save, self.rules = self.rules, []
            outs = self.exec_body(State(), self.p.bodies[n], [], 0, n, ())
            self.rules = save
            if len(outs) == 1:
                s, v = outs[0]
                r = self.snap(s, v)
            else:
                r = mk("opq", n)
            self.promoted_cache[n] = r
        return r

    def rvalue(self, st, fr, r, loc):
        k = r["k"]
        if k == "use":
            return self.operand(st, fr, r["o"])
        if k == "ref":
            b, p = self.resolve(st, fr, r["p"])
            if r["m"]:
                if type(b) is not tuple:
                    b = strip(b)
                else:
                    # Normalise paths that run through references.
                    v = st.cells.get(b, UNINIT)
                    for i, q in enumerate(p):
                        if v.op == "ref":
                            b, p = v.a[0], v.a[1] + p[i:]
                            break
                        v = self.proj(st, v, q)
                return mk("ref", b, p, True)
            v = self.read(st, b, p)
            if self.owned_guards(v):
                return mk("shr", v)
            return v
        if k == "cast":
            v = self.operand(st, fr, r["o"])
            if r.get("c") in ("IntToInt", "FloatToInt", "IntToFloat", "FloatToFloat"):
                return self.cast(st, r, v)
            return v
        if k == "bin":
            a = self.operand(st, fr, r["a"])
            b = self.operand(st, fr, r["b"])
            a, b = self.snap(st, a), self.snap(st, b)
            op = r["op"]
            if op.endswith("WithOverflow"):
                return mk("op", op, a, b)
            return self.binop(op, a, b)
        if k == "un":
            o = self.operand(st, fr, r["o"])
            if r["op"] == "Not":
                return self.neg(o)
            o = strip(self.snap(st, o))
            if r["op"] == "PtrMetadata":
                return self.length(o)
            return mk("op", r["op"], o)
        if k == "discr":
            b, p = self.resolve(st, fr, r["p"])
            v = strip(self.read(st, b, p))
            if v.op == "ref":
                v = strip(self.load(st, v))
            if v.op == "agg":
                ad = self.p.adts.get(v.a[0])
                if ad:
                    return C(("i", int(ad["v"][v.a[1]]["d"])))
            n = self.p.adt_of(r["p"]["t"])
            if n:
                self.discr_ty[v] = n
            return mk("discr", v)
        if k == "agg":
            os = tuple(self.operand(st, fr, o) for o in r["o"])
            a = r["a"]
            if a == "adt":
                ad = self.p.adts.get(r["n"])
                if ad and ad["local"] and any(x.op == "op" and x.a[0] == "Mutex" for x in os):
                    vn = ad["v"][r["v"]]
                    os = tuple(mk("op", "mutex", C(("s", r["n"] + "." + vn["f"][i][0])), x.a[1])
                               if x.op == "op" and x.a[0] == "Mutex" else x for i, x in enumerate(os))
                v = mk("agg", r["n"], r["v"], os)
                if ad and ad["local"]:
                    self.emit(st, Ev("agg", r["n"], (self.snap(st, v),), None, loc, fr.b["id"], None, fr.stack))
                    if self.canon and ad["kind"] == "struct" and any(x.op == "op" and x.a[0] == "mutex" for x in os):
                        # An object with a lock of its own is shared: from now on only its identity matters.
                        ob = mk("sym", "the " + r["n"].split("::")[-1])
                        self.objs.setdefault(ob, []).append(self.snap(st, v))
                        for i, x in enumerate(os):
                            if x.op == "sym" and x.a[0].startswith("the "):
                                self.objfld["%s.%s" % (r["n"], ad["v"][r["v"]]["f"][i][0])] = x
                        return ob
                return v
            if a == "tuple":
                return mk("tup", os)
            if a == "array":
                return mk("arr", os)
            if a == "closure":
                return mk("clo", r["n"], os)
            return mk("opq", "agg")
        if k == "repeat":
            return mk("op", "repeat", self.operand(st, fr, r["o"]), self.const_param(r["len"]))
        return mk("opq", k)

    # ---------------------------------------------------------------- control
    def run_root(self, body_id, args=None, st=None, name=None):
        b = self.p.bodies[body_id]
        if args is None:
            args = [mk("sym", "arg%d" % (i + 1) if len(b["locals"][i + 1]) < 2 else b["locals"][i + 1][1])
                    for i in range(b["argc"])]
        st = st or State()
        self.emit(st, Ev("root", body_id, tuple(args), None, b["span"], body_id, None, ()))
        outs = self.exec_body(st, b, args, 0, name or body_id, (body_id,))
        for s, v in outs:
            self.paths += 1
            self.emit(s, Ev("exit", body_id, (), self.snap(s, v), b["span"], body_id, None, (body_id,)))
        return outs

    def run_spawned(self):
        done = 0
        while self.spawned:
            clo, parent = self.spawned.pop(0)
            done += 1
            b = self.p.bodies.get(clo.a[0])
            if b is None:
                continue
            self.run_root(clo.a[0], [clo] + [mk("sym", "arg")] * (b["argc"] - 1), name="thread:" + clo.a[0])
        return done

    def exec_body(self, st, b, args, depth, ctx, stack):
        if depth > 60:
            raise Budget("call depth")
        self.fns.add(b["id"])
        fr = Frame(b, depth, ctx, stack)
        self.chain[depth:] = [(b, args, frozenset(st.facts.items()))] if self.want_chain else [None]
        for i, a in enumerate(args):
            st.cells[("c", depth, i + 1)] = a
        heads, back, npred = self.p.heads(b)
        live = self.p.live(b)
        widened = {}
        outs = []
        seenout = set()
        visited = {}
        nout = 0
        work = [(0, None, st)]
        blocks = b["blocks"]
        while work:
            blk, pred, st = work.pop()
            self.nsteps += 1
            if self.nsteps > self.budget:
                raise Budget("step budget")
            if npred.get(blk, 0) > 1:
                lv = live[blk]
                for c in [c for c in st.cells if c[1] == depth and c[2] not in lv]:
                    del st.cells[c]
                if st.facts and blk not in heads:
                    self.prune_facts(st)
            if blk in heads:
                self.at_head(st, fr, blk, (pred, blk) in back, widened.setdefault(blk, set()))
            if npred.get(blk, 0) > 1:
                if self.covered(visited.setdefault(blk, {}), st):
                    continue
            bb = blocks[blk]
            for s in bb["st"]:
                kk = s["k"]
                if kk == "=":
                    v = self.rvalue(st, fr, s["r"], s["s"])
                    base, projs = self.resolve(st, fr, s["p"])
                    ev = None
                    if type(base) is not tuple:
                        ev = Ev("store", None, (), None, s["s"], b["id"], None, stack)
                    self.write(st, base, projs, v, ev)
                elif kk == "dead":
                    st.cells.pop(("c", depth, s["l"]), None)
                elif kk == "sd":
                    base, projs = self.resolve(st, fr, s["p"])
                    self.write(st, base, projs, mk("opq", "setdiscr"), None)
            t = bb["t"]
            k = t["k"]
            if k == "goto":
                work.append((t["t"], blk, st))
            elif k == "return":
                v = st.cells.get(("c", depth, 0), UNIT)
                for c in [c for c in st.cells if c[1] == depth]:
                    del st.cells[c]
                for l in [l for l in st.loops if l[0] == depth]:
                    del st.loops[l]
                key = (st.key(), v)
                if key not in seenout:
                    seenout.add(key)
                    if b["local"]:
                        self.emit(st, Ev("return", b["id"], (v,), None, b.get("span"), b["id"], None, fr.stack))
                    outs.append((st, v))
                    nout += 1
            elif k == "switch":
                self.do_switch(st, fr, blk, t, work)
            elif k == "drop":
                base, projs = self.resolve(st, fr, t["p"])
                v = self.read(st, base, projs)
                if type(base) is tuple or not projs:
                    for g in self.owned_guards(v):
                        self.release(st, g, Ev("release", "drop", (), None, t["s"], b["id"], None, stack))
                if type(base) is tuple and not projs:
                    st.cells.pop(base, None)
                work.append((t["t"], blk, st))
            elif k == "call":
                for s2, v in self.do_call(st, fr, blk, t):
                    if t["t"] is None:
                        continue
                    base, projs = self.resolve(s2, fr, t["d"])
                    ev = None
                    if type(base) is not tuple:
                        ev = Ev("store", None, (), None, t["s"], b["id"], None, stack)
                    self.write(s2, base, projs, v, ev)
                    work.append((t["t"], blk, s2))
            elif k == "assert":
                c = self.operand(st, fr, t["o"])
                r = self.truth(st, c)
                if r is not None and r != t["e"]:
                    self.emit(st, Ev("panic", t["m"], (c,), None, t["s"], b["id"], None, stack))
                    continue
                if r is None:
                    self.emit(st, Ev("mayassert", t["m"], (self.snap(st, c),), None, t["s"], b["id"], None, stack))
                    if t["m"] not in ("other",):
                        self.assume(st, c, t["e"])
                work.append((t["t"], blk, st))
            elif k in ("unreachable", "resume", "abort"):
                pass
            else:
                self.unmodelled[k] = self.unmodelled.get(k, 0) + 1
        if len(outs) > 4:
            outs = self.join_outs(st, b, ctx, outs, tuple(x.id for x in args))
        del self.chain[depth:]
        return outs

    def covered(self, seen, st):
        """Was a state that is at least as general as st already explored here?"""
        k = (frozenset(st.cells.items()), frozenset(st.heap.items()), frozenset(st.rules.items()), st.held)
        fs = frozenset(st.facts.items())
        l = seen.setdefault(k, [])
        for f in l:
            if f <= fs:
                return True
        l.append(fs)
        return False

    def join_outs(self, st, b, ctx, outs, argk=()):
        """Fewer results of a call: drop those covered by others; join those that differ in values only."""
        live = {}
        for s, v in outs:
            self.prune_facts(s, v)
            k = (frozenset(s.cells.items()), frozenset(s.heap.items()), frozenset(s.rules.items()), s.held)
            live.setdefault(k, []).append((s, v))
        r = []
        for l in live.values():
            l.sort(key=lambda x: len(x[0].facts))
            keep = []
            for s, v in l:
                fs = frozenset(s.facts.items())
                if not any(v is v2 and f2 <= fs for s2, v2, f2 in keep):
                    keep.append((s, v, fs))
            if len(keep) > self.join_at:
                groups = {}
                for s, v, fs in keep:
                    groups.setdefault(self.shape(v, 3), []).append((s, v, fs))
                keep = []
                for sh, g in groups.items():
                    if len(g) == 1 or (len(g) <= 2 * self.join_at and v.op == "c" and v.a[0][0] == "b"):
                        keep += g
                        continue
                    s = g[0][0]
                    common = g[0][2]
                    for _, _, f in g[1:]:
                        common = common & f
                    s.facts = dict(common)
                    v = self.join_vals([x[1] for x in g], (ctx, b["id"], "ret") + argk, 3)
                    keep.append((s, v, common))
            r += [(s, v) for s, v, _ in keep]
        return r

    def shape(self, v, d):
        if d == 0:
            return "…"
        if v.op == "agg":
            return (v.a[0], v.a[1]) + tuple(self.shape(x, d - 1) for x in v.a[2])
        if v.op == "tup":
            return ("tup",) + tuple(self.shape(x, d - 1) for x in v.a[0])
        if v.op == "c" and v.a[0][0] == "b":
            return v
        if v.op in ("guard", "ref", "clo") or v.hasref or self.owned_guards(v):
            return v
        return "…"

    def join_vals(self, vs, key, d):
        a = vs[0]
        if all(x is a for x in vs):
            return a
        if d and a.op == "agg" and all(x.op == "agg" and x.a[:2] == a.a[:2] for x in vs):
            return mk("agg", a.a[0], a.a[1], tuple(self.join_vals([x.a[2][i] for x in vs], key + (a.a[0], a.a[1], i), d - 1)
                                                   for i in range(len(a.a[2]))))
        if d and a.op == "tup" and all(x.op == "tup" and len(x.a[0]) == len(a.a[0]) for x in vs):
            return mk("tup", tuple(self.join_vals([x.a[0][i] for x in vs], key + (i,), d - 1)
                                   for i in range(len(a.a[0]))))
        alts = sorted(set(vs), key=lambda x: x.id)
        ph = mk("phi", key)
        for x in alts:
            self.add_phi(ph, x)
        return ph

    def add_phi(self, ph, v):
        if v is ph:
            return
        s = self.phi_in.setdefault(ph, set())
        if v not in s:
            s.add(v)
            self.phi_grown = True

    def at_head(self, st, fr, blk, is_back, widened):
        lk = (fr.depth, blk)
        st.loops["cur"] = lk
        if not is_back or lk not in st.loops:
            st.loops[lk] = (dict(st.cells), dict(st.heap))
            return
        self.emit(st, Ev("back", fr.b["id"], (), None, (None, 0), fr.b["id"], None, fr.stack, extra=lk))
        cells, heap = st.loops[lk]
        cells, heap = dict(cells), dict(heap)
        for src in (cells, heap):
            for v in list(src.values()):
                if v.op == "phi" and v.a[0][:3] == (fr.ctx, fr.b["id"], blk):
                    st.rename(v, mk("old", C(("s", "it")), v))
        for name, cur, snap in (("c", st.cells, cells), ("h", st.heap, heap)):
            for k in list(cur):
                v = cur[k]
                o = snap.get(k)
                if o is None:
                    snap[k] = v
                    continue
                if v is o and (name, k) not in widened:
                    continue
                if self.finite(v) and self.finite(o) and (name, k) not in widened:
                    continue
                if self.owned_guards(v):
                    continue
                widened.add((name, k))
                if v.op == "it" and o.op == "it" and v.a[:2] == o.a[:2]:
                    cur[k] = snap[k] = mk("it", v.a[0], v.a[1], C(("i", -1 if -1 in (cval(v.a[2]), cval(o.a[2])) else -2)))
                    continue
                if o.op == "phi" and o.a[0][:3] == (fr.ctx, fr.b["id"], blk):
                    ph = o
                else:
                    ks = str(k) if name == "c" else "%d:%s" % (k[0].id, k[1])
                    ph = mk("phi", (fr.ctx, fr.b["id"], blk, name, ks))
                    # a value of an earlier run of this loop
                    st.rename(ph, mk("old", C(("s", "it")), ph))
                    v, o = cur[k], subst(o, ph, mk("old", C(("s", "it")), ph))
                    self.add_phi(ph, self.snap(st, o))
                self.add_phi(ph, self.snap(st, v))
                which = self.which_option(st, v)
                if which is not None and self.few_options(ph):
                    st.facts[mk("discr", ph)] = ("=", which)
                cur[k] = ph
                snap[k] = ph
        st.loops[lk] = (cells, heap)
        self.prune_facts(st)

    def few_options(self, ph):
        """Is this one of the first two optional variables that change in its loop?"""
        if not self.option_facts:
            return False
        s = self.options_at.setdefault(ph.a[0][:3], [])
        if ph not in s and len(s) < 2:
            s.append(ph)
        return ph in s

    def which_option(self, st, v):
        """Is an optional value known to be None (0) or Some (1) on this path?"""
        if v.op == "agg":
            return v.a[1] if v.a[0] == "std::option::Option" else None
        f = st.facts.get(mk("discr", v))
        return f[1] if f is not None and f[0] == "=" and f[1] in (0, 1) and self.discr_ty.get(v, "").startswith("std::option::Option") else None

    def finite(self, v):
        if v.op == "c":
            return v.a[0][0] == "b"
        if v.op == "agg":
            return not v.a[2]
        return v.op in ("uninit", "moved")

    def prune_facts(self, st, extra=None):
        live = set()
        if extra is not None:
            live |= extra.atoms
        for v in st.cells.values():
            live |= v.atoms
        for k, v in st.heap.items():
            live |= v.atoms | k[0].atoms

        def add(x):
            if type(x) is T:
                live.update(x.atoms)
            elif type(x) in (tuple, frozenset):
                for y in x:
                    add(y)
        for v in st.rules.values():
            add(v)
        live.update(st.held)
        for k in [k for k in st.facts if k.atoms and not (k.atoms <= live) and not self.kept(k)]:
            del st.facts[k]

    def kept(self, k):
        if not self.keepers:
            return False
        r = self.keepmemo.get(k)
        if r is None:
            r = self.keepmemo[k] = any(f(k) for f in self.keepers)
        return r

    def do_switch(self, st, fr, blk, t, work):
        v = self.snap(st, self.operand(st, fr, t["o"]))
        c = cval(v)
        targets = t["v"]
        if c is not None:
            ci = int(c)
            for val, tgt in targets:
                if int(val) == ci:
                    work.append((tgt, blk, st))
                    return
            work.append((t["e"], blk, st))
            return
        isb = len(targets) == 1 and targets[0][0] == "0" and v.op not in ("discr",) and self.boolish(v)
        if isb:
            for val, tgt in ((False, targets[0][1]), (True, t["e"])):
                s2 = st.copy()
                if self.assume(s2, v, val):
                    self.branch(s2, fr, t["s"], v, val)
                    work.append((tgt, blk, s2))
            return
        s0 = st
        vals = []
        for val, tgt in targets:
            s2 = s0.copy()
            iv = int(val)
            vals.append(iv)
            if self.assume_val(s2, v, iv, True):
                self.branch(s2, fr, t["s"], v, iv)
                work.append((tgt, blk, s2))
        s2 = s0.copy()
        for iv in vals:
            if not self.assume_val(s2, v, iv, False):
                return
        if fr.b["blocks"][t["e"]]["t"]["k"] != "unreachable" or fr.b["blocks"][t["e"]]["st"]:
            self.branch(s2, fr, t["s"], v, ("other", tuple(vals)))
            work.append((t["e"], blk, s2))

    def boolish(self, v):
        return True

    def branch(self, st, fr, loc, v, val):
        st.trace = ((fr.b["id"], loc, v, val), st.trace)
        for r in self.rules:
            f = getattr(r, "on_branch", None)
            if f:
                f(self, st, v, val, loc, fr.b["id"])

    def trace(self, st, c, v, val):
        if c is not None:
            st.trace = ((c.fr.b["id"], c.loc, v, val), st.trace)

    def length(self, v):
        v = strip(v)
        if v.op == "arr":
            return C(("i", len(v.a[0])))
        k = cval(v)
        if type(k) in (str, bytes):
            return C(("i", len(k if type(k) is bytes else k.encode())))
        if v.op == "op" and v.a[0] == "emptymap":
            return C(("i", 0))
        if v.op == "it" and not v.a[1]:
            return self.length(v.a[0])
        return mk("op", "len", v)

    def derived(self, bid):
        return bool(self.p.bodies[bid].get("derived"))

    def add_spawn(self, st, clo, c):
        """A new thread: analysed as a root of its own."""
        for a in list(clo.atoms):
            if a.op == "guard":
                clo = subst(clo, a, mk("xguard", a.a[0], a.a[1]))
        if clo not in self.spawn_seen:
            self.spawn_seen.add(clo)
            self.spawned.append((clo, c.fr.stack))

    # ---------------------------------------------------------------- calls
    def do_call(self, st, fr, blk, t):
        f = t["f"]
        args = [self.operand(st, fr, a) for a in t["a"]]
        site = "%s@%s.%d" % (fr.ctx, short(fr.b["id"])[-40:], blk)
        if f["k"] != "fn":
            fv = self.operand(st, fr, f)
            return self.call_value(st, fr, fv, args, site, t["s"])
        c = Call()
        c.f = f
        c.args = args
        c.site = site
        c.loc = t["s"]
        c.fr = fr
        c.ret_ty = t["d"]["t"]
        c.target = t["t"]
        c.argtys = [a["p"]["t"] if a["k"] in ("copy", "move") else a.get("t") for a in t["a"]]
        return self.call_fn(st, c)

    def call_fn(self, st, c):
        f = c.f
        c.n, c.r, c.item, c.trait = f["n"], f["r"], f["item"], f["trait"]
        fr = c.fr
        # constructor functions used as values
        h = self.models.lookup(self, c)
        if h is not None:
            r = h(self, st, c)
            if r is not None:
                return r
        bid = c.r if c.r in self.p.bodies else (c.n if c.n in self.p.bodies else None)
        if bid is not None and not any(o.search(bid) for o in self.opaque):
            b = self.p.bodies[bid]
            if b["kind"] == "closure":
                return self.call_value(st, fr, c.args[0], c.args[1:], c.site, c.loc, tupled=True)
            if bid not in fr.stack or not b["local"]:
                if b["local"]:
                    self.emit(st, Ev("enter", bid, tuple(self.snap(st, a) for a in c.args), None, c.loc, fr.b["id"], f, fr.stack, site=c.site))
                cenv = self.cenv
                self.cenv = self.const_args(f)
                outs = self.exec_body(st, b, c.args, fr.depth + 1, c.site if b["local"] or True else fr.ctx,
                                      fr.stack + (bid,) if b["local"] else fr.stack)
                self.cenv = cenv
                if b["local"]:
                    for s2, v in outs:
                        self.emit(s2, Ev("leave", bid, (), self.snap(s2, v), c.loc, fr.b["id"], f, fr.stack, site=c.site))
                return outs
        return self.external(st, c)

    def call_value(self, st, fr, fv, args, site, loc, tupled=False):
        fv = strip(fv)
        n = 0
        while fv.op == "ref" and n < 10:
            fv = strip(self.load(st, fv))
            n += 1
        if tupled:
            a0 = args[0] if args else UNIT
            if a0.op == "ref":
                a0 = self.load(st, a0)
            if a0.op == "tup":
                args = list(a0.a[0])
            else:
                args = [a0]
        if fv.op == "clo":
            b = self.p.bodies.get(fv.a[0])
            if b is not None and fr.stack.count(fv.a[0]) < 2:
                k = b["argc"] - 1
                args = (list(args) + [mk("opq", "missing")] * k)[:k]
                return self.exec_body(st, b, [fv] + list(args), fr.depth + 1, site, fr.stack + (fv.a[0],))
        if fv.op == "fn":
            f = fv.a[1].v
            c = Call()
            c.f, c.args, c.site, c.loc, c.fr = f, list(args), site + "!", loc, fr
            c.ret_ty = None
            c.target = 0
            c.argtys = [None] * len(args)
            # tuple-struct / variant constructors
            owner = f["n"]
            for adt, vi, names in self.owners(owner):
                if len(names) == len(args):
                    return [(st, mk("agg", adt, vi, tuple(args)))]
            return self.call_fn(st, c)
        t = mk("call", "<dyn>", site, tuple(self.snap(st, a) for a in [fv] + list(args)))
        self.fresh(st, t)
        self.emit(st, Ev("call", "<dyn>", t.a[2], t, loc, fr.b["id"], None, fr.stack, site=site))
        return [(st, t)]

    def external(self, st, c, pure=False, name=None):
        """A call of a function we know nothing about."""
        n = name or c.n
        sargs = tuple(self.snap(st, a) for a in c.args)
        self.ncalls.add((c.fr.b["id"], c.site))
        if c.f.get("t") is None:
            pass
        mutargs = [i for i, a in enumerate(c.args) if a.op == "ref" and a.a[2]]
        closures = [a for a in c.args if strip(a).op == "clo"]
        if not mutargs and (pure or self.models.is_pure(self, c)):
            ret = mk("op", n, *sargs)
        else:
            ret = mk("call", n, c.site, sargs)
            self.fresh(st, ret)
        ev = Ev("call", n, sargs, ret, c.loc, c.fr.b["id"], c.f, c.fr.stack, site=c.site, extra=c)
        self.emit(st, ev)
        # guards moved into an unknown function are released by it
        for i, a in enumerate(c.args):
            for g in self.owned_guards(a):
                self.release(st, g, Ev("release", n, (), None, c.loc, c.fr.b["id"], None, c.fr.stack))
        if self.models.diverges(self, c):
            return []
        builder = False
        if mutargs and c.ret_ty is not None and c.argtys and c.argtys[0] is not None:
            t0, tr = self.p.types[c.argtys[0]], self.p.types[c.ret_ty]
            if t0["k"] == "ref" and t0["m"] and tr["k"] == "ref" and tr["m"] and t0["t"] == tr["t"]:
                builder = True
        for i in mutargs:
            a = c.args[i]
            if builder and i == 0:
                new = mk("op", n, *sargs)
            else:
                new = mk("out", n, c.site, C(("i", i)), sargs)
                self.fresh(st, new)
            self.write(st, a.a[0], a.a[1], new)
        if builder:
            return [(st, c.args[0])]
        outs = [(st, ret)]
        # closures handed to unknown functions may or may not be called
        for cl in closures:
            b = self.p.bodies.get(strip(cl).a[0])
            if b is None or not b["local"]:
                continue
            more = []
            for s, v in outs:
                s2 = s.copy()
                params = [mk("op", "carg", v, C(("i", i))) for i in range(b["argc"] - 1)]
                for s3, _ in self.call_value(s2, c.fr, cl, params, c.site + "?", c.loc):
                    more.append((s3, v))
            outs = outs + more
        return outs


class _Box:
    """Carries a JSON value inside a term; compared by function path."""
    __slots__ = ("v", "k")

    def __init__(self, v):
        self.v = v
        self.k = (v["n"], v["r"], tuple(v["a"]))

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return type(o) is _Box and o.k == self.k

    def __repr__(self):
        return ""
