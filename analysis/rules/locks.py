"""C05 (nothing blocks under the global lock) and C06 (lock order)."""
from lib import *


class C05(Rule):
    prop = "C05"

    def __init__(self):
        super().__init__()
        self.need = {"acquisitions of the global lock": 5, "blocking operations (network)": 2,
                     "blocking operations (io)": 3, "blocking operations (child)": 2, "condition waits": 2}

    def on(self, eng, st, ev):
        if ev.kind == "acquire" and GLOBAL in ev.name:
            self.saw("acquisitions of the global lock", where2(ev))
        elif ev.kind == "call":
            k = blocking(eng, ev)
            if k:
                self.saw("blocking operations (%s)" % k, where(ev))
                self.gate(eng, st, ev, "%s operation %s" % (k, last(ev, 2)))
        elif ev.kind == "cond_wait":
            self.saw("condition waits", where(ev))
            self.gate(eng, st, ev, "condition wait")
        elif ev.kind == "next" and source(ev.args[0])[0] == "incoming":
            self.gate(eng, st, ev, "accepting a connection")

    def gate(self, eng, st, ev, what):
        for g in held_global(st):
            self.bad(eng, st, ev, "%s in %s" % (what, short(ev.fn)),
                     "%s while the global lock is held (acquired at %s)" % (what, g.a[1].split("@")[-1]))


class C06(Rule):
    prop = "C06"

    def __init__(self):
        super().__init__()
        self.need = {"lock acquisitions": 8, "locks": 4}
        self.edges = {}

    def on(self, eng, st, ev):
        if ev.kind == "acquire":
            self.saw("lock acquisitions", where2(ev))
            self.saw("locks", ev.name)
            for g in ev.extra:
                if g.a[0] == ev.name:
                    if "try_lock" not in (ev.f or {}).get("n", ""):
                        self.bad(eng, st, ev, "%s twice in %s" % (short(ev.name), short(ev.fn)),
                                 "lock %s is acquired while this thread already holds it" % short(ev.name))
                else:
                    self.edges.setdefault((g.a[0], ev.name), (ev, st.trace))
                    self.saw("nestings", "%s -> %s" % (short(g.a[0]), short(ev.name)))
        elif ev.kind == "cond_wait":
            w = set(g.a[0] for g in ev.extra)
            for g in st.held:
                if g not in ev.extra:
                    for c in w:
                        self.edges.setdefault((g.a[0], c), (ev, st.trace))
                    self.bad(eng, st, ev, "wait holding %s" % short(g.a[0]),
                             "a thread waits for a condition while it holds another lock (%s)" % short(g.a[0]))

    def finish(self, eng):
        succ = {}
        for a, b in self.edges:
            succ.setdefault(a, set()).add(b)
        for (a, b), (ev, tr) in sorted(self.edges.items()):
            seen, work = set(), [b]
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                work += list(succ.get(x, ()))
            if a in seen:
                eng.violate(self.prop, "cycle %s" % " ".join(sorted([short(a), short(b)])),
                            "locks are nested in conflicting orders: %s -> %s and back" % (short(a), short(b)), ev, None)
