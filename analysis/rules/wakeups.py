"""C14: no lost wake-ups.

Whoever makes work for one of the three sleeping threads owes it a wake-up: a store of true into the mutex that the thread
checks, and a notification of its condition variable that comes after the store (or in the same critical section).  The wake-up
is due before the thread that owes it blocks, ends, or goes for its next request.  A thread may only wait while it holds the
mutex, having found it false since it last acquired it, and must have looked for work since it last stored false."""
from rules.common import *
from rules.events import raw_store, CHANGES

SLEEPERS = ("Notifier", "Refresher", "Eventer")
OBJ = re.compile(r"(?:^|[:.])(%s)\.\w+$" % "|".join(SLEEPERS))
TEXT = {"Notifier": "the thread that announces authentications", "Refresher": "the thread that refreshes tokens",
        "Eventer": "the thread that runs event commands"}


def record(t):
    """The object whose record (mutex) the guarded value t belongs to: (object, guard)."""
    t = E.strip(t)
    if t.op == "mval" and t.a[0].op in ("guard", "xguard"):
        m = OBJ.search(t.a[0].a[0])
        if m:
            return m.group(1), t.a[0]
    return None, None


def condvar_of(t):
    t = E.strip(t)
    m = OBJ.search(fname(t)) if t.op == "fld" else None
    return m.group(1) if m else None


class C14(Rule):
    prop = "C14"

    def __init__(self):
        super().__init__()
        self.need = {"changes that need a wake-up": 8, "wake-ups": 8, "waits": 3, "records cleared": 3}
        self.waits, self.clears = set(), set()
        self.keeps = lambda k: k.op == "discr" and config_field(k.a[0]) == "token_event_cmd"

    def todo(self, st):
        return self.get(st, "todo") or frozenset()

    def owe(self, eng, st, ev, o):
        self.saw("changes that need a wake-up", "%s at %s" % (o, where2(ev)))
        u = self.get(st, ("under", o))
        if u is not None and u in st.held:
            return
        self.put(st, "todo", self.todo(st) | {o})

    def due(self, eng, st, ev, what):
        for o in sorted(self.todo(st)):
            self.bad(eng, st, ev, "%s not woken before %s in %s" % (o, what, short(ev.fn)),
                     "%s is not woken after a change that concerns it: the change is followed by %s" % (TEXT[o], what))
        self.put(st, "todo", None)

    def on(self, eng, st, ev):
        k = ev.kind
        if k == "prim" and ev.name in CHANGES:
            self.change(eng, st, ev)
        elif k == "store":
            self.store(eng, st, ev)
        elif k in ("push", "insert"):
            if self.queue(ev.args[0]):
                self.owe(eng, st, ev, "Eventer")
        elif k == "release":
            for o in SLEEPERS:
                g = ev.args[0] if ev.args else None
                if g is not None:
                    if self.get(st, ("under", o)) is g:
                        self.put(st, ("under", o), None)
                    if self.get(st, ("nfirst", o)) is g:
                        self.put(st, ("nfirst", o), None)
        elif k == "acquire":
            if GLOBAL in ev.name:
                for o in ("Notifier", "Refresher"):
                    self.put(st, ("look", o), None)
        elif k == "call":
            n = nm(ev)
            if re.search(r"Condvar::notify_(one|all)$", n):
                self.notify(eng, st, ev)
            elif re.search(r"VecDeque::(pop_front|pop_back|drain|remove|iter|swap\w*)$|mem::(take|replace|swap)$", n) and any(self.queue(x) for x in ev.args):
                self.put(st, ("look", "Eventer"), None)
                self.put(st, "pop", ev.ret)
            else:
                b = blocking(eng, ev)
                if b:
                    self.due(eng, st, ev, {"io": "reading or writing a stream", "network": "a network request", "child": "running a command",
                                           "sleep": "sleeping", "connect": "connecting"}[b])
        elif k == "cond_wait":
            self.wait(eng, st, ev)
        elif k == "next" and source(ev.args[0])[0] == "incoming":
            self.due(eng, st, ev, "waiting for the next connection")
        elif k == "exit":
            self.due(eng, st, ev, "the end of the thread")

    def queue(self, t):
        return any(x.op == "mval" and "event_queue" in str(x.a[0].a[0]) for x in subterms(t) if x.op == "mval" and x.a[0].op in ("guard", "xguard"))

    # ---- changes
    def change(self, eng, st, ev):
        v, d = new_state(eng, st, ev)
        if ev.name == "tokenstate_set_last_notification":
            return
        if v in ("Pending", None):
            self.owe(eng, st, ev, "Notifier")
        if v in ("Active", "ongoing", None):
            og = d.get("ongoing_refresh")
            if og is not None:
                og = E.strip(og)
                if self.yes(st, og):
                    return
                if v == "Active" and fname(og).endswith("Active.ongoing_refresh") and ts_base(og.a[0]):
                    return          # as it was
            self.owe(eng, st, ev, "Refresher")

    def yes(self, st, t):
        return cval(t) in (True, 1) or st.facts.get(t) in (("=", True), ("=", 1))

    def store(self, eng, st, ev):
        o, g = record(ev.args[0])
        if o and "event_queue" not in g.a[0]:
            v = E.strip(ev.args[2])
            if self.yes(st, v):
                self.saw("wake-ups", "%s at %s" % (o, where2(ev)))
                if self.get(st, ("nfirst", o)) is g:
                    self.woken(st, o)
                else:
                    self.put(st, ("set", o), True)
            elif cval(v) in (False, 0) or st.facts.get(v) == ("=", False):
                self.saw("records cleared", o + " at " + where(ev))
                self.clears.add(o)
                self.put(st, ("look", o), True)
                if self.get(st, ("set", o)):
                    self.put(st, ("set", o), None)
            return
        p = raw_store(ev)
        if p and (len(p) == 1 and p[0].split(".")[1] in ("config", "details")):
            self.owe(eng, st, ev, "Notifier")
            self.owe(eng, st, ev, "Refresher")
        elif p and p[0] == "LockedState.details" and p[-1] in ("2", 2):
            v = eng.variant(st, ev.args[2])
            if v != "Empty":
                if v != "Active":
                    self.owe(eng, st, ev, "Notifier")
                if v != "Pending":
                    self.owe(eng, st, ev, "Refresher")

    # ---- wake-ups
    def notify(self, eng, st, ev):
        o = condvar_of(ev.args[0])
        if o is None:
            return
        if self.get(st, ("set", o)):
            self.woken(st, o)
            self.put(st, ("set", o), None)
        else:
            for g in st.held:
                m = OBJ.search(g.a[0])
                if m and m.group(1) == o and "event_queue" not in g.a[0]:
                    self.put(st, ("nfirst", o), g)

    def woken(self, st, o):
        self.put(st, "todo", (self.todo(st) - {o}) or None)
        g = held_global(st)
        if g:
            self.put(st, ("under", o), g[0])

    # ---- sleeping
    def wait(self, eng, st, ev):
        self.due(eng, st, ev, "waiting")
        o = condvar_of(ev.args[0])
        if o is None:
            self.bad(eng, st, ev, "wait in %s" % short(ev.fn), "a thread waits for an unknown condition: %s" % show(ev.args[0], 4))
            return
        gs = [g for g in ev.extra if OBJ.search(g.a[0])]
        mine = [g for g in gs if OBJ.search(g.a[0]).group(1) == o and "event_queue" not in g.a[0]]
        self.waits.add(o)
        self.saw("waits", o + " at " + where(ev))
        if not mine:
            self.bad(eng, st, ev, "mutex of %s" % o, "%s waits with another mutex than the one wake-ups are recorded under" % TEXT[o])
            return
        ok = False
        for g in mine:
            m = mk("mval", g)
            if "while" in ev.name.split("::")[-1]:
                rules, eng.rules = eng.rules, []
                try:
                    rs = []
                    for s, v in eng.call_value(st.copy(), eng.fr0, ev.args[-1], [mk("ref", M.guard_base(g), (), True)], "rule", None):
                        if eng.assume(s, eng.snap(s, v), True):
                            rs.append(s.facts.get(m) == ("=", False))
                    ok = ok or bool(rs) and all(rs)
                finally:
                    eng.rules = rules
            elif st.facts.get(m) == ("=", False):
                ok = True
        if not ok:
            self.bad(eng, st, ev, "%s waits unchecked" % o, "%s may wait although a wake-up was already recorded (the record was not found false since the lock was taken)" % TEXT[o])
        if self.get(st, ("look", o)):
            self.bad(eng, st, ev, "%s waits without looking" % o, "%s waits without having looked for work since it last cleared the record of wake-ups" % TEXT[o])
        p = self.get(st, "pop")
        if o == "Eventer" and p is not None:
            self.drained(eng, st, ev, p)

    def drained(self, eng, st, ev, p):
        """Was the queue left empty (or is there no command to run)?"""
        self.saw("waits after emptying the queue", where(ev))
        for k, v in st.facts.items():
            if k.op == "discr" and v in (("=", 0), ("=", "0")):
                x = E.strip(k.a[0])
                if x is E.strip(p) or config_field(x) == "token_event_cmd":
                    return
        self.bad(eng, st, ev, "queue not emptied", "%s waits although there may be events left in the queue, for which nobody will wake it again" % TEXT["Eventer"])

    def finish(self, eng):
        for o in SLEEPERS:
            if o not in self.waits or o not in self.clears:
                eng.violate(self.prop, "%s never sleeps" % o, "cannot find where %s waits for wake-ups and clears their record" % TEXT[o], None, None)
