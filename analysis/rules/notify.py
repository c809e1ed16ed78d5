"""Commands and the threads that run them: C17 (what is run), C29 (announcements)."""
from rules.common import *

PURPOSE = {"token_event_cmd": {"PIZAUTH_ACCOUNT", "PIZAUTH_EVENT"},
           "auth_notify_cmd": {"PIZAUTH_ACCOUNT", "PIZAUTH_URL"},
           "error_notify_cmd": {"PIZAUTH_ACCOUNT", "PIZAUTH_MSG"},
           "transient_error_if_cmd": {"PIZAUTH_ACCOUNT"}}
PROC = re.compile(r"(CommandExt::\w+|nix::unistd::(exec\w*|fork\w*)|libc::(exec\w*|fork|vfork|system|popen|posix_spawn\w*)|nix::spawn::\w+)$")


def is_name(t):
    a = account_field(t)
    return a is not None and a[1] == "name"


def queued(t, j):
    """Is t part j of an element taken from a queue?"""
    return t.op == "fld" and t.a[1] in (j, str(j)) and some_of(t.a[0]) is not None and \
        re.search(r"pop_front$|pop_back$|remove$|recv$", callee(E.strip(some_of(t.a[0])))) is not None


WORDS = {"Invalidated": "token_invalidated", "New": "token_new", "Refresh": "token_refreshed", "Revoked": "token_revoked"}


def event_variant(eng, n):
    for k, ad in eng.p.adts.items():
        if k.split("::")[-1] == EVENT and ad["kind"] == "enum":
            for v in ad["v"]:
                if int(v["d"]) == n:
                    return v["n"]
    return None


def queued_event(eng, st, v):
    """The event (taken from the queue) whose name v is: v is the event (whose conversion to text is checked on its own) or a
    constant chosen for that kind of event."""
    v = E.strip(v)
    if queued(v, 1):
        return v
    s = text(v)
    if s is not None:
        for k, f in st.facts.items():
            if (k.op == "discr" or k.op == "op" and k.a[0] == "discr") and f[0] == "=" and queued(E.strip(k.a[-1]), 1) and WORDS.get(event_variant(eng, f[1])) == s:
                return E.strip(k.a[-1])
    return None


def deref(eng, t):
    """The values of t, if it was taken from a list on this path."""
    return alts(eng, t)


class C17(Rule):
    prop = "C17"

    def __init__(self):
        super().__init__()
        self.need = {"commands started": 4}

    def start(self, eng):
        self.fields = set()
        # nothing outside what is analysed may start a program either
        for b in eng.p.local:
            for x in callees(eng.p)[b["id"]]:
                if PROC.search(M.simp(x)):
                    self.n.setdefault("other ways to start programs", set()).add((b["id"], M.simp(x)))

    def on(self, eng, st, ev):
        if ev.kind != "call":
            return
        n = nm(ev)
        if PROC.search(n):
            self.bad(eng, st, ev, "%s in %s" % (n.split("::")[-1], short(ev.fn)), "a program is started by other means than a shell command")
        if not EXEC.search(n):
            return
        f = short(ev.fn)
        p = cmd_parts(eng, ev.args[0])
        if p is None:
            self.bad(eng, st, ev, "unknown command in %s" % f, "cannot tell which program is started: %s" % show(ev.args[0], 4))
            return
        prog, args, env, other = p
        if other:
            self.bad(eng, st, ev, "%s in %s" % (other[0], f), "a command is started with %s" % "/".join(other))
        s = some_of(prog)
        s = E.strip(s) if s is not None else prog
        if not (re.search(r"env::var(_os)?$", callee(s)) and text(E.strip(cargs(s)[0])) == "SHELL"):
            self.bad(eng, st, ev, "program in %s" % f, "the program that is started is not the user's shell: %s" % show(prog, 4))
        if len(args) != 2 or text(args[0]) != "-c":
            self.bad(eng, st, ev, "arguments in %s" % f, "the shell's arguments are not -c and the command: %s" % ", ".join(show(x, 4) for x in args))
            return
        fs = set(config_field(x) for x in alts(eng, args[1]))
        fld = list(fs)[0] if len(fs) == 1 else None
        if fld not in PURPOSE:
            self.bad(eng, st, ev, "command in %s" % f, "the command that is run is not (exactly) one from the configuration: %s" % show(args[1], 4))
            return
        self.saw("commands started", "%s in %s" % (fld, f))
        if set(env) != PURPOSE[fld]:
            self.bad(eng, st, ev, "environment of %s" % fld, "%s is run with the environment variables %s" % (fld, ", ".join(map(str, sorted(env, key=str)))))
        for k, v in env.items():
            ok = all(self.value(eng, st, k, x) for x in alts(eng, v))
            if not ok:
                self.bad(eng, st, ev, "%s of %s" % (k, fld), "%s has an unexpected value for %s: %s" % (k, fld, show(v, 5)))

    def value(self, eng, st, k, v):
        if k == "PIZAUTH_ACCOUNT":
            return is_name(v) or queued(v, 0)
        if k == "PIZAUTH_URL":
            return fname(v) == "TokenState::Pending.url" or fname(v) == "Pending.url"
        if k == "PIZAUTH_EVENT":
            return queued_event(eng, st, v) is not None
        return True


MARK = "tokenstate_set_last_notification"
PENDING = TS + "::Pending."


def pend_field(t, f):
    """(guard, id) if t is field f of the pending state of an account."""
    t = E.strip(t)
    if t.op == "fld" and t.a[1] == PENDING + f:
        return ts_base(t.a[0])
    return None


def pending_urls(t):
    return [x for x in subterms(t) if x.op == "fld" and x.a[1] == PENDING + "url" and ts_base(x.a[0])]


def instants(eng, t):
    """The instants from which a deadline was computed as a minimum (or the duration until then)."""
    seen, out, work = set(), [], [t]
    while work and len(seen) < 200:
        x = E.strip(work.pop())
        if x in seen:
            continue
        seen.add(x)
        c = callee(x).split("::")[-1]
        y = some_of(x)
        if x.op == "phi":
            work += list(eng.phi_in.get(x, ()))
        elif x.op == "agg" and x.a[0].endswith("Option"):
            work += list(x.a[2])
        elif c == "min" and len(cargs(x)) == 2:
            work += list(cargs(x))
        elif c == "minof":
            work.append(cargs(x)[0])
        elif c in ("saturating_duration_since", "duration_since"):
            work.append(cargs(x)[0])
        elif y is not None and callee(E.strip(y)).split("::")[-1] == "checked_duration_since":
            work.append(cargs(E.strip(y))[0])
        elif y is not None and (E.strip(y).op == "phi"):
            work.append(y)
        elif y is not None and callee(E.strip(y)).split("::")[-1] in ("min", "minof"):
            work.append(y)
        else:
            out.append(x)
    return out


class C29(Rule):
    prop = "C29"

    def __init__(self):
        super().__init__()
        self.need = {"announcements": 1, "announcements recorded": 1, "announcement commands": 1, "waits of the announcing thread": 2,
                     "new pending authentications": 1}
        self.keeps = self.kept

    def kept(self, k):
        if k.op == "discr" and E.strip(k.a[0]).op == "op" and E.strip(k.a[0]).a[0] == "tokenstate":
            return True
        return k.op == "discr" and (fname(k.a[0]).endswith("last_notification") or self.after(k.a[0]) is not None) or \
            k.op == "op" and k.a[0] == "lt" and any(self.after(x) is not None for y in k.a[1:3] for x in (E.strip(y), some_of(E.strip(y))) if x is not None)

    def after(self, t):
        """(guard, id) if t is last notification + the configured interval."""
        t = E.strip(t)
        c = callee(t).split("::")[-1]
        if c in ("checked_add", "add", "Add") and len(cargs(t)) >= 2:
            a, b = cargs(t)[-2:]
            a, b = E.strip(a), E.strip(b)
            if config_field(b) == "auth_notify_interval" and some_of(a) is not None:
                return pend_field(some_of(a), "last_notification")
        return None

    def due(self, eng, st, i):
        """Is account i known to be due for an announcement? True / False / None"""
        r = None
        for k, v in st.facts.items():
            if k.op == "discr":
                x = E.strip(k.a[0])
                p = pend_field(x, "last_notification")
                val = v[1] if v[0] == "=" else (0 if 1 in v[1] else 1)
                if p and same(id_root(p[1]), i) and val == 0:
                    return True
                p = self.after(x)
                if p and same(id_root(p[1]), i) and val == 0:
                    r = False       # the next reminder is beyond the range of the clock
            elif k.op == "op" and k.a[0] == "lt" and v[0] == "=":
                for j in (1, 2):
                    x = E.strip(k.a[j])
                    p = self.after(x) or (some_of(x) is not None and self.after(some_of(x)))
                    o = E.strip(k.a[3 - j])
                    if p and same(id_root(p[1]), i) and NOW.search(callee(o)):
                        # j == 1: last + interval < now;  j == 2: now < last + interval
                        r = bool(v[1]) if j == 1 else not v[1]
        return r

    def announcer(self, eng):
        return thread_reaches(eng, MARK + "$")

    def on(self, eng, st, ev):
        k = ev.kind
        if k == "agg" and ev.name == TS or k == "prim" and ev.name == "tokenstate_replace":
            self.fresh(eng, st, ev)
        if k == "call" and EXEC.search(nm(ev)):
            self.run(eng, st, ev)
        if not self.announcer(eng):
            if k == "prim" and ev.name == MARK:
                self.bad(eng, st, ev, "recorded elsewhere", "an announcement is recorded outside the announcing thread")
            return
        f = short(ev.fn)
        if k == "root":
            for x in ("ann", "mark", "scan", "todo", "cur", "popped"):
                self.put(st, x, None)
        if k == "prim" and ev.name in CHANGES:
            self.bad(eng, st, ev, "change in %s" % f, "announcing an account changes its state")
        self.complete(eng, st, ev)
        if k in ("push", "spawn"):
            ts = pending_urls(ev.args[1]) if k == "push" else [u for x in subterms(ev.extra) for u in pending_urls(x)] if type(ev.extra) is T else []
            ts = [u for u in ts if k == "push" or held_global(st)]
            if ts:
                self.announce(eng, st, ev, ts[0], ev.args[1] if k == "push" else ev.extra)
        elif k == "prim" and ev.name == MARK:
            i = id_root(ev.args[1])
            self.saw("announcements recorded", where2(ev))
            self.check(eng, st, ev, ev.args[0], i, "recorded")
            x = E.strip(ev.args[2])
            if x.op == "agg":
                x = E.strip(x.a[2][0]) if x.a[2] else x
            if not NOW.search(callee(x)):
                self.bad(eng, st, ev, "time in %s" % f, "the time of an announcement is not recorded: %s" % show(ev.args[2], 4))
            self.put(st, "mark", i)
        elif k == "next" and source(ev.args[0])[0] in ("act_ids",) and any(x.endswith(MARK) for x in reach(eng.p, ev.fn)) or \
                k == "release" and lock_is_global(ev.args[0]):
            self.turn(eng, st, ev)
        elif k == "empty":
            self.put(st, "none", True)
        elif k == "call" and POP.search(nm(ev)) and self.get(st, "todo") and self.urls_in(eng, ev.args[0]):
            self.begun(eng, st, ev)
            if self.get(st, "popped") is not None:
                self.bad(eng, st, ev, "not run in %s" % short(ev.fn), "an authentication is recorded as announced but its command may not be run")
            self.put(st, "popped", ev.ret)
        elif k == "call" and blocking(eng, ev) in ("child", "sleep", "network"):
            self.bad(eng, st, ev, "blocked in %s" % f, "the announcing thread waits for something else than the next announcement")
        elif k == "cond_wait":
            self.wait(eng, st, ev)
        elif k == "acquire" and lock_is_global(ev.args[0]):
            self.put(st, "none", None)

    def urls_in(self, eng, t):
        """May t hold announcements?"""
        seen, work = set(), [t]
        while work and len(seen) < 200:
            x = work.pop()
            for y in subterms(x):
                if y in seen:
                    continue
                seen.add(y)
                if y.op == "phi":
                    work += list(eng.phi_in.get(y, ()))
                elif pending_urls(y):
                    return True
        return False

    def begun(self, eng, st, ev):
        """The announcing thread has finished with what it took from its list of announcements."""
        if self.get(st, "cur") == "open":
            self.bad(eng, st, ev, "not run in %s" % short(ev.fn), "an authentication is recorded as announced but its command may not be run")
        self.put(st, "cur", None)

    def complete(self, eng, st, ev):
        """Every pending account is looked at, and every announcement that was collected is made."""
        k, f = ev.kind, short(ev.fn)
        if k in ("elem", "exhausted", "next", "skip") and ev.name == "next" or k == "skip":
            it = ev.args[0]
            n, s = source(it)
            rest = n == "rest"
            while s.op == "op" and s.a[0] == "rest":
                n, s = source(s.a[1])
            if n == "act_ids":
                if any(x.endswith(MARK) for x in reach(eng.p, ev.fn)):
                    if k == "skip" or partial(it) or rest:
                        self.bad(eng, st, ev, "some in %s" % f, "some accounts are left out when pending ones are announced")
                    self.put(st, "scan", None if k == "exhausted" else "open")
            elif self.get(st, "todo") and type(it) is T and self.urls_in(eng, it):
                if k == "skip" or partial(it):
                    self.bad(eng, st, ev, "some announcements in %s" % f, "some announcements are recorded but not made")
                if k in ("next", "exhausted"):
                    self.begun(eng, st, ev)
                if k == "elem":
                    self.put(st, "cur", "open")
                elif k == "exhausted":
                    self.put(st, "todo", None)
        elif k == "release" and lock_is_global(ev.args[0]):
            if self.get(st, "scan") == "open":
                self.bad(eng, st, ev, "left early in %s" % f, "accounts may not be announced since not all are looked at")
            self.put(st, "scan", None)
        elif k == "push" and pending_urls(ev.args[1]):
            self.put(st, "todo", True)
        elif k == "spawn" and type(ev.extra) is T and any(pending_urls(x) or x is self.get(st, "popped") for x in subterms(ev.extra)) or \
                k == "call" and EXEC.search(nm(ev)) and (cmd_parts(eng, ev.args[0]) or ({}, {}, {}))[2].get("PIZAUTH_URL") is not None:
            if self.get(st, "cur"):
                self.put(st, "cur", None)
            if self.get(st, "popped") is not None:
                self.put(st, "popped", None)
        elif k == "cond_wait":
            p = self.get(st, "popped")
            if self.get(st, "todo") and not (p is not None and any(x is E.strip(p) and v == 0 for x, v in discr_of(st, lambda x: True))):
                self.bad(eng, st, ev, "not made in %s" % f, "an announcement that was recorded may not be made before the thread waits for others")
            self.put(st, "todo", None)
            self.put(st, "popped", None)

    def check(self, eng, st, ev, g, i, what):
        f = short(ev.fn)
        vs = old_variants(eng, st, g, i)
        if vs != ["Pending"]:
            self.bad(eng, st, ev, "%s in %s" % (what, f), "an account is %s although it may not be pending" % what)
        elif self.due(eng, st, i) is not True and self.get(st, "mark") is not i:
            self.bad(eng, st, ev, "%s early in %s" % (what, f), "an account is %s although the configured interval may not have passed" % what)

    def announce(self, eng, st, ev, url, what):
        g, i = ts_base(url.a[0])
        i = id_root(i)
        self.saw("announcements", where2(ev))
        self.check(eng, st, ev, g, i, "announced")
        names = [x for x in subterms(what) if is_name(x)]
        if not names or any(not same(id_root(account_field(x)[0].a[2]), i) for x in names):
            self.bad(eng, st, ev, "name in %s" % short(ev.fn), "an authentication is announced with the name of another account")
        self.put(st, "ann", i)

    def turn(self, eng, st, ev):
        a, m = self.get(st, "ann"), self.get(st, "mark")
        f = short(ev.fn)
        if a is not None and a is not m:
            self.bad(eng, st, ev, "not recorded in %s" % f, "an account is announced but that is not recorded, so it will be announced over and over again")
        if m is not None and a is not m and not any(k.op == "discr" and fname(k.a[0]).endswith("Config.auth_notify_cmd") and v in (("=", 0),)
                                                    for k, v in st.facts.items()):
            self.bad(eng, st, ev, "not announced in %s" % f, "an announcement is recorded but may not be made")
        if ev.kind == "next":
            if self.get(st, "turn") and m is None and a is None:
                self.saw("accounts passed over", f)
                if not self.passed(eng, st):
                    self.bad(eng, st, ev, "passed over in %s" % f, "a pending account that is due may not be announced")
            self.put(st, "turn", True)
        else:
            self.put(st, "turn", None)
        self.put(st, "ann", None)
        self.put(st, "mark", None)

    def passed(self, eng, st):
        """Is the account that was just passed over known not to be pending, or not to be due?"""
        for k in list(st.facts):
            for x in subterms(k):
                if x.op == "op" and x.a[0] == "tokenstate":
                    if "Pending" not in old_variants(eng, st, x.a[1], x.a[2]) or self.due(eng, st, id_root(x.a[2])) is False:
                        return True
        return False

    def run(self, eng, st, ev):
        p = cmd_parts(eng, ev.args[0])
        if p is None:
            return
        env = p[2]
        if "PIZAUTH_URL" not in env:
            return
        f = short(ev.fn)
        self.saw("announcement commands", where2(ev))
        us = pending_urls(env["PIZAUTH_URL"])
        nmx = env.get("PIZAUTH_ACCOUNT")
        a = account_field(nmx) if nmx is not None else None
        if not us or a is None or a[1] != "name" or not same(id_root(ts_base(us[0].a[0])[1]), id_root(a[0].a[2])):
            self.bad(eng, st, ev, "environment in %s" % f, "a command announces an account with the URL of another one")
        if self.announcer(eng) and not nm(ev).endswith("spawn"):
            self.bad(eng, st, ev, "run in %s" % f, "the announcing thread waits for an announcement command")
        if self.get(st, "ran") and not nm(ev).endswith("spawn"):
            self.bad(eng, st, ev, "one after another in %s" % f, "an announcement command has to wait for another one to finish")
        self.put(st, "ran", True)

    def fresh(self, eng, st, ev):
        """A newly pending authentication has not been announced."""
        if ev.kind == "agg":
            return
        n, d = new_state(eng, st, ev)
        if n != "Pending":
            return
        self.saw("new pending authentications", where2(ev))
        x = E.strip(d["last_notification"])
        b = pend_field(x, "last_notification")
        if not (x.op == "agg" and x.a[1] == 0) and not (b and id_root(b[1]) is id_root(ev.args[1])):
            self.bad(eng, st, ev, "announced already in %s" % short(ev.fn), "a new pending authentication counts as announced: %s" % show(x, 4))

    def wait(self, eng, st, ev):
        f = short(ev.fn)
        self.saw("waits of the announcing thread", where2(ev))
        if nm(ev).endswith("wait_timeout") or nm(ev).endswith("wait_timeout_while"):
            d = ev.args[2] if len(ev.args) > 2 else None
            l = instants(eng, d) if d is not None else []
            good = 0
            for x in l:
                y = some_of(x)
                if self.after(y if y is not None else x):
                    good += 1
                elif NOW.search(callee(x)):
                    good += 1
                elif y is not None and callee(E.strip(y)).endswith("checked_add") and NOW.search(callee(E.strip(cargs(E.strip(y))[0]))):
                    pass
                else:
                    self.bad(eng, st, ev, "deadline in %s" % f, "the announcing thread sleeps until %s" % show(x, 5))
            if not good:
                self.bad(eng, st, ev, "no deadline in %s" % f, "the announcing thread's wait does not depend on when an account is due")
        elif not self.get(st, "none") and not any(k.op == "discr" and v in (("=", 0),) and E.strip(k.a[0]).op == "phi" for k, v in st.facts.items()):
            self.bad(eng, st, ev, "wait in %s" % f, "the announcing thread may sleep indefinitely although an account is pending")


EVENT = "TokenEvent"
# Operations by which something in the middle of a queue is changed, taken out or moved
MEDDLE = re.compile(r"(VecDeque|Vec|LinkedList|BinaryHeap)(::<.*?>)?::(iter_mut|get_mut|make_contiguous|clear|retain|retain_mut|truncate|swap|rotate_left|rotate_right|"
                    r"sort\w*|dedup\w*|drain|split_off|remove|swap_remove\w*|insert|resize\w*|as_mut_slices|as_mut_slice|range_mut|back_mut|front_mut|"
                    r"pop_if|pop_front_if|pop_back_if|extract_if|append|pop_back|pop|last_mut|first_mut)$|ops::IndexMut::index_mut$")
POP = re.compile(r"(VecDeque|Vec|LinkedList)(::<[^>]*>)?::(pop_front|pop_back|pop|remove|swap_remove_front|swap_remove_back|drain)$|Receiver(::<[^>]*>)?::(recv|try_recv|recv_timeout)$")


def is_event(eng, t):
    return any(x.op == "agg" and x.a[0].split("::")[-1] == EVENT for x in subterms(t))


def discr_of(st, pred):
    """Values known on this path of the discriminants of terms that satisfy pred."""
    for k, v in st.facts.items():
        if k.op == "discr" and pred(E.strip(k.a[0])):
            yield E.strip(k.a[0]), (int(v[1]) if v[0] == "=" else (0 if 1 in v[1] else 1))


class C16(Rule):
    prop = "C16"

    def __init__(self):
        super().__init__()
        self.need = {"events queued": 3, "events taken from the queue": 1, "event commands started": 1, "event commands waited for": 1,
                     "event commands killed": 1}
        self.ends = set()
        self.queues = set()
        self.meddled = {}
        self.keeps = self.kept

    def kept(self, k):
        if k.op != "discr":
            return False
        x = E.strip(k.a[0])
        y = some_of(x)
        y = E.strip(y) if y is not None else x
        return fname(x).endswith("Config.token_event_cmd") or \
            re.search(r"env::var(_os)?$|Command::spawn$|wait_timeout$|Child::(wait|kill|try_wait)$|pop_front$|pop_back$|recv$", callee(y)) is not None

    def finish(self, eng):
        for (l, f), m in sorted(self.meddled.items()):
            if l in self.queues:
                eng.violate("C16", "%s in %s" % (m, f), "events that wait for their command may be changed, dropped or reordered in %s (%s)" % (f, m), None, None)

    @staticmethod
    def locks(t):
        return {x.a[0] for x in subterms(t) if x.op in ("guard", "xguard")}

    def on(self, eng, st, ev):
        k = ev.kind
        if k == "call" and ev.args and type(ev.args[0]) is T and MEDDLE.search(nm(ev)):
            m = nm(ev).split("::")[-1]
            mine = thread_reaches(eng, r"VecDeque.*::pop_(front|back)$|Receiver.*::recv$|VecDeque.*::(drain|remove)$")
            if not mine or m not in ("drain", "append", "remove", "split_off", "pop", "pop_back"):
                q = E.strip(ev.args[0])
                if q.op in ("mval", "out") or q.op == "op" and q.a[0] in ("push", "insert", "extend"):
                    for l in self.locks(q):
                        self.meddled[(l, short(ev.fn))] = m
        if k in ("push", "insert") and is_event(eng, ev.args[1]) or \
                k == "call" and ev.args and re.search(r"::(push_front\w*|insert|push_front_mut|insert_mut|extend|append)$", nm(ev)) and any(is_event(eng, x) for x in ev.args[1:]) and \
                any(x.op == "mval" for x in subterms(ev.args[0])):
            self.saw("events queued", where2(ev))
            self.queues |= self.locks(ev.args[0])
            m = nm(ev).split("::")[-1]
            self.ends.add(m)
            if m not in ("push_back", "push_front", "push", "send"):
                self.bad(eng, st, ev, "%s in %s" % (m, short(ev.fn)), "an event is not added at the end of the queue")
            if any(x == "pop_back" for x in self.ends) and m == "push_back" or m == "push_front" and "pop_front" in self.ends:
                self.bad(eng, st, ev, "order in %s" % short(ev.fn), "events are not queued first-in, first-out")
            return
        if k == "spawn" and type(ev.extra) is T:
            for c in {x.a[0] for x in subterms(ev.extra) if x.op == "clo"}:
                if any(re.search(r"VecDeque.*::pop_(front|back)$|Receiver.*::recv$|VecDeque.*::(drain|remove)$", x) for x in reach(eng.p, c)):
                    if self.get(st, ("runs", c)) or eng.cur_root is not None:
                        self.bad(eng, st, ev, "threads in %s" % short(ev.fn), "more than one thread may run event commands")
                    self.put(st, ("runs", c), True)
        if k == "call" and EXEC.search(nm(ev)):
            self.exec(eng, st, ev)
            return
        if not thread_reaches(eng, r"VecDeque.*::pop_(front|back)$|Receiver.*::recv$|VecDeque.*::(drain|remove)$"):
            return
        f = short(ev.fn)
        if k == "root":
            for x in ("elem", "ran", "child", "dead"):
                self.put(st, x, None)
        elif k == "call" and POP.search(nm(ev)):
            m = nm(ev).split("::")[-1]
            self.turn(eng, st, ev)
            self.saw("events taken from the queue", where2(ev))
            self.ends.add(m)
            if m in ("remove", "swap_remove_back", "swap_remove_front", "pop") and not (m == "remove" and cval(E.strip(ev.args[1])) == 0):
                self.bad(eng, st, ev, "%s in %s" % (m, f), "events are not taken from the front of the queue")
            if m == "pop_back" and "push_back" in self.ends or m == "pop_front" and "push_front" in self.ends:
                self.bad(eng, st, ev, "order in %s" % f, "events are not processed in the order in which they were raised")
            self.put(st, "elem", ev.ret)
            self.put(st, "ran", None)
        elif k == "cond_wait":
            self.turn(eng, st, ev)
            e = self.get(st, "elem")
            if e is not None and not any(v == 0 for x, v in discr_of(st, lambda x: x is E.strip(e) or fname(x).endswith("Config.token_event_cmd"))):
                self.bad(eng, st, ev, "left in %s" % f, "the event thread may wait for new events although there are unprocessed ones")
            self.put(st, "elem", None)
            self.put(st, "ran", None)
        elif k == "call" and re.search(r"wait_timeout(_ms)?$", nm(ev)) and "Condvar" not in nm(ev):
            self.saw("event commands waited for", where2(ev))
            d = ev.args[1]
            d = E.strip(d)
            if show(d, 4) not in ("(30, 0)", "30000"):
                self.bad(eng, st, ev, "timeout in %s" % f, "the event command's timeout is not the documented one: %s" % show(d, 4))
            if self.get(st, "child"):
                self.put(st, "child", ("waited", ev.ret))
        elif k == "call" and re.search(r"Child::kill$", nm(ev)):
            self.saw("event commands killed", where2(ev))
            if not self.timed_out(st):
                self.bad(eng, st, ev, "killed early in %s" % f, "the event command may be killed although it has not exceeded the timeout")
            else:
                self.put(st, "child", ("killed", None))
        elif k == "call" and re.search(r"Child::(wait|wait_with_output)$", nm(ev)):
            c = self.get(st, "child")
            if c and c[0] == "killed":
                self.put(st, "child", None)
            elif c and not (c[0] == "waited" and self.finished(st)):
                self.bad(eng, st, ev, "no timeout in %s" % f, "the event command may be waited for without limit")
        elif k == "call" and blocking(eng, ev) in ("sleep", "network", "connect"):
            self.bad(eng, st, ev, "blocked in %s" % f, "the event thread waits for something other than events and commands")
        elif k in ("exit", "panic", "exitproc"):
            self.bad(eng, st, ev, "%s%s" % (k, " in %s" % f if k != "exit" else ""), "the event thread may end, after which no event is processed")

    def result(self, st):
        """What is known about the result of waiting: "some", "none", "err" or None."""
        c = self.get(st, "child")
        if not c or c[0] != "waited":
            return None
        r = E.strip(c[1])
        for x, v in discr_of(st, lambda x: x is r or some_of(x) is not None and E.strip(some_of(x)) is r):
            if x is r and v == 1:
                return "err"
            if x is not r:
                return "some" if v == 1 else "none"
        return None

    def timed_out(self, st):
        return self.result(st) in ("none", "err")

    def finished(self, st):
        return self.result(st) in ("some", "err")

    def turn(self, eng, st, ev):
        """The thread turns to the next event, or waits for one."""
        f = short(ev.fn)
        c = self.get(st, "child")
        if c and c[0] == "started" and any(x is E.strip(c[1]) and v == 1 for x, v in discr_of(st, lambda x: True)):
            c = None
        if c and not self.finished(st):
            what = "timed out but was not killed and reaped" if c[0] == "waited" else "was killed but not reaped" if c[0] == "killed" else \
                "was not waited for"
            self.bad(eng, st, ev, "%s in %s" % (c[0], f), "the event thread goes on although the previous command %s" % what)
        self.put(st, "child", None)
        e = self.get(st, "elem")
        if e is not None and not self.get(st, "ran"):
            e = E.strip(e)
            ok = False
            for x, v in discr_of(st, lambda x: True):
                if x is e and v == 0 or fname(x).endswith("Config.token_event_cmd") and v == 0 or \
                        re.search(r"env::var$", callee(x)) and v == 1 or re.search(r"env::var_os$", callee(x)) and v == 0:
                    ok = True
            if not ok:
                self.bad(eng, st, ev, "dropped in %s" % f, "an event may be dropped without the event command being run")

    def exec(self, eng, st, ev):
        p = cmd_parts(eng, ev.args[0])
        if p is None or "PIZAUTH_EVENT" not in p[2]:
            return
        f = short(ev.fn)
        self.saw("event commands started", where2(ev))
        env = p[2]
        e = self.get(st, "elem")
        if e is None:
            self.bad(eng, st, ev, "elsewhere in %s" % f, "an event command is not run by the thread that takes the event from the queue, so that "
                     "several may run at once")
            return
        if not any(all(config_field(y) == "token_event_cmd" for y in alts(eng, x)) for x in p[1]):
            self.bad(eng, st, ev, "altered command in %s" % f, "what is run for an event is not exactly the configured command, so that it may end before "
                     "the command does: %s" % ", ".join(show(x, 4) for x in p[1]))
        a, x = env.get("PIZAUTH_ACCOUNT"), env["PIZAUTH_EVENT"]
        k = queued_event(eng, st, x)
        if a is None or not (queued(a, 0) and k is not None and a.a[0] is k.a[0]) or E.strip(some_of(k.a[0])) is not E.strip(e):
            self.bad(eng, st, ev, "values in %s" % f, "the event command is not run with the account and event that were taken from the queue: %s, %s"
                     % (show(a, 4) if a is not None else None, show(x, 4)))
        if self.get(st, "ran"):
            self.bad(eng, st, ev, "again in %s" % f, "the event command is run more than once for an event")
        self.put(st, "ran", True)
        if not nm(ev).endswith("spawn"):
            self.bad(eng, st, ev, "no timeout in %s" % f, "the event command is waited for without limit")
            return
        if any(x is E.strip(ev.ret) and v == 1 for x, v in discr_of(st, lambda x: True)):
            return
        self.put(st, "child", ("started", ev.ret))
