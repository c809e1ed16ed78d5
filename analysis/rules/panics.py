"""C28: input from outside cannot make the server panic."""
from rules.common import *
from lib import NETREQ

# calls whose results come from outside the server: peers, dumps, clocks
OUTSIDE = re.compile(r"""(^|::)(read_line|read_to_end|read_to_string|read_exact|fill_buf|read_until|Read::read|BufRead::lines|Read::bytes)$|
    ^ureq::|^serde_json::from_|^bincode::|::decrypt(_in_place)?$|::(Instant|SystemTime|Utc|Local)::now$|::elapsed$""", re.X)
STATE = re.compile(r"(^|::)(Active|Pending)\.(?!consecutive_refresh_fails)\w+$")
CLOCKS = re.compile(r"(Instant|SystemTime|Duration|DateTime|TimeDelta|NaiveDate|NaiveTime|NaiveDateTime)\b")
# functions that panic for some values of their arguments
PARTIAL = re.compile(r"""::(str|String|Vec|VecDeque|\[T\]|slice)\b.*::(split_at|split_at_mut|split_off|remove|swap_remove|drain|insert|insert_str|truncate|
        replace_range|copy_from_slice|clone_from_slice|copy_within|swap|chunks|chunks_exact|rchunks|windows|rotate_left|rotate_right|
        select_nth_unstable|repeat|swap_with_slice|range)$|
    ::GenericArray::.*::(from_slice|from_mut_slice|clone_from_slice)$|
    ::(from_secs_f32|from_secs_f64|mul_f32|mul_f64|div_f32|div_f64|div_duration)$|
    ::with_capacity$|::reserve$|::reserve_exact$|::resize$|vec::from_elem$|::step_by$|
    ::to_rfc2822$|chrono::.*::(timestamp|timestamp_millis|timestamp_nanos|ymd|and_hms|and_hms_milli|from_num_days_from_ce|seconds|minutes|hours|days|weeks|milliseconds|
        from_timestamp_nanos|succ|pred|ymd_opt_unwrap)$|
    ::(ilog|ilog2|ilog10|isqrt|pow|abs|div_euclid|rem_euclid|next_power_of_two|from_digit|to_digit|next_multiple_of|div_ceil)$""", re.X)
TOTAL = re.compile(r"::(VecDeque|HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap)\b.*::(remove|insert|drain)$|::drain_filter$")
# what the server knows itself, even if the question came from outside
OWN = {"tokenstate", "validate_act_name", "act_id_matching_token_state", "account", "config", "act_ids", "valid", "tokenstate_replace",
       "tokenstate_set_ongoing_refresh", "tokenstate_set_last_notification", "is_act_id_valid"}
TERMS = ("eq", "lt", "not", "BitAnd", "BitOr")


def leaf_name(t):
    return callee(t) if t.op in ("op", "call", "out") else ""


def const_size(t):
    """The number of bytes of a constant text or character."""
    k = cval(t)
    if type(k) is str:
        return len(k.encode())
    if type(k) is bytes:
        return len(k)
    if type(k) is int and 0 <= k < 0x110000:
        return len(chr(k).encode("utf-8", "surrogatepass"))
    return None


class C28(Rule):
    prop = "C28"
    chain = True

    def __init__(self):
        super().__init__()
        self.need = {"panics that input must not reach": 4, "pieces of input": 4, "times computed from input": 4}
        self.memo = {}
        self.keeps = self.sized

    def sized(self, k):
        return any(x.op in ("len", "discr") and E.strip(x.a[0]).op != "agg" and self.tainted(E.CUR[0], x) for x in (k,) + tuple(k.a) if isinstance(x, T))

    # -- what comes from outside
    def tainted(self, eng, t, above=frozenset()):
        if t in above:
            return False
        m = self.memo.get(t)
        if m is not None:
            return m
        if t.op in ("op", "call", "out") and OUTSIDE.search(callee(t)):
            r = True
        elif t.op == "op" and t.a[0] in OWN:
            r = False
        elif t.op == "fld" and STATE.search(str(t.a[1])):
            r = True
        elif t.op == "phi":
            r = any(self.tainted(eng, y, above | {t}) for y in eng.phi_in.get(t, ()))
        else:
            r = any(self.tainted(eng, y, above) for y in parts(t))
        if r or not above:
            self.memo[t] = r
        return r

    def state(self, t):
        return any(x.op == "op" and x.a[0] == "tokenstate" for x in subterms(t))

    # -- sizes
    def sum(self, t):
        """t as a sum of terms and a constant."""
        t = E.strip(t)
        k = cval(t)
        if type(k) is int and not isinstance(k, bool):
            return {}, k
        if t.op == "fld" and str(t.a[1]).endswith(".0") and t.a[0].op == "op" and t.a[0].a[0] in ("AddWithOverflow", "SubWithOverflow"):
            t = mk("op", t.a[0].a[0][:3], *t.a[0].a[1:])
        if t.op == "op" and t.a[0] in ("Add", "Sub", "AddUnchecked", "SubUnchecked") and len(t.a) == 3:
            a, b = self.sum(t.a[1]), self.sum(t.a[2])
            s = 1 if t.a[0].startswith("Add") else -1
            r = dict(a[0])
            for x, n in b[0].items():
                r[x] = r.get(x, 0) + s * n
            return {x: n for x, n in r.items() if n}, a[1] + s * b[1]
        if callee(t).endswith("len_utf8") and len(cargs(t)) == 1:
            n = const_size(cargs(t)[0])
            if n is not None:
                return {}, n
        return {t: 1}, 0

    def least(self, eng, st, s):
        """A length that a sequence is known to have at least."""
        s = E.strip(s)
        n = 0
        if s.op == "arr":
            return len(s.a[0])
        for k, v in st.facts.items():
            if k.op == "op" and k.a[0] == "lt" and v[0] == "=":
                a, b = k.a[1], k.a[2]
                if v[1] is True and cval(a) is not None and self.length_of(eng, b, s):
                    n = max(n, cval(a) + 1)
                if v[1] is False and cval(b) is not None and self.length_of(eng, a, s):
                    n = max(n, cval(b))
            elif self.length_of(eng, k, s):
                if v[0] == "=" and type(v[1]) is int:
                    n = max(n, v[1])
                elif v[0] == "!":
                    m = 0
                    while m in v[1]:
                        m += 1
                    n = max(n, m)
            elif callee(k).split("::")[-1] in ("starts_with", "ends_with") and v == ("=", True) and norm(cargs(k)[0]) is norm(s):
                n = max(n, const_size(cargs(k)[1]) or 0)
        return n

    def length_of(self, eng, t, s):
        t = E.strip(t)
        if t.op == "len" or t.op == "op" and t.a[0] == "len" and isinstance(t.a[-1], T):
            b = bases(eng, s)
            if len(b) == 1 and {norm(x) for x in b} == {norm(x) for x in bases(eng, t.a[-1])}:
                return True
        return t is eng.length(s) or t.op in ("len", "op") and t.a and isinstance(t.a[-1], T) and (t.op == "len" or t.a[0] == "len") and norm(t.a[-1]) is norm(s)

    def within(self, eng, st, n, s, text=False):
        """Is n at most the length of s (and for texts the boundary of a character)?"""
        terms, k = self.sum(n)
        if not terms:
            if k == 0:
                return True
            if text:
                return any(callee(f).split("::")[-1] == "starts_with" and v == ("=", True) and norm(cargs(f)[0]) is norm(s) and
                           type(cval(cargs(f)[1])) is str and k in boundaries(cval(cargs(f)[1])) for f, v in st.facts.items() if f.op in ("op", "call")) or \
                    any(callee(f).endswith("is_char_boundary") and v == ("=", True) and norm(cargs(f)[0]) is norm(s) and cval(cargs(f)[1]) == k for f, v in st.facts.items() if f.op in ("op", "call"))
            return k > 0 and k <= self.least(eng, st, s)
        for f, v in st.facts.items():
            if f.op in ("op", "call") and callee(f).endswith("is_char_boundary") and v == ("=", True) and norm(cargs(f)[0]) is norm(s) and self.sum(cargs(f)[1]) == (terms, k):
                return True
        if any(c != 1 for c in terms.values()) and not (len(terms) == 2 and k == 0):
            l = [x for x, c in terms.items() if c == 1 and self.length_of(eng, x, s)]
            return False if not l else not text and k < 0 and -k <= self.least(eng, st, s) and len(terms) == 1
        if k < 0:
            x = list(terms)
            return not text and len(x) == 1 and self.length_of(eng, x[0], s) and -k <= self.least(eng, st, s)
        if len(terms) == 1:
            x = E.strip(list(terms)[0])
            w = self.where(eng, x, s)
            if w is not None:
                return k in w
            if self.length_of(eng, x, s):
                return k == 0
            if callee(x).split("::")[-1] == "min" and k == 0 and not text:
                return any(self.within(eng, st, y, s) for y in cargs(x))
            if x.op == "op" and x.a[0] == "count" and not text and self.counts(x, s):
                return k == 0 or k == 1 and self.differs(eng, st, x, s)
            if x.op == "op" and x.a[0] == "sum" and k == 0 and self.skipped(x, s):
                return True
            r = [y for y in x.a if type(y) is T] if x.op == "idx" or x.op == "op" and x.a[0] == "idx" else []
            r = E.strip(r[0]) if r else None
            if r is not None and r.op == "agg" and r.a[0].endswith("ops::Range") and not text and k in (0, 1) and self.length_of(eng, r.a[2][1], s):
                return True
            if x.op == "idx" or x.op == "op" and x.a[0] == "wit":
                return not text and k in (0, 1) and base(x.a[1]) is base(s)
        if len(terms) == 2:
            # the start of a piece, and the characters that are skipped at its front
            for x in terms:
                y = [z for z in terms if z is not x][0]
                if E.strip(x).op == "op" and E.strip(x).a[0] == "sum":
                    p = self.skipped_in(E.strip(x))
                    if p is not None and norm(p[0]) is norm(s) and self.sum(p[1]) == ({y: 1}, k) and self.within(eng, st, p[1], s, text):
                        return True
        if not text:
            for f, v in st.facts.items():
                if f.op == "op" and f.a[0] == "lt" and v[0] == "=":
                    if v[1] is True and self.length_of(eng, f.a[2], s):
                        a = self.sum(f.a[1])
                        if a[0] == terms and k <= a[1] + 1:
                            return True
                    if v[1] is False and self.length_of(eng, f.a[1], s):
                        a = self.sum(f.a[2])
                        if a[0] == terms and k <= a[1]:
                            return True
        return False

    def where(self, eng, x, s):
        """The distances from position x in s that are still inside it: x was found in s."""
        if x.op == "fld" and str(x.a[1]).endswith("Some.0"):
            y = E.strip(x.a[0])
            n = callee(y).split("::")[-1]
            if n in ("find", "rfind") and len(cargs(y)) == 2 and norm(cargs(y)[0]) is norm(s):
                k = cval(cargs(y)[1])
                if type(k) is str:
                    return boundaries(k)
                z = const_size(cargs(y)[1])
                if z is not None:
                    return {0, z}
                if cargs(y)[1].op in ("arr", "ref"):
                    a = E.strip(cargs(y)[1])
                    if a.op == "arr" and all(const_size(z) == 1 for z in a.a[0]):
                        return {0, 1}
                return {0}
        return None

    def source(self, t):
        """(collection, names of the stages) of an iterator."""
        t = E.strip(t)
        if t.op != "it":
            return None
        return t.a[0], t.a[1], [x.a[0] for x in t.a[1] if x.op == "stage"]

    def counts(self, x, s):
        """Is x the number of some of the elements of s?"""
        w = self.source(x.a[1])
        return w is not None and norm(w[0]) is norm(s) and set(w[2]) <= {"map", "take_while", "filter", "copied", "cloned", "take", "skip", "skip_while", "enumerate", "rev", "inspect"}

    def differs(self, eng, st, x, s):
        for f, v in st.facts.items():
            if f.op == "op" and f.a[0] in ("eq", "lt") and v[0] == "=":
                a, b = E.strip(f.a[1]), E.strip(f.a[2])
                if f.a[0] == "eq" and v[1] is False and {True} == {any(y is x for y in (a, b)), any(self.length_of(eng, y, s) for y in (a, b))}:
                    return True
                if f.a[0] == "lt" and v[1] is True and a is x and self.length_of(eng, b, s):
                    return True
                if f.a[0] == "lt" and v[1] is False and self.length_of(eng, a, s) and False:
                    return True
        return False

    def skipped_in(self, x):
        """(text, start) of the piece whose leading characters' sizes are summed in x."""
        w = self.source(x.a[1])
        if w is None or not set(w[2]) <= {"map", "take_while"} or "take_while" not in w[2]:
            return None
        c = E.strip(w[0])
        if callee(c).split("::")[-1] != "chars":
            return None
        maps = [y for y in w[1] if y.a[0] == "map"]
        if len(maps) != 1 or not self.sizes(maps[0]):
            return None
        p = E.strip(cargs(c)[0])
        if p.op == "op" and p.a[0] == "slice":
            r = E.strip(p.a[2])
            if r.op == "agg" and r.a[0].endswith("RangeFrom"):
                return p.a[1], r.a[2][0]
        return p, C(("i", 0))

    def skipped(self, x, s):
        p = self.skipped_in(x)
        return p is not None and norm(p[0]) is norm(s) and cval(p[1]) == 0

    def sizes(self, stage):
        """Does this stage give the sizes of characters?"""
        eng = E.CUR[0]
        for v in closure_results(eng, E.State(), stage.a[1], mk("sym", "ch")):
            v = E.strip(v)
            if not (callee(v).endswith("len_utf8") and E.strip(cargs(v)[0]) is mk("sym", "ch")):
                return False
        return True

    def ordered(self, eng, st, a, b):
        ta, ka = self.sum(a)
        tb, kb = self.sum(b)
        d = dict(tb)
        for x, n in ta.items():
            d[x] = d.get(x, 0) - n
        d = {x: n for x, n in d.items() if n}
        if all(n > 0 for n in d.values()) and kb >= ka:
            return True
        for f, v in st.facts.items():
            if f.op == "op" and f.a[0] == "lt" and v[0] == "=":
                x, y = (f.a[1], f.a[2]) if v[1] is True else (f.a[2], f.a[1])
                if self.sum(x) == (ta, ka) and self.sum(y) == (tb, kb):
                    return True
        return False

    # -- events
    def on(self, eng, st, ev):
        k = ev.kind
        if k == "panic":
            self.panic(eng, st, ev)
        elif k == "slice":
            self.slice(eng, st, ev)
        elif k == "index":
            self.index(eng, st, ev)
        elif k == "index_map":
            self.lookup(eng, st, ev)
        elif k == "mayassert":
            self.asserted(eng, st, ev)
        elif k in ("call", "prim") and ev.name:
            self.called(eng, st, ev)

    def panic(self, eng, st, ev):
        i = max([j for j, c in enumerate(eng.chain) if c[0]["local"]] or [0])
        fn = short(eng.chain[i][0]["id"])
        vals = [eng.snap(st, x) for x in eng.chain[-1][1]] if len(eng.chain) > i + 1 else []
        last = st.trace[0] if st.trace is not None else None
        cond = last[2] if last is not None else None
        self.saw("panics that input must not reach", (ev.name, fn, tuple(vals[:1])))
        if any(self.tainted(eng, v) for v in vals[:1]):
            return self.bad(eng, st, ev, "unwrap-" + fn, "%s: a value that comes from outside is unwrapped without a check: %s" % (fn, show(vals[0], 4)))
        if cond is None:
            return
        if cond.op == "op" and cond.a[0] == "exists":
            if self.known_name(eng, st, cond):
                return
        if self.tainted(eng, cond) or self.state(cond):
            self.bad(eng, st, ev, "panic-" + fn, "%s: a value that comes from outside decides whether this panics: %s is %s" % (fn, show(cond, 4), last[3]))

    def known_name(self, eng, st, cond):
        """Is this the search for the entry of an account that is configured (or found among the entries)?"""
        names = [x for x in subterms(cond.a[3])] if len(cond.a) > 3 else []
        return not any(self.tainted(eng, x) and not self.configured(eng, st, x) for x in names)

    def configured(self, eng, st, x):
        for f, v in st.facts.items():
            if f.op == "discr" and v in (("=", 1), ("!", frozenset([0]))) and E.strip(f.a[0]).op == "op" and E.strip(f.a[0]).a[0] == "get" and norm(E.strip(f.a[0]).a[2]) is norm(x) \
                    and any(y.op == "fld" and fname(y) == "Config.accounts" for y in subterms(f)):
                return True
        return False

    def slice(self, eng, st, ev):
        s, r = ev.args
        r = E.strip(r)
        if not (self.tainted(eng, s) or self.tainted(eng, r)):
            return
        fn = short(ev.fn)
        text = "String" in str(ev.extra) or re.search(r"\bstr\b", str(ev.extra)) is not None
        self.saw("pieces of input", (fn, s, r))
        if r.op != "agg":
            return self.bad(eng, st, ev, "slice-" + fn, "%s: a piece of input is taken with limits that are not known: %s" % (fn, show(r, 4)))
        kind = r.a[0].split("::")[-1]
        f = [eng.snap(st, x) for x in r.a[2]]
        ok = False
        if kind in ("RangeFrom", "RangeTo"):
            ok = self.within(eng, st, f[0], s, text)
        elif kind == "Range":
            ok = self.within(eng, st, f[1], s, text) and self.ordered(eng, st, f[0], f[1]) and (not text or self.within(eng, st, f[0], s, text))
        elif kind == "RangeFull":
            ok = True
        elif kind == "RangeToInclusive":
            ok = self.within(eng, st, mk("op", "Add", f[0], C(("i", 1))), s, text)
        if not ok:
            self.bad(eng, st, ev, "slice-" + fn, "%s: %s[%s] is not known to lie inside it" % (fn, show(s, 3), show(r, 4)))

    def index(self, eng, st, ev):
        s, i = ev.args
        if not (self.tainted(eng, s) or self.tainted(eng, i)):
            return
        fn = short(ev.fn)
        self.saw("pieces of input", (fn, s, i))
        if not self.within(eng, st, mk("op", "Add", i, C(("i", 1))), s):
            self.bad(eng, st, ev, "index-" + fn, "%s: %s[%s] is not known to exist" % (fn, show(s, 3), show(i, 4)))

    def lookup(self, eng, st, ev):
        m, k = ev.args
        if not (self.tainted(eng, k) or self.tainted(eng, m)):
            return
        fn = short(ev.fn)
        for f, v in st.facts.items():
            if f.op == "discr" and v in (("=", 1), ("!", frozenset([0]))):
                g = E.strip(f.a[0])
                if g.op == "op" and g.a[0] == "get" and norm(g.a[2]) is norm(k) and norm(g.a[1]) is norm(m):
                    return
        if any(x.op == "idx" for x in subterms(k)) and not self.tainted(eng, m):
            return
        self.bad(eng, st, ev, "key-" + fn, "%s: %s[%s] is not known to exist" % (fn, show(m, 3), show(k, 4)))

    def asserted(self, eng, st, ev):
        c = ev.args[0]
        if any(callee(x).endswith("new_uninit") for x in subterms(c)):
            return
        if not self.tainted(eng, c):
            return
        fn = short(ev.fn)
        if ev.name.startswith("overflow:") and c.op == "ovf" or c.op == "op" and c.a[0] == "ovf":
            xs = [x for x in c.a if isinstance(x, T)]
            if ev.name == "overflow:Add" and all(self.size(eng, x) for x in xs):
                return
            if ev.name == "overflow:Sub" and len(xs) >= 2 and (self.ordered(eng, st, xs[-1], xs[-2]) or self.at_least(eng, st, xs[-2], xs[-1])):
                return
        if ev.name == "bounds":
            lt = E.strip(c)
            if lt.op == "op" and lt.a[0] == "lt":
                n = E.strip(lt.a[2])
                if n.op in ("len", "op") and (n.op == "len" or n.a[0] == "len") and self.within(eng, st, mk("op", "Add", lt.a[1], C(("i", 1))), n.a[-1]):
                    return
        self.bad(eng, st, ev, "%s-%s" % (ev.name, fn), "%s: arithmetic (or an index) on input may fail: %s" % (fn, show(c, 5)))

    def at_least(self, eng, st, t, n):
        """Is the length t at least the number n?"""
        t, n = E.strip(t), self.sum(n)
        return not n[0] and (t.op == "len" or t.op == "op" and t.a[0] == "len") and n[1] <= self.least(eng, st, t.a[-1])

    def size(self, eng, t, seen=None):
        """Is this the length of something, a position in it or a small number, so that sums of them cannot overflow?"""
        seen = seen if seen is not None else set()
        if t in seen:
            return True
        seen.add(t)
        terms, k = self.sum(t)
        for x in terms:
            x = E.strip(x)
            if x.op == "phi":
                if all(self.size(eng, y, seen) for y in eng.phi_in.get(x, ())):
                    continue
                return False
            if x.op == "old":
                if self.size(eng, x.a[-1], seen):
                    continue
                return False
            n = callee(x).split("::")[-1]
            if x.op == "idx" or x.op == "len" or x.op == "op" and x.a[0] in ("len", "count", "idx", "wit") or n in ("len", "len_utf8", "count"):
                continue
            if x.op == "op" and x.a[0] == "sum" and self.skipped_in(x) is not None:
                continue
            if x.op == "fld" and str(x.a[1]).endswith(".0") and callee(x.a[0]).split("::")[-1] in ("find", "rfind", "read_line", "read_to_end", "read", "read_to_string", "read_until", "write", "position", "rposition"):
                continue
            return False
        return True

    def called(self, eng, st, ev):
        n = M.simp(ev.name)
        last = n.split("::")[-1]
        args = ev.args
        op = re.search(r"(^|::)(Add|Sub|Mul|Div|Rem|Neg|AddAssign|SubAssign|MulAssign|DivAssign|RemAssign)(<.*>)?>?::\w+$", n)
        fn = short(ev.fn)
        if last.startswith("checked_") or last == "duration_since":
            if any(self.tainted(eng, a) for a in args):
                self.saw("times computed from input", (n, fn, tuple(args)))
        if op or PARTIAL.search(n) and not TOTAL.search(n) or last in ("from", "into") and self.date(eng, ev):
            if not any(self.tainted(eng, a) for a in args):
                return
            if last == "sub" and "Instant" in selfty(eng, ev) and any("Instant" in eng.p.ty(y) for y in (ev.f or {}).get("a", ()) [1:] if type(y) is int):
                return      # the difference of two instants is never less than zero
            if last == "to_rfc2822" and self.printable(eng, st, args[0]):
                return
            if last == "from_slice" and "GenericArray" in n and self.exactly(eng, st, args[0]):
                return
            if last in ("split_at", "split_at_mut", "split_off") and self.within(eng, st, args[1], args[0], "::str" in n or "String" in n):
                return
            self.bad(eng, st, ev, "%s-%s" % (last, fn), "%s: %s panics for some values, and its arguments come from outside: %s" % (fn, n, ", ".join(show(a, 3) for a in args)))

    def date(self, eng, ev):
        """Is this a conversion to a type that cannot represent all times?"""
        return re.search(r"\b(DateTime|NaiveDate|NaiveDateTime|NaiveTime|TimeDelta)\b", str(ev.extra)) is not None

    def printable(self, eng, st, t):
        """Is the year of this date known to have at most four digits?"""
        for f, v in st.facts.items():
            if f.op == "op" and f.a[0] == "lt" and v[0] == "=":
                a, b = E.strip(f.a[1]), E.strip(f.a[2])
                year = lambda x: callee(x).split("::")[-1] == "year" and norm(cargs(x)[0]) is norm(t)
                if v[1] is False and type(cval(a)) is int and cval(a) <= 9999 and year(b):
                    return True
                if v[1] is True and type(cval(b)) is int and cval(b) <= 10000 and year(a):
                    return True
        return False

    def exactly(self, eng, st, t):
        """A key or nonce: a piece of a fixed length."""
        t = E.strip(t)
        if t.op == "op" and t.a[0] == "slice":
            r = E.strip(t.a[2])
            return r.op == "agg" and r.a[0].endswith("::RangeTo") and cval(r.a[2][0]) is not None
        return t.op in ("arr", "const", "agg") or not self.tainted(eng, t)


def parts(t):
    """The terms that t is directly made of."""
    todo = list(t.a)
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            yield x
        elif type(x) in (tuple, list, frozenset):
            todo += x


def base(s):
    """The sequence whose elements were replaced (or whose fields were changed) to make s."""
    s = E.strip(s)
    while s.op == "upd":
        s = E.strip(s.a[0])
    return s


def bases(eng, s, seen=None):
    """The sequences whose elements were replaced to make s, also in a loop."""
    seen = set() if seen is None else seen
    s = base(s)
    n = 0
    while s.op in ("old", "upd") and n < 50:
        s = base(s.a[-1] if s.op == "old" else s)
        n += 1
    if s.op == "phi":
        if s in seen:
            return set()
        seen.add(s)
        return {y for x in eng.phi_in.get(s, ()) for y in bases(eng, x, seen)}
    return {s}


def boundaries(s):
    r, n = {0}, 0
    for c in s:
        n += len(c.encode())
        r.add(n)
    return r


class C12panic(C28):
    """No answer of an authorisation server ends the thread of a refresh before the refresh does."""
    prop = "C12"

    def __init__(self):
        super().__init__()
        self.need = {"panics that input must not reach": 2}

    def on(self, eng, st, ev):
        if ev.kind == "call" and NETREQ.search(nm(ev)):
            self.put(st, "sent", True)
        super().on(eng, st, ev)

    def here(self, eng, st):
        return not in_tcp(eng, st) and eng.cur_root is not None and thread_reaches(eng, r"^ureq::.*::(send_form|call|send\w*)$")

    def bad(self, eng, st, ev, key, msg):
        if self.here(eng, st):
            super().bad(eng, st, ev, key, msg)


class C34panic(C12panic):
    """No answer of an authorisation server ends the thread of an exchange before it is reported."""
    prop = "C34"

    def here(self, eng, st):
        return in_tcp(eng, st) and self.get(st, "sent")
