"""Models of library functions (and of the CTGuard primitives) for engine.py."""
import re

from terms import *
import engine as E


# ------------------------------------------------------------------ names
_simp = {}


def simp(n):
    """A path without generic arguments: `std::sync::Mutex::<T>::lock` -> `std::sync::Mutex::lock`."""
    r = _simp.get(n)
    if r is None:
        r = n
        while True:
            s = re.sub(r"::<[^<>]*>", "", r)
            if s == r:
                s = re.sub(r"<[^<>]*>", "", s) if s.startswith("<") is False else s
                if s == r:
                    break
            r = s
        _simp[n] = r
    return r


IDENT = set("""
std::clone::Clone::clone std::borrow::ToOwned::to_owned std::string::ToString::to_string
std::convert::Into::into std::convert::From::from std::convert::AsRef::as_ref std::convert::AsMut::as_mut
std::borrow::Borrow::borrow std::borrow::BorrowMut::borrow_mut
std::ops::Deref::deref std::ops::DerefMut::deref_mut
std::string::String::as_str std::string::String::as_bytes std::string::String::into_bytes std::string::String::into_boxed_str
std::string::String::as_mut_str
core::str::as_bytes core::str::to_owned std::str::to_owned core::str::to_string std::str::into_string
std::vec::Vec::as_slice std::vec::Vec::as_mut_slice std::vec::Vec::into_boxed_slice std::slice::to_vec core::slice::to_vec
std::slice::into_vec std::vec::Vec::leak core::slice::as_ref
std::borrow::Cow::into_owned std::borrow::Cow::to_mut
std::path::PathBuf::as_path std::path::Path::to_path_buf std::path::PathBuf::into_os_string std::path::Path::as_os_str
std::path::PathBuf::as_os_str std::path::Path::new std::ffi::OsStr::to_os_string std::ffi::OsStr::new
std::path::Path::display std::ffi::OsString::as_os_str
std::boxed::Box::new std::sync::Arc::new std::rc::Rc::new std::hint::must_use std::boxed::Box::pin
std::sync::Arc::clone std::sync::Arc::as_ref std::boxed::Box::leak std::boxed::Box::as_ref
std::hint::black_box std::convert::identity std::borrow::Cow::as_ref
std::option::Option::as_deref std::option::Option::as_ref std::option::Option::cloned std::option::Option::copied
std::result::Result::as_ref std::result::Result::as_deref
std::array::as_slice core::slice::as_slice std::string::String::from std::string::String::from_utf8_lossy
url::Url::as_str url::Url::to_string std::primitive::str::to_owned
std::option::Option::as_slice std::vec::Vec::into_iter
std::io::Read::by_ref std::io::Write::by_ref std::str::as_bytes std::str::as_str
std::error::Error::to_string std::num::NonZero::get std::vec::Vec::from std::sync::PoisonError::into_inner
std::iter::Iterator::by_ref std::boxed::Box::from std::vec::Vec::shrink_to_fit
""".split())

IDENT_IT = set("""cloned copied rev peekable fuse inspect by_ref skip take step_by into_iter skip_while""".split())

# Calls whose result differs from call to call.
IMPURE = re.compile(r"""(^|::)(
 Instant::now|SystemTime::now|Utc::now|Local::now|env::var|env::var_os|env::args|env::current_exe|
 UnixStream::connect|TcpStream::connect|UnixListener::bind|TcpListener::bind|local_addr|
 thread::spawn|thread::sleep|Condvar::.*|Mutex::.*|RwLock::.*|
 Path::exists|Path::is_file|Path::is_dir|Path::try_exists|fs::.*|
 Command::spawn|Command::output|Command::status|Child::.*|ChildExt::.*|wait_timeout::.*|
 Request::.*|ureq::(get|post)|Response::into_.*|
 rand::.*|Rng.*::.*|RngCore::.*|whoami::.*|hostname::.*|stdin|Read::.*|BufRead::.*|Write::.*|
 new_uninit|generate_simple_self_signed|accept|utimensat|daemon|raise|kill|random|from_rng|generate
)$""", re.X)

# Calls that take `&mut` arguments but do not change what we track of them.
NOCLOBBER = re.compile(r"""(^|::)(
 Read::take|Read::bytes|BufReader::new|BufReader::with_capacity|BufWriter::new|rustls::Stream::new|Stream::new|
 Write::.*|UnixStream::.*|TcpStream::.*|Child::.*|ChildExt::.*|Read::read.*|BufRead::read_line|BufRead::read_until|
 RngCore::fill_bytes|Rng::fill|Rng::try_fill|RngCore::try_fill_bytes|Formatter::.*|Serializer::.*|
 Read::by_ref|Write::by_ref|LineWriter::new
)$""", re.X)

PANIC = re.compile(r"""(^core::panicking::|^std::rt::(panic_fmt|begin_panic)|::unwrap_failed$|::expect_failed$|
 ^std::panicking::|panic_nounwind|::panic_any$|^std::panic::resume_unwind)""", re.X)


def is_pure(eng, c):
    n = simp(c.n)
    if IMPURE.search(n):
        return False
    return True


def diverges(eng, c):
    return c.target is None


# ------------------------------------------------------------------ strings
def fmtcat(parts):
    out = []
    for p in parts:
        p = E.strip(p)
        if p.op == "op" and p.a[0] == "fmt":
            q = list(p.a[1:])
        else:
            q = [p]
        for x in q:
            if x.op == "c" and x.a[0][0] in ("i", "ch", "b") :
                v = x.a[0][1]
                x = C(("s", chr(v) if x.a[0][0] == "ch" else str(v)))
            if x.op == "c" and x.a[0][0] == "y":
                try:
                    x = C(("s", x.a[0][1].decode()))
                except UnicodeDecodeError:
                    pass
            if out and out[-1].op == "c" and x.op == "c" and out[-1].a[0][0] == "s" and x.a[0][0] == "s":
                out[-1] = C(("s", out[-1].a[0][1] + x.a[0][1]))
            else:
                out.append(x)
    out = [x for x in out if not (x.op == "c" and x.a[0] == ("s", ""))] or [C(("s", ""))]
    if len(out) == 1:
        return out[0]
    return mk("op", "fmt", *out)


def fmt_parts(t):
    """The parts of a string term."""
    t = E.strip(t)
    if t.op == "op" and t.a[0] == "fmt":
        return list(t.a[1:])
    return [t]


def decode_template(b, args):
    parts = []
    i = 0
    ai = 0
    n = len(b)
    while i < n:
        x = b[i]
        if x == 0:
            break
        if x < 0x80:
            parts.append(C(("s", b[i + 1:i + 1 + x].decode("utf8", "replace"))))
            i += 1 + x
        elif x == 0x80:
            ln = b[i + 1] | b[i + 2] << 8
            parts.append(C(("s", b[i + 3:i + 3 + ln].decode("utf8", "replace"))))
            i += 3 + ln
        else:
            i += 1
            at = i
            if x & 1:
                i += 4
            if x & 2:
                i += 2
            if x & 4:
                i += 2
            idx = ai
            if x & 8:
                idx = b[i] | b[i + 1] << 8
                i += 2
            ai = idx + 1
            a = args[idx] if idx < len(args) else mk("opq", "fmtarg")
            # Flags change how a value is shown; a width or a precision may add to it or cut it off.
            parts.append(mk("op", "fmtspec", a, C(("y", bytes([x & 7]) + bytes(b[at:i])))) if x & 6 else a)
    return parts


def m_arguments_new(eng, st, c):
    tmpl = E.strip(eng.snap(st, c.args[0]))
    arr = E.strip(eng.snap(st, c.args[1]))
    v = cval(tmpl)
    if arr.op != "arr":
        args = []
    else:
        args = list(arr.a[0])
    if tmpl.op == "arr":
        try:
            v = bytes(cval(x) for x in tmpl.a[0])
        except Exception:
            v = None
    if type(v) is bytes:
        return [(st, fmtcat(decode_template(v, args)))]
    if type(v) is str:
        return [(st, fmtcat(decode_template(v.encode("latin1", "replace"), args)))]
    return [(st, mk("op", "fmt", mk("opq", "template"), *args))]


def m_fmtarg(eng, st, c):
    v = eng.snap(st, c.args[0])
    if "debug" in c.n:
        v = mk("op", "dbg", v)
    elif "display" not in c.n:
        v = mk("op", "fmtas", C(("s", simp(c.n).split("::")[-1])), v)
    return [(st, v)]


def m_push_str(eng, st, c):
    r = c.args[0]
    if r.op != "ref":
        return None
    old = eng.snap(st, eng.load(st, r))
    new = fmtcat([old, eng.snap(st, c.args[1])])
    if len(new.a) > 40:
        new = mk("op", "concat", old, eng.snap(st, c.args[1]))
    eng.write(st, r.a[0], r.a[1], new)
    return [(st, UNIT)]


def m_write_fmt(eng, st, c):
    """write!(w, ...)"""
    if c.n.startswith("std::io::"):
        c.n = "std::io::Write::write_all"
        return eng.external(st, c, name="std::io::Write::write_all")
    r = c.args[0]
    t = c.argtys[0]
    if t is not None and "String" in eng.p.ty(t) and r.op == "ref":
        m_push_str(eng, st, c)
        return [(st, E.ok(UNIT))]
    return None


# ------------------------------------------------------------------ misc
def m_ident(eng, st, c):
    if not c.args:
        return None
    v = c.args[0]
    n = simp(c.n)
    # Cloning a value of a local type with a hand-written Clone is not the identity.
    if c.item in ("clone", "to_owned", "to_string", "from", "into", "as_ref", "borrow", "deref", "deref_mut"):
        bid = c.r if c.r in eng.p.bodies else None
        if bid is not None and eng.p.bodies[bid]["local"] and not eng.derived(bid):
            return None
    if c.item in ("deref", "deref_mut") and c.f.get("self") is not None:
        s = eng.p.types[c.f["self"]]
        if s["k"] == "adt" and s["n"].endswith("MutexGuard"):
            return m_guard_deref(eng, st, c)
        if s["k"] == "adt" and s["n"].endswith("LazyLock"):
            return None
    if v.op == "ref" and c.item in ("clone", "to_owned", "to_string", "into", "from") and v.a[2]:
        t = c.argtys[0] if c.argtys else None
        if t is None or eng.p.types[t]["k"] != "ref" or not eng.p.types[t]["m"]:
            v = eng.load(st, v)
    if c.item == "to_string" and v.op == "c":
        v = fmtcat([v])
    if c.item in ("from", "into") and c.ret_ty is not None and "chrono" in eng.p.ty(c.ret_ty):
        eng.emit(st, E.Ev("prim", simp(c.n), (eng.snap(st, v),), None, c.loc, c.fr.b["id"], c.f, c.fr.stack, eng.p.ty(c.ret_ty), c.site))
    return [(st, v)]


def guard_base(v):
    v = E.strip(v)
    return mk("mval", v)


def m_guard_deref(eng, st, c):
    v = c.args[0]
    n = 0
    while v.op == "ref" and n < 5:
        v = eng.load(st, v)
        n += 1
    base = guard_base(v)
    if c.item == "deref_mut":
        return [(st, mk("ref", base, (), True))]
    return [(st, eng.read(st, base, ()))]


def lock_class(eng, st, t):
    t = E.strip(eng.snap(st, t))
    if t.op == "fld":
        return t.a[1]
    if t.op == "op" and t.a[0] == "mutex":
        return t.a[1].a[0][1]
    return "?" + show(t, 3)


def m_lock(eng, st, c):
    cls = lock_class(eng, st, c.args[0])
    g = mk("guard", cls, c.site)
    eng.fresh(st, g)
    eng.emit(st, E.Ev("acquire", cls, (g, eng.snap(st, c.args[0])), g, c.loc, c.fr.b["id"], c.f, c.fr.stack,
                      extra=st.held, site=c.site))
    st.held = st.held + (g,)
    if "try_lock" in c.n:
        s2 = st.copy()
        s2.held = tuple(x for x in s2.held if x is not g)
        return [(st, E.ok(g)), (s2, E.err(mk("opq", "wouldblock")))]
    return [(st, E.ok(g))]


def m_wait(eng, st, c):
    g = c.args[1]
    gs = eng.owned_guards(g)
    eng.emit(st, E.Ev("cond_wait", simp(c.n), tuple(eng.snap(st, a) for a in c.args), g, c.loc, c.fr.b["id"], c.f,
                      c.fr.stack, extra=gs, site=c.site))
    outs = []
    for x in gs:
        forget(eng, st, x)
    item = c.item
    if "while" in item:
        pred = c.args[-1]
        for x in gs[:1]:
            for s2, v in eng.call_value(st, c.fr, pred, [mk("ref", guard_base(x), (), True)], c.site + "p", c.loc):
                want = False
                if eng.assume(s2, eng.snap(s2, v), want):
                    outs.append((s2, E.ok(g) if item == "wait_while" else E.ok(mk("tup", (g, mk("opq", "timeout"))))))
                # a timeout may end the wait although the predicate still holds
        if item != "wait_while":
            outs.append((st.copy(), E.ok(mk("tup", (g, mk("opq", "timeout"))))))
        return outs
    if item.startswith("wait_timeout"):
        r = mk("call", c.n, c.site, ())
        eng.fresh(st, r)
        return [(st, E.ok(mk("tup", (g, r))))]
    return [(st, E.ok(g))]


def forget(eng, st, g):
    """Other threads may have changed what g protects."""
    mv = guard_base(g)
    for k in [k for k in st.heap if k[0] is mv]:
        del st.heap[k]
    for k in [k for k in st.facts if any(x is mv for x in subterms(k))]:
        del st.facts[k]


def m_drop(eng, st, c):
    for g in eng.owned_guards(c.args[0]):
        eng.release(st, g, E.Ev("release", "drop", (), None, c.loc, c.fr.b["id"], None, c.fr.stack))
    return [(st, UNIT)]


def m_replace(eng, st, c):
    r = c.args[0]
    if r.op != "ref":
        return None
    old = eng.load(st, r)
    new = c.args[1] if len(c.args) > 1 else default_of(eng, eng.p.types[c.argtys[0]]["t"] if c.argtys[0] is not None else None)
    eng.write(st, r.a[0], r.a[1], new, store_ev(c, r))
    return [(st, old)]


def store_ev(c, r):
    if type(r.a[0]) is tuple:
        return None
    return E.Ev("store", None, (), None, c.loc, c.fr.b["id"], None, c.fr.stack)


def m_swap(eng, st, c):
    a, b = c.args
    if a.op != "ref" or b.op != "ref":
        return None
    x, y = eng.load(st, a), eng.load(st, b)
    eng.write(st, a.a[0], a.a[1], y, store_ev(c, a))
    eng.write(st, b.a[0], b.a[1], x, store_ev(c, b))
    return [(st, UNIT)]


def default_of(eng, ty):
    if ty is not None:
        t = eng.p.types[ty]
        if t["k"] == "adt":
            if t["n"] == "std::option::Option":
                return E.NONE
            if t["n"] == "std::string::String":
                return C(("s", ""))
            if t["n"].endswith("::Vec") or t["n"].endswith("VecDeque"):
                return mk("arr", ())
            if t["n"].endswith("HashMap") or t["n"].endswith("HashSet") or t["n"].endswith("BTreeMap"):
                return mk("op", "emptymap")
        if t["k"] == "bool":
            return FALSE
        if t["k"] in ("u64", "u128", "usize", "u8", "u16", "u32", "i32", "i64", "int", "uint"):
            return C(("i", 0))
        if t["k"] == "other" and t.get("s", "")[:1] in "ui" and t["s"][1:].isdigit():
            return C(("i", 0))
    return mk("op", "default")


def m_default(eng, st, c):
    if c.r in eng.p.bodies and eng.p.bodies[c.r]["local"]:
        return None
    return [(st, default_of(eng, c.ret_ty))]


def m_eq(eng, st, c):
    a, b = eng.snap(st, c.args[0]), eng.snap(st, c.args[1])
    bid = c.r if c.r in eng.p.bodies else None
    if bid is not None and eng.p.bodies[bid]["local"]:
        # hand-written equality of a local type
        if not eng.derived(bid):
            return None
    r = eng.eq(a, b)
    if c.item == "ne":
        r = eng.neg(r)
    return [(st, r)]


def m_cmp(eng, st, c):
    if c.argtys and any(t is not None and "log::Level" in eng.p.ty(t) for t in c.argtys):
        return [(st, TRUE)]
    a, b = eng.snap(st, c.args[0]), eng.snap(st, c.args[1])
    return [(st, eng.cmp({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[c.item], a, b))]


def m_not(eng, st, c):
    return [(st, eng.neg(eng.snap(st, c.args[0])))]


def m_duration(eng, st, c):
    v = cval(eng.snap(st, c.args[0]))
    mul = {"from_secs": (1, 0), "from_mins": (60, 0), "from_hours": (3600, 0), "from_millis": (0, 1000000),
           "from_days": (86400, 0), "from_weeks": (604800, 0)}.get(c.item)
    if type(v) is int and mul:
        if mul[0]:
            return [(st, C(("dur", (v * mul[0], 0))))]
        return [(st, C(("dur", (v // 1000, v % 1000 * 1000000))))]
    return None


def m_mutex_new(eng, st, c):
    return [(st, mk("op", "Mutex", eng.snap(st, c.args[0])))]


def m_spawn(eng, st, c):
    clo = None
    for a in c.args:
        if E.strip(a).op == "clo":
            clo = E.strip(a)
    snap = eng.snap(st, clo) if clo is not None else None
    r = mk("call", "thread::spawn", c.site, (snap,) if snap is not None else ())
    eng.fresh(st, r)
    eng.emit(st, E.Ev("spawn", simp(c.n), tuple(eng.snap(st, a) for a in c.args), r, c.loc, c.fr.b["id"], c.f,
                      c.fr.stack, extra=snap, site=c.site))
    if snap is not None:
        eng.add_spawn(st, snap, c)
    ty = eng.p.types[c.ret_ty] if c.ret_ty is not None else None
    if ty and ty["k"] == "adt" and ty["n"].endswith("Result"):
        s2 = st.copy()
        return [(st, E.ok(r)), (s2, E.err(mk("opq", "spawnerr")))]
    return [(st, r)]


def m_call(eng, st, c):
    return eng.call_value(st, c.fr, c.args[0], c.args[1:], c.site, c.loc, tupled=True)


def m_uninit_box(eng, st, c):
    """vec![..]: the array was written into the box."""
    b = E.strip(c.args[0])
    best = None

    def same(x):
        while x.op in ("fld", "cast", "shr"):
            x = x.a[0]
        return x is b or x.op == "op" and len(x.a) > 1 and x.a[1] is b
    for k, v in st.heap.items():
        if same(k[0]):
            best = v
    if best is None:
        best = mk("op", "vecof", b)
    else:
        for k in [k for k in st.heap if same(k[0])]:
            del st.heap[k]
    n = 0
    while best.op == "agg" and len(best.a[2]) == 1 and n < 5:
        best = best.a[2][0]
        n += 1
    while best.op == "agg" and n < 5:
        xs = [x for x in best.a[2] if x.op != "uninit"]
        if len(xs) != 1:
            break
        best = xs[0]
        n += 1
    return [(st, eng.snap(st, best))]


def m_exit(eng, st, c):
    eng.emit(st, E.Ev("exitproc", simp(c.n), tuple(eng.snap(st, a) for a in c.args), None, c.loc, c.fr.b["id"], c.f,
                      c.fr.stack, site=c.site))
    return []


def m_panic(eng, st, c):
    eng.emit(st, E.Ev("panic", simp(c.n), tuple(eng.snap(st, a) for a in c.args), None, c.loc, c.fr.b["id"], c.f,
                      c.fr.stack, site=c.site))
    return []


# ------------------------------------------------------------------ collections
def is_map_ty(eng, ty):
    n = eng.p.adt_of(ty) if ty is not None else None
    return bool(n) and (n.endswith("HashMap") or n.endswith("BTreeMap"))


def m_empty(eng, st, c):
    if "HashMap" in c.n or "HashSet" in c.n or "BTree" in c.n:
        return [(st, mk("op", "emptymap"))]
    if "String" in c.n:
        return [(st, C(("s", "")))]
    return [(st, mk("arr", ()))]


def m_push(eng, st, c):
    r = c.args[0]
    if r.op != "ref":
        return None
    old = E.strip(eng.load(st, r))
    e = eng.snap(st, c.args[1]) if c.argtys[1] is None or eng.p.types[c.argtys[1]]["k"] != "ref" else eng.snap(st, c.args[1])
    if old.op == "arr" and len(old.a[0]) < 40:
        new = mk("arr", old.a[0] + (e,))
    else:
        new = mk("op", "push", old, e)
    eng.emit(st, E.Ev("push", simp(c.n), (eng.snap(st, old), e), None, c.loc, c.fr.b["id"], c.f, c.fr.stack,
                      extra=r, site=c.site))
    eng.write(st, r.a[0], r.a[1], new, store_ev(c, r))
    return [(st, UNIT)]


def m_set_insert(eng, st, c):
    r = c.args[0]
    if r.op != "ref":
        return None
    t = mk("op", "absent", E.strip(eng.load(st, r)), eng.snap(st, c.args[1]))
    return [(s, t) for s, _ in m_push(eng, st, c)]


def m_extend(eng, st, c):
    r = c.args[0]
    if r.op != "ref":
        return None
    old = E.strip(eng.load(st, r))
    src = E.strip(eng.snap(st, c.args[1]))
    if src.op == "it" or is_it(src):
        outs = collect(eng, st, c, as_it(src))
    else:
        outs = [(st, src)]
    res = []
    for s, v in outs:
        if v.op == "it":
            v = v.a[0]
        if old.op == "arr" and v.op == "arr" and len(old.a[0]) + len(v.a[0]) < 40:
            new = mk("arr", old.a[0] + v.a[0])
        else:
            new = mk("op", "extend", old, v)
        eng.write(s, r.a[0], r.a[1], new, store_ev(c, r))
        res.append((s, UNIT))
    return res


def m_insert(eng, st, c):
    r = c.args[0]
    if r.op != "ref" or len(c.args) < 3:
        return None
    if not is_map_ty(eng, c.argtys[0]) and "Map" not in c.n:
        # Vec::insert(i, x)
        old = E.strip(eng.load(st, r))
        x = mk("arr", (eng.snap(st, c.args[2]),))
        new = mk("op", "extend", x, old) if cval(E.strip(eng.snap(st, c.args[1]))) == 0 else mk("op", "extend", old, x)
        eng.write(st, r.a[0], r.a[1], new, store_ev(c, r))
        return [(st, UNIT)]
    old = E.strip(eng.load(st, r))
    k, v = eng.snap(st, c.args[1]), eng.snap(st, c.args[2])
    ret = mk("op", "get", old, k)
    eng.emit(st, E.Ev("insert", simp(c.n), (eng.snap(st, old), k, v), None, c.loc, c.fr.b["id"], c.f, c.fr.stack,
                      extra=r, site=c.site))
    eng.write(st, r.a[0], r.a[1], mk("op", "insert", old, k, v), store_ev(c, r))
    eng.discr_ty[ret] = "std::option::Option"
    return [(st, ret)]


def map_get(eng, m, k):
    m = E.strip(m)
    if m.op == "op" and m.a[0] == "emptymap":
        return E.NONE
    if m.op == "op" and m.a[0] == "insert" and m.a[2] is k:
        return E.some(m.a[3])
    t = mk("op", "get", m, k)
    eng.discr_ty[t] = "std::option::Option"
    return t


def m_get(eng, st, c):
    m, k = eng.snap(st, c.args[0]), eng.snap(st, c.args[1])
    if is_map_ty(eng, c.argtys[0]) or "Map" in c.n:
        return [(st, map_get(eng, m, k))]
    if "serde_json::Value" in c.n:
        t = mk("op", "jsonget", m, k)
    else:
        t = mk("op", "getix", m, k)
    eng.discr_ty[t] = "std::option::Option"
    return [(st, t)]


def local_entries(eng, m):
    """All (key, value) pairs put into a map that was created by the code; None if there may be others."""
    r, seen, work, made = {}, set(), [m], False
    while work:
        x = E.strip(work.pop())
        if x in seen:
            continue
        seen.add(x)
        n = x.a[0] if x.op == "op" else x.op
        if n == "phi":
            work += list(eng.phi_in.get(x, ()))
        elif n == "insert" and len(x.a) == 4:
            r[(x.a[2], x.a[3])] = None
            work.append(x.a[1])
        elif n == "old":
            work.append(x.a[1])
        elif n == "rest":
            work.append(x.a[1])
        elif n in ("emptymap", "opq"):
            made = made or n == "emptymap"
        else:
            return None
    return list(r) if made else None


def permuted(x):
    """The list that x has the elements of, if it is that list in another order."""
    if x.op == "out" and len(x.a[3]) >= 1 and re.search(r"::(reverse|sort\w*)$", simp(x.a[0])):
        return x.a[3][0]
    return None


def local_list(eng, m):
    """Is m a vector that was created by the code (all of whose elements are known)?"""
    seen, work, made = set(), [m], False
    while work:
        x = E.strip(work.pop())
        if x in seen:
            continue
        seen.add(x)
        n = x.a[0] if x.op == "op" else x.op
        if n == "phi":
            work += list(eng.phi_in.get(x, ()))
        elif n in ("push", "rest"):
            work.append(x.a[1])
        elif n == "old":
            work.append(x.a[1])
        elif permuted(x) is not None:
            work.append(permuted(x))
        elif n == "arr":
            made = True
        elif n == "opq":
            pass
        else:
            return False
    return made


def m_vec_pop(eng, st, c):
    """Vec::pop and the like of a vector that the code has filled: like one step of an iteration over it."""
    r = c.args[0]
    if r.op != "ref":
        return None
    m = E.strip(eng.load(st, r))
    flip = m
    while permuted(flip) is not None:
        flip = E.strip(permuted(flip))
    if not local_list(eng, eng.snap(st, flip)):
        return None
    it = mk("it", eng.snap(st, flip), (), C(("i", 0)))
    ev = lambda s, k, *x: eng.emit(s, E.Ev(k, "next", (it,) + x, None, c.loc, c.fr.b["id"], c.f, c.fr.stack, site=c.site))
    ev(st, "next")
    s0 = st.copy()
    outs = []
    coll = it.a[0]
    if not (coll.op == "arr" and not coll.a[0]):
        for s, v, i in elems(eng, st.copy(), coll, c.site, None, None, known=True):
            ev(s, "elem", eng.snap(s, v))
            if not (m.op == "op" and m.a[0] == "rest"):
                eng.write(s, r.a[0], r.a[1], mk("op", "rest", m), store_ev(c, r))
            outs.append((s, E.some(v)))
    eng.trace(s0, c, mk("op", "exhausted", coll), True)
    ev(s0, "exhausted")
    outs.append((s0, E.NONE))
    return outs


def m_map_remove(eng, st, c):
    """HashMap::remove of a map whose entries are all known."""
    r = c.args[0]
    if r.op != "ref" or not (is_map_ty(eng, c.argtys[0]) or "Map" in c.n):
        return None
    m, k = E.strip(eng.load(st, r)), eng.snap(st, c.args[1])
    l = local_entries(eng, eng.snap(st, m))
    if l is None:
        return None
    outs = []
    for x, y in l:
        e = eng.eq(E.strip(x), E.strip(k))
        if eng.truth(st, e) is False:
            continue
        s = st.copy()
        if eng.truth(s, e) is None:
            eng.assume(s, e, True)
        if m.op == "op" and m.a[0] == "rest":
            pass
        else:
            eng.write(s, r.a[0], r.a[1], mk("op", "rest", m), store_ev(c, r))
        outs.append((s, E.some(y)))
    t = mk("op", "get", eng.snap(st, m), k)
    eng.discr_ty[t] = "std::option::Option"
    e = eng.eq(mk("discr", t), C(("i", 0)))
    if eng.truth(st, e) is not False:
        if eng.truth(st, e) is None:
            eng.assume(st, e, True)
        outs.append((st, E.NONE))
    return outs


def m_get_mut(eng, st, c):
    r = c.args[0]
    if r.op != "ref":
        return None
    k = eng.snap(st, c.args[1])
    s2 = st.copy()
    if is_map_ty(eng, c.argtys[0]) or "Map" in c.n:
        return None
    return [(st, E.some(mk("ref", r.a[0], r.a[1] + (("ix", k),), True))), (s2, E.NONE)]


def m_endmut(eng, st, c):
    r = c.args[0]
    if r.op != "ref":
        return None
    s2 = st.copy()
    return [(st, E.some(mk("ref", r.a[0], r.a[1] + (("ix", mk("op", "endix", C(("s", c.item)))),), True))), (s2, E.NONE)]


def m_pairs_mut(eng, st, c):
    """url.query_pairs_mut(): what is appended to the serializer is appended to the URL."""
    return [(st, c.args[0])] if c.args[0].op == "ref" else None


def m_pairs_add(eng, st, c):
    r = c.args[0]
    if r.op != "ref":
        return None
    r2 = eng.load(st, r)
    if r2.op == "ref":
        r = r2
    if len(c.args) == 3:
        l = mk("arr", (mk("tup", (eng.snap(st, c.args[1]), eng.snap(st, c.args[2]))),))
    else:
        l = E.strip(eng.snap(st, c.args[1]))
        if l.op == "it" or is_it(l):
            return None
    u = E.strip(eng.load(st, r))
    if not (u.op == "fld" and str(u.a[1]).endswith("Ok.0") and u.a[0].op in ("op", "call")):
        return None
    x = u.a[0]
    n, a = simp(x.a[0]), x.a[1:] if x.op == "op" else x.a[2]
    if n.endswith("Url::parse"):
        new = (a[0], l)
    elif n.endswith("Url::parse_with_params"):
        old = E.strip(a[1])
        new = (a[0], mk("arr", old.a[0] + l.a[0]) if old.op == "arr" and l.op == "arr" else mk("op", "extend", old, l))
    else:
        return None
    eng.write(st, r.a[0], r.a[1], mk("fld", mk("op", "url::Url::parse_with_params", *new), u.a[1]), store_ev(c, r))
    return [(st, r)]


ENTRY = "std::collections::hash_map::Entry"


def m_entry(eng, st, c):
    """map.entry(k): an occupied or a vacant entry, by what the map has for k."""
    r = c.args[0]
    if r.op != "ref":
        return None
    k = eng.snap(st, c.args[1])
    m = E.strip(eng.load(st, r))
    g = map_get(eng, m, k)
    n = ENTRY if "HashMap" in c.n else "std::collections::btree_map::Entry"
    outs = []
    for var, has in ((0, 1), (1, 0)):
        if n != ENTRY:
            var = 1 - var
        if g.op == "agg":
            if g.a[1] != has:
                continue
            s2 = st.copy()
        else:
            s2 = st.copy()
            if not eng.assume_val(s2, mk("discr", g), has, True):
                continue
        outs.append((s2, mk("agg", n, var, (mk("slot", r, m, k),))))
    return outs or None


def m_vacant_insert(eng, st, c):
    x = c.args[0]
    if x.op != "slot" or x.a[0].op != "ref":
        return None
    r, old, k = x.a
    v = eng.snap(st, c.args[1])
    eng.emit(st, E.Ev("insert", simp(c.n), (old, k, v), None, c.loc, c.fr.b["id"], c.f, c.fr.stack, extra=r, site=c.site))
    eng.write(st, r.a[0], r.a[1], mk("op", "insert", old, k, v), store_ev(c, r))
    return [(st, mk("op", "inserted", k, v))]


def m_contains_key(eng, st, c):
    m, k = eng.snap(st, c.args[0]), eng.snap(st, c.args[1])
    g = map_get(eng, m, k)
    if g.op == "agg":
        return [(st, TRUE if g.a[1] else FALSE)]
    return [(st, eng.eq(mk("discr", g), C(("i", 1))))]


def m_index(eng, st, c):
    v = c.args[0]
    i = eng.snap(st, c.args[1])
    mut = c.item == "index_mut"
    if mut and v.op != "ref":
        return None
    sv = E.strip(eng.snap(st, v))
    t1 = eng.p.types[c.argtys[1]] if c.argtys[1] is not None else {"k": "?"}
    if t1["k"] == "adt" and "Range" in t1["n"]:
        if t1["n"].endswith("RangeFull"):
            return [(st, v)]
        eng.emit(st, E.Ev("slice", simp(c.n), (sv, i), None, c.loc, c.fr.b["id"], c.f, c.fr.stack, eng.p.ty(c.argtys[0]) if c.argtys[0] is not None else "", c.site))
        if mut:
            return [(st, mk("ref", v.a[0], v.a[1] + (("sl", i),), True))]
        return [(st, mk("op", "slice", sv, i))]
    s = eng.p.ty(c.f["self"]) if c.f.get("self") is not None else ""
    if "serde_json::Value" in s:
        if mut:
            return None
        return [(st, mk("op", "json", sv, i))]
    if is_map_ty(eng, c.f.get("self")) or is_map_ty(eng, c.argtys[0]):
        eng.emit(st, E.Ev("index_map", simp(c.n), (sv, i), None, c.loc, c.fr.b["id"], c.f, c.fr.stack, site=c.site))
        g = map_get(eng, sv, i)
        if g.op == "agg" and g.a[1] == 1:
            return [(st, g.a[2][0])]
        return [(st, mk("at", sv, i))]
    eng.emit(st, E.Ev("index", simp(c.n), (sv, i), None, c.loc, c.fr.b["id"], c.f, c.fr.stack, site=c.site))
    if mut:
        return [(st, mk("ref", v.a[0], v.a[1] + (("ix", i),), True))]
    return [(st, eng.index(sv, i))]


def m_len(eng, st, c):
    v = E.strip(eng.snap(st, c.args[0]))
    return [(st, eng.length(v))]


def m_is_empty(eng, st, c):
    v = E.strip(eng.snap(st, c.args[0]))
    k = cval(v)
    if type(k) in (str, bytes):
        return [(st, C(("b", len(k) == 0)))]
    return [(st, eng.eq(eng.length(v), C(("i", 0))))]


# ------------------------------------------------------------------ iterators
ITER_SRC = set("""iter iter_mut into_iter keys values drain chars bytes lines split splitn rsplitn rsplit char_indices
split_whitespace split_terminator query_pairs incoming args args_os chunks windows into_keys into_values split_ascii_whitespace
path_segments entries""".split())


def is_it(t):
    return t.op == "it" or (t.op == "op" and t.a[0].split("::")[-1] in ITER_SRC and t.a[0] not in ("insert",)
                              and not t.a[0].endswith("::incoming"))


def as_it(t):
    t = E.strip(t)
    if t.op == "it":
        return t
    return mk("it", t, (), C(("i", 0)))


def whole(it):
    """The collection that an iterator goes through (op rest: some of its elements may have been left out)."""
    if cval(it.a[2]) == 0 or it.a[0].op == "op" and it.a[0].a[0] in ("chain", "zip"):
        return it.a[0]
    k = cval(it.a[2])
    if it.a[0].op == "arr" and type(k) is int and k > 0:
        return mk("arr", it.a[0].a[0][k:])
    return mk("op", "rest", it.a[0])


def m_iter(eng, st, c):
    v = c.args[0]
    if v.op == "ref":
        if c.item == "iter_mut" or (c.item == "into_iter"):
            t = eng.p.types[c.argtys[0]] if c.argtys[0] is not None else {"k": "?"}
            inner = E.strip(eng.load(st, v))
            if inner.op == "it":
                return [(st, inner)]
            return [(st, mk("it", mk("op", "mutof", v, eng.snap(st, inner)), (), C(("i", 0))))]
        if c.item == "drain":
            inner = E.strip(eng.load(st, v))
            eng.write(st, v.a[0], v.a[1], mk("op", "emptymap") if is_map_ty(eng, c.argtys[0]) else mk("arr", ()), store_ev(c, v))
            v = inner
        else:
            v = eng.load(st, v)
    sv = E.strip(v)
    if sv.op == "it":
        return [(st, sv)]
    if sv.op == "agg" and sv.a[0] == "std::option::Option":
        return [(st, mk("it", mk("arr", sv.a[2]), (), C(("i", 0))))]
    if is_map_ty(eng, c.argtys[0]):
        return [(st, mk("it", mk("op", "entries", eng.snap(st, sv)), (), C(("i", 0))))]
    return [(st, mk("it", eng.snap(st, sv), (), C(("i", 0))))]


def m_keys(eng, st, c):
    m = E.strip(eng.snap(st, c.args[0]))
    return [(st, mk("it", mk("op", c.item.replace("into_", ""), m), (), C(("i", 0))))]


def m_adapter(eng, st, c):
    v = c.args[0]
    if v.op == "ref":
        # adapters on `&mut iterator`: the iterator itself is used up
        v = eng.load(st, v)
    it = as_it(v if v.op == "it" else eng.snap(st, v))
    item = c.item
    if item in IDENT_IT:
        if item in ("skip", "step_by", "skip_while", "take"):
            # (position -1: some elements may be left out)
            it = mk("it", it.a[0], it.a[1], C(("i", -1)))
        return [(st, it)]
    if item in ("map", "filter", "filter_map", "take_while", "map_while", "flat_map"):
        return [(st, mk("it", it.a[0], it.a[1] + (mk("stage", item, c.args[1]),), it.a[2]))]
    if item == "flatten":
        kind = "flatten"
        return [(st, mk("it", it.a[0], it.a[1] + (mk("stage", kind, UNIT),), it.a[2]))]
    if item == "enumerate":
        return [(st, mk("it", it.a[0], it.a[1] + (mk("stage", item, UNIT),), it.a[2]))]
    if item in ("chain", "zip"):
        o = as_it(eng.snap(st, c.args[1]))
        return [(st, mk("it", mk("op", item, it, o), (), C(("i", -1))))]
    return None


def elems(eng, st, coll, site, wit, pos, d=0, known=False):
    """[(state, element, index)] for an arbitrary element of a collection."""
    coll = E.strip(coll)
    if d > 8:
        return [(st, mk("ix", coll, mk("opq", "deep")), mk("opq", "deep"))]
    o = coll.op
    if o == "it":
        return [(s, v, mk("opq", "nested")) for s, v in pull(eng, st, None, coll, site, wit)]
    if o == "arr":
        if pos is not None and pos >= 0 and pos < len(coll.a[0]):
            return [(st, coll.a[0][pos], C(("i", pos)))]
        if pos is not None and pos >= len(coll.a[0]):
            return []
        if len(coll.a[0]) <= 12:
            return [(st.copy(), x, C(("i", i))) for i, x in enumerate(coll.a[0])]
    if o == "op":
        n = coll.a[0]
        if n == "emptymap":
            return []
        if n == "rest":
            return elems(eng, st, coll.a[1], site, wit, None, d + 1)
        if n == "push":
            return elems(eng, st.copy(), coll.a[1], site, wit, None, d + 1) + [(st.copy(), coll.a[2], mk("opq", "pushed"))]
        if n in ("extend", "chain"):
            r = []
            for x in coll.a[1:3]:
                if x.op == "it":
                    r += [(s, v, mk("opq", "chained")) for s, v in pull(eng, st.copy(), None, x, site, wit)]
                else:
                    r += elems(eng, st.copy(), x, site, wit, None, d + 1)
            return r
        if n == "insert":
            return elems(eng, st.copy(), coll.a[1], site, wit, None, d + 1) + \
                [(st.copy(), mk("tup", (coll.a[2], coll.a[3])), mk("opq", "inserted"))]
        if n in ("entries", "keys", "values"):
            m = coll.a[1]
            if m.op == "op" and m.a[0] in ("insert", "emptymap") or m.op in ("phi", "seqof"):
                r = []
                for s, v, i in elems(eng, st, m, site, wit, None, d + 1):
                    if v.op == "tup" and len(v.a[0]) == 2:
                        v = v if n == "entries" else v.a[0][0 if n == "keys" else 1]
                    elif n != "entries":
                        v = mk("fld", v, "0" if n == "keys" else "1")
                    r.append((s, v, i))
                return r
            ks = mk("op", "keys", m)
            i = wit or fresh_idx(eng, st, site, ks)
            k = mk("ix", ks, i)
            v = mk("at", m, k)
            eng.discr_ty[mk("op", "get", m, k)] = "std::option::Option"
            if eng.truth(st, eng.eq(mk("discr", mk("op", "get", m, k)), C(("i", 1)))) is None:
                eng.assume(st, eng.eq(mk("discr", mk("op", "get", m, k)), C(("i", 1))), True)
            return [(st, k if n == "keys" else v if n == "values" else mk("tup", (k, v)), i)]
        if n == "mutof":
            r, inner = coll.a[1], coll.a[2]
            i = wit or fresh_idx(eng, st, site, inner)
            return [(st, mk("ref", r.a[0], r.a[1] + (("ix", i),), True), i)]
        if n == "zip":
            r = []
            for s, x in pull(eng, st, None, coll.a[1], site, wit):
                for s2, y in pull(eng, s, None, coll.a[2], site + "z", None):
                    r.append((s2, mk("tup", (x, y)), mk("opq", "zip")))
            return r
    if o == "agg" and "Range" in coll.a[0]:
        i = wit or fresh_idx(eng, st, site, coll)
        return [(st, i, i)]
    if o == "seqof":
        idx, v, facts = coll.a
        ni = fresh_idx(eng, st, site, mk("op", "seqid", *[x for x in idx.a if type(x) is T]))
        v2 = subst(v, idx, ni)
        for k, f in list(st.facts.items()):
            if idx in k.atoms:
                st.facts[subst(k, idx, ni)] = f
        for k, f in facts:
            st.facts[subst(k, idx, ni)] = f
        return [(st, v2, ni)]
    if o == "phi" or known and o == "op" and coll.a[0] in ("push", "rest"):
        alts = {}
        seen = set()
        work = [coll]
        generic = False
        while work:
            x = E.strip(work.pop())
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                work += list(eng.phi_in.get(x, ()))
            elif x.op == "op" and x.a[0] == "push":
                alts[("e", x.a[2])] = None
                work.append(x.a[1])
            elif x.op == "op" and x.a[0] == "insert":
                alts[("e", mk("tup", (x.a[2], x.a[3])))] = None
                work.append(x.a[1])
            elif x.op == "op" and x.a[0] == "extend":
                work += [x.a[1], x.a[2]]
            elif x.op == "op" and x.a[0] == "rest":
                work.append(x.a[1])
            elif permuted(x) is not None:
                work.append(permuted(x))
            elif x.op == "arr":
                for y in x.a[0]:
                    alts[("e", y)] = None
            elif x.op == "old":
                work.append(x.a[1])
            elif x.op == "upd":
                generic = True
            elif x.op in ("opq",) or (x.op == "op" and x.a[0] in ("emptymap",)):
                pass
            else:
                alts[("c", x)] = None
        r = []
        if generic:
            i = wit or fresh_idx(eng, st, site, coll)
            return [(st, eng.index(coll, i), i)]
        for k, x in alts:
            if k == "e":
                r.append((st.copy(), x, mk("opq", "pushed")))
            else:
                r += elems(eng, st.copy(), x, site, wit, None, d + 1)
        return r
    if pos is not None and pos >= 0 and is_it(coll):
        return [(st, eng.index(coll, C(("i", pos))), C(("i", pos)))]
    i = wit or fresh_idx(eng, st, site, coll)
    return [(st, eng.index(coll, i), i)]


def fresh_idx(eng, st, site, coll):
    i = mk("idx", site, coll)
    eng.fresh(st, i)
    return i


def pull(eng, st, c, it, site, wit=None, seen=None):
    """[(state, element)] for an arbitrary element the iterator can produce."""
    pos = cval(it.a[2])
    stages = it.a[1]
    if stages:
        pos = None
    outs = [(s, v, i) for s, v, i in elems(eng, st, it.a[0], site, wit, pos)]
    if seen is not None:
        for s, v, i in outs:
            seen(s, v)
    for j, sg in enumerate(stages):
        nxt = []
        kind, clo = sg.a
        for s, v, i in outs:
            if kind == "enumerate":
                nxt.append((s, mk("tup", (i, v)), i))
            elif kind == "flatten":
                nxt.append((s, flat(eng, s, v), i))
            else:
                for s2, r in eng.call_value(s, c.fr if c is not None else eng.fr0, clo, [v], "%s.s%d" % (site, j), c.loc if c else None):
                    if kind == "map":
                        nxt.append((s2, r, i))
                    elif kind == "flat_map":
                        nxt.append((s2, flat(eng, s2, r), i))
                    elif kind in ("filter", "take_while"):
                        s3 = s2.copy()
                        if c is not None and eng.assume(s3, eng.snap(s3, r), False):
                            eng.emit(s3, E.Ev("skip", kind, (v,), None, c.loc, c.fr.b["id"], c.f, c.fr.stack, site=c.site))
                        if eng.assume(s2, eng.snap(s2, r), True):
                            eng.trace(s2, c, eng.snap(s2, r), True)
                            nxt.append((s2, v, i))
                    else:
                        r = E.strip(eng.snap(s2, r))
                        if r.op == "agg":
                            if r.a[1] == 1:
                                nxt.append((s2, r.a[2][0], i))
                        elif eng.assume_val(s2, mk("discr", r), 1, True):
                            nxt.append((s2, eng.fld(r, "std::option::Option::Some.0", 0), i))
        outs = nxt
    return [(s, v) for s, v, i in outs]


def flat(eng, st, v):
    v = E.strip(v)
    if v.op == "agg" and len(v.a[2]) == 1:
        return v.a[2][0]
    if v.op == "it":
        return mk("ix", eng.snap(st, v), mk("opq", "flat"))
    if v.op == "ref":
        return v
    return mk("op", "flat", v)


def get_it(eng, st, c):
    v = c.args[0]
    n = 0
    while v.op == "ref" and n < 5:
        v = eng.load(st, v)
        n += 1
    v = E.strip(v)
    return as_it(v if v.op == "it" else eng.snap(st, v))


def m_next(eng, st, c):
    if c.r in eng.p.bodies and eng.p.bodies[c.r]["local"]:
        return None
    r = c.args[0]
    if r.op != "ref":
        return None
    it = get_it(eng, st, c)
    eng.emit(st, E.Ev("next", "next", (it,), None, c.loc, c.fr.b["id"], c.f, c.fr.stack, site=c.site))
    s0 = st.copy()
    outs = []
    pos = cval(it.a[2])
    if not it.a[1] and pos >= 0:
        a = it.a[0]
        if a.op == "arr" and len(a.a[0]) <= 40:
            if pos >= len(a.a[0]):
                eng.emit(st, E.Ev("exhausted", "next", (it,), None, c.loc, c.fr.b["id"], c.f, c.fr.stack, site=c.site))
                return [(st, E.NONE)]
            eng.write(st, r.a[0], r.a[1], mk("it", a, (), C(("i", pos + 1))))
            eng.emit(st, E.Ev("elem", "next", (it, eng.snap(st, a.a[0][pos])), None, c.loc, c.fr.b["id"], c.f, c.fr.stack, site=c.site))
            return [(st, E.some(a.a[0][pos]))]
        if is_it(a):
            eng.write(st, r.a[0], r.a[1], mk("it", a, (), C(("i", min(pos + 1, 9)))))
    for s, v in pull(eng, st, c, it, c.site):
        eng.emit(s, E.Ev("elem", "next", (it, eng.snap(s, v)), None, c.loc, c.fr.b["id"], c.f, c.fr.stack, site=c.site))
        outs.append((s, E.some(v)))
    eng.trace(s0, c, mk("op", "exhausted", it.a[0]), True)
    eng.emit(s0, E.Ev("exhausted", "next", (it,), None, c.loc, c.fr.b["id"], c.f, c.fr.stack, site=c.site))
    outs.append((s0, E.NONE))
    return outs


def m_consume(eng, st, c):
    if c.r in eng.p.bodies and eng.p.bodies[c.r]["local"]:
        return None
    it = get_it(eng, st, c)
    item = c.item
    clo = c.args[1] if len(c.args) > 1 else None
    if item in ("count", "sum", "product", "min", "max", "last", "nth"):
        if item in ("count", "sum", "product"):
            s1 = st.copy()
            outs = pull(eng, s1, c, it, c.site)
            return [(st, mk("op", item, eng.snap(st, mk("it", whole(it), it.a[1], C(("i", 0))))))]
        if item == "nth" and not it.a[1]:
            k = cval(eng.snap(st, clo))
            if type(k) is int and cval(it.a[2]) == 0:
                t = mk("op", "getix", it.a[0], C(("i", k)))
                eng.discr_ty[t] = "std::option::Option"
                return [(st, t)]
        s0 = st.copy()
        r = [(s, E.some(mk("op", item + "of", eng.snap(s, v)) if item in ("min", "max") else v))
             for s, v in pull(eng, st, c, it, c.site)]
        eng.emit(s0, E.Ev("empty", item, (it,), None, c.loc, c.fr.b["id"], c.f, c.fr.stack, site=c.site))
        return r + [(s0, E.NONE)]
    if item in ("find", "any", "all", "position", "find_map", "rposition"):
        key = mk("op", "wit", it.a[0], C(("s", "")), eng.snap(st, clo), *[eng.snap(st, x) for x in it.a[1]])
        w = mk("op", "wit", it.a[0], eng.snap(st, clo), *[eng.snap(st, x) for x in it.a[1]])
        if it.a[0].op in ("phi", "seqof") or it.a[0].op == "idx":
            w = None
        s0 = st.copy()
        outs = []
        want = item != "all"
        neg = {"any": FALSE, "all": TRUE}.get(item, E.NONE)
        # remember the answer for this very question
        q = mk("op", "exists", C(("s", "all" if item == "all" else "any")), whole(it), eng.snap(st, clo), *[eng.snap(st, x) for x in it.a[1]])
        known = eng.truth(st, q)
        if known is not False:
            site = c.site
            if w is not None:
                rs = []
                for s, v, i in elems_staged(eng, st, c, it, site, w):
                    rs.append((s, v, i))
            else:
                rs = elems_staged(eng, st, c, it, site, None)
            for s, v, i in rs:
                for s2, b in eng.call_value(s, c.fr, clo, [v], c.site + ".p", c.loc):
                    b = E.strip(eng.snap(s2, b))
                    if item == "find_map":
                        if b.op == "agg":
                            if b.a[1] == 1:
                                outs.append((s2, b))
                        elif eng.assume_val(s2, mk("discr", b), 1, True):
                            outs.append((s2, E.some(eng.fld(b, "std::option::Option::Some.0", 0))))
                        continue
                    if eng.assume(s2, b, want):
                        eng.assume(s2, q, True)
                        eng.trace(s2, c, b, want)
                        outs.append((s2, {"find": E.some(v), "any": TRUE, "all": FALSE}.get(item, E.some(i))))
        if known is not True:
            if eng.assume(s0, q, False):
                eng.trace(s0, c, q, False)
                outs.append((s0, neg))
        return outs
    if item in ("for_each", "try_for_each", "fold", "try_fold"):
        def ev(kind, s):
            eng.emit(s, E.Ev(kind, "next", (it,), None, c.loc, c.fr.b["id"], c.f, c.fr.stack, site=c.site))
        ev("next", st)
        s0 = st.copy()
        outs = []
        acc = c.args[1] if "fold" in item else UNIT
        fn = c.args[2] if "fold" in item else clo
        ev("exhausted", s0)
        outs.append((s0, acc))
        cur = [(st, acc)]
        for rnd in range(2):
            nx = []
            for s, a in cur:
                for s2, v in pull(eng, s, c, it, c.site):
                    eng.emit(s2, E.Ev("elem", "next", (it, eng.snap(s2, v)), None, c.loc, c.fr.b["id"], c.f, c.fr.stack, site=c.site))
                    for s3, r in eng.call_value(s2, c.fr, fn, ([a, v] if "fold" in item else [v]), c.site + ".f", c.loc):
                        nx.append((s3, r if "fold" in item else UNIT))
            for s, a in nx:
                ev("next", s)
                s1 = s.copy()
                ev("exhausted", s1)
                outs.append((s1, a))
            cur = nx
        if item == "try_for_each":
            return None if not outs else [(s, mk("opq", "try_for_each")) for s, a in outs]
        return outs
    if item in ("collect", "partition"):
        return collect(eng, st, c, it)
    return None


def elems_staged(eng, st, c, it, site, wit):
    """As pull, but with the index."""
    if not it.a[1]:
        return elems(eng, st, it.a[0], site, wit, None)
    return [(s, v, mk("op", "posof", eng.snap(s, v))) for s, v in pull(eng, st, c, it, site, wit)]


def collect(eng, st, c, it):
    if not it.a[1]:
        if it.a[0].op == "op" and it.a[0].a[0] == "mutof":
            return [(st, eng.snap(st, it.a[0].a[2]))]
        v = it.a[0]
        if v.op == "op" and v.a[0] == "entries":
            v = v.a[1]
        w = whole(it)
        if w is not it.a[0]:
            v = w if w.op == "arr" else mk("op", "rest", v)
        return [(st, v)]
    base = it.a[0]
    before = dict(st.facts)
    s0 = st.copy()
    outs = []

    def ev(kind, s, *a):
        eng.emit(s, E.Ev(kind, "next", (it,) + a, None, c.loc, c.fr.b["id"], c.f, c.fr.stack, site=c.site))
    ev("next", st)
    for s, v in pull(eng, st, c, it, c.site, seen=lambda s, v: ev("elem", s, eng.snap(s, v))):
        idx = mk("idx", c.site, base)
        v = eng.snap(s, v)
        eng.emit(s, E.Ev("push", "collect", (mk("arr", ()), v), None, c.loc, c.fr.b["id"], c.f, c.fr.stack, site=c.site))
        if idx in v.atoms or any(idx in k.atoms for k in s.facts):
            facts = tuple(sorted(((k, f) for k, f in s.facts.items() if idx in k.atoms), key=lambda x: x[0].id))
            q = mk("seqof", idx, v, facts)
            outs.append((s, q if whole(it) is base else mk("op", "rest", q)))
        else:
            outs.append((s, mk("op", "push", mk("arr", ()), v)))
        ev("next", s)
        ev("exhausted", s)
    if not outs:
        ev("exhausted", s0)
        outs = [(s0, mk("arr", ()))]
    return outs


# ------------------------------------------------------------------ strings: searching and splitting
def m_split_once(eng, st, c):
    v, d = eng.snap(st, c.args[0]), eng.snap(st, c.args[1])
    t = mk("op", "core::str::<impl str>::splitn", v, C(("i", 2)), d)
    s2 = st.copy()
    outs = []
    if eng.assume_val(st, eng.length(t), 2, True):
        outs.append((st, E.some(mk("tup", (mk("ix", t, C(("i", 0))), mk("ix", t, C(("i", 1))))))))
    if eng.assume_val(s2, eng.length(t), 2, False):
        outs.append((s2, E.NONE))
    return outs


def m_str_lit(eng, st, c):
    return [(st, fmtcat([eng.snap(st, c.args[0])]))]


# ------------------------------------------------------------------ CTGuard primitives
def prim_table(eng):
    """{body id: primitive}: recognised by their signatures (names only break ties)."""
    p = eng.p
    t = getattr(p, "_prims", None)
    if t is not None:
        return t
    cand = {}
    for b in p.local:
        if b["kind"] != "method":
            continue
        if p.adt_of(b.get("implself")) != "pizauth::server::state::CTGuard":
            continue
        sig = [p.ty(b["locals"][i][0]) for i in range(b["argc"] + 1)]
        ret, args = sig[0], sig[1:]
        short_ = [re.sub(r"^(&mut |&)*", "", x).split("<")[0].split("::")[-1] for x in args]
        if not args or short_[0] != "CTGuard":
            continue
        mut = args[0].startswith("&mut")
        r = ret
        rest = args[1:]
        name = b["id"].split("::")[-1]
        kind = None
        if not mut and not rest and ret.endswith("config::Config"):
            kind = "config"
        elif not mut and not rest and ("Iterator" in ret or "Map<" in ret or "Vec<" in ret or "other" in ret or "impl" in ret or "opaque" in ret):
            kind = "act_ids"
        elif not mut and rest == ["&str"] and "Option<" in ret and "AccountId" in ret:
            txt = repr([bl for x in p.local if x["id"].startswith(b["id"]) for bl in x["blocks"]])
            kind = "act_id_matching_token_state" if "TokenState::Pending.state" in txt else "validate_act_name"
        elif not mut and len(rest) == 1 and rest[0].endswith("AccountId"):
            if ret == "bool":
                kind = "is_act_id_valid"
            elif ret.endswith("config::Account"):
                kind = "account"
            elif ret.endswith("TokenState"):
                kind = "tokenstate"
        elif mut and len(rest) == 2 and rest[0].endswith("AccountId"):
            if rest[1].endswith("TokenState"):
                kind = "tokenstate_replace"
            elif rest[1] == "bool":
                kind = "tokenstate_set_ongoing_refresh"
            elif rest[1].endswith("Instant"):
                kind = "tokenstate_set_last_notification"
        if kind:
            cand.setdefault(kind, []).append((name, b["id"], ret))
    t = {}
    for kind, l in cand.items():
        byname = [x for x in l if x[0] == kind]
        pick = byname or (l if len(l) == 1 else [])
        for name, bid, ret in pick:
            t[bid] = kind
    p._prims = t
    return t


def guard_of(eng, st, v):
    n = 0
    while n < 5 and v.op in ("ref", "shr"):
        v = eng.load(st, v) if v.op == "ref" else v.a[0]
        n += 1
    for x in eng.owned_guards(v):
        return x
    for x in subterms(eng.snap(st, v)):
        if x.op in ("guard", "xguard"):
            return x
    return E.strip(eng.snap(st, v))


def valid_t(g, i):
    return mk("op", "valid", g, i)


def id_root(i):
    """The id an id was derived from under the same account."""
    n = 0
    while i.op == "call" and i.a[0] in ("tokenstate_replace", "tokenstate_set_ongoing_refresh") and n < 50:
        i = i.a[2][1]
        n += 1
    return i


def version(eng, st, g):
    return st.heap.get((mk("ver", g), ()), C(("i", 0)))


TS = "pizauth::server::state::TokenState"


def ts_index(eng, name):
    for k, v in enumerate(eng.p.adts[TS]["v"]):
        if v["n"] == name:
            return k, v
    return None, None


def set_ongoing(eng, st, old, val):
    lab = TS + "::Active.ongoing_refresh"
    vi, v = ts_index(eng, "Active")
    idx = [k for k, f in enumerate(v["f"]) if f[0] == "ongoing_refresh"]
    if old.op == "agg":
        return eng.setp(old, (("f", idx[0], lab),), val) if idx and old.a[1] == vi else old
    new = mk("upd", old, lab, val)
    eng.discr_ty[new] = TS
    st.facts[mk("discr", new)] = ("=", int(v["d"]))
    return new


def known_state(eng, st, i, d=0):
    """The token state that was installed together with id i (which is still in place if i is valid), or None.
    Pending states are left out: their last_notification may change without a new id."""
    if d > 8 or i.op != "call" or i.a[0] not in ("tokenstate_replace", "tokenstate_set_ongoing_refresh"):
        return None
    if i.a[0] == "tokenstate_replace":
        v = i.a[2][2]
        n = eng.variant(st, v)
        if n is None and v.op == "upd":
            while v.op == "upd":
                n = n or (v.a[1].split("::")[-1].split(".")[0] if type(v.a[1]) is str and v.a[1].startswith(TS) else None)
                v = v.a[0]
            v = i.a[2][2]
        if n in (None, "Pending"):
            return None
        if v.op != "agg":
            eng.discr_ty[v] = TS
            st.facts[mk("discr", v)] = ("=", int(ts_index(eng, n)[1]["d"]))
        return v
    old = known_state(eng, st, i.a[2][1], d + 1)
    if old is None:
        old = mk("op", "tokenstate", i.a[2][0], i.a[2][1])
    return set_ongoing(eng, st, old, i.a[2][2])


def tokenstate_of(eng, st, g, i):
    h = st.heap.get((mk("tsof", g, i), ()))
    if h is not None:
        return h
    k = known_state(eng, st, i)
    if k is not None:
        return k
    t = mk("op", "tokenstate", g, i)
    d = mk("discr", t)
    if d not in st.facts:
        # The same reference always stands for a state of the same variant.
        if i.op == "fld" and i.a[0].op == "op" and i.a[0].a[0] == "act_id_matching_token_state":
            for v in eng.p.adts[TS]["v"]:
                if v["n"] == "Pending":
                    st.facts[d] = ("=", int(v["d"]))
        else:
            for f, v in list(st.facts.items()):
                if f.op == "discr" and f.a[0].op == "op" and f.a[0].a[0] == "tokenstate" and f.a[0].a[2] is i and \
                        (d not in st.facts or v[0] == "="):
                    st.facts[d] = v
    return t


def m_prim(eng, st, c, kind):
    g = guard_of(eng, st, c.args[0])
    args = [eng.snap(st, a) for a in c.args[1:]]
    args = [E.strip(a) for a in args]

    def emit(ret):
        eng.emit(st, E.Ev("prim", kind, (g,) + tuple(args), ret, c.loc, c.fr.b["id"], c.f, c.fr.stack, site=c.site,
                          extra=c))
    if kind == "config":
        ret = mk("op", "config", g)
        emit(ret)
        return [(st, ret)]
    if kind in ("validate_act_name", "act_id_matching_token_state"):
        ret = mk("op", kind, g, args[0], version(eng, st, g))
        eng.discr_ty[ret] = "std::option::Option"
        emit(ret)
        return [(st, ret)]
    if kind == "act_ids":
        ret = mk("it", mk("op", "act_ids", g, version(eng, st, g)), (), C(("i", 0)))
        emit(ret)
        return [(st, ret)]
    if kind == "is_act_id_valid":
        i = args[0]
        ret = valid_t(g, i)
        if born_valid(i, g) and st.facts.get(ret) is None:
            ret = TRUE
        emit(ret)
        return [(st, ret)]
    i = args[0]
    if kind == "account":
        ret = mk("op", "account", g, id_root(i))
        emit(ret)
        return [(st, ret)]
    if kind == "tokenstate":
        ret = tokenstate_of(eng, st, g, i)
        eng.discr_ty[ret] = "pizauth::server::state::TokenState"
        emit(ret)
        return [(st, ret)]
    if kind == "tokenstate_set_last_notification":
        emit(UNIT)
        old = tokenstate_of(eng, st, g, i)
        new = mk("upd", old, "pizauth::server::state::TokenState::Pending.last_notification", E.some(args[1]))
        st.heap[(mk("tsof", g, i), ())] = new
        eng.discr_ty[new] = "pizauth::server::state::TokenState"
        ad = eng.p.adts["pizauth::server::state::TokenState"]
        for k, v in enumerate(ad["v"]):
            if v["n"] == "Pending":
                st.facts[mk("discr", new)] = ("=", int(v["d"]))
        return [(st, UNIT)]
    # replace, set_ongoing
    old = tokenstate_of(eng, st, g, i)
    ret = mk("call", kind, c.site, (g,) + tuple(args))
    eng.fresh(st, ret)
    emit(ret)
    if kind == "tokenstate_replace":
        new = args[1]
    else:
        new = set_ongoing(eng, st, old, args[1])
    st.heap[(mk("tsof", g, ret), ())] = new
    st.heap[(mk("ver", g), ())] = mk("op", "ver", version(eng, st, g), ret)
    # Another reference may be one to the same account.
    for k in [k for k, f in st.facts.items() if k.op == "op" and k.a[0] == "valid" and k.a[1] is g and f == ("=", True)]:
        if k.a[2] is not i and not distinct(k.a[2], i):
            del st.facts[k]
    st.facts[valid_t(g, i)] = ("=", False)
    st.facts[valid_t(g, ret)] = ("=", True)
    return [(st, ret)]


def distinct(i, j):
    """Two different elements of one list of ids?"""
    return i.op == "ix" and j.op == "ix" and i.a[0] is j.a[0]


def id_ok(eng, st, g, i):
    """Is i known to be a valid id under the (held) guard g?"""
    f = st.facts.get(valid_t(g, i))
    if f is not None:
        return f == ("=", True)
    if not born_valid(i, g):
        return False
    if i.op == "call":
        return True
    birth = i.a[0].a[-1]
    seen = set()
    work = [version(eng, st, g)]
    while work:
        x = work.pop()
        if x is birth or x in seen:
            continue
        seen.add(x)
        # Something was replaced since: was it certainly another account?
        if x.op == "op" and x.a[0] == "ver":
            if not distinct(x.a[2].a[2][1], i):
                return False
            work.append(x.a[1])
        elif x.op == "phi":
            work += list(eng.phi_in.get(x, ()))
    return True


def born_valid(i, g):
    """Was id term i obtained as a valid id under guard g?"""
    if i.op == "fld" and i.a[0].op == "op" and i.a[0].a[0] in ("validate_act_name", "act_id_matching_token_state"):
        return i.a[0].a[1] is g
    if i.op == "ix" and i.a[0].op == "op" and i.a[0].a[0] == "act_ids":
        return i.a[0].a[1] is g
    if i.op == "call" and i.a[0] in ("tokenstate_replace", "tokenstate_set_ongoing_refresh"):
        return i.a[2][0] is g
    return False


# ------------------------------------------------------------------ dispatch
CONSUME = set("count sum product min max last nth find any all position rposition find_map for_each try_for_each fold try_fold collect partition".split())
ADAPT = set("map filter filter_map take_while map_while flat_map flatten enumerate chain zip".split()) | IDENT_IT

EXACT = {
    "std::fmt::Arguments::new": m_arguments_new,
    "std::fmt::Arguments::from_str": m_str_lit,
    "std::fmt::Arguments::from_str_nonconst": m_str_lit,
    "std::fmt::format": m_str_lit,
    "std::string::String::push_str": m_push_str,
    "std::string::String::push": m_push_str,
    "std::fmt::Write::write_str": m_push_str,
    "std::sync::Mutex::lock": m_lock,
    "std::sync::Mutex::try_lock": m_lock,
    "std::sync::RwLock::read": m_lock,
    "std::sync::RwLock::write": m_lock,
    "std::sync::Condvar::wait": m_wait,
    "std::sync::Condvar::wait_timeout": m_wait,
    "std::sync::Condvar::wait_timeout_ms": m_wait,
    "std::sync::Condvar::wait_while": m_wait,
    "std::sync::Condvar::wait_timeout_while": m_wait,
    "std::mem::drop": m_drop,
    "std::mem::replace": m_replace,
    "std::mem::take": m_replace,
    "std::mem::swap": m_swap,
    "std::default::Default::default": m_default,
    "std::cmp::PartialEq::eq": m_eq,
    "std::cmp::PartialEq::ne": m_eq,
    "std::cmp::PartialOrd::lt": m_cmp,
    "std::cmp::PartialOrd::le": m_cmp,
    "std::cmp::PartialOrd::gt": m_cmp,
    "std::cmp::PartialOrd::ge": m_cmp,
    "std::ops::Not::not": m_not,
    "std::sync::Mutex::new": m_mutex_new,
    "std::thread::spawn": m_spawn,
    "std::thread::Builder::spawn": m_spawn,
    "std::thread::Scope::spawn": m_spawn,
    "std::ops::FnOnce::call_once": m_call,
    "std::ops::FnMut::call_mut": m_call,
    "std::ops::Fn::call": m_call,
    "std::boxed::box_assume_init_into_vec_unsafe": m_uninit_box,
    "std::process::exit": m_exit,
    "std::process::abort": m_exit,
    "std::ops::Index::index": m_index,
    "std::ops::IndexMut::index_mut": m_index,
    "std::vec::Vec::push": m_push,
    "std::collections::VecDeque::push_back": m_push,
    "std::vec::Vec::pop": m_vec_pop,
    "std::collections::VecDeque::pop_front": m_vec_pop,
    "std::collections::VecDeque::pop_back": m_vec_pop,
    "std::collections::VecDeque::push_front": None,
    "std::vec::Vec::append": m_extend,
    "std::vec::Vec::extend_from_slice": m_extend,
    "std::iter::Extend::extend": m_extend,
    "std::collections::HashMap::insert": m_insert,
    "std::collections::BTreeMap::insert": m_insert,
    "std::vec::Vec::insert": m_insert,
    "std::collections::HashSet::insert": m_set_insert,
    "std::collections::BTreeSet::insert": m_set_insert,
    "serde_json::Map::insert": m_insert,
    "std::collections::HashMap::get": m_get,
    "std::collections::BTreeMap::get": m_get,
    "std::collections::HashMap::remove": m_map_remove,
    "std::collections::BTreeMap::remove": m_map_remove,
    "core::slice::get": m_get,
    "serde_json::Value::get": m_get,
    "serde_json::Map::get": m_get,
    "url::Url::query_pairs_mut": m_pairs_mut,
    "url::form_urlencoded::Serializer::extend_pairs": m_pairs_add,
    "url::form_urlencoded::Serializer::append_pair": m_pairs_add,
    "std::collections::HashMap::entry": m_entry,
    "std::collections::hash_map::VacantEntry::insert": m_vacant_insert,
    "std::collections::hash_map::VacantEntry::insert_entry": m_vacant_insert,
    "std::collections::btree_map::VacantEntry::insert": m_vacant_insert,
    "std::collections::BTreeMap::entry": m_entry,
    "std::collections::HashMap::contains_key": m_contains_key,
    "std::collections::BTreeMap::contains_key": m_contains_key,
    "core::slice::get_mut": m_get_mut,
    "core::slice::last_mut": m_endmut,
    "core::slice::first_mut": m_endmut,
    "core::slice::iter": m_iter,
    "core::slice::iter_mut": m_iter,
    "std::iter::IntoIterator::into_iter": m_iter,
    "std::collections::HashMap::iter": m_iter,
    "std::collections::HashMap::drain": m_iter,
    "std::collections::HashMap::keys": m_keys,
    "std::collections::HashMap::values": m_keys,
    "std::collections::HashMap::into_keys": m_keys,
    "std::collections::HashMap::into_values": m_keys,
    "std::collections::HashSet::iter": m_iter,
    "std::collections::HashSet::drain": m_iter,
    "std::collections::VecDeque::iter": m_iter,
    "std::collections::VecDeque::drain": m_iter,
    "std::vec::Vec::drain": m_iter,
    "std::vec::Vec::iter": m_iter,
    "std::iter::Iterator::next": m_next,
    "core::str::split_once": m_split_once,
    "std::fmt::Formatter::write_fmt": None,
    "std::io::Write::write_fmt": m_write_fmt,
    "std::fmt::Write::write_fmt": m_write_fmt,
}
for _n in ("std::vec::Vec", "core::slice", "core::str", "std::string::String", "std::collections::HashMap",
           "std::collections::HashSet", "std::collections::VecDeque", "std::collections::BTreeMap"):
    EXACT[_n + "::len"] = m_len
    EXACT[_n + "::is_empty"] = m_is_empty
for _n in ("std::vec::Vec", "std::string::String", "std::collections::HashMap", "std::collections::HashSet",
           "std::collections::BTreeMap"):
    EXACT[_n + "::new"] = m_empty
    EXACT[_n + "::with_capacity"] = m_empty


def lookup(eng, c):
    n = simp(c.n)
    if c.f.get("local") or c.r in eng.p.bodies or c.n in eng.p.bodies:
        if eng.prims:
            k = prim_table(eng).get(c.r) or prim_table(eng).get(c.n)
            if k:
                return lambda e, s, cc: m_prim(e, s, cc, k)
    if PANIC.search(n):
        return m_panic
    if n in EXACT:
        return EXACT[n]
    if n.startswith("core::fmt::rt::Argument::new"):
        return m_fmtarg
    if n in IDENT:
        return m_ident
    if n.startswith("std::iter::Iterator::") or n.startswith("std::iter::DoubleEndedIterator::"):
        if c.item in ADAPT:
            return m_adapter
        if c.item in CONSUME:
            return m_consume
    if n.endswith("Duration::from_secs") or n.endswith("Duration::from_millis") or n.endswith("Duration::from_mins") or n.endswith("Duration::from_hours"):
        return m_duration
    return None
