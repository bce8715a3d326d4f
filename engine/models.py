"""Models of the library functions the program relies on."""
import functools
from terms import *
from interp import Event, NeedSummary, Limit, LoopCtx, Loc, Fallible

MODELS = {}


def m(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def join(it, inst, outs):
    return outs


# ---------------------------------------------------------------------------------------
# policy

DEP_FOLLOW = (
    "::id", "::check_id",
)


def follow_std(inst, callee):
    p = inst["path"]
    for bad in ("core::fmt", "core::panicking", "core::str::", "core::num::", "std::io", "alloc::fmt", "alloc::vec", "alloc::string",
                "core::slice::", "alloc::slice", "std::collections", "hashbrown", "core::hash", "alloc::raw_vec", "alloc::alloc",
                "core::ptr", "core::intrinsics", "core::iter", "core::cell", "alloc::rc", "alloc::sync", "std::sync", "std::thread",
                "std::env", "std::path", "std::fs", "std::process", "core::char", "core::unicode", "core::array", "std::hash",
                "core::sync", "std::time", "core::time", "alloc::collections", "core::any", "core::error", "std::error", "core::alloc",
                "std::rt", "std::panicking", "alloc::borrow", "std::ffi", "core::ffi", "std::os", "alloc::boxed", "core::task", "core::future",
                "core::async_iter", "core::pin"):
        if p.startswith(bad) or p.startswith("<" + bad):
            return False
    if p.startswith("<"):
        head = p[1:].split(" as ")[0]
        for bad in ("alloc::vec", "alloc::string", "core::slice", "alloc::boxed", "core::cell", "alloc::rc", "alloc::sync", "core::iter",
                    "std::collections", "[T", "alloc::collections"):
            if head.startswith(bad):
                return False
    return True


def follow_dep(inst, callee):
    p = inst["path"]
    if p.endswith("::id") or p.endswith("::check_id"):
        return True
    return False


EFFECT_CRATES = ("solana_rpc_client::", "solana_client::", "solana_clap_v3_utils::", "solana_remote_wallet::", "solana_cli_config::",
                 "tokio::", "std::io::", "std::fs::", "std::process::", "std::env::", "solana_cpi::")


def effectful(it, c):
    p = c.path
    q = p[1:] if p.startswith("<") else p
    return q.startswith(EFFECT_CRATES)


def reads_accounts(it, c):
    for i in range(len(c.atys or ())):
        t = c.argty(i)
        if t and "AccountInfo" in t:
            return True
    return False


def is_event(it, c):
    return effectful(it, c) or reads_accounts(it, c)


# ---------------------------------------------------------------------------------------
# helpers

def ret(st, v):
    return [(st, v)]


def unit(st):
    return [(st, UNIT)]


def each(outs, f):
    r = []
    for st, v in outs:
        r.extend(f(st, v))
    return r


def deepv(it, st, v):
    return it.deep(st, v)


def view(it, st, v):
    """a reference to the innermost non-reference value"""
    n = 0
    while v.op == "ptr":
        w = it.load(st, v.a[0], v.a[1])
        if w.op != "ptr":
            return v
        v = w
        n += 1
        if n > 40:
            raise Limit("view")
    return v


def elem_ref(it, st, base, i):
    """reference to element i (a term) of the sequence referenced by base"""
    base = view(it, st, base)
    if base.op == "ptr":
        v = it.load(st, base.a[0], base.a[1])
        if v.op in ("seq", "bytes", "upd", "updsub", "repeat") or i.op == "int" or i.op == "elem":
            return T("ptr", base.a[0], base.a[1] + (("i", i),))
        return T("ptr", base.a[0], base.a[1] + (("i", i),))
    return mk_idx(base, i)


def sub_ref(it, st, base, a, b):
    base = view(it, st, base)
    if base.op == "ptr":
        if a is I(0) and b is None:
            return base
        v = it.load(st, base.a[0], base.a[1])
        if v.op in ("seq", "bytes"):
            return T("ptr", base.a[0], base.a[1] + (("sub", a, b),))
        return T("ptr", base.a[0], base.a[1] + (("sub", a, b),))
    return mk_slice(base, a, b)


def slen(it, st, v):
    return it.freeze(st, it.slen(st, v))


def fz(it, st, v):
    return it.freeze(st, v)


# ---------------------------------------------------------------------------------------
# identity-like conversions

@m("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned")
def clone(it, st, c, a):
    v = it.deref(st, a[0])
    # a clone of a reference stays a reference; a clone of a value is that value
    t = c.argty(0) or ""
    if v.op == "ptr" and not t.startswith("&&"):
        # Box / Rc: clone the contents
        if t.startswith("&alloc::boxed::Box"):
            return ret(st, it.ref(st, it.deref(st, v)))
    return ret(st, v)


def ident_view(it, st, c, a):
    return ret(st, view(it, st, a[0]))


for n in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref",
          "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut",
          "alloc::string::String::as_str", "alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice",
          "core::str::<impl str>::as_bytes", "alloc::string::String::as_bytes", "core::array::<impl [T; N]>::as_slice",
          "core::array::<impl [T; N]>::each_ref", "alloc::string::String::as_mut_str", "core::str::<impl str>::as_str"):
    MODELS[n] = ident_view


def ident(it, st, c, a):
    return ret(st, a[0])


for n in ("core::hint::must_use", "core::convert::identity", "core::hint::black_box", "solana_address::Address::new_from_array",
          "alloc::vec::Vec::<T, A>::into_boxed_slice", "core::pin::Pin::<Ptr>::new", "core::pin::Pin::<Ptr>::new_unchecked",
          "core::pin::Pin::<&'a mut T>::get_unchecked_mut", "core::pin::Pin::<&'a mut T>::get_mut",
          "core::mem::manually_drop::ManuallyDrop::<T>::new", "core::mem::manually_drop::ManuallyDrop::<T>::into_inner",
          "alloc::string::String::into_bytes", "alloc::string::String::into_boxed_str", "core::iter::traits::iterator::Iterator::by_ref",
          "alloc::slice::<impl [T]>::into_vec", "core::future::into_future::IntoFuture::into_future"):
    MODELS[n] = ident


def load_ident(it, st, c, a):
    return ret(st, deepv(it, st, a[0]))


for n in ("solana_address::Address::to_bytes", "solana_address::Address::as_array", "alloc::slice::<impl [T]>::to_vec",
          "alloc::str::<impl str>::to_owned", "core::str::<impl str>::to_string", "alloc::str::<impl str>::to_string",
          "alloc::slice::<impl [T]>::to_owned", "alloc::str::<impl str>::into_string"):
    MODELS[n] = load_ident


@m("alloc::string::ToString::to_string")
def to_string(it, st, c, a):
    t = (c.targs() or ("",))[0]
    return ret(st, display(t, fz(it, st, deepv(it, st, a[0]))))


def display(t, v):
    """the text of a value's Display form"""
    t = t.lstrip("&")
    if t in ("str", "alloc::string::String") or v.op == "str":
        return v
    return app("to_string", T("ty", (t,)), v)


TRANSPARENT_FROM = (
    "solana_zero_copy::unaligned::", "spl_pod::primitives::",
)


def conv(it, st, c, a, src, dst):
    """From/Into between representations of the same value"""
    v = a[0]
    if src == dst:
        return ret(st, v)
    strs = ("&str", "alloc::string::String", "&alloc::string::String", "str", "alloc::boxed::Box<str>", "&mut str")
    if src in strs and dst in ("alloc::string::String", "alloc::boxed::Box<str>", "alloc::borrow::Cow<'_, str>"):
        return ret(st, deepv(it, st, v))
    if src in strs and dst in ("alloc::vec::Vec<u8>",):
        return ret(st, deepv(it, st, v))
    if dst.startswith(("alloc::vec::Vec<", "alloc::boxed::Box<[")) and (src.startswith(("[", "&[", "&mut [", "alloc::boxed::Box<[", "alloc::vec::Vec<"))):
        return ret(st, deepv(it, st, v))
    if "Address" in src and dst.startswith("[u8"):
        return ret(st, deepv(it, st, v))
    if "Address" in dst and src.startswith("[u8"):
        return ret(st, deepv(it, st, v))
    if src.startswith(TRANSPARENT_FROM) or dst.startswith(TRANSPARENT_FROM):
        x = deepv(it, st, v)
        return ret(st, x)
    if src.replace("&", "") in INTS and dst in INTS:
        x = deepv(it, st, v)
        return ret(st, x if x.op != "bool" else I(int(x.a[0])))
    if dst.startswith("core::option::Option<"):
        if src == dst[len("core::option::Option<"):-1]:
            return ret(st, some(v))
        # Pod options: a symbolic option whose variants are those of the pod value
        return ret(st, v if v.op != "ptr" else v)
    if src.startswith("core::option::Option<") and ("MaybeNull" in dst or "PodCOption" in dst or "COption" in dst):
        return ret(st, v)
    if "MaybeNull<" in dst:
        return ret(st, app("maybe_null", fz(it, st, v)))
    if dst.startswith("alloc::boxed::Box<"):
        return ret(st, it.ref(st, v))
    if dst.startswith(("alloc::sync::Arc<", "alloc::rc::Rc<", "alloc::rcs::")):
        return ret(st, it.ref(st, v))
    return None


INTS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "char")


@m("core::convert::From::from")
def from_(it, st, c, a):
    t = c.targs()
    if len(t) >= 2:
        r = conv(it, st, c, a, t[1], t[0])
        if r is not None:
            return r
    return None


@m("core::convert::Into::into")
def into_(it, st, c, a):
    t = c.targs()
    if len(t) >= 2:
        r = conv(it, st, c, a, t[0], t[1])
        if r is not None:
            return r
    return None


@m("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def try_into(it, st, c, a):
    t = c.targs()
    src, dst = (t[0], t[1]) if c.decl.endswith("try_into") else (t[1], t[0])
    import re
    mm = re.search(r"; (\d+)(?:_usize)?\]$", dst)
    if mm and ("[" in src or "Vec" in src):
        n = int(mm.group(1))
        ln = slen(it, st, a[0])
        out = []
        for s, b in it.fork(st, mk_eq(ln, I(n))):
            if b:
                v = view(it, s, a[0]) if dst.startswith("&") else deepv(it, s, a[0])
                out.append((s, ok(v)))
            else:
                out.append((s, err(adt("core::array::TryFromSliceError", None, ("0",), (UNIT,)))))
        return out
    if "Address" in dst and ("[u8]" in src or "Vec<u8>" in src):
        ln = slen(it, st, a[0])
        out = []
        for s, b in it.fork(st, mk_eq(ln, I(32))):
            out.append((s, ok(deepv(it, s, a[0])) if b else err(app("TryFromSliceError"))))
        return out
    W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}
    if src in W and dst in W:
        x = deepv(it, st, a[0])
        if W[src] <= W[dst]:
            return ret(st, ok(x))
        out = []
        for s, b in it.fork(st, mk_lt(fz(it, st, x), I(1 << W[dst]))):
            out.append((s, ok(x) if b else err(app("TryFromIntError"))))
        return out
    return None


@m("core::str::traits::FromStr::from_str", "core::str::<impl str>::parse")
def parse(it, st, c, a):
    s = fz(it, st, a[0])
    ty = c.targs()[0]
    if ty == "alloc::string::String":
        return ret(st, ok(deepv(it, st, a[0])))
    inst = c.callee.get("inst")
    if c.path.startswith("<") and it.p.insts.get(inst, {}).get("crate") in it.local:
        return None
    if "PodElGamalPubkey" in ty and s.op == "str":
        import base64
        try:
            b = base64.b64decode(s.a[0], validate=True)
            if len(b) == 32:
                return ret(st, ok(app("elgamal", bytes_(b))))
        except Exception:
            pass
    if ty == "solana_address::Address" and s.op == "str":
        try:
            return ret(st, ok(bytes_(b58dec(s.a[0]))))
        except Exception:
            pass
    return ret(st, app("parse", T("ty", (ty,)), s))


# ---------------------------------------------------------------------------------------
# comparisons: structural equality of values

@m("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def eq(it, st, c, a):
    neg = c.decl.endswith("::ne")
    x = fz(it, st, deepv(it, st, a[0]))
    y = fz(it, st, deepv(it, st, a[1]))
    x, y = it_strip(x), it_strip(y)
    r = seq_eq(x, y)
    return ret(st, mk_not(r) if neg else r)


def it_strip(x):
    return x


def seq_eq(x, y):
    if x.op == "seq" and y.op == "seq" and not x.a and not y.a:
        return TRUE
    if x.op == "bytes" and y.op == "str":
        y = bytes_(y.a[0].encode())
    if y.op == "bytes" and x.op == "str":
        x = bytes_(x.a[0].encode())
    if (x.op == "seq" and not x.a) or (x.op == "bytes" and not x.a[0]):
        return mk_eq(mk_len(y), I(0))
    if (y.op == "seq" and not y.a) or (y.op == "bytes" and not y.a[0]):
        return mk_eq(mk_len(x), I(0))
    return mk_eq(x, y)


@m("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::ge")
def cmp_(it, st, c, a):
    x = fz(it, st, deepv(it, st, a[0]))
    y = fz(it, st, deepv(it, st, a[1]))
    op = c.decl[-2:]
    r = {"lt": lambda: mk_lt(x, y), "gt": lambda: mk_lt(y, x), "le": lambda: mk_not(mk_lt(y, x)), "ge": lambda: mk_not(mk_lt(x, y))}[op]()
    return ret(st, r)


@m("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def ordcmp(it, st, c, a):
    x = fz(it, st, deepv(it, st, a[0]))
    y = fz(it, st, deepv(it, st, a[1]))
    P = "core::cmp::Ordering"
    w = (lambda v: some(v)) if c.decl.endswith("partial_cmp") else (lambda v: v)
    out = []
    for s, b in it.fork(st, mk_eq(x, y)):
        if b:
            out.append((s, w(adt(P, "Equal", (), ()))))
        else:
            for s2, b2 in it.fork(s, mk_lt(x, y)):
                out.append((s2, w(adt(P, "Less" if b2 else "Greater", (), ()))))
    return out


@m("core::cmp::Ord::max", "core::cmp::Ord::min", "core::cmp::max", "core::cmp::min")
def minmax(it, st, c, a):
    x, y = fz(it, st, a[0]), fz(it, st, a[1])
    mx = c.decl.endswith("max") or c.path.endswith("max")
    out = []
    for s, b in it.fork(st, mk_lt(x, y)):
        out.append((s, (y if b else x) if mx else (x if b else y)))
    return out


# ---------------------------------------------------------------------------------------
# integers

def le_bytes(it, st, c, a):
    x = fz(it, st, a[0])
    if x.op == "int":
        import re
        n = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "usize": 8}[re.search(r"impl (\w+)>", c.path).group(1)]
        return ret(st, bytes_(x.a[0].to_bytes(n, "little" if "_le_" in c.path else "big")))
    return ret(st, app("le" if "_le_" in c.path else "be" if "_be_" in c.path else "le", x))


def from_le(it, st, c, a):
    x = fz(it, st, deepv(it, st, a[0]))
    k = "le" if "_le_" in c.path or "_ne_" in c.path else "be"
    if x.op == "bytes":
        return ret(st, I(int.from_bytes(x.a[0], "little" if k == "le" else "big")))
    if x.op == "app" and x.a[0] == k:
        return ret(st, x.a[1])
    return ret(st, app("from_" + k, x))


for w in ("u8", "u16", "u32", "u64", "u128", "usize"):
    for e in ("le", "be", "ne"):
        MODELS["core::num::<impl %s>::to_%s_bytes" % (w, e)] = le_bytes
        MODELS["core::num::<impl %s>::from_%s_bytes" % (w, e)] = from_le

    def mk(w):
        def checked_sub(it, st, c, a):
            x, y = fz(it, st, a[0]), fz(it, st, a[1])
            out = []
            for s, b in it.fork(st, mk_lt(x, y)):
                out.append((s, NONE if b else some(mk_sub(x, y))))
            return out

        def checked_add(it, st, c, a):
            x, y = fz(it, st, a[0]), fz(it, st, a[1])
            r = mk_add(x, y)
            out = []
            for s, b in it.fork(st, T("overflow", "Add", x, y) if r.op != "int" else FALSE):
                out.append((s, NONE if b else some(r)))
            return out

        def checked_mul(it, st, c, a):
            x, y = fz(it, st, a[0]), fz(it, st, a[1])
            r = it.binop(st, "Mul", x, y)
            out = []
            for s, b in it.fork(st, T("overflow", "Mul", x, y) if r.op != "int" else FALSE):
                out.append((s, NONE if b else some(r)))
            return out

        def sat_sub(it, st, c, a):
            x, y = fz(it, st, a[0]), fz(it, st, a[1])
            out = []
            for s, b in it.fork(st, mk_lt(x, y)):
                out.append((s, I(0) if b else mk_sub(x, y)))
            return out

        def opaque2(name):
            def f(it, st, c, a):
                library_panics(it, st, c, a, c.path)
                return ret(st, app(name, *[fz(it, st, x) for x in a]))
            return f
        MODELS["core::num::<impl %s>::checked_sub" % w] = checked_sub
        MODELS["core::num::<impl %s>::checked_add" % w] = checked_add
        MODELS["core::num::<impl %s>::checked_mul" % w] = checked_mul
        MODELS["core::num::<impl %s>::saturating_sub" % w] = sat_sub
        for o in ("saturating_add", "saturating_mul", "wrapping_add", "wrapping_sub", "wrapping_mul", "abs_diff", "pow", "min", "max",
                  "checked_div", "checked_rem"):
            MODELS["core::num::<impl %s>::%s" % (w, o)] = opaque2("num:" + o)
    mk(w)


@m("core::mem::size_of", "core::intrinsics::size_of", "core::mem::SizedTypeProperties::SIZE")
def size_of(it, st, c, a):
    ts = c.callee.get("targs") or ()
    for t in ts:
        info = it.p.ty(t)[1]
        if info.get("size") is not None:
            return ret(st, I(info["size"]))
        W = {"u8": 1, "bool": 1, "u16": 2, "u32": 4, "u64": 8, "usize": 8, "u128": 16}
        if it.p.tys(t) in W:
            return ret(st, I(W[it.p.tys(t)]))
    return ret(st, app("size_of", T("ty", c.targs())))


@m("core::mem::size_of_val")
def size_of_val(it, st, c, a):
    return ret(st, app("size_of_val", T("ty", c.targs()), fz(it, st, a[0])))


# ---------------------------------------------------------------------------------------
# memory

@m("core::mem::drop", "core::mem::forget", "core::ptr::drop_in_place")
def drop(it, st, c, a):
    return unit(st)


@m("core::mem::replace")
def replace(it, st, c, a):
    old = it.deref(st, a[0])
    it.store_ptr(st, a[0], a[1], c.loc)
    return ret(st, old)


@m("core::mem::take")
def take(it, st, c, a):
    old = it.deref(st, a[0])
    t = (c.targs() or ("",))[0]
    d = default_of(it, t)
    it.store_ptr(st, a[0], d, c.loc)
    return ret(st, old)


def default_of(it, t):
    if t.startswith("core::option::Option"):
        return NONE
    if t.startswith(("alloc::vec::Vec", "[", "&[", "&mut [")):
        return T("seq")
    if t in ("alloc::string::String", "&str", "str"):
        return S("")
    if t in INTS:
        return FALSE if t == "bool" else I(0)
    if t == "()":
        return UNIT
    if t.startswith(("std::collections::hash::map::HashMap", "alloc::collections::btree")):
        return T("map", ())
    if t == "solana_address::Address":
        return bytes_([0] * 32)
    return app("default", T("ty", (t,)))


@m("core::default::Default::default")
def default(it, st, c, a):
    t = (c.targs() or ("",))[0]
    d = default_of(it, t)
    if d.op == "app" and c.callee.get("inst") is not None:
        return None
    return ret(st, d)


@m("core::mem::swap")
def swap(it, st, c, a):
    x, y = it.deref(st, a[0]), it.deref(st, a[1])
    it.store_ptr(st, a[0], y, c.loc)
    it.store_ptr(st, a[1], x, c.loc)
    return unit(st)


@m("alloc::boxed::Box::<T>::new", "alloc::boxed::Box::<T>::pin", "alloc::rcs::rc::Rc::<T>::new", "alloc::rcs::arc::Arc::<T>::new",
   "alloc::rc::Rc::<T>::new", "alloc::sync::Arc::<T>::new", "alloc::boxed::box_new")
def box_new(it, st, c, a):
    return ret(st, it.ref(st, a[0]))


@m("alloc::boxed::Box::<T>::new_uninit")
def box_uninit(it, st, c, a):
    return ret(st, it.ref(st, UNINIT))


@m("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::<impl [T]>::into_vec")
def box_into_vec(it, st, c, a):
    return ret(st, deepv(it, st, a[0]))


@m("core::slice::raw::from_ref", "core::slice::from_ref", "core::array::from_ref")
def from_ref(it, st, c, a):
    v = deepv(it, st, a[0])
    return ret(st, it.ref(st, T("seq", v)))


@m("core::cell::RefCell::<T>::borrow", "core::cell::RefCell::<T>::borrow_mut")
def refcell(it, st, c, a):
    v = view(it, st, a[0])
    x = fz(it, st, v)
    r = acct_data(x, st.epoch)
    if r is not None:
        return ret(st, r)
    return ret(st, v)


@m("core::cell::RefCell::<T>::try_borrow", "core::cell::RefCell::<T>::try_borrow_mut")
def refcell_try(it, st, c, a):
    x = fz(it, st, view(it, st, a[0]))
    if acct_data(x, st.epoch) is None:
        return None
    k = "borrow" if c.path.endswith("try_borrow") else "borrow_mut"
    out = []
    q = app(k, x.a[0], st.epoch)
    for s, b in it.fork(st, T("isvar", q, RES, "Ok")):
        out.append((s, ok(acct_data(x, s.epoch)) if b else err(mk_field(mk_as(q, "Err"), "0"))))
    return out


@m("core::cell::RefCell::<T>::new")
def refcell_new(it, st, c, a):
    return ret(st, a[0])


def acct_data(x, epoch):
    """account.data / account.lamports cells"""
    if x.op == "field" and x.a[1] in ("data", "lamports"):
        return T(x.a[1], x.a[0], epoch)
    return None


# ---------------------------------------------------------------------------------------
# slices and vectors

@m("core::slice::<impl [T]>::len", "alloc::vec::Vec::<T, A>::len", "core::str::<impl str>::len", "alloc::string::String::len",
   "core::iter::traits::exact_size::ExactSizeIterator::len")
def len_(it, st, c, a):
    v = deepv(it, st, a[0])
    if v.op == "it":
        return ret(st, it_len(it, st, v))
    return ret(st, slen(it, st, a[0]))


@m("core::slice::<impl [T]>::is_empty", "alloc::vec::Vec::<T, A>::is_empty", "core::str::<impl str>::is_empty", "alloc::string::String::is_empty",
   "std::collections::hash::map::HashMap::<K, V, S, A>::is_empty", "std::collections::hash::map::HashMap::<K, V, S>::is_empty")
def is_empty(it, st, c, a):
    return ret(st, mk_eq(slen(it, st, a[0]), I(0)))


@m("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity", "alloc::vec::Vec::<T, A>::new_in")
def vec_new(it, st, c, a):
    return ret(st, T("seq"))


@m("alloc::string::String::new", "alloc::string::String::with_capacity")
def string_new(it, st, c, a):
    return ret(st, S(""))


def tomut(it, st, p):
    """the &mut to the innermost value"""
    return view(it, st, p)


def push_val(v, x):
    if v.op == "seq":
        return T("seq", *(v.a + (x,)))
    if v.op == "bytes":
        return T("seq", *([I(b) for b in v.a[0]] + [x])) if x.op != "int" else bytes_(v.a[0] + bytes([x.a[0]]))
    return T("push", v, x)


def concat(v, w):
    """sequence concatenation"""
    if w.op == "seq" and not w.a or w.op == "bytes" and not w.a[0]:
        return v
    if v.op == "seq" and not v.a:
        return w if w.op in ("seq", "bytes") else seq([splat(w)])
    if v.op == "bytes" and w.op == "bytes":
        return bytes_(v.a[0] + w.a[0])
    if v.op == "lv":
        return T("extend", v, w)
    A = list(v.a) if v.op == "seq" else [I(b) for b in v.a[0]] if v.op == "bytes" else [splat(v)]
    C = list(w.a) if w.op == "seq" else [I(b) for b in w.a[0]] if w.op == "bytes" else [splat(w)]
    return seq(A + C)


@m("alloc::vec::Vec::<T, A>::push")
def push(it, st, c, a):
    p = tomut(it, st, a[0])
    v = it.deref(st, p)
    it.store_ptr(st, p, push_val(v, a[1]), c.loc)
    return unit(st)


@m("alloc::vec::Vec::<T, A>::extend_from_slice", "alloc::vec::Vec::<T, A>::append")
def extend_from_slice(it, st, c, a):
    p = tomut(it, st, a[0])
    v = it.deref(st, p)
    w = deepv(it, st, a[1])
    it.store_ptr(st, p, concat(v, fz(it, st, w)), c.loc)
    if c.path.endswith("append"):
        it.store_ptr(st, tomut(it, st, a[1]), T("seq"), c.loc)
    return unit(st)


@m("core::iter::traits::collect::Extend::extend")
def extend(it, st, c, a):
    p = tomut(it, st, a[0])
    out = []
    for s, itv in to_iter(it, st, c, a[1]):
        for s2, sq in collect_seq(it, s, c, itv):
            v = it.deref(s2, p)
            if v.op in ("map", "mapof", "mapins", "mapdel"):
                it.store_ptr(s2, p, T("mapext", v, fz(it, s2, sq)), c.loc)
            else:
                it.store_ptr(s2, p, concat(v, fz(it, s2, sq)), c.loc)
            out.append((s2, UNIT))
    return out


@m("alloc::vec::Vec::<T, A>::pop")
def vpop(it, st, c, a):
    p = tomut(it, st, a[0])
    v = it.deref(st, p)
    if v.op == "seq" and (not v.a or v.a[-1].op != "splat"):
        if not v.a:
            return ret(st, NONE)
        it.store_ptr(st, p, T("seq", *v.a[:-1]), c.loc)
        return ret(st, some(v.a[-1]))
    it.store_ptr(st, p, T("popped", v), c.loc)
    return ret(st, app("pop", fz(it, st, v)))


def is_text(ty):
    """is this the type of a string, whose bytes may only be divided between characters?"""
    t = (ty or "").replace("&mut ", "").replace("&", "").strip()
    if t.startswith("'"):
        t = t.split(" ", 1)[-1]
    return t in ("str", "alloc::string::String", "std::string::String")


def char_boundary(it, st, c, s, k):
    """dividing a text at byte k panics unless k lies between two characters"""
    if k is None or k is I(0):
        return
    x = fz(it, st, view(it, st, s))
    k = fz(it, st, k)
    if x.op == "str" and k.op == "int" and x.a[0].isascii() and k.a[0] <= len(x.a[0]):
        return
    if k is mk_len(x) or st.facts.truth(mk_eq(k, mk_len(x))) is True:
        return
    if asked_for(it, st, x, k):
        return
    for q, v in st.facts.bools.items():
        if v is True and q.op == "app" and str(q.a[0]).endswith("is_char_boundary") and q.a[-1] is k:
            return
        if v is True and q.op == "app" and str(q.a[0]).endswith("is_ascii"):
            return
    it.panics.append(("dividing a text within a character", it.origin(c.loc), st.facts.copy()))


def asked_for(it, st, x, k):
    """a position the text itself was asked for"""
    y = k
    while y.op in ("field", "as"):
        y = y.a[0]
    return y.op == "app" and isinstance(y.a[0], str) and y.a[0].rsplit("::", 1)[-1] in ("find", "rfind", "floor_char_boundary", "ceil_char_boundary") \
        and any(z is x for z in y.a[1:])


# library functions that are not followed and panic on some arguments: (last part of the path, part of the rest) -> the condition that rules it out
def _nonzero(i):
    return lambda it, st, c, a: mk_not(mk_eq(fz(it, st, a[i]), I(0)))


def _below(i, closed=False):
    def f(it, st, c, a):
        ln, k = slen(it, st, a[0]), fz(it, st, a[i])
        return mk_not(mk_lt(ln, k)) if closed else mk_lt(k, ln)
    return f


def _within(it, st, c, a):
    i = deepv(it, st, a[1])
    if i.op == "adt" and i.a[0].endswith("RangeFull"):
        return TRUE
    rg = range_of(it, st, i)
    if rg is None:
        return None
    lo, hi = rg
    ln = slen(it, st, a[0])
    x = mk_not(mk_lt(ln, hi if hi is not None else lo))
    return x if hi is None or lo is I(0) or st.facts.truth(mk_lt(hi, lo)) is False else None


def _never(it, st, c, a):
    return TRUE if all(fz(it, st, x).op == "int" for x in a) else None


VEC = ("alloc::vec::", "alloc::collections::vec_deque")
SLI = ("core::slice::", "alloc::slice::")
NUM = ("core::num::",)
PANICKY = {
    "remove": (VEC[:1], _below(1)), "swap_remove": (VEC[:1], _below(1)), "split_off": (VEC, _below(1, True)), "drain": (VEC, _within), "splice": (VEC, _within),
    "extend_from_within": (VEC, _within), "swap": (SLI + VEC, None), "rotate_left": (SLI + VEC, _below(1, True)), "rotate_right": (SLI + VEC, _below(1, True)),
    "copy_within": (SLI, _within), "chunks": (SLI, _nonzero(1)), "chunks_mut": (SLI, _nonzero(1)), "chunks_exact": (SLI, _nonzero(1)), "windows": (SLI, _nonzero(1)),
    "rchunks": (SLI, _nonzero(1)), "step_by": (("core::iter::",), _nonzero(1)), "select_nth_unstable": (SLI, _below(1)), "swap_with_slice": (SLI, None),
    "pow": (NUM, _never), "abs": (NUM, _never), "ilog2": (NUM, _nonzero(0)), "ilog10": (NUM, _nonzero(0)), "ilog": (NUM, None), "next_power_of_two": (NUM, _never),
    "div_euclid": (NUM, _nonzero(1)), "rem_euclid": (NUM, _nonzero(1)), "div_ceil": (NUM, _nonzero(1)), "next_multiple_of": (NUM, _never),
    "isqrt": (NUM, None), "from_str_radix": (NUM, _never), "from_digit": (("core::char::",), None), "to_digit": (("core::char::",), None),
    "from_secs_f64": (("core::time::",), None), "from_secs_f32": (("core::time::",), None), "mul_f64": (("core::time::",), None),
    "set_len": (("core::cell::",), None), "borrow": (("core::cell::",), None), "borrow_mut": (("core::cell::",), None),
}
TEXT_CUTS = {"split_at": 1, "split_at_mut": 1, "truncate": 1, "remove": 1, "insert": 1, "insert_str": 1, "split_off": 1}
UNSIGNED = ("<impl u", "<impl usize")


def library_panics(it, st, c, a, path):
    last = path.rsplit("::", 1)[-1]
    if last in TEXT_CUTS and path.startswith(("core::str::", "alloc::string::", "alloc::str::")):
        k = fz(it, st, a[TEXT_CUTS[last]])
        ln = slen(it, st, a[0])
        char_boundary(it, st, c, a[0], k)
        if last == "remove":
            it.may_panic(st, mk_lt(k, ln), True, "text position", c.loc)
        elif last != "truncate":
            it.may_panic(st, mk_not(mk_lt(ln, k)), True, "text position", c.loc)
        return
    if last in ("drain", "replace_range") and path.startswith("alloc::string::"):
        i = deepv(it, st, a[1])
        if i.op == "adt" and i.a[0].endswith("RangeFull"):
            return
        rg = range_of(it, st, i)
        for k in rg or ():
            char_boundary(it, st, c, a[0], k)
        g = _within(it, st, c, a)
        if g is None:
            it.panics.append((path, it.origin(c.loc), st.facts.copy()))
        else:
            it.may_panic(st, g, True, "text range", c.loc)
        return
    e = PANICKY.get(last)
    if e is None or not path.startswith(e[0]):
        return
    if last in ("isqrt", "abs") and any(u in path for u in UNSIGNED):
        return
    g = e[1](it, st, c, a) if e[1] is not None else None
    if g is None:
        it.panics.append((path, it.origin(c.loc), st.facts.copy()))
    else:
        it.may_panic(st, g, True, path, c.loc)


@m("alloc::vec::Vec::<T, A>::insert")
def vinsert(it, st, c, a):
    p = tomut(it, st, a[0])
    v = it.deref(st, p)
    i = fz(it, st, a[1])
    it.may_panic(st, mk_not(mk_lt(slen(it, st, a[0]), i)), True, "insert", c.loc)
    if v.op == "seq" and i.op == "int":
        vals = list(v.a)
        if not any(x.op == "splat" for x in vals[:i.a[0]]):
            vals.insert(i.a[0], a[2])
            it.store_ptr(st, p, T("seq", *vals), c.loc)
            return unit(st)
    it.store_ptr(st, p, T("inserted", v, i, a[2]), c.loc)
    return unit(st)


@m("alloc::vec::Vec::<T, A>::clear", "alloc::vec::Vec::<T, A>::truncate")
def vclear(it, st, c, a):
    p = tomut(it, st, a[0])
    v = it.deref(st, p)
    if c.path.endswith("truncate"):
        it.store_ptr(st, p, mk_slice(v, I(0), fz(it, st, a[1])), c.loc)
    else:
        it.store_ptr(st, p, T("seq"), c.loc)
    return unit(st)


@m("alloc::vec::Vec::<T, A>::reserve", "alloc::vec::Vec::<T, A>::shrink_to_fit", "alloc::string::String::reserve")
def noop(it, st, c, a):
    return unit(st)


@m("alloc::string::String::push_str", "alloc::string::String::push")
def push_str(it, st, c, a):
    p = tomut(it, st, a[0])
    v = fz(it, st, it.deref(st, p))
    w = fz(it, st, deepv(it, st, a[1]))
    if v.op == "str" and w.op == "str":
        r = S(v.a[0] + w.a[0])
    elif v is S(""):
        r = w
    else:
        r = app("strcat", v, w)
    it.store_ptr(st, p, r, c.loc)
    return unit(st)


@m("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut",
   "core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last_mut")
def get(it, st, c, a):
    ln = slen(it, st, a[0])
    nm = c.path.rsplit("::", 1)[1]
    out = []
    if nm.startswith("get"):
        i = deepv(it, st, a[1])
        rg = range_of(it, st, i)
        if rg is not None:
            lo, hi = rg
            hi2 = ln if hi is None else hi
            for s, b in it.fork(st, mk_lt(ln, hi2) if hi is not None else mk_lt(ln, lo)):
                out.append((s, NONE if b else some(sub_ref(it, s, a[0], lo, hi))))
            return out
        i = fz(it, st, i)
    elif nm.startswith("first"):
        i = I(0)
    else:
        i = mk_sub(ln, I(1))
        for s, b in it.fork(st, mk_eq(ln, I(0))):
            out.append((s, NONE if b else some(elem_ref(it, s, a[0], i))))
        return out
    for s, b in it.fork(st, mk_lt(i, ln)):
        out.append((s, some(elem_ref(it, s, a[0], i)) if b else NONE))
    return out


def range_of(it, st, v):
    """(lo, hi) terms of a range value (hi None: unbounded), or None when not a range"""
    v = it.freeze(st, v)
    if v.op == "adt" and v.a[0].startswith("core::ops::range::"):
        n = v.a[0].rsplit("::", 1)[1]
        d = dict(zip(v.a[2], v.a[3]))
        if n == "Range":
            return d["start"], d["end"]
        if n == "RangeFrom":
            return d["start"], None
        if n == "RangeTo":
            return I(0), d["end"]
        if n == "RangeFull":
            return I(0), None
        if n == "RangeToInclusive":
            return I(0), mk_add(d["end"], I(1))
    if v.op == "app" and v.a[0] == "range_incl":
        return v.a[1], mk_add(v.a[2], I(1))
    return None


@m("core::ops::range::RangeInclusive::<Idx>::new")
def range_incl(it, st, c, a):
    return ret(st, app("range_incl", fz(it, st, a[0]), fz(it, st, a[1])))


@m("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def index(it, st, c, a):
    t = (c.targs() or ("",))[0]
    if "HashMap" in t or "BTreeMap" in t:
        mp = fz(it, st, deepv(it, st, a[0]))
        g = mapget(mp, fz(it, st, deepv(it, st, a[1])))
        it.may_panic(st, T("isvar", g, "core::option::Option", "Some"), True, "map index", c.loc)
        return ret(st, mk_field(mk_as(g, "Some"), "0"))
    i = deepv(it, st, a[1])
    rg = range_of(it, st, i)
    if i.op == "adt" and i.a[0].endswith("RangeFull"):
        return ret(st, view(it, st, a[0]))
    ln = slen(it, st, a[0])
    if rg is not None:
        lo, hi = rg
        if is_text(c.argty(0)):
            for k in (lo, hi):
                char_boundary(it, st, c, a[0], k)
            x = fz(it, st, view(it, st, a[0]))
            for k in (lo, hi):
                if k is not None and asked_for(it, st, x, fz(it, st, k)) and not st.facts.assume(mk_not(mk_lt(ln, fz(it, st, k))), True):
                    return []
        it.may_panic(st, mk_not(mk_lt(ln, hi if hi is not None else lo)), True, "slice range", c.loc)
        if hi is not None:
            it.may_panic(st, mk_not(mk_lt(hi, lo)), True, "slice range", c.loc)
        if hi is not None and not st.facts.assume(mk_not(mk_lt(ln, hi)), True):
            return []
        if hi is None and not st.facts.assume(mk_not(mk_lt(ln, lo)), True):
            return []
        return ret(st, sub_ref(it, st, a[0], lo, hi))
    i = fz(it, st, i)
    it.may_panic(st, mk_lt(i, ln), True, "index", c.loc)
    if not st.facts.assume(mk_lt(i, ln), True):
        return []
    return ret(st, elem_ref(it, st, a[0], i))


@m("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last")
def split_first(it, st, c, a):
    ln = slen(it, st, a[0])
    out = []
    for s, b in it.fork(st, mk_eq(ln, I(0))):
        if b:
            out.append((s, NONE))
        elif c.path.endswith("first"):
            out.append((s, some(T("tuple", elem_ref(it, s, a[0], I(0)), sub_ref(it, s, a[0], I(1), None)))))
        else:
            k = mk_sub(ln, I(1))
            out.append((s, some(T("tuple", elem_ref(it, s, a[0], k), sub_ref(it, s, a[0], I(0), k)))))
    return out


@m("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut", "core::slice::<impl [T]>::split_at_checked",
   "core::slice::<impl [T]>::split_at_unchecked")
def split_at(it, st, c, a):
    ln = slen(it, st, a[0])
    k = fz(it, st, a[1])
    out = []
    chk = c.path.endswith("checked") and not c.path.endswith("unchecked")
    if not chk:
        it.may_panic(st, mk_lt(ln, k), False, "split", c.loc)
    for s, b in it.fork(st, mk_lt(ln, k)):
        if b:
            if chk:
                out.append((s, NONE))
        else:
            v = T("tuple", sub_ref(it, s, a[0], I(0), k), sub_ref(it, s, a[0], k, None))
            out.append((s, some(v) if chk else v))
    return out


@m("core::slice::<impl [T]>::first_chunk", "core::slice::<impl [T]>::split_first_chunk")
def first_chunk(it, st, c, a):
    n = (c.callee.get("cargs") or [None])[0]
    if n is None:
        return None
    ln = slen(it, st, a[0])
    out = []
    for s, b in it.fork(st, mk_lt(ln, I(n))):
        if b:
            out.append((s, NONE))
        else:
            x = sub_ref(it, s, a[0], I(0), I(n))
            out.append((s, some(x if c.path.endswith("::first_chunk") else T("tuple", x, sub_ref(it, s, a[0], I(n), None)))))
    return out


@m("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def copy_from_slice(it, st, c, a):
    d = view(it, st, a[0])
    w = fz(it, st, deepv(it, st, a[1]))
    it.may_panic(st, mk_eq(slen(it, st, d), mk_len(w)), True, "copy length", c.loc)
    if not st.facts.assume(mk_eq(slen(it, st, d), mk_len(w)), True):
        return []
    it.store_ptr(st, d, w, c.loc)
    return unit(st)


@m("core::slice::<impl [T]>::fill")
def fill(it, st, c, a):
    d = view(it, st, a[0])
    it.store_ptr(st, d, T("filled", slen(it, st, d), fz(it, st, a[1])), c.loc)
    return unit(st)


@m("core::slice::<impl [T]>::contains")
def slice_contains(it, st, c, a):
    sq = fz(it, st, deepv(it, st, a[0]))
    x = fz(it, st, deepv(it, st, a[1]))
    return ret(st, mk_contains(sq, x))


def mk_contains(sq, x):
    if sq.op == "seq":
        rest = []
        for y in sq.a:
            if y is x:
                return TRUE
            if y.op == "splat" or not distinct(x, y):
                rest.append(y)
        if not rest:
            return FALSE
        if len(rest) == 1:
            if rest[0].op == "splat":
                return T("contains", rest[0].a[0], x)
            return mk_eq(rest[0], x)
        ts = [T("contains", y.a[0], x) if y.op == "splat" else mk_eq(y, x) for y in rest]
        return T("or", *ts)
    return T("contains", sq, x)


@m("core::slice::<impl [T]>::starts_with", "core::slice::<impl [T]>::ends_with", "core::slice::<impl [T]>::concat", "core::slice::<impl [T]>::join",
   "alloc::slice::<impl [T]>::concat", "alloc::slice::<impl [T]>::join")
def slice_misc(it, st, c, a):
    v = fz(it, st, deepv(it, st, a[0]))
    if c.path.endswith("::concat") and v.op == "seq" and not any(x.op == "splat" for x in v.a):
        r = T("seq")
        for x in v.a:
            r = concat(r, x)
        return ret(st, r)
    return ret(st, app(short(c.path), *[fz(it, st, x) for x in a]))


# ---------------------------------------------------------------------------------------
# iterators: T('it', kind, ...)

def it_slice(base, pos=None):
    return T("it", "slice", base, pos or I(0))


@m("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut")
def iter_(it, st, c, a):
    return ret(st, it_slice(view(it, st, a[0])))


def to_iter(it, st, c, v, ty=None):
    """IntoIterator::into_iter on a value -> [(state, iterator)]"""
    x = v
    if x.op == "it":
        return [(st, x)]
    if x.op == "ptr":
        w = it.load(st, x.a[0], x.a[1])
        if w.op == "it":
            return [(st, T("it", "by_ref", x))]
        if w.op == "ptr":
            return to_iter(it, st, c, w)
        if w.op in ("map", "mapof", "mapins", "mapdel", "mapext") or is_map_term(w):
            return [(st, T("it", "pairs", it.freeze(st, w)))]
        if w.op == "adt" and w.a[0] == OPT:
            return [(st, T("it", "opt", some(T("ptr", x.a[0], x.a[1] + (("v", "Some"), ("f", "0")))) if w.a[1] == "Some" else NONE))]
        return [(st, it_slice(x))]
    if x.op == "adt" and x.a[0].startswith("core::ops::range::Range"):
        d = dict(zip(x.a[2], x.a[3]))
        return [(st, T("it", "range", it.freeze(st, d["start"]), it.freeze(st, d["end"]) if "end" in d else None))]
    if x.op == "app" and x.a[0] == "range_incl":
        return [(st, T("it", "range", x.a[1], mk_add(x.a[2], I(1))))]
    if x.op == "adt" and x.a[0] == OPT:
        return [(st, T("it", "opt", x))]
    if x.op in ("map", "mapof", "mapins", "mapdel", "mapext") or is_map_term(x):
        return [(st, T("it", "pairs", it.freeze(st, x)))]
    if ty is not None and ty.startswith(OPT):
        return [(st, T("it", "opt", x))]
    return [(st, T("it", "vals", x, I(0)))]


def is_map_term(w):
    return w.op == "fold" and w.a[2].op in ("map", "mapof", "mapins", "mapdel", "mapext") or w.op == "lv" and False


@m("core::iter::traits::collect::IntoIterator::into_iter")
def into_iter(it, st, c, a):
    t = (c.targs() or ("",))[0]
    v = a[0]
    if v.op == "it":
        return ret(st, v)
    if v.op == "ptr":
        w = it.load(st, v.a[0], v.a[1])
        if w.op == "it" and not t.startswith("&mut"):
            return ret(st, w)
        if t.startswith("&mut ") and w.op == "it":
            return ret(st, v)   # &mut I is itself an iterator
    if t.startswith("&") and ("HashMap" in t or "BTreeMap" in t) or t.startswith(("std::collections", "alloc::collections::btree::map")):
        return ret(st, T("it", "pairs", fz(it, st, v)))
    return to_iter(it, st, c, v, t)


def it_len(it, st, v):
    k = v.a[0]
    if k in ("slice", "vals"):
        return mk_sub(slen(it, st, v.a[1]), v.a[2])
    if k == "range":
        return mk_sub(v.a[2], v.a[1])
    if k in ("map", "cloned", "rev", "enum"):
        return it_len(it, st, v.a[1])
    return app("itlen", fz(it, st, v))


def active_ctx(it, cell):
    for c in reversed(it.ctx):
        if cell is not None and cell <= c.base:
            return c
    return None


def lead(sq):
    """number of leading known elements of a sequence value, and whether that is all of it"""
    if sq.op == "bytes":
        return len(sq.a[0]), True
    if sq.op == "seq":
        n = 0
        for x in sq.a:
            if x.op == "splat":
                return n, False
            n += 1
        return n, True
    return 0, False


def it_next(it, st, c, itv, cell):
    """-> [(state, new iterator, element or None)]; cell: the cell that holds the (outermost) iterator"""
    k = itv.a[0]
    if k == "done":
        return [(st, itv, None)]
    if k in ("slice", "vals"):
        base, pos = itv.a[1], itv.a[2]
        sv = it.deep(st, base)
        n, full = lead(sv)
        if pos.op == "int" and pos.a[0] < n and (full or active_ctx(it, cell) is None):
            i = pos
            e = elem_ref(it, st, base, i) if k == "slice" else mk_idx(sv, i)
            return [(st, T("it", k, base, I(pos.a[0] + 1)), e)]
        if pos.op == "int" and full:
            return [(st, T("it", "done", k), None)]
        # unknown length
        ctx = active_ctx(it, cell)
        if ctx is None:
            out = []
            ln = slen(it, st, base)
            for s, b in it.fork(st, mk_lt(pos, ln)):
                if b:
                    e = elem_ref(it, s, base, pos) if k == "slice" else mk_idx(it.freeze(s, sv), pos)
                    out.append((s, T("it", k, base, mk_add(pos, I(1))), e))
                else:
                    out.append((s, T("it", "done", k), None))
            return out
        if ctx.mode == "trial":
            raise NeedSummary(ctx)
        sq = mk_slice(it.freeze(st, sv), pos, None)
        if sq.op == "seq" and len(sq.a) == 1 and sq.a[0].op == "splat":
            sq = sq.a[0].a[0]
        el = T("elem", ctx.lid, sq)
        return sym_next(it, st, ctx, itv, sq, lambda s: (elem_of(it, s, base, el, sq, k, pos)))
    if k == "range":
        lo, hi = itv.a[1], itv.a[2]
        if lo.op == "int" and hi is not None and hi.op == "int":
            if lo.a[0] < hi.a[0]:
                return [(st, T("it", "range", I(lo.a[0] + 1), hi), lo)]
            return [(st, T("it", "done", "range"), None)]
        ctx = active_ctx(it, cell)
        if ctx is None:
            out = []
            for s, b in (it.fork(st, mk_lt(lo, hi)) if hi is not None else [(st, True)]):
                out.append((s, T("it", "range", mk_add(lo, I(1)), hi), lo) if b else (s, T("it", "done", "range"), None))
            return out
        if ctx.mode == "trial":
            raise NeedSummary(ctx)
        if lo is I(0) and hi is not None and hi.op == "len":
            sq = hi.a[0]     # every position of a sequence, in order
            return sym_next(it, st, ctx, itv, sq, lambda s: T("elemix", T("elem", ctx.lid, sq)))
        sq = T("range", lo, hi if hi is not None else T("inf"))
        el = T("elem", ctx.lid, sq)
        return sym_next(it, st, ctx, itv, sq, lambda s: el)
    if k in ("pairs", "keys", "values"):
        mp = itv.a[1]
        if mp.op == "map":
            ents = mp.a[0]
            pos = itv.a[2] if len(itv.a) > 2 else 0
            if pos >= len(ents):
                return [(st, T("it", "done", k), None)]
            kv = ents[pos]
            e = T("tuple", *kv) if k == "pairs" else kv[0] if k == "keys" else kv[1]
            return [(st, T("it", k, mp, pos + 1), e)]
        sq = T("mapiter", k, mp)
        ctx = active_ctx(it, cell)
        if ctx is None:
            return [(st, T("it", "popped", itv), app("next", fz(it, st, itv)))]
        if ctx.mode == "trial":
            raise NeedSummary(ctx)
        el = T("elem", ctx.lid, sq)
        return sym_next(it, st, ctx, itv, sq, lambda s: el)
    if k == "after":
        return [(st, itv, T("elem2", itv.a[1], T("n", it.fresh()))), (st.copy(), T("it", "done", k), None)]
    if k == "opt":
        v = itv.a[1]
        if v.op == "adt":
            return [(st, T("it", "done", k), v.a[3][0] if v.a[1] == "Some" else None)]
        out = []
        for s, b in it.fork(st, T("isvar", fz(it, st, v), OPT, "Some")):
            out.append((s, T("it", "done", k), mk_field(mk_as(v, "Some"), "0") if b else None))
        return out
    if k == "by_ref":
        p = itv.a[1]
        inner = it.load(st, p.a[0], p.a[1])
        out = []
        for s, ni, e in it_next(it, st, c, inner, p.a[0]):
            it.store(s, p.a[0], p.a[1], ni)
            out.append((s, itv, e))
        return out
    if k == "map":
        out = []
        for s, ni, e in it_next(it, st, c, itv.a[1], cell):
            if e is None:
                out.append((s, T("it", "done", k), None))
            else:
                for s2, v in call_f(it, s, c, itv.a[2], [e]):
                    out.append((s2, T("it", "map", ni, itv.a[2]), v))
        return out
    if k in ("filter", "filter_map"):
        out = []
        todo = [(st, itv.a[1])]
        n = 0
        while todo:
            s0, inner = todo.pop()
            n += 1
            if n > 400:
                raise Limit("filter")
            for s, ni, e in it_next(it, s0, c, inner, cell):
                if e is None:
                    out.append((s, T("it", "done", k), None))
                    continue
                if k == "filter":
                    for s2, v in call_f(it, s, c, itv.a[2], [it.ref(s, e)]):
                        for s3, b in it.fork(s2, fz(it, s2, v)):
                            if b:
                                out.append((s3, T("it", k, ni, itv.a[2]), e))
                            elif inner_after(ni):
                                skipped(it, ni, s3)
                            else:
                                todo.append((s3, ni))
                else:
                    for s2, v in call_f(it, s, c, itv.a[2], [e]):
                        for s3, x in opt_cases(it, s2, v):
                            if x is not None:
                                out.append((s3, T("it", k, ni, itv.a[2]), x))
                            elif inner_after(ni):
                                skipped(it, ni, s3)
                            else:
                                todo.append((s3, ni))
        return out
    if k == "enum":
        out = []
        for s, ni, e in it_next(it, st, c, itv.a[1], cell):
            if e is None:
                out.append((s, T("it", "done", k), None))
            else:
                n = itv.a[2]
                nn = mk_add(n, I(1)) if not inner_after(ni) else n
                idx = n if not inner_after(ni) else T("elemidx", after_lid(ni))
                out.append((s, T("it", "enum", ni, nn), T("tuple", idx, e)))
        return out
    if k in ("cloned",):
        out = []
        for s, ni, e in it_next(it, st, c, itv.a[1], cell):
            out.append((s, T("it", k, ni) if e is not None else T("it", "done", k), None if e is None else it.deref(s, e)))
        return out
    if k in ("flatten", "flatopt"):
        outer, cur = itv.a[1], itv.a[2]
        out = []
        todo = [st]
        if cur.op == "it":
            todo = []
            for s, ni, e in it_next(it, st, c, cur, cell):
                if e is not None:
                    out.append((s, T("it", k, outer, ni), e))
                else:
                    todo.append(s)
        for s0 in todo:
            for s, no, oe in it_next(it, s0, c, outer, cell):
                if oe is None:
                    out.append((s, T("it", "done", k), None))
                    continue
                if inner_after(no):
                    raise Limit("flattening an unknown sequence of sequences")
                for s2, cur2 in ([(s, T("it", "opt", oe))] if k == "flatopt" else to_iter(it, s, c, oe)):
                    for s3, ni, e in it_next(it, s2, c, T("it", k, no, cur2), cell):
                        if e is not None:
                            s3.exh = st.exh
                        out.append((s3, ni, e))
        return out
    if k == "chain":
        out = []
        for s, ni, e in it_next(it, st, c, itv.a[1], cell):
            if e is not None:
                out.append((s, T("it", "chain", ni, itv.a[2]), e))
            else:
                ex = s.exh
                for s2, n2, e2 in it_next(it, s, c, itv.a[2], cell):
                    if e2 is not None:
                        s2.exh = st.exh
                    out.append((s2, n2 if e2 is None else T("it", "chain", T("it", "done", k), n2), e2))
        return out
    if k == "zip":
        out = []
        for s, ni, e in it_next(it, st, c, itv.a[1], cell):
            if e is None:
                out.append((s, T("it", "done", k), None))
                continue
            for s2, n2, e2 in it_next(it, s, c, itv.a[2], cell):
                if e2 is None:
                    out.append((s2, T("it", "done", k), None))
                else:
                    out.append((s2, T("it", "zip", ni, n2), T("tuple", e, e2)))
        return out
    if k == "rev":
        inner = itv.a[1]
        if inner.a[0] in ("slice", "vals"):
            base, pos = inner.a[1], inner.a[2]
            sv = it.deep(st, base)
            n, full = lead(sv)
            end = itv.a[2] if len(itv.a) > 2 else n
            if full and pos.op == "int":
                if end <= pos.a[0]:
                    return [(st, T("it", "done", k), None)]
                i = I(end - 1)
                return [(st, T("it", "rev", inner, end - 1), elem_ref(it, st, base, i) if inner.a[0] == "slice" else mk_idx(sv, i))]
        if inner.a[0] == "range" and inner.a[1].op == "int" and inner.a[2].op == "int":
            lo, hi = inner.a[1].a[0], inner.a[2].a[0]
            if lo < hi:
                return [(st, T("it", "rev", T("it", "range", I(lo), I(hi - 1))), I(hi - 1))]
            return [(st, T("it", "done", k), None)]
        out = []
        for s, ni, e in it_next(it, st, c, inner, cell):
            out.append((s, T("it", "rev", ni) if e is not None else T("it", "done", k), e))
        return out
    if k == "take":
        n = itv.a[2]
        if n.op == "int":
            if n.a[0] == 0:
                return [(st, T("it", "done", k), None)]
            out = []
            for s, ni, e in it_next(it, st, c, itv.a[1], cell):
                out.append((s, T("it", "take", ni, n if inner_after(ni) else I(n.a[0] - 1)) if e is not None else T("it", "done", k), e))
            return out
    if k == "skip":
        n = itv.a[2]
        inner = itv.a[1]
        if inner.a[0] in ("slice", "vals"):
            return it_next(it, st, c, T("it", inner.a[0], inner.a[1], mk_add(inner.a[2], n)), cell)
    return [(st, itv, app("next", fz(it, st, itv), T("n", it.fresh()))), (st.copy(), T("it", "done", k), None)]


def inner_after(ni):
    if ni.op != "it":
        return False
    if ni.a[0] == "after":
        return True
    if ni.a[0] == "done":
        return False
    return any(isinstance(x, Term) and x.op == "it" and inner_after(x) for x in ni.a[1:3])


def skipped(it, ni, st):
    """a filtered-out element of an unknown sequence is an iteration of its own, without effect"""
    lid = after_lid(ni)
    for ctx in reversed(it.ctx):
        if ctx.lid == lid:
            ctx.skips.append(st)
            return
    raise Limit("filter outside its loop")


def after_lid(ni):
    if ni.a[0] == "after":
        return ni.a[1]
    for x in ni.a[1:3]:
        if isinstance(x, Term) and x.op == "it" and inner_after(x):
            return after_lid(x)
    return None


def elem_of(it, st, base, el, sq, k, pos):
    """element of an unknown sequence: a reference into it (slice iteration) or the value"""
    base = view(it, st, base)
    if k == "slice" and base.op == "ptr":
        v = it.load(st, base.a[0], base.a[1])
        if v.op not in ("seq", "bytes"):
            return T("ptr", base.a[0], base.a[1] + (("i", el_index(el)),))
        return T("ptr", base.a[0], base.a[1] + (("i", el_index(el)),))
    return el


def el_index(el):
    return T("elemix", el)


def sym_next(it, st, ctx, itv, sq, mk):
    if sq not in ctx.seqs:
        ctx.seqs.append(sq)
    s2 = st.copy()
    s2.exh = s2.exh | {ctx.lid}
    return [(st, T("it", "after", ctx.lid, itv), mk(st)), (s2, T("it", "done", "sym"), None)]


def call_f(it, st, c, f, args):
    return it.call_value(st, f, args, c)


def opt_cases(it, st, v):
    """Option value -> [(state, payload or None)]"""
    v = it.deep(st, v)
    if v.op == "adt":
        return [(st, v.a[3][0] if v.a[1] == "Some" else None)]
    out = []
    for s, b in it.fork(st, T("isvar", it.freeze(st, v), OPT, "Some")):
        out.append((s, mk_field(mk_as(v, "Some"), "0") if b else None))
    return out


def res_cases(it, st, v):
    """Result value -> [(state, 'Ok'|'Err', payload)]"""
    v = it.deep(st, v)
    if v.op == "adt":
        return [(st, v.a[1], v.a[3][0])]
    out = []
    for s, b in it.fork(st, T("isvar", it.freeze(st, v), RES, "Ok")):
        n = "Ok" if b else "Err"
        out.append((s, n, mk_field(mk_as(v, n), "0")))
    return out


@m("core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def next_(it, st, c, a):
    p = a[0]
    # innermost pointer to the iterator value
    n = 0
    while p.op == "ptr":
        w = it.load(st, p.a[0], p.a[1])
        if w.op != "ptr":
            break
        p = w
        n += 1
    if p.op != "ptr":
        if c.callee.get("inst") is not None and it.p.insts[c.callee["inst"]]["crate"] in it.local:
            return None
        return ret(st, app("next", fz(it, st, p), T("n", it.fresh())))
    itv = it.load(st, p.a[0], p.a[1])
    if itv.op == "adt" and itv.a[0] == "core::ops::range::Range":
        itv = to_iter(it, st, c, itv)[0][1]
    if itv.op == "app" and itv.a[0] == "range_incl":
        itv = to_iter(it, st, c, itv)[0][1]
    if itv.op != "it":
        if c.callee.get("inst") is not None and it.p.insts[c.callee["inst"]]["crate"] in it.local:
            return None
        # a loop variable or unknown iterator
        return ret(st, app("next", fz(it, st, itv), T("n", it.fresh())))
    if c.decl.endswith("next_back"):
        itv2 = T("it", "rev", itv)
        out = []
        for s, ni, e in it_next(it, st, c, itv2, p.a[0]):
            it.store(s, p.a[0], p.a[1], T("it", "opaque", T("n", it.fresh())))
            out.append((s, some(e) if e is not None else NONE))
        return out
    out = []
    for s, ni, e in it_next(it, st, c, itv, p.a[0]):
        it.store(s, p.a[0], p.a[1], ni)
        out.append((s, some(e) if e is not None else NONE))
    return out


@m("core::slice::iter::Iter::<'a, T>::as_slice", "alloc::vec::into_iter::IntoIter::<T, A>::as_slice")
def iter_as_slice(it, st, c, a):
    v = deepv(it, st, a[0])
    if v.op == "it" and v.a[0] in ("slice", "vals"):
        return ret(st, sub_ref(it, st, v.a[1], v.a[2], None))
    if v.op == "it" and v.a[0] == "done":
        return ret(st, it.ref(st, T("seq")))
    return ret(st, app("as_slice", fz(it, st, v)))


def limited(it, st, itv, n):
    """the first n items of an iterator over an unknown sequence: all of them, or those of a prefix;
    [(state, iterator)], None when the items are not simply those of a sequence"""
    k = itv.a[0]
    if k in ("map", "cloned"):
        r = limited(it, st, itv.a[1], n)
        return None if r is None else [(s, T("it", k, x, *itv.a[2:])) for s, x in r]
    if k not in ("slice", "vals"):
        return None
    base, pos = itv.a[1], itv.a[2]
    if lead(it.deep(st, base))[1]:
        return None
    out = []
    n = fz(it, st, n)
    for s, b in it.fork(st, mk_lt(n, mk_sub(slen(it, st, base), pos))):
        out.append((s, T("it", k, sub_ref(it, s, base, pos, mk_add(pos, n)), I(0)) if b else itv))
    return out


def adapter(kind, nargs):
    def f(it, st, c, a):
        out = []
        for s, itv in to_iter_self(it, st, c, a[0]):
            r = limited(it, s, itv, a[1]) if kind == "take" else None
            if r is not None:
                out.extend(r)
                continue
            out.append((s, T("it", kind, itv, *a[1:1 + nargs])))
        return out
    return f


def to_iter_self(it, st, c, v):
    if v.op == "ptr":
        w = it.load(st, v.a[0], v.a[1])
        if w.op == "it":
            return [(st, T("it", "by_ref", v))]
    return to_iter(it, st, c, v)


IT = "core::iter::traits::iterator::Iterator::"
for nm, kd, na in (("map", "map", 1), ("filter", "filter", 1), ("filter_map", "filter_map", 1), ("cloned", "cloned", 0), ("copied", "cloned", 0),
                   ("rev", "rev", 0), ("take", "take", 1), ("skip", "skip", 1), ("fuse", "fuse", 0)):
    MODELS[IT + nm] = adapter(kd, na)


@m(IT + "flatten", IT + "flat_map")
def flatten(it, st, c, a):
    out = []
    for s, itv in to_iter_self(it, st, c, a[0]):
        if len(a) > 1:
            itv = T("it", "map", itv, a[1])
        inner = itv.a[1] if itv.a[0] == "map" else itv
        if inner.a[0] == "opt":
            # an option holds at most one sequence
            for s2, ni, e in it_next(it, s, c, itv, None):
                out += [(s2, ni)] if e is None else to_iter(it, s2, c, e)
            continue
        items = len(a) == 1 and _re.search(r"\bIntoIter<core::option::Option<", c.targs()[0] if c.targs() else "")
        out.append((s, T("it", "flatopt" if items else "flatten", itv, T("none"))))
    return out


@m("core::option::Option::<T>::iter", "core::option::Option::<T>::iter_mut")
def option_iter(it, st, c, a):
    return to_iter(it, st, c, a[0], OPT) if a[0].op != "ptr" or it.load(st, a[0].a[0], a[0].a[1]).op == "adt" else \
        [(st, T("it", "opt", it.load(st, a[0].a[0], a[0].a[1])))]


@m(IT + "enumerate")
def enumerate_(it, st, c, a):
    return [(s, T("it", "enum", itv, I(0))) for s, itv in to_iter_self(it, st, c, a[0])]


@m(IT + "chain", IT + "zip")
def chain(it, st, c, a):
    out = []
    k = c.decl.rsplit("::", 1)[1]
    for s, x in to_iter_self(it, st, c, a[0]):
        for s2, y in to_iter(it, s, c, a[1]):
            out.append((s2, T("it", k, x, y)))
    return out


def chained(itv):
    """the two iterators run through one after the other, None when it is not such a chain"""
    k = itv.a[0]
    if k == "chain":
        return itv.a[1], itv.a[2]
    if k in ("map", "cloned", "filter", "filter_map"):
        r = chained(itv.a[1])
        return None if r is None else tuple(T("it", k, x, *itv.a[2:]) for x in r)
    return None


def foreach(it, st, c, itv, body, key):
    """Drives an iterator to its end.  body(state, elem) -> [(state, 'cont'|'exit', payload)].
    Returns [(state, payload or None)] (None: exhausted)."""
    parts = chained(itv)
    if parts is not None:
        out = []
        for s, pl in foreach(it, st, c, parts[0], body, (key, 0)):
            out += [(s, pl)] if pl is not None else foreach(it, s, c, parts[1], body, (key, 1))
        return out
    cell = it.new_cell(st, itv)
    lid = it.lid(("m", key, c.loc.line[1] if c.loc and isinstance(c.loc.line, (list, tuple)) else 0, c.path))
    ctx = LoopCtx(lid, "trial", it.cellctr)
    it.ctx.append(ctx)
    try:
        cur = [st.copy()]
        outs = []
        for n in range(40):
            nxt = []
            for s in cur:
                for s2, ni, e in it_next(it, s, c, it.load(s, cell, ()), cell):
                    s2.mem[cell] = ni
                    if e is None:
                        outs.append((s2, None))
                    else:
                        for s3, k, pl in body(s2, e):
                            if k == "cont":
                                nxt.append(s3)
                            else:
                                outs.append((s3, (pl,)))
            cur = nxt
            if not cur:
                return outs
            if len(cur) > 600:
                break
        # undecided after the limit: summarise
    except NeedSummary as e:
        if e.ctx is not ctx:
            raise
    finally:
        it.ctx.pop()

    def b(s0):
        o = []
        for s2, ni, e in it_next(it, s0, c, it.load(s0, cell, ()), cell):
            s2.mem[cell] = ni
            if e is None:
                o.append(("exit", None, s2))
            else:
                for s3, k, pl in body(s2, e):
                    if k == "cont":
                        s3.mem[cell] = itv
                        o.append(("cont", None, s3))
                    else:
                        o.append(("exit", (pl,), s3))
        return o

    return [(s, pl) for pl, s in it.summarise(st, lid, b, c.loc)]


def collect_seq(it, st, c, itv):
    """all items as one sequence value"""
    # whole-sequence shortcuts
    if itv.a[0] in ("slice",):
        acc_kind = "refs"
    acc = it.new_cell(st, T("seq"))

    def body(s, e):
        s.mem[acc] = push_val(s.mem[acc], e)
        return [(s, "cont", None)]

    out = []
    for s, pl in foreach(it, st, c, itv, body, "collect"):
        out.append((s, s.mem[acc]))
    return out


@m(IT + "collect", "core::iter::traits::collect::FromIterator::from_iter")
def collect(it, st, c, a):
    dst = c.targs()[1] if c.decl.endswith("collect") and len(c.targs()) > 1 else c.targs()[0]
    out = []
    for s, itv in to_iter_self(it, st, c, a[0]):
        if dst.startswith(RES) or dst.startswith(OPT):
            good, bad = ("Ok", "Err") if dst.startswith(RES) else ("Some", "None")
            acc = it.new_cell(s, T("seq"))

            def body(s1, e):
                o = []
                if dst.startswith(RES):
                    for s2, k, pl in res_cases(it, s1, e):
                        if k == "Ok":
                            s2.mem[acc] = push_val(s2.mem[acc], pl)
                            o.append((s2, "cont", None))
                        else:
                            o.append((s2, "exit", err(pl)))
                else:
                    for s2, pl in opt_cases(it, s1, e):
                        if pl is not None:
                            s2.mem[acc] = push_val(s2.mem[acc], pl)
                            o.append((s2, "cont", None))
                        else:
                            o.append((s2, "exit", NONE))
                return o
            for s2, pl in foreach(it, s, c, itv, body, "collect?"):
                if pl is None:
                    v = s2.mem[acc]
                    if "HashMap<" in dst or "BTreeMap<" in dst:
                        v = mapof(v)
                    out.append((s2, ok(v) if dst.startswith(RES) else some(v)))
                else:
                    out.append((s2, pl[0]))
            continue
        if "HashMap<" in dst or "BTreeMap<" in dst:
            for s2, sq in collect_seq(it, s, c, itv):
                out.append((s2, mapof(fz(it, s2, sq))))
            continue
        if dst == "alloc::string::String":
            for s2, sq in collect_seq(it, s, c, itv):
                out.append((s2, app("strjoin", fz(it, s2, sq))))
            continue
        if dst.startswith(("alloc::vec::Vec", "alloc::boxed::Box<[", "std::collections::hash::set", "alloc::collections::btree::set")):
            for s2, sq in collect_seq(it, s, c, itv):
                out.append((s2, sq if "set::" not in dst else T("setof", fz(it, s2, sq))))
            continue
        return None
    return out


def mapof(sq):
    q = sq.a[0].a[0] if sq.op == "seq" and len(sq.a) == 1 and sq.a[0].op == "splat" else sq
    if q.op == "mapseq" and q.a[2].op == "tuple" and len(q.a[2].a) == 2:
        el = T("elem", q.a[0], q.a[1])
        if all(x is mk_field(el, str(i)) for i, x in enumerate(q.a[2].a)):
            return mapof(q.a[1])    # (pair.0, pair.1) is the pair
    if sq.op == "seq" and all(x.op == "tuple" for x in sq.a) and len(set(x.a[0] for x in sq.a)) == len(sq.a) and all(is_const(x.a[0]) for x in sq.a):
        return T("map", tuple((x.a[0], x.a[1]) for x in sq.a))
    if sq.op == "seq" and len(sq.a) == 1 and sq.a[0].op == "splat":
        sq = sq.a[0].a[0]
    return T("mapof", sq)


@m(IT + "for_each", IT + "try_for_each")
def for_each(it, st, c, a):
    tr = c.decl.endswith("try_for_each")
    out = []
    for s, itv in to_iter_self(it, st, c, a[0]):
        fcell = it.ref(s, a[1])

        def body(s1, e):
            o = []
            for s2, v in call_f(it, s1, c, fcell, [e]):
                if not tr:
                    o.append((s2, "cont", None))
                elif c.retty().startswith(OPT):
                    for s3, x in opt_cases(it, s2, v):
                        o.append((s3, "cont", None) if x is not None else (s3, "exit", NONE))
                else:
                    for s3, k, x in res_cases(it, s2, v):
                        o.append((s3, "cont", None) if k == "Ok" else (s3, "exit", err(x)))
            return o
        for s2, pl in foreach(it, s, c, itv, body, "foreach"):
            if pl is not None:
                out.append((s2, pl[0]))
            else:
                out.append((s2, (some(UNIT) if c.retty().startswith(OPT) else ok(UNIT)) if tr else UNIT))
    return out


@m(IT + "fold", IT + "try_fold")
def fold(it, st, c, a):
    tr = c.decl.endswith("try_fold")
    out = []
    for s, itv in to_iter_self(it, st, c, a[0]):
        acc = it.new_cell(s, a[1])
        fcell = it.ref(s, a[2])

        def body(s1, e):
            o = []
            for s2, v in call_f(it, s1, c, fcell, [s1.mem[acc], e]):
                if not tr:
                    s2.mem[acc] = v
                    o.append((s2, "cont", None))
                elif c.retty().startswith(OPT):
                    for s3, x in opt_cases(it, s2, v):
                        if x is not None:
                            s3.mem[acc] = x
                            o.append((s3, "cont", None))
                        else:
                            o.append((s3, "exit", NONE))
                else:
                    for s3, k, x in res_cases(it, s2, v):
                        if k == "Ok":
                            s3.mem[acc] = x
                            o.append((s3, "cont", None))
                        else:
                            o.append((s3, "exit", err(x)))
            return o
        for s2, pl in foreach(it, s, c, itv, body, "fold"):
            if pl is not None:
                out.append((s2, pl[0]))
            else:
                v = s2.mem[acc]
                out.append((s2, (some(v) if c.retty().startswith(OPT) else ok(v)) if tr else v))
    return out


@m(IT + "all", IT + "any")
def all_any(it, st, c, a):
    isall = c.decl.endswith("all")
    out = []
    for s, itv in to_iter_self(it, st, c, a[0]):
        base = itv
        if itv.a[0] == "by_ref":
            base = it.load(s, itv.a[1].a[0], itv.a[1].a[1])
        q = quantifier(it, s, c, base, a[1], isall)
        if q is not None:
            spent(it, s, itv)
            out.append((s, q))
            continue
        fcell = it.ref(s, a[1])

        def body(s1, e):
            o = []
            for s2, v in call_f(it, s1, c, fcell, [e]):
                for s3, b in it.fork(s2, it.freeze(s2, v)):
                    if b == isall:
                        o.append((s3, "cont", None))
                    else:
                        o.append((s3, "exit", B(not isall)))
            return o
        for s2, pl in foreach(it, s, c, itv, body, "allany"):
            out.append((s2, pl[0] if pl is not None else B(isall)))
    return out


def spent(it, st, itv):
    """the iterator stopped at an unknown place"""
    if itv.a[0] == "by_ref":
        it.store(st, itv.a[1].a[0], itv.a[1].a[1], T("it", "stopped", T("n", it.fresh())))


def quantifier(it, st, c, itv, f, isall, byref=False):
    """all/any over a sequence that has an unknown part, with a pure predicate: a boolean term"""
    if itv.a[0] not in ("slice", "vals"):
        return None
    sv = it.freeze(st, it.deep(st, itv.a[1]))
    n, full = lead(sv)
    if full:
        return None
    sq = mk_slice(sv, itv.a[2], None)
    if sq.op == "seq" and len(sq.a) == 1 and sq.a[0].op == "splat":
        sq = sq.a[0].a[0]
    lid = it.lid(("q", c.path, c.loc.line[1] if c.loc and isinstance(c.loc.line, (list, tuple)) else 0))
    el = T("elem", lid, sq)
    s1 = st.copy()
    ev0, mem0 = s1.ev, None
    arg = el if itv.a[0] == "vals" else it.ref(s1, el)
    rs = call_f(it, s1, c, it.ref(s1, f), [it.ref(s1, arg) if byref else arg])
    if len(rs) == 1 and rs[0][0].ev is ev0:
        v = it.freeze(rs[0][0], it.deep(rs[0][0], rs[0][1]))
        if isall:
            return T("forall", sq, el, v)
        return T("not", T("forall", sq, el, mk_not(v)))
    # several pure outcomes: the disjunction of what leads to each
    alts = []
    for s2, v in rs:
        if s2.ev is not ev0:
            return None
        v = it.freeze(s2, it.deep(s2, v))
        if v.op == "bool" and not v.a[0]:
            continue
        g = it.formula(s2.facts.delta(st.facts))
        if g is None:
            return None
        if v.op != "bool":
            g = v if g is TRUE else T("and", g, v)
        if g is TRUE:
            return None
        alts.append(g)
    if not alts:
        return None
    v = functools.reduce(lambda x, y: T("or", x, y), alts)
    if isall:
        return T("forall", sq, el, v)
    return T("not", T("forall", sq, el, mk_not(v)))


@m(IT + "find", IT + "find_map", IT + "position")
def find(it, st, c, a):
    nm = c.decl.rsplit("::", 1)[1]
    out = []
    for s, itv in to_iter_self(it, st, c, a[0]):
        base = it.load(s, itv.a[1].a[0], itv.a[1].a[1]) if itv.a[0] == "by_ref" else itv
        q = quantifier(it, s, c, base, a[1], False, nm == "find") if nm != "find_map" else None
        if q is not None and q.op == "not" and q.a[0].op == "forall":
            # the first element that satisfies a pure predicate
            spent(it, s, itv)
            sq, el, no = q.a[0].a
            yes = mk_not(no)
            fd = T("found", sq, el, yes)
            for s2, b in it.fork(s, q):
                if not b:
                    out.append((s2, NONE))
                    continue
                for s3, b3 in it.fork(s2, subst(yes, {el: fd})):
                    if b3:
                        v = T("foundix", sq, el, yes) if nm == "position" else fd if base.a[0] == "vals" else it.ref(s3, fd)
                        out.append((s3, some(v)))
            continue
        fcell = it.ref(s, a[1])
        cnt = it.new_cell(s, I(0))

        def body(s1, e):
            o = []
            arg = it.ref(s1, e) if nm == "find" else e
            for s2, v in call_f(it, s1, c, fcell, [arg]):
                if nm == "find_map":
                    for s3, x in opt_cases(it, s2, v):
                        o.append((s3, "exit", some(x)) if x is not None else (s3, "cont", None))
                else:
                    for s3, b in it.fork(s2, it.freeze(s2, v)):
                        if b:
                            o.append((s3, "exit", some(e if nm == "find" else s3.mem[cnt])))
                        else:
                            s3.mem[cnt] = mk_add(s3.mem[cnt], I(1))
                            o.append((s3, "cont", None))
            return o
        for s2, pl in foreach(it, s, c, itv, body, nm):
            out.append((s2, pl[0] if pl is not None else NONE))
    return out


@m(IT + "count", IT + "last", IT + "sum", IT + "max", IT + "min")
def it_agg(it, st, c, a):
    nm = c.decl.rsplit("::", 1)[1]
    out = []
    for s, itv in to_iter_self(it, st, c, a[0]):
        for s2, sq in collect_seq(it, s, c, itv):
            sq = fz(it, s2, sq)
            if nm == "count":
                out.append((s2, mk_len(sq)))
            elif nm == "last" and sq.op == "seq" and sq.a and sq.a[-1].op != "splat":
                out.append((s2, some(sq.a[-1])))
            else:
                if nm == "sum" and not (sq.op == "seq" and all(x.op == "int" for x in sq.a)):
                    it.panics.append(("sum, which can overflow", it.origin(c.loc), s2.facts.copy()))
                out.append((s2, app("iter_" + nm, sq)))
    return out


@m(IT + "nth")
def nth(it, st, c, a):
    p = a[0]
    k = fz(it, st, a[1])
    if k.op != "int" or k.a[0] > 64:
        return None
    cur = [(st, NONE, False)]
    for i in range(k.a[0] + 1):
        nxt = []
        for s, v, dn in cur:
            if dn:
                nxt.append((s, v, dn))
                continue
            for s2, o in next_(it, s, c, [p]):
                nxt.append((s2, o, o is NONE))
        cur = nxt
    return [(s, v) for s, v, _ in cur]


# ---------------------------------------------------------------------------------------
# maps

HM = "std::collections::hash::map::HashMap::<K, V, S, A>::"
HM2 = "std::collections::hash::map::HashMap::<K, V, S>::"
BM = "alloc::collections::btree::map::BTreeMap::<K, V, A>::"


def maps(*names):
    r = []
    for n in names:
        r += [HM + n, HM2 + n, BM + n, "std::collections::hash::map::HashMap::<K, V>::" + n, "alloc::collections::btree::map::BTreeMap::<K, V>::" + n]
    return r


@m(*maps("new", "with_capacity"))
def map_new(it, st, c, a):
    return ret(st, T("map", ()))


def mapget(mp, k):
    if mp.op == "map" and is_const(k):
        for x, v in mp.a[0]:
            if x is k:
                return some(v)
        if all(is_const(x) for x, _ in mp.a[0]):
            return NONE
    if mp.op == "mapins":
        if mp.a[1] is k:
            return some(mp.a[2])
        if distinct(mp.a[1], k):
            return mapget(mp.a[0], k)
    if mp.op == "mapdel":
        if mp.a[1] is k:
            return NONE
        if distinct(mp.a[1], k):
            return mapget(mp.a[0], k)
    return T("mapget", mp, k)


@m(*maps("get", "get_mut"))
def map_get(it, st, c, a):
    mp = fz(it, st, deepv(it, st, a[0]))
    k = fz(it, st, deepv(it, st, a[1]))
    if c.path.endswith("get_mut"):
        return None
    return ret(st, mapget(mp, k))


@m("std::collections::hash::set::HashSet::<T, S>::contains", "alloc::collections::btree::set::BTreeSet::<T, A>::contains",
   "std::collections::hash::set::HashSet::<T, S, A>::contains", "alloc::collections::btree::set::BTreeSet::<T>::contains")
def set_contains(it, st, c, a):
    q = fz(it, st, deepv(it, st, a[0]))
    x = fz(it, st, deepv(it, st, a[1]))
    return ret(st, T("contains", q, x))


@m(*maps("contains_key"))
def map_contains(it, st, c, a):
    mp = fz(it, st, deepv(it, st, a[0]))
    k = fz(it, st, deepv(it, st, a[1]))
    g = mapget(mp, k)
    if g.op == "adt":
        return ret(st, B(g.a[1] == "Some"))
    return ret(st, T("isvar", g, OPT, "Some"))


@m(*maps("insert"))
def map_insert(it, st, c, a):
    p = view(it, st, a[0])
    mp = fz(it, st, it.deref(st, p))
    k, v = fz(it, st, a[1]), fz(it, st, a[2])
    old = mapget(mp, k)
    if mp.op == "map" and is_const(k) and all(is_const(x) for x, _ in mp.a[0]):
        nm = T("map", tuple((x, y) for x, y in mp.a[0] if x is not k) + ((k, v),))
    else:
        nm = T("mapins", mp, k, v)
    it.store_ptr(st, p, nm, c.loc)
    return ret(st, old)


@m(*maps("remove"))
def map_remove(it, st, c, a):
    p = view(it, st, a[0])
    mp = fz(it, st, it.deref(st, p))
    k = fz(it, st, deepv(it, st, a[1]))
    old = mapget(mp, k)
    it.store_ptr(st, p, mapdel(mp, k), c.loc)
    return ret(st, old)


def mapdel(mp, k):
    if mp.op == "map" and is_const(k) and all(is_const(x) for x, _ in mp.a[0]):
        return T("map", tuple((x, y) for x, y in mp.a[0] if x is not k))
    return T("mapdel", mp, k)


@m(*maps("retain"))
def map_retain(it, st, c, a):
    """the entries a predicate rejects are taken out, one by one"""
    p = view(it, st, a[0])
    mp = fz(it, st, it.deref(st, p))
    f = it.ref(st, a[1])
    # one pure condition `key != k`: the entry of k is taken out
    s1 = st.copy()
    el = T("elem", it.lid(("retain", c.loc.line[1] if c.loc and isinstance(c.loc.line, (list, tuple)) else 0)), T("mapiter", "pairs", mp))
    rs = call_f(it, s1, c, f, [it.ref(s1, mk_field(el, "0")), it.ref(s1, mk_field(el, "1"))])
    if len(rs) == 1 and rs[0][0].ev is st.ev:
        v = it.freeze(rs[0][0], it.deep(rs[0][0], rs[0][1]))
        key = mk_field(el, "0")
        if v.op == "not" and v.a[0].op == "eq" and key in v.a[0].a:
            k = v.a[0].a[1] if v.a[0].a[0] is key else v.a[0].a[0]
            if not contains(k, el):
                it.store_ptr(st, p, mapdel(mp, k), c.loc)
                return ret(st, UNIT)
    acc = it.new_cell(st, mp)

    def body(s, e):
        o = []
        key = it.freeze(s, mk_field(e, "0"))
        for s2, v in call_f(it, s, c, f, [it.ref(s, key), it.ref(s, mk_field(e, "1"))]):
            for s3, keep in it.fork(s2, fz(it, s2, it.deep(s2, v))):
                if not keep:
                    s3.mem[acc] = mapdel(s3.mem[acc], key)
                o.append((s3, "cont", None))
        return o

    out = []
    for s, pl in foreach(it, st, c, T("it", "pairs", mp), body, "retain"):
        it.store_ptr(s, p, s.mem[acc], c.loc)
        out.append((s, UNIT))
    return out


@m("alloc::vec::Vec::<T, A>::retain", "alloc::vec::Vec::<T>::retain")
def vec_retain(it, st, c, a):
    p = view(it, st, a[0])
    sq = it.freeze(st, it.deep(st, p))
    f = it.ref(st, a[1])
    acc = it.new_cell(st, T("seq"))

    def body(s, e):
        o = []
        for s2, v in call_f(it, s, c, f, [it.ref(s, e)]):
            for s3, keep in it.fork(s2, fz(it, s2, it.deep(s2, v))):
                if keep:
                    s3.mem[acc] = push_val(s3.mem[acc], e)
                o.append((s3, "cont", None))
        return o

    out = []
    for s, pl in foreach(it, st, c, T("it", "vals", sq, I(0)), body, "retain"):
        it.store_ptr(s, p, s.mem[acc], c.loc)
        out.append((s, UNIT))
    return out


@m(*maps("keys", "values", "iter", "into_keys", "into_values", "drain"))
def map_iter(it, st, c, a):
    mp = fz(it, st, deepv(it, st, a[0]))
    nm = c.path.rsplit("::", 1)[1].replace("into_", "")
    return ret(st, T("it", "pairs" if nm in ("iter", "drain") else nm, mp))


# ---------------------------------------------------------------------------------------
# strings and formatting

@m("alloc::fmt::format", "core::fmt::Arguments::<'a>::new", "core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::from_str_nonconst",
   "core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_lower_hex",
   "core::fmt::Arguments::<'a>::new_const", "core::fmt::Arguments::<'a>::new_v1")
def fmt(it, st, c, a):
    nm = c.path.rsplit("::", 1)[1]
    xs = [fz(it, st, x) for x in a]
    if nm == "new_display":
        t = next((x for x in c.targs() if x and not x.startswith("'")), "")
        return ret(st, app("fmt:" + nm, T("ty", (t,)), *xs))
    if nm == "format" and len(xs) == 1:
        x = xs[0]
        one = x.op == "app" and x.a[0] == "fmt:new" and len(x.a) == 3 and x.a[2].op == "seq" and len(x.a[2].a) == 1
        if one and x.a[1].op == "bytes" and bytes(x.a[1].a[0]) in (b"\xc0", b"\xc0\x00") and x.a[2].a[0].op == "app" and x.a[2].a[0].a[0] == "fmt:new_display":
            y = x.a[2].a[0]
            return ret(st, display(y.a[1].a[0][0], y.a[2]))
        if x.op == "app" and x.a[0] in ("fmt:from_str", "fmt:from_str_nonconst") and x.a[1].op == "str":
            return ret(st, x.a[1])
    return ret(st, app("fmt:" + nm, *xs))


@m("solana_msg::sol_log", "std::io::stdio::_eprint", "solana_msg::syscalls::sol_log_", "solana_program_log::log_message")
def silent(it, st, c, a):
    return unit(st)


@m("std::io::stdio::_print")
def print_(it, st, c, a):
    st.add(Event("print", {"args": tuple(fz(it, st, x) for x in a)}, c.loc, st.facts.copy()))
    return unit(st)


# ---------------------------------------------------------------------------------------
# Solana accounts

def acct(it, st, v):
    return fz(it, st, deepv(it, st, v))


AI = "solana_account_info::AccountInfo::<'a>::"


@m("solana_account_info::next_account_info")
def next_account_info(it, st, c, a):
    out = []
    for s, v in next_(it, st, c, a):
        for s2, x in opt_cases(it, s, v):
            out.append((s2, ok(x) if x is not None else err(adt("solana_program_error::ProgramError", "NotEnoughAccountKeys", (), ()))))
    return out


@m(AI + "try_borrow_data", AI + "try_borrow_mut_data")
def try_borrow_data(it, st, c, a):
    x = acct(it, st, a[0])
    k = "borrow" if c.path.endswith("try_borrow_data") else "borrow_mut"
    out = []
    for s, b in it.fork(st, T("isvar", app(k, x, st.epoch), RES, "Ok")):
        out.append((s, ok(T("data", x, s.epoch)) if b else err(adt("solana_program_error::ProgramError", "AccountBorrowFailed", (), ()))))
    return out


@m(AI + "data_len", AI + "try_data_len")
def data_len(it, st, c, a):
    v = mk_len(T("data", acct(it, st, a[0]), st.epoch))
    return ret(st, ok(v) if c.path.endswith("try_data_len") else v)


@m(AI + "data_is_empty", AI + "try_data_is_empty")
def data_is_empty(it, st, c, a):
    v = mk_eq(mk_len(T("data", acct(it, st, a[0]), st.epoch)), I(0))
    return ret(st, ok(v) if "try" in c.path else v)


@m(AI + "lamports", AI + "try_lamports")
def lamports(it, st, c, a):
    v = T("lamports", acct(it, st, a[0]), st.epoch)
    return ret(st, ok(v) if c.path.endswith("try_lamports") else v)


@m(AI + "signer_key", AI + "unsigned_key")
def signer_key(it, st, c, a):
    x = acct(it, st, a[0])
    if c.path.endswith("unsigned_key"):
        return ret(st, mk_field(x, "key"))
    out = []
    for s, b in it.fork(st, mk_field(x, "is_signer")):
        out.append((s, some(mk_field(x, "key")) if b else NONE))
    return out


def cpi(it, st, c, ix, accounts, seeds, extra=None):
    res = app("cpi_result", T("n", it.fresh()))
    d = {"ix": fz(it, st, deepv(it, st, ix)), "accounts": fz(it, st, deepv(it, st, accounts)),
         "seeds": fz(it, st, deepv(it, st, seeds)) if seeds is not None else T("seq"), "res": res, "epoch": st.epoch}
    st.add(Event("cpi", d, c.loc, st.facts.copy()))
    old = st.epoch
    st.epoch = T("ep", res)
    out = []
    # a failing callee aborts the transaction; the result is still modelled as a Result
    for s, b in it.fork(st, T("isvar", res, RES, "Ok")):
        if b:
            data_lengths(s, d, old)
        out.append((s, ok(UNIT) if b else err(mk_field(mk_as(res, "Err"), "0"))))
    return out


def data_lengths(s, d, old):
    """what a system program call says about the size of the accounts' data: allocation sets it, assignment and transfer keep it"""
    ix = d["ix"]
    if ix.op != "app" or ix.a[0] not in ("system::allocate", "system::assign", "system::transfer"):
        return
    known = {}
    for k, v in s.facts.eq.items():
        if k.op == "len" and k.a[0].op == "data" and k.a[0].a[1] is old and isinstance(v, Term):
            known[k.a[0].a[0]] = v
    if ix.a[0] == "system::allocate":
        infos = [x for x in d["accounts"].a if x.op != "splat"] if d["accounts"].op == "seq" else []
        hit = [x for x in infos if len(infos) == 1 or mk_field(x, "key") is ix.a[1] or s.facts.truth(mk_eq(mk_field(x, "key"), ix.a[1])) is True]
        for x in list(known):
            if x not in hit and not all(s.facts.truth(mk_eq(mk_field(x, "key"), mk_field(y, "key"))) is False for y in hit):
                del known[x]      # it might be the same account
        for x in hit:
            if ix.a[2].op == "int":
                known[x] = ix.a[2]
    for x, v in known.items():
        s.facts.assume(mk_eq(mk_len(T("data", x, s.epoch)), v), True)


@m("solana_cpi::invoke", "solana_cpi::invoke_unchecked")
def invoke(it, st, c, a):
    return cpi(it, st, c, a[0], a[1], None)


@m("solana_cpi::invoke_signed", "solana_cpi::invoke_signed_unchecked")
def invoke_signed(it, st, c, a):
    return cpi(it, st, c, a[0], a[1], a[2])


ON = "spl_token_2022::onchain::"


@m(ON + "invoke_transfer_checked")
def inv_tc(it, st, c, a):
    f = [fz(it, st, x) for x in a]
    prog, src, mint, dst, auth, rest, amount, dec, seeds = f
    K = lambda x: mk_field(x, "key")
    ix = app("token::transfer_checked", prog, K(src), K(mint), K(dst), K(auth), amount, dec, NONE)
    return cpi(it, st, c, ix, seq([src, mint, dst, auth, splat(rest)]), seeds)


@m(ON + "invoke_transfer_checked_with_fee")
def inv_tcf(it, st, c, a):
    f = [fz(it, st, x) for x in a]
    prog, src, mint, dst, auth, rest, amount, dec, fee, seeds = f
    K = lambda x: mk_field(x, "key")
    ix = app("token::transfer_checked", prog, K(src), K(mint), K(dst), K(auth), amount, dec, some(fee))
    return cpi(it, st, c, ix, seq([src, mint, dst, auth, splat(rest)]), seeds)


def builder(name, fallible, check=None):
    """An instruction builder: a term naming the operation over its arguments."""
    def f(it, st, c, a):
        v = app(name, *[fz(it, st, x) for x in a])
        if not fallible:
            return ret(st, v)
        ck = app("accepts", T("ty", (name,)), v.a[1])
        out = []
        for s, b in it.fork(st, T("isvar", ck, RES, "Ok")):
            out.append((s, ok(v) if b else err(mk_field(mk_as(ck, "Err"), "0"))))
        return out
    return f


for pre in ("spl_token_2022_interface::instruction::", "spl_token_interface::instruction::"):
    for nm, fal in (("mint_to", True), ("burn", True), ("transfer_checked", True), ("transfer", True), ("close_account", True), ("initialize_mint2", True),
                    ("initialize_mint", True), ("mint_to_checked", True), ("burn_checked", True), ("set_authority", True), ("approve", True),
                    ("freeze_account", True), ("thaw_account", True), ("initialize_permanent_delegate", True), ("initialize_account3", True),
                    ("initialize_account", True), ("revoke", True), ("sync_native", True), ("approve_checked", True), ("withdraw_excess_lamports", True),
                    ("initialize_mint_close_authority", True), ("initialize_non_transferable_mint", True), ("reallocate", True),
                    ("create_native_mint", True), ("initialize_immutable_owner", True), ("initialize_account2", True)):
        MODELS[pre + nm] = builder("token::" + nm, fal)
X = "spl_token_2022_interface::extension::"
for mod_, fn, nm in (("confidential_transfer", "initialize_mint", "ext::confidential_transfer"), ("default_account_state", "initialize_default_account_state", "ext::default_account_state"),
                     ("pausable", "initialize", "ext::pausable"), ("metadata_pointer", "initialize", "ext::metadata_pointer"),
                     ("group_pointer", "initialize", "ext::group_pointer"), ("group_member_pointer", "initialize", "ext::group_member_pointer"),
                     ("interest_bearing_mint", "initialize", "ext::interest_bearing"), ("transfer_hook", "initialize", "ext::transfer_hook"),
                     ("scaled_ui_amount", "initialize", "ext::scaled_ui_amount"), ("transfer_fee", "initialize_transfer_fee_config", "ext::transfer_fee"),
                     ("confidential_transfer_fee", "initialize_confidential_transfer_fee_config", "ext::confidential_transfer_fee"),
                     ("confidential_mint_burn", "initialize_mint", "ext::confidential_mint_burn")):
    MODELS[X + mod_ + "::instruction::" + fn] = builder(nm, True)
MODELS["spl_token_2022_interface::instruction::initialize_permanent_delegate"] = builder("ext::permanent_delegate", True)
MODELS["spl_token_2022_interface::instruction::initialize_mint_close_authority"] = builder("ext::mint_close_authority", True)
MODELS["spl_token_2022_interface::instruction::initialize_non_transferable_mint"] = builder("ext::non_transferable", True)
for nm in ("allocate", "assign", "transfer", "create_account", "create_account_with_seed"):
    MODELS["solana_system_interface::instruction::" + nm] = builder("system::" + nm, False)
for nm in ("initialize", "update_field", "remove_key", "emit", "update_authority"):
    MODELS["spl_token_metadata_interface::instruction::" + nm] = builder("metadata::" + nm, False)


def mpl_builder(it, st, c, a):
    """mpl_token_metadata::…::Struct::instruction(self, args)"""
    x = fz(it, st, deepv(it, st, a[0]))
    nm = c.path.split("::")[-2]
    return ret(st, app("mpl::" + nm, x, *[fz(it, st, y) for y in a[1:]]))


PDA_FNS = {"find_program_address": False, "try_find_program_address": True}


def pda(seeds, prog):
    return T("pda", seeds, prog)


@m("solana_address::syscalls::<impl solana_address::Address>::find_program_address", "solana_address::Address::find_program_address",
   "solana_address::syscalls::<impl solana_address::Address>::try_find_program_address", "solana_address::Address::try_find_program_address")
def find_pda(it, st, c, a):
    s = fz(it, st, deepv(it, st, a[0]))
    p = fz(it, st, deepv(it, st, a[1]))
    v = T("tuple", T("pda", s, p), T("bump", s, p))
    return ret(st, some(v) if "try_find" in c.path else v)


@m("solana_address::syscalls::<impl solana_address::Address>::create_program_address", "solana_address::Address::create_program_address")
def create_pda(it, st, c, a):
    s = fz(it, st, deepv(it, st, a[0]))
    p = fz(it, st, deepv(it, st, a[1]))
    if s.op == "seq" and s.a:
        last = s.a[-1]
        if last.op == "seq" and len(last.a) == 1:
            last = last.a[0]
        if last.op == "bump" and last.a[0] is T("seq", *s.a[:-1]) and last.a[1] is p:
            return ret(st, ok(T("pda", last.a[0], p)))
    return ret(st, app("create_program_address", s, p))


ATA_PROG = bytes_(b58dec("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL"))
MPL = bytes_(b58dec("metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s"))


@m("spl_associated_token_account_interface::address::get_associated_token_address_with_program_id")
def ata(it, st, c, a):
    w, mi, p = [fz(it, st, deepv(it, st, x)) for x in a]
    return ret(st, T("pda", T("seq", w, p, mi), ATA_PROG))


@m("spl_associated_token_account_interface::address::get_associated_token_address_and_bump_seed")
def ata2(it, st, c, a):
    w, mi, ap, p = [fz(it, st, deepv(it, st, x)) for x in a]
    s = T("seq", w, p, mi)
    return ret(st, T("tuple", T("pda", s, ap), T("bump", s, ap)))


@m("mpl_token_metadata::generated::accounts::metadata::Metadata::find_pda")
def mpl_pda(it, st, c, a):
    mi = fz(it, st, deepv(it, st, a[0]))
    s = T("seq", bytes_(b"metadata"), MPL, mi)
    return ret(st, T("tuple", T("pda", s, MPL), T("bump", s, MPL)))


def pack_len(it, st, c, a):
    t = (c.targs() or ("",))[0]
    L = {"spl_token_interface::state::Mint": 82, "spl_token_interface::state::Account": 165, "spl_token_2022_interface::state::Mint": 82,
         "spl_token_2022_interface::state::Account": 165}
    if t in L:
        return ret(st, I(L[t]))
    return None


MODELS["solana_program_pack::Pack::get_packed_len"] = pack_len


@m("spl_token_2022_interface::extension::account_len::try_for_each_required_init_account_extension")
def required_exts(it, st, c, a):
    sq = app("required_account_extensions", fz(it, st, a[0]))
    # the extensions one by one, or an error while walking the data
    ck = app("walk", sq)
    fcell = it.ref(st, a[1])

    def body(s1, e):
        o = []
        for s2, v in call_f(it, s1, c, fcell, [e]):
            for s3, k, x in res_cases(it, s2, v):
                o.append((s3, "cont", None) if k == "Ok" else (s3, "exit", err(x)))
        return o
    out = []
    for s, b in it.fork(st, T("isvar", ck, RES, "Ok")):
        if not b:
            # partial effects of the closure are discarded with the error
            out.append((s, err(mk_field(mk_as(ck, "Err"), "0"))))
            continue
        for s2, pl in foreach(it, s, c, T("it", "vals", sq, I(0)), body, "reqext"):
            out.append((s2, pl[0] if pl is not None else ok(UNIT)))
    return out


@m("solana_account_info::AccountInfo::<'a>::new")
def _none(it, st, c, a):
    return None


# bytemuck casts are views of the same bytes
@m("bytemuck::from_bytes_mut", "bytemuck::from_bytes", "bytemuck::cast_ref", "bytemuck::cast_mut", "spl_pod::bytemuck::pod_get_packed_len")
def bm(it, st, c, a):
    if c.path.endswith("packed_len"):
        return size_of(it, st, c, a)
    d = view(it, st, a[0])
    t = c.targs()
    if c.path.startswith("bytemuck::from_bytes"):
        size = size_of(it, st, c, a)[0][1]
        it.casts.append((size, fz(it, st, d), c.loc, st.copy()))
    return ret(st, T("pod", T("ty", t), fz(it, st, d)) if d.op != "ptr" else d)


@m("bytemuck::try_from_bytes_mut", "bytemuck::try_from_bytes", "spl_pod::bytemuck::pod_from_bytes", "spl_pod::bytemuck::pod_from_bytes_mut")
def bmt(it, st, c, a):
    d = fz(it, st, view(it, st, a[0]))
    t = T("ty", c.targs())
    r = T("pod", t, d)
    ck = app("podcast", t, d)
    size = size_of(it, st, c, a)[0][1]
    out = []
    if size.op == "int":
        # the records are byte-aligned: the cast fails exactly when the length is another
        for s, b in it.fork(st, mk_eq(mk_len(d), size)):
            out.append((s, ok(r) if b else err(mk_field(mk_as(ck, "Err"), "0"))))
        return out
    for s, b in it.fork(st, T("isvar", ck, RES, "Ok")):
        out.append((s, ok(r) if b else err(mk_field(mk_as(ck, "Err"), "0"))))
    return out


@m("bytemuck::bytes_of", "spl_pod::bytemuck::pod_bytes_of", "bytemuck::bytes_of_mut")
def bytes_of(it, st, c, a):
    t = (c.targs() or ("",))[0]
    v = deepv(it, st, a[0])
    if v.op == "adt" and len(v.a[3]) == 1:
        v = v.a[3][0]
    return ret(st, v)


@m("core::future::into_future::IntoFuture::into_future", "core::future::get_context")
def fut_ident(it, st, c, a):
    return ret(st, a[0])


@m("core::future::future::Future::poll")
def poll(it, st, c, a):
    """awaiting a future: repository coroutines are run to completion, anything else is a library
    operation whose (unknown) outcome is a term over its arguments; it counts as performed here"""
    f = a[0]
    n = 0
    while f.op == "ptr" and n < 10:
        f = it.load(st, f.a[0], f.a[1])
        n += 1

    def ready(s, v):
        return s, it.mkadt("core::task::poll::Poll", "Ready", ["0"], [v])
    if f.op == "coroutine":
        inst = it.p.insts.get(f.a[0])
        if inst is None or not inst.get("blocks"):
            raise Limit("coroutine without a body")
        return [ready(s, v) for s, v in it.exec_inst(st, f.a[0], [f, T("context")], c.loc)]
    f = it.freeze(st, f)
    res = T("await", f, I(it.fresh()))
    name = f.a[0] if f.op == "app" and isinstance(f.a[0], str) else "?"
    st.add(Event("await", {"name": name, "fut": f, "res": res}, c.loc, st.facts.copy()))
    if "Poll<core::result::Result<" in c.retty().replace("std::result", "core::result") and any(k in c.loc.fn for k in it.local):
        st.fb = st.fb + (Fallible(name, c.targs(), c.loc, res, None),)
    return [ready(st, res)]


import re as _re


def by_pattern(it, st, c, args, path, decl):
    if path.startswith("mpl_token_metadata::generated::instructions::") and path.endswith("::instruction"):
        return mpl_builder(it, st, c, args)
    if path.startswith(("core::panicking::", "core::option::expect_failed", "core::option::unwrap_failed", "core::result::unwrap_failed",
                        "core::slice::index::slice_index_fail", "std::panicking", "std::process::exit", "std::process::abort")):
        it.panics.append((path, it.origin(c.loc), st.facts.copy()))
        return []
    if decl.startswith("core::ops::function::Fn") and args:
        f = args[0]
        tup = args[1] if len(args) > 1 else UNIT
        # a trait call on a closure value: prefer the value we know
        g = f
        n = 0
        while g.op == "ptr" and n < 10:
            g = it.load(st, g.a[0], g.a[1])
            n += 1
        if g.op in ("closure", "fn"):
            if tup.op == "tuple":
                xs = list(tup.a)
            else:
                return None
            return it.call_value(st, f, xs, c)
        # function item types carry no value: the callee was resolved by the compiler
        iid = c.callee.get("inst")
        if iid is not None:
            inst = it.p.insts[iid]
            if inst.get("blocks") and it.follow(inst, c.callee):
                return it.exec_inst(st, iid, it.adapt(st, inst, args, c.callee), c.loc)
        return None
    return None
