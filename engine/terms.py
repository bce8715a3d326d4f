"""Hash-consed provenance terms: the abstract values of the analysis.

A term says where a value comes from (a parameter, an account field, the result of a
library call on such values, ...).  Equal terms are the same Python object.
"""

_tab = {}


class Term:
    __slots__ = ("op", "a", "n", "_fv")

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (T, (self.op,) + self.a)


def T(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        t.n = len(_tab)
        t._fv = None
        _tab[k] = t
    return t


UNIT = T("tuple")
TRUE = T("bool", True)
FALSE = T("bool", False)
UNINIT = T("uninit")


def I(n):
    return T("int", int(n))


def B(b):
    return TRUE if b else FALSE


def S(s):
    return T("str", s)


ADDRESSES = set()      # every constant address met so far


def bytes_(b):
    t = T("bytes", bytes(b))
    if len(t.a[0]) == 32:
        ADDRESSES.add(t)
    return t


def app(name, *args):
    return T("app", name, *args)


def adt(path, var, names, vals):
    return T("adt", path, var, tuple(names), tuple(vals))


OPT = "core::option::Option"
RES = "core::result::Result"


def some(x):
    return adt(OPT, "Some", ("0",), (x,))


NONE = adt(OPT, "None", (), ())


def ok(x):
    return adt(RES, "Ok", ("0",), (x,))


def err(x):
    return adt(RES, "Err", ("0",), (x,))


def seq(items):
    out = []
    for x in items:
        if x.op == "splat" and x.a[0].op == "seq":
            out.extend(x.a[0].a)
        else:
            out.append(x)
    return T("seq", *out)


def splat(s):
    return T("splat", s)


def is_const(t):
    return t.op in ("int", "bool", "str", "bytes") or (t.op == "adt" and all(is_const(x) for x in t.a[3])) or (
        t.op in ("tuple", "seq") and all(isinstance(x, Term) and is_const(x) for x in t.a))


def distinct(a, b):
    """True only if the two terms certainly denote different values."""
    if a is b:
        return False
    if a.op == b.op and a.op in ("int", "bool", "str", "bytes"):
        return True
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return True
        return any(distinct(x, y) for x, y in zip(a.a[3], b.a[3]))
    if a.op == b.op and a.op in ("tuple",):
        return any(distinct(x, y) for x, y in zip(a.a, b.a))
    if a.op == "seq" and b.op == "seq" and not any(x.op == "splat" for x in a.a + b.a):
        if len(a.a) != len(b.a):
            return True
        return any(distinct(x, y) for x, y in zip(a.a, b.a))
    for x, y in ((a, b), (b, a)):
        if x.op == "pda" and y.op not in ("pda", "int", "bool", "str", "bytes", "lv") and contains(x.a[0], y):
            return True     # a derived address is none of the addresses it is derived from
    return False


def subterms(t, seen=None):
    """All sub-terms (with itself), each once."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if id(x) in seen:
                continue
            seen.add(id(x))
            yield x
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)


def hasptr(t):
    """whether a pointer occurs in the term (cached)"""
    r = t._fv
    if r is None:
        r = t.op in ("ptr",)
        if not r:
            st = list(t.a)
            while st and not r:
                x = st.pop()
                if isinstance(x, Term):
                    r = hasptr(x)
                elif isinstance(x, tuple):
                    st.extend(x)
        t._fv = r
    return r


def contains(t, x):
    return any(s is x for s in subterms(t))


def mapterm(t, f, memo=None):
    """Bottom-up rewriting; f(new term) -> term."""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, Term):
            r = memo.get(x)
            if r is None:
                na = tuple(go(y) for y in x.a)
                r = x if na == x.a else rebuild(x.op, na)
                r = f(r)
                memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    return go(t)


def subst(t, m):
    if not m:
        return t
    return mapterm(t, lambda x: m.get(x, x))


def rebuild(op, a):
    if op == "seq":
        return seq(a)
    if op == "field":
        return mk_field(a[0], a[1])
    if op == "idx":
        return mk_idx(a[0], a[1])
    if op == "slice":
        return mk_slice(*a)
    if op == "len":
        return mk_len(a[0])
    if op == "eq":
        return mk_eq(a[0], a[1])
    if op == "lt":
        return mk_lt(a[0], a[1])
    if op == "not":
        return mk_not(a[0])
    if op == "add":
        return mk_add(a[0], a[1])
    if op == "sub":
        return mk_sub(a[0], a[1])
    if op == "as":
        return mk_as(a[0], a[1])
    return T(op, *a)


# ---- projections -----------------------------------------------------------------------

def mk_as(t, v):
    if t.op == "adt":
        return t
    return T("as", t, v)


def mk_field(t, name):
    if t.op == "adt":
        if name in t.a[2]:
            return t.a[3][t.a[2].index(name)]
        return T("bot")
    if t.op == "tuple":
        return t.a[int(name)] if name.isdigit() and int(name) < len(t.a) else T("bot")
    if t.op in ("closure", "coroutine"):
        return t.a[1][int(name)] if name.isdigit() and int(name) < len(t.a[1]) else T("field", t, name)
    if t.op == "with":
        if t.a[1] == ("f", name):
            return t.a[2]
        if t.a[1][0] == "f":
            return mk_field(t.a[0], name)
    if t.op in ("bytes",) and name == "0":
        return t
    if t.op == "as" and t.a[0].op == "app":
        x = t.a[0]
        if x.a[0] == "okval" and t.a[1] == "Ok" and name == "0":
            return x.a[1]
    return T("field", t, name)


def mk_len(t):
    if t.op == "seq":
        n = sum(1 for x in t.a if x.op != "splat")
        r = I(n)
        for x in t.a:
            if x.op == "splat":
                r = mk_add(mk_len(x.a[0]), r)
        return r
    if t.op == "bytes":
        return I(len(t.a[0]))
    if t.op == "str":
        return I(len(t.a[0].encode()))
    if t.op == "pda" or t.op == "field" and t.a[1] in ("key", "owner") and t.a[0].op == "idx":
        return I(32)
    if t.op == "slice":
        s, a, b = t.a
        end = mk_len(s) if b is None else b
        return mk_sub(end, a)
    if t.op in ("mapseq",):
        return mk_len(t.a[1])
    return T("len", t)


def mk_slice(s, a, b):
    """s[a..b]; a and b are terms (b None: to the end)."""
    if isinstance(a, int):
        a = I(a)
    if isinstance(b, int):
        b = I(b)
    if s.op == "slice":
        base, a0, b0 = s.a
        nb = b0 if b is None else mk_add(a0, b)
        return mk_slice(base, mk_add(a0, a), nb)
    if a.op == "int" and a.a[0] == 0 and b is None:
        return s
    if s.op == "bytes" and a.op == "int" and (b is None or b.op == "int"):
        return bytes_(s.a[0][a.a[0]: (None if b is None else b.a[0])])
    if s.op == "seq" and a.op == "int":
        n = a.a[0]
        lead = 0
        for x in s.a:
            if x.op == "splat":
                break
            lead += 1
        if n <= lead:
            if b is None:
                return T("seq", *s.a[n:])
            if b.op == "int" and b.a[0] <= lead:
                return T("seq", *s.a[n:b.a[0]])
            if b is mk_len(s):
                return T("seq", *s.a[n:])
    if b is not None and b is mk_len(s):
        b = None
        if a.op == "int" and a.a[0] == 0:
            return s
    return T("slice", s, a, b)


def mk_idx(s, i):
    if isinstance(i, int):
        i = I(i)
    if s.op == "slice":
        return mk_idx(s.a[0], mk_add(s.a[1], i))
    if s.op == "bytes" and i.op == "int":
        if i.a[0] < len(s.a[0]):
            return I(s.a[0][i.a[0]])
        return T("bot")
    if s.op == "seq" and i.op == "int":
        n = 0
        for x in s.a:
            if x.op == "splat":
                break
            if n == i.a[0]:
                return x
            n += 1
        else:
            return T("bot")
    if i.op == "elemix":
        q = i.a[0].a[1]
        if q is s or (q.op == "slice" and q.a[0] is s) or (s.op == "seq" and len(s.a) == 1 and s.a[0].op == "splat" and s.a[0].a[0] is q):
            return i.a[0]
    if i.op == "elem" and i.a[1].op == "range":
        lo, hi = i.a[1].a
        if lo.op == "int" and lo.a[0] == 0 and hi is mk_len(s):
            return T("elem", i.a[0], s)
    return T("idx", s, i)


# ---- arithmetic and comparisons --------------------------------------------------------

def mk_add(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.a[0] + b.a[0])
    if a.op == "int":
        a, b = b, a
    if b.op == "int":
        if b.a[0] == 0:
            return a
        if a.op == "add" and a.a[1].op == "int":
            return mk_add(a.a[0], I(a.a[1].a[0] + b.a[0]))
        if a.op == "sub" and a.a[1].op == "int":
            d = b.a[0] - a.a[1].a[0]
            return mk_add(a.a[0], I(d)) if d >= 0 else mk_sub(a.a[0], I(-d))
        return T("add", a, b)
    if a.n > b.n:
        a, b = b, a
    return T("add", a, b)


def mk_sub(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.a[0] - b.a[0])
    if a is b:
        return I(0)
    if b.op == "int":
        if b.a[0] == 0:
            return a
        if a.op == "sub" and a.a[1].op == "int":
            return mk_sub(a.a[0], I(a.a[1].a[0] + b.a[0]))
        if a.op == "add" and a.a[1].op == "int":
            d = a.a[1].a[0] - b.a[0]
            return mk_add(a.a[0], I(d)) if d >= 0 else mk_sub(a.a[0], I(-d))
    if a.op == "add":
        if a.a[0] is b:
            return a.a[1]
        if a.a[1] is b:
            return a.a[0]
    return T("sub", a, b)


def _linear(t):
    """t as base + constant"""
    if t.op == "add" and t.a[1].op == "int":
        return t.a[0], t.a[1].a[0]
    if t.op == "sub" and t.a[1].op == "int":
        return t.a[0], -t.a[1].a[0]
    return t, 0


def mk_not(t):
    if t.op == "bool":
        return B(not t.a[0])
    if t.op == "not":
        return t.a[0]
    return T("not", t)


def mk_eq(a, b):
    if a is b:
        return TRUE
    if distinct(a, b):
        return FALSE
    if a.op == "bool" and b.op != "bool":
        a, b = b, a
    if b.op == "bool":
        return a if b.a[0] else mk_not(a)
    for x, y in ((a, b), (b, a)):
        if y.op == "int" and x.op in ("add", "sub"):
            base, c = _linear(x)
            if base is not x:
                if y.a[0] - c < 0:
                    return FALSE
                return mk_eq(base, I(y.a[0] - c))
    for x, y in ((a, b), (b, a)):
        if x.op == "elemix" and x.a[0].op == "elem" and y is mk_len(x.a[0].a[1]):
            return FALSE
    # aggregates: component-wise when both are known shapes
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[3]) == 1:
        return mk_eq(a.a[3][0], b.a[3][0])
    for x, y in ((a, b), (b, a)):
        if y.op == "str" and y.a[0] == "":
            return T("eq", T("len", x), I(0))
        if x.op == "adt" and x.a[1] and not x.a[2]:
            # comparison of a symbolic enum with a field-less variant
            return T("isvar", y, x.a[0], x.a[1])
    if is_const(a) or (a.n > b.n and not is_const(b)):
        a, b = b, a
    return T("eq", a, b)


def mk_lt(a, b):
    if a.op == "int" and b.op == "int":
        return B(a.a[0] < b.a[0])
    if a is b:
        return FALSE
    if a.op == "elemix" and a.a[0].op == "elem" and b is mk_len(a.a[0].a[1]):
        return TRUE     # the position of an element
    if b.op == "elemix" and b.a[0].op == "elem" and a is mk_len(b.a[0].a[1]):
        return FALSE
    if b.op == "int" and b.a[0] == 0:
        return FALSE
    if a.op == "int" and a.a[0] == 0:
        return mk_not(mk_eq(b, a))
    if b.op == "int" and b.a[0] == 1:
        return mk_eq(a, I(0))
    if b.op == "int":
        x, c = _linear(a)
        if c and b.a[0] - c > 0:
            return mk_lt(x, I(b.a[0] - c))
    if a.op == "int":
        x, c = _linear(b)
        if c and a.a[0] - c >= 0:
            return mk_lt(I(a.a[0] - c), x)
    return T("lt", a, b)


# ---- printing --------------------------------------------------------------------------

B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58(b):
    n = int.from_bytes(b, "big")
    s = ""
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s


def b58dec(s):
    n = 0
    for c in s:
        n = n * 58 + B58.index(c)
    return n.to_bytes(32, "big")


NAMES = {}


def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 14:
        return "…"
    n = NAMES.get(t)
    if n:
        return n
    o, a = t.op, t.a
    if o in ("int", "bool"):
        return str(a[0]).lower()
    if o == "str":
        return repr(a[0])
    if o == "bytes":
        b = a[0]
        if len(b) == 32:
            return "key:" + b58(b)
        try:
            s = b.decode()
            if s.isprintable():
                return "b" + repr(s)
        except UnicodeDecodeError:
            pass
        return "0x" + b.hex()
    if o == "param":
        return str(a[0])
    if o == "adt":
        nm = a[0].split("::")[-1] + (("::" + a[1]) if a[1] else "")
        return nm + ("{" + ", ".join("%s: %s" % (k, show(v, d + 1)) for k, v in zip(a[2], a[3])) + "}" if a[2] else "")
    if o == "tuple":
        return "(" + ", ".join(show(x, d + 1) for x in a) + ")"
    if o == "seq":
        return "[" + ", ".join(show(x, d + 1) for x in a) + "]"
    if o == "splat":
        return "..." + show(a[0], d + 1)
    if o == "field":
        return show(a[0], d + 1) + "." + a[1]
    if o == "as":
        return show(a[0], d + 1) + "!" + a[1]
    if o == "idx":
        return show(a[0], d + 1) + "[" + show(a[1], d + 1) + "]"
    if o == "slice":
        return show(a[0], d + 1) + "[" + show(a[1], d + 1) + ".." + ("" if a[2] is None else show(a[2], d + 1)) + "]"
    if o == "app":
        if len(a) > 1 and isinstance(a[1], Term) and a[1].op == "ty" and isinstance(a[0], str):
            tn = ",".join(str(x).split("::")[-1].rstrip(">") for x in a[1].a[0][-1:]) if a[1].a and isinstance(a[1].a[0], tuple) else ""
            return a[0].split("::")[-1] + "<" + tn + ">(" + ", ".join(show(x, d + 1) for x in a[2:]) + ")"
        return short(a[0]) + "(" + ", ".join(show(x, d + 1) for x in a[1:]) + ")"
    if o in ("eq", "lt"):
        return "(" + show(a[0], d + 1) + (" == " if o == "eq" else " < ") + show(a[1], d + 1) + ")"
    if o in ("add", "sub"):
        return "(" + show(a[0], d + 1) + (" + " if o == "add" else " - ") + show(a[1], d + 1) + ")"
    if o == "not":
        return "!" + show(a[0], d + 1)
    return o + "(" + ", ".join(show(x, d + 1) for x in a) + ")"


def short(p):
    if "<" in p:
        return p.split("::")[-1]
    return "::".join(p.split("::")[-2:])
