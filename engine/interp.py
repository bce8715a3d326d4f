"""Abstract interpreter over the dumped MIR.

Abstract state: memory cells holding provenance terms, guard facts (constants, intervals,
excluded values, enum variants, equalities) and the list of externally visible effects.
Branches partition the trace; a branch is pruned only when a recorded guard fact decides it
syntactically (no solver).  Loops over unknown sequences are summarised by a fixpoint in
which everything the body modifies is havocked.
"""
import heapq, json, sys
from terms import *

sys.setrecursionlimit(20000)


class Limit(Exception):
    pass


class NeedSummary(Exception):
    def __init__(self, ctx):
        self.ctx = ctx


class Loc:
    __slots__ = ("fn", "line")

    def __init__(self, fn, line):
        self.fn = fn
        self.line = line

    def __repr__(self):
        return "%s (%s:%s)" % (self.fn, self.line[0], self.line[1]) if isinstance(self.line, (list, tuple)) else self.fn


class Event:
    """kind: cpi, write, call, loop, print"""
    __slots__ = ("kind", "d", "loc", "facts")

    def __init__(self, kind, d, loc, facts=None):
        self.kind = kind
        self.d = d
        self.loc = loc
        self.facts = facts

    def __repr__(self):
        return "<%s %s>" % (self.kind, {k: show(v) if isinstance(v, (Term, tuple)) else v for k, v in self.d.items()})


class Facts:
    __slots__ = ("eq", "ne", "rng", "bools")

    def __init__(self):
        self.eq = {}    # term -> constant term / variant name
        self.ne = {}    # term -> frozenset of excluded constants / variant names
        self.rng = {}   # term -> (lo, hi)
        self.bools = {} # boolean term -> bool

    def copy(self):
        f = Facts()
        f.eq = dict(self.eq)
        f.ne = dict(self.ne)
        f.rng = dict(self.rng)
        f.bools = dict(self.bools)
        return f

    # -- queries
    def const(self, t):
        if t.op in ("int", "bool", "str", "bytes"):
            return t
        return self.eq.get(t)

    def range(self, t):
        if t.op == "int":
            return (t.a[0], t.a[0])
        c = self.eq.get(t)
        if c is not None and isinstance(c, Term) and c.op == "int":
            return (c.a[0], c.a[0])
        lo, hi = self.rng.get(t, (0, None))
        if t.op in ("add", "sub"):
            lo0, hi0 = self.range(t.a[0])
            lo1, hi1 = self.range(t.a[1])
            if t.op == "add":
                lo = max(lo, lo0 + lo1)
                h = None if hi0 is None or hi1 is None else hi0 + hi1
            else:
                if hi1 is not None:
                    lo = max(lo, lo0 - hi1)
                h = None if hi0 is None else hi0 - lo1
            if h is not None:
                hi = h if hi is None else min(h, hi)
        if lo == 0 and I(0) in self.ne.get(t, ()):
            lo = 1
        return (lo, hi)

    def truth(self, t):
        """True / False / None for a boolean term"""
        o = t.op
        if o == "bool":
            return t.a[0]
        if o == "not":
            r = self.truth(t.a[0])
            return None if r is None else not r
        if t in self.bools:
            return self.bools[t]
        if o == "and":
            r = [self.truth(x) for x in t.a]
            if False in r:
                return False
            return True if all(x is True for x in r) else None
        if o == "or":
            r = [self.truth(x) for x in t.a]
            if True in r:
                return True
            return False if all(x is False for x in r) else None
        if o == "isvar":
            return self.variant_is(t.a[0], t.a[2])
        if o == "eq":
            a, b = t.a
            if is_const(a):
                a, b = b, a
            if is_const(b):
                c = self.const(a)
                if c is not None:
                    if c is b:
                        return True
                    if isinstance(c, Term) and distinct(c, b):
                        return False
                if b in self.ne.get(a, ()):
                    return False
                if b.op == "int":
                    lo, hi = self.range(a)
                    if b.a[0] < lo or (hi is not None and b.a[0] > hi):
                        return False
                    if lo == hi == b.a[0]:
                        return True
            else:
                ca, cb = self.const(a), self.const(b)
                if ca is not None and cb is not None and isinstance(ca, Term) and isinstance(cb, Term):
                    if ca is cb:
                        return True
                    if distinct(ca, cb):
                        return False
            return None
        if o == "lt":
            (lo0, hi0), (lo1, hi1) = self.range(t.a[0]), self.range(t.a[1])
            if hi0 is not None and hi0 < lo1:
                return True
            if hi1 is not None and lo0 >= hi1:
                return False
            rev = T("lt", t.a[1], t.a[0])
            if self.bools.get(rev) is True:
                return False
            if self.bools.get(T("eq", *t.a)) or self.bools.get(T("eq", t.a[1], t.a[0])):
                return False
        return None

    def variant_is(self, t, v):
        if t.op == "adt":
            return t.a[1] == v
        k = T("discr", t)
        c = self.eq.get(k)
        if c is not None:
            return c == v
        if v in self.ne.get(k, ()):
            return False
        return None

    # -- assumption (returns feasibility)
    def assume(self, t, val):
        o = t.op
        if o == "not":
            return self.assume(t.a[0], not val)
        cur = self.truth(t)
        if cur is not None:
            if cur == val and o == "lt":
                self.bools[t] = val
            return cur == val
        if o == "isvar":
            allv = ("None", "Some") if t.a[2] in ("None", "Some") else ("Ok", "Err") if t.a[2] in ("Ok", "Err") else None
            return self.assume_variant(t.a[0], t.a[2], val, allv)
        if o == "and" and val or o == "or" and not val:
            return all(self.assume(x, val) for x in t.a)
        if o == "eq":
            a, b = t.a
            if is_const(a):
                a, b = b, a
            if is_const(b):
                return self.assume_const(a, b, val)
        if o == "lt":
            a, b = t.a
            if b.op == "int" or a.op == "int":
                x, c = (a, b.a[0]) if b.op == "int" else (b, a.a[0])
                lo, hi = self.range(x)
                if b.op == "int":      # x < c
                    if val:
                        hi = c - 1 if hi is None else min(hi, c - 1)
                    else:
                        lo = max(lo, c)
                else:                  # c < x
                    if val:
                        lo = max(lo, c + 1)
                    else:
                        hi = c if hi is None else min(hi, c)
                if hi is not None and lo > hi:
                    return False
                self.rng[x] = (lo, hi)
                if not self.tighten(x):
                    return False
        self.bools[t] = val
        return True

    def tighten(self, x):
        """the bounds without the values excluded one by one"""
        lo, hi = self.range(x)
        ne = self.ne.get(x, ())
        while I(lo) in ne:
            lo += 1
        while hi is not None and hi >= lo and I(hi) in ne:
            hi -= 1
        if hi is not None and lo > hi:
            return False
        if hi is not None:
            self.rng[x] = (lo, hi)
            if lo == hi:
                self.eq[x] = I(lo)
        return True

    def address_byte(self, a, c, val):
        """an address compared byte by byte with a constant one"""
        x, i = a.a[0].a[0], a.a[1].a[0]
        other = [k for k in ADDRESSES if i < 32 and (k.a[0][i] == c.a[0]) is not val]
        if other:
            self.ne[x] = self.ne.get(x, frozenset()) | frozenset(other)
            if self.eq.get(x) in other:
                return False
        if val:
            bs = [self.eq.get(T("idx", a.a[0], I(j))) for j in range(32)]
            if all(isinstance(b, Term) and b.op == "int" for b in bs):
                return self.assume_const(x, bytes_(b.a[0] for b in bs), True)
        return True

    def assume_const(self, a, c, val):
        if a.op == "idx" and a.a[0].op == "field" and a.a[0].a[1] == "0" and a.a[1].op == "int" and isinstance(c, Term) and c.op == "int" and \
                self.const(a) is None:
            if not self.assume_const2(a, c, val):
                return False
            return self.address_byte(a, c, val)
        return self.assume_const2(a, c, val)

    def assume_const2(self, a, c, val):
        cur = self.const(a)
        if val:
            if cur is not None:
                return cur is c
            if c in self.ne.get(a, ()):
                return False
            if isinstance(c, Term) and c.op == "int":
                lo, hi = self.range(a)
                if c.a[0] < lo or (hi is not None and c.a[0] > hi):
                    return False
                if a.op == "add" and a.a[1].op == "int":
                    pass
            self.eq[a] = c
        else:
            if cur is not None:
                return cur is not c
            self.ne[a] = self.ne.get(a, frozenset()) | {c}
            if isinstance(c, Term) and c.op == "int" and a in self.rng:
                return self.tighten(a)
        return True

    def assume_variant(self, t, v, val=True, allv=None):
        cur = self.variant_is(t, v)
        if cur is not None:
            return cur == val
        k = T("discr", t)
        if val:
            self.eq[k] = v
        else:
            self.ne[k] = self.ne.get(k, frozenset()) | {v}
            if allv:
                left = [x for x in allv if x not in self.ne[k]]
                if not left:
                    return False
                if len(left) == 1:
                    self.eq[k] = left[0]
        return True

    def items(self):
        for k, v in self.eq.items():
            yield ("eq", k, v)
        for k, v in self.ne.items():
            yield ("ne", k, v)
        for k, v in self.bools.items():
            yield ("b", k, v)

    def delta(self, base):
        """Facts present here and not in base."""
        f = Facts()
        f.eq = {k: v for k, v in self.eq.items() if base.eq.get(k) is not v and base.eq.get(k) != v}
        f.ne = {k: v - base.ne.get(k, frozenset()) for k, v in self.ne.items() if v - base.ne.get(k, frozenset())}
        f.bools = {k: v for k, v in self.bools.items() if base.bools.get(k) != v}
        f.rng = {k: v for k, v in self.rng.items() if base.rng.get(k) != v}
        return f

    def show(self):
        out = []
        for k, v in self.eq.items():
            out.append("%s = %s" % (show(k), show(v)))
        for k, v in self.ne.items():
            out.append("%s != {%s}" % (show(k), ", ".join(sorted(show(x) for x in v))))
        for k, v in self.bools.items():
            if k not in self.eq:
                out.append("%s%s" % ("" if v else "!", show(k)))
        return out


class State:
    __slots__ = ("mem", "facts", "ev", "epoch", "exh", "fb")

    def __init__(self):
        self.fb = ()         # results of fallible library calls: Fallible, or (loop iterations' logs)
        self.mem = {}
        self.facts = Facts()
        self.ev = None       # linked list (parent, event)
        self.epoch = T("ep", 0)
        self.exh = frozenset()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.ev = self.ev
        s.epoch = self.epoch
        s.exh = self.exh
        s.fb = self.fb
        return s

    def resolve_fb(self):
        """outcomes settled by the facts known now"""
        out = []
        for x in self.fb:
            if x.status is None and x.term is not None:
                v = self.facts.eq.get(T("discr", x.term))
                if isinstance(v, str):
                    x = Fallible(x.name, x.targs, x.loc, x.term, v)
            out.append(x)
        return tuple(out)

    def add(self, e):
        self.ev = (self.ev, e)

    def events(self):
        out = []
        x = self.ev
        while x is not None:
            out.append(x[1])
            x = x[0]
        out.reverse()
        return out


class Fallible:
    """the outcome of one fallible library call made by repository code: status Ok, Err or None (decided by later facts)"""
    __slots__ = ("name", "targs", "loc", "term", "status")

    def __init__(self, name, targs, loc, term, status):
        self.name = name
        self.targs = targs
        self.loc = loc
        self.term = term
        self.status = status


class LoopCtx:
    __slots__ = ("lid", "mode", "base", "seqs", "skips")

    def __init__(self, lid, mode, base):
        self.lid = lid
        self.mode = mode
        self.base = base
        self.seqs = []
        self.skips = []    # states of iterations that skip their element


class LoopRec:
    """Summary of a loop over an unknown number of iterations."""
    __slots__ = ("lid", "seqs", "init", "outs", "aborts")

    def __init__(self, lid, seqs, init, outs, aborts):
        self.lid = lid
        self.seqs = seqs      # sequences iterated (terms)
        self.init = init      # loopvar term -> initial value
        self.outs = outs      # [(facts delta, events, {loopvar: new value})]: iterations that continue
        self.aborts = aborts  # [(facts delta, events)]: iterations that leave the loop early


class Frame:
    __slots__ = ("inst", "cells", "blocks", "active", "at")

    def __init__(self, inst):
        self.at = 0
        self.inst = inst
        self.cells = {}
        self.active = set()


def prune_loops(blocks):
    """natural loops: header -> set of blocks"""
    n = len(blocks)
    succ = [succs(b["t"]) for b in blocks]
    # dominators (iterative)
    order, seen = [], set()
    st = [(0, iter(succ[0]))]
    seen.add(0)
    while st:
        x, it = st[-1]
        for y in it:
            if y not in seen:
                seen.add(y)
                st.append((y, iter(succ[y])))
                break
        else:
            order.append(x)
            st.pop()
    order.reverse()
    rpo = {b: i for i, b in enumerate(order)}
    pred = {b: [] for b in order}
    for b in order:
        for y in succ[b]:
            pred[y].append(b)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = new, p
                        while x != y:
                            while rpo[x] > rpo[y]:
                                x = idom[x]
                            while rpo[y] > rpo[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    loops = {}
    for b in order:
        for y in succ[b]:
            if dominates(y, b):
                body = loops.setdefault(y, {y})
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w.extend(pred[x])
    return loops, rpo


def place_uses(pl, acc, whole_def=False):
    if not (whole_def and len(pl) == 1):
        acc.add(pl[0])
    for e in pl[1:]:
        if isinstance(e, (list, tuple)) and e[0] == "i":
            acc.add(e[1])


def operand_uses(o, acc):
    if o and o[0] in ("c", "m") and isinstance(o[1], list):
        place_uses(o[1], acc)


def any_uses(x, acc):
    """operands nested anywhere in an rvalue"""
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
            place_uses(x[1], acc)
        else:
            for y in x:
                any_uses(y, acc)


def liveness(blocks):
    """block -> locals live on entry (drops do not count as uses)"""
    n = len(blocks)
    use, dfn = [], []
    for b in blocks:
        u, d = set(), set()

        def flow(us, df):
            u.update(us - d)
            d.update(df)

        for s in b["s"]:
            if s[0] != "=":
                continue
            acc = set()
            rv = s[2]
            if rv[0] in ("ref",):
                place_uses(rv[2], acc)
            elif rv[0] == "discr":
                place_uses(rv[1], acc)
            else:
                any_uses(rv[1:], acc)
            place_uses(s[1], acc, True)
            flow(acc, {s[1][0]} if len(s[1]) == 1 else set())
        t = b["t"]
        acc, df = set(), set()
        if t[0] in ("switch", "assert"):
            operand_uses(t[1], acc)
        elif t[0] == "call":
            if "ptr" in t[1]:
                operand_uses(t[1]["ptr"], acc)
            for o in t[2]:
                operand_uses(o, acc)
            place_uses(t[3], acc, True)
            if len(t[3]) == 1:
                df.add(t[3][0])
        elif t[0] == "return":
            acc.add(0)
        flow(acc, df)
        use.append(u)
        dfn.append(d)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            o = set()
            for y in succs(blocks[i]["t"]):
                o |= live[y]
            ni = use[i] | (o - dfn[i])
            if ni != live[i]:
                live[i] = ni
                ch = True
    return live


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "drop":
        return [t[1]]
    if k == "switch":
        return list(dict.fromkeys([b for _, b in t[3]] + ([t[4]] if t[4] is not None else [])))
    if k == "assert":
        return [t[3]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    return []  # a yield suspends: awaiting is modelled as waiting for the future's completion


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = d["types"]
        self.insts = {i["id"]: i for i in d["insts"]}
        self.adts = {a["path"]: a for a in d["adts"]}
        self.variants = {}
        self.fields = {}
        for s, t in self.types:
            if t.get("k") == "enum":
                self.variants[t["path"]] = [(v[0], v[1]) for v in t["variants"]]
                self.fields[t["path"]] = {v[0]: f for v, f in zip(t["variants"], t.get("fields") or [])}
            elif t.get("k") in ("struct", "union"):
                self.fields[t["path"]] = {None: (t.get("fields") or [[]])[0]}
        for i in d["insts"]:
            i["_loops"] = None
            i["_name"] = i["path"]

    def find(self, path, targs=None):
        r = [i for i in self.insts.values() if i["path"] == path and i.get("blocks")]
        if targs is not None:
            r = [i for i in r if any(targs in self.types[t][0] for t in i["targs"])]
        return r

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i][0]


def cases(t, val):
    """the disjoint ways in which a condition takes a value, each a conjunction of decided conditions"""
    r = split_cases(t, val)
    return r if r is not None and len(r) <= 6 else [[(t, val)]]


def split_cases(t, val):
    if t.op == "not":
        return split_cases(t.a[0], not val)
    if t.op not in ("and", "or"):
        return [[(t, val)]]
    if (t.op == "and") == val:
        acc = [[]]
        for x in t.a:
            c = split_cases(x, val)
            if c is None or len(acc) * len(c) > 12:
                return None
            acc = [p + q for p in acc for q in c]
        return acc
    out, pre = [], [[]]
    for i, x in enumerate(t.a):
        c = split_cases(x, val)
        if c is None:
            return None
        out += [p + q for p in pre for q in c]
        if i + 1 < len(t.a):
            n = split_cases(x, not val)
            if n is None or len(pre) * len(n) > 12 or len(out) > 12:
                return None
            pre = [p + q for p in pre for q in n]
    return out


class Work:
    """pending states, the topologically first block first, last in first out within a block"""

    def __init__(self, rpo):
        self.rpo, self.heap, self.at, self.n = rpo, [], {}, 0

    def __len__(self):
        return self.n

    def append(self, x):
        k = self.rpo.get(x[0], 0)
        b = self.at.get(k)
        if b is None:
            b = self.at[k] = []
            heapq.heappush(self.heap, k)
        b.append(x)
        self.n += 1

    def pop(self):
        k = self.heap[0]
        b = self.at[k]
        x = b.pop()
        if not b:
            del self.at[k]
            heapq.heappop(self.heap)
        self.n -= 1
        return x

    def take(self, bb):
        """the states waiting at block bb for the first time, oldest first"""
        b = self.at.get(self.rpo.get(bb, 0))
        if not b:
            return []
        same = [x[1] for x in b if x[0] == bb and x[2] is False]
        if same:
            b[:] = [x for x in b if not (x[0] == bb and x[2] is False)]
            self.n -= len(same)
            if not b:
                k = self.rpo.get(bb, 0)
                del self.at[k]
                self.heap.remove(k)
                heapq.heapify(self.heap)
        return same


def sizes(t):
    """(how many in-memory lengths, constant part) of a sum, None if something else takes part"""
    if t.op == "int":
        return (0, t.a[0]) if t.a[0] >= 0 else None
    if t.op in ("len", "elemix"):
        return 1, 0
    if t.op == "add":
        a, b = sizes(t.a[0]), sizes(t.a[1])
        return None if a is None or b is None else (a[0] + b[0], a[1] + b[1])
    return None


class Interp:
    def __init__(self, prog, local, maxpaths=20000, maxsteps=3000000):
        import models
        self.p = prog
        self.local = local            # crates whose functions are always followed
        self.models = models.MODELS
        self.generic = models
        self.cellctr = 0
        self.uniq = 0
        self.lids = {}
        self.ctx = []
        self.stack = []
        self.steps = 0
        self.casts = []        # (types, bytes, where, state): unchecked in-place views, which end the run unless the size fits
        self.panics = []       # (what, where, facts): places where the run may end in a panic
        self.maxsteps = maxsteps
        self.maxpaths = maxpaths
        self.followed = set()
        self.opaque = set()
        self.unknown_effects = []
        self.loop_limit = 24
        self.overrides = {}
        self.frames = []
        self.linked = {}       # crate -> Program: functions of another repository crate, analysed from its own MIR
        self.merge_same = None    # predicate on fact terms: merge states that agree on everything live and differ in such facts only

    # ---- merging at joins ----
    def merge_group(self, fr, bb, group):
        """Merges states that differ only in whether something was appended to a sequence
        (`if cond { v.push(x) }`): the appended items become items guarded by the condition."""
        if fr.inst["_live"] is None:
            fr.inst["_live"] = liveness(fr.inst["blocks"])
        out = []
        if len(group) > 200:
            return group
        for s in group:
            for i, t in enumerate(out):
                m = self.merge_eq(fr, bb, t, s) if self.merge_same else self.merge2(fr, bb, t, s)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(s)
        return out

    def merge_eq(self, fr, bb, a, b):
        if a.ev is not b.ev or a.epoch is not b.epoch or a.exh != b.exh:
            return None
        roots = [fr.cells[l] for l in fr.inst["_live"][bb]]
        for f in self.frames:
            if f is not fr:
                roots.extend(f.cells.values())
        for c in roots:
            if a.mem.get(c, UNINIT) is not b.mem.get(c, UNINIT):
                return None
        for x, y in ((a, b), (b, a)):
            for k in x.facts.delta(y.facts).items():
                if not self.merge_same(k[1]):
                    return None
        keep = set(roots)
        self.reach(a, T("tuple", *[T("ptr", c, ()) for c in roots]), keep2 := set())
        keep |= keep2
        for c in keep:
            # everything reachable is equal, so the same cells are reachable in b
            if a.mem.get(c, UNINIT) is not b.mem.get(c, UNINIT):
                return None
        s = State()
        s.mem = {c: a.mem[c] for c in keep if c in a.mem}
        s.facts = self.common_facts(a.facts, b.facts)
        s.ev, s.epoch, s.exh = a.ev, a.epoch, a.exh
        fa = a.resolve_fb()
        have = set(map(id, fa))
        s.fb = fa + tuple(x for x in b.resolve_fb() if id(x) not in have)
        return s

    def merge2(self, fr, bb, a, b):
        if a.ev is not b.ev or a.epoch is not b.epoch or a.exh != b.exh:
            return None
        live = fr.inst["_live"][bb]
        for l in live:
            c = fr.cells[l]
            x, y = a.mem.get(c, UNINIT), b.mem.get(c, UNINIT)
            if x is not y and not self.growth(x, y):
                return None
        if not any(b.mem.get(c, UNINIT) is not x and self.growth(x, b.mem.get(c, UNINIT)) for c, x in a.mem.items()):
            return None
        roots = [fr.cells[l] for l in live]
        for f in self.frames:
            if f is not fr:
                roots.extend(f.cells.values())
        keep = set(roots)
        for s in (a, b):
            self.reach(s, T("tuple", *[T("ptr", c, ()) for c in roots]), keep2 := set())
            keep |= keep2
        up = {}
        fa = fb = None
        grew = 0
        for c in keep:
            x, y = a.mem.get(c, UNINIT), b.mem.get(c, UNINIT)
            if x is y:
                continue
            d = self.diff(x, y)
            v = x
            for p in d:
                m, n = self.walk(x, p), self.walk(y, p)
                r = None
                if m is not None and n is not None and m.op == "seq" and n.op == "seq":
                    if fa is None:
                        fa, fb = a.facts.delta(b.facts), b.facts.delta(a.facts)
                    r = self.merge_seq(m, n, fa, fb)
                if r is None:
                    return None
                grew += 1
                v = self.update(v, p, r)
            up[c] = v
        if not grew:
            return None
        s = State()
        s.mem = {c: up.get(c, a.mem.get(c, UNINIT)) for c in keep}
        s.facts = self.common_facts(a.facts, b.facts)
        s.ev, s.epoch, s.exh = a.ev, a.epoch, a.exh
        fa = a.resolve_fb()
        have = set(map(id, fa))
        s.fb = fa + tuple(x for x in b.resolve_fb() if id(x) not in have)
        return s

    def growth(self, x, y):
        if x is y:
            return True
        d = self.diff(x, y)
        for p in d:
            m, n = self.walk(x, p), self.walk(y, p)
            if m.op != "seq" or n.op != "seq":
                return False
            k = min(len(m.a), len(n.a))
            if m.a[:k] != n.a[:k]:
                return False
        return True

    def walk(self, v, path):
        for p in path:
            v = self.proj(v, p)
        return v

    def merge_seq(self, m, n, fa, fb):
        if len(m.a) < len(n.a):
            m, n, fa, fb = n, m, fb, fa
        k = len(n.a)
        if m.a[:k] != n.a:
            return None
        extra = m.a[k:]
        if len(extra) == 0:
            return m
        if all(x.op == "splat" and x.a[0].op == "opt" for x in extra):
            return m if all(self.refutes(fb, x.a[0].a[0]) for x in extra) else None
        g = self.fkey(fa)
        against = {k.a[0] if k.op in ("discr", "len") else k for k, v, pos in g if self.refutes(fb, ((k, v, pos),)) and not any(
            x.op == "as" and isinstance(fb.eq.get(T("discr", x.a[0])), str) and fb.eq[T("discr", x.a[0])] != x.a[1] for x in subterms(k))}
        if len(against) > 1:
            return None    # two independent conditions both fail: the cases in which one fails are others
        return T("seq", *n.a, T("splat", T("opt", g, T("seq", *extra)))) if self.refutes(fb, g) else None

    def refutes(self, f, guards):
        """do these facts contradict one of the guards?"""
        for k, v, pos in guards:
            if v.op == "bool" if isinstance(v, Term) else False:
                w = f.bools.get(k)
                if w is not None and (B(w) is v) is not pos:
                    return True
                continue
            w = f.eq.get(k)
            if w is not None and (w == v) is not pos and (pos is False or isinstance(w, str) or isinstance(w, Term) and w.op == "int"):
                return True
            if pos and v in f.ne.get(k, ()):
                return True
        for k, _, _ in guards:
            for x in subterms(k):
                if x.op == "as" and f.eq:
                    w = f.eq.get(T("discr", x.a[0]))
                    if isinstance(w, str) and w != x.a[1]:
                        return True   # the guard speaks about a variant that is not the one here
        return False

    def common_facts(self, f, g):
        h = Facts()
        h.eq = {k: v for k, v in f.eq.items() if g.eq.get(k) is v or g.eq.get(k) == v}
        for k, v in f.ne.items():
            w = v & g.ne.get(k, frozenset())
            if w:
                h.ne[k] = w
        h.bools = {k: v for k, v in f.bools.items() if g.bools.get(k) is v}
        for k, (lo, hi) in f.rng.items():
            if k in g.rng:
                l2, h2 = g.rng[k]
                h.rng[k] = (min(lo, l2), None if hi is None or h2 is None else max(hi, h2))
        return h

    # ---- cells ----
    def new_cell(self, st, v=UNINIT):
        self.cellctr += 1
        st.mem[self.cellctr] = v
        return self.cellctr

    def ref(self, st, v):
        """A fresh cell holding v; returns a pointer to it."""
        return T("ptr", self.new_cell(st, v), ())

    def fresh(self):
        self.uniq += 1
        return self.uniq

    # ---- projection of values ----
    def proj(self, v, step):
        k = step[0]
        if v.op == "ptr":
            # only reached through transparent wrappers
            return v
        if k == "f":
            return mk_field(v, step[1])
        if k == "v":
            if v.op == "adt":
                return v if v.a[1] == step[1] else T("bot")
            if v.op in ("closure", "coroutine"):
                return v
            return mk_as(v, step[1])
        if k == "i":
            return mk_idx(self.seqof(v), step[1])
        if k == "sub":
            return mk_slice(self.seqof(v), step[1], step[2])
        raise Limit("projection %r" % (step,))

    def seqof(self, v):
        return v

    def load(self, st, cell, path):
        v = st.mem.get(cell, UNINIT)
        for s in path:
            v = self.proj(v, s)
        return v

    def deref(self, st, v):
        """one level"""
        if v.op == "ptr":
            return self.load(st, v.a[0], v.a[1])
        return v

    def deep(self, st, v):
        """through all pointers at the top"""
        n = 0
        while v.op == "ptr":
            v = self.load(st, v.a[0], v.a[1])
            n += 1
            if n > 50:
                raise Limit("pointer cycle")
        return v

    def freeze(self, st, v, memo=None, d=0):
        """the value with every pointer replaced by what it points to"""
        if memo is None:
            memo = {}
        r = memo.get(v)
        if r is not None:
            return r
        if d > 60:
            raise Limit("freeze depth")
        if v.op == "ptr":
            r = self.freeze(st, self.load(st, v.a[0], v.a[1]), memo, d + 1)
        elif v.op in ("int", "bool", "str", "bytes", "param", "fn"):
            r = v
        else:
            ch = False
            na = []
            for x in v.a:
                if isinstance(x, Term):
                    y = self.freeze(st, x, memo, d + 1)
                elif isinstance(x, tuple):
                    y = self.freeze_t(st, x, memo, d + 1)
                else:
                    y = x
                ch = ch or y is not x
                na.append(y)
            r = rebuild(v.op, tuple(na)) if ch else v
        memo[v] = r
        return r

    def freeze_t(self, st, x, memo, d):
        na = []
        ch = False
        for e in x:
            if isinstance(e, Term):
                y = self.freeze(st, e, memo, d)
            elif isinstance(e, tuple):
                y = self.freeze_t(st, e, memo, d)
            else:
                y = e
            ch = ch or y is not e
            na.append(y)
        return tuple(na) if ch else x

    def update(self, v, path, new):
        if not path:
            return new
        s, rest = path[0], path[1:]
        k = s[0]
        if k == "v":
            if v.op == "uninit":
                return self.update(v, rest, new)
            return self.update(v, rest, new) if v.op == "adt" else T("withv", v, s, self.update(T("as", v, s[1]), rest, new))
        if v.op == "uninit" and k == "f" and s[1] == "value":
            return self.update(v, rest, new)
        if k == "f":
            if v.op == "adt" and s[1] in v.a[2]:
                i = v.a[2].index(s[1])
                vals = list(v.a[3])
                vals[i] = self.update(vals[i], rest, new)
                return adt(v.a[0], v.a[1], v.a[2], vals)
            if v.op == "tuple" and s[1].isdigit() and int(s[1]) < len(v.a):
                vals = list(v.a)
                vals[int(s[1])] = self.update(vals[int(s[1])], rest, new)
                return T("tuple", *vals)
            if v.op in ("closure", "coroutine") and s[1].isdigit():
                vals = list(v.a[1])
                vals[int(s[1])] = self.update(vals[int(s[1])], rest, new)
                return T(v.op, v.a[0], tuple(vals), *v.a[2:])
            if v.op == "with":
                # keep one entry per field
                if v.a[1] == s:
                    return T("with", v.a[0], s, self.update(v.a[2], rest, new))
                if v.a[1][0] == "f" and self.has_with(v.a[0], s):
                    return T("with", self.update(v.a[0], path, new), v.a[1], v.a[2])
            return T("with", v, s, self.update(mk_field(v, s[1]), rest, new))
        if k == "i":
            i = s[1]
            if v.op == "seq" and i.op == "int":
                vals = list(v.a)
                for j, x in enumerate(vals):
                    if x.op == "splat":
                        break
                    if j == i.a[0]:
                        vals[j] = self.update(x, rest, new)
                        return T("seq", *vals)
            if v.op == "bytes" and i.op == "int":
                vals = [I(x) for x in v.a[0]]
                if i.a[0] < len(vals):
                    vals[i.a[0]] = new
                    return T("seq", *vals)
            return T("upd", v, i, self.update(mk_idx(v, i), rest, new))
        if k == "sub":
            if v.op in ("seq", "bytes") and not rest:
                pass
            old = mk_slice(v, s[1], s[2])
            nv = self.update(old, rest, new)
            if v.op == "seq" and s[1].op == "int" and not any(x.op == "splat" for x in v.a):
                a = s[1].a[0]
                b = len(v.a) if s[2] is None else (s[2].a[0] if s[2].op == "int" else None)
                if b is not None and nv.op == "seq":
                    return seq(v.a[:a] + nv.a + v.a[b:])
                if b is not None:
                    return seq(v.a[:a] + (splat(nv),) + v.a[b:])
            return T("updsub", v, s[1], s[2], nv)
        raise Limit("update %r" % (s,))

    def has_with(self, v, s):
        while v.op == "with":
            if v.a[1] == s:
                return True
            v = v.a[0]
        return False

    def store(self, st, cell, path, v):
        if path:
            st.mem[cell] = self.update(st.mem.get(cell, UNINIT), path, v)
        else:
            st.mem[cell] = v

    def store_ptr(self, st, p, v, loc=None):
        """*p = v"""
        if p.op == "ptr":
            self.store(st, p.a[0], p.a[1], v)
        else:
            st.add(Event("write", {"lv": self.freeze(st, p), "val": self.freeze(st, v)}, loc, st.facts.copy()))

    # ---- places ----
    def place(self, st, fr, pl):
        """-> ('c', cell, path) | ('s', term)"""
        cell = fr.cells[pl[0]]
        cur = ("c", cell, ())
        for e in pl[1:]:
            if e == "*":
                v = self.load(st, cur[1], cur[2]) if cur[0] == "c" else cur[1]
                if v.op == "ptr":
                    cur = ("c", v.a[0], v.a[1])
                else:
                    cur = ("s", v)
                continue
            if e == "oc":
                continue
            step = self.step(st, fr, e, cur)
            if step is None:
                continue
            if cur[0] == "c":
                cur = ("c", cur[1], cur[2] + (step,))
            else:
                cur = ("s", self.proj(cur[1], step))
        return cur

    def step(self, st, fr, e, cur):
        k = e[0]
        if k == "f":
            return ("f", e[1])
        if k == "v":
            return ("v", e[1])
        if k == "i":
            v = self.deep(st, self.load(st, fr.cells[e[1]], ()))
            c = st.facts.const(v)
            return ("i", c if c is not None and isinstance(c, Term) else v)
        if k == "c":
            off, mn, fe = e[1], e[2], e[3]
            if not fe:
                return ("i", I(off))
            base = self.load(st, cur[1], cur[2]) if cur[0] == "c" else cur[1]
            return ("i", mk_sub(self.slen(st, base), I(off)))
        if k == "s":
            frm, to, fe = e[1], e[2], e[3]
            if not fe:
                return ("sub", I(frm), I(to))
            base = self.load(st, cur[1], cur[2]) if cur[0] == "c" else cur[1]
            return ("sub", I(frm), mk_sub(self.slen(st, base), I(to)) if to else None)
        raise Limit("place element %r" % (e,))

    def slen(self, st, v):
        """length of a sequence value or reference to one"""
        v = self.deep(st, v)
        return mk_len(v)

    def read(self, st, fr, pl):
        cur = self.place(st, fr, pl)
        return self.load(st, cur[1], cur[2]) if cur[0] == "c" else cur[1]

    def write(self, st, fr, pl, v, loc=None):
        if len(pl) == 1:
            st.mem[fr.cells[pl[0]]] = v
            return
        cur = self.place(st, fr, pl)
        if cur[0] == "c":
            self.store(st, cur[1], cur[2], v)
        else:
            st.add(Event("write", {"lv": self.freeze(st, cur[1]), "val": self.freeze(st, v)}, loc, st.facts.copy()))

    # ---- operands and constants ----
    def operand(self, st, fr, op):
        k = op[0]
        if k in ("c", "m"):
            return self.read(st, fr, op[1])
        if k == "k":
            return self.const(op[1]["v"], op[2], st, op[1].get("name"))
        if k == "rt":
            return FALSE
        raise Limit("operand %r" % (op,))

    def const(self, v, ty=None, st=None, name=None):
        if "i" in v:
            return I(v["i"])
        if "b" in v:
            return B(v["b"])
        if "s" in v:
            return S(v["s"])
        if "bytes" in v:
            return bytes_(v["bytes"])
        if "tuple" in v:
            return T("tuple", *[self.const(x) for x in v["tuple"]])
        if "arr" in v:
            xs = v["arr"]
            if xs and all("i" in x and 0 <= x["i"] <= 255 for x in xs) and (ty is None or "u8" in self.p.tys(ty)):
                return bytes_([x["i"] for x in xs])
            return seq([self.const(x) for x in xs])
        if "adt" in v:
            names = [n for n, _ in v["f"]]
            vals = [self.const(x) for _, x in v["f"]]
            return self.mkadt(v["adt"], v["var"], names, vals)
        if "fn" in v:
            return T("fn", self.callee_key(v["fn"]))
        if "closure" in v:
            return T("closure", v.get("inst"), ())
        if "ref" in v:
            return self.const(v["ref"])
        if "static" in v:
            return T("static", v["static"])
        return T("const", name or str(v.get("u")), self.p.tys(ty) if ty is not None else "")

    callees = None

    def callee_key(self, c):
        if self.callees is None:
            self.callees = []
            self.callee_idx = {}
        s = json.dumps(c, sort_keys=True)
        if s not in self.callee_idx:
            self.callee_idx[s] = len(self.callees)
            self.callees.append(c)
        return self.callee_idx[s]

    TRANSPARENT = {
        "solana_address::Address", "core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_dangling::MaybeDangling",
        "core::mem::maybe_uninit::MaybeUninit", "core::pin::Pin",
    }

    def mkadt(self, path, var, names, vals):
        if path in self.TRANSPARENT and len(vals) == 1:
            return vals[0]
        if path.startswith("solana_zero_copy::unaligned::") and len(vals) == 1:
            return vals[0]
        return adt(path, var, names, vals)

    # ---- rvalues ----
    def rvalue(self, st, fr, rv, loc):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            cur = self.place(st, fr, rv[2])
            if cur[0] == "c":
                # reborrow of a reference held in the place is resolved by the place walk
                return T("ptr", cur[1], cur[2])
            return cur[1]
        if k == "cast":
            return self.cast(st, fr, rv)
        if k == "bin":
            a = self.deep(st, self.operand(st, fr, rv[2]))
            b = self.deep(st, self.operand(st, fr, rv[3]))
            return self.binop(st, rv[1], self.freeze(st, a), self.freeze(st, b))
        if k == "un":
            op = rv[1]
            a = self.operand(st, fr, rv[2])
            if op == "PtrMetadata":
                return self.slen(st, a)
            a = self.deep(st, a)
            if op == "Not":
                if a.op == "int":
                    return T("app", "bitnot", a)
                return mk_not(a)
            if op == "Neg":
                return I(-a.a[0]) if a.op == "int" else T("neg", a)
            return T("un", op, a)
        if k == "discr":
            v = self.deep(st, self.read(st, fr, rv[1]))
            v = self.freeze(st, v) if v.op != "adt" else v
            return self.discr(v, rv[2])
        if k == "agg":
            kind = rv[1]
            vals = [self.operand(st, fr, o) for o in rv[2]]
            if kind[0] == "array":
                if vals and len(vals) == 1 and vals[0].op == "int" and False:
                    pass
                return T("seq", *vals)
            if kind[0] == "tuple":
                return T("tuple", *vals)
            if kind[0] == "adt":
                return self.mkadt(kind[1], kind[2], kind[3] or [], vals)
            if kind[0] == "closure":
                return T("closure", kind[2], tuple(vals))
            if kind[0] == "coroutine":
                return T("coroutine", kind[2], tuple(vals))
            if kind[0] == "rawptr":
                return vals[0]
            raise Limit("aggregate %r" % (kind,))
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if isinstance(n, int) and n <= 64:
                if v.op == "int" and 0 <= v.a[0] <= 255:
                    return bytes_([v.a[0]] * n)
                return T("seq", *([v] * n))
            return T("repeat", v, n)
        if k == "tls":
            return T("static", str(rv[1]))
        return T("app", "rvalue:" + str(k) + (":" + str(rv[1])[:60] if len(rv) > 1 else ""))

    def discr(self, v, ty):
        t = self.p.ty(ty)[1]
        if v.op == "adt" and v.a[1] is not None:
            for n, d in self.p.variants.get(v.a[0], ()):
                if n == v.a[1]:
                    return I(d)
        path = t.get("path")
        return T("discrv", v, path)

    INTW = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}

    def cast(self, st, fr, rv):
        kind, op, frm, to = rv[1], rv[2], rv[3], rv[4]
        v = self.operand(st, fr, op)
        if kind in ("IntToInt",):
            v = self.deep(st, v)
            a, b = self.p.tys(frm), self.p.tys(to)
            wa, wb = self.INTW.get(a, 32), self.INTW.get(b, 64)
            if v.op == "bool":
                return I(1 if v.a[0] else 0)
            if v.op == "int":
                n = v.a[0] & ((1 << wb) - 1)
                if b.startswith("i") and n >= 1 << (wb - 1):
                    n -= 1 << wb
                return I(n)
            if a == "bool":
                return T("cast", "bool", v)
            if a.startswith(("u", "isize", "char")) and wa <= wb:
                return v
            return T("cast", a + "->" + b, v)
        if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
            if len(rv) > 5 and rv[5] is not None and v.op != "closure" and v.op != "fn":
                return T("closure", rv[5], ())
            return v
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute", "BoxDerefTransmute"):
            return v
        if kind == "Transmute":
            return T("cast", "transmute", v)
        return v if kind in ("PointerExposeProvenance",) else T("cast", kind, v)

    def binop(self, st, op, a, b):
        if op.endswith("WithOverflow"):
            r = self.binop(st, op[:-12], a, b)
            o = FALSE if (a.op == "int" and b.op == "int" and r.op == "int" and 0 <= r.a[0] < 1 << 32) else T("overflow", op[:-12], a, b)
            if op.startswith("Sub"):
                o = mk_lt(a, b)
            if op.startswith("Add") and o is not FALSE:
                # the length of anything in memory is at most isize::MAX
                x, y = sizes(a), sizes(b)
                if x is not None and y is not None and x[0] + y[0] <= 1 and x[1] + y[1] < 1 << 32:
                    o = FALSE
            return T("tuple", r, o)
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op == "Add":
            return mk_add(a, b)
        if op == "Sub":
            return mk_sub(a, b)
        if op in ("Eq", "Ne"):
            a, b = self.undiscr(a), self.undiscr(b)
            if a.op == "discrv" and b.op == "int":
                r = self.isdiscr(a, b.a[0])
            elif b.op == "discrv" and a.op == "int":
                r = self.isdiscr(b, a.a[0])
            else:
                r = mk_eq(a, b)
            return r if op == "Eq" else mk_not(r)
        if op == "Lt":
            return mk_lt(a, b)
        if op == "Gt":
            return mk_lt(b, a)
        if op == "Le":
            return mk_not(mk_lt(b, a))
        if op == "Ge":
            return mk_not(mk_lt(a, b))
        if op in ("BitAnd", "BitOr", "BitXor") and a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            return I(x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y)
        if op in ("BitAnd", "BitOr") and (self.isbool(a) or self.isbool(b)):
            if a.op == "bool":
                return (b if a.a[0] else FALSE) if op == "BitAnd" else (TRUE if a.a[0] else b)
            if b.op == "bool":
                return (a if b.a[0] else FALSE) if op == "BitAnd" else (TRUE if b.a[0] else a)
            return T("and" if op == "BitAnd" else "or", a, b)
        if op == "Mul" and a.op == "int" and b.op == "int":
            return I(a.a[0] * b.a[0])
        if op == "Mul" and (a is I(1) or b is I(1)):
            return b if a is I(1) else a
        if op == "Div" and b is I(1):
            return a
        if op in ("Div", "Rem") and a.op == "int" and b.op == "int" and b.a[0]:
            return I(a.a[0] // b.a[0] if op == "Div" else a.a[0] % b.a[0])
        if op in ("Shl", "Shr") and a.op == "int" and b.op == "int":
            return I(a.a[0] << b.a[0] if op == "Shl" else a.a[0] >> b.a[0])
        return T("bin", op, a, b)

    def isbool(self, t):
        return t.op in ("bool", "eq", "lt", "not", "and", "or", "isvar")

    def undiscr(self, t):
        return t

    def isdiscr(self, d, n):
        """boolean: the enum of discriminant term d has discriminant n"""
        v, path = d.a
        for name, dv in self.p.variants.get(path, ()):
            if dv == n:
                if v.op == "adt":
                    return B(v.a[1] == name)
                return T("isvar", v, path, name)
        return T("eq", d, I(n))

    # ---- execution ----
    def exec_inst(self, st, iid, args, loc=None):
        """Runs a function body from st; returns [(state, value)] over the returning paths."""
        inst = self.p.insts[iid]
        if inst.get("nobody") or not inst.get("blocks"):
            raise Limit("no body: " + inst["path"])
        self.followed.add(inst["path"])
        if len(self.stack) > 60:
            raise Limit("call depth in " + inst["path"])
        if self.stack.count(iid) > 2:
            raise Limit("recursion in " + inst["path"])
        self.stack.append(iid)
        try:
            fr = Frame(inst)
            fr.blocks = inst["blocks"]
            for i in range(len(inst["locals"])):
                fr.cells[i] = self.new_cell(st)
            for i, a in enumerate(args):
                st.mem[fr.cells[i + 1]] = a
            if len(args) != inst["argc"]:
                raise Limit("arity of %s: %d for %d" % (inst["path"], len(args), inst["argc"]))
            if inst["_loops"] is None:
                inst["_loops"], inst["_rpo"] = prune_loops(inst["blocks"])
                inst["_live"] = None
            self.frames.append(fr)
            try:
                res = self.run(fr, 0, st, ())
            finally:
                self.frames.pop()
            out = []
            for kind, bb, s in res:
                v = s.mem.get(fr.cells[0], UNINIT)
                # locals die; keep only what the result points to
                keep = set()
                base = self.ctx[-1].base if self.ctx else 0
                self.reach(s, v, keep)
                for c in fr.cells.values():
                    if c not in keep and c > base:
                        s.mem.pop(c, None)
                out.append((s, v))
            if len(out) > 1:
                out = self.generic.join(self, inst, out)
            return out
        finally:
            self.stack.pop()

    def reach(self, s, v, keep):
        st = [v]
        seen = set()
        while st:
            x = st.pop()
            if isinstance(x, Term):
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "ptr":
                    if x.a[0] not in keep:
                        keep.add(x.a[0])
                        y = s.mem.get(x.a[0])
                        if y is not None:
                            st.append(y)
                elif hasptr(x):
                    st.extend(x.a)
            elif isinstance(x, tuple):
                st.extend(x)

    def run(self, fr, start, st, stops):
        """Explores from block `start`; returns [('ret', None, st) | ('bb', target, st)]."""
        out = []
        loops = fr.inst["_loops"]
        work = Work(fr.inst["_rpo"])
        work.append((start, st, True))
        while work:
            # topological order, so that the states meeting at a join are all there
            alone = len(work) == 1
            bb, s, first = work.pop()
            if not alone and first is False and bb not in stops:
                same = work.take(bb)
                if same:
                    merged = self.merge_group(fr, bb, [s] + same)
                    s = merged[0]
                    for x in merged[1:]:
                        work.append((bb, x, "merged"))
            if first is not True and bb in stops:
                out.append(("bb", bb, s))
                continue
            if bb in loops and bb not in fr.active:
                for r in self.run_loop(fr, bb, s):
                    if r[0] == "ret":
                        out.append(r)
                    else:
                        work.append((r[1], r[2], False))
                if len(out) + len(work) > self.maxpaths:
                    raise Limit("paths in " + fr.inst["path"])
                continue
            self.block(fr, bb, s, work, out)
            if len(out) + len(work) > self.maxpaths:
                raise Limit("paths in " + fr.inst["path"])
        return out

    def loc(self, fr, line):
        return Loc(fr.inst["path"], [fr.inst["span"][0] if fr.inst.get("span") else "", line])

    def block(self, fr, bb, st, work, out):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Limit("steps")
        b = fr.blocks[bb]
        for s in b["s"]:
            if s[0] == "=":
                v = self.rvalue(st, fr, s[2], None)
                self.write(st, fr, s[1], v, self.loc(fr, s[3] if len(s) > 3 else 0))
            elif s[0] == "setd":
                cur = self.place(st, fr, s[1])
                raise Limit("set discriminant in " + fr.inst["path"])
        t = b["t"]
        k = t[0]
        if k == "goto" or k == "drop":
            work.append((t[1], st, False))
        elif k == "return":
            out.append(("ret", None, st))
        elif k == "switch":
            self.switch(fr, t, st, work)
        elif k == "assert":
            c = self.deep(st, self.operand(st, fr, t[1]))
            self.may_panic(st, c, bool(t[2]), "assertion", self.loc(fr, t[4] if len(t) > 4 and isinstance(t[4], int) else 0))
            if st.facts.assume(c, bool(t[2])):
                work.append((t[3], st, False))
        elif k == "call":
            self.call_term(fr, t, st, work)
        elif k in ("unreachable", "cleanup", "stop"):
            pass
        elif k == "yield":
            pass  # never reached: a poll answers when the future has completed
        else:
            raise Limit("terminator " + k)

    def switch(self, fr, t, st, work):
        v = self.deep(st, self.operand(st, fr, t[1]))
        self.branch(st, v, t[3], t[4], lambda bb, s: work.append((bb, s, False)), t[2])

    def branch(self, st, v, targets, otherwise, emit, ty):
        if v.op not in ("int", "bool", "discrv"):
            v = self.freeze(st, v)
        if v.op == "cast" and v.a[0] == "bool":
            v = v.a[1]
        if v.op == "bool":
            v = I(1 if v.a[0] else 0)
        if v.op == "int":
            for val, bb in targets:
                if val == v.a[0] or (val & 0xffffffffffffffff) == (v.a[0] & 0xffffffffffffffff) and v.a[0] < 0:
                    emit(bb, st)
                    return
            if otherwise is not None:
                emit(otherwise, st)
            return
        todo = []
        if v.op == "discrv":
            e, path = v.a
            names = {d: n for n, d in self.p.variants.get(path, ())}
            allv = [n for n, d in self.p.variants.get(path, ())]
            rest = list(allv)
            for val, bb in targets:
                n = names.get(val)
                if n is None:
                    continue
                rest.remove(n)
                todo.append((bb, [(T("isvar", e, path, n), True)]))
            if otherwise is not None and rest:
                if len(rest) == 1:
                    todo.append((otherwise, [(T("isvar", e, path, rest[0]), True)]))
                else:
                    todo.append((otherwise, [(T("isvar", e, path, n), False) for n in allv if n not in rest]))
        elif ty == "bool" or self.isbool(v):
            for val, bb in targets:
                todo += [(bb, x) for x in cases(v, bool(val))]
            if otherwise is not None:
                vals = [val for val, _ in targets]
                todo += [(otherwise, x) for x in (cases(v, not bool(vals[0])) if len(vals) == 1 else [[]])]
        else:
            for val, bb in targets:
                todo.append((bb, [(mk_eq(v, I(val)), True)]))
            if otherwise is not None:
                todo.append((otherwise, [(mk_eq(v, I(val)), False) for val, _ in targets]))
        feas = []
        for bb, conds in todo:
            f = st.facts.copy()
            if all(f.assume(c, x) for c, x in conds):
                feas.append((bb, f))
        for i, (bb, f) in enumerate(feas):
            s = st if i == len(feas) - 1 else st.copy()
            s.facts = f
            emit(bb, s)

    # a check whose failure ends the run: the failing side is recorded when the facts allow it
    def origin(self, loc):
        """the innermost place in the repository's own code that leads here"""
        if any(k in loc.fn for k in self.local):
            return loc
        for fr in reversed(self.frames):
            if fr.inst["crate"] in self.local and fr.at:
                return fr.at
        return loc

    def may_panic(self, st, cond, want, what, loc):
        if st.facts.truth(cond) is want:
            return
        f = st.facts.copy()
        if f.assume(cond, not want):
            self.panics.append((what, self.origin(loc), f))

    # fork on a boolean; returns [(state, bool)]
    def fork(self, st, cond):
        r = st.facts.truth(cond)
        if r is not None:
            return [(st, r)]
        out = []
        todo = [(c, b) for b in (True, False) for c in cases(cond, b)]
        for i, (conj, b) in enumerate(todo):
            s = st.copy() if i + 1 < len(todo) else st
            if all(s.facts.assume(t, v) for t, v in conj):
                out.append((s, b))
        return out

    # ---- loops ----
    def lid(self, key):
        k = (tuple(self.stack), key)
        if k not in self.lids:
            self.lids[k] = len(self.lids)
        return self.lids[k]

    def run_loop(self, fr, H, st):
        L = fr.inst["_loops"][H]
        exits = set()
        for b in L:
            for y in succs(fr.blocks[b]["t"]):
                if y not in L:
                    exits.add(y)
        stops = exits | {H}
        lid = self.lid(H)
        fr.active.add(H)
        try:
            # attempt to unroll: works when the iteration is over a sequence of known length
            ctx = LoopCtx(lid, "trial", self.cellctr)
            self.ctx.append(ctx)
            try:
                cur = [st.copy()]
                res = []
                for it in range(self.loop_limit):
                    nxt = []
                    for s in cur:
                        for r in self.run(fr, H, s, stops):
                            if r[0] == "bb" and r[1] == H:
                                nxt.append(r[2])
                            else:
                                res.append(r)
                    cur = nxt
                    if not cur:
                        return res
                    if len(cur) > 600:
                        break
            except NeedSummary as e:
                if e.ctx is not ctx:
                    raise
            finally:
                self.ctx.pop()

            def body(s0):
                o = []
                for r in self.run(fr, H, s0, stops):
                    if r[0] == "bb" and r[1] == H:
                        o.append(("cont", None, r[2]))
                    elif r[0] == "bb":
                        o.append(("exit", ("bb", r[1]), r[2]))
                    else:
                        o.append(("exit", ("ret", None), r[2]))
                return o

            return [(x[0], x[1], s) for x, s in self.summarise(st, lid, body, self.loc(fr, 0), self.dead_at(fr, H, st))]
        finally:
            fr.active.discard(H)

    def diff(self, a, b, path=()):
        """paths at which two values differ"""
        if a is b:
            return []
        if a.op == "it" and b.op == "it" and b.a[0] == "after":
            return self.diff(a, b.a[2], path)
        if a.op == b.op == "it" and a.a[0] in ("map", "filter", "filter_map", "cloned") and len(a.a) == len(b.a) and all(
                x is y or isinstance(x, Term) and isinstance(y, Term) and not self.diff(x, y, path) for x, y in zip(a.a, b.a)):
            return []   # an adapter around an advanced iterator
        if a.op == b.op:
            if a.op == "adt" and a.a[:3] == b.a[:3]:
                return [p for n, x, y in zip(a.a[2], a.a[3], b.a[3]) for p in self.diff(x, y, path + (("f", n),))]
            if a.op == "tuple" and len(a.a) == len(b.a):
                return [p for i, (x, y) in enumerate(zip(a.a, b.a)) for p in self.diff(x, y, path + (("f", str(i)),))]
            if a.op == "closure" and a.a[0] == b.a[0]:
                return [p for i, (x, y) in enumerate(zip(a.a[1], b.a[1])) for p in self.diff(x, y, path + (("f", str(i)),))]
        return [path]

    def dead_at(self, fr, bb, st):
        """cells of this frame that no later code can read"""
        if fr.inst["_live"] is None:
            fr.inst["_live"] = liveness(fr.inst["blocks"])
        live = fr.inst["_live"][bb]
        dead = {fr.cells[l] for l in range(len(fr.inst["locals"])) if l not in live}
        keep2 = set()
        roots = [c for c in st.mem if c not in dead]
        for c in roots:
            v = st.mem[c]
            if hasptr(v):
                self.reach(st, v, keep2)
        return dead - keep2

    def summarise(self, st, lid, body, loc, dead=()):
        """body(state) -> [('cont'|'exit', payload, state)].  Returns [(payload, state)] of the exits."""
        base = self.cellctr
        pre = dict(st.mem)
        havoc = []        # (cell, path)
        epoch_h = False
        for rnd in range(12):
            s0 = st.copy()
            for c in dead:
                s0.mem[c] = UNINIT
            lvs = {}
            for i, (c, p) in enumerate(havoc):
                lv = T("lv", lid, i)
                lvs[lv] = self.load(st, c, p)
                self.store(s0, c, p, lv)
            if epoch_h:
                s0.epoch = T("ep", "loop", lid)
            s0.ev = None
            s0.fb = ()
            s0.exh = st.exh - {lid}
            start_mem = dict(s0.mem)
            start_epoch = s0.epoch
            start_facts = s0.facts.copy()
            ctx = LoopCtx(lid, "sum", base)
            self.ctx.append(ctx)
            try:
                res = body(s0)
            finally:
                self.ctx.pop()
            res = list(res) + [("cont", None, s) for s in ctx.skips]
            new = []
            for kind, pl, s in res:
                if kind != "cont":
                    continue
                for c, v in start_mem.items():
                    w = s.mem.get(c, UNINIT)
                    if w is v or c > base or c in dead:
                        continue
                    for p in self.diff(v, w):
                        if not any(c == c2 and p[:len(p2)] == p2 for c2, p2 in havoc + new):
                            new = [x for x in new if not (x[0] == c and x[1][:len(p)] == p)] + [(c, p)]
                if s.epoch is not start_epoch and not epoch_h:
                    epoch_h = True
                    new.append(None)
            if not new:
                break
            for x in new:
                if x is not None:
                    havoc = [y for y in havoc if not (y[0] == x[0] and y[1][:len(x[1])] == x[1])] + [x]
        else:
            raise Limit("loop summary does not stabilise")
        for n, q in enumerate(ctx.seqs):
            # positions 0..len of a sequence, used to visit it: that sequence is visited
            if q.op == "range" and q.a[0] is I(0):
                els = {x.a[1] for t in self.mentioned([s for k_, p_, s in res if k_ == "cont"]) for x in subterms(t)
                       if x.op == "elem" and x.a[0] == lid and x.a[1].op != "range" and mk_len(x.a[1]) is q.a[1]}
                if len(els) == 1:
                    ctx.seqs[n] = els.pop()
        got = self.by_counter(st, lid, body, base, dead, havoc, lvs, epoch_h, res)
        if got is not None:
            res, ctx, counter, start_facts = got
        else:
            counter = None
        outs, aborts = [], []
        loopfb = ()
        for kind, pl, s in res:
            d = s.facts.delta(start_facts)
            evs = s.events()
            if kind == "cont":
                ups = {}
                for i, (c, p) in enumerate(havoc):
                    if i == counter:
                        continue
                    lv = T("lv", lid, i)
                    w = self.load(s, c, p)
                    if w.op == "it" and w.a[0] == "after":
                        w = w.a[2]
                    if w is not lv:
                        ups[lv] = self.freeze(s, w)
                outs.append((d, evs, ups))
                loopfb += s.resolve_fb()
        # closed forms of the havocked values once the sequence is exhausted
        folds = {}
        init = {}
        for i, (c, p) in enumerate(havoc):
            lv = T("lv", lid, i)
            if i != counter:
                init[lv] = self.freeze(st, lvs[lv])
        seqs = ctx.seqs
        for lv in init:
            folds[lv] = self.fold(lid, lv, init, outs, seqs)
        final = []
        for kind, pl, s in res:
            if kind == "cont":
                continue
            d = s.facts.delta(start_facts)
            evs = s.events()
            exhausted = lid in s.exh
            if not exhausted:
                aborts.append((d, evs, pl))
        rec = LoopRec(lid, seqs, init, outs, aborts)
        every = self.every(lid, seqs, outs, init) if aborts else None
        for kind, pl, s in res:
            if kind == "cont":
                continue
            evs = s.events()
            exhausted = lid in s.exh
            ev = st.ev
            if outs or aborts:
                if any(o[1] for o in outs) or any(o[1] for o in aborts):
                    ev = (ev, Event("loop", {"rec": rec}, loc))
            for e in evs:
                ev = (ev, e)
            s.ev = ev
            s.fb = st.fb + loopfb + s.fb
            if exhausted:
                memo = {}
                f = lambda x: folds.get(x, x)
                for c, v in list(s.mem.items()):
                    if c <= base or True:
                        w = mapterm(v, f, memo)
                        if w is not v:
                            s.mem[c] = w
                s.facts = self.map_facts(s.facts, f, memo)
                s.exh = s.exh - {lid}
                if every is not None:
                    s.facts.assume(every, True)
            final.append((pl, s))
        return final

    def mentioned(self, states):
        """the terms that states have established or done something with"""
        out, seen = [], set()

        def add(x):
            if isinstance(x, Term):
                if x not in seen:
                    seen.add(x)
                    out.append(x)
            elif isinstance(x, LoopRec):
                for q in x.seqs:
                    add(q)
                for o in x.outs + x.aborts:
                    for e in o[1]:
                        add(e.d)
            elif isinstance(x, dict):
                for y in x.values():
                    add(y)
            elif isinstance(x, (tuple, list)):
                for y in x:
                    add(y)

        for s in states:
            add(list(s.facts.bools) + list(s.facts.eq) + list(s.facts.ne))
            for e in s.events():
                add(e.d)
        return out

    def by_counter(self, st, lid, body, base, dead, havoc, lvs, epoch_h, res):
        """A loop that counts 0, 1, .. up to the length of a sequence it leaves alone visits that sequence: the counter is then the
        position of the current element, and the sequence's length afterwards.  Returns (outcomes, context, counter, facts) or None."""
        conts = [s for kind, pl, s in res if kind == "cont"]
        if not conts:
            return None
        mine = {T("lv", lid, i) for i in range(len(havoc))}
        for i, (c, p) in enumerate(havoc):
            lv = T("lv", lid, i)
            if self.freeze(st, lvs[lv]) is not I(0) or any(self.freeze(s, self.load(s, c, p)) is not mk_add(lv, I(1)) for s in conts):
                continue
            ends = None
            for s in conts:
                here = [t.a[1] for t, v in s.facts.bools.items() if v is True and t.op == "lt" and t.a[0] is lv]
                here += [t.a[1] if t.a[0] is lv else t.a[0] for t, v in s.facts.bools.items() if v is False and t.op == "eq" and lv in t.a]
                ends = here if ends is None else [x for x in ends if x in here]
            ends = [x for x in ends or () if not any(y in mine for y in subterms(x))]
            cands = {x.a[0] for x in ends if x.op == "len"}
            for t in self.mentioned(conts):
                for x in subterms(t):
                    if x.op == "idx" and x.a[1] is lv and mk_len(x.a[0]) in ends and not any(y in mine for y in subterms(x.a[0])):
                        cands.add(x.a[0])
            cands = list(cands)
            if len(cands) != 1:
                continue
            X = cands[0]
            out = []
            for last in (False, True):
                s0 = st.copy()
                for d in dead:
                    s0.mem[d] = UNINIT
                for j, (c2, p2) in enumerate(havoc):
                    v = T("lv", lid, j) if j != i else mk_len(X) if last else T("elemix", T("elem", lid, X))
                    self.store(s0, c2, p2, v)
                if epoch_h:
                    s0.epoch = T("ep", "loop", lid)
                s0.ev = None
                s0.fb = ()
                s0.exh = (st.exh | {lid}) if last else (st.exh - {lid})
                start = dict(s0.mem)
                facts = s0.facts.copy()
                ctx = LoopCtx(lid, "sum", base)
                self.ctx.append(ctx)
                try:
                    rs = body(s0)
                finally:
                    self.ctx.pop()
                if ctx.skips or ctx.seqs:
                    return None
                for kind, pl, s in rs:
                    if kind == "cont":
                        if last:
                            return None
                        for d, v in start.items():
                            w = s.mem.get(d, UNINIT)
                            if w is v or d > base or d in dead:
                                continue
                            for q in self.diff(v, w):
                                if not any(d == c2 and q[:len(p2)] == p2 for c2, p2 in havoc):
                                    return None
                out += rs
            ctx.seqs.append(X)
            return out, ctx, i, facts
        return None

    def every(self, lid, seqs, outs, lvs):
        """what holds of each element when a loop that can be left early was not"""
        if len(seqs) != 1:
            return None
        el = T("elem", lid, seqs[0])
        keep = None
        for d, _, _ in outs:
            f = self.formula(d)
            if f is None or any(contains(f, lv) for lv in lvs):
                return None
            keep = f if keep is None else T("or", keep, f)
        if keep is None or not contains(keep, el):
            return None
        return T("forall", seqs[0], el, keep)

    def map_facts(self, facts, f, memo):
        g = Facts()
        g.eq = {mapterm(k, f, memo): (mapterm(v, f, memo) if isinstance(v, Term) else v) for k, v in facts.eq.items()}
        g.ne = {mapterm(k, f, memo): v for k, v in facts.ne.items()}
        g.rng = {mapterm(k, f, memo): v for k, v in facts.rng.items()}
        g.bools = {mapterm(k, f, memo): v for k, v in facts.bools.items()}
        return g

    def formula(self, d, skip=()):
        """a conjunction of facts as a boolean term (None if it cannot be one)"""
        if d.rng or any(isinstance(x, str) for x in d.eq.values()) or any(isinstance(x, str) for xs in d.ne.values() for x in xs):
            return None
        cs = [mk_eq(k, x) for k, x in d.eq.items() if k not in skip] + [mk_not(mk_eq(k, x)) for k, xs in d.ne.items() for x in xs if k not in skip]
        cs += [k if x else mk_not(k) for k, x in d.bools.items() if k not in skip]
        v = TRUE
        for c in cs:
            v = c if v is TRUE else T("and", v, c)
        return v

    def latch(self, lid, lv, ini, outs, ups, seqs):
        """a flag that a loop can only clear (or only set): its initial value and a statement about every element"""
        if len(seqs) != 1 or any(u is not lv and u.op != "bool" for u in ups):
            return None
        vals = {u.a[0] for u in ups if u is not lv}
        if len(vals) != 1:
            return None
        val = vals.pop()
        keep = None
        for o, u in zip(outs, ups):
            was = o[0].bools.get(lv)
            if was is val:
                continue          # already latched
            if u is not lv:
                continue
            f = self.formula(o[0], (lv,))
            if f is None or contains(f, lv):
                return None
            keep = f if keep is None else T("or", keep, f)
        if keep is None:
            return None
        for o, u in zip(outs, ups):
            if u is not lv and contains(self.formula(o[0], (lv,)) or TRUE, lv):
                return None
        a = T("forall", seqs[0], T("elem", lid, seqs[0]), keep)
        start = ini if val is False else mk_not(ini)
        if start is FALSE:
            return ini
        v = a if start is TRUE else T("and", start, a)
        return v if val is False else mk_not(v)

    def fold(self, lid, lv, init, outs, seqs):
        """value of a loop variable after all iterations"""
        ini = init[lv]
        ups = [o[2].get(lv, lv) for o in outs]
        s = seqs[0] if seqs else T("seq?", lid)
        elem = T("elem", lid, s)
        if all(u is lv for u in ups):
            return ini
        q = self.latch(lid, lv, ini, outs, ups, seqs)
        if q is not None:
            return q
        if all(u is ups[0] for u in ups) and seqs:
            u = ups[0]
            # one value pushed per iteration
            if u.op == "push" and u.a[0] is lv and not contains(u.a[1], lv):
                item = T("splat", s) if u.a[1] is elem else T("splat", T("mapseq", lid, s, u.a[1]))
                return seq((ini.a if ini.op == "seq" else (splat(ini),)) + (item,))
            # every element rewritten in place
            me = T("elem", lid, lv)
            if u.op == "upd" and u.a[0] is lv and s is lv and u.a[1] is T("elemix", me):
                w = subst(u.a[2], {me: T("elem", lid, ini)})
                if not contains(w, lv):
                    return seq((T("splat", T("mapseq", lid, ini, w)),))
            if u.op == "extend" and u.a[0] is lv and not contains(u.a[1], lv):
                return seq((ini.a if ini.op == "seq" else (splat(ini),)) + (T("splat", T("flatmap", lid, s, u.a[1])),))
            if not contains(u, lv) and not any(x.op == "elem" and x.a[0] == lid for x in subterms(u)):
                return T("lastof", lid, s, ini, u)
        cases = tuple((self.fkey(o[0]), o[2].get(lv, lv)) for o in outs)
        return T("fold", lid, lv, ini, tuple(seqs), cases)

    def fkey(self, f):
        """facts as a hashable guard"""
        out = []
        for k, v in sorted(f.eq.items(), key=lambda x: x[0].n):
            out.append((k, v, True))
        for k, v in sorted(f.ne.items(), key=lambda x: x[0].n):
            for c in sorted(v, key=lambda x: x.n if isinstance(x, Term) else hash(x)):
                out.append((k, c, False))
        for k, v in sorted(f.bools.items(), key=lambda x: x[0].n):
            out.append((k, B(v), True))
        return tuple(out)

    # ---- calls ----
    def call_term(self, fr, t, st, work):
        callee, ops, dest, target, line, atys, dty = t[1], t[2], t[3], t[4], t[5], t[6], t[7]
        args = [self.operand(st, fr, o) for o in ops]
        if "ptr" in callee:
            f = self.operand(st, fr, callee["ptr"])
            res = self.call_value(st, f, args, Call(self, {"path": "ptr"}, atys, dty, Loc(fr.inst["path"], line)))
        else:
            res = self.call(st, callee, args, atys, dty, Loc(fr.inst["path"], line))
        if target is None:
            return
        for s, v in res:
            self.write(s, fr, dest, v, Loc(fr.inst["path"], line))
            work.append((target, s, False))

    def call(self, st, callee, args, atys, dty, loc):
        c = Call(self, callee, atys, dty, loc)
        if self.frames:
            self.frames[-1].at = loc
        path = callee.get("path") or ""
        decl = callee.get("decl") or ""
        if callee.get("ctor"):
            ap, var, n = callee["ctor"]
            names = self.p.fields.get(ap, {}).get(var) or [str(i) for i in range(n)]
            return [(st, self.mkadt(ap, var, names, args))]
        if self.fallible(callee, path, decl, c, loc):
            r = self.call2(st, callee, path, decl, c, args, loc)
            name = path or decl
            for s, v in r:
                w = self.freeze(s, v) if v.op != "adt" else v
                status = v.a[1] if v.op == "adt" else None
                s.fb = s.fb + (Fallible(name, c.targs(), loc, w if status is None else None, status),)
            return r
        return self.call2(st, callee, path, decl, c, args, loc)

    def fallible(self, callee, path, decl, c, loc):
        """a call from repository code to a library function that answers with a Result (combinators excluded)"""
        if not any(k in loc.fn for k in self.local):
            return False
        name = path or decl
        if name.endswith("::get_return_data"):
            return True
        rt = c.retty()
        if not (rt.startswith("core::result::Result<") or rt.startswith("std::result::Result<") or rt.startswith("Result<")):
            return False
        iid = callee.get("inst")
        if iid is not None and self.p.insts[iid]["crate"] in self.local:
            return False
        if decl.startswith(("core::convert::TryFrom", "core::convert::TryInto", "core::str::FromStr")) or name.startswith("core::str::") \
                or "::parse" in name or "::from_utf8" in name:
            return True
        return not (name.startswith(("core::", "alloc::", "std::", "<core::", "<std::", "<alloc::")) or decl.startswith(("core::", "std::", "alloc::")))

    def call2(self, st, callee, path, decl, c, args, loc):
        for key in (path, decl):
            m = self.overrides.get(key) or self.models.get(key)
            if m is not None:
                r = m(self, st, c, args)
                if r is not None:
                    return r
        r = self.generic.by_pattern(self, st, c, args, path, decl)
        if r is not None:
            return r
        iid = callee.get("inst")
        if iid is not None:
            inst = self.p.insts[iid]
            if inst.get("blocks") and self.follow(inst, callee):
                a = self.adapt(st, inst, args, callee)
                return self.exec_inst(st, iid, a, loc)
        if self.linked:
            r = self.linked_call(st, callee, path, args)
            if r is not None:
                return r
        return self.opaque_call(st, c, args)

    def linked_call(self, st, callee, path, args):
        """a call into another repository crate: its function is analysed from that crate's MIR, on values"""
        prog = self.linked.get(callee.get("crate"))
        if prog is None:
            return None
        inst = next((i for i in prog.find(path) if i.get("blocks") and i["argc"] == len(args)), None)
        if inst is None:
            return None
        sub = Interp(prog, {callee["crate"]}, self.maxpaths, self.maxsteps)
        sub.uniq = self.uniq
        s0 = State()
        s0.facts = st.facts.copy()
        s0.epoch = st.epoch
        outs = []
        for s, v in sub.exec_inst(s0, inst["id"], [self.freeze(st, a) for a in args]):
            n = st.copy()
            n.facts = s.facts
            n.epoch = s.epoch
            for e in s.events():
                n.add(e)
            n.fb = n.fb + s.fb
            outs.append((n, sub.freeze(s, v)))
        self.uniq = max(self.uniq, sub.uniq)
        self.steps += sub.steps
        self.followed |= sub.followed
        self.opaque |= sub.opaque
        self.panics += sub.panics
        self.casts += sub.casts
        return outs

    def adapt(self, st, inst, args, callee):
        decl = callee.get("decl") or ""
        if inst.get("kind") == "Closure" or "closure" in (inst.get("kind") or "").lower() or "{closure" in inst["path"]:
            if decl.startswith("core::ops::function::Fn") and len(args) == 2:
                tup = args[1]
                n = inst["argc"] - 1
                if inst.get("spread") is not None and inst["argc"] == 2 and n != 1:
                    return args
                tv = tup
                if tv.op == "tuple":
                    return [args[0]] + list(tv.a)
                return [args[0]] + [mk_field(tv, str(i)) for i in range(n)]
        return args

    FOLLOW_CRATES = {"core", "alloc", "std"}

    def follow(self, inst, callee):
        if inst["crate"] in self.local:
            return True
        if inst["crate"] in self.FOLLOW_CRATES:
            return self.generic.follow_std(inst, callee)
        return self.generic.follow_dep(inst, callee)

    def call_value(self, st, f, args, c):
        """call of a closure, function item or function pointer value"""
        n = 0
        while f.op == "ptr":
            g = self.load(st, f.a[0], f.a[1])
            if g.op == "ptr" or g.op in ("closure", "fn"):
                if g.op in ("closure",):
                    # keep the pointer: the closure may mutate its captures
                    return self.call_closure(st, g, f, args, c)
                f = g
            else:
                f = g
                break
            n += 1
            if n > 20:
                raise Limit("callee")
        if f.op == "closure":
            return self.call_closure(st, f, None, args, c)
        if f.op == "fn":
            callee = self.callees[f.a[0]]
            inst = callee.get("inst")
            at = c.atys
            return self.call(st, callee, args, at, c.dty, c.loc)
        return self.opaque_call(st, c, [f] + list(args), name="callval")

    def call_closure(self, st, clo, ptr, args, c):
        iid = clo.a[0]
        inst = self.p.insts.get(iid)
        if inst is None or not inst.get("blocks"):
            return self.opaque_call(st, c, [clo] + list(args), name="closure")
        t = self.p.ty(inst["locals"][1])[1] if len(inst["locals"]) > 1 and inst["argc"] >= 1 else {}
        if inst["argc"] == len(args) + 1:
            self_arg = clo
            if t.get("k") in ("ref", "ptr"):
                self_arg = ptr if ptr is not None else self.ref(st, clo)
            return self.exec_inst(st, iid, [self_arg] + list(args), c.loc)
        if inst["argc"] == len(args):
            return self.exec_inst(st, iid, list(args), c.loc)
        raise Limit("closure arity " + inst["path"])

    def opaque_call(self, st, c, args, name=None):
        """A library function that is not followed: its result is a term over its arguments,
        everything it could write through a mutable reference is havocked."""
        path = name or c.path
        self.opaque.add(path)
        if name is None:
            import models
            models.library_panics(self, st, c, args, path)
        fargs = [self.freeze(st, a) for a in args]
        extra = []
        if self.generic.reads_accounts(self, c):
            extra.append(st.epoch)
        if self.generic.effectful(self, c):
            extra.append(T("n", self.fresh()))
        res = T("app", path, *([T("ty", c.targs())] if c.targs() else []), *fargs, *extra)
        for i, a in enumerate(args):
            ty = c.argty(i)
            if ty is not None and ty.startswith("&mut ") and a.op == "ptr":
                old = self.freeze(st, a)
                self.store(st, a.a[0], a.a[1], T("mutby", res, I(i), old))
            elif a.op == "ptr" or a.op in ("closure", "tuple", "adt"):
                self.havoc_captures(st, a, res)
        if self.generic.is_event(self, c):
            st.add(Event("call", {"name": path, "args": tuple(fargs), "res": res}, c.loc, st.facts.copy()))
        return [(st, res)]

    def havoc_captures(self, st, a, res):
        v = a
        n = 0
        while v.op == "ptr" and n < 5:
            v = self.load(st, v.a[0], v.a[1])
            n += 1
        if v.op == "closure":
            inst = self.p.insts.get(v.a[0])
            for x in v.a[1]:
                if x.op == "ptr":
                    old = self.freeze(st, x)
                    self.store(st, x.a[0], x.a[1], T("mutby", res, I(99), old))


class Call:
    __slots__ = ("it", "callee", "path", "decl", "atys", "dty", "loc")

    def __init__(self, it, callee, atys, dty, loc):
        self.it = it
        self.callee = callee
        self.path = callee.get("path") or callee.get("decl") or "?"
        self.decl = callee.get("decl") or ""
        self.atys = atys
        self.dty = dty
        self.loc = loc

    def argty(self, i):
        if self.atys is None or i >= len(self.atys):
            return None
        return self.it.p.tys(self.atys[i])

    def retty(self):
        return self.it.p.tys(self.dty) if self.dty is not None else ""

    def targs(self):
        ts = tuple(self.it.p.tys(t) for t in self.callee.get("targs") or ())
        return tuple(t for t in ts if not t.startswith("'"))
