"""Paths of the program's dispatcher, normalised for the rules.

Every path of `process_instruction` that can return Ok is grouped by the instruction code it was
taken under (the guard fact on input[0]); each path carries its guard facts, a congruence closure
of the equalities it established, and its effects (cross-program calls, account writes, loops).
"""
import time
import interp
from terms import *
from interp import Loc, Facts

PROGRAM_ID = b58dec("TwRapQCDhWkZRrDaHfZGuHxkZ91gHDRkyuzNqeU5MgR")
T22 = bytes_(b58dec("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb"))
SPL = bytes_(b58dec("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA"))
MPL = bytes_(b58dec("metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s"))
ATAP = bytes_(b58dec("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL"))
SYS = bytes_(bytes(32))
PID = bytes_(PROGRAM_ID)

ACCTS = T("param", "accounts")
INPUT = T("param", "input")
PIDP = T("param", "program_id")


def acct(i):
    return mk_idx(ACCTS, i)


def K(i):
    return mk_field(acct(i), "key")


def owner(i):
    return mk_field(acct(i), "owner")


def pda(seeds, prog=PID):
    return T("pda", T("seq", *seeds), prog)


def sb(s):
    return bytes_(s.encode())


def mint_pda(unwrapped, tp):
    return pda([sb("mint"), unwrapped, tp])


def auth_pda(wrapped):
    return pda([sb("authority"), wrapped])


def back_pda(wrapped):
    return pda([sb("backpointer"), wrapped])


def ptr_pda(unwrapped):
    return pda([sb("canonical_pointer"), unwrapped])


def ata(wallet, mint, tp):
    return pda([wallet, tp, mint], ATAP)


def mpl_pda(mint):
    return pda([sb("metadata"), MPL, mint], MPL)


OPNAMES = {0: "CreateMint", 1: "Wrap", 2: "Unwrap", 3: "CloseStuckEscrow", 4: "SyncMetadataToToken2022",
           5: "SyncMetadataToSplToken", 6: "SetCanonicalPointer"}


def size(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = 1
        for x in t.a:
            if isinstance(x, Term):
                r += size(x)
            elif isinstance(x, tuple):
                for y in x:
                    r += size(y) if isinstance(y, Term) else 1
        memo[t] = r
    return r


class Canon:
    """congruence closure (by repeated rewriting) of the equalities of a fact set"""

    def __init__(self, facts, extra=()):
        pairs = list(extra)
        for k, v in facts.eq.items():
            if isinstance(v, Term):
                pairs.append((k, v))
        for k, v in facts.bools.items():
            if v and k.op == "eq":
                pairs.append((k.a[0], k.a[1]))
        self.m = {}
        self.pairs = pairs
        self.memo = {}
        for _ in range(8):
            self.memo = {}
            new = {}
            uf = {}

            def find(x):
                while uf.get(x, x) is not x:
                    x = uf[x]
                return x

            for a, b in pairs:
                a, b = self(a), self(b)
                if a is b:
                    continue
                ra, rb = find(a), find(b)
                if ra is rb:
                    continue
                # keep the simpler representative
                if self.rank(ra) < self.rank(rb):
                    ra, rb = rb, ra
                uf[ra] = rb
            changed = False
            for x in list(uf):
                r = find(x)
                if self.m.get(x) is not r:
                    self.m[x] = r
                    changed = True
            if not changed:
                break
        self.memo = {}

    def rank(self, t):
        return (0 if is_const(t) else 1, size(t), t.n)

    def __call__(self, t):
        if not self.m:
            return t

        def f(x):
            y = self.m.get(x, x)
            n = 0
            while y is not x and n < 50:
                x, y = y, self.m.get(y, y)
                n += 1
            if x.op == "slice" and x.a[2] is not None:
                ln = self.m.get(T("len", x.a[0]))
                if ln is not None and ln is x.a[2]:
                    x = mk_slice(x.a[0], x.a[1], None)
            return x

        return mapterm(t, f, self.memo)


class Path:
    def __init__(self, state, value, flavour=None):
        self.facts = state.facts
        self.value = value
        self.evs = state.events()
        self.flavour = flavour
        self._canon = None
        self.op = None

    @property
    def canon(self):
        if self._canon is None:
            self._canon = Canon(self.facts, [(PIDP, PID)])
        return self._canon

    def eq(self, a, b):
        return self.canon(a) is self.canon(b)

    def facts_at(self, ev):
        """facts established before the effect (the whole path's when there is none)"""
        return FactView(ev.facts if ev is not None and ev.facts is not None else self.facts)

    def cpis(self):
        return [e for e in self.evs if e.kind == "cpi"]

    def effects(self):
        """flat list of (event, loop or None, loop-iteration facts) that change state"""
        out = []

        def go(evs, loop, f):
            for e in evs:
                if state_changing(e):
                    out.append((e, loop, f))
                elif e.kind == "loop":
                    r = e.d["rec"]
                    for fo, ev2, ups in r.outs:
                        go(ev2, r, fo)
        go(self.evs, None, None)
        return out

    def first_effect(self):
        for e in self.evs:
            if e.kind == "loop" and any(state_changing(x) for o in e.d["rec"].outs for x in o[1]) or state_changing(e):
                return e
        return None


# library functions that receive account infos (or talk to the runtime) and only read
READONLY = ("extract_multisig_accounts", "get_return_data", "from_account_info", "next_account_info", "next_account_infos",
            "::get", "data_len", "lamports", "is_signer", "unsigned_key", "signer_key", "data_is_empty", "try_lamports", "try_data_len",
            "try_data_is_empty", "try_borrow_data", "try_borrow_lamports", "original_data_len", "check_account_owner", "clone",
            "deserialize_data", "fmt", "eq", "ne", "hash", "as_ref", "sol_log", "log", "msg", "sol_log_compute_units", "log_data", "debug")


def state_changing(e):
    if e.kind in ("cpi", "write"):
        return True
    if e.kind == "call":
        n = e.d["name"]
        last = n.split("::")[-1]
        return not (last in READONLY or n.endswith(tuple(x for x in READONLY if x.startswith("::"))))
    return False


class FactView:
    def __init__(self, facts):
        self.f = facts
        self.c = Canon(facts, [(PIDP, PID)])

    def eq(self, a, b):
        return self.c(a) is self.c(b)

    def ne(self, a, b):
        ca, cb = self.c(a), self.c(b)
        if distinct(ca, cb):
            return True
        for x in (a, ca):
            for k, vs in self.f.ne.items():
                if self.c(k) is self.c(x) and any(isinstance(v, Term) and self.c(v) is cb for v in vs):
                    return True
        for k, v in self.f.bools.items():
            if k.op == "eq" and v is False:
                l, r = self.c(k.a[0]), self.c(k.a[1])
                if (l is ca and r is cb) or (l is cb and r is ca):
                    return True
        return False

    def true(self, t):
        r = self.f.truth(t)
        if r is not None:
            return r is True
        ct = self.c(t)
        if ct.op == "bool":
            return ct.a[0]
        for k, v in self.f.bools.items():
            if self.c(k) is ct:
                return v
            if ct.op == "not" and self.c(k) is ct.a[0]:
                return not v
        return None

    def variant(self, t):
        """known variant name of an enum-valued term"""
        if t.op == "adt":
            return t.a[1]
        v = self.f.eq.get(T("discr", t))
        if v is not None:
            return v
        ct = self.c(t)
        if ct.op == "adt":
            return ct.a[1]
        for k, v in self.f.eq.items():
            if k.op == "discr" and self.c(k.a[0]) is ct:
                return v
        return None

    def nonzero(self, t):
        ct = self.c(t)
        for x in (t, ct):
            if self.f.range(x)[0] >= 1 or I(0) in self.f.ne.get(x, ()):
                return True
        for k, vs in self.f.ne.items():
            if I(0) in vs and self.c(k) is ct:
                return True
        for k, (lo, hi) in self.f.rng.items():
            if lo >= 1 and self.c(k) is ct:
                return True
        return False

    def is_zero(self, t):
        return self.c(t) is I(0) or self.f.truth(mk_eq(t, I(0))) is True

    def ge(self, a, b):
        """a >= b established"""
        return self.true(mk_lt(a, b)) is False


def ix(e):
    """(builder name, args) of a cross-program call"""
    t = e.d["ix"]
    if t.op == "app":
        return t.a[0], t.a[1:]
    return None, ()


def seeds_of(e):
    """seed lists of the signatures of a cross-program call"""
    s = e.d["seeds"]
    if s.op != "seq":
        return [s]
    return list(s.a)


def signer_of(sd):
    """the derived address a seed list signs for; None if the bump is not that address's"""
    if sd.op != "seq" or len(sd.a) < 2 or any(x.op == "splat" for x in sd.a):
        return None
    seeds, last = T("seq", *sd.a[:-1]), sd.a[-1]
    if last.op == "seq" and len(last.a) == 1:
        last = last.a[0]
    if last.op != "bump" or last.a[0] is not seeds:
        return None
    return T("pda", seeds, last.a[1])


def accounts_of(e):
    a = e.d["accounts"]
    return list(a.a) if a.op == "seq" else [splat(a)]


def is_ok(it, st, v):
    """the state in which a returned Result is Ok, or None"""
    v = it.deep(st, v)
    v = it.freeze(st, v)
    if v.op == "adt":
        return (st, v) if v.a[1] == "Ok" else None
    s = st.copy()
    if s.facts.assume_variant(v, "Ok"):
        return s, v
    return None


class Run:
    """exploration of one root"""

    def __init__(self, prog, local, inst, args, overrides=None):
        self.it = interp.Interp(prog, local)
        self.it.overrides.update(overrides or {})
        t0 = time.time()
        st = interp.State()
        self.res = self.it.exec_inst(st, inst["id"], args)
        self.wall = time.time() - t0
        self.total = len(self.res)
        self.ok = []
        self.err = []
        for s, v in self.res:
            r = is_ok(self.it, s, v)
            if r is not None:
                self.ok.append((r[0], self.it.freeze(r[0], r[1])))
            if r is None or r[1].op != "adt":
                self.err.append((s, v))


def call_sites(evs):
    out = set()

    def go(evs):
        for e in evs:
            if e.kind == "loop":
                for o in e.d["rec"].outs:
                    go(o[1])
                for o in e.d["rec"].aborts:
                    go(o[1])
            else:
                out.add((e.kind, repr(e.loc)))
    go(evs)
    return out
