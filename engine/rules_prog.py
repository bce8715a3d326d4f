"""Rules C01-C23 over the program's paths."""
from terms import *
from paths import *
import interp

OPT_ = OPT


class Rep:
    """obligations of one property"""

    def __init__(self, pid):
        self.pid = pid
        self.n = 0
        self.bad = []          # (where, message, key)
        self.samples = []
        self.notes = {}

    def ok(self, cond, where, msg, key=None):
        self.n += 1
        if cond:
            if len(self.samples) < 6 and all(s["rule"] != msg for s in self.samples):
                self.samples.append({"rule": msg, "at": str(where)})
            return True
        k = key or msg
        if not any(b[2] == k and str(b[0]) == str(where) for b in self.bad):
            self.bad.append((where, msg, k))
        return False


def loc(e):
    return repr(e.loc) if e is not None else "?"


def strip(t):
    """forget at which moment account data was read"""
    def f(x):
        if x.op in ("data", "lamports") and len(x.a) == 2:
            return T(x.op, x.a[0], None)
        return x
    return mapterm(t, f)


def data(i):
    return T("data", acct(i), None)


def data_sources(t):
    return {x.a[0] for x in subterms(t) if x.op == "data"}


def from_data(t, i):
    """the term is computed from the data of account i and of no other account"""
    return data_sources(t) == {acct(i)}


def field_of(t, name, i):
    return t.op == "field" and t.a[1] == name and from_data(t.a[0], i)


def appname(t):
    return t.a[0] if t.op == "app" and isinstance(t.a[0], str) else ""


def aname(t):
    return appname(t).split("::")[-1]


def tyargs(t):
    if t.op == "app" and len(t.a) > 1 and isinstance(t.a[1], Term) and t.a[1].op == "ty":
        return t.a[1].a[0]
    return ()


def targ_is(t, suffix):
    return any(str(x).split("<")[0].endswith(suffix) for x in tyargs(t))


def plain_args(t):
    a = t.a[1:]
    if a and isinstance(a[0], Term) and a[0].op == "ty":
        a = a[1:]
    return a


AMOUNT = app("from_le", mk_slice(INPUT, 1, None))


def amount_term(p):
    """the u64 decoded from bytes 1..9 of the input"""
    for x in all_terms(p):
        if x.op == "app" and x.a[0] == "from_le":
            c = p.canon(x)
            if c.op == "app" and c.a[0] == "from_le":
                y = plain_args(c)[0]
                if y is mk_slice(INPUT, 1, None) or y is mk_slice(INPUT, 1, 9):
                    return x
                if y.op == "seq" and [z for z in y.a] == [mk_idx(INPUT, 1 + i) for i in range(8)]:
                    return x
    return None


def all_terms(p):
    seen = set()
    for e, l, f in p.effects():
        for v in e.d.values():
            if isinstance(v, Term):
                yield from subterms(v, seen)
    for d in (p.facts.eq, p.facts.bools, p.facts.ne, p.facts.rng):
        for k in d:
            yield from subterms(k, seen)


def amt_is(p, t, A):
    return A is not None and (t is A or p.canon(t) is p.canon(A))


# ------------------------------------------------------------------------------ program model

class Prog:
    """the explorations the program rules share"""

    def __init__(self, files):
        self.lib = interp.Program(files["lib"])
        self.local = {"spl_token_wrap"}
        self._root = None
        self.files = files
        self.runs = []

    def coverage(self):
        fns, opq, paths, ok, steps, sites = set(), set(), 0, 0, 0, set()
        for r in self.runs:
            fns |= {f if isinstance(f, str) else str(f) for f in r.it.followed}
            opq |= r.it.opaque
            paths += r.total
            ok += len(r.ok)
            steps += r.it.steps
            for s, v in r.ok:
                sites |= call_sites(s.events())
        return {"entries_explored": sorted({r.root for r in self.runs}), "functions_analysed": len(fns),
                "functions_sample": sorted(fns)[:40],
                "paths_enumerated": paths, "succeeding_paths": ok, "mir_steps": steps,
                "effect_sites": sorted("%s at %s" % s for s in sites), "library_functions_taken_as_pure_terms": sorted(opq)}

    def inst(self, path, targ=None):
        r = self.lib.find(path, targ)
        return r[0] if r else None

    def run(self, inst, args, overrides=None, prog=None):
        r = Run(prog or self.lib, self.local, inst, args, overrides)
        r.root = inst["path"]
        self.runs.append(r)
        return r

    @property
    def root(self):
        if self._root is None:
            inst = self.inst("spl_token_wrap::processor::process_instruction")
            if inst is None:
                raise MissingAnchor("public function spl_token_wrap::processor::process_instruction")
            r = self.run(inst, [PIDP, ACCTS, INPUT])
            r.paths = []
            for s, v in r.ok:
                p = Path(s, v)
                c = p.facts.const(mk_idx(INPUT, 0))
                p.op = c.a[0] if c is not None and isinstance(c, Term) and c.op == "int" else None
                r.paths.append(p)
            self._root = r
        return self._root

    def paths(self, op):
        return [p for p in self.root.paths if p.op == op]

    def fn(self, path, args, targ=None):
        inst = self.inst(path, targ)
        if inst is None:
            raise MissingAnchor("function " + path)
        if inst["argc"] != len(args):
            raise MissingAnchor("function %s with %d parameters" % (path, len(args)))
        return self.run(inst, args)

    def const_fn(self, path, args):
        """value of a function that has a single result"""
        r = self.fn(path, args)
        if len(r.res) != 1:
            return None, r
        s, v = r.res[0]
        return r.it.freeze(s, v), r


class MissingAnchor(Exception):
    pass


HANDLER = {0: "create-mint", 1: "wrap", 2: "unwrap", 3: "close-stuck-escrow", 4: "sync-to-token-2022", 5: "sync-to-spl-token",
           6: "set-canonical-pointer"}


def need_paths(P, r, op):
    ps = P.paths(op)
    r.ok(bool(ps), "spl_token_wrap::processor::process_instruction", "instruction %d (%s) can succeed" % (op, HANDLER[op]))
    r.notes["paths_" + HANDLER[op]] = len(ps)
    return ps


def where(p, e=None):
    if e is not None:
        return loc(e)
    evs = p.cpis()
    return loc(evs[0]) if evs else "spl_token_wrap::processor::process_instruction[%s]" % HANDLER.get(p.op, p.op)


def succeeded(p, res):
    """the path knows that the call whose result this is succeeded"""
    f = FactView(p.facts)
    if f.variant(res) == "Ok":
        return True
    return p.value is res


def token_ix(p, e):
    """normalised token instruction: dict(kind, prog, ...)"""
    n, a = ix(e)
    if n == "token::transfer_checked" and len(a) == 8 and a[7].op == "adt":
        return dict(kind="transfer", prog=a[0], src=a[1], mint=a[2], dst=a[3], auth=a[4], signers=None, amount=a[5], dec=a[6],
                    fee=a[7].a[3][0] if a[7].a[1] == "Some" else None)
    if n == "token::transfer_checked" and len(a) == 8:
        return dict(kind="transfer", prog=a[0], src=a[1], mint=a[2], dst=a[3], auth=a[4], signers=a[5], amount=a[6], dec=a[7], fee=None)
    if n == "token::transfer" and len(a) == 6:
        return dict(kind="transfer", prog=a[0], src=a[1], mint=None, dst=a[2], auth=a[3], signers=a[4], amount=a[5], dec=None, fee=None)
    if n in ("token::mint_to", "token::mint_to_checked"):
        return dict(kind="mint", prog=a[0], mint=a[1], dst=a[2], auth=a[3], signers=a[4], amount=a[5], dec=a[6] if len(a) > 6 else None)
    if n in ("token::burn", "token::burn_checked"):
        return dict(kind="burn", prog=a[0], src=a[1], mint=a[2], auth=a[3], signers=a[4], amount=a[5], dec=a[6] if len(a) > 6 else None)
    if n == "token::close_account":
        return dict(kind="close", prog=a[0], src=a[1], dst=a[2], auth=a[3], signers=a[4])
    if n and n.startswith("token::"):
        return dict(kind=n, prog=a[0] if a else None)
    return None


# ------------------------------------------------------------------------------ C01, C02, C03

def fee_of(p, A, mint_i):
    """the fee term this program computes for the mint (calculate_epoch_fee over its own config)"""
    out = []
    for x in all_terms(p):
        if x.op == "app" and aname(x) in ("calculate_epoch_fee",):
            out.append(x)
    return out


def is_epoch_fee(p, t, A, mint_i):
    """t is the fee the mint's transfer-fee configuration yields for A in the current epoch"""
    if t.op == "field" and t.a[1] == "0" and t.a[0].op == "as":
        t = t.a[0].a[0]
    if aname(t) != "calculate_epoch_fee":
        return False
    a = plain_args(t)
    if len(a) != 3:
        return False
    cfg, epoch, amount = a
    if not amt_is(p, amount, A):
        return False
    if not (epoch.op == "field" and epoch.a[1] == "epoch" and any(aname(x) == "get" and targ_is(x, "Clock") for x in subterms(epoch))):
        return False
    return from_data(cfg, mint_i) and any(aname(x) == "get_extension" and targ_is(x, "TransferFeeConfig") for x in subterms(cfg))


def no_fee_config(p, prog, mint_i):
    """the path established that the mint charges no transfer fee"""
    f = FactView(p.facts)
    if f.ne(prog, T22) or f.eq(prog, SPL):
        return True
    for k, v in p.facts.eq.items():
        if k.op == "discr" and v == "Err" and aname(k.a[0]) == "get_extension" and targ_is(k.a[0], "TransferFeeConfig") and from_data(k.a[0], mint_i):
            return True
        # the fee is not computable: Token-2022 refuses the transfer for the same reason
        if k.op == "discr" and v == "None" and aname(k.a[0]) == "calculate_epoch_fee" and from_data(k.a[0], mint_i):
            return True
    return False


def moves(P, r, op, spec, first, second):
    for p in need_paths(P, r, op):
        eff = p.effects()
        w = where(p)
        A = amount_term(p)
        r.ok(A is not None and p.facts.const(mk_len(INPUT)) is I(9), w, "the amount moved is the 64-bit little-endian number of the instruction")
        if A is None:
            continue
        f = FactView(p.facts)
        r.ok(f.nonzero(A), w, "a zero amount is refused")
        kinds = []
        for e, lp, lf in eff:
            t = token_ix(p, e) if e.kind == "cpi" else None
            kinds.append(t["kind"] if t and not lp else "other")
            if not t or lp:
                r.ok(False, loc(e), "%s performs nothing but the two token movements (found %s%s)" % (HANDLER[op], ix(e)[0] if e.kind == "cpi" else "an account write", " in a loop" if lp else ""))
        r.ok(kinds == [first, second], w, "%s performs exactly one %s followed by exactly one %s (found %s)" % (HANDLER[op], first, second, kinds))
        if kinds != [first, second]:
            continue
        e1, e2 = eff[0][0], eff[1][0]
        t1, t2 = token_ix(p, e1), token_ix(p, e2)
        for e in (e1, e2):
            r.ok(succeeded(p, e.d["res"]), loc(e), "%s succeeds only if this movement succeeded" % HANDLER[op])
        spec(p, r, A, e1, t1, e2, t2)


def C01(P, r):
    def spec(p, r, A, e1, t1, e2, t2):
        r.ok(amt_is(p, t1["amount"], A), loc(e1), "the deposit moves exactly the requested amount")
        r.ok(p.eq(t1["prog"], K(3)) and p.eq(t1["src"], K(5)) and p.eq(t1["dst"], K(7)) and (t1["mint"] is None or p.eq(t1["mint"], K(6))),
             loc(e1), "the deposit moves unwrapped tokens from the user's account into the escrow")
        r.ok(t1["dec"] is None or field_of(t1["dec"], "decimals", 6), loc(e1), "the deposit states the unwrapped mint's own decimals")
        r.ok(p.eq(t2["prog"], K(4)) and p.eq(t2["mint"], K(1)) and p.eq(t2["dst"], K(0)), loc(e2), "wrapped tokens are minted to the recipient")
        m = t2["amount"]
        if t1["fee"] is not None:
            fee = t1["fee"]
            if fee is I(0):
                r.ok(no_fee_config(p, t1["prog"], 6), loc(e1), "a zero fee is declared only when the mint has no (computable) fee configuration")
                r.ok(amt_is(p, m, A), loc(e2), "with no fee the full amount is minted")
            else:
                r.ok(is_epoch_fee(p, fee, A, 6), loc(e1), "the declared fee is the one of the unwrapped mint's configuration for this amount in the current epoch")
                r.ok(m is mk_sub(A, fee) or p.eq(m, mk_sub(A, fee)), loc(e2), "exactly the amount minus the declared fee is minted")
        else:
            if amt_is(p, m, A):
                r.ok(no_fee_config(p, t1["prog"], 6), loc(e2), "the full amount is minted only when the mint certainly charges no fee")
            else:
                r.ok(m.op == "sub" and amt_is(p, m.a[0], A) and is_epoch_fee(p, m.a[1], A, 6), loc(e2), "exactly the amount minus the mint's current fee is minted")
    moves(P, r, 1, spec, "transfer", "mint")
    # the wrap must still support both kinds of mint
    ps = P.paths(1)
    r.ok(any(no_fee_config(p, K(3), 6) for p in ps), "process_wrap", "mints without a fee can be wrapped")
    r.ok(any(any(is_epoch_fee(p, x, amount_term(p), 6) for x in fee_of(p, None, 6)) for p in ps if amount_term(p) is not None), "process_wrap",
         "mints with a fee can be wrapped")


def C02(P, r):
    def spec(p, r, A, e1, t1, e2, t2):
        r.ok(amt_is(p, t1["amount"], A), loc(e1), "exactly the requested amount is burned")
        r.ok(p.eq(t1["prog"], K(4)) and p.eq(t1["src"], K(6)) and p.eq(t1["mint"], K(7)), loc(e1), "the burn takes wrapped tokens of the pair from the user's wrapped account")
        r.ok(amt_is(p, t2["amount"], A), loc(e2), "exactly the burned amount is released")
        r.ok(p.eq(t2["prog"], K(5)) and p.eq(t2["src"], K(0)) and p.eq(t2["dst"], K(1)) and (t2["mint"] is None or p.eq(t2["mint"], K(3))),
             loc(e2), "the release moves unwrapped tokens from the escrow to the recipient")
        r.ok(p.eq(t2["auth"], K(2)), loc(e2), "the release is authorised by the pair's authority")
        r.ok(t2["dec"] is None or field_of(t2["dec"], "decimals", 3), loc(e2), "the release states the unwrapped mint's own decimals")
    moves(P, r, 2, spec, "burn", "transfer")


def rest_from(n):
    return mk_slice(ACCTS, n, None)


def covers(p, t, n, rest=False):
    """the sequence t contains the caller's account n (with rest: every account from n on)"""
    if t.op == "mapseq" and t.a[2].op == "elem" and t.a[2].a[1] is t.a[1]:
        t = t.a[1]
    t = p.canon(t)
    if t is ACCTS:
        return True
    if t.op == "slice" and t.a[0] is ACCTS:
        lo, hi = t.a[1], t.a[2] if len(t.a) > 2 else None
        lo = lo.a[0] if hasattr(lo, "op") and lo.op == "int" else lo
        hi = hi.a[0] if hasattr(hi, "op") and hi.op == "int" else hi
        if not isinstance(lo, int):
            return False
        return lo <= n and (hi is None or (isinstance(hi, int) and not rest and n < hi))
    return False


def passes_rest(p, e, n):
    """every account from index n on is handed to the call"""
    return any(x.op == "splat" and covers(p, x.a[0], n, True) for x in accounts_of(e))


def C03(P, r):
    for op, kind, auth, n in ((1, "transfer", 8, 9), (2, "burn", 8, 9)):
        for p in need_paths(P, r, op):
            user = 5 if op == 1 else 6
            hit = 0
            for e, lp, lf in p.effects():
                t = token_ix(p, e) if e.kind == "cpi" else None
                if not t:
                    continue
                taking = t["kind"] == kind and p.eq(t.get("src") or UNIT, K(user))
                if t["kind"] == kind:
                    hit += 1
                    r.ok(not seeds_of(e), loc(e), "the program's own signature is not lent to the user's %s" % ("deposit" if op == 1 else "burn"))
                    r.ok(p.eq(t["auth"], K(auth)), loc(e), "the %s is authorised by the supplied transfer authority" % ("deposit" if op == 1 else "burn"))
                    accs = [a for a in accounts_of(e)]
                    r.ok(any(p.eq(a, acct(auth)) or a.op == "splat" and covers(p, a.a[0], auth) for a in accs), loc(e), "the transfer authority account is handed to the call")
                    if t["signers"] is None:
                        r.ok(passes_rest(p, e, n), loc(e), "every supplied multisig signer is passed through")
                    else:
                        ok = False
                        s = t["signers"]
                        if s.op == "seq" and len(s.a) == 1 and s.a[0].op == "splat":
                            m = s.a[0].a[0]
                            if m.op == "mapseq" and m.a[2].op == "field" and m.a[2].a[1] == "key" and m.a[2].a[0] is T("elem", m.a[0], m.a[1]):
                                src = m.a[1]
                                ok = signer_source(p, src, auth, n)
                                ok = ok and any(a.op == "splat" and (p.eq(a.a[0], src) or (a.a[0].op == "mapseq" and p.eq(a.a[0].a[1], src) and a.a[0].a[2].op == "elem"))
                                                for a in accs) or (ok and passes_rest(p, e, n))
                        r.ok(ok, loc(e), "every supplied multisig signer is passed through")
            r.ok(hit > 0, where(p), "the user's tokens are taken by a %s" % kind)


def signer_source(p, t, auth, n):
    """the remaining accounts, or what the token library extracts from them for the given authority"""
    if p.eq(t, rest_from(n)):
        return True
    x = t
    if x.op == "field" and x.a[0].op == "as":
        x = x.a[0].a[0]
    if aname(x) == "extract_multisig_accounts":
        a = plain_args(x)
        return p.eq(a[0], acct(auth)) and p.eq(a[1], rest_from(n))
    return False


# ------------------------------------------------------------------------------ C04

def C04(P, r):
    sig = 0
    for p in P.root.paths:
        for e, lp, lf in p.effects():
            if e.kind == "call":
                r.ok(False, loc(e), "no account is handed to a library function whose effect is not known (%s)" % e.d["name"])
            if e.kind != "cpi":
                continue
            n, a = ix(e)
            ss = seeds_of(e)
            r.ok(n is not None, loc(e), "the invoked instruction is built by a known token, system or metadata builder", key="unknown instruction")
            if not ss:
                continue
            sig += 1
            r.ok(len(ss) == 1, loc(e), "one derived address signs at a time")
            s = signer_of(ss[0])
            r.ok(s is not None, loc(e), "the signature uses the seeds of one derived address together with that address's own bump")
            if s is None or n is None:
                continue
            c = p.canon(s)
            # programs: only addresses of this program can be signed for
            r.ok(p.eq(s.a[1], PID), loc(e), "the signing address is derived under this program")
            kind = s.a[0].a[0].a[0].decode("latin1") if s.a[0].a and s.a[0].a[0].op == "bytes" else "?"
            rest = s.a[0].a[1:]
            good = False
            if kind == "mint" and p.op == 0:
                good = n in ("system::allocate", "system::assign") and p.eq(a[0], s) and len(rest) == 2 and p.eq(s, mint_pda(K(2), K(4)))
            elif kind == "backpointer" and p.op == 0:
                good = n in ("system::allocate", "system::assign") and p.eq(a[0], s) and p.eq(s, back_pda(K(0)))
            elif kind == "canonical_pointer" and p.op == 6:
                good = n in ("system::allocate", "system::assign") and p.eq(a[0], s) and p.eq(s, ptr_pda(K(2)))
            elif kind == "authority" and len(rest) == 1:
                w = {1: 1, 2: 7, 3: 3, 4: 0, 5: 2}.get(p.op)
                t = token_ix(p, e)
                if w is not None and p.eq(rest[0], K(w)):
                    if p.op == 1:
                        good = bool(t) and t["kind"] == "mint" and p.eq(t["mint"], K(w)) and p.eq(t["auth"], s)
                    elif p.op == 2:
                        good = bool(t) and t["kind"] == "transfer" and p.eq(t["src"], K(0)) and p.eq(t["auth"], s)
                    elif p.op == 3:
                        good = bool(t) and t["kind"] == "close" and p.eq(t["src"], K(0)) and p.eq(t["auth"], s)
                    elif p.op == 4:
                        good = n in ("metadata::initialize", "metadata::update_field", "metadata::remove_key") and p.eq(a[1], K(w))
                    elif p.op == 5:
                        good = n in ("mpl::CreateMetadataAccountV3", "mpl::UpdateMetadataAccountV2")
            r.ok(good, loc(e), "a derived address signs only for its own purpose in %s (here %s signs %s)" % (HANDLER.get(p.op, p.op), kind, n))
    r.notes["signed_calls"] = sig
    r.ok(sig > 0, "processor", "the program signs for its derived addresses somewhere")


# ------------------------------------------------------------------------------ C05

def C05(P, r):
    for op, mint, auth, esc, umint, utp, wtp in ((1, 1, 2, 7, 6, 3, 4), (2, 7, 2, 0, 3, 5, 4)):
        for p in need_paths(P, r, op):
            e = p.first_effect()
            f = p.facts_at(e)
            w = where(p, e)
            r.ok(f.eq(K(mint), mint_pda(K(umint), K(wtp))), w, "%s: the wrapped mint is derived from this unwrapped mint and wrapped token program" % HANDLER[op])
            r.ok(f.eq(K(auth), auth_pda(K(mint))), w, "%s: the authority is derived from the wrapped mint" % HANDLER[op])
            r.ok(f.eq(K(esc), ata(K(auth), K(umint), K(utp))), w, "%s: the escrow is the authority's associated token account for the unwrapped mint" % HANDLER[op])
            if op == 1:
                r.ok(any(field_of(strip(x), "owner", esc) for x in equal_terms(f, K(auth))), w, "wrap: the escrow is still owned by the authority")
            for ev in p.cpis():
                t = token_ix(p, ev)
                if t and t["kind"] in ("transfer",):
                    r.ok(p.eq(t["prog"], K(utp)) and p.eq(t["dst" if op == 1 else "src"], K(esc)), loc(ev), "%s: unwrapped tokens move through the canonical escrow" % HANDLER[op])
                if t and t["kind"] in ("mint", "burn"):
                    r.ok(p.eq(t["prog"], K(wtp)) and p.eq(t["mint"], K(mint)), loc(ev), "%s: wrapped tokens are those of the canonical mint" % HANDLER[op])


def equal_terms(f, t):
    """terms the facts equate with t"""
    c = f.c(t)
    seen = {}
    for a, b in f.c.pairs:
        for x in (a, b):
            if f.c(x) is c:
                seen[x] = 1
    return list(seen)


# ------------------------------------------------------------------------------ C06 .. C09

def creating(p):
    return p.first_effect() is not None


def C06(P, r):
    for p in need_paths(P, r, 0):
        e = p.first_effect()
        f = p.facts_at(e)
        w = where(p, e) if e else "spl_token_wrap::processor::process_create_mint (idempotent success)"
        r.ok(f.eq(K(0), mint_pda(K(2), K(4))), w, "the wrapped mint account is the address derived from the unwrapped mint and wrapped token program")
        r.ok(f.eq(K(1), back_pda(K(0))), w, "the backpointer account is the address derived from the wrapped mint")
        r.ok(f.eq(owner(2), SPL) or f.eq(owner(2), T22), w, "the unwrapped mint belongs to one of the token programs")


def lam(i):
    return T("lamports", acct(i), None)


def funded(p, i, space):
    """lamports(i) >= rent-exempt minimum of space"""
    f = FactView(p.facts)
    for k, v in p.facts.bools.items():
        s = strip(k)
        if s.op == "lt" and v is False and s.a[0] is lam(i) and aname(s.a[1]) == "minimum_balance":
            a = plain_args(s.a[1])
            if (a[1] is space or p.eq(a[1], space)) and any(aname(x) == "get" and targ_is(x, "Rent") for x in subterms(a[0])):
                return True
        if s.op == "app" and aname(s) == "is_exempt" and v is True:
            a = plain_args(s)
            if a[1] is lam(i) and (a[2] is space or p.eq(a[2], space)):
                return True
    for k, v in p.facts.rng.items():
        pass
    return False


EXT_OF = {"ext::confidential_transfer": "ConfidentialTransferMint", "ext::metadata_pointer": "MetadataPointer", "ext::permanent_delegate": "PermanentDelegate",
          "ext::default_account_state": "DefaultAccountState", "ext::pausable": "Pausable", "ext::group_pointer": "GroupPointer",
          "ext::group_member_pointer": "GroupMemberPointer", "ext::interest_bearing": "InterestBearingConfig", "ext::transfer_hook": "TransferHook",
          "ext::scaled_ui_amount": "ScaledUiAmount", "ext::transfer_fee": "TransferFeeConfig", "ext::mint_close_authority": "MintCloseAuthority",
          "ext::non_transferable": "NonTransferable", "ext::confidential_transfer_fee": "ConfidentialTransferFeeConfig",
          "ext::confidential_mint_burn": "ConfidentialMintBurn"}


def space_exts(t):
    """extensions a space term is computed for (None: not understood); [] for the bare mint"""
    if t.op == "int":
        return [] if t.a[0] == 82 else None
    x = t
    if x.op == "field" and x.a[0].op == "as":
        x = x.a[0].a[0]
    if aname(x) == "try_calculate_account_len" and targ_is(x, "Mint"):
        s = plain_args(x)[0]
        if s.op == "seq" and all(y.op == "adt" and y.a[0].endswith("ExtensionType") for y in s.a):
            return [y.a[1] for y in s.a]
    return None


def nullable_key(t):
    """Option<Pubkey> argument -> ('some', key) | ('none',) | None"""
    if t.op == "adt" and t.a[0] == OPT:
        return ("some", t.a[3][0]) if t.a[1] == "Some" else ("none",)
    return None


def creation_shape(p, r):
    """the calls of a creation path by role"""
    out = {"exts": []}
    order = []
    for e, lp, lf in p.effects():
        w = loc(e)
        if lp is not None:
            r.ok(False, w, "creation effects are not repeated in a loop")
            continue
        if e.kind == "write":
            order.append("write")
            continue
        if e.kind != "cpi":
            order.append("other")
            r.ok(False, w, "no account is handed to a library function whose effect is not known (%s)" % e.d.get("name"))
            continue
        n, a = ix(e)
        if n == "system::allocate" and p.eq(a[0], K(0)):
            out["alloc"] = (e, a)
            order.append("alloc")
        elif n == "system::assign" and p.eq(a[0], K(0)):
            out["assign"] = (e, a)
            order.append("assign")
        elif n == "system::allocate" and p.eq(a[0], K(1)):
            out["balloc"] = (e, a)
            order.append("balloc")
        elif n == "system::assign" and p.eq(a[0], K(1)):
            out["bassign"] = (e, a)
            order.append("bassign")
        elif n in EXT_OF:
            out["exts"].append((EXT_OF[n], e, a))
            order.append("ext")
        elif n in ("token::initialize_mint2", "token::initialize_mint"):
            out["init"] = (e, a)
            order.append("init")
        else:
            order.append("other:%s" % n)
            r.ok(False, w, "creation performs only allocation, assignment, extension and mint initialisation (found %s)" % n)
    out["order"] = order
    return out


LOSSLESS = ("ok_or", "ok_or_else", "ok", "from", "into", "as_ref", "as_deref", "copied", "cloned", "clone", "to_owned", "as_option", "try_from", "try_into", "borrow")


def carried_field(t, name, src):
    """the named field of the account's decoded data, at most converted or unwrapped on the way: a predicate over (term)"""
    t = strip(t)
    for _ in range(24):
        if t.op == "field" and t.a[1] == name:
            return from_data(t.a[0], src)
        if t.op in ("field", "payload", "as", "variant", "down") and isinstance(t.a[0], Term):
            if t.op == "field" and not (t.a[1] in ("0", 0, "value") or str(t.a[1]).isdigit()):
                return False
            t = t.a[0]
            continue
        if t.op == "app" and aname(t) in LOSSLESS and plain_args(t):
            t = plain_args(t)[0]
            continue
        return False
    return False


def freeze_ok(p, t, src):
    """the freeze authority passed on is the source's: present exactly when the source has one"""
    k = nullable_key(t)
    if k is None:
        return carried_field(t, "freeze_authority", src)
    if k[0] == "some":
        return carried_field(k[1], "freeze_authority", src)
    for kk, v in p.facts.eq.items():
        if kk.op == "discr" and v in ("Err", "None") and carried_field(kk.a[0], "freeze_authority", src):
            return True
    for kk, v in list(p.facts.bools.items()):
        s = strip(kk)
        if (v is False and aname(s) == "is_some" or v is True and aname(s) == "is_none") and carried_field(plain_args(s)[0], "freeze_authority", src):
            return True
    for kk, v in list(p.facts.eq.items()):
        s = strip(kk)
        if s.op == "field" and s.a[1] == "option" and carried_field(s.a[0], "freeze_authority", src) and isinstance(v, Term) and v.op in ("int", "bytes"):
            if v.op == "int" and v.a[0] == 0 or v.op == "bytes" and not any(v.a[0]):
                return True
    return False


def creation_common(p, r, sh):
    """what every flavour's creation does"""
    w = where(p)
    o = sh["order"]
    core = [x for x in o if x in ("alloc", "assign", "init")]
    r.ok(core == ["alloc", "assign", "init"], w, "the wrapped mint is allocated, assigned and then initialised, each once (found %s)" % o)
    if core != ["alloc", "assign", "init"]:
        return False
    ei = [i for i, x in enumerate(o) if x == "ext"]
    r.ok(all(o.index("assign") < i < o.index("init") for i in ei), w, "extensions are initialised after assignment and before the mint")
    e, a = sh["assign"]
    r.ok(p.eq(a[1], K(4)), loc(e), "the wrapped mint is handed to the wrapped token program")
    e, a = sh["alloc"]
    r.ok(funded(p, 0, a[1]), loc(e), "the wrapped mint must hold the rent-exempt minimum for the allocated size")
    e, a = sh["init"]
    r.ok(p.eq(a[0], K(4)) and p.eq(a[1], K(0)), loc(e), "the mint is initialised by the wrapped token program")
    r.ok(p.eq(a[2], auth_pda(K(0))), loc(e), "the mint authority is the pair's derived address")
    r.ok(field_of(strip(p.canon(a[4])), "decimals", 2) or field_of(strip(a[4]), "decimals", 2), loc(e), "decimals are the unwrapped mint's")
    for nm in ("alloc", "assign", "init"):
        e, a = sh[nm]
        r.ok(succeeded(p, e.d["res"]), loc(e), "creation succeeds only if this step succeeded")
        r.ok(any(p.eq(x, acct(0)) for x in accounts_of(e)), loc(e), "the step acts on the wrapped mint account")
    for x, e, a in sh["exts"]:
        r.ok(succeeded(p, e.d["res"]), loc(e), "creation succeeds only if this step succeeded")
        r.ok(p.eq(a[0], K(4)) and p.eq(a[1], K(0)), loc(e), "the extension is initialised on the wrapped mint under its token program")
    return True


def C07(P, r):
    seen = set()
    for p in need_paths(P, r, 0):
        if not creating(p):
            continue
        sh = creation_shape(p, r)
        if not creation_common(p, r, sh):
            continue
        e, a = sh["init"]
        r.ok(freeze_ok(p, a[3], 2), loc(e), "the freeze authority is the unwrapped mint's, present exactly when it has one")
        f = FactView(p.facts)
        exts = space_exts(sh["alloc"][1][1])
        if f.eq(K(4), T22):
            seen.add("t22")
            r.ok(exts is not None and sorted(exts) == ["ConfidentialTransferMint", "MetadataPointer"], loc(sh["alloc"][0]), "the account is sized for exactly the default extensions (found %s)" % exts)
            names = [x[0] for x in sh["exts"]]
            r.ok(sorted(names) == ["ConfidentialTransferMint", "MetadataPointer"], where(p), "exactly the default extensions are initialised (found %s)" % names)
            for x, e, a in sh["exts"]:
                if x == "ConfidentialTransferMint":
                    r.ok(nullable_key(a[2]) == ("none",), loc(e), "nobody can reconfigure confidential transfers")
                    r.ok(a[3] is TRUE, loc(e), "confidential transfers need no approval")
                    r.ok(nullable_key(a[4]) == ("none",), loc(e), "confidential transfers have no auditor")
                if x == "MetadataPointer":
                    k = nullable_key(a[2])
                    r.ok(k is not None and k[0] == "some" and p.eq(k[1], auth_pda(K(0))), loc(e), "the metadata pointer is governed by the derived authority")
                    k = nullable_key(a[3])
                    r.ok(k is not None and k[0] == "some" and p.eq(k[1], K(0)), loc(e), "the metadata pointer names the mint itself")
        elif f.ne(K(4), T22) or f.eq(K(4), SPL):
            seen.add("spl")
            r.ok(exts == [], loc(sh["alloc"][0]), "an SPL Token mint is sized as a bare mint")
            r.ok(not sh["exts"], where(p), "an SPL Token mint gets no extensions")
        else:
            r.ok(False, where(p), "the layout depends on the wrapped token program")
    r.ok(seen == {"t22", "spl"}, "process_create_mint", "mints can be created for both token programs (found %s)" % sorted(seen))


def dlen(i):
    return T("len", T("data", acct(i), None))


def known_len(p, i, facts=None):
    """'zero' | 'nonzero' | None for the data length of account i on entry"""
    fs = facts or p.facts
    z = set()
    for k, v in fs.eq.items():
        if strip(k) is dlen(i) and first_epoch(k):
            z.add("zero" if v is I(0) else "nonzero")
    for k, v in fs.ne.items():
        if strip(k) is dlen(i) and I(0) in v and first_epoch(k):
            z.add("nonzero")
    for k, (lo, hi) in fs.rng.items():
        if strip(k) is dlen(i) and first_epoch(k):
            if lo >= 1:
                z.add("nonzero")
            if hi == 0:
                z.add("zero")
    return z.pop() if len(z) == 1 else None


def first_epoch(t):
    return all(x.a[1] is T("ep", 0) for x in subterms(t) if x.op in ("data", "lamports"))


def idem(p):
    c = p.facts.const(mk_idx(INPUT, 1))
    return c.a[0] if c is not None and isinstance(c, Term) and c.op == "int" else None


def C08(P, r):
    kinds = set()
    for p in need_paths(P, r, 0):
        a, b = known_len(p, 0), known_len(p, 1)
        w = where(p, p.first_effect()) if creating(p) else "spl_token_wrap::processor::process_create_mint (success without creation)"
        if creating(p):
            kinds.add("create")
            fa = p.first_effect().facts
            r.ok(known_len(p, 0, fa) == "zero" and known_len(p, 1, fa) == "zero", w, "an account is created only when both the wrapped mint and the backpointer hold no data")
            n = [ix(e)[0] for e in p.cpis()]
            tg = [x for e in p.cpis() if ix(e)[0] == "system::assign" for x in (0, 1) if p.eq(ix(e)[1][0], K(x))]
            r.ok(sorted(tg) == [0, 1], w, "a successful creation creates both accounts")
        else:
            kinds.add("noop")
            r.ok(a == "nonzero" or b == "nonzero", w, "success without creating anything happens only when one of the accounts already holds data")
            r.ok(idem(p) == 1, w, "success without creating anything needs the idempotent flag")
            f = FactView(p.facts)
            r.ok(f.eq(owner(0), K(4)), w, "idempotent success requires the wrapped mint to belong to the wrapped token program")
            r.ok(f.eq(owner(1), PIDP), w, "idempotent success requires the backpointer to belong to this program")
    r.ok(kinds == {"create", "noop"}, "process_create_mint", "both creation and idempotent success exist (found %s)" % sorted(kinds))


def root_account(t):
    """account whose memory a written place belongs to, with the written sub-place"""
    x = t
    while True:
        if x.op == "data":
            return x.a[0]
        if x.op in ("pod", "podm"):
            x = x.a[-1]
            continue
        if x.op in ("field", "idx", "slice", "as", "sub", "upd", "updsub"):
            x = x.a[0]
            continue
        return None


def pod_type(t):
    for x in subterms(t):
        if x.op == "pod":
            ty = x.a[0]
            return str(ty.a[0][0] if ty.op == "ty" and isinstance(ty.a[0], tuple) else ty)
    return None


def whole_key_write(p, e, i, val, tyname, fld):
    """the write stores exactly val in the (single 32-byte) record of account i"""
    lv, v = e.d["lv"], e.d["val"]
    if root_account(lv) is not acct(i):
        return False
    l = strip(lv)
    names = {data(i), mk_slice(data(i), 0, 32)}
    base = l
    if base.op == "field" and base.a[1] == fld:
        base = base.a[0]
        if v.op == "adt":
            return False
    elif base.op == "pod":
        if v.op == "adt" and v.a[2] == (fld,):
            v = v.a[3][0]
    if base.op == "pod":
        t = pod_type(base)
        if t and not t.endswith(tyname):
            return False
        base = base.a[-1]
    if base not in names:
        return False
    return p.eq(v, val)


def C09(P, r):
    for p in need_paths(P, r, 0):
        if not creating(p):
            continue
        sh = creation_shape(p, r)
        w = where(p)
        o = [x for x in sh["order"] if x in ("balloc", "bassign", "write")]
        r.ok(o == ["balloc", "bassign", "write"], w, "the backpointer is allocated, assigned and then written, each once (found %s)" % o)
        if "balloc" in sh:
            e, a = sh["balloc"]
            r.ok(p.eq(a[1], I(32)), loc(e), "the backpointer has exactly the size of one address")
            r.ok(funded(p, 1, a[1]), loc(e), "the backpointer must be rent exempt")
            r.ok(succeeded(p, e.d["res"]), loc(e), "creation succeeds only if this step succeeded")
        if "bassign" in sh:
            e, a = sh["bassign"]
            r.ok(p.eq(a[1], PIDP), loc(e), "the backpointer is owned by this program")
            r.ok(succeeded(p, e.d["res"]), loc(e), "creation succeeds only if this step succeeded")
        ws = [e for e, lp, lf in p.effects() if e.kind == "write"]
        r.ok(len(ws) == 1 and whole_key_write(p, ws[0], 1, K(2), "Backpointer", "unwrapped_mint"), loc(ws[0]) if ws else w,
             "the backpointer stores the address of the unwrapped mint")
    # nothing else ever writes account data directly, except the canonical pointer of its own instruction
    n = 0
    for p in P.root.paths:
        for e, lp, lf in p.effects():
            if e.kind == "call":
                r.ok(False, loc(e), "no account is handed to a library function whose effect is not known (%s)" % e.d["name"])
            if e.kind != "write":
                continue
            n += 1
            ra = root_account(e.d["lv"])
            r.ok((p.op == 0 and ra is acct(1)) or (p.op == 6 and ra is acct(1)), loc(e), "no other instruction writes account data directly (%s)" % HANDLER.get(p.op, p.op))
    r.notes["direct_writes"] = n


# ------------------------------------------------------------------------------ C10

def fact_terms(p):
    """(term, truth) of every boolean the path decided, with enum facts as isvar"""
    for k, v in p.facts.bools.items():
        yield k, v


def C10(P, r):
    for p in need_paths(P, r, 3):
        e = p.first_effect()
        f = p.facts_at(e)
        w = where(p, e)
        eff = p.effects()
        r.ok(len(eff) == 1 and eff[0][1] is None and eff[0][0].kind == "cpi" and (token_ix(p, eff[0][0]) or {}).get("kind") == "close", w,
             "exactly one account is closed and nothing else happens")
        if not eff or eff[0][0].kind != "cpi":
            continue
        ev = eff[0][0]
        t = token_ix(p, ev)
        if not t or t["kind"] != "close":
            continue
        r.ok(f.eq(owner(0), T22) and f.eq(owner(2), T22), w, "the escrow and its mint are Token-2022 accounts")
        r.ok(f.eq(K(3), mint_pda(K(2), owner(3))), w, "the wrapped mint is the one derived from this unwrapped mint")
        r.ok(f.eq(K(4), auth_pda(K(3))), w, "the authority is derived from the wrapped mint")
        r.ok(f.eq(K(0), ata(K(4), K(2), T22)), w, "the escrow is the authority's associated token account")
        r.ok(any(field_of(strip(x), "owner", 0) for x in equal_terms(f, K(4))), w, "the escrow is owned by the authority")
        amt = state = False
        for k in list(f.f.eq) + list(f.f.rng):
            s = strip(k)
            if first_epoch(k) and f.is_zero(k) and any(x.op == "field" and x.a[1] == "amount" and from_data(x.a[0], 0) for x in subterms(s)) and not s.op == "discr":
                if transparent_amount(s):
                    amt = True
            if s.op == "field" and s.a[1] == "state" and from_data(s, 0) and f.f.eq.get(k) is I(1):
                state = True
            if s.op == "discr" and s.a[0].op == "field" and s.a[0].a[1] == "state" and from_data(s, 0) and f.f.eq[k] == "Initialized":
                state = True
        r.ok(amt, w, "the escrow holds zero tokens")
        r.ok(state, w, "the escrow is initialised and not frozen")
        mismatch(p, f, r, w)
        r.ok(p.eq(t["prog"], T22) and p.eq(t["src"], K(0)) and p.eq(t["dst"], K(1)) and p.eq(t["auth"], K(4)), loc(ev),
             "exactly the escrow is closed under the pair's authority, its lamports going to the named destination")
        r.ok(succeeded(p, ev.d["res"]), loc(ev), "success is reported only if the close succeeded")
    refused = 0
    for p, op, code in custom_failures(P):
        if op == 3 and code == 8:
            refused += 1
            r.ok(extensions_agree(compare_extensions(p)), "spl_token_wrap::processor (close stuck escrow)",
                 "an escrow is refused as being in a good state only when it has exactly the extensions its mint requires", key="refused as good")
    r.ok(refused > 0, "spl_token_wrap::processor (close stuck escrow)", "an escrow in a good state can be refused as such", key="never refused")


def custom_failures(P):
    """failing paths of the entry point that end in one of the program's own errors: (path, instruction byte, code)"""
    for s, v in P.root.err:
        v = P.root.it.freeze(s, v)
        pay = v.a[3][0] if v.op == "adt" and v.a[1] == "Err" and v.a[3] else None
        oc = s.facts.const(mk_idx(INPUT, 0))
        if pay is None or pay.op != "adt" or pay.a[1] != "Custom" or oc is None or oc.op != "int":
            continue
        yield Path(s, v), oc.a[0], pay.a[3][0].a[0] if pay.a[3][0].op == "int" else None


def transparent_amount(s):
    """the amount itself (possibly through a lossless conversion), not something computed from it"""
    while s.op == "app" and aname(s) in ("from", "into", "from_le") and len(plain_args(s)) == 1:
        s = plain_args(s)[0]
    return s.op == "field" and s.a[1] == "amount"


def contains_any(t, pred):
    return any(pred(x) for x in subterms(t))


def is_required(x):
    return x.op == "app" and "required" in appname(x) or x.op == "required_exts"


IMMUTABLE = "ImmutableOwner"


def compare_extensions(p):
    """what the path has established about the escrow's extensions and those its mint requires today"""
    def immutable(x):
        return x.op == "adt" and x.a[1] == IMMUTABLE and not x.a[3]

    def cur(t):
        t = strip(t)
        if t.op in ("setof", "set") and len(t.a) == 1:
            return cur(t.a[0])
        return t.op == "field" and t.a[1] == "0" and t.a[0].op == "as" and t.a[0].a[1] == "Ok" and aname(t.a[0].a[0]) == "get_extension_types" \
            and from_data(t, 0) and "PodAccount" in str(t.a[0].a[0].a[1]) + str(t)

    def base(t):
        """the extensions the mint's own extensions require (immutable owner not necessarily included)"""
        t = strip(t)
        return is_required(t) and contains_any(t, lambda x: x.op == "data" and x.a[0] is acct(2))

    def io_known(v):
        return any(k.op == "contains" and base(k.a[0]) and immutable(k.a[1]) and w is v for k, w in p.facts.bools.items())

    def opt_io(t):
        """immutable owner, added exactly when it is not already there"""
        if t.op != "opt" or len(t.a[0]) != 1:
            return False
        g = t.a[0][0]
        gk = g[0]
        absent = g[1] is B(False) and g[2] is True or g[1] is B(True) and g[2] is False
        q = t.a[1]
        return gk.op == "contains" and base(gk.a[0]) and immutable(gk.a[1]) and absent \
            and q.op == "seq" and len(q.a) == 1 and immutable(q.a[0])

    def req(t, dups_ok):
        t = strip(t)
        if t.op in ("setof", "set") and len(t.a) == 1:
            return req(t.a[0], True)
        if t.op == "setins" and len(t.a) == 2:
            return base(t.a[0]) and immutable(t.a[1])
        if base(t):
            return io_known(True)
        if t.op != "seq":
            return False
        nb = ni = 0
        for x in t.a:
            if x.op == "splat" and base(x.a[0]):
                nb += 1
            elif x.op == "splat" and opt_io(x.a[0]):
                ni += 1
            elif immutable(x):
                ni += 1
                if not (dups_ok or io_known(False)):
                    return False
            else:
                return False
        return nb == 1 and (ni == 1 or ni == 0 and io_known(True))

    def lens(t):
        if t.op == "add":
            return [y for x in t.a for y in lens(x)]
        return [t]

    def req_len(t):
        ts = lens(t)
        if len(ts) == 1 and ts[0].op == "len":
            return req(ts[0].a[0], False)
        b = [x for x in ts if x.op == "len" and base(x.a[0])]
        o = [x for x in ts if x not in b]
        if len(b) != 1 or len(o) != 1:
            return False
        return o[0].op == "len" and opt_io(o[0].a[0]) or o[0].op == "int" and o[0].a[0] == 1 and io_known(False)

    def cur_len(t):
        return t.op == "len" and cur(t.a[0])

    def learn(k, v):
        out = set()
        if k.op == "not":
            return learn(k.a[0], not v)
        if k.op in ("and", "or"):
            parts = [learn(x, v) for x in k.a]
            if v is (k.op == "and"):
                return set().union(*parts)
            # one of them: whichever it is shows a mismatch
            return {"one missing"} if all(x & MISMATCH for x in parts) else set()
        a = [x for x in k.a if isinstance(x, Term)]
        if k.op == "eq" and (cur_len(a[0]) and req_len(a[1]) or cur_len(a[1]) and req_len(a[0])):
            out.add("sizes agree" if v else "sizes differ")
        if k.op == "eq" and (cur(a[0]) and req(a[1], True) or cur(a[1]) and req(a[0], True)) and all(x.op in ("setof", "set", "setins") for x in map(strip, a)):
            out.add("same sets" if v else "different sets")
        if k.op == "lt" and v and (cur_len(a[0]) and req_len(a[1]) or cur_len(a[1]) and req_len(a[0])):
            out.add("sizes differ")
        if k.op == "forall":
            q, el, body = k.a
            if body.op == "contains" and body.a[1] is el:
                if req(q, True) and cur(body.a[0]):
                    out.add("none missing" if v else "one missing")
                if cur(q) and req(body.a[0], True):
                    out.add("none extra" if v else "one extra")
        if k.op == "contains" and v is False and cur(k.a[0]):
            x = k.a[1]
            if immutable(x) or x.op == "elem" and (req(x.a[1], True) or base(x.a[1])):
                out.add("one missing")
        if k.op == "contains" and v is False and req(k.a[0], True) and k.a[1].op == "elem" and cur(k.a[1].a[1]):
            out.add("one extra")
        return out

    out = set()
    for k, v in p.facts.bools.items():
        out |= learn(k, v)
    for e in p.evs:
        if e.kind != "loop":
            continue
        rec = e.d["rec"]
        if len(rec.seqs) != 1:
            continue
        q = rec.seqs[0]
        el = T("elem", rec.lid, q)

        def every(test):
            return bool(rec.outs) and all(any(k.op == "contains" and k.a[1] is el and test(k.a[0]) and v is True for k, v in fo.bools.items()) for fo, _, _ in rec.outs)
        if req(q, True) and every(cur):
            out.add("none missing")
        if cur(q) and every(lambda t: req(t, True)):
            out.add("none extra")
    return out


MISMATCH = {"sizes differ", "different sets", "one missing", "one extra"}


def extensions_differ(found):
    return bool(found & MISMATCH)


def extensions_agree(found):
    return "same sets" in found or len(found & {"none missing", "none extra", "sizes agree"}) >= 2


def mismatch(p, f, r, w):
    """close only when the escrow's extensions differ from the required ones (which include ImmutableOwner)"""
    found = compare_extensions(p)
    how = next(iter(sorted(found & MISMATCH)), None)
    r.notes.setdefault("mismatch_evidence", [])
    if how and how not in r.notes["mismatch_evidence"]:
        r.notes["mismatch_evidence"].append(how)
    r.ok(how is not None, w, "the escrow's extensions differ from those its mint requires today")
