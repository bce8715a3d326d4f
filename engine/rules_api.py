"""Rules C17-C24: codec, dispatch, builders, addresses, errors, flavours, failures."""
from rules_prog import *
import rules_prog as RP
import extract

TWI = "spl_token_wrap::instruction::TokenWrapInstruction"
TWE = "spl_token_wrap::error::TokenWrapError"

# published instruction set: code, total encoded length, parameter
CODES = {
    "CreateMint": (0, 2, "idempotent"),
    "Wrap": (1, 9, "amount"),
    "Unwrap": (2, 9, "amount"),
    "CloseStuckEscrow": (3, 1, None),
    "SyncMetadataToToken2022": (4, 1, None),
    "SyncMetadataToSplToken": (5, 1, None),
    "SetCanonicalPointer": (6, 33, "program_id"),
}


def unwrap_adt(t, variant):
    """payload of Ok{0: x}"""
    if t.op == "adt" and t.a[1] == variant and len(t.a[3]) == 1:
        return t.a[3][0]
    return None


def fields(t):
    return dict(zip(t.a[2], t.a[3])) if t.op == "adt" else {}


def assume_all(facts, conds):
    """facts extended by boolean terms, or None when contradictory"""
    f = facts.copy()
    for c, b in conds:
        if not f.assume(c, b):
            return None
    # a second round: the first facts may decide the others
    for c, b in conds:
        if f.truth(c) is (not b):
            return None
    return f


def bytes_at(p, t, src, lo, hi):
    """the term is the bytes lo..hi of src, whose length is known to be hi when the term is open-ended"""
    if t is mk_slice(src, lo, hi):
        return True
    if t is mk_slice(src, lo, None):
        r = p.facts.range(mk_len(src))
        return r == (hi, hi)
    if t.op == "seq":
        if len(t.a) == 1 and t.a[0].op == "splat":
            return bytes_at(p, t.a[0].a[0], src, lo, hi)
        return list(t.a) == [mk_idx(src, lo + i) for i in range(hi - lo)]
    if t.op == "app" and aname(t) in ("from", "into", "new_from_array", "to_bytes", "as_ref", "try_into", "try_from") and len(plain_args(t)) == 1:
        return bytes_at(p, plain_args(t)[0], src, lo, hi)
    if t.op == "adt" and len(t.a[3]) == 1:
        return bytes_at(p, t.a[3][0], src, lo, hi)
    return False


def bool_term_is(p, t, want_cond, under=()):
    """the boolean term (or constant on this path) always equals the condition"""
    for b in (True, False):
        f = assume_all(p.facts, list(under) + [(want_cond, b)])
        if f is None:
            continue
        x = t
        if x.op == "cast":
            x = x.a[1]
        if x.op == "int":
            x = T("bool", x.a[0] == 1)
        if x.op in ("ite",) and len(x.a) == 3:
            c = f.truth(x.a[0])
            x = x.a[1] if c is True else x.a[2] if c is False else x
            if x.op == "int":
                x = T("bool", x.a[0] == 1)
        r = x.a[0] if x.op == "bool" else f.truth(x)
        if r is not b:
            return False
    return True


# ------------------------------------------------------------------------------------- C17

def valid_shape(src, name, flag=None):
    code, n, par = CODES[name]
    cs = [(mk_eq(mk_len(src), I(n)), True), (mk_eq(mk_idx(src, 0), I(code)), True)]
    if par == "idempotent":
        cs.append((mk_eq(mk_idx(src, 1), I(flag)), True))
    return cs


def shapes(src):
    out = []
    for n, (c, l, par) in CODES.items():
        if par == "idempotent":
            out += [(n, 0, valid_shape(src, n, 0)), (n, 1, valid_shape(src, n, 1))]
        else:
            out.append((n, None, valid_shape(src, n)))
    return out


def C17(ctx, rep):
    src = T("param", "input")
    r = ctx.fn(TWI + "::unpack", [src])
    w = TWI + "::unpack"
    variants = [n for n, d in ctx.lib.variants.get(TWI, ())]
    rep.ok(set(variants) == set(CODES), w, "the instruction set is the published one: %s" % ", ".join(CODES))
    seen = {}
    for s, v in r.ok:
        p = Path(s, v)
        ins = unwrap_adt(v, "Ok")
        if ins is None or ins.op != "adt" or ins.a[1] not in CODES:
            rep.ok(False, w, "a successfully decoded value is one of the published instructions", key="decoded value")
            continue
        n = ins.a[1]
        code, ln, par = CODES[n]
        fl = fields(ins)
        c = p.facts.const(mk_idx(src, 0))
        rep.ok(c is not None and c.op == "int" and c.a[0] == code, w, "%s is decoded only from code %d" % (n, code))
        rep.ok(p.facts.range(mk_len(src)) == (ln, ln), w, "%s is decoded only from exactly %d bytes" % (n, ln))
        if par is None:
            rep.ok(not fl, w, "%s has no parameter" % n)
            seen.setdefault(n, set()).add(None)
        elif par == "idempotent":
            b = fl.get("idempotent")
            b1 = mk_idx(src, 1)
            lo, hi = p.facts.range(b1)
            k = p.facts.const(b1)
            good = False
            if b is not None and k is not None and k.op == "int" and k.a[0] in (0, 1):
                bb = b.a[0] if b.op == "bool" else p.facts.truth(b)
                good = bb is (k.a[0] == 1)
                seen.setdefault(n, set()).add(k.a[0])
            elif b is not None and hi is not None and hi <= 1:
                good = bool_term_is(p, b, mk_eq(b1, I(1)))
                seen.setdefault(n, set()).update((0, 1))
            rep.ok(good, w, "CreateMint's flag is decoded from the byte values 0 (false) and 1 (true) only")
        elif par == "amount":
            a = fl.get("amount")
            ca = p.canon(a) if a is not None else None
            good = any(x is not None and x.op == "app" and x.a[0] == "from_le" and (len(x.a) < 3 or "u64" in str(tyargs(x)) or not tyargs(x))
                       and bytes_at(p, plain_args(x)[0], src, 1, 9) for x in (a, ca))
            rep.ok(good, w, "%s's amount is the little-endian number in bytes 1..9" % n)
            seen.setdefault(n, set()).add(None)
        else:
            a = fl.get("program_id")
            rep.ok(a is not None and (bytes_at(p, a, src, 1, 33) or bytes_at(p, p.canon(a), src, 1, 33)), w, "%s's key is the bytes 1..33" % n)
            seen.setdefault(n, set()).add(None)
    for n, flag, cs in shapes(src):
        rep.ok(flag in seen.get(n, ()), w, "the encoding of %s%s is accepted" % (n, "" if flag is None else " with flag %d" % flag))
    for s, v in r.err:
        v = r.it.freeze(s, v)
        if v.op != "adt":
            rep.ok(False, w, "decoding fails with a known error", key="decode error value")
            continue
        e = unwrap_adt(v, "Err")
        rep.ok(e is not None and e.op == "adt" and e.a[1] == "InvalidInstructionData", w, "undecodable input is answered with InvalidInstructionData")
        for n, flag, cs in shapes(src):
            rep.ok(assume_all(s.facts, cs) is None, w, "no encoding of %s%s is refused" % (n, "" if flag is None else " with flag %d" % flag))
    rep.ok(len(r.err) > 0, w, "decoding can refuse input")
    rep.ok(not r.it.panics, w, "decoding cannot panic%s" % "".join(": " + str(l) for _, l, _ in r.it.panics[:1]), key="decode panics")
    # encoding
    w = TWI + "::pack"
    me = T("param", "self")
    r = ctx.fn(w, [me])
    seen = {}
    for s, v in r.res:
        v = r.it.freeze(s, v)
        p = Path(s, v)
        n = FactView(s.facts).variant(me)
        if n not in CODES:
            rep.ok(False, w, "encoding distinguishes the instruction", key="encoding variant")
            continue
        code, ln, par = CODES[n]
        items = flat_bytes(p, v)
        me_n = mk_as(me, n)
        if par is None:
            rep.ok(items == [I(code)], w, "%s encodes as the single byte %d" % (n, code))
            seen.setdefault(n, set()).add(None)
            continue
        fld = mk_field(me_n, par)
        if par == "idempotent":
            good = items is not None and len(items) == 2 and items[0] is I(code) and bool_term_is(p, items[1], fld)
            for b in (True, False):
                if assume_all(s.facts, [(fld, b)]) is not None:
                    seen.setdefault(n, set()).add(int(b))
            rep.ok(good, w, "CreateMint encodes as its code and its flag as 0 or 1")
        else:
            body = app("le", fld) if par == "amount" else fld
            good = items is not None and len(items) == 2 and items[0] is I(code) and items[1].op == "splat" and same_bytes(items[1].a[0], body)
            rep.ok(good, w, "%s encodes as its code and its %s in the fixed layout" % (n, par))
            seen.setdefault(n, set()).add(None)
    for n, flag, cs in shapes(src):
        rep.ok(flag in seen.get(n, ()), w, "%s%s can be encoded" % (n, "" if flag is None else " with flag %d" % flag))
    rep.ok(not r.it.panics, w, "encoding cannot panic", key="encode panics")


def same_bytes(a, b):
    if a is b:
        return True
    if a.op == "app" and aname(a) in ("to_bytes", "as_ref", "to_vec", "as_array", "bytes_of", "to_owned"):
        return same_bytes(plain_args(a)[0], b)
    if a.op == "seq" and len(a.a) == 1 and a.a[0].op == "splat":
        return same_bytes(a.a[0].a[0], b)
    if a.op == "app" and a.a[0] == "le" and b.op == "app" and b.a[0] == "le":
        return same_bytes(plain_args(a)[0], plain_args(b)[0])
    return False


def flat_bytes(p, v):
    if v.op == "bytes":
        return [I(x) for x in v.a[0]]
    if v.op != "seq":
        return None
    out = []
    for x in v.a:
        if x.op == "splat" and x.a[0].op in ("seq", "bytes"):
            y = flat_bytes(p, x.a[0])
            if y is None:
                return None
            out += y
        elif x.op == "opt":
            return None
        else:
            out.append(x)
    return out


# ------------------------------------------------------------------------------------- C18

OPNAMES = {0: "create-mint", 1: "wrap", 2: "unwrap", 3: "close-stuck-escrow", 4: "sync-to-token-2022", 5: "sync-to-spl-token", 6: "set-canonical-pointer"}


def marks(p):
    """which operations the effects of the path belong to"""
    out = set()
    for e, l, f in p.effects():
        if e.kind == "cpi":
            n, a = ix(e)
            last = n.split("::")[-1]
            if last in ("initialize_mint2", "initialize_mint") or n.startswith("ext::"):
                out.add(0)
            elif last.startswith("transfer_checked") or n == "token::transfer":
                out.add("move")
            elif last == "mint_to" or last == "mint_to_checked":
                out.add(1)
            elif last in ("burn", "burn_checked"):
                out.add(2)
            elif last == "close_account":
                out.add(3)
            elif n.startswith("metadata::") and last != "emit":
                out.add(4)
            elif n.startswith("mpl::"):
                out.add(5)
        elif e.kind == "write":
            lv = e.d["lv"]
            for x in subterms(lv):
                if x.op == "idx" and x.a[0] is ACCTS and isinstance(x.a[1], Term) and x.a[1].op == "int":
                    out.add(("w", x.a[1].a[0]))
    return out


def parameters(p, code, rep, w, name):
    """the operation acts on the decoded parameters, on the given accounts and under the given program id"""
    for e, l, f in p.effects():
        if e.kind != "cpi":
            continue
        n, a = ix(e)
        last = n.split("::")[-1]
        if code == 1 and last.startswith("transfer_checked") or code == 2 and last in ("burn", "burn_checked"):
            amts = [x for x in a if amt_is(p, x, amount_term(p))]
            rep.ok(bool(amts), e.loc, "the %s moves the decoded amount" % name, key="amount of %s" % name)
        if code in (0, 6) and n == "system::assign" and not p.eq(a[0], K(0)):
            rep.ok(p.eq(a[1], PIDP), e.loc, "accounts of the program are assigned to the executing program id", key="assign %d" % code)
    if code == 0 and not marks(p) & {0}:
        rep.ok(idem(p) == 1, w, "create-mint accepts existing accounts only when the decoded flag is set", key="flag")
        rep.ok(FactView(p.facts).eq(owner(1), PIDP), w, "an existing backpointer is compared with the executing program id", key="owner")
    if code == 0 and RP.creating(p):
        ext = {ix(e)[0] for e, l, f in p.effects() if e.kind == "cpi" and str(ix(e)[0]).startswith("ext::")}
        f = FactView(p.facts)
        if f.eq(K(4), T22) or ext:
            got = {n.split("::")[1] for n in ext}
            rep.ok(got == {"confidential_transfer", "metadata_pointer"}, w, "wrapped mints are created with the default flavour", key="flavour")
    if code == 6:
        ws = [e for e, l, f in p.effects() if e.kind == "write"]
        good = [e for e in ws if any(whole_key_write(p, e, 1, v, "CanonicalDeploymentPointer", "program_id") for v in (mk_slice(INPUT, 1, None), mk_slice(INPUT, 1, 33)))]
        rep.ok(len(ws) == len(good) == 1, ws[0].loc if ws else w, "the pointer records the decoded program id", key="pointer value")
    for x in all_terms(p):
        if x.op == "slice" and x.a[0] is ACCTS:
            end = x.a[2]
            full = end is None or end is mk_len(ACCTS)
            rep.ok(full or end.op == "int" and end.a[0] <= 9, w, "%s receives every given account" % name, key="accounts of %s" % name)


def C18(ctx, rep):
    r = ctx.root
    w = "spl_token_wrap::processor::process_instruction"
    ops = {}
    for p in r.paths:
        rep.ok(p.op in OPNAMES, w, "success is only reported for a known instruction code", key="success with unknown code")
        if p.op not in OPNAMES:
            continue
        ops.setdefault(p.op, []).append(p)
        code = p.op
        name = [n for n, c in CODES.items() if c[0] == code][0]
        rep.ok(p.facts.range(mk_len(INPUT)) == (CODES[name][1], CODES[name][1]), w, "%s runs only on its exact encoding" % OPNAMES[code])
    for code, name in OPNAMES.items():
        ps = ops.get(code, [])
        rep.ok(bool(ps), w, "code %d is executed as %s" % (code, name), key="code %d runs" % code)
        allm = set()
        for p in ps:
            m = marks(p)
            allm |= m
            own = {0: {0}, 1: {1, "move"}, 2: {2, "move"}, 3: {3}, 4: {4}, 5: {5}, 6: set()}[code]
            foreign = {x for x in m if not isinstance(x, tuple)} - own
            rep.ok(not foreign, w, "code %d performs no part of another operation" % code, key="code %d foreign effects" % code)
            must = {1: {1, "move"}, 2: {2, "move"}, 3: {3}, 5: {5}}.get(code, set())
            rep.ok(must <= m, w, "a succeeding %s performed its operation" % name)
            if code == 6:
                rep.ok(any(isinstance(x, tuple) for x in m), w, "a succeeding %s recorded the pointer" % name)
        if code in (0, 4):
            rep.ok(code in allm, w, "%s can perform its operation" % name)
        for p in ps:
            parameters(p, code, rep, w, name)
    # every decodable instruction is executed rather than refused by the dispatcher; the operation's own error is returned as it is
    for s, v in r.err:
        v = r.it.freeze(s, v)
        p = Path(s, v)
        failed = None
        for e in s.events():
            if e.kind == "cpi" and s.facts.eq.get(T("discr", e.d["res"])) == "Err":
                failed = e
        if v.op != "adt":
            continue
        pay = unwrap_adt(v, "Err")
        if pay is None:
            continue
        if failed is not None:
            rep.ok(pay is mk_field(mk_as(failed.d["res"], "Err"), "0"), failed.loc, "the error of a failed inner call is returned unchanged")
        op = s.facts.const(mk_idx(INPUT, 0))
        undec = op is None or op.op != "int" or op.a[0] not in OPNAMES
        if undec or (pay.op == "adt" and pay.a[1] == "InvalidInstructionData"):
            rep.ok(not p.effects(), w, "undecodable input has no effect")
        if pay.op == "adt" and pay.a[1] == "InvalidInstructionData":
            for n, flag, cs in shapes(INPUT):
                rep.ok(assume_all(s.facts, cs) is None, w, "a decodable %s is executed" % n)
        if undec:
            rep.ok(pay.op == "adt" and pay.a[1] == "InvalidInstructionData", w, "undecodable input is answered with InvalidInstructionData")
    # deployed entry point
    sbf = interp.Program(ctx.files["libsbf"])
    cand = sbf.find("spl_token_wrap::entrypoint::entrypoint")
    if not cand:
        raise MissingAnchor("the exported entry point of the deployed program")

    def dispatch(it, st, c, a):
        return [(st, T("app", "DISPATCH", *[it.freeze(st, x) for x in a]))]
    rr = ctx.run(cand[0], [T("param", "raw")], {"spl_token_wrap::processor::process_instruction": dispatch}, sbf)
    w = "spl_token_wrap::entrypoint::entrypoint"
    kinds = set()
    for s, v in rr.res:
        v = rr.it.freeze(s, v)
        ds = {x for d in (s.facts.eq,) for k in d for x in subterms(k) if x.op == "app" and x.a[0] == "DISPATCH"}
        ds |= {x for x in subterms(v) if x.op == "app" and x.a[0] == "DISPATCH"}
        rep.ok(len(ds) == 1, w, "the entry point runs the dispatcher exactly once")
        if len(ds) != 1:
            continue
        d = ds.pop()
        a = d.a[1:]
        good = len(a) == 3 and all(x.op == "field" and x.a[1] == str(i) and x.a[0] is a[0].a[0] and aname(x.a[0]) == "deserialize" for i, x in enumerate(a))
        rep.ok(good, w, "the dispatcher receives the runtime's program id, accounts and data")
        k = FactView(s.facts).variant(d)
        kinds.add(k)
        if k == "Ok":
            rep.ok(v is I(0), w, "success of the dispatcher is reported as 0")
        elif k == "Err":
            e = mk_field(mk_as(d, "Err"), "0")
            rep.ok(v.op == "app" and aname(v) in ("from", "into") and plain_args(v)[-1] is e, w, "the dispatcher's error is reported as its own code")
        else:
            rep.ok(False, w, "the dispatcher's outcome decides what is reported", key="entry outcome")
    rep.ok(kinds == {"Ok", "Err"}, w, "the entry point reports both outcomes")


# ------------------------------------------------------------------------------------- C19

KT22 = "TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb"
KSYS = "11111111111111111111111111111111"
KMPL = "metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s"
KRENT = "SysvarRent111111111111111111111111111111111"

# builder -> (instruction, account table: (argument index | key, writable, signer), multisig argument, optional arguments, parameter)
BUILDERS = {
    "create_mint": ("CreateMint", [(1, 1, 0), (2, 1, 0), (3, 0, 0), (KSYS, 0, 0), (4, 0, 0)], None, (), 5),
    "wrap": ("Wrap", [(1, 1, 0), (2, 1, 0), (3, 0, 0), (4, 0, 0), (5, 0, 0), (6, 1, 0), (7, 0, 0), (8, 1, 0), (9, 0, "single")], 10, (), 11),
    "unwrap": ("Unwrap", [(1, 1, 0), (2, 1, 0), (3, 0, 0), (4, 0, 0), (5, 0, 0), (6, 0, 0), (7, 1, 0), (8, 1, 0), (9, 0, "single")], 10, (), 11),
    "close_stuck_escrow": ("CloseStuckEscrow", [(1, 1, 0), (2, 1, 0), (3, 0, 0), (4, 0, 0), (5, 0, 0), (KT22, 0, 0)], None, (), None),
    "sync_metadata_to_token_2022": ("SyncMetadataToToken2022", [(1, 1, 0), (2, 0, 0), (3, 0, 0), (KT22, 0, 0)], None, (4, 5), None),
    "sync_metadata_to_spl_token": ("SyncMetadataToSplToken", [(1, 1, 0), (2, 1, 0), (3, 0, 0), (4, 0, 0), (KMPL, 0, 0), (KSYS, 0, 0), (KRENT, 0, 0)], None, (5, 6), None),
    "set_canonical_pointer": ("SetCanonicalPointer", [(1, 0, 1), (2, 1, 0), (3, 0, 0), (KSYS, 0, 0)], None, (), 4),
}
ARGC = {"create_mint": 6, "wrap": 12, "unwrap": 12, "close_stuck_escrow": 6, "sync_metadata_to_token_2022": 6, "sync_metadata_to_spl_token": 7,
        "set_canonical_pointer": 5}


def meta(t):
    """(key, signer term, writable)"""
    if t.op == "app" and aname(t) in ("new", "new_readonly") and "AccountMeta" in t.a[0]:
        k, s = plain_args(t)
        return k, s, aname(t) == "new"
    if t.op == "adt" and t.a[0].endswith("AccountMeta"):
        f = fields(t)
        wr = f.get("is_writable")
        if wr is not None and wr.op == "bool":
            return f.get("pubkey"), f.get("is_signer"), wr.a[0]
    return None


def resolve(facts, t):
    """items of a sequence once the guards are decided by the facts; None when one is not"""
    if t.op != "seq":
        return [T("splat", t)]
    fv = FactView(facts)
    out = []
    for x in t.a:
        if x.op == "splat" and x.a[0].op == "seq":
            r = resolve(facts, x.a[0])
            if r is None:
                return None
            out += r
            continue
        y = x.a[0] if x.op == "splat" else x
        if y.op == "opt" and y.a[1].op == "seq" and empty_otherwise(y.a[0], y.a[1].a):
            out += y.a[1].a      # `if !s.is_empty() { each of s }`: there is nothing to leave out
            continue
        if y.op == "opt":
            v = guard_value(fv, y.a[0])
            if v is None:
                return None
            if v:
                r = resolve(facts, y.a[1])
                if r is None:
                    return None
                out += r
            continue
        out.append(x)
    return out


def empty_otherwise(guards, items):
    """the guard only asks whether the sequence all the items come from has any"""
    src = set()
    for x in items:
        m = x.a[0] if x.op == "splat" else x
        if m.op != "mapseq":
            return False
        src.add(mk_len(m.a[1]))
    return len(src) == 1 and len(guards) == 1 and nonzero(guards[0], src)


def nonzero(g, src):
    k, v, pol = g
    if k in src:
        return v is I(0) and pol is False or v == 0 and pol is False
    if k.op == "eq" and I(0) in k.a:
        return (v is TRUE or v is True) is not bool(pol)
    return False


def guard_value(fv, guards):
    """conjunction of (term, value, polarity)"""
    res = True
    for g in guards:
        k, val, pol = g
        if isinstance(val, str) and k.op == "discr":
            v = fv.variant(k.a[0])
            if v is None:
                return None
            b = (v == val)
        elif isinstance(val, Term):
            if val.op == "bool":
                t = fv.true(k)
                if t is None:
                    return None
                b = (t is val.a[0])
            else:
                c = fv.f.const(k)
                if c is None:
                    return None
                b = c is val
        else:
            t = fv.true(k)
            if t is None:
                return None
            b = (t is bool(val))
        if bool(b) is not bool(pol):
            res = False
    return res


def instr_parts(t):
    if t.op == "app" and aname(t) == "new_with_bytes" and len(plain_args(t)) == 3:
        a = plain_args(t)
        return a[0], a[2], a[1]
    if t.op == "adt" and t.a[0].endswith("Instruction"):
        f = fields(t)
        return f.get("program_id"), f.get("accounts"), f.get("data")
    return None


def expected_data(p, name, par):
    code, n, what = CODES[name]
    return code, what


def check_builder(ctx, rep, fn):
    name, table, ms, opts, par = BUILDERS[fn]
    path = "spl_token_wrap::instruction::" + fn
    P = [T("param", "b%d" % i) for i in range(ARGC[fn])]
    r = ctx.fn(path, P)
    w = path
    rep.ok(not r.it.panics, w, "the builder cannot panic")
    combos = [()]
    for o in opts:
        combos = [c + ((o, v),) for c in combos for v in ("Some", "None")]
    covered = set()
    lens = []
    for s, v in r.res:
        v = r.it.freeze(s, v)
        p0 = Path(s, v)
        for combo in combos:
            f = s.facts.copy()
            if not all(f.assume_variant(P[o], var) for o, var in combo):
                continue
            s2 = s.copy()
            s2.facts = f
            p = Path(s2, v)
            covered.add(combo)
            parts = instr_parts(v)
            if parts is None:
                rep.ok(False, w, "the builder's instruction is known", key="instruction")
                continue
            pid, accs, dat = parts
            rep.ok(pid is P[0], w, "the instruction addresses the program it is built for")
            items = resolve(f, accs)
            if items is None:
                rep.ok(False, w, "the accounts listed depend only on the arguments given", key="guards")
                continue
            exp = list(table) + [(o, 0, 0) for o, var in combo if var == "Some"]
            head, tail = items[:len(exp)], items[len(exp):]
            lens.append((len(exp), bool(ms)))
            rep.ok(len(head) == len(exp), w, "every account is listed", key="account count")
            for i, (e, it_) in enumerate(zip(exp, head)):
                m = meta(it_)
                if m is None:
                    rep.ok(False, w, "account %d is a known account" % i, key="account %d" % i)
                    continue
                k, sg, wr = m
                src, ewr, esg = e
                if isinstance(src, str):
                    want = bytes_(b58dec(src))
                elif src in opts:
                    want = mk_field(mk_as(P[src], "Some"), "0")
                else:
                    want = P[src]
                nm = "argument %s" % src if not isinstance(src, str) else src
                rep.ok(k is want, w, "account %d is %s" % (i, nm))
                rep.ok(wr is bool(ewr), w, "account %d is %s" % (i, "writable" if ewr else "read-only"))
                if esg == "single":
                    rep.ok(bool_term_is(p, sg, mk_eq(mk_len(P[ms]), I(0))), w, "the authority signs exactly when there are no multisig signers")
                else:
                    rep.ok(sg.op == "bool" and sg.a[0] is bool(esg), w, "account %d %s" % (i, "signs" if esg else "is no signer"))
            if ms is None:
                rep.ok(not tail, w, "nothing else is listed")
            else:
                S = P[ms]
                empty = f.range(mk_len(S)) == (0, 0)
                good = not tail and empty
                if len(tail) == 1:
                    x = tail[0].a[0] if tail[0].op == "splat" else tail[0]
                    if x.op == "mapseq" and x.a[1] is S:
                        m = meta(x.a[2])
                        el = T("elem", x.a[0], S)
                        good = m is not None and m[0] is el and m[1] is TRUE and m[2] is False
                rep.ok(good, w, "every multisig signer follows, in order, as read-only signer")
            code, ln, what = CODES[name]
            items = flat_bytes(p, dat)
            if what is None:
                good = items == [I(code)]
            elif what == "idempotent":
                good = items is not None and len(items) == 2 and items[0] is I(code) and bool_term_is(p, items[1], P[par])
            else:
                body = app("le", P[par]) if what == "amount" else P[par]
                good = items is not None and len(items) == 2 and items[0] is I(code) and items[1].op == "splat" and same_bytes(items[1].a[0], body)
            rep.ok(good, w, "the data is the encoding of %s with the given parameter" % name)
    rep.ok(set(combos) <= covered, w, "every combination of optional arguments builds an instruction")
    return lens


WRITABLE_ARGS = {  # inner instruction -> positions of the accounts it modifies
    "system::transfer": (0, 1), "system::allocate": (0,), "system::assign": (0,), "system::create_account": (0, 1),
}


def touched(p):
    """indices of the accounts the path's direct writes modify, and of those inner calls mark writable"""
    out = set()
    for e, l, f in p.effects():
        if e.kind == "write":
            for x in subterms(e.d["lv"]):
                if x.op == "idx" and x.a[0] is ACCTS and x.a[1].op == "int":
                    out.add(x.a[1].a[0])
        else:
            n, a = ix(e)
            last = n.split("::")[-1]
            wr = RP.WRITES.get(last) if hasattr(RP, "WRITES") else None
            pos = {"transfer_checked": (1, 3), "transfer_checked_with_fee": (1, 3), "mint_to": (1, 2), "burn": (1, 2), "close_account": (1, 2),
                   "initialize_mint2": (1,), "initialize": (1,), "update_field": (1,), "remove_key": (1,), "update_authority": (1,)}.get(last)
            if n.startswith("system::"):
                pos = {"transfer": (0, 1), "allocate": (0,), "assign": (0,)}.get(last)
            for k in pos or ():
                if k < len(a):
                    for i in range(0, 12):
                        if p.eq(a[k], K(i)):
                            out.add(i)
                            break
    return out


def C19(ctx, rep):
    table_len = {}
    for fn in BUILDERS:
        lens = check_builder(ctx, rep, fn)
        code = CODES[BUILDERS[fn][0]][0]
        table_len[code] = (max(n for n, _ in lens) if lens else 0, BUILDERS[fn][2] is not None, BUILDERS[fn][1])
    # the processor reads no account the builder does not list, and modifies only accounts listed as writable
    for code, (n, open_, table) in table_len.items():
        w = "spl_token_wrap::processor (%s)" % OPNAMES[code]
        for p in ctx.paths(code):
            used = set()
            for t in all_terms(p):
                if t.op == "idx" and t.a[0] is ACCTS and isinstance(t.a[1], Term) and t.a[1].op == "int":
                    used.add(t.a[1].a[0])
            over = {i for i in used if i >= n}
            rep.ok(not over or open_, w, "the processor reads only accounts its builder lists", key="reads beyond builder %s" % code)
            for i in sorted(touched(p)):
                rep.ok(i < len(table) and bool(table[i][1]), w, "account %d, which the processor modifies, is listed writable" % i)
            sg = {t.a[0].a[1].a[0] for t in p.facts.bools if t.op == "field" and t.a[1] == "is_signer" and p.facts.bools[t] is True
                  and t.a[0].op == "idx" and t.a[0].a[1].op == "int"}
            for i in sorted(sg):
                rep.ok(i < len(table) and bool(table[i][2]), w, "account %d, whose signature the processor requires, is listed as signer" % i)


# ------------------------------------------------------------------------------------- C20

def C20(ctx, rep):
    u, tp, wp, m, pr = (T("param", x) for x in ("unwrapped", "unwrapped_program", "wrapped_program", "mint", "program"))
    crate = "spl_token_wrap::"

    def mint(u_, tp_, g):
        return pda([sb("mint"), u_, tp_], g)

    def aut(m_, g):
        return pda([sb("authority"), m_], g)
    table = {
        "get_wrapped_mint_address": ([u, wp], mint(u, wp, PID)),
        "get_wrapped_mint_address_for_program": ([u, wp, pr], mint(u, wp, pr)),
        "get_wrapped_mint_authority": ([m], aut(m, PID)),
        "get_wrapped_mint_authority_for_program": ([m, pr], aut(m, pr)),
        "get_wrapped_mint_backpointer_address": ([m], pda([sb("backpointer"), m], PID)),
        "get_wrapped_mint_backpointer_address_for_program": ([m, pr], pda([sb("backpointer"), m], pr)),
        "get_escrow_address": ([u, tp, wp], ata(aut(mint(u, wp, PID), PID), u, tp)),
        "get_escrow_address_for_program": ([u, tp, wp, pr], ata(aut(mint(u, wp, pr), pr), u, tp)),
        "get_canonical_pointer_address": ([u], pda([sb("canonical_pointer"), u], PID)),
        "get_canonical_pointer_address_for_program": ([u, pr], pda([sb("canonical_pointer"), u], pr)),
    }
    schemes = {}
    for fn, (args, want) in table.items():
        r = ctx.fn(crate + fn, args)
        rep.ok(len(r.res) >= 1, crate + fn, "the helper answers")
        for s, v in r.res:
            v = r.it.freeze(s, v)
            c = Canon(s.facts, [(PIDP, PID)])
            rep.ok(c(v) is c(want), crate + fn, "the address is derived with the published seeds from the published inputs")
            for x in subterms(c(v)):
                if x.op == "pda":
                    sd = x.a[0]
                    if sd.op == "seq" and sd.a:
                        f0 = sd.a[0]
                        lead = f0.a[0] if f0.op in ("bytes", "str") else None
                        if isinstance(lead, str):
                            lead = lead.encode()
                        n = sum(len(y.a[0]) if y.op in ("bytes", "str") else 32 for y in sd.a)
                        if lead is not None:
                            schemes[lead] = n
        rep.ok(not r.it.panics, crate + fn, "deriving an address cannot panic")
    # two schemes collide only if one concatenated seed string can equal another's
    w = crate + "get_*_address"
    rep.ok(len(schemes) == 4, w, "there are four seed schemes", key="schemes")
    ks = sorted(schemes)
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            k = min(len(a), len(b))
            rep.ok(schemes[a] != schemes[b] or a[:k] != b[:k], w, "the seed inputs of %s and %s can never be equal" % (a.decode(), b.decode()))
    # the processor's own derivations: every derived address a succeeding path relies on comes from one of the schemes
    for p in ctx.root.paths:
        for x in all_terms(p):
            if x.op == "pda":
                c = p.canon(x)
                sd = c.a[0]
                ok = sd.op == "seq" and sd.a
                f0 = sd.a[0] if ok else None
                lead = f0.a[0] if f0 is not None and f0.op in ("bytes", "str") else None
                if isinstance(lead, str):
                    lead = lead.encode()
                if c.a[1] is PID or c.a[1] is PIDP:
                    rep.ok(lead in schemes and len(sd.a) == (3 if lead == b"mint" else 2), "spl_token_wrap::processor (%s)" % OPNAMES.get(p.op),
                           "the processor derives addresses with the published schemes only")
        # signing seeds
        for e, l, f in p.effects():
            if e.kind != "cpi":
                continue
            for ss in RP.seeds_of(e):
                sg = RP.signer_of(ss)
                rep.ok(sg is not None, e.loc, "signing seeds are the seeds and bump of one derived address", key="signing seeds of %s" % OPNAMES.get(p.op))
                if sg is not None:
                    w0 = {1: 1, 2: 7, 3: 3, 4: 0, 5: 2}.get(p.op)
                    pub = {0: [RP.mint_pda(K(2), K(4)), RP.back_pda(K(0))], 6: [RP.ptr_pda(K(2))]}.get(p.op) or [aut(K(w0), PID)]
                    rep.ok(any(p.eq(sg, x) for x in pub), e.loc, "signing seeds follow the published scheme with the published inputs",
                           key="signing scheme of %s" % OPNAMES.get(p.op))


# ------------------------------------------------------------------------------------- C21

ERRORS = ["WrappedMintMismatch", "BackpointerMismatch", "ZeroWrapAmount", "MintAuthorityMismatch", "EscrowOwnerMismatch",
          "InvalidWrappedMintOwner", "InvalidBackpointerOwner", "EscrowMismatch", "EscrowInGoodState", "UnwrappedMintHasNoMetadata",
          "MetaplexMetadataMismatch", "MetadataPointerMissing", "MetadataPointerUnset", "MetadataPointerMismatch",
          "ExternalProgramReturnedNoData", "NoSyncingToToken2022"]


def camel(n):
    return n[0].lower() + n[1:]


def C21(ctx, rep):
    vs = dict(ctx.lib.variants.get(TWE, ()))
    w = TWE
    for i, n in enumerate(ERRORS):
        rep.ok(vs.get(n) == i, w, "%s has code %d" % (n, i))
    rep.ok(set(vs) == set(ERRORS), w, "no other error shares the code space")
    e = T("param", "e")
    # to a program error
    fn = "spl_token_wrap::error::<impl core::convert::From<spl_token_wrap::error::TokenWrapError> for solana_program_error::ProgramError>::from"
    r = ctx.fn(fn, [e])
    for s, v in r.res:
        v = r.it.freeze(s, v)
        good = v.op == "adt" and v.a[1] == "Custom"
        pay = v.a[3][0] if good else None
        n = FactView(s.facts).variant(e)
        if good:
            x = pay
            while x.op == "cast":
                x = x.a[1]
            good = (x.op == "discr" and x.a[0] is e) or (x.op == "discrv" and x.a[0] is e) or (n is not None and x.op == "int" and x.a[0] == vs.get(n))
        rep.ok(good, fn, "an error becomes the custom program error of its own code")
    # from a code
    for g in ("from_i64", "from_u64"):
        fn = "spl_token_wrap::error::_::<impl num_traits::cast::FromPrimitive for spl_token_wrap::error::TokenWrapError>::" + g
        if ctx.inst(fn) is None:
            continue
        r = ctx.fn(fn, [e])
        got = {}
        for s, v in r.res:
            v = r.it.freeze(s, v)
            pay = unwrap_adt(v, "Some")
            if pay is not None:
                c = s.facts.const(e)
                rep.ok(pay.op == "adt" and c is not None and c.op == "int" and vs.get(pay.a[1]) == c.a[0], fn, "each code converts to its own error", key=g + " value")
                if pay.op == "adt":
                    got[pay.a[1]] = 1
            else:
                rep.ok(v.op == "adt" and v.a[1] == "None", fn, "an unknown code converts to no error")
                for n, d in vs.items():
                    f = s.facts.copy()
                    rep.ok(not f.assume(mk_eq(e, I(d)), True), fn, "code of %s is known" % n)
        rep.ok(set(got) == set(ERRORS), fn, "every published code converts back")
    fn = "<spl_token_wrap::error::TokenWrapError as core::convert::TryFrom<u32>>::try_from"
    r = ctx.fn(fn, [e])
    oks = 0
    for s, v in r.res:
        v = r.it.freeze(s, v)
        pay = unwrap_adt(v, "Ok")
        if pay is not None:
            oks += 1
            c = s.facts.const(e)
            direct = pay.op == "adt" and c is not None and c.op == "int" and vs.get(pay.a[1]) == c.a[0]
            base = pay
            while base.op in ("field", "as"):
                base = base.a[0]
            arg = plain_args(base)[0] if base.op == "app" and aname(base).startswith("from_") and plain_args(base) else None
            while arg is not None and arg.op == "cast":
                arg = arg.a[1]
            via = arg is e and targ_is(base, "TokenWrapError") and pay is mk_field(mk_as(base, "Some"), "0")
            rep.ok(direct or via, fn, "a known code converts to its own error")
        else:
            rep.ok(v.op == "adt" and v.a[1] == "Err", fn, "an unknown code is refused")
    rep.ok(oks > 0, fn, "known codes convert")
    # names
    fn = "<spl_token_wrap::error::TokenWrapError as solana_program_error::ToStr>::to_str"
    r = ctx.fn(fn, [e])
    seen = set()
    for s, v in r.res:
        v = r.it.freeze(s, v)
        n = FactView(s.facts).variant(e)
        seen.add(n)
        txt = v.a[0] if v.op == "str" else (v.a[0].decode() if v.op == "bytes" else None)
        rep.ok(n in vs and txt == "Error: " + str(n), fn, "%s is reported under its own name" % n)
    rep.ok(seen == set(ERRORS), fn, "every error has a name")
    # messages of the description and of the interface description
    fn = "<spl_token_wrap::error::TokenWrapError as core::fmt::Display>::fmt"
    r = ctx.fn(fn, [e, T("param", "f")])
    texts = {}
    for s, v in r.res:
        v = r.it.freeze(s, v)
        n = FactView(s.facts).variant(e)
        for x in subterms(v):
            if x.op == "str":
                texts[n] = x.a[0]
    rep.ok(len(set(texts.values())) == len(ERRORS), fn, "every error has a description of its own")
    import json, os
    repo = os.environ.get("VERIF_REPO", "/repo")
    ip = os.path.join(repo, "idl.json")
    if not os.path.exists(ip):
        raise MissingAnchor("idl.json")
    idl = json.load(open(ip))["program"]["errors"]
    got = {x["name"]: x for x in idl}
    for i, n in enumerate(ERRORS):
        x = got.get(camel(n))
        rep.ok(x is not None and x["code"] == i, "idl.json", "%s is listed with code %d" % (n, i))
        if x is not None and n in texts:
            rep.ok(x["message"].rstrip(".").lower() == texts[n].rstrip(".").lower(), "idl.json", "%s is described by its own message" % n)
    rep.ok(set(got) == {camel(n) for n in ERRORS} and len(idl) == len(ERRORS), "idl.json", "the interface description lists exactly the published errors")
    import ts
    cli = ts.errors(repo)
    for i, n in enumerate(ERRORS):
        x = [v for k, v in cli["codes"].items() if k.upper().endswith("__" + screaming(n))]
        rep.ok(x == [i], "clients/js/src/generated/errors/tokenWrap.ts", "%s has code %d" % (n, i))
        msg = [v for k, v in cli["messages"].items() if k.upper().endswith("__" + screaming(n))]
        if n in texts:
            rep.ok(msg and msg[0].rstrip(".").lower() == texts[n].rstrip(".").lower(), "clients/js/src/generated/errors/tokenWrap.ts", "%s is described by its own message" % n)
    rep.ok(len(cli["codes"]) == len(ERRORS), "clients/js/src/generated/errors/tokenWrap.ts", "exactly the published errors are listed")


def screaming(n):
    import re
    s = re.sub(r"([a-z])([A-Z])", r"\1_\2", n)
    s = re.sub(r"([a-zA-Z])(\d)", r"\1_\2", s) if False else s
    return s.upper()


# ------------------------------------------------------------------------------------- C23

OPTIONAL = [  # (operation, library function, type argument, account): the documented optional absences
    (1, "get_extension", "TransferFeeConfig"),
    (4, "get_extension", "MetadataPointer"),
    (5, "get_extension", "MetadataPointer"),
    (4, "get_variable_len_extension", "TokenMetadata"),
]


def optional(op, x):
    if x.name.endswith(("::ok_or", "::ok_or_else")):
        return True            # turns an absent optional value into an error; no step of its own
    last = x.name.split("::")[-1]
    for o, n, t in OPTIONAL:
        if o == op and last == n and any(str(y).split("<")[0].endswith(t) for y in x.targs):
            return True
    return False


def C23(ctx, rep):
    r = ctx.root
    steps = {}
    for (s, v), p in zip(r.ok, r.paths):
        w = "spl_token_wrap::processor (%s)" % OPNAMES.get(p.op)
        fv = FactView(s.facts)
        for x in s.resolve_fb():
            st = x.status
            if st is None and x.term is not None:
                st = fv.variant(x.term)
                if st is None and v is x.term:
                    st = "Ok"
            last = x.name.split("::")[-1]
            steps[(last, st)] = steps.get((last, st), 0) + 1
            want = "Some" if last == "get_return_data" else "Ok"
            if st == want or optional(p.op, x) and st == "Err":
                rep.ok(True, x.loc, "%s: success is reported only after this step succeeded: %s" % (OPNAMES.get(p.op), last))
            else:
                rep.ok(False, x.loc, "%s: success is reported although the outcome of %s %s" % (OPNAMES.get(p.op), last, "was a failure" if st else "was never examined"))
        for e, l, f in p.effects():
            if e.kind == "cpi":
                g = f if l is not None else s.facts
                res = e.d["res"]
                known = g.eq.get(T("discr", res)) if f is not None and l is not None else fv.variant(res)
                rep.ok(known == "Ok" or v is res, e.loc, "%s: an inner call on a succeeding path succeeded" % OPNAMES.get(p.op))
    rep.notes["steps"] = {"%s %s" % k: n for k, n in sorted(steps.items(), key=str)}
    for op in OPNAMES:
        rep.ok(any(p.op == op for p in r.paths), "spl_token_wrap::processor", "%s can succeed" % OPNAMES[op])


# ------------------------------------------------------------------------------------- C25

def cast_fits(p, d, size):
    """why the viewed bytes are known to be as long as the record"""
    if not (size.op == "int"):
        return None
    ln = p.facts.const(mk_len(d))
    if ln is not None and ln is size:
        return "length"
    a = root_account(d)
    if a is None or d.op != "data" and not (d.op in ("slice", "sub") and d.a[0].op == "data"):
        return None
    if p.facts.const(mk_len(d)) is size:
        return "length"
    whole = d.op == "data" or mk_slice(d.a[0], 0, None) is d or d is mk_slice(d.a[0], 0, size.a[0])
    if not whole:
        return None
    key = mk_field(a, "key")
    for e in p.evs:
        if e.kind == "cpi":
            n, x = ix(e)
            if n in ("system::allocate", "system::create_account") and p.eq(x[0] if n == "system::allocate" else x[1], key):
                sp = x[1] if n == "system::allocate" else x[3]
                c = p.canon(sp)
                return "allocated" if sp is size or c is size else None
    # a record of the program's own: only the program can have created an account at this address, and always with this size
    f = FactView(p.facts)
    if size.a[0] == 32 and any(f.nonzero(mk_len(y)) for y in (d, T("data", a, T("ep", 0)))) and any(p.eq(key, x) for x in (back_pda(K(0)), ptr_pda(K(2)), pda([sb("backpointer"), K(0)], PIDP),
                                                                  pda([sb("canonical_pointer"), K(2)], PIDP))):
        return "own record"
    return None


def C25(ctx, rep):
    runs = [(ctx.root, "spl_token_wrap::processor::process_instruction")]
    for inst in ctx.lib.find("spl_token_wrap::processor::process_create_mint"):
        tn = [ctx.lib.tys(t) for t in inst.get("targs") or ()]
        runs.append((ctx.run(inst, [PIDP, ACCTS, T("param", "idempotent")]), "process_create_mint::<%s>" % (tn[0].split("::")[-1] if tn else "?")))
    for r, w in runs:
        for what, l, f in r.it.panics:
            rep.ok(False, l, "no input makes the program abort here (%s)" % what.split("::")[-1], key="abort %s" % what)
        rep.ok(True, w, "every arithmetic, index, slice and unwrap reached is guarded on every path (%d paths)" % r.total)
        rep.ok(r.total > 0 and len(r.it.followed) > 3, w, "the handlers were analysed")
        for size, d, l, s in r.it.casts:
            p = Path(s, None)
            why = cast_fits(p, d, size)
            rep.ok(why is not None, l, "a record viewed in place has exactly the viewed size%s" % ("" if why is None else ": " + why), key="view")
    rep.notes["views"] = sum(len(r.it.casts) for r, _ in runs)


# ------------------------------------------------------------------------------------- C22

PUBLISHED = {
    "delegate": "deLpBmD7UP27BHTuhnxR7mBE9rEV6mWUnwWsXMXTFwR",
    "confidential": "con2YXp7bKscyhzJzbSQgwz6RFcXqe6otUGK5Rr8saK",
    "freeze": "freTRAXwCVELv5k7V6UobnCiG1hmhnj79AezxRwAR3h",
    "pause": "pauySfjziLCpPMoaeFsWgvBCe7ygHKr6wXCyvTNZyGv",
}
AUDITOR_B64 = "yonKhqkoXNvMbN/tU6fjHFhfZuNPpvMj8L55aP2bBG4="
FLAVOURS = {"DefaultToken2022Customizer": ["ConfidentialTransferMint", "MetadataPointer"], "NoExtensionCustomizer": [],
            "ComplianceMintCustomizer": ["ConfidentialTransferMint", "DefaultAccountState", "Pausable", "PermanentDelegate"]}


def C22(ctx, rep):
    import base64
    pk = {k: bytes_(b58dec(v)) for k, v in PUBLISHED.items()}
    auditor = bytes_(base64.b64decode(AUDITOR_B64))
    insts = ctx.lib.find("spl_token_wrap::processor::process_create_mint")
    if not insts:
        raise MissingAnchor("spl_token_wrap::processor::process_create_mint for a bundled flavour")
    done = set()
    for inst in insts:
        tn = [ctx.lib.tys(t) for t in inst.get("targs") or ()]
        name = tn[0].split("::")[-1] if tn else "?"
        done.add(name)
        w0 = "process_create_mint::<%s>" % name
        r = ctx.run(inst, [PIDP, ACCTS, T("param", "idempotent")])
        seen = set()
        for s, v in r.ok:
            p = Path(s, v)
            p.op = 0
            if not creating(p):
                continue
            sh = creation_shape(p, rep)
            if not creation_common(p, rep, sh):
                continue
            f = FactView(p.facts)
            exts = space_exts(sh["alloc"][1][1])
            names = [x[0] for x in sh["exts"]]
            fz = sh["init"][1][3]
            if f.eq(K(4), T22):
                seen.add("t22")
                rep.ok(exts is not None and len(set(exts)) == len(exts), w0, "the reserved space is computed for a known set of extensions")
                rep.ok(exts is not None and sorted(exts) == sorted(names), w0, "space is reserved for exactly the extensions initialised (space %s, initialised %s)" % (exts, names))
                if name in FLAVOURS:
                    rep.ok(sorted(names) == FLAVOURS[name], w0, "the flavour has exactly its published extensions (found %s)" % sorted(names))
            elif f.ne(K(4), T22) or f.eq(K(4), SPL):
                seen.add("spl")
                rep.ok(exts == [] and not names, w0, "an SPL Token mint has no extensions and bare space")
            else:
                rep.ok(False, w0, "the layout depends on the wrapped token program")
            if name == "ComplianceMintCustomizer":
                rep.ok(nullable_key(fz) == ("some", pk["freeze"]), w0, "the published freeze authority governs the mint")
                for x, e, a in sh["exts"]:
                    if x == "PermanentDelegate":
                        rep.ok(a[2] is pk["delegate"], loc(e), "the permanent delegate is the published key")
                    elif x == "Pausable":
                        rep.ok(a[2] is pk["pause"], loc(e), "the pause authority is the published key")
                    elif x == "DefaultAccountState":
                        st = a[2]
                        rep.ok(st.op == "adt" and st.a[1] == "Initialized", loc(e), "new accounts start initialised")
                    elif x == "ConfidentialTransferMint":
                        rep.ok(nullable_key(a[2]) == ("some", pk["confidential"]), loc(e), "confidential transfers are governed by the published key")
                        k = nullable_key(a[4])
                        rep.ok(k is not None and k[0] == "some" and any(y is auditor for y in subterms(k[1])), loc(e), "the auditor is the published key")
                        rep.ok(a[3] is TRUE, loc(e), "confidential accounts are approved automatically")
            elif name in FLAVOURS:
                rep.ok(freeze_ok(p, fz, 2), w0, "the freeze authority is the unwrapped mint's, present exactly when it has one")
        rep.ok(seen == {"t22", "spl"}, w0, "the flavour creates mints for both token programs (found %s)" % sorted(seen))
    rep.ok(set(FLAVOURS) <= done, "spl_token_wrap::mint_customizer", "every bundled flavour exists (found %s)" % sorted(done))


# ------------------------------------------------------------------------------------- C24

def excluded_pairs(facts, canon):
    """pairs of terms the path found different"""
    for k, vs in facts.ne.items():
        for v in vs:
            if isinstance(v, Term):
                yield canon(k), canon(v)
    for k, v in facts.bools.items():
        if k.op == "eq" and v is False:
            yield canon(k.a[0]), canon(k.a[1])
            yield canon(k.a[1]), canon(k.a[0])


ROLE = {  # account positions by operation
    "wrapped_mint": {0: 0, 1: 1, 2: 7, 3: 3, 4: 0, 5: 2},
    "authority": {1: 2, 2: 2, 3: 4, 4: 1, 5: 1},
    "backpointer": {0: 1},
    "escrow": {1: 7, 2: 0, 3: 0},
    "unwrapped_mint": {0: 2, 1: 6, 2: 3, 3: 2, 4: 2, 5: 3},
    "program": {0: 4, 1: 4, 2: 4},
}


def lead_of(t):
    if t.op == "pda" and t.a[0].op == "seq" and t.a[0].a and t.a[0].a[0].op in ("bytes", "str"):
        x = t.a[0].a[0].a[0]
        return x.encode() if isinstance(x, str) else x
    return None


def zero_amount(p):
    """did the path establish that the amount decoded from the instruction data is zero?"""
    for x in list(p.facts.eq) + list(p.facts.rng) + [y for k in p.facts.bools for y in subterms(k)]:
        if x.op == "app" and x.a[0] == "from_le":
            y = plain_args(x)[0]
            if y in (mk_slice(INPUT, 1, None), mk_slice(INPUT, 1, 9)) or \
                    y.op == "seq" and list(y.a) == [mk_idx(INPUT, 1 + i) for i in range(8)]:
                if p.facts.range(x) == (0, 0) or p.facts.const(x) is not None and p.facts.const(x).a[0] == 0:
                    return True
    return False


def reasons(p, op):
    """published error codes whose condition the path established"""
    out = set()
    c = p.canon
    role = {k: v.get(op) for k, v in ROLE.items()}

    def key_of(t, nm):
        return role[nm] is not None and t is c(K(role[nm]))
    if op in (1, 2) and zero_amount(p):
        out.add(2)
    for x, y in excluded_pairs(p.facts, c):
        for a, b in ((x, y), (y, x)):
            ld = lead_of(b)
            if key_of(a, "wrapped_mint") and ld == b"mint":
                out.add(0)
            if key_of(a, "backpointer") and ld == b"backpointer":
                out.add(1)
            if key_of(a, "authority") and ld == b"authority":
                out.add(3)
            if key_of(a, "escrow") and b.op == "pda" and ld is None or key_of(a, "escrow") and b.op == "ata":
                out.add(7)
            if role["escrow"] is not None and a.op == "field" and a.a[1] == "owner" and from_data(strip(a), role["escrow"]) and \
                    (lead_of(b) == b"authority" or role["authority"] is not None and b is c(K(role["authority"]))):
                out.add(4)
            if op == 0 and a is c(owner(0)) and b is c(K(4)):
                out.add(5)
            if op == 0 and a is c(owner(1)) and b in (c(PIDP), PID):
                out.add(6)
            if op == 5 and a is c(owner(2)) and b is SPL:
                out.add(15)
            if op in (4, 5) and any(appname(z).endswith("get_return_data") for z in subterms(a)) and \
                    b.op == "field" and b.a[1] in ("key", "owner"):
                out.add(14)  # the data was returned by another program than the one called
            if b.op == "pda" and b.a[1] is not c(PID) and ld is not None and ld == b"metadata" and a.op == "field" and a.a[1] == "key":
                out.add(10)
            if op in (4, 5) and a.op == "field" and a.a[1] == "key" and a is not c(K(role["unwrapped_mint"])) and any(z.op == "field" and z.a[1] == "metadata_address" for z in subterms(b)):
                out.add(13)
    for k, v in p.facts.eq.items():
        if k.op == "discr":
            t = k.a[0]
            if op in (4, 5) and v == "None" and any(z.op == "field" and z.a[1] == "metadata_address" for z in subterms(t)):
                out.add(12)
            if v == "None" and appname(t).endswith("get_return_data"):
                out.add(14)
            if v == "Err" and aname(t) == "get_extension" and targ_is(t, "MetadataPointer"):
                out.add("11?")
    return out


def C24(ctx, rep):
    r = ctx.root
    counts = {}
    for s, v in r.err:
        v = r.it.freeze(s, v)
        pay = unwrap_adt(v, "Err") if v.op == "adt" else None
        oc = s.facts.const(mk_idx(INPUT, 0))
        op = oc.a[0] if oc is not None and oc.op == "int" else None
        if op not in OPNAMES or pay is None:
            continue
        p = Path(s, v)
        w = "spl_token_wrap::processor (%s)" % OPNAMES[op]
        rs = reasons(p, op)
        code = None
        if pay.op == "adt" and pay.a[1] == "Custom":
            x = pay.a[3][0]
            code = x.a[0] if x.op == "int" else None
            rep.ok(code is not None and 0 <= code < len(ERRORS), w, "the program's own errors carry a published code", key="unknown code")
            if code is None:
                continue
            counts[ERRORS[code]] = counts.get(ERRORS[code], 0) + 1
            if code == 8:
                good = op == 3 and extensions_agree(compare_extensions(p))
                rep.ok(good, w, "%s is reported only for its published reason" % ERRORS[code])
            elif code == 9:
                good = any(k.op == "discr" and vv == "Err" and aname(k.a[0]) == "get_variable_len_extension" for k, vv in p.facts.eq.items())
                rep.ok(good, w, "%s is reported only for its published reason" % ERRORS[code])
            elif code == 11:
                rep.ok("11?" in rs, w, "%s is reported only for its published reason" % ERRORS[code])
            else:
                rep.ok(code in rs, w, "%s is reported only for its published reason" % ERRORS[code])
        need = {x for x in rs if isinstance(x, int)}
        if need:
            rep.ok(code in need, w, "%s is answered with its own code" % "/".join(ERRORS[x] for x in sorted(need)))
    rep.notes["errors"] = counts
    for i in (0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 13, 14, 15):
        rep.ok(counts.get(ERRORS[i], 0) > 0, "spl_token_wrap::processor", "%s can be reported" % ERRORS[i])
