"""Rule C26: an instruction is refused only for a published reason."""
from rules_api import *

COUNT = {0: 5, 1: 9, 2: 9, 3: 6, 4: 4, 5: 7, 6: 4}
LENGTH = {0: 2, 1: 9, 2: 9, 3: 1, 4: 1, 5: 1, 6: 33}
# metadata syncs: unwrapped mint, metadata source, the source's owning program
SOURCE = {4: (2, 4, 5), 5: (3, 7, 8)}
# accounts whose contents an instruction has to be able to read
READS = {0: {2}, 1: {6, 7}, 2: {3}, 3: {0, 2}, 4: {0, 2}, 5: {3}, 6: {2}}
UNWRAPPED = {0: 2, 1: 6, 2: 3, 3: 2, 4: 2, 5: 3, 6: 2}
POD = ("PodMint", "PodAccount", "Mint", "Account")
SYSVARS = ("Rent", "Clock")


def accounts_in(t):
    return {x.a[0] for x in subterms(t) if x.op in ("data", "lamports")}


def too_short(p, n):
    lo, hi = p.facts.range(T("len", ACCTS))
    c = p.facts.const(T("len", ACCTS))
    if c is not None and c.op == "int":
        return c.a[0] < n
    return hi is not None and hi < n


def unknown_code(p):
    c = mk_idx(INPUT, 0)
    if input_length(p, lambda lo, hi, ne: hi == 0):
        return True
    k = p.facts.const(c)
    if k is not None:
        return k.op == "int" and k.a[0] not in OPNAMES
    out = {v.a[0] for v in p.facts.ne.get(c, ()) if isinstance(v, Term) and v.op == "int"} | \
          {v for v in p.facts.ne.get(c, ()) if isinstance(v, int)}
    lo, hi = p.facts.range(c)
    return all(i in out or i < lo or hi is not None and i > hi for i in OPNAMES)


def input_length(p, pred):
    n = T("len", INPUT)
    c = p.facts.const(n)
    lo, hi = p.facts.range(n)
    if c is not None and c.op == "int":
        lo = hi = c.a[0]
    ne = {v.a[0] if isinstance(v, Term) and v.op == "int" else v for v in p.facts.ne.get(n, ())}
    return pred(lo, hi, ne)


def bad_encoding(p, op):
    n = LENGTH[op]
    if input_length(p, lambda lo, hi, ne: n in ne or lo > n or hi is not None and hi < n):
        return True
    if op == 0:
        b = mk_idx(INPUT, 1)
        c = p.facts.const(b)
        lo, hi = p.facts.range(b)
        ne = {v.a[0] if isinstance(v, Term) and v.op == "int" else v for v in p.facts.ne.get(b, ())}
        return c is not None and c.op == "int" and c.a[0] not in (0, 1) or lo > 1 or {0, 1} <= ne
    return False


def failed_call(p, op):
    """a library, runtime or cross-program call this instruction depends on failed"""
    for k, v in p.facts.eq.items():
        if k.op != "discr" or v not in ("Err", "None"):
            continue
        x = k.a[0]
        n = aname(x)
        if n in ("cpi_result", "borrow", "borrow_mut"):
            return n
        if n == "get" and any(targ_is(x, y) for y in SYSVARS):
            return "sysvar"
        if n == "accepts":
            return "token program id"
        if n in ("try_calculate_account_len", "extract_multisig_accounts"):
            return n
        if n in ("unpack", "get_variable_len_extension", "get_extension_types", "walk"):
            # an account that has to be readable is not
            src = accounts_in(x)
            if n == "get_variable_len_extension" and not (op in (4, 5) and targ_is(x, "TokenMetadata")):
                continue
            if n == "get_extension_types" and op != 3:
                continue
            if src and src <= {acct(i) for i in READS[op]}:
                return "unreadable account"
        if n in ("safe_deserialize", "unpack_from_slice", "to_string", "from_str", "parse") and op in SOURCE:
            return "undecodable metadata"
        if n == "calculate_epoch_fee" and op in (1,):
            return "fee not computable"
    for k, v in p.facts.eq.items():
        x = k.a[0] if k.op == "discr" else None
        if x is not None and x.op in ("required_exts", "walk") and v == "Err" and op == 3:
            return "unreadable account"
    return None


def wrong_owner(p, f, op):
    """an account is not owned by the program the instruction requires"""
    def alien(i):
        return f.ne(owner(i), SPL) and f.ne(owner(i), T22)
    if op == 0 and alien(2):
        return True
    if op == 3 and (f.ne(owner(0), T22) or f.ne(owner(2), T22)):
        return True
    if op == 4 and (f.ne(K(3), T22) or f.ne(owner(0), T22) or alien(2)):
        return True
    if op == 5 and (f.ne(K(4), MPL) or alien(3)):
        return True
    if op == 6 and alien(2):
        return True
    return False


def external_source(p, f, op):
    """the path found that the mint's metadata lives in another account"""
    m = SOURCE[op][0]
    if f.eq(owner(m), SPL) or f.ne(owner(m), T22):
        return True
    for k, v in p.facts.eq.items():
        if k.op == "discr" and v == "Err" and aname(k.a[0]) == "get_extension" and targ_is(k.a[0], "MetadataPointer") and from_data(k.a[0], m):
            return True
    def pointer(t):
        return any(z.op == "field" and z.a[1] == "metadata_address" for z in subterms(t))
    addr = {p.canon(k) for t in p.facts.bools if t.op == "eq" for k in t.a if pointer(k)} | \
           {p.canon(k) for k in list(p.facts.eq) + list(p.facts.ne) if pointer(k)}
    for a, b in excluded_pairs(p.facts, p.canon):
        for x, y in ((a, b), (b, a)):
            if x is p.canon(K(m)) and (y in addr or pointer(y)):
                return True
    return False


def bad_source(p, f, op):
    m, s, g = SOURCE[op]
    if not external_source(p, f, op):
        return False
    if too_short(p, s + 1):
        return "no source account"
    pointed = any(k.op == "discr" and v == "Ok" and aname(k.a[0]) == "get_extension" and targ_is(k.a[0], "MetadataPointer") for k, v in p.facts.eq.items())
    if f.ne(owner(s), MPL):
        if not pointed:
            return "not a Metaplex record"
        if f.eq(owner(s), T22):
            return "an external Token-2022 account"
        if too_short(p, g + 1):
            return "no owning program"
        if f.ne(owner(s), K(g)):
            return "another owning program"
    return False


def escrow_state(p, f):
    """the escrow is funded, frozen or uninitialised"""
    for t in all_terms(p):
        s = strip(t)
        if s.op == "field" and s.a[1] == "amount" and from_data(s, 0) and f.nonzero(t):
            return True
        if s.op == "field" and s.a[1] == "state" and from_data(s, 0):
            c = p.facts.const(t)
            if I(1) in p.facts.ne.get(t, ()) or 1 in p.facts.ne.get(t, ()) or c is not None and c is not I(1):
                return True
            d = T("discr", t)
            if d in p.facts.eq and p.facts.eq[d] != "Initialized" or "Initialized" in p.facts.ne.get(d, ()):
                return True
    for k, v in p.facts.bools.items():
        if v is False and k.op == "eq":
            for a, b in ((k.a[0], k.a[1]), (k.a[1], k.a[0])):
                s = strip(a)
                while s.op == "app" and aname(s) in ("from", "into", "from_le") and len(plain_args(s)) == 1:
                    s = plain_args(s)[0]
                if s.op == "field" and s.a[1] == "amount" and from_data(s, 0) and b is I(0):
                    return True
                if s.op == "field" and s.a[1] == "state" and from_data(s, 0) and (b is I(1) or b.op == "adt" and b.a[1] == "Initialized"):
                    return True
    return False


def underfunded(p, i, is_space):
    for k, v in p.facts.bools.items():
        s = strip(k)
        if s.op == "lt" and v is True and s.a[0] is lam(i) and aname(s.a[1]) == "minimum_balance":
            a = plain_args(s.a[1])
            if is_space(a[1]) and any(aname(x) == "get" and targ_is(x, "Rent") for x in subterms(a[0])):
                return True
        if s.op == "app" and aname(s) == "is_exempt" and v is False:
            a = plain_args(s)
            if a[1] is lam(i) and is_space(a[2]):
                return True
    return False


def published_reason(p, op):
    f = FactView(p.facts)
    if bad_encoding(p, op):
        return "malformed instruction data"
    if too_short(p, COUNT[op]):
        return "too few accounts"
    rs = {x for x in reasons(p, op) if isinstance(x, int)}
    if rs:
        return ERRORS[min(rs)]
    if op == 3 and extensions_agree(compare_extensions(p)):
        return ERRORS[8]
    w = failed_call(p, op)
    if w:
        return w
    if wrong_owner(p, f, op):
        return "wrong owner or program"
    if op == 0:
        if idem(p) == 0 and (known_len(p, 0) == "nonzero" or known_len(p, 1) == "nonzero"):
            return "already initialised"
        if underfunded(p, 0, lambda t: space_exts(t) is not None) or underfunded(p, 1, lambda t: t is I(32)):
            return "not rent exempt"
    if op == 1:
        a = amount_term(p)
        for k, v in p.facts.bools.items():
            if k.op == "lt" and v is True and a is not None and amt_is(p, k.a[0], a) and is_epoch_fee(p, p.canon(k.a[1]), a, 6):
                return "fee above the amount"
    if op == 3 and escrow_state(p, f):
        return "escrow in use"
    if op in SOURCE:
        b = bad_source(p, f, op)
        if b:
            return b
    if op == 6:
        if f.true(T("field", acct(0), "is_signer")) is False:
            return "missing signature"
        if f.ne(K(1), ptr_pda(K(2))):
            return "wrong pointer address"
        for t in all_terms(p):
            s = strip(t)
            if s.op == "discr" and any(y.op == "field" and y.a[1] == "mint_authority" and from_data(y, 2) for y in subterms(s)) and \
                    p.facts.eq.get(t) in ("Err", "None"):
                return "no mint authority"
        for a, b in excluded_pairs(p.facts, p.canon):
            for x, y in ((a, b), (b, a)):
                if x is p.canon(K(0)) and any(z.op == "field" and z.a[1] == "mint_authority" and from_data(z, 2) for z in subterms(y)):
                    return "not the mint authority"
        if underfunded(p, 1, lambda t: t is I(32)):
            return "not rent exempt"
        for k, vs in p.facts.ne.items():
            if strip(k) is dlen(1) and (I(32) in vs or 32 in vs) or k.op == "len" and strip(k.a[0]) is data(1) and (I(32) in vs or 32 in vs):
                return "not a pointer record"
        for k, v in p.facts.bools.items():
            if k.op == "eq" and v is False and {strip(x) for x in k.a} == {dlen(1), I(32)}:
                return "not a pointer record"
    return None


def C26(ctx, rep):
    r = ctx.root
    why = {}
    n = 0
    for s, v in r.err:
        v = r.it.freeze(s, v)
        oc = s.facts.const(mk_idx(INPUT, 0))
        op = oc.a[0] if oc is not None and oc.op == "int" else None
        p = Path(s, v)
        n += 1
        if op not in OPNAMES:
            rep.ok(unknown_code(p), "spl_token_wrap::processor::process_instruction", "only unknown instruction codes are refused outright", key="unknown code")
            continue
        w = published_reason(p, op)
        pay = unwrap_adt(v, "Err") if v.op == "adt" else None
        e = pay.a[1] if pay is not None and pay.op == "adt" else "a failed call"
        rep.ok(w is not None, "spl_token_wrap::processor (%s)" % OPNAMES[op],
               "%s is refused only for a published reason, never with all preconditions met (%s)" % (OPNAMES[op], e), key="%s %s" % (op, e))
        if w:
            why.setdefault(OPNAMES[op], {}).setdefault(w, 0)
            why[OPNAMES[op]][w] += 1
    rep.notes["refusals"] = why
    for op in OPNAMES:
        rep.ok(bool(why.get(OPNAMES[op])), "spl_token_wrap::processor", "%s is analysed" % OPNAMES[op])
