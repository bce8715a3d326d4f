"""Rules C11-C15: metadata synchronisation, and C16: the canonical pointer."""
from rules_prog import *
import rules_prog as RP

# role -> public account index
SYNC = {4: dict(wm=0, auth=1, um=2, prog=3, src=4, own=5, wprog=T22), 5: dict(wm=2, auth=1, um=3, md=0, prog=4, sys=5, rent=6, src=7, own=8, wprog=SPL)}


def opt_addr(f, t):
    """(known Some, inner term) of an optional address"""
    v = f.variant(t)
    return v


def source(p, op, r=None):
    """how this path obtains the source metadata: dict(kind, meta=(name, symbol, uri, additional) or root terms, ...)"""
    R = SYNC[op]
    U, S, O = R["um"], R["src"], R["own"]
    f = FactView(p.facts)
    out = {"kind": None, "why": ""}
    spl = f.eq(owner(U), SPL)
    t22 = f.eq(owner(U), T22)
    ptr = None
    for k, v in p.facts.eq.items():
        if k.op == "discr" and aname(k.a[0]) == "get_extension" and targ_is(k.a[0], "MetadataPointer") and from_data(k.a[0], U):
            ptr = (k.a[0], v)
    if not spl and not t22:
        out["why"] = "the unwrapped mint's owner is not established to be a token program"
        return out
    have = lambda i: f.true(mk_lt(I(i), T("len", ACCTS))) is True
    if spl or (t22 and ptr and ptr[1] == "Err"):
        if not have(S):
            out["why"] = "no source account is required"
            return out
        out["kind"] = "metaplex"
        out["checks"] = [(f.eq(K(S), mpl_pda(K(U))), "the source is the Metaplex record derived from the unwrapped mint"),
                         (f.eq(owner(S), MPL), "the source is owned by the Metaplex program")]
        return out
    if not ptr or ptr[1] != "Ok":
        out["why"] = "the metadata pointer was not consulted"
        return out
    addr = None
    base = T("field", T("as", ptr[0], "Ok"), "0")
    for x in all_facts(p):
        if x.op == "field" and x.a[1] == "metadata_address" and from_data(x, U) and any(y is ptr[0] for y in subterms(x)):
            addr = x
    if addr is None:
        out["why"] = "the pointer's address was not consulted"
        return out
    inner = None
    if f.variant(addr) == "Some":
        inner = mk_field(mk_as(addr, "Some"), "0")
    elif f.ne(addr, KZERO) or f.variant(app("into", addr)) == "Some":
        inner = addr
    if inner is None:
        out["why"] = "an unset pointer is not refused"
        return out
    if f.eq(inner, K(U)):
        out["kind"] = "self"
        out["checks"] = []
        return out
    out["checks"] = [(f.eq(K(S), inner), "the source is exactly the account the pointer names"),
                     (f.ne(owner(S), T22) or f.eq(owner(S), MPL), "a Token-2022-owned external source is refused")]
    if f.eq(owner(S), MPL):
        out["kind"] = "metaplex"
        return out
    out["kind"] = "external"
    return out


def all_facts(p):
    seen = set()
    for d in (p.facts.eq, p.facts.bools, p.facts.ne, p.facts.rng):
        for k in d:
            yield from subterms(k, seen)
    for k, vs in p.facts.ne.items():
        for v in vs:
            if isinstance(v, Term):
                yield from subterms(v, seen)


KZERO = bytes_(b"\0" * 32)


def is_emit(p, e, op):
    """the metadata request to the program owning the source"""
    R = SYNC[op]
    n, a = ix(e)
    return n == "metadata::emit"


def source_root(p, op, s):
    """term holding the source metadata record for this path's kind: predicate over terms"""
    R = SYNC[op]
    U, S = R["um"], R["src"]
    if s["kind"] == "metaplex":
        def pred(x):
            return x.op == "field" and x.a[1] == "0" and x.a[0].op == "as" and x.a[0].a[1] == "Ok" and \
                aname(x.a[0].a[0]) in ("safe_deserialize", "from_bytes", "deserialize", "try_from_slice", "try_from") and from_data(x, S)
    elif s["kind"] == "self":
        def pred(x):
            return x.op == "field" and x.a[1] == "0" and x.a[0].op == "as" and x.a[0].a[1] == "Ok" and \
                aname(x.a[0].a[0]) == "get_variable_len_extension" and targ_is(x.a[0].a[0], "TokenMetadata") and from_data(x, U)
    else:
        def pred(x):
            return x.op == "field" and x.a[1] == "0" and x.a[0].op == "as" and x.a[0].a[1] == "Ok" and \
                aname(x.a[0].a[0]) in ("unpack_from_slice", "try_from_slice", "deserialize") and \
                not data_sources(x) and any(appname(y).endswith("get_return_data") for y in subterms(x))
    return pred


def written(p, op):
    """events that write metadata: [(event, loop, iteration facts)]"""
    return [(e, lp, lf) for e, lp, lf in p.effects() if not (e.kind == "cpi" and is_emit(p, e, op))]


def C11(P, r):
    kinds = {}
    for op in (4, 5):
        R = SYNC[op]
        U, S, O = R["um"], R["src"], R["own"]
        for p in need_paths(P, r, op):
            w = where(p)
            s = source(p, op)
            kinds[s["kind"] or "?"] = kinds.get(s["kind"] or "?", 0) + 1
            r.ok(s["kind"] is not None, w, "%s: the source is the mint's own authoritative one (%s)" % (HANDLER[op], s["why"] or "ok"), key="%s source kind %s" % (HANDLER[op], s["why"]))
            if s["kind"] is None:
                continue
            for c, m in s["checks"]:
                r.ok(c, w, "%s: %s" % (HANDLER[op], m))
            emits = [(e, lp) for e, lp, lf in p.effects() if e.kind == "cpi" and is_emit(p, e, op)]
            if s["kind"] == "external":
                r.ok(len(emits) == 1 and emits[0][1] is None, w, "%s: the program owning the source is asked exactly once" % HANDLER[op])
                f = FactView(p.facts)
                r.ok(f.eq(K(O), owner(S)), w, "%s: the program asked is the owner of the source account" % HANDLER[op])
                for e, lp in emits:
                    n, a = ix(e)
                    r.ok(p.eq(a[0], K(O)) and p.eq(a[1], K(S)), loc(e), "%s: the request names the source account and its owner program" % HANDLER[op])
                    r.ok(len(a) < 4 or all(x.op == "adt" and x.a[1] == "None" for x in a[2:4]), loc(e), "%s: the whole record is requested" % HANDLER[op])
                    r.ok(not seeds_of(e), loc(e), "%s: the request carries no program signature" % HANDLER[op])
                    r.ok(succeeded(p, e.d["res"]), loc(e), "%s: a failed request fails the sync" % HANDLER[op])
                rd = [x for x in all_facts(p) if appname(x).endswith("get_return_data")]
                ok = False
                for x in rd:
                    if f.variant(x) == "Some":
                        who = mk_field(mk_field(mk_as(x, "Some"), "0"), "0")
                        ok = ok or f.eq(who, K(O)) or f.eq(who, owner(S))
                r.ok(ok, w, "%s: the reply is attributed to the program that was asked" % HANDLER[op])
            else:
                r.ok(not emits, w, "%s: no foreign program is asked when the source is readable" % HANDLER[op])
            # dataflow: everything written comes from that source
            pred = source_root(p, op, s)
            for e, lp, lf in written(p, op):
                if e.kind != "cpi":
                    continue
                bad = taint(p, e, op, s, pred)
                r.ok(not bad, loc(e), "%s: what is written comes only from the source metadata (%s)" % (HANDLER[op], ", ".join(sorted(bad)) or "ok"),
                     key="%s writes from elsewhere: %s" % (HANDLER[op], ",".join(sorted(bad))))
    r.notes["source_kinds"] = kinds
    for k in ("self", "metaplex", "external"):
        r.ok(kinds.get(k, 0) > 0, "spl_token_wrap::metadata", "a %s source can be synced from" % k)


def taint(p, e, op, s, pred):
    """data sources feeding the written values that are not the authoritative one"""
    R = SYNC[op]
    n, a = ix(e)
    bad = set()
    if n == "metadata::remove_key":
        return bad          # which keys are removed is decided by C12
    for t in a:
        for x in subterms(t):
            if x.op == "data" or appname(x).endswith("get_return_data"):
                # must lie inside the authoritative record
                if not inside(t, x, pred):
                    bad.add(show(strip(x))[:80])
    return bad


def inside(t, x, pred):
    """every occurrence of x in t lies inside a term satisfying pred"""
    memo = {}

    def go(y):
        if y is x:
            return False
        if y in memo:
            return memo[y]
        memo[y] = True
        if pred(y):
            return True
        v = True
        st = list(y.a)
        while st:
            z = st.pop()
            if isinstance(z, Term):
                if not go(z):
                    v = False
                    break
            elif isinstance(z, tuple):
                st.extend(z)
        memo[y] = v
        return v
    return go(t)


# ------------------------------------------------------------------------------ C12

def meta_fields(p, op, s):
    """(name, symbol, uri, additional) of the source as terms; additional None when only known structurally"""
    pred = source_root(p, op, s)
    roots = {x for x in all_terms(p) if pred(x)}
    roots = {x for x in roots if not any(y is not x and x in set(subterms(y)) and pred(y) for y in roots)}
    if len(roots) != 1:
        return None
    m = roots.pop()
    return m


def wrapped_meta(p, R):
    """(variant, record term) of the wrapped mint's stored metadata"""
    for k, v in p.facts.eq.items():
        if k.op == "discr" and aname(k.a[0]) == "get_variable_len_extension" and targ_is(k.a[0], "TokenMetadata") and from_data(k.a[0], R["wm"]):
            return v, mk_field(mk_as(k.a[0], "Ok"), "0")
    return None, None


def seq_of_loop(rec):
    return list(rec.seqs)


def elem_of(rec, j=0):
    return T("elem", rec.lid, rec.seqs[j])


def pair(el):
    return mk_field(el, "0"), mk_field(el, "1")


def additional_of(p, op, s, m, loops):
    """the source's additional fields: the record's own list, or the list converted from Metaplex (C14)"""
    if s["kind"] != "metaplex":
        return [mk_field(m, "additional_metadata")]
    out = []
    for lp in loops:
        for q in lp.seqs:
            if q.op == "seq" and any(x is m for x in subterms(q)):
                out.append(q)
    return out


def same_seq(p, a, b):
    a, b = p.canon(a), p.canon(b)
    if a is b:
        return True
    if a.op == "seq" and len(a.a) == 1 and a.a[0].op == "splat":
        return same_seq(p, a.a[0].a[0], b)
    return False


def field_name(t):
    """Field::X -> 'name' | 'symbol' | 'uri' | ('key', k)"""
    if t.op == "adt" and t.a[0].endswith("Field"):
        if t.a[1] == "Key":
            return ("key", t.a[3][0])
        return t.a[1].lower()
    return None


def C12(P, r):
    op = 4
    R = SYNC[4]
    nu = ni = 0
    for p in need_paths(P, r, 4):
        w = where(p)
        s = source(p, op)
        if s["kind"] is None:
            r.ok(False, w, "the source of the metadata is established")
            continue
        m = meta_fields(p, op, s)
        r.ok(m is not None, w, "one source record feeds the sync")
        if m is None:
            continue
        wv, W = wrapped_meta(p, R)
        f = FactView(p.facts)
        ev = written(p, op)
        loops = []
        for e, lp, lf in ev:
            if lp is not None and lp not in loops:
                loops.append(lp)
        for e in p.evs:
            if e.kind == "loop" and e.d["rec"] not in loops and any(any(x is m for x in subterms(q)) for q in e.d["rec"].seqs):
                loops.append(e.d["rec"])
        AM = additional_of(p, op, s, m, loops)
        for e, lp, lf in ev:
            r.ok(e.kind == "cpi" and (ix(e)[0] or "") in ("metadata::update_field", "metadata::remove_key", "metadata::initialize"), loc(e),
                 "only metadata of the wrapped mint is written")
            if e.kind == "cpi" and lp is None:
                r.ok(succeeded(p, e.d["res"]), loc(e), "success is reported only if this write succeeded")
            if e.kind == "cpi" and lp is not None:
                r.ok(FactView(lf).variant(e.d["res"]) == "Ok", loc(e), "success is reported only if this write succeeded in every iteration")
        upd = [(e, lp, lf, ix(e)[1]) for e, lp, lf in ev if e.kind == "cpi" and ix(e)[0] == "metadata::update_field"]
        ini = [(e, lp, lf, ix(e)[1]) for e, lp, lf in ev if e.kind == "cpi" and ix(e)[0] == "metadata::initialize"]
        rem = [(e, lp, lf, ix(e)[1]) for e, lp, lf in ev if e.kind == "cpi" and ix(e)[0] == "metadata::remove_key"]
        want = {"name": mk_field(m, "name"), "symbol": mk_field(m, "symbol"), "uri": mk_field(m, "uri")}
        if wv == "Ok":
            nu += 1
            r.ok(not ini, w, "existing metadata is updated, not initialised again")
            for fld, val in want.items():
                hits = [(e, a) for e, lp, lf, a in upd if lp is None and field_name(a[3]) == fld]
                same = f.eq(mk_field(W, fld), val)
                if hits:
                    e, a = hits[0]
                    r.ok(len(hits) == 1 and p.eq(a[4], val), loc(e), "the %s is set to the source's" % fld)
                    r.ok(f.ne(mk_field(W, fld), val), loc(e), "a %s that is already equal is not rewritten" % fld)
                else:
                    r.ok(same, w, "the %s ends up equal to the source's" % fld)
            bad = [e for e, lp, lf, a in upd if lp is None and field_name(a[3]) not in want]
            r.ok(not bad, w, "no other base field is rewritten")
            ul = update_loop(p, r, w, upd, loops, AM, W, conditional=True)
            removal(p, r, w, rem, W, AM, m, s)
        elif wv == "Err":
            ni += 1
            r.ok(len(ini) == 1 and ini[0][1] is None, w, "missing metadata is initialised exactly once")
            r.ok(not rem, w, "nothing is removed from fresh metadata")
            for e, lp, lf, a in ini[:1]:
                r.ok(p.eq(a[1], K(R["wm"])) and p.eq(a[2], K(R["auth"])) and p.eq(a[3], K(R["wm"])) and p.eq(a[4], K(R["auth"])), loc(e),
                     "metadata is initialised in the wrapped mint under the derived authority")
                for j, fld in ((5, "name"), (6, "symbol"), (7, "uri")):
                    r.ok(p.eq(a[j], want[fld]), loc(e), "the %s is initialised to the source's" % fld)
            bad = [e for e, lp, lf, a in upd if lp is None]
            r.ok(not bad, w, "base fields are not written twice")
            if ini:
                first = [e for e, lp, lf in ev][0]
                r.ok(first is ini[0][0], loc(ini[0][0]), "initialisation precedes the additional fields")
            update_loop(p, r, w, upd, loops, AM, None, conditional=False)
        else:
            r.ok(False, w, "the path knows whether the wrapped mint already has metadata")
    r.ok(nu > 0 and ni > 0, "spl_token_wrap::processor::process_sync_metadata_to_token_2022", "both the update and the initialisation succeed on some path")
    r.notes["update_paths"] = nu
    r.notes["init_paths"] = ni


def update_loop(p, r, w, upd, loops, AM, W, conditional):
    """every additional field of the source is written (or, when updating, known to be equal already)"""
    good = None
    for lp in loops:
        if len(lp.seqs) == 1 and any(same_seq(p, lp.seqs[0], a) for a in AM):
            el = elem_of(lp)
            k, v = pair(el)
            ok = True
            writes = 0
            for fo, ev2, ups in lp.outs:
                hs = [e for e in ev2 if e.kind == "cpi" and ix(e)[0] == "metadata::update_field"]
                others = [e for e in ev2 if e.kind in ("cpi", "write", "loop") and e not in hs]
                if others:
                    ok = False
                if hs:
                    writes += 1
                    for e in hs:
                        a = ix(e)[1]
                        fn = field_name(a[3])
                        if not (len(hs) == 1 and isinstance(fn, tuple) and fn[1] is k and a[4] is v):
                            ok = False
                    if conditional and not known_diff(fo, k, v, W, lp):
                        ok = False
                elif conditional and W is not None:
                    if not known_same(fo, k, v, W, lp):
                        ok = False
                else:
                    ok = False
            if writes and ok:
                good = lp
            if writes:
                r.ok(ok, w, "every additional field of the source is written with its own key and value%s" % (" unless the stored one already equals it" if conditional else ""))
                break
    if good is None:
        r.ok(not AM_nonempty(AM) and not upd, w, "every additional field of the source is visited")
    stray = [e for e, lp, lf, a in upd if lp is not None and (good is None or lp is not good)]
    r.ok(not stray, w, "no additional field is written from elsewhere")
    return good


def AM_nonempty(AM):
    return not (len(AM) == 1 and AM[0].op == "seq" and not AM[0].a)


def stored_map(m, W, rec):
    """m is the map of the stored additional fields (possibly with keys already visited taken out)"""
    if m.op == "mapof":
        return m.a[0] is mk_field(W, "additional_metadata")
    if m.op == "lv" and rec is not None:
        ini = dict(rec.init).get(m)
        return ini is not None and stored_map(ini, W, None) and all(
            u is m or u.op == "mapdel" and u.a[0] is m and u.a[1] is mk_field(elem_of(rec), "0")
            for _, _, ups in rec.outs for l, u in dict(ups).items() if l is m)
    return False


def by_key(fd, k, A):
    """fd: the first element of A whose key is k"""
    if fd.op != "found" or not any(fd.a[0] is a or same_term_seq(fd.a[0], a) for a in A):
        return False
    return key_test(fd.a[2], fd.a[1], k)


def key_test(t, el, k):
    if t.op != "eq":
        return False
    kk = mk_field(el, "0")
    return t.a[0] is kk and t.a[1] is k or t.a[1] is kk and t.a[0] is k


def same_term_seq(a, b):
    def un(x):
        while x.op == "seq" and len(x.a) == 1 and x.a[0].op == "splat":
            x = x.a[0].a[0]
        return x
    return un(a) is un(b)


def stored_under(b, k, W, rec):
    """b: what the wrapped mint stores under key k -> 'opt' (an Option), 'val' (the value), or None"""
    if b.op == "mapget" and b.a[1] is k and stored_map(b.a[0], W, rec):
        return "opt"
    if b.op == "field" and b.a[1] == "0" and b.a[0].op == "as" and b.a[0].a[1] == "Some" and stored_under(b.a[0].a[0], k, W, rec) == "opt":
        return "val"
    if b.op == "field" and b.a[1] == "1" and by_key(b.a[0], k, [mk_field(W, "additional_metadata")]):
        return "val"
    return None


def lookup_eq(t, k, v, W, rec):
    """t compares what is stored under key k with v"""
    if t.op != "eq":
        return False
    for a, b in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
        if a.op == "adt" and a.a[1] == "Some" and a.a[3][0] is v and stored_under(b, k, W, rec) == "opt":
            return True
        if a is v and b is not v and stored_under(b, k, W, rec) == "val":
            return True
    return False


def pair_stored(fo, k, v, W):
    """is (k, v) known to be among the stored fields: True, False or None"""
    for t, val in fo.bools.items():
        if t.op == "forall" and t.a[0] is mk_field(W, "additional_metadata") and t.a[2].op == "not" and t.a[2].a[0].op == "and":
            x, y = t.a[2].a[0].a
            val_el = mk_field(t.a[1], "1")
            for x, y in ((x, y), (y, x)):
                if key_test(x, t.a[1], k) and y.op == "eq" and {y.a[0], y.a[1]} == {val_el, v}:
                    return not val
    return None


def known_same(fo, k, v, W, rec):
    return pair_stored(fo, k, v, W) is True or any(val is True and lookup_eq(t, k, v, W, rec) for t, val in fo.bools.items())


def known_diff(fo, k, v, W, rec):
    if pair_stored(fo, k, v, W) is False or any(val is False and (lookup_eq(t, k, v, W, rec)) for t, val in fo.bools.items()):
        return True
    # or the key is absent
    for t, val in fo.eq.items():
        if t.op == "discr" and val == "None" and stored_under(t.a[0], k, W, rec) == "opt":
            return True
    return has_key(fo, k, [mk_field(W, "additional_metadata")]) is False


def has_key(fo, k, A):
    """do the pairs A include key k: True, False or None (unknown)"""
    for t, v in fo.bools.items():
        if t.op == "forall" and any(same_term_seq(t.a[0], a) for a in A) and t.a[2].op == "not" and key_test(t.a[2].a[0], t.a[1], k):
            return not v
        if t.op == "contains" and t.a[1] is k and t.a[0].op in ("setof", "seq", "mapkeys") and keys_of(t.a[0], A):
            return v
    for t, v in fo.eq.items():
        if t.op == "discr" and t.a[0].op == "mapget" and t.a[0].a[1] is k and t.a[0].a[0].op == "mapof" and any(same_term_seq(t.a[0].a[0].a[0], a) for a in A):
            return v == "Some"
    return None


def keys_of(q, A):
    """q: exactly the keys of the pairs A"""
    if q.op == "setof":
        return keys_of(q.a[0], A)
    if q.op == "seq" and len(q.a) == 1 and q.a[0].op == "splat":
        return keys_of(q.a[0].a[0], A)
    if q.op == "mapseq":
        lid, sq, body = q.a
        return any(same_term_seq(sq, a) for a in A) and body is mk_field(T("elem", lid, sq), "0")
    return False


def removal(p, r, w, rem, W, AM, m, s):
    """every stored additional field whose key the source lacks is removed, and no other"""
    WA = mk_field(W, "additional_metadata")
    loops = []
    for e, lp, lf, a in rem:
        if lp is None:
            r.ok(False, loc(e), "fields are removed by visiting all stored fields")
            return
        if lp not in loops:
            loops.append(lp)
    r.ok(len(loops) == 1, w, "stored fields the source lacks are removed (one pass over the stored fields)")
    if len(loops) != 1:
        return
    lp = loops[0]
    L = layers(p, lp.seqs[0], WA, AM) if len(lp.seqs) == 1 else None
    if L is None:
        r.ok(False, w, "removal visits the stored fields (of the wrapped mint)")
        return
    ls, kind = L
    el = elem_of(lp)
    k = el if kind == "key" else mk_field(el, "0")
    kept, dropped = [], []
    ok = True
    for fo, ev2, ups in lp.outs:
        hs = [e for e in ev2 if e.kind in ("cpi", "write", "loop")]
        if not hs:
            dropped.append(has_key(fo, k, AM))
        else:
            ok = ok and len(hs) == 1 and hs[0].kind == "cpi" and ix(hs[0])[0] == "metadata::remove_key" and ix(hs[0])[1][3] is k
            kept.append(has_key(fo, k, AM))
    r.ok(ok and kept, w, "a visited stored field is removed under its own key")
    ls = ls + [(kept, dropped)]
    r.ok(all(x is True for _, d in ls for x in d), w, "every stored field the source lacks is removed")
    r.ok(any(kp and all(x is False for x in kp) for kp, _ in ls), w, "keys the source has are exempt from removal, each of them")


class Guard:
    """the guard of a fold's case, as facts"""

    def __init__(self, g):
        self.eq, self.bools = {}, {}
        for k, v, w in g:
            if w and isinstance(v, Term) and v.op == "bool":
                self.bools[k] = v.a[0]
            elif w:
                self.eq[k] = v


def layers(p, q, WA, AM):
    """q as the stored pairs (or their keys) narrowed step by step: [(kept, dropped)] where each entry says whether the source is known to have
    (True), to lack (False) or neither (None) the key of the elements that pass, and that do not pass, the step.  None: q is something else."""
    while q.op == "seq" and len(q.a) == 1 and q.a[0].op == "splat":
        q = q.a[0].a[0]
    if same_seq(p, q, WA):
        return [], "pair"
    rec = lambda x: layers(p, x, WA, AM)
    if q.op == "mapiter":
        b = rec(q.a[1])
        return None if b is None or b[1] != "pair" or q.a[0] == "values" else (b[0], "pair" if q.a[0] == "pairs" else "key")
    if q.op == "mapof":
        b = rec(q.a[0])
        return b if b is not None and b[1] == "pair" else None
    if q.op == "setof":
        b = rec(q.a[0])
        return b if b is not None and b[1] == "key" else None

    def image(body, el, kind):
        if body is el:
            return kind
        if kind == "pair" and body is mk_field(el, "0"):
            return "key"
        if kind == "pair" and body.op == "tuple" and len(body.a) == 2 and all(x is mk_field(el, str(i)) for i, x in enumerate(body.a)):
            return "pair"
        return None

    if q.op == "mapseq":
        b = rec(q.a[1])
        kind = image(q.a[2], T("elem", q.a[0], q.a[1]), b[1]) if b is not None else None
        return (b[0], kind) if kind else None
    if q.op == "fold":
        lid, lv, ini, seqs, cases = q.a
        if len(seqs) != 1:
            return None
        el = T("elem", lid, seqs[0])
        if ini.op == "seq" and not ini.a:
            b = rec(seqs[0])
            if b is None:
                return None
            k = el if b[1] == "key" else mk_field(el, "0")
            kept, dropped, kinds = [], [], set()
            for g, v in cases:
                if v is lv:
                    dropped.append(has_key(Guard(g), k, AM))
                elif v.op == "push" and v.a[0] is lv:
                    kept.append(has_key(Guard(g), k, AM))
                    kinds.add(image(v.a[1], el, b[1]))
                else:
                    return None
            return (b[0] + [(kept, dropped)], kinds.pop()) if len(kinds) == 1 and None not in kinds else None
        b = rec(ini)
        if b is None or b[1] != "pair":
            return None
        if any(same_seq(p, seqs[0], a) for a in AM):
            # the source's keys are taken out, each of them
            if all(v.op == "mapdel" and v.a[0] is lv and v.a[1] is mk_field(el, "0") for g, v in cases):
                return b[0] + [([False], [True])], "pair"
            return None
        if seqs[0].op == "mapiter" and seqs[0].a[1] is ini and seqs[0].a[0] in ("pairs", "keys"):
            k = el if seqs[0].a[0] == "keys" else mk_field(el, "0")
            kept, dropped = [], []
            for g, v in cases:
                if v is lv:
                    kept.append(has_key(Guard(g), k, AM))
                elif v.op == "mapdel" and v.a[0] is lv and v.a[1] is k:
                    dropped.append(has_key(Guard(g), k, AM))
                else:
                    return None
            return b[0] + [(kept, dropped)], "pair"
    return None


# ------------------------------------------------------------------------------ C13, C14

def struct_args(t):
    """adt -> {field: term}"""
    return dict(zip(t.a[2], t.a[3])) if t is not None and t.op == "adt" else {}


def some(t):
    return t.a[3][0] if t.op == "adt" and t.a[1] == "Some" else None


def none(t):
    return t.op == "adt" and t.a[1] == "None"


def mpl_write(p, r):
    """the single write of the SPL sync: (event, kind, DataV2 term)"""
    ev = written(p, 5)
    w = where(p)
    r.ok(len(ev) == 1 and ev[0][1] is None and ev[0][0].kind == "cpi", w, "exactly one write happens (found %d)" % len(ev))
    if len(ev) != 1 or ev[0][0].kind != "cpi":
        return None
    e = ev[0][0]
    n, a = ix(e)
    if n == "mpl::CreateMetadataAccountV3" and len(a) == 2:
        return e, "create", struct_args(a[0]), struct_args(a[1])
    if n == "mpl::UpdateMetadataAccountV2" and len(a) == 2:
        return e, "update", struct_args(a[0]), struct_args(a[1])
    r.ok(False, loc(e), "the Metaplex record is created or updated (found %s)" % n)
    return None


def C13(P, r):
    kinds = {}
    for p in need_paths(P, r, 5):
        m = mpl_write(p, r)
        if m is None:
            continue
        e, kind, acc, arg = m
        kinds[kind] = kinds.get(kind, 0) + 1
        w = loc(e)
        f = p.facts_at(e)
        empty = None
        for k, v in list(f.f.eq.items()):
            if strip(k) is T("len", data(0)) and v is I(0):
                empty = True
        for k, vs in f.f.ne.items():
            if strip(k) is T("len", data(0)) and I(0) in vs:
                empty = False
        for k, (lo, hi) in f.f.rng.items():
            if strip(k) is T("len", data(0)) and lo >= 1:
                empty = False
        r.ok(succeeded(p, e.d["res"]), w, "success is reported only if the write succeeded")
        accs = accounts_of(e)
        hand = lambda i: any(p.eq(a, acct(i)) or a.op == "splat" and RP.covers(p, a.a[0], i) for a in accs)
        if kind == "create":
            r.ok(empty is True, w, "a record is created only when it is empty")
            for nm, want in (("metadata", K(0)), ("mint", K(2)), ("mint_authority", K(1)), ("payer", K(1))):
                r.ok(nm in acc and p.eq(acc[nm], want), w, "creation: %s" % nm)
            ua = acc.get("update_authority")
            r.ok(ua is not None and ua.op == "tuple" and p.eq(ua.a[0], K(1)) and ua.a[1] is TRUE, w, "creation: the derived authority is the (signing) update authority")
            r.ok(arg.get("is_mutable") is TRUE, w, "creation: the record stays mutable")
            r.ok(arg.get("collection_details") is not None and none(arg["collection_details"]), w, "creation: no collection details")
            r.ok(all(hand(i) for i in (0, 2, 1, 5)), w, "creation: record, mint, authority and system program are handed over")
            r.ok("data" in arg and arg["data"].op == "adt", w, "creation writes the converted metadata")
        else:
            r.ok(empty is False, w, "a record is updated only when it exists")
            r.ok(p.eq(acc.get("metadata", UNIT), K(0)) and p.eq(acc.get("update_authority", UNIT), K(1)), w, "update: record and authority")
            r.ok(some(arg.get("data", UNIT)) is not None, w, "update writes the converted metadata")
            for nm in ("new_update_authority", "primary_sale_happened", "is_mutable"):
                r.ok(nm in arg and none(arg[nm]), w, "update leaves %s untouched" % nm)
            r.ok(all(hand(i) for i in (0, 1)), w, "update: record and authority are handed over")
        ss = seeds_of(e)
        r.ok(len(ss) == 1 and signer_of(ss[0]) is not None and p.eq(signer_of(ss[0]), auth_pda(K(2))), w, "the write is signed by the wrapped mint's derived authority")
    r.ok(kinds.get("create") and kinds.get("update"), "spl_token_wrap::processor::process_sync_metadata_to_spl_token", "records are created and updated")
    r.notes["writes"] = kinds


JSON = "serde_json"


def text_of(t, val, plain, facts=None):
    """t is the textual form of val (JSON; for plain numbers and flags also the display form, which is the same)"""
    if t.op == "str" and facts is not None:
        x = t.a[0].decode() if isinstance(t.a[0], bytes) else t.a[0]
        return x in ("true", "false") and FactView(facts).true(val) is (x == "true")
    if t.op == "field" and t.a[0].op == "as":
        t = t.a[0].a[0]
    if aname(t) != "to_string":
        return False
    a = plain_args(t)
    if JSON not in appname(t) and not plain:
        return False
    x = a[0]
    if x.op == "seq" and len(x.a) == 1 and x.a[0].op == "splat" and val.op != "seq":
        x = x.a[0].a[0]
    return x is val


def unverified_list(t, src):
    """src with every element's verified flag cleared and nothing else changed"""
    if t.op == "seq" and len(t.a) == 1 and t.a[0].op == "splat":
        t = t.a[0].a[0]
    if t.op != "mapseq" or t.a[1] is not src:
        return False
    el = T("elem", t.a[0], t.a[1])
    return unverified(t.a[2], el)


def unverified(t, src):
    """src with its verified flag cleared"""
    if t.op == "with" and t.a[0] is src:
        return t.a[1] in (("f", "verified"), (("f", "verified"),)) and t.a[2] is FALSE or wflag(t, src)
    if t.op == "adt" and "verified" in t.a[2]:
        return all((v is FALSE) if n == "verified" else v is mk_field(src, n) for n, v in zip(t.a[2], t.a[3]))
    return wflag(t, src)


def wflag(t, src):
    return t.op == "with" and len(t.a) == 3 and t.a[0] is src and "verified" in str(t.a[1]) and "address" not in str(t.a[1]) and t.a[2] is FALSE


def decoded(t, v, names):
    """(type argument list) of the decoding of v that t is the success value of"""
    if t.op == "field" and t.a[1] == "0" and t.a[0].op == "as" and t.a[0].a[1] == "Ok":
        a = t.a[0].a[0]
        if aname(a) in names and plain_args(a) and plain_args(a)[0] is v:
            return a
    return None


PLAIN = ("seller_fee_basis_points", "primary_sale_happened", "is_mutable", "edition_nonce")


def C14(P, r):
    seen = {"to-token-2022": 0, "to-metaplex": 0}
    done = set()
    for op in (4, 5):
        for p in need_paths(P, r, op):
            s = source(p, op)
            if s["kind"] is None:
                continue
            m = meta_fields(p, op, s)
            w = where(p)
            if m is None:
                r.ok(False, w, "one source record feeds the translation")
                continue
            # Metaplex -> Token-2022: the list of additional fields
            if s["kind"] == "metaplex" and op == 4:
                loops = [e.d["rec"] for e in p.evs if e.kind == "loop"]
                AM = [q for lp in loops for q in lp.seqs if q.op == "seq" and any(x is m for x in subterms(q))]
                r.ok(len({id(x) for x in AM}) == 1, w, "the record's attributes are carried over as one list of fields")
                if AM and ((AM[0], "am") not in done or spelled_out(AM[0])):
                    done.add((AM[0], "am"))
                    seen["to-token-2022"] += 1
                    attributes(p, r, AM[0], m)
            if op == 5:
                ev = written(p, 5)
                for e, lp, lf in ev:
                    n, a = ix(e) if e.kind == "cpi" else (None, ())
                    if not n or not n.startswith("mpl::") or len(a) != 2:
                        continue
                    d = struct_args(a[1]).get("data")
                    if d is not None and some(d) is not None:
                        d = some(d)
                    D = struct_args(d) if d is not None else {}
                    if not D:
                        r.ok(False, loc(e), "the written data is the translation of the source")
                        continue
                    for nm in ("name", "symbol", "uri"):
                        r.ok(nm in D and p.eq(D[nm], mk_field(m, nm)), loc(e), "to Metaplex: the %s is unchanged" % nm)
                    key_ = (d, "d")
                    if key_ in done:
                        continue
                    done.add(key_)
                    seen["to-metaplex"] += 1
                    datav2(p, r, e, D, m, s)
    published(P, r)
    r.notes.update(seen)
    r.ok(seen["to-token-2022"] > 0 and seen["to-metaplex"] > 0, "spl_token_wrap::metaplex", "both translations are exercised by succeeding syncs")


def spelled_out(am):
    """some value is a text of its own, right only under what the path knows"""
    return any(x.op == "tuple" and len(x.a) == 2 and x.a[1].op == "str" for it in am.a for x in subterms(it))


def published(P, r):
    """the public reader of a mint's metadata: a record it builds from Metaplex data is that data, of that mint"""
    fn = "spl_token_wrap::metadata::extract_token_metadata"
    args = [T("param", "unwrapped_mint"), T("param", "source"), T("param", "program")]
    run = P.fn(fn, args)
    n, seen = 0, set()
    for s, v in run.res:
        v = run.it.freeze(s, v)
        if v.op != "adt" or v.a[1] != "Ok":
            continue
        v = v.a[3][0]
        n += 1
        p = Path(s, v)
        D = struct_args(v)
        if not D:
            # a record decoded as a whole
            ok = any(aname(x) in ("get_variable_len_extension", "unpack_from_slice") for x in subterms(v))
            r.ok(ok, fn, "a record is read as it is stored or translated field by field", key="public record")
            continue
        m = D["name"].a[0] if "name" in D and D["name"].op == "field" else None
        good = m is not None and any(aname(x) == "safe_deserialize" for x in subterms(m))
        r.ok(good, fn, "the translated record's name is the Metaplex record's", key="public name")
        if not good:
            continue
        for nm in ("symbol", "uri"):
            r.ok(nm in D and p.eq(D[nm], mk_field(m, nm)), fn, "the translated record's %s is the Metaplex record's" % nm)
        r.ok("mint" in D and p.eq(D["mint"], mk_field(args[0], "key")), fn, "the translated record names the unwrapped mint")
        ua = D.get("update_authority")
        r.ok(ua is not None and aname(ua) == "maybe_null" and p.eq(plain_args(ua)[0], mk_field(m, "update_authority")), fn,
             "the translated record keeps the update authority")
        am = D.get("additional_metadata")
        if am is None or am.op != "seq":
            r.ok(False, fn, "the translated record lists its attributes")
        elif am not in seen or spelled_out(am):
            seen.add(am)
            attributes(p, r, am, m)
    r.notes["public records"] = n
    r.ok(n > 0, fn, "the public reader can succeed")


def attributes(p, r, am, m):
    w = "spl_token_wrap::metaplex (attributes carried to Token-2022)"
    got = {}
    for it in am.a:
        guard = None
        items = [it]
        if it.op == "splat":
            o = it.a[0]
            if o.op == "opt":
                guard, items = o.a[0], o.a[1].a if o.a[1].op == "seq" else None
            else:
                items = None
        if items is None:
            r.ok(False, w, "every attribute is carried as a key and value")
            continue
        for x in items:
            if x.op != "tuple" or len(x.a) != 2 or x.a[0].op != "str":
                r.ok(False, w, "every attribute is carried under a fixed key (%s)" % show(x)[:60])
                continue
            k = x.a[0].a[0]
            k = k.decode() if isinstance(k, bytes) else k
            r.ok(k not in got, w, "each key is used once (%s)" % k)
            got[k] = (guard, x.a[1])
    always = {"key": "key", "seller_fee_basis_points": None, "primary_sale_happened": None, "is_mutable": None}
    opt = ("creators", "edition_nonce", "token_standard", "collection", "uses", "collection_details", "programmable_config")
    r.ok(set(got) == set(always) | set(opt), w, "exactly the record's attributes are carried (%s)" % sorted(set(got) ^ (set(always) | set(opt))), key="attribute set")
    for k in always:
        if k in got:
            g, v = got[k]
            r.ok(g is None, w, "%s is always carried" % k)
            r.ok(text_of(v, mk_field(m, k), k in PLAIN, p.facts), w, "%s is carried under its own key" % k)
    for k in opt:
        if k not in got:
            continue
        g, v = got[k]
        src = mk_field(m, k)
        inner = mk_field(mk_as(src, "Some"), "0")
        gs = norm_guard(g)
        d = T("discr", src)
        if k == "creators":
            t = v.a[0].a[0] if v.op == "field" and v.a[0].op == "as" else v
            r.ok(aname(t) == "to_string" and JSON in appname(t) and unverified_list(plain_args(t)[0], inner), w, "creators are carried, every one as unverified")
            okg = g is not None and all(x[0] in (d, T("len", inner)) or is_enc(x) for x in gs) and \
                (any(x[0] is d and x[1] == "Some" and x[2] for x in gs) or any(x[0] is T("len", inner) for x in gs))
            r.ok(okg, w, "creators are carried exactly when there are some")
        else:
            r.ok(text_of(v, inner, k in PLAIN), w, "%s is carried under its own key" % k)
            r.ok(g is not None and any(x[0] is d and x[1] == "Some" and x[2] is True for x in gs) and all(x[0] is d or is_enc(x) for x in gs), w,
                 "%s is carried exactly when the record has it" % k)


def norm_guard(g):
    out = []
    for x in g or ():
        if isinstance(x, tuple) and len(x) == 3:
            out.append(x)
        elif isinstance(x, tuple) and len(x) == 2:
            out.append((x[0], True, x[1]))
        else:
            out.append((x, True, True))
    return out


def is_enc(x):
    """success of encoding (its failure makes the whole translation fail)"""
    t = x[0]
    return t.op == "discr" and x[1] == "Ok" and x[2] is True and aname(t.a[0]) == "to_string"


def datav2(p, r, e, D, m, s):
    w = loc(e)
    exp = {"seller_fee_basis_points": None, "creators": None, "collection": None, "uses": None}
    r.ok(set(D) == {"name", "symbol", "uri"} | set(exp), w, "to Metaplex: every attribute is written")
    for nm in exp:
        t = D.get(nm)
        if t is None:
            continue
        if t.op != "fold":
            r.ok(False, w, "to Metaplex: %s comes from the source's additional fields" % nm)
            continue
        lid, lv, ini, seqs, cases = t.a[0], t.a[1], t.a[2], t.a[3], t.a[4]
        am = mk_field(m, "additional_metadata")
        srcok = len(seqs) == 1 and (same_seq(p, seqs[0], am) if s["kind"] != "metaplex" else any(x is m for x in subterms(seqs[0])))
        r.ok(srcok, w, "to Metaplex: all additional fields of the source are visited")
        if not srcok:
            continue
        if nm == "seller_fee_basis_points":
            r.ok(ini is I(0), w, "to Metaplex: a missing seller fee is zero")
        else:
            r.ok(none(ini), w, "to Metaplex: a missing %s stays absent" % nm)
        k, v = pair(T("elem", lid, seqs[0]))
        hit = 0
        for guard, val in cases:
            iskey = [g for g in norm_guard(guard) if g[0] is k and text(g[1]) == nm]
            if any(g[2] is True for g in iskey):
                hit += 1
                r.ok(good_value(nm, val, v), w, "to Metaplex: %s is decoded from its own field%s" % (nm, ", as unverified" if nm in ("creators", "collection") else ""))
            else:
                r.ok(val is lv, w, "to Metaplex: %s is not taken from another field" % nm)
                others = [g for g in norm_guard(guard) if g[0] is k and g[2] is True]
                r.ok(bool(others) or any(g[2] is False for g in iskey), w, "to Metaplex: the %s field is never ignored" % nm)
        r.ok(hit > 0, w, "to Metaplex: the %s field is carried over" % nm)


def text(t):
    if isinstance(t, Term) and t.op in ("str", "bytes"):
        t = t.a[0]
    if isinstance(t, bytes):
        t = t.decode("latin1")
    return t


def good_value(nm, val, v):
    if nm == "seller_fee_basis_points":
        a = decoded(val, v, ("parse", "from_str"))
        return a is not None and any("u16" in str(x) for x in tyargs(a))
    x = some(val)
    if x is None:
        return False
    if nm == "uses":
        a = decoded(x, v, ("from_str",))
        return a is not None and targ_is(a, "Uses")
    if nm == "collection":
        for y in subterms(x):
            if decoded(y, v, ("from_str",)) is not None and targ_is(decoded(y, v, ("from_str",)), "Collection"):
                return unverified(x, y)
        return False
    for y in subterms(x):
        a = decoded(y, v, ("from_str",))
        if a is not None:
            return "Creator" in str(tyargs(a)) and unverified_list(x, y)
    return False


# ------------------------------------------------------------------------------ C15

def C15(P, r):
    for op in (4, 5):
        R = SYNC[op]
        for p in need_paths(P, r, op):
            ev = written(p, op)
            first = None
            for e in p.evs:
                if e.kind == "loop" and any(state_changing(x) for o in e.d["rec"].outs for x in o[1]) or state_changing(e) and not (e.kind == "cpi" and is_emit(p, e, op)):
                    first = e
                    break
            f = p.facts_at(first)
            w = where(p, first) if first else where(p)
            h = HANDLER[op] + ": "
            r.ok(f.eq(owner(R["wm"]), R["wprog"]), w, h + "the wrapped mint belongs to the matching token program")
            r.ok(f.eq(K(R["wm"]), mint_pda(K(R["um"]), R["wprog"])), w, h + "the wrapped mint is derived from the unwrapped mint for that program")
            r.ok(f.eq(K(R["auth"]), auth_pda(K(R["wm"]))), w, h + "the authority is derived from the wrapped mint")
            r.ok(f.eq(K(R["prog"]), T22 if op == 4 else MPL), w, h + "the program written through is the genuine one")
            if op == 5:
                r.ok(f.eq(K(0), mpl_pda(K(R["wm"]))), w, h + "the Metaplex record is the one derived from the wrapped mint")
            for e, lp, lf in ev:
                if e.kind != "cpi":
                    r.ok(False, loc(e), h + "metadata is written only through the metadata programs")
                    continue
                n, a = ix(e)
                if op == 4:
                    good = n in ("metadata::update_field", "metadata::remove_key", "metadata::initialize") and p.eq(a[0], T22) and p.eq(a[1], K(0)) and p.eq(a[2], K(1))
                else:
                    sa = struct_args(a[0]) if a else {}
                    good = (n or "").startswith("mpl::") and p.eq(sa.get("metadata", UNIT), K(0)) and ("mint" not in sa or p.eq(sa["mint"], K(2)))
                r.ok(good, loc(e), h + "the write targets the wrapped mint's metadata")
                ss = seeds_of(e)
                r.ok(len(ss) == 1 and signer_of(ss[0]) is not None and p.eq(signer_of(ss[0]), auth_pda(K(R["wm"]))), loc(e), h + "the write is made under the wrapped mint's derived authority")


# ------------------------------------------------------------------------------ C16

def authority_evidence(f, i, who):
    """the mint authority recorded in account i is known to be who"""
    for x in RP.equal_terms(f, who):
        s = strip(x)
        if from_data(s, i) and any(y.op == "field" and y.a[1] == "mint_authority" for y in subterms(s)):
            # the present (Some) authority, not a default
            if s.op == "field" and s.a[0].op == "as" and s.a[0].a[1] in ("Ok", "Some"):
                b = x.a[0].a[0]
                if f.variant(b) == x.a[0].a[1] or f.variant(b) is None:
                    return True
    return False


def C16(P, r):
    new = old = 0
    for p in need_paths(P, r, 6):
        e = p.first_effect()
        f = p.facts_at(e)
        w = where(p, e) if e else "process_set_canonical_pointer"
        r.ok(f.true(T("field", acct(0), "is_signer")) is True, w, "the mint authority signs")
        r.ok(f.eq(owner(2), SPL) or f.eq(owner(2), T22), w, "the mint belongs to a token program")
        r.ok(authority_evidence(f, 2, K(0)), w, "the signer is the current authority recorded in the mint")
        r.ok(f.eq(K(1), ptr_pda(K(2))), w, "the pointer is the address derived from the mint")
        eff = p.effects()
        r.ok(all(lp is None for _, lp, _ in eff), w, "nothing is repeated")
        ws = [x for x, lp, lf in eff if x.kind == "write"]
        r.ok(len(ws) == 1 and whole_key_write(p, ws[0], 1, requested(p), "CanonicalDeploymentPointer", "program_id"), loc(ws[0]) if ws else w,
             "the pointer stores exactly the requested program")
        cp = [x for x, lp, lf in eff if x.kind == "cpi"]
        r.ok(all(x.kind in ("cpi", "write") for x, lp, lf in eff), w, "no other effect")
        empty = None
        for k, v in p.facts.eq.items():
            if strip(k) is T("len", data(1)) and first_epoch(k):
                empty = v is I(0)
        for k, vs in p.facts.ne.items():
            if strip(k) is T("len", data(1)) and I(0) in vs and first_epoch(k):
                empty = False
        if cp:
            new += 1
            names = [ix(x)[0] for x in cp]
            r.ok(names == ["system::allocate", "system::assign"], w, "an empty pointer is allocated and assigned, each once (found %s)" % names)
            if names == ["system::allocate", "system::assign"]:
                a, b = ix(cp[0])[1], ix(cp[1])[1]
                r.ok(empty is True, loc(cp[0]), "creation happens only when the pointer is empty")
                r.ok(p.eq(a[0], K(1)) and p.eq(a[1], I(32)), loc(cp[0]), "the pointer account is sized exactly")
                r.ok(RP.funded(p, 1, a[1]), loc(cp[0]), "the pointer account is rent exempt")
                r.ok(p.eq(b[0], K(1)) and p.eq(b[1], PIDP), loc(cp[1]), "the pointer account is owned by this program")
                for x in cp:
                    r.ok(succeeded(p, x.d["res"]), loc(x), "success only if this step succeeded")
                    ss = seeds_of(x)
                    r.ok(len(ss) == 1 and signer_of(ss[0]) is not None and p.eq(signer_of(ss[0]), ptr_pda(K(2))), loc(x), "creation is signed by the pointer's own address")
        else:
            old += 1
            r.ok(empty is False, w, "an existing pointer is only overwritten")
    r.ok(new > 0 and old > 0, "spl_token_wrap::processor::process_set_canonical_pointer", "pointers can be created and updated")
    r.notes["create_paths"], r.notes["update_paths"] = new, old


def requested(p):
    """the 32-byte parameter of the instruction"""
    return mk_slice(INPUT, 1, None)
