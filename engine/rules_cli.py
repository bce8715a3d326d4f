"""Rules L01-L07: the command line client."""
import interp
from terms import *
from paths import *
from rules_prog import Rep, MissingAnchor, Prog as ProgramRuns, aname, appname, plain_args, targ_is, tyargs
from rules_api import meta, instr_parts, resolve, fields, unwrap_adt

CR = "spl_token_wrap_cli"
CONFIG = T("param", "config")
ARGS = T("param", "args")


def some(t):
    return mk_field(mk_as(t, "Some"), "0")


def okval(t):
    return mk_field(mk_as(t, "Ok"), "0")


def arg(name):
    return mk_field(ARGS, name)


PAYER = some(mk_field(CONFIG, "fee_payer"))
DRY = mk_field(CONFIG, "dry_run")


class Prog(ProgramRuns):
    def __init__(self, files):
        self.lib = interp.Program(files["cli"])
        self.local = {CR}
        self._root = None
        self.files = files
        self.runs = []
        self.clilib = interp.Program(files["clilib"])
        self._cmd = {}

    def command(self, name):
        """the paths of one subcommand, from Command::execute to its completion"""
        if name not in self._cmd:
            inst = self.inst(CR + "::cli::Command::execute")
            if inst is None:
                raise MissingAnchor("Command::execute")
            vs = self.lib.fields.get(CR + "::cli::Command", {})
            if name not in vs:
                raise MissingAnchor("subcommand " + name)
            me = T("adt", CR + "::cli::Command", name, ("0",), (ARGS,))
            args = [me, CONFIG, T("param", "matches"), T("param", "wallet_manager")]
            if inst["argc"] != len(args):
                raise MissingAnchor("Command::execute with %d parameters" % len(args))
            r = AsyncRun(self, inst, args)
            r.name = name
            r.argnames = self.argnames(name)
            r.paths = [CPath(r, s, v) for s, v in r.ok]
            r.fails = [CPath(r, s, r.it.freeze(s, v)) for s, v in r.err]
            self._cmd[name] = r
        return self._cmd[name]

    def argnames(self, name):
        """field names of the subcommand's argument struct"""
        for ap, vs in self.lib.fields.items():
            if ap.startswith(CR + "::") and ap.split("::")[-1] == name + "Args":
                return set(next(iter(vs.values())))
        return set()

    def commands(self):
        vs = self.lib.fields.get(CR + "::cli::Command")
        if not vs:
            raise MissingAnchor("enum Command")
        return [self.command(n) for n in vs]


def only_display(t):
    """a fact about the output format or the simulation's logs"""
    return any(x.op == "field" and x.a[1] in ("output_format", "logs") for x in subterms(t))


class AsyncRun(Run):
    """exploration of an async function to the completion of its future"""

    def __init__(self, prog, inst, args, overrides=None):
        self.root = inst["path"]
        self.it = it = interp.Interp(prog.lib, prog.local)
        it.overrides.update(overrides or {})
        it.linked = {"spl_token_wrap": prog.clilib}
        it.merge_same = only_display
        it.overrides.update(CLI_MODELS)
        st = interp.State()
        self.res = []
        for s, v in it.exec_inst(st, inst["id"], args):
            if v.op == "coroutine":
                co = prog.lib.insts.get(v.a[0])
                if co is None or not co.get("blocks"):
                    raise MissingAnchor("body of the async function " + inst["path"])
                self.res += it.exec_inst(s, v.a[0], [v, T("context")])
            else:
                self.res.append((s, v))
        self.total = len(self.res)
        self.ok, self.err = [], []
        for s, v in self.res:
            r = is_ok(it, s, v)
            if r is not None:
                self.ok.append((r[0], it.freeze(r[0], r[1])))
            if r is None or r[1].op != "adt":
                self.err.append((s, v))
        prog.runs.append(self)


# ------------------------------------------------------------------------------------- models

RPC = "solana_rpc_client::nonblocking::rpc_client::RpcClient::"


def fz(it, st, v):
    return it.freeze(st, it.deep(st, v))


def tx_new(it, st, c, a):
    return [(st, T("tx", fz(it, st, a[0]), fz(it, st, a[1])))]


def tx_unsigned(it, st, c, a):
    m = fz(it, st, a[0])
    return [(st, T("tx", *m.a[:2]))] if m.op == "msg" else None


def msg_new(it, st, c, a):
    return [(st, T("msg", fz(it, st, a[0]), fz(it, st, a[1])))]


def msg_bh(it, st, c, a):
    return [(st, T("msg", fz(it, st, a[0]), fz(it, st, a[1]), fz(it, st, a[2])))]


def tx_signed_with_payer(it, st, c, a):
    sign_panic(it, st, c)
    return [(st, T("signed", T("tx", fz(it, st, a[0]), fz(it, st, a[1])), fz(it, st, a[2]), fz(it, st, a[3]), FULL))]


def tx_signed(it, st, c, a):
    m = fz(it, st, a[1])
    sign_panic(it, st, c)
    return [(st, T("signed", T("tx", *m.a[:2]), fz(it, st, a[0]), fz(it, st, a[2]), FULL))] if m.op == "msg" else None


FULL, PARTIAL = T("signing", "every"), T("signing", "some")


def sign_panic(it, st, c):
    """these constructors panic when a signer refuses, is missing or does not belong: no client can rule that out"""
    it.panics.append(("signing, which can fail", it.origin(c.loc), st.facts.copy()))


def tx_sign(fallible, part):
    def f(it, st, c, a):
        p = a[0]
        if p.op != "ptr":
            return None
        old = it.freeze(st, it.deep(st, p))
        new = T("signed", old, fz(it, st, a[1]), fz(it, st, a[2]), part)
        if not fallible:
            sign_panic(it, st, c)
        it.store_ptr(st, p, new, c.loc)
        if not fallible:
            return [(st, UNIT)]
        return [(st, T("app", "try_sign", new))]
    return f


CLI_MODELS = {
    "std::io::stdio::_print": lambda it, st, c, a: [(st, UNIT)],
    "solana_transaction::Transaction::new_with_payer": tx_new,
    "solana_transaction::Transaction::new_unsigned": tx_unsigned,
    "solana_transaction::Transaction::new_signed_with_payer": tx_signed_with_payer,
    "solana_transaction::Transaction::new": tx_signed,
    "solana_transaction::Transaction::partial_sign": tx_sign(False, PARTIAL),
    "solana_transaction::Transaction::sign": tx_sign(False, FULL),
    "solana_transaction::Transaction::try_partial_sign": tx_sign(True, PARTIAL),
    "solana_transaction::Transaction::try_sign": tx_sign(True, FULL),
    "solana_message::legacy::Message::new": msg_new,
    "solana_message::legacy::Message::new_with_blockhash": msg_bh,
}


# ------------------------------------------------------------------------------------- paths

def is_send(name):
    n = name.split("::")[-1].lower()
    return "send" in n or "airdrop" in n or "broadcast" in n or "submit" in n


def is_simulate(name):
    return "simulate" in name.split("::")[-1].lower()


def is_query(name):
    n = name.split("::")[-1]
    return name.startswith(RPC) and (n.startswith(("get_", "is_", "wait_for", "confirm", "poll_")) or n in ("commitment", "url"))


def pubkey_of(t):
    """the signer whose public key this is"""
    if t.op == "app" and aname(t) in ("pubkey", "try_pubkey") and len(plain_args(t)) == 1:
        return plain_args(t)[0]
    return None


def key_of(s):
    return [s]


class Tx:
    def __init__(self, t):
        self.t = t
        self.signers, self.hashes, self.partial = [], [], True
        while t.op == "signed":
            self.signers = [t.a[1]] + self.signers
            self.hashes = [t.a[2]] + self.hashes
            self.partial = self.partial and t.a[3] is PARTIAL
            t = t.a[0]
        self.known = t.op == "tx"
        self.ixs = t.a[0] if self.known else None
        self.payer = unwrap_adt(t.a[1], "Some") if self.known else None


class CPath(Path):
    def __init__(self, run, s, v):
        Path.__init__(self, s, v)
        self.run = run
        self.state = s
        self.subs = []
        self.loops = []

        def go(evs, loop):
            for e in evs:
                if e.kind == "loop":
                    self.loops.append(e)
                    for fo, ev2, ups in e.d["rec"].outs:
                        go(ev2, e)
                    for ab in e.d["rec"].aborts:
                        go(ab[1], e)
                elif e.kind in ("await", "call"):
                    self.subs.append((e, loop))
        go(self.evs, None)
        self.fv = FactView(self.facts)

    def sends(self):
        return [(e, l) for e, l in self.subs if (e.kind == "await" or not e.d["name"].startswith(RPC)) and is_send(e.d["name"])]

    def simulations(self):
        return [(e, l) for e, l in self.subs if e.kind == "await" and is_simulate(e.d["name"])]

    def submissions(self):
        return self.sends() + self.simulations()

    def where(self):
        return "%s (%s)" % (CR, self.run.name)

    def given(self, name):
        """'Some' or 'None': was the optional argument supplied on this path"""
        return self.fv.variant(arg(name))

    def transactions(self):
        """every transaction the path submits or shows"""
        out = []
        for e, l in self.submissions():
            f = e.d.get("fut")
            a = plain_args(f) if f is not None and f.op == "app" else e.d.get("args", ())
            for x in a:
                if x.op in ("signed", "tx"):
                    out.append((e, Tx(x)))
                    break
            else:
                out.append((e, None))
        for x in subterms(self.value):
            if x.op == "app" and aname(x) == "return_signers_data":
                y = plain_args(x)[0]
                out.append((None, Tx(y) if y.op in ("signed", "tx") else None))
        return out


def queried(t):
    """(names, key): the field names read out of the account fetched at this key; None when it is no such value"""
    names = []
    n = 0
    while n < 30:
        n += 1
        if t.op == "field":
            names.append(t.a[1])
            t = t.a[0]
        elif t.op in ("as", "idx"):
            t = t.a[0]
        elif t.op == "await":
            f = t.a[0]
            if f.op == "app" and f.a[0].startswith(RPC + "get_account"):
                a = plain_args(f)
                return names, a[1], t
            return None
        elif t.op == "app":
            c = [x for x in plain_args(t) if isinstance(x, Term) and any(y.op == "await" for y in subterms(x))]
            if len(c) != 1:
                return None
            names.append(aname(t) + "<" + ",".join(str(x) for x in tyargs(t)) + ">")
            t = c[0]
        else:
            return None
    return None


def is_owner_of(p, t, key):
    """t is the owner of the account fetched at key"""
    for x in same(p, t):
        q = queried(x)
        if q and q[0][0] == "owner" and not any(n in ("data", "base") for n in q[0]) and p.eq(q[1], key):
            return True
    return False


def is_mint_of(p, t, key):
    """t is the mint recorded in the token account fetched at key"""
    for x in same(p, t):
        q = queried(x)
        if q and q[0][0] == "mint" and "data" in q[0] and any(n.startswith("unpack") and "Account" in n for n in q[0]) and p.eq(q[1], key):
            return True
    return False


def same(p, t):
    """the terms the path found equal to t"""
    c = p.canon(t)
    out = [t, c]
    for k, v in p.facts.eq.items():
        for x in (k, v):
            if isinstance(x, Term) and p.canon(x) is c:
                out.append(x)
    for k, v in p.facts.bools.items():
        if k.op == "eq" and v is True:
            for x in k.a:
                if p.canon(x) is c:
                    out.append(x)
    return out


def ixs_of(p, tx):
    if tx is None or not tx.known:
        return None
    return resolve(p.facts, tx.ixs)


def check_accounts(p, rep, parts, want, what):
    """want: list of (term or predicate, writable, signer) """
    pid, accs, dat = parts
    w = p.where()
    rep.ok(pid is PID, w, "%s: the instruction addresses this program" % what)
    items = resolve(p.facts, accs)
    if items is None:
        rep.ok(False, w, "%s: the accounts of the instruction are known" % what)
        return []
    for i, (t, wr, sg) in enumerate(want):
        m = meta(items[i]) if i < len(items) else None
        if m is None:
            rep.ok(False, w, "%s: account %d is present" % (what, i))
            continue
        k, s, wri = m
        good = t(k) if callable(t) else p.eq(k, t)
        rep.ok(good, w, "%s: account %d is the one the request designates" % (what, i))
    return items[len(want):]


def flat_map(t):
    """(base sequence, body over T('each', base)) of nested element-wise maps"""
    if t.op == "mapseq":
        lid, sq, body = t.a
        base, inner = flat_map(sq)
        el = T("elem", lid, sq)

        def f(x):
            return inner if x is el else x
        return base, mapterm(body, f)
    if t.op == "seq" and len(t.a) == 1 and t.a[0].op == "splat":
        return flat_map(t.a[0].a[0])
    return t, T("each", t)


def splat_map(t):
    return flat_map(t.a[0]) if t.op == "splat" else (None, None)


MS = "multisig_signer"


def is_signer_source(t, src):
    """the signer loaded from this source"""
    return t.op == "field" and t.a[1] == "0" and t.a[0].op == "as" and t.a[0].a[1] == "Ok" and aname(t.a[0].a[0]).startswith("signer_from_") and \
        any(x is src for x in plain_args(t.a[0].a[0]))


def authority_ok(p, t):
    """t is the public key of the authority the user named, or of the fee payer when none was named"""
    s = pubkey_of(t)
    if s is None:
        return False
    g = p.given("transfer_authority")
    return is_signer_source(s, some(arg("transfer_authority"))) if g == "Some" else (g == "None" and s is PAYER)


def signer_rules(p, rep, tx, w):
    """fee payer, authority unless a multisig is used, members, presigners; nobody else"""
    items = []
    for sq in tx.signers:
        r = resolve(p.facts, sq)
        if r is None:
            return rep.ok(False, w, "the signers of the transaction are known")
        items += r
    rep.ok(any(x is PAYER for x in items), w, "the fee payer signs")
    ms = p.given(MS)
    members = mapped(some(arg(MS)))
    empty = ms == "None" or ms == "Some" and p.fv.is_zero(T("len", some(arg(MS))))
    auth = members_in = pres = False
    ta = p.given("transfer_authority")
    akey = None
    for x in items:
        if x is PAYER:
            if ta == "None":
                auth = True
            continue
        if ta == "Some" and is_signer_source(x, some(arg("transfer_authority"))):
            auth = True
            akey = x
            continue
        base, body = splat_map(x)
        if base is some(arg(MS)) and is_signer_source(body, T("each", base)):
            members_in = True
            continue
        if base is some(arg("signer")) and body is T("each", base):
            pres = True
            continue
        rep.ok(False, w, "nobody but the fee payer, the authority, the members and the presigners signs", key="foreign signer")
    if ta == "Some" and not auth:
        for k, v in p.facts.bools.items():
            if k.op == "eq" and v is True and {True} == {pubkey_of(z) is PAYER or pubkey_of(z) is not None and
                                                        is_signer_source(pubkey_of(z), some(arg("transfer_authority"))) for z in k.a}:
                auth = True
        for k, v in p.facts.eq.items():
            if isinstance(v, Term) and pubkey_of(k) is not None and pubkey_of(v) is not None and \
                    {x is PAYER or is_signer_source(x, some(arg("transfer_authority"))) for x in (pubkey_of(k), pubkey_of(v))} == {True}:
                auth = True
    rep.ok(ta in ("Some", "None"), w, "whether an authority was named is examined")
    rep.ok(auth or not empty, w, "the authority signs unless a multisig is used")
    rep.ok(akey is None or empty, w, "a multisig authority is not asked to sign itself")
    rep.ok(members_in or empty, w, "every multisig member signs")
    g = p.given("signer")
    rep.ok(g == "None" or g == "Some" and pres, w, "the supplied presigners are used")


def mapped(t):
    return t


def given_or(p, name, default):
    """predicate: the argument when supplied, otherwise the default"""
    def f(k):
        g = p.given(name)
        if g == "Some":
            return p.eq(k, some(arg(name)))
        return g == "None" and (default(k) if callable(default) else p.eq(k, default))
    return f


def blockhash_ok(p, t):
    def latest(k):
        return any(x.op == "await" and aname(x.a[0]).startswith("get_latest_blockhash") or x.op == "await" and aname(x.a[0]).startswith("get_new_")
                   for x in subterms(k))
    if "blockhash" in p.run.argnames:
        return given_or(p, "blockhash", latest)(t)
    return latest(t)


def transaction_rules(p, rep, what, n=1):
    """the transactions a path submits or shows: one, known, paid by the fee payer; returns [(tx, instructions)]"""
    w = p.where()
    out = []
    txs = p.transactions()
    for e, tx in txs:
        if tx is None or not tx.known:
            rep.ok(False, w, "the submitted transaction is known")
            continue
        rep.ok(tx.payer is not None and pubkey_of(tx.payer) is PAYER, w, "the transaction is paid by the fee payer")
        rep.ok(len(tx.hashes) >= 1 and all(blockhash_ok(p, h) for h in tx.hashes), w, "the transaction uses the supplied or a fresh blockhash")
        if e is None:
            rep.ok(tx.partial, w, "a transaction that is only signed and shown may still lack others' signatures")
        ixs = ixs_of(p, tx)
        if ixs is None:
            rep.ok(False, w, "the instructions of the transaction are known")
            continue
        out.append((tx, ixs))
    return out


def data_is(p, dat, code, args=()):
    """the instruction data: code and encoded arguments"""
    if dat is None or dat.op not in ("seq", "bytes"):
        return False
    exp = T("seq", I(code), *args)
    if dat.op == "bytes":
        return not args and dat.a[0] == bytes([code])
    return p.canon(dat) is p.canon(exp)


def le(t):
    return splat(app("le", t))


# ------------------------------------------------------------------------------------- L01

def canonical(p, u, wtp, utp):
    m = mint_pda(u, wtp)
    a = auth_pda(m)
    return m, a, ata(a, u, utp)


def L01(ctx, rep):
    n = {}
    for name in ("Wrap", "Unwrap"):
        r = ctx.command(name)
        w = "%s (%s)" % (CR, name)
        for p in r.paths:
            txs = transaction_rules(p, rep, name)
            rep.ok(len(txs) >= 1, w, "a succeeding run built a transaction")
            for tx, ixs in txs:
                rep.ok(len(ixs) == 1, w, "the transaction holds exactly one instruction")
                parts = instr_parts(ixs[0]) if ixs else None
                if parts is None:
                    rep.ok(False, w, "the instruction is one of this program's")
                    continue
                acc = resolve(p.facts, parts[1])
                ks = [meta(x)[0] if meta(x) else None for x in acc or []]
                if acc is None or len(ks) < 9 or None in ks[:9]:
                    rep.ok(False, w, "the accounts of the instruction are known")
                    continue
                n[name] = n.get(name, 0) + 1
                if name == "Wrap":
                    rep.ok(data_is(p, parts[2], 1, (le(arg("amount")),)), w, "the instruction wraps the requested amount")
                    u, utp, wtp = ks[6], ks[3], ks[4]
                    rep.ok(p.eq(wtp, arg("wrapped_token_program")), w, "the wrapped token program is the one requested")
                    rep.ok(given_or(p, "unwrapped_mint", lambda k: is_mint_of(p, k, arg("unwrapped_token_account")))(u), w,
                           "the unwrapped mint is the one supplied or the source account's")
                    rep.ok(given_or(p, "unwrapped_token_program", lambda k: is_owner_of(p, k, arg("unwrapped_token_account")) or is_owner_of(p, k, u))(utp), w,
                           "the unwrapped token program is the one supplied or the source account's owner")
                    m, a, esc = canonical(p, u, wtp, utp)
                    dflt = [ata(z, m, wtp) for z in pubkeys_of_payer(p)]
                    want = [(given_or(p, "recipient_token_account", lambda k: any(p.eq(k, d) for d in dflt)), 1, 0), (m, 1, 0), (a, 0, 0), (utp, 0, 0), (wtp, 0, 0),
                            (arg("unwrapped_token_account"), 1, 0), (u, 0, 0), (esc, 1, 0), (lambda k: authority_ok(p, k), 0, None)]
                else:
                    rep.ok(data_is(p, parts[2], 2, (le(arg("amount")),)), w, "the instruction unwraps the requested amount")
                    u, utp, wtp = ks[3], ks[5], ks[4]
                    m, a, esc = canonical(p, u, wtp, utp)
                    rep.ok(is_owner_of(p, wtp, arg("wrapped_token_account")), w, "the wrapped token program is the owner of the wrapped account")
                    rep.ok(is_mint_of(p, u, arg("unwrapped_token_recipient")), w, "the unwrapped mint is the recipient account's")
                    rep.ok(is_owner_of(p, utp, u), w, "the unwrapped token program is the owner of the unwrapped mint")
                    want = [(esc, 1, 0), (arg("unwrapped_token_recipient"), 1, 0), (a, 0, 0), (u, 0, 0), (wtp, 0, 0), (utp, 0, 0),
                            (arg("wrapped_token_account"), 1, 0), (m, 1, 0), (lambda k: authority_ok(p, k), 0, None)]
                tail = check_accounts(p, rep, parts, want, name.lower())
                g = p.given(MS)
                rep.ok(g in ("Some", "None"), w, "whether multisig members were named is examined")
                if g == "None":
                    rep.ok(not tail, w, "no further accounts are listed without a multisig")
                else:
                    good = False
                    if len(tail) == 1:
                        base, body = splat_map(tail[0])
                        mm = meta(body) if body is not None else None
                        good = base is some(arg(MS)) and mm is not None and pubkey_of(mm[0]) is not None and \
                            is_signer_source(pubkey_of(mm[0]), T("each", base)) and mm[1] is TRUE
                    rep.ok(good or p.fv.is_zero(T("len", some(arg(MS)))) and not tail, w, "every multisig member is listed as a signer")
                signer_rules(p, rep, tx, w)
    rep.notes["transactions"] = n
    rep.ok(set(n) == {"Wrap", "Unwrap"}, CR, "both commands build transactions")


def pubkeys_of_payer(p):
    out = []
    for x in p.transactions():
        if x[1] is not None and x[1].payer is not None and pubkey_of(x[1].payer) is PAYER:
            out.append(x[1].payer)
    return out


# ------------------------------------------------------------------------------------- L02

HARMLESS = ("solana_clap_v3_utils::", "solana_remote_wallet::", "std::env::", "solana_cli_config::")


def L02(ctx, rep):
    sites, nsub, ops = set(), {}, {}
    for r in ctx.commands():
        for p in r.paths + r.fails:
            w = p.where()
            snd, sim = p.sends(), p.simulations()
            for e, l in p.subs:
                nm = e.d["name"]
                ops[nm.split("::")[-1]] = ops.get(nm.split("::")[-1], 0) + 1
                if e.kind == "await":
                    rep.ok(is_send(nm) or is_simulate(nm) or is_query(nm), repr(e.loc), "what is awaited is a query, a simulation or a submission: " + nm.split("::")[-1])
                else:
                    known = nm.startswith(RPC) or nm.startswith(HARMLESS)
                    rep.ok(known, repr(e.loc), "the effects outside the client's own code are known: " + nm)
            for e, l in snd:
                sites.add(repr(e.loc))
                f = FactView(e.facts) if e.facts is not None else p.fv
                rep.ok(f.true(DRY) is False, repr(e.loc), "a transaction is broadcast only when dry-run is off (%s)" % r.name)
                rep.ok(l is None, repr(e.loc), "a transaction is broadcast once, not repeatedly (%s)" % r.name)
            rep.ok(len(snd) <= 1, w, "a run broadcasts at most one transaction")
            so = p.fv.true(arg("sign_only")) if "sign_only" in r.argnames else False
            if "sign_only" in r.argnames:
                if snd or sim:
                    for e, l in snd + sim:
                        f = FactView(e.facts) if e.facts is not None else p.fv
                        rep.ok(f.true(arg("sign_only")) is False, w, "sign-only neither broadcasts nor simulates")
            if p in r.paths:
                shown = [x for x in subterms(p.value) if x.op == "app" and aname(x) == "return_signers_data"]
                rep.ok(not shown or so is True, w, "signing data is output only for sign-only")
                if so is True:
                    rep.ok(bool(shown), w, "sign-only outputs the signing data")
            nsub[r.name] = nsub.get(r.name, 0) + len(snd) + len(sim)
        rep.ok(("sign_only" in r.argnames) == (r.name in ("Wrap", "Unwrap")), CR, "sign-only is an option of wrap and unwrap: " + r.name)
    rep.ok(len(sites) == 1, CR, "transactions are broadcast from one place (found %s)" % sorted(sites), key="broadcast sites")
    # the flag the commands obey is the one the user gave
    for r in [config_run(ctx)]:
        for s, v in r.ok:
            c = unwrap_adt(v, "Ok")
            rep.ok(c is not None and fields(c).get("dry_run") is mk_field(T("param", "cli"), "dry_run"), CR + "::config::Config::new", "the dry-run flag is taken from the command line")
        rep.ok(bool(r.ok), CR + "::config::Config::new", "a configuration can be built")
    rep.notes["submissions"] = nsub
    rep.notes["operations"] = ops


def config_run(ctx):
    if not hasattr(ctx, "_cfg"):
        inst = ctx.inst(CR + "::config::Config::new")
        if inst is None or inst["argc"] != 3:
            raise MissingAnchor("Config::new")
        ctx._cfg = AsyncRun(ctx, inst, [T("param", "cli"), T("param", "matches"), T("param", "wallet_manager")])
    return ctx._cfg


# ------------------------------------------------------------------------------------- L03

def L03(ctx, rep):
    n = {}
    steps = {}
    for r in ctx.commands():
        for p in r.paths:
            w = p.where()
            subs = p.submissions()
            so = "sign_only" in r.argnames and p.fv.true(arg("sign_only")) is True
            kind = "none"
            for e, l in subs:
                res = e.d["res"]
                rep.ok(p.fv.variant(res) == "Ok", w, "success is reported only after the submission or simulation was answered")
                if is_simulate(e.d["name"]):
                    kind = "simulated"
                    err = mk_field(mk_field(okval(res), "value"), "err")
                    rep.ok(p.fv.variant(err) == "None", w, "a dry run succeeds only if the simulation reported no error")
                else:
                    kind = "submitted"
                    rep.ok("confirm" in e.d["name"].split("::")[-1], w, "a submission is awaited until it is confirmed")
            if not subs and not so and r.name != "FindPdas":
                ok = r.name == "CreateEscrowAccount" and p.fv.true(arg("idempotent")) is True
                rep.ok(ok, w, "a command that builds a transaction submits it")
            n["%s %s" % (r.name, kind)] = n.get("%s %s" % (r.name, kind), 0) + 1
            for x in p.state.resolve_fb():
                st = x.status
                if st is None and x.term is not None:
                    st = p.fv.variant(x.term)
                last = x.name.split("::")[-1]
                steps["%s %s" % (last, st)] = steps.get("%s %s" % (last, st), 0) + 1
                if st == "Err" and last.startswith("get_account") and lookup_of_target(p, x.term):
                    continue
                if st == "Err" and last == "get_extension" and any("MetadataPointer" in str(z) for z in (x.targs or ())):
                    continue
                if st is None and last in ("write_str", "write_fmt", "writeln_name_value"):
                    continue
                rep.ok(st == "Ok", x.loc, "%s: success is reported only after this step succeeded: %s" % (r.name, last))
    # the program's exit reports the command's outcome
    main_rules(ctx, rep)
    rep.notes["outcomes"] = n
    rep.notes["steps"] = steps
    for r in ctx.commands():
        rep.ok(len(r.paths) > 0, CR, "the command can succeed: " + r.name)


def lookup_of_target(p, res):
    """the look-up of an account this command would create: its absence is an answer"""
    if p.run.name not in ("CreateMint", "CreateEscrowAccount") or res is None or res.op != "await":
        return False
    k = plain_args(res.a[0])[1]
    u, wtp = arg("unwrapped_mint"), arg("wrapped_token_program")
    m = mint_pda(u, wtp)
    if p.run.name == "CreateMint":
        return p.eq(k, m) or p.eq(k, back_pda(m))
    return k.op == "pda" and k.a[1] is ATAP and p.eq(k.a[0].a[0], auth_pda(m))


def main_rules(ctx, rep):
    inst = next((i for i in ctx.lib.insts.values() if i.get("coroutine") and i["path"].startswith(CR + "::main::")), None)
    w = CR + "::main"
    if inst is None:
        inst = ctx.inst(CR + "::main")
    if inst is None:
        raise MissingAnchor("main")
    calls = []

    def ov(name, fallible_future=False):
        def f(it, st, c, a):
            t = T("app", name, *[it.freeze(st, it.deep(st, x)) for x in a])
            return [(st, t)]
        return f
    over = {CR + "::config::Config::new": ov("config_new"), CR + "::cli::Command::execute": ov("execute"),
            "clap::derive::CommandFactory::command": ov("clap_command"), "clap::derive::Parser::parse": ov("clap_parse"),
            "clap::derive::CommandFactory::into_app": ov("clap_command")}
    it_args = [T("coroutine", inst["id"], ()), T("context")] if inst.get("coroutine") else []
    r = AsyncRun(ctx, inst, it_args, over)
    for s, v in r.ok:
        p = CPath(r, s, v)
        ex = [e for e, l in p.subs if e.kind == "await" and e.d["fut"].op == "app" and e.d["fut"].a[0] == "execute"]
        rep.ok(len(ex) == 1, w, "one command is executed")
        for e in ex:
            rep.ok(p.fv.variant(e.d["res"]) == "Ok", w, "the process succeeds only if its command did")
            a = e.d["fut"].a[1:]
            rep.ok(any(x.op == "app" and x.a[0] == "config_new" for x in subterms(a[1])), w, "the command runs under the configuration built from the arguments")
    rep.ok(bool(r.ok), w, "the process can succeed")


# ------------------------------------------------------------------------------------- L04

def L04(ctx, rep):
    r = ctx.command("Unwrap")
    w = "%s (Unwrap)" % CR
    n = 0
    for p in r.paths + r.fails:
        if not p.submissions() and p in r.fails:
            continue
        for e, tx in p.transactions():
            ixs = ixs_of(p, tx)
            parts = instr_parts(ixs[0]) if ixs else None
            acc = resolve(p.facts, parts[1]) if parts else None
            ks = [meta(x)[0] if meta(x) else None for x in acc or []]
            if len(ks) < 9 or None in ks[:9]:
                rep.ok(False, w, "the accounts of the instruction are known")
                continue
            n += 1
            u, wtp, utp = ks[3], ks[4], ks[5]
            rep.ok(is_owner_of(p, wtp, arg("wrapped_token_account")), w, "the wrapped token program is the actual owner of the wrapped account")
            rep.ok(is_mint_of(p, u, arg("unwrapped_token_recipient")), w, "the unwrapped mint is the actual mint of the recipient account")
            rep.ok(is_owner_of(p, utp, u), w, "the unwrapped token program is the actual owner of that mint")
            for a, k in (("wrapped_token_program", wtp), ("unwrapped_mint", u), ("unwrapped_token_program", utp)):
                g = p.given(a)
                rep.ok(g == "None" or g == "Some" and p.eq(k, some(arg(a))), w, "a supplied value that differs from the actual one is refused: " + a)
    rep.ok(n > 0, w, "unwrap builds transactions")
    # token programs
    inst = ctx.inst(CR + "::common::parse_token_program")
    if inst is None:
        raise MissingAnchor("parse_token_program")
    q = AsyncRun(ctx, inst, [T("param", "value")])
    seen = set()
    for s, v in q.ok:
        p = CPath(q, s, v)
        k = p.canon(unwrap_adt(v, "Ok") or okval(v))
        rep.ok(k in (SPL, T22), CR + "::common::parse_token_program", "only the two token programs are accepted")
        seen.add(str(k))
    rep.ok(len(seen) == 2, CR + "::common::parse_token_program", "both token programs are accepted")
    token_program_args(ctx, rep)
    rep.notes["transactions"] = n


def token_program_args(ctx, rep):
    """every token-program argument is parsed by parse_token_program"""
    found = {}
    for i in ctx.lib.insts.values():
        if i["crate"] != CR or not i.get("blocks") or not i["path"].endswith("::augment_args") or "as clap::derive::Args>" not in i["path"]:
            continue
        q = AsyncRun(ctx, i, [T("param", "app")])
        st = i["path"].split(" as ")[0].strip("<").split("::")[-1]
        for s, v in q.res:
            v = q.it.freeze(s, v)
            for x in subterms(v):
                if x.op == "app" and aname(x) == "value_parser" and len(plain_args(x)) >= 2:
                    nm = [y for y in subterms(x) if y.op == "app" and aname(y) == "new" and "Arg" in y.a[0] and plain_args(y)[0].op in ("str", "bytes")]
                    fn = [str(y) for z in plain_args(x)[1:] for y in subterms(z)] + [str(y) for y in tyargs(x)]
                    for z in nm:
                        found[(st, str(plain_args(z)[0]))] = fn
    rep.notes["arguments"] = len(found)
    ctx._argparsers = found
    k = 0
    for (st, a), fn in found.items():
        if "token_program" in a or "token-program" in a:
            k += 1
            rep.ok(any("parse_token_program" in y for y in fn), CR + " (" + st + ")", "the argument %s accepts only the two token programs" % a)
    rep.ok(k >= 1, CR, "token-program arguments exist", key="token program arguments")


# ------------------------------------------------------------------------------------- L05

def L05(ctx, rep):
    r = ctx.command("CreateMint")
    w = "%s (CreateMint)" % CR
    u, wtp = arg("unwrapped_mint"), arg("wrapped_token_program")
    m = mint_pda(u, wtp)
    b = back_pda(m)
    space = None
    inst = next((i for i in ctx.clilib.insts.values() if i["path"].startswith("<spl_token_wrap::mint_customizer::default_token_2022::") and
                 i["path"].endswith("::get_token_2022_mint_space") and i.get("blocks")), None)
    if inst is None:
        raise MissingAnchor("get_token_2022_mint_space of the default flavour")
    it = interp.Interp(ctx.clilib, {"spl_token_wrap"})
    for s, v in it.exec_inst(interp.State(), inst["id"], []):
        v = it.freeze(s, v)
        space = unwrap_adt(v, "Ok") or okval(v)
    n = {}
    for p in r.paths:
        t22 = p.eq(wtp, T22)
        size = p.canon(space) if t22 else I(82)
        txs = transaction_rules(p, rep, "create mint")
        rep.ok(len(txs) == 1, w, "one transaction is submitted")
        for tx, ixs in txs:
            ixs = list(ixs)
            for tgt, sz, nm in ((m, size, "wrapped mint"), (b, I(32), "backpointer")):
                rent = [x for x in rents(p) if p.eq(plain_args(x.a[0])[1], sz)]
                if not rent:
                    rep.ok(False, w, "the rent of the %s is queried for the size the program allocates" % nm)
                    continue
                have = balance(p, tgt)
                rep.ok(have is not None, w, "the balance of the %s is queried" % nm)
                if have is None:
                    continue
                rv = okval(rent[0])
                at = [i for i, z in enumerate(ixs[:-1]) if z.op == "app" and z.a[0] == "system::transfer" and p.eq(z.a[2], tgt)]
                funded = bool(at)
                t = ixs[at[0]] if at else None
                short = mk_sub_(rv, have)
                if funded:
                    ixs.pop(at[0])
                    n[nm + " funded"] = n.get(nm + " funded", 0) + 1
                    rep.ok(pubkey_of(t.a[1]) is PAYER, w, "the %s is funded by the fee payer" % nm)
                    rep.ok(any(p.canon(t.a[3]) is p.canon(z) for z in short), w, "the %s receives exactly the shortfall" % nm)
                else:
                    n[nm + " already funded"] = n.get(nm + " already funded", 0) + 1
                    enough = p.fv.true(mk_lt(have, rv)) is False or p.fv.true(mk_lt(rv, have)) is True or any(p.fv.is_zero(z) for z in short) or p.eq(rv, have)
                    rep.ok(enough, w, "no transfer to the %s only when it is already funded" % nm)
            rep.ok(len(ixs) == 1, w, "the funding is followed by one creation instruction")
            parts = instr_parts(ixs[0]) if len(ixs) == 1 else None
            if parts is None:
                rep.ok(False, w, "the creation instruction is this program's")
                continue
            dat = parts[2]
            good = dat is not None and dat.op == "seq" and len(dat.a) == 2 and dat.a[0] is I(0)
            rep.ok(good and flag_is(p, dat.a[1], arg("idempotent")), w, "the instruction carries the requested idempotent flag")
            tail = check_accounts(p, rep, parts, [(m, 1, 0), (b, 1, 0), (u, 0, 0), (SYS, 0, 0), (wtp, 0, 0)], "create-mint")
            rep.ok(not tail, w, "no further accounts are listed")
            for sq in tx.signers:
                rs = resolve(p.facts, sq)
                rep.ok(rs is not None and all(x is PAYER for x in rs) and rs, w, "the fee payer signs")
    rep.notes["paths"] = n
    for k in ("wrapped mint funded", "wrapped mint already funded", "backpointer funded", "backpointer already funded"):
        rep.ok(n.get(k, 0) > 0, w, "the case is handled: " + k)


def flag_is(p, t, a):
    v = p.fv.true(a)
    if t is a:
        return True
    if t.op == "int" and v is not None:
        return t.a[0] == int(v)
    if t.op == "app" and aname(t) in ("cast", "from") or t.op == "cast":
        return any(x is a for x in subterms(t))
    return any(x is a for x in subterms(t)) and t.op in ("ite", "boolint")


def rents(p):
    return [e.d["res"] for e, l in p.subs if e.kind == "await" and aname(e.d["fut"]) == "get_minimum_balance_for_rent_exemption"]


def balance(p, key):
    """the lamports the path learnt for this address: zero when the look-up failed"""
    for e, l in p.subs:
        if e.kind == "await" and aname(e.d["fut"]).startswith("get_account") and p.eq(plain_args(e.d["fut"])[1], key):
            v = p.fv.variant(e.d["res"])
            if v == "Ok":
                return mk_field(okval(e.d["res"]), "lamports")
            if v == "Err":
                return I(0)
        if e.kind == "await" and aname(e.d["fut"]) == "get_balance" and p.eq(plain_args(e.d["fut"])[1], key):
            v = p.fv.variant(e.d["res"])
            if v == "Ok":
                return okval(e.d["res"])
            if v == "Err":
                return I(0)
    return None


def mk_sub_(a, b):
    if b is I(0):
        return [a]
    return [T("sub", a, b), mk_add(a, T("neg", b)) if "mk_add" in globals() else T("sub", a, b)]


# ------------------------------------------------------------------------------------- L06

def L06(ctx, rep):
    u, wtp = arg("unwrapped_mint"), arg("wrapped_token_program")
    m = mint_pda(u, wtp)
    a = auth_pda(m)
    r = ctx.command("CreateEscrowAccount")
    w = "%s (CreateEscrowAccount)" % CR
    n = {}
    for p in r.paths + [q for q in r.fails if q.submissions()]:
        real_mint(p, rep, u, w)
        looked = None
        for e, l in p.subs:
            if e.kind == "await" and aname(e.d["fut"]).startswith("get_account"):
                k = plain_args(e.d["fut"])[1]
                if k.op == "pda" and k.a[1] is ATAP and p.eq(k.a[0].a[0], a) and p.eq(k.a[0].a[2], u) and is_owner_of(p, k.a[0].a[1], u):
                    looked = p.fv.variant(e.d["res"])
        rep.ok(looked is not None, w, "whether the canonical escrow exists is examined")
        txs = transaction_rules(p, rep, "create escrow")
        if not txs:
            n["skip"] = n.get("skip", 0) + 1
            rep.ok(looked == "Ok" and p.fv.true(arg("idempotent")) is True, w, "nothing is created only when the escrow exists and the request is idempotent")
        for tx, ixs in txs:
            n["create"] = n.get("create", 0) + 1
            rep.ok(looked == "Err", w, "the escrow is created only when it does not exist")
            rep.ok(len(ixs) == 1, w, "one instruction creates the escrow")
            t = ixs[0] if ixs else None
            ok = t is not None and t.op == "app" and aname(t) in ("create_associated_token_account", "create_associated_token_account_idempotent") or \
                t is not None and t.op == "app" and t.a[0].endswith(("ata::create", "ata::create_idempotent"))
            rep.ok(ok, w, "the escrow is created as an associated account")
            if ok:
                x = plain_args(t)
                rep.ok(pubkey_of(x[0]) is PAYER, w, "the fee payer pays for the escrow")
                rep.ok(p.eq(x[1], a), w, "the escrow belongs to the pair's authority")
                rep.ok(p.eq(x[2], u), w, "the escrow holds the unwrapped mint")
                rep.ok(is_owner_of(p, x[3], u), w, "the escrow is created under the mint's actual token program")
            for sq in tx.signers:
                rs = resolve(p.facts, sq)
                rep.ok(rs is not None and all(z is PAYER for z in rs) and rs, w, "the fee payer signs")
    rep.ok(n.get("create", 0) > 0 and n.get("skip", 0) > 0, w, "creating and skipping both occur")
    r = ctx.command("CloseStuckEscrow")
    w = "%s (CloseStuckEscrow)" % CR
    k = 0
    for p in r.paths + [q for q in r.fails if q.submissions()]:
        for tx, ixs in transaction_rules(p, rep, "close"):
            k += 1
            rep.ok(len(ixs) == 1, w, "the transaction holds exactly one instruction")
            parts = instr_parts(ixs[0]) if ixs else None
            if parts is None:
                rep.ok(False, w, "the instruction is one of this program's")
                continue
            rep.ok(data_is(p, parts[2], 3), w, "the instruction closes a stuck escrow")
            esc = lambda z: z.op == "pda" and z.a[1] is ATAP and p.eq(z.a[0].a[0], a) and p.eq(z.a[0].a[2], u) and p.eq(z.a[0].a[1], T22)
            tail = check_accounts(p, rep, parts, [(lambda z: esc(p.canon(z)) or esc(z), 1, 0), (arg("destination"), 1, 0), (u, 0, 0), (m, 0, 0), (a, 0, 0), (T22, 0, 0)], "close")
            rep.ok(not tail, w, "no further accounts are listed")
            own = any(e.kind == "await" and aname(e.d["fut"]).startswith("get_account") and p.eq(plain_args(e.d["fut"])[1], u) and
                      p.eq(mk_field(okval(e.d["res"]), "owner"), T22) for e, l in p.subs)
            rep.ok(own, w, "only mints owned by Token-2022 are accepted")
            for sq in tx.signers:
                rs = resolve(p.facts, sq)
                rep.ok(rs is not None and all(z is PAYER for z in rs) and rs, w, "the fee payer signs")
    rep.ok(k > 0, w, "the command builds transactions")
    r = ctx.command("FindPdas")
    w = "%s (FindPdas)" % CR
    for p in r.paths:
        o = output(p)
        f = fields(o) if o is not None else {}
        rep.ok(f.get("wrapped_mint_address") is m, w, "the wrapped mint shown is the canonical one")
        rep.ok(f.get("wrapped_mint_authority") is a, w, "the authority shown is the canonical one")
        rep.ok(f.get("wrapped_backpointer_address") is back_pda(m), w, "the backpointer shown is the canonical one")
        e = f.get("unwrapped_escrow")
        rep.ok(e is not None and e.op == "pda" and e.a[1] is ATAP and p.eq(e.a[0].a[0], a) and p.eq(e.a[0].a[2], u) and is_owner_of(p, e.a[0].a[1], u), w,
               "the escrow shown is the canonical one under the mint's actual token program")
    labels(ctx, rep, "find_pdas::PdasOutput", {"wrapped_mint_address": ("mint",), "wrapped_mint_authority": ("authority",),
                                               "wrapped_backpointer_address": ("backpointer",), "unwrapped_escrow": ("escrow",)})
    rep.notes["escrow"] = n


def real_mint(p, rep, u, w):
    own = unp = False
    for e, l in p.subs:
        if e.kind == "await" and aname(e.d["fut"]).startswith("get_account") and p.eq(plain_args(e.d["fut"])[1], u) and p.fv.variant(e.d["res"]) == "Ok":
            o = mk_field(okval(e.d["res"]), "owner")
            if p.canon(o) in (SPL, T22):
                own = True
            # `owner != a && owner != b` leaves one equality per path
            for k, v in p.facts.eq.items():
                if k.op == "discr" and v == "Ok" and aname(k.a[0]).startswith("unpack") and targ_is(k.a[0], "Mint") or \
                        k.op == "discr" and v == "Ok" and aname(k.a[0]).startswith("unpack") and targ_is(k.a[0], "PodMint"):
                    if any(x is mk_field(okval(e.d["res"]), "data") for x in subterms(k.a[0])):
                        unp = True
    rep.ok(own, w, "the mint is owned by one of the token programs")
    rep.ok(unp, w, "the mint account holds a mint")


def output(p):
    """the report the command formats"""
    for x in subterms(p.value):
        if x.op == "adt" and x.a[0].startswith(CR) and x.a[0].endswith("Output"):
            return x
    return None


def pieces(t):
    """a formatted text as literals (str) and displayed values (terms); None for a layout that is not understood"""
    if t.op == "str":
        return [t.a[0]]
    if t.op != "app":
        return [t]
    if t.a[0] in ("fmt:from_str", "fmt:from_str_nonconst", "fmt:new_const") and t.a[1].op in ("str", "bytes"):
        return [t.a[1].a[0] if t.a[1].op == "str" else bytes(t.a[1].a[0]).decode("utf8", "replace")]
    if t.a[0] == "fmt:format":
        return pieces(t.a[1])
    if t.a[0] != "fmt:new" or t.a[1].op != "bytes" or t.a[2].op != "seq":
        return [t]
    bs, args, out, i = bytes(t.a[1].a[0]), list(t.a[2].a), [], 0
    while i < len(bs) and bs[i]:
        n = bs[i]
        if n < 0x80:
            out.append(bs[i + 1:i + 1 + n].decode("utf8", "replace"))
            i += 1 + n
        elif n == 0xc0 and args:
            x = args.pop(0)
            i += 1
            if x.op == "app" and x.a[0] == "fmt:new_display":
                v = x.a[2]
                out += pieces(v) if v.op in ("str",) or v.op == "app" and v.a[0].startswith("fmt:") else [v]
            else:
                out.append(x)
        else:
            return [t]
    return out


def shown(t):
    """the value whose text is printed"""
    if t.op == "app" and t.a[0] == "to_string":
        return t.a[2]
    return t


def line_of(e):
    """label and values of one printed line"""
    a = e.d["args"]
    ps = [y for x in a for y in pieces(x)]
    return "".join(x for x in ps if isinstance(x, str)), [shown(x) for x in ps if isinstance(x, Term)]


def labels(ctx, rep, typ, words):
    """each reported value is printed after a label that names it, and written to JSON under a key that names it"""
    inst = next((i for i in ctx.lib.insts.values() if i["path"] == "<%s::%s as core::fmt::Display>::fmt" % (CR, typ)), None)
    ser = [i for i in ctx.lib.insts.values() if i["path"].endswith("ser::Serialize for %s::%s>::serialize" % (CR, typ))]
    if inst is None or not ser:
        raise MissingAnchor("Display and Serialize of " + typ)
    me = T("param", "out")
    unit = T("adt", RES, "Ok", ("0",), (T("tuple"),))

    def line(it, st, c, a):
        st.add(interp.Event("print", {"args": tuple(fz(it, st, x) for x in a[1:])}, c.loc, st.facts.copy()))
        return [(st, unit)]
    q = AsyncRun(ctx, inst, [me, T("param", "f")], {"solana_cli_output::display::writeln_name_value": line, "core::fmt::Formatter::<'a>::write_fmt": line,
                                                   "core::fmt::Formatter::<'a>::write_str": line, "core::fmt::Write::write_fmt": line, "core::fmt::Write::write_str": line})
    w = inst["path"]
    flds = next(iter(ctx.lib.fields[CR + "::" + typ].values()))
    got = {}
    rep.ok(bool(q.res), w, "the report can be printed")
    for s, v in q.res:
        v = q.it.freeze(s, v)
        rep.ok(unwrap_adt(v, "Ok") is not None, w, "printing fails only when the output does")
        fv = FactView(s.facts)
        here, each = {}, set()
        for e in s.events():
            if e.kind == "print":
                lab, vals = line_of(e)
                for x in vals:
                    f0 = x.a[0].a[0] if x.op == "field" and x.a[0].op == "as" else x
                    if f0.op == "field" and f0.a[0] is me:
                        here.setdefault(f0.a[1], set()).add(lab)
                        got.setdefault(f0.a[1], set()).add(lab)
            elif e.kind == "loop":
                rec = e.d["rec"]
                for sq in rec.seqs:
                    by = None
                    if sq.op == "range" and sq.a[0] is I(0) and sq.a[1].op == "len":
                        by, sq = sq, sq.a[1].a[0]
                    if sq.op == "field" and sq.a[0] is me:
                        ok = bool(rec.outs) and not rec.aborts
                        for fs, evs, ups in rec.outs:
                            vs = [x for ev in evs if ev.kind == "print" for x in line_of(ev)[1]]
                            x = vs[0] if len(vs) == 1 else T("none")
                            if by is not None and x is T("elem", rec.lid, sq):
                                continue
                            ok = ok and by is None and x.op == "elem" and x.a[1] is sq
                        if ok:
                            each.add(sq.a[1])
        for f in words:
            t = mk_field(me, f)
            k = fv.variant(t)
            rep.ok(f in here or k == "None", w, "%s is printed by every report" % f, key="printed " + f)
        if "signatures" in flds:
            alt = fv.variant(mk_field(me, "sign_only_data")) == "Some" and "sign_only_data" in here
            rep.ok("signatures" in each or alt, w, "every signature is printed, or the signing data instead", key="signatures printed")
    for fname, ws in words.items():
        ls = got.get(fname, set())
        rep.ok(len(ls) == 1 and all(x in list(ls)[0].lower() for x in ws), w, "%s is printed under its own label (found %s)" % (fname, sorted(ls)), key="label " + fname)
        for other, ws2 in words.items():
            if other != fname and ls:
                rep.ok(not (ls & got.get(other, set())), w, "%s and %s have different labels" % (fname, other), key="label " + fname)

    def member(it, st, c, a):
        st.add(interp.Event("print", {"args": tuple(fz(it, st, x) for x in a[1:])}, c.loc, st.facts.copy()))
        return [(st, unit)]
    inst = ser[0]
    w = inst["path"]
    q = AsyncRun(ctx, inst, [me, T("param", "ser")], {"serde_core::ser::SerializeStruct::serialize_field": member, "serde::ser::SerializeStruct::serialize_field": member})
    rep.ok(bool(q.res), w, "the report can be written as JSON")
    keys = {}
    for s, v in q.res:
        fv = FactView(s.facts)
        v = q.it.freeze(s, v)
        if v.op == "adt" and v.a[1] == "Err" or fv.variant(v) == "Err" or not s.events() and fv.variant(v) != "Ok":
            continue
        here = set()
        for e in s.events():
            if e.kind != "print" or len(e.d["args"]) != 2 or e.d["args"][0].op != "str":
                continue
            k, x = e.d["args"]
            fs = {y.a[1] for y in subterms(x) if y.op == "field" and y.a[0] is me}
            for f in fs:
                keys.setdefault(f, set()).add(k.a[0] if len(fs) == 1 else "?")
                here.add(f)
        for f in list(words) + [x for x in ("signatures", "sign_only_data") if x in flds]:
            rep.ok(f in here or fv.variant(mk_field(me, f)) == "None", w, "%s is part of every JSON report" % f, key="json " + f)
    for f, ws in list(words.items()) + [(x, (x.replace("_", ""),)) for x in ("signatures", "sign_only_data") if x in flds]:
        ks = keys.get(f, set())
        rep.ok(len(ks) == 1 and all(x.replace(" ", "") in list(ks)[0].lower().replace("_", "") for x in ws), w, "%s has a JSON key that names it (found %s)" % (f, sorted(ks)), key="json key " + f)
        for o, k2 in keys.items():
            rep.ok(o == f or not (ks & k2), w, "%s and %s have different JSON keys" % (f, o), key="json key " + f)


# ------------------------------------------------------------------------------------- L07

def L07(ctx, rep):
    u = arg("unwrapped_mint")
    n = {}
    r = ctx.command("SyncMetadataToToken2022")
    w = "%s (SyncMetadataToToken2022)" % CR
    m = mint_pda(u, T22)
    mpl = mpl_pda(u)
    for p in r.paths + [q for q in r.fails if q.submissions()]:
        for tx, ixs in transaction_rules(p, rep, "sync"):
            rep.ok(len(ixs) == 1, w, "the transaction holds exactly one instruction")
            parts = instr_parts(ixs[0]) if ixs else None
            if parts is None:
                rep.ok(False, w, "the instruction is one of this program's")
                continue
            rep.ok(data_is(p, parts[2], 4), w, "the instruction syncs to Token-2022")
            tail = check_accounts(p, rep, parts, [(m, 1, 0), (auth_pda(m), 0, 0), (u, 0, 0), (T22, 0, 0)], "sync")
            keys = [meta(x)[0] if meta(x) else None for x in tail]
            g, h = p.given("metadata_account"), p.given("metadata_program_id")
            if h == "Some" and keys:
                rep.ok(p.eq(keys[-1], some(arg("metadata_program_id"))), w, "a supplied owner program is passed through")
                keys = keys[:-1]
            rep.ok(h in ("Some", "None"), w, "whether an owner program was supplied is examined")
            rep.ok(len(keys) <= 1, w, "no further accounts are listed")
            if g == "Some":
                rep.ok(len(keys) == 1 and p.eq(keys[0], some(arg("metadata_account"))), w, "a supplied source is passed through")
                continue
            rep.ok(g == "None", w, "whether a source was supplied is examined")
            case = pointer_case(p, u)
            n[case] = n.get(case, 0) + 1
            if case in ("spl", "unset", "nopointer"):
                rep.ok(len(keys) == 1 and p.eq(keys[0], mpl), w, "without a set pointer the source is the mint's Metaplex record (%s)" % case)
            elif case == "self":
                rep.ok(not keys, w, "no source is passed when the pointer names the mint itself")
            elif case == "other":
                rep.ok(len(keys) == 1 and pointer_target(p, keys[0], u), w, "the source is the pointer's target")
            else:
                rep.ok(False, w, "the source is chosen by the mint's owner and pointer", key="case")
            for sq in tx.signers:
                rs = resolve(p.facts, sq)
                rep.ok(rs is not None and all(z is PAYER for z in rs) and rs, w, "the fee payer signs")
    for c in ("spl", "unset", "nopointer", "self", "other"):
        rep.ok(n.get(c, 0) > 0, w, "the case is handled: " + c)
    r = ctx.command("SyncMetadataToSplToken")
    w = "%s (SyncMetadataToSplToken)" % CR
    m = mint_pda(u, SPL)
    k = 0
    for p in r.paths + [q for q in r.fails if q.submissions()]:
        for tx, ixs in transaction_rules(p, rep, "sync"):
            k += 1
            rep.ok(len(ixs) == 1, w, "the transaction holds exactly one instruction")
            parts = instr_parts(ixs[0]) if ixs else None
            if parts is None:
                rep.ok(False, w, "the instruction is one of this program's")
                continue
            rep.ok(data_is(p, parts[2], 5), w, "the instruction syncs to SPL Token")
            want = [(mpl_pda(m), 1, 0), (auth_pda(m), 1, 0), (m, 0, 0), (u, 0, 0), (MPL, 0, 0), (SYS, 0, 0)]
            tail = check_accounts(p, rep, parts, want, "sync")[1:]
            keys = [meta(x)[0] if meta(x) else None for x in tail]
            exp = []
            for a in ("source_metadata", "owner_program"):
                g = p.given(a)
                rep.ok(g in ("Some", "None"), w, "whether %s was supplied is examined" % a)
                if g == "Some":
                    exp.append(some(arg(a)))
            rep.ok(len(keys) == len(exp) and all(x is not None and p.eq(x, y) for x, y in zip(keys, exp)), w, "supplied source and owner program are passed through unchanged")
            for sq in tx.signers:
                rs = resolve(p.facts, sq)
                rep.ok(rs is not None and all(z is PAYER for z in rs) and rs, w, "the fee payer signs")
    rep.ok(k > 0, w, "the command builds transactions")
    rep.notes["cases"] = n


def pointer_terms(p, u):
    """terms that read the pointer's address"""
    out = set()
    for k in list(p.facts.eq) + list(p.facts.bools) + list(p.facts.ne):
        for x in subterms(k):
            if x.op == "field" and x.a[1] == "metadata_address" and queried(x) and p.eq(queried(x)[1], u):
                out.add(x)
    return out


def pointer_case(p, u):
    own = None
    for e, l in p.subs:
        if e.kind == "await" and aname(e.d["fut"]).startswith("get_account") and p.eq(plain_args(e.d["fut"])[1], u):
            own = p.canon(mk_field(okval(e.d["res"]), "owner"))
    if own is SPL:
        return "spl"
    if own is not T22:
        return "unknown owner"
    for k, v in p.facts.eq.items():
        if k.op == "discr" and aname(k.a[0]) == "get_extension" and targ_is(k.a[0], "MetadataPointer") and v == "Err":
            return "nopointer"
    for x in pointer_terms(p, u):
        for k, v in p.facts.eq.items():
            if k.op == "discr" and v == "None" and (k.a[0] is x or k.a[0].op == "app" and x in plain_args(k.a[0])):
                return "unset"
        for y in subterms_of_facts(p):
            if y.op == "eq" and any(any(z is x for z in subterms(q)) for q in y.a) and any(p.canon(q) is p.canon(u) for q in y.a):
                t = p.fv.true(y)
                if t is True:
                    return "self"
                if t is False:
                    return "other"
        for k, v in p.facts.eq.items():
            if isinstance(v, Term) and any(z is x for z in subterms(k)) and p.canon(v) is p.canon(u) and k.op == "field":
                return "self"
        for k, vs in p.facts.ne.items():
            if any(z is x for z in subterms(k)) and any(isinstance(v, Term) and v is u for v in vs):
                return "other"
    return "?"


def subterms_of_facts(p):
    for k in list(p.facts.bools):
        yield k


def pointer_target(p, t, u):
    return any(any(z is x for z in subterms(t)) for x in pointer_terms(p, u))


# ------------------------------------------------------------------------------------- L08

# field of the report -> position of the account in the program's instruction that it must equal
REPORT = {
    "Wrap": {"recipient_token_account": 0, "wrapped_mint_address": 1, "unwrapped_token_account": 5, "unwrapped_mint_address": 6, "escrow_account": 7},
    "Unwrap": {"escrow_account": 0, "recipient_token_account": 1, "unwrapped_mint_address": 3, "unwrapped_token_program": 5,
               "wrapped_token_account": 6, "wrapped_mint_address": 7},
    "CloseStuckEscrow": {"escrow_account": 0, "unwrapped_mint": 2},
    "CreateMint": {"wrapped_mint_address": 0, "wrapped_backpointer_address": 1, "unwrapped_mint_address": 2},
    "SyncMetadataToToken2022": {"wrapped_mint": 0, "wrapped_mint_authority": 1, "unwrapped_mint": 2},
    "SyncMetadataToSplToken": {"metaplex_metadata": 0, "wrapped_mint_authority": 1, "wrapped_mint": 2, "unwrapped_mint": 3},
}
REPORT_OPT = {
    "SyncMetadataToToken2022": {"source_metadata": 4, "metadata_program_id": 5},
    "SyncMetadataToSplToken": {"source_metadata": 7, "owner_program": 8},
}
REPORT_AMOUNT = ("Wrap", "Unwrap")
LABELS = {
    "wrap::WrapOutput": {"unwrapped_mint_address": ("unwrapped", "mint"), "wrapped_mint_address": ("wrapped mint",), "unwrapped_token_account": ("unwrapped", "account"),
                         "recipient_token_account": ("recipient",), "escrow_account": ("escrow",), "amount": ("amount",)},
    "unwrap::UnwrapOutput": {"unwrapped_mint_address": ("unwrapped", "mint"), "wrapped_mint_address": ("wrapped mint",), "wrapped_token_account": ("wrapped", "account"),
                             "recipient_token_account": ("recipient",), "escrow_account": ("escrow",), "amount": ("amount",), "unwrapped_token_program": ("program",)},
    "close_stuck_escrow::CloseStuckEscrowOutput": {"unwrapped_mint": ("mint",), "escrow_account": ("escrow",)},
    "create_mint::CreateMintOutput": {"unwrapped_mint_address": ("unwrapped", "mint"), "wrapped_mint_address": ("wrapped mint",), "wrapped_backpointer_address": ("backpointer",),
                                      "funded_wrapped_mint_lamports": ("mint", "lamports"), "funded_backpointer_lamports": ("backpointer", "lamports"), "signature": ("signature",)},
    "create_escrow_account::CreateEscrowAccountOutput": {"escrow_account_address": ("escrow", "address"), "escrow_account_owner": ("owner",),
                                                         "unwrapped_token_program_id": ("program",), "signature": ("signature",)},
    "sync_metadata_to_token2022::SyncMetadataToToken2022Output": {"unwrapped_mint": ("unwrapped mint",), "wrapped_mint": ("wrapped mint",), "wrapped_mint_authority": ("authority",),
                                                                  "source_metadata": ("source",), "metadata_program_id": ("program",)},
    "sync_metadata_to_spl_token::SyncMetadataToSplTokenOutput": {"unwrapped_mint": ("unwrapped mint",), "wrapped_mint": ("wrapped mint",), "wrapped_mint_authority": ("authority",),
                                                                 "metaplex_metadata": ("metaplex",), "source_metadata": ("source",), "owner_program": ("owner",), "signature": ("signature",)},
}


def opt_is(p, t, key):
    """the optional value t is Some(key), or None when key is None"""
    if t.op == "adt":
        if key is None:
            return t.a[1] == "None"
        return t.a[1] == "Some" and p.eq(fields(t)["0"], key)
    v = p.fv.variant(t)
    if key is None:
        return v == "None"
    return v == "Some" and p.eq(some(t), key)


def L08(ctx, rep):
    n = {}
    u, wtp = arg("unwrapped_mint"), arg("wrapped_token_program")
    m = mint_pda(u, wtp)
    for r in ctx.commands():
        w = "%s (%s)" % (CR, r.name)
        if r.name == "FindPdas":
            continue
        for p in r.paths:
            o = output(p)
            if o is None:
                if r.name == "CreateEscrowAccount" and not p.submissions():
                    continue
                rep.ok(False, w, "the command reports what it did")
                continue
            f = fields(o)
            n[r.name] = n.get(r.name, 0) + 1
            txs = [t for t in p.transactions()]
            if r.name == "CreateEscrowAccount" and not p.submissions():
                a, e2 = auth_pda(m), f.get("escrow_account_address")
                rep.ok(p.eq(f.get("escrow_account_owner"), a) and is_owner_of(p, f.get("unwrapped_token_program_id"), u), w, "an escrow that exists already is reported with its owner and program")
                rep.ok(e2 is not None and e2.op == "pda" and e2.a[1] is ATAP and p.eq(e2.a[0].a[0], a) and is_owner_of(p, e2.a[0].a[1], u) and p.eq(e2.a[0].a[2], u), w,
                       "an escrow that exists already is reported by its canonical address")
                rep.ok(opt_is(p, f["signature"], None), w, "no signature is reported when nothing was submitted")
                continue
            rep.ok(bool(txs) and all(t is not None and t.known for e, t in txs), w, "the report follows a known transaction")
            for e, tx in txs:
                if tx is None or not tx.known:
                    continue
                ixs = ixs_of(p, tx) or []
                last = ixs[-1] if ixs else None
                if r.name == "CreateEscrowAccount":
                    if last is None or last.op != "app" or len(plain_args(last)) < 4:
                        rep.ok(False, w, "the escrow creation is known")
                        continue
                    x = plain_args(last)
                    rep.ok(p.eq(f.get("escrow_account_owner"), x[1]), w, "the owner reported is the one the escrow is created for")
                    rep.ok(p.eq(f.get("unwrapped_token_program_id"), x[3]), w, "the program reported is the one the escrow is created under")
                    e2 = f.get("escrow_account_address")
                    rep.ok(e2 is not None and e2.op == "pda" and e2.a[1] is ATAP and p.eq(e2.a[0].a[0], x[1]) and p.eq(e2.a[0].a[1], x[3]) and p.eq(e2.a[0].a[2], x[2]), w,
                           "the escrow reported is the one created")
                else:
                    parts = instr_parts(last) if last is not None else None
                    items = resolve(p.facts, parts[1]) if parts else None
                    if items is None:
                        rep.ok(False, w, "the accounts of the reported instruction are known")
                        continue
                    for k, i in sorted(REPORT[r.name].items()):
                        mt = meta(items[i]) if i < len(items) else None
                        rep.ok(mt is not None and f.get(k) is not None and p.eq(f[k], mt[0]), w, "%s reported is the account the transaction uses" % k)
                    if r.name in REPORT_OPT:
                        rest = list(items[min(REPORT_OPT[r.name].values()):])
                        for k, i in sorted(REPORT_OPT[r.name].items(), key=lambda z: z[1]):
                            v = f.get(k)
                            if v is None:
                                rep.ok(False, w, "the report has " + k)
                                continue
                            hit = False
                            if rest:
                                mt = meta(rest[0])
                                if mt is not None and opt_is(p, v, mt[0]):
                                    rest.pop(0)
                                    hit = True
                            rep.ok(hit or opt_is(p, v, None), w, "%s reported is the optional account the transaction uses" % k)
                        rep.ok(not rest, w, "every optional account used is reported")
                    if r.name in REPORT_AMOUNT:
                        rep.ok(f.get("amount") is not None and parts[2].op == "seq" and parts[2].a[1:] == (le(f["amount"]),), w, "the amount reported is the one the transaction moves")
                    if r.name == "CreateMint":
                        for k, i in (("funded_wrapped_mint_lamports", 0), ("funded_backpointer_lamports", 1)):
                            to = meta(items[i])[0]
                            paid = [z.a[3] for z in ixs[:-1] if z.op == "app" and z.a[0] == "system::transfer" and p.eq(z.a[2], to)]
                            v = f.get(k)
                            if paid:
                                rep.ok(v is not None and len(paid) == 1 and p.canon(v) is p.canon(paid[0]), w, "%s reported is what the transaction transfers" % k)
                            else:
                                rep.ok(v is not None and (v is I(0) or p.fv.is_zero(v)), w, "%s is reported as zero when nothing is transferred" % k)
                if "signatures" in f:
                    rep.ok(f["signatures"].op == "field" and f["signatures"].a[1] == "signatures" and f["signatures"].a[0] is tx.t, w, "the signatures reported are the transaction's")
            if "signature" in f:
                snd = p.sends()
                v = f["signature"]
                if snd:
                    rep.ok(opt_is(p, v, okval(snd[0][0].d["res"])), w, "the signature reported is the submission's")
                else:
                    rep.ok(opt_is(p, v, None), w, "no signature is reported when nothing was submitted")
            rep.ok("signature" in f or "signatures" in f, w, "the report carries the signatures")
    for r in ctx.commands():
        if r.name != "FindPdas":
            rep.ok(n.get(r.name, 0) > 0, CR, "the command reports: " + r.name)
    for typ, words in sorted(LABELS.items()):
        labels(ctx, rep, typ, words)
    rep.notes["reports"] = n


# ------------------------------------------------------------------------------------- L09

def names_of(t):
    return {y.a[0] for y in subterms(t) if y.op == "str"}


def text(t):
    """the characters of a string constant"""
    if t.op == "str":
        return t.a[0]
    if t.op == "bytes":
        b = t.a[0]
        return bytes(b).decode("utf8", "replace") if not isinstance(b, str) else b
    return None


def parsers(ctx):
    """functions of this crate that turn one command-line string into a value"""
    out = {}
    for i in ctx.lib.insts.values():
        if i["crate"] != CR or not i.get("blocks") or i.get("coroutine") or i["argc"] != 1 or "{closure" in i["path"] or i["path"].startswith("<"):
            continue
        n = i["path"].split("::")[-1]
        if n.startswith("parse"):
            out[n] = i
    return out


def clap_table(ctx):
    """for each argument structure: its arguments in order, each with the calls that configure it"""
    if hasattr(ctx, "_clap"):
        return ctx._clap
    out = {}
    for i in ctx.lib.insts.values():
        if i["crate"] != CR or not i["path"].endswith("::augment_args") or not i.get("blocks"):
            continue
        q = AsyncRun(ctx, i, [T("param", "app")])
        st = i["path"].split(" as ")[0].strip("<").split("::")[-1]
        for s, v in q.res:
            args = []
            x = q.it.freeze(s, v)
            while x.op == "app" and plain_args(x):
                pa = plain_args(x)
                if aname(x) == "arg" and len(pa) == 2:
                    y = pa[1]
                    ch = {}
                    name = None
                    while y.op == "app" and plain_args(y):
                        if aname(y) == "new":
                            name = text(plain_args(y)[0])
                            break
                        ch.setdefault(aname(y), (tyargs(y), plain_args(y)[1:]))
                        y = plain_args(y)[0]
                    if name is not None:
                        args.append((name, ch))
                x = pa[0]
            args.reverse()
            if args:
                out.setdefault(st, []).append(args)
    ctx._clap = out
    return out


def L09(ctx, rep):
    runs = [(r, "%s (%s)" % (CR, r.name)) for r in ctx.commands()] + [(config_run(ctx), CR + "::config::Config::new")]
    for r, w in runs:
        for what, l, f in r.it.panics:
            rep.ok(False, l, "no argument and no answer makes the client crash here (%s)" % what.split("::")[-1], key="abort %s" % what)
        rep.ok(True, w, "every unwrap, index and arithmetic step is guarded on every path (%d paths)" % r.total)
        rep.ok(r.total > 0, w, "the command was analysed")
    # the possible values of --output, which parse_output_format relies on
    allowed = set()
    for st, ts in clap_table(ctx).items():
        for args in ts:
            for nm, ch in args:
                if "value_parser" in ch:
                    for x in ch["value_parser"][1]:
                        for y in subterms(x):
                            if y.op == "seq" and y.a and all(text(z) is not None for z in y.a):
                                allowed |= {text(z) for z in y.a}
    for n, i in parsers(ctx).items():
        v = T("param", "value")
        q = AsyncRun(ctx, i, [v])
        for what, l, f in q.it.panics:
            ruled = {text(x) for x in refuted(f, v)} - {None}
            left = allowed - ruled
            rep.ok(n == "parse_output_format" and bool(allowed) and not left, l, "no argument makes the client crash while it is parsed%s" % (" (%s)" % sorted(left) if left else ""), key="abort parsing " + n)
        rep.ok(bool(q.res), i["path"], "parsing ends in a value or an error")
    rep.notes["commands"] = len(runs)


def refuted(f, v):
    """the constants the value is known to differ from"""
    out = set(f.ne.get(v, ()))
    for k, b in f.bools.items():
        if b is False and k.op == "eq":
            for x, y in ((k.a[0], k.a[1]), (k.a[1], k.a[0])):
                if x is v or v in set(subterms(x)):
                    out.add(y)
    return [x for x in out if isinstance(x, Term)]


def accepted(f, v):
    """the constants the value is known to equal"""
    out = [f.eq[v]] if v in f.eq else []
    for k, b in f.bools.items():
        if b is True and k.op == "eq":
            for x, y in ((k.a[0], k.a[1]), (k.a[1], k.a[0])):
                if x is v or v in set(subterms(x)):
                    out.append(y)
    return [x for x in out if isinstance(x, Term)]


# ------------------------------------------------------------------------------------- L10

SIGNERS = ("transfer-authority", "multisig-signer", "PAYER_KEYPAIR", "fee-payer")
FLAGS = ("idempotent", "sign-only", "verbose", "dry-run")
POSITIONAL = {
    "CreateMintArgs": ["unwrapped-mint", "wrapped-token-program"],
    "WrapArgs": ["unwrapped-token-account", "wrapped-token-program", "amount"],
    "UnwrapArgs": ["wrapped-token-account", "unwrapped-token-recipient", "amount"],
    "FindPdasArgs": ["unwrapped-mint", "wrapped-token-program"],
    "CreateEscrowAccountArgs": ["unwrapped-mint", "wrapped-token-program"],
    "CloseStuckEscrowArgs": ["unwrapped-mint", "destination", "wrapped-token-program"],
    "SyncMetadataToSplTokenArgs": ["unwrapped-mint"],
    "SyncMetadataToToken2022Args": ["unwrapped-mint"],
}
GLOBAL = {"config": "config_file", "dry-run": "dry_run", "url": "json_rpc_url", "fee-payer": "fee_payer", "verbose": "verbose", "output": "output_format"}
FORMATS = {"display": "Display", "json": "Json", "json-compact": "JsonCompact", "quiet": "DisplayQuiet", "verbose": "DisplayVerbose"}


def has(ch, n, v):
    return n in ch and len(ch[n][1]) >= 1 and ch[n][1][0] is v


def parser_is(ch, fn):
    ty, pl = ch.get("value_parser", ((), ()))
    return any(fn in str(y) for y in ty) or any(fn in str(z) for x in pl for z in subterms(x))


def L10(ctx, rep):
    tab = clap_table(ctx)
    nargs = 0
    for st, want in POSITIONAL.items():
        if st not in tab:
            raise MissingAnchor("argument structure " + st)
        for args in tab[st]:
            w = "%s (%s)" % (CR, st)
            pos = [n for n, ch in args if "long" not in ch and "short" not in ch and not n[0].isupper()]
            rep.ok(pos == want, w, "the positional arguments are the documented ones in the documented order (found %s)" % pos, key="positional arguments")
            for n, ch in args:
                nargs += 1
                one_argument(rep, w, n, ch, n in want)
    if "Cli" not in tab:
        raise MissingAnchor("the global options")
    for args in tab["Cli"]:
        w = "%s (global options)" % CR
        glob = {text(ch["long"][1][0]): (n, ch) for n, ch in args if "global" in ch and "long" in ch}
        rep.ok(set(glob) >= set(GLOBAL), w, "every global option exists for every command (found %s)" % sorted(glob), key="global options")
        for l, (n, ch) in glob.items():
            nargs += 1
            rep.ok(has(ch, "global", B(True)), w, "the option is accepted by every command: --" + l)
            if l in ("dry-run", "verbose"):
                rep.ok(has(ch, "takes_value", B(False)), w, "--%s is a switch" % l)
            elif l in GLOBAL:
                rep.ok(has(ch, "takes_value", B(True)) and "default_value" not in ch, w, "--%s takes a value and has no built-in default" % l)
        if "fee-payer" in glob:
            rep.ok(parser_is(glob["fee-payer"][1], "allow_all"), w, "the fee payer may be any kind of signer")
        if "url" in glob:
            rep.ok(parser_is(glob["url"][1], "parse_url_or_moniker"), w, "--url accepts a URL or a moniker")
    parsing(ctx, rep)
    configuration(ctx, rep)
    rep.notes["arguments"] = nargs
    rep.ok(nargs >= 30, CR, "the arguments were found (%d)" % nargs, key="arguments found")


def one_argument(rep, w, n, ch, positional):
    if n in FLAGS:
        rep.ok(has(ch, "takes_value", B(False)) and "long" in ch and text(ch["long"][1][0]) == n, w, "--%s is a switch" % n)
        return
    rep.ok("default_value" not in ch and "default_missing_value" not in ch, w, "nothing is assumed for an omitted argument: " + n)
    if not positional:
        rep.ok("long" in ch and text(ch["long"][1][0]) == n, w, "the option is spelled as it is named: --" + n)
    if n == "amount":
        ty = [str(y) for y in ch.get("value_parser", ((), ()))[0]] + [str(z) for x in ch.get("value_parser", ((), ()))[1] for z in subterms(x)]
        rep.ok(any("u64" in y for y in ty), w, "the amount is a whole number of base units")
    elif n == "blockhash":
        rep.ok(parser_is(ch, "Hash"), w, "the blockhash is parsed as one")
    elif n == "signer":
        rep.ok(parser_is(ch, "parse_presigner"), w, "a presigner is parsed as address and signature")
    elif n in SIGNERS:
        rep.ok(parser_is(ch, "allow_all"), w, "%s may be any kind of signer" % n)
    elif "token-program" in n:
        rep.ok(parser_is(ch, "parse_token_program"), w, "%s accepts only the two token programs" % n)
    else:
        rep.ok(parser_is(ch, "parse_pubkey"), w, "%s is parsed as an address" % n)
    if n in ("signer", "multisig-signer"):
        rep.ok("action" in ch and str(ch["action"][1][0]).endswith("Append"), w, "every occurrence counts: --" + n)
        rep.ok("requires" in ch and text(ch["requires"][1][0]) == "blockhash", w, "--%s requires the blockhash its signers agree on" % n)
    if n == "metadata-program-id":
        rep.ok("requires" in ch and text(ch["requires"][1][0]) == "metadata-account", w, "a metadata program is given only with its account")


def parsing(ctx, rep):
    ps = parsers(ctx)
    v = T("param", "value")
    for n in ("parse_pubkey", "parse_token_program", "parse_presigner", "parse_output_format"):
        if n not in ps:
            raise MissingAnchor(n)

    def oks(n):
        q = AsyncRun(ctx, ps[n], [v])
        for s, x in q.ok:
            p = CPath(q, s, x)
            yield p, (unwrap_adt(x, "Ok") or okval(x))
    for p, x in oks("parse_pubkey"):
        y = okpart(x)
        rep.ok(y is not None and aname(y) == "pubkey_from_path" and plain_args(y)[1] is v, ps["parse_pubkey"]["path"], "an address argument is the address its text names")
    for p, x in oks("parse_token_program"):
        k = p.canon(x)
        rep.ok(k in (SPL, T22), ps["parse_token_program"]["path"], "only the two token programs are accepted")
        rep.ok(any(y.op == "app" and aname(y) == "pubkey_from_path" and plain_args(y)[1] is v for z in p.facts.eq for y in subterms(z)), ps["parse_token_program"]["path"],
               "a token program argument is the program its text names")
    for p, x in oks("parse_presigner"):
        w = ps["parse_presigner"]["path"]
        a = plain_args(x) if x.op == "app" and aname(x) == "new" and "Presigner" in str(x.a[0]) else ()
        good = len(a) == 2
        for k, side in ((0, "0"), (1, "1")):
            y = okpart(a[k]) if good else None
            z = plain_args(y)[0] if y is not None and y.op == "app" and aname(y) in ("parse", "from_str") else None
            good = good and z is not None and z.op == "field" and z.a[1] == side and z.a[0].op in ("as", "field") and \
                any(t.op == "app" and aname(t) == "split_once" and plain_args(t)[0] is v and plain_args(t)[1] is I(61) for t in subterms(z))
        rep.ok(good, w, "a presigner is the address before and the signature after the equals sign")
    q = AsyncRun(ctx, ps["parse_output_format"], [v])
    seen = {}
    for s, x in q.res:
        x = q.it.freeze(s, x)
        taken = {text(c) for c in accepted(s.facts, v)} - {None}
        ruled = {text(c) for c in refuted(s.facts, v)} - {None}
        for k in FORMATS:
            if (k in taken if taken else k not in ruled):
                seen.setdefault(k, set()).add(x.a[1] if x.op == "adt" else None)
    w = ps["parse_output_format"]["path"]
    for k, f in FORMATS.items():
        rep.ok(seen.get(k) == {f}, w, "the output format %s is the one of that name" % k)


def okpart(t):
    """x of Ok(x)"""
    if t.op == "field" and t.a[0].op == "as" and t.a[0].a[1] == "Ok":
        return t.a[0].a[0]
    return None


def configuration(ctx, rep):
    r = config_run(ctx)
    w = CR + "::config::Config::new"
    cli = T("param", "cli")

    def o(n):
        return mk_field(cli, n)
    n = 0
    for s, x in r.ok:
        p = CPath(r, s, x)
        c = unwrap_adt(x, "Ok")
        fs = fields(c) if c is not None else {}
        if not {"rpc_client", "fee_payer", "output_format", "dry_run"} <= set(fs):
            rep.ok(False, w, "the configuration's parts are known")
            continue
        n += 1
        cf = p.fv.variant(o("config_file"))
        rep.ok(cf in ("Some", "None"), w, "the configuration depends on whether a file was named")
        url = next((y for y in subterms(fs["rpc_client"]) if y.op == "app" and aname(y).startswith("new") and "RpcClient" in str(y.a[0])), None)
        u = plain_args(url)[0] if url is not None else None
        given = p.fv.variant(o("json_rpc_url"))
        if given == "Some":
            rep.ok(u is not None and p.eq(u, some(o("json_rpc_url"))), w, "the RPC endpoint is the one supplied")
        else:
            rep.ok(given == "None" and u is not None and u.op == "field" and u.a[1] == "json_rpc_url" and from_config(p, u.a[0], cf, o), w,
                   "an omitted RPC endpoint is the configuration file's")
        if url is not None:
            rep.ok(any(y.op == "app" and aname(y) in ("confirmed", "finalized") for y in subterms(url)), w, "transactions are awaited at least to confirmation")
        pay = some(fs["fee_payer"]) if fs["fee_payer"].op != "adt" else unwrap_adt(fs["fee_payer"], "Some")
        y = okpart(pay) if pay is not None else None
        if y is None and pay is not None:
            y = next((okpart(z) for z in subterms(pay) if okpart(z) is not None and aname(okpart(z)).startswith("signer_from")), None)
        nm = aname(y) if y is not None and y.op == "app" else None
        a = plain_args(y) if nm else ()
        g = p.fv.variant(o("fee_payer"))
        if g == "Some":
            rep.ok(nm in ("signer_from_source_with_config", "signer_from_source") and p.eq(a[1], some(o("fee_payer"))), w, "the fee payer is the one supplied")
        else:
            rep.ok(g == "None" and nm in ("signer_from_path", "signer_from_path_with_config") and a[1].op == "field" and a[1].a[1] == "keypair_path" and from_config(p, a[1].a[0], cf, o), w,
                   "an omitted fee payer is the configuration file's keypair")
        of = fs["output_format"]
        g = p.fv.variant(o("output_format"))
        if g == "Some":
            rep.ok(p.eq(of, some(o("output_format"))), w, "the output format is the one supplied")
        else:
            vb = p.fv.true(o("verbose"))
            rep.ok(g == "None" and vb in (True, False) and of.op == "adt" and of.a[1] == ("DisplayVerbose" if vb else "Display"), w, "an omitted output format is plain or verbose, as --verbose says")
        rep.ok(p.eq(fs["dry_run"], o("dry_run")), w, "dry-run is what the command line says")
    rep.ok(n > 0, w, "a configuration can be built")


def from_config(p, t, cf, o):
    """the configuration file the user named (which must then load), or the default one's content or defaults"""
    y = okpart(t)
    if cf == "Some":
        return y is not None and aname(y) == "load" and p.eq(plain_args(y)[0], some(o("config_file")))
    if y is not None:
        return aname(y) == "load" and any("CONFIG_FILE" in str(z) for z in subterms(y) if z.op != "app")
    return t.op == "app" and aname(t) in ("default", "unwrap_or_default")
