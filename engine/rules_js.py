"""Rules over the published interface description (idl.json) and the TypeScript client."""
import json, os
import tseval as E
from tseval import freeze, lit, get, app, Obj, Arr, UNDEF, NULL
import rules_prog
from rules_prog import Rep, MissingAnchor
import rules_api as A

REPO = os.environ.get("VERIF_REPO", "/repo")
GEN = "clients/js/src/generated/"


class Prog(rules_prog.Prog):
    def __init__(self, files):
        if "lib" in files:
            rules_prog.Prog.__init__(self, files)
        else:
            self.runs = []
        self.js_paths = 0
        self.js_functions = set()
        self._ts = None

    def coverage(self):
        c = rules_prog.Prog.coverage(self) if self.runs else {}
        c["typescript_functions_analysed"] = sorted(self.js_functions)
        c["typescript_paths_enumerated"] = self.js_paths
        if self._ts is not None:
            c["typescript_files_parsed"] = len(self._ts.mods)
        return c

    @property
    def idl(self):
        f = os.path.join(REPO, "idl.json")
        if not os.path.exists(f):
            raise MissingAnchor("idl.json")
        return json.load(open(f))["program"]

    @property
    def ts(self):
        if self._ts is None:
            root = os.path.join(REPO, "clients/js/src")
            if not os.path.isdir(root):
                raise MissingAnchor("clients/js/src")
            self._ts = E.Program(root)
        return self._ts

    def js(self, rel, fn, args):
        p = self.ts.path(rel)
        if p not in self.ts.mods:
            raise MissingAnchor("clients/js/src/" + rel)
        if self.ts.lookup(p, fn) is None:
            raise MissingAnchor("%s in clients/js/src/%s" % (fn, rel))
        r = E.Eval(self.ts).run(p, fn, args)
        self.js_paths += len(r)
        self.js_functions.add("%s:%s" % (rel, fn))
        return r

    def js_value(self, rel, name):
        p = self.ts.path(rel)
        if p not in self.ts.mods or self.ts.lookup(p, name) is None:
            raise MissingAnchor("%s in clients/js/src/%s" % (name, rel))
        return E.Eval(self.ts).value(p, name)


def up(n):
    return n[0].upper() + n[1:]


# ------------------------------------------------------------------------------------- J01

IDLNAME = {"create_mint": "createMint", "wrap": "wrap", "unwrap": "unwrap", "close_stuck_escrow": "closeStuckEscrow",
           "sync_metadata_to_token_2022": "syncMetadataToToken2022", "sync_metadata_to_spl_token": "syncMetadataToSplToken"}
ROLES = {  # what the account at each position is for the program (the handlers' rules fix these roles)
    "createMint": ["wrappedMint", "backpointer", "unwrappedMint", "systemProgram", "wrappedTokenProgram"],
    "wrap": ["recipientWrappedTokenAccount", "wrappedMint", "wrappedMintAuthority", "unwrappedTokenProgram", "wrappedTokenProgram", "unwrappedTokenAccount",
             "unwrappedMint", "unwrappedEscrow", "transferAuthority"],
    "unwrap": ["unwrappedEscrow", "recipientUnwrappedToken", "wrappedMintAuthority", "unwrappedMint", "wrappedTokenProgram", "unwrappedTokenProgram",
               "wrappedTokenAccount", "wrappedMint", "transferAuthority"],
    "closeStuckEscrow": ["escrow", "destination", "unwrappedMint", "wrappedMint", "wrappedMintAuthority", "token2022Program"],
    "syncMetadataToToken2022": ["wrappedMint", "wrappedMintAuthority", "unwrappedMint", "token2022Program", "sourceMetadata", "ownerProgram"],
    "syncMetadataToSplToken": ["metaplexMetadata", "wrappedMintAuthority", "wrappedMint", "unwrappedMint", "metaplexProgram", "systemProgram", "rentSysvar",
                               "sourceMetadata", "ownerProgram"],
}
FIXED = {A.KSYS: "systemProgram", A.KT22: "token2022Program", A.KMPL: "metaplexProgram", A.KRENT: "rentSysvar"}
ARGT = {"idempotent": ("idempotent", {"kind": "booleanTypeNode", "size": {"kind": "numberTypeNode", "format": "u8", "endian": "le"}}),
        "amount": ("amount", {"kind": "numberTypeNode", "format": "u64", "endian": "le"})}


def J01(ctx, rep):
    idl = ctx.idl
    w = "idl.json"
    # the program's side, from its current source
    for fn in IDLNAME:
        A.check_builder(ctx, rep, fn)
    pid, r = ctx.const_fn("spl_token_wrap::id", [])
    rep.ok(pid is not None and pid is A.bytes_(A.b58dec(idl["publicKey"])), w, "the program id is the program's")
    ins = {i["name"]: i for i in idl["instructions"]}
    rep.ok(len(ins) == len(idl["instructions"]), w, "instruction names are distinct")
    rep.ok(set(ins) >= set(IDLNAME.values()), w, "the instructions are described")
    known = set(IDLNAME.values()) | {"setCanonicalPointer"}
    rep.ok(set(ins) <= known, w, "every described instruction exists in the program (%s)" % sorted(set(ins) - known))
    for fn, name in IDLNAME.items():
        i = ins.get(name)
        if i is None:
            continue
        wi = "idl.json (%s)" % name
        inst, table, ms, opts, par = A.BUILDERS[fn]
        code, ln, what = A.CODES[inst]
        args = i["arguments"]
        d = args[0] if args else {}
        rep.ok(d.get("name") == "discriminator" and d.get("type") == {"kind": "numberTypeNode", "format": "u8", "endian": "le"} and
               d.get("defaultValue") == {"kind": "numberValueNode", "number": code} and d.get("defaultValueStrategy") == "omitted", wi, "the instruction is selected by its code %d" % code)
        ds = i.get("discriminators") or []
        rep.ok(len(ds) == 1 and ds[0].get("kind") == "fieldDiscriminatorNode" and ds[0].get("name") == "discriminator" and ds[0].get("offset") == 0, wi, "the code is the first byte")
        if what is None:
            rep.ok(len(args) == 1, wi, "no parameters follow the code")
        else:
            nm, ty = ARGT[what]
            rep.ok(len(args) == 2 and args[1]["name"] == nm and args[1]["type"] == ty, wi, "the parameter %s is laid out as the decoder reads it" % nm)
            if what == "idempotent" and len(args) == 2 and "defaultValue" in args[1]:
                rep.ok(args[1]["defaultValue"] == {"kind": "booleanValueNode", "boolean": False}, wi, "creation is not idempotent unless asked for")
            if what == "amount" and len(args) == 2:
                rep.ok("defaultValue" not in args[1], wi, "the amount has no default")
        exp = list(table) + [(o, 0, 0) for o in opts]
        accs = i["accounts"]
        rep.ok(len(accs) == len(exp), wi, "the description lists exactly the accounts (%d of %d)" % (len(accs), len(exp)))
        for k, (e, a, role) in enumerate(zip(exp, accs, ROLES[name])):
            src, wr, sg = e
            rep.ok(a["name"] == role, wi, "account %d is %s" % (k, role))
            rep.ok(a["isWritable"] is bool(wr), wi, "%s is %s" % (role, "writable" if wr else "read-only"))
            rep.ok(a["isSigner"] == ("either" if sg == "single" else bool(sg)), wi, "%s: the signature the program expects" % role)
            dv = a.get("defaultValue")
            if isinstance(src, str):
                rep.ok(dv == {"kind": "publicKeyValueNode", "publicKey": src} or (dv or {}).get("publicKey") == src, wi, "%s defaults to the program's fixed key" % role)
            elif sg == "single":
                rep.ok(dv is None or dv.get("kind") == "identityValueNode", wi, "%s defaults at most to the caller's identity" % role)
            else:
                rep.ok(dv is None, wi, "%s has no default" % role)
            opt = src in opts
            rep.ok(bool(a.get("isOptional")) is opt or (isinstance(src, str) and dv is not None), wi, "%s is %s" % (role, "optional" if opt else "required"))
        rem = i.get("remainingAccounts") or []
        if ms:
            rep.ok(len(rem) == 1 and rem[0].get("isSigner") is True and not rem[0].get("isWritable"), wi, "multisig members follow as read-only signers")
        else:
            rep.ok(not rem, wi, "no further accounts follow")
        rep.ok(i.get("optionalAccountStrategy", "programId") == "programId", wi, "an omitted optional account keeps its place")
    # derived addresses
    P = lambda n: rules_prog.T("param", n)
    fns = {"wrappedMint": ("get_wrapped_mint_address", ["unwrappedMint", "wrappedTokenProgram"]),
           "wrappedMintAuthority": ("get_wrapped_mint_authority", ["wrappedMint"]),
           "backpointer": ("get_wrapped_mint_backpointer_address", ["wrappedMint"])}
    pdas = {p["name"]: p for p in idl["pdas"]}
    rep.ok(set(pdas) >= set(fns), w, "the derived addresses are described")
    for name, (fn, ps) in fns.items():
        v, r = ctx.const_fn("spl_token_wrap::" + fn, [P(x) for x in ps])
        x = pdas.get(name)
        if x is None:
            continue
        good = v is not None and v.op == "pda" and v.a[0].op == "seq"
        seeds = []
        for s in x["seeds"]:
            if s["kind"] == "constantPdaSeedNode":
                ok = s["type"] == {"kind": "stringTypeNode", "encoding": "utf8"} and s["value"]["kind"] == "stringValueNode"
                seeds.append(A.bytes_(s["value"]["string"].encode()) if ok else None)
            else:
                seeds.append(P(s["name"]) if s["type"] == {"kind": "publicKeyTypeNode"} else None)
        got = [A.bytes_(y.a[0].encode()) if y.op == "str" else y for y in v.a[0].a] if good else None
        rep.ok(good and got is not None and len(got) == len(seeds) and all(a is b for a, b in zip(got, seeds)), "idl.json (%s)" % name, "the seeds are those the program derives the address with")
        rep.ok(good and v.a[1] is pid and x.get("programId", idl["publicKey"]) == idl["publicKey"], "idl.json (%s)" % name, "the address is derived under the program's id")
    # the backpointer record
    sizes = set()
    for p in ctx.paths(0):
        for e in [z for z in p.evs if z.kind == "cpi"]:
            x = e.d["ix"]
            if x.op == "app" and x.a[0] == "system::allocate" and p.eq(x.a[1], rules_prog.K(1)):
                sizes.add(p.canon(x.a[2]))
    acc = {a["name"]: a for a in idl["accounts"]}
    b = acc.get("backpointer")
    rep.ok(b is not None and set(acc) <= {"backpointer", "canonicalDeploymentPointer"}, w, "the backpointer record is described")
    if b is not None:
        fs = b["data"].get("fields", [])
        rep.ok(len(sizes) == 1 and b.get("size") is not None and all(s.op == "int" and s.a[0] == b["size"] for s in sizes), "idl.json (backpointer)",
               "the record has the size the program allocates (%s)" % sorted(map(str, sizes)))
        rep.ok(len(fs) == 1 and fs[0]["name"] == "unwrappedMint" and fs[0]["type"] == {"kind": "publicKeyTypeNode"}, "idl.json (backpointer)", "the record is the unwrapped mint's key")
        rep.ok((b.get("pda") or {}).get("name") == "backpointer", "idl.json (backpointer)", "the record lives at the backpointer address")
    vs = dict(ctx.lib.variants.get(A.TWE, ()))
    ers = {e["name"]: e["code"] for e in idl["errors"]}
    rep.ok(ers == {A.camel(n): c for n, c in vs.items()}, w, "the error table is the program's")


# ------------------------------------------------------------------------------------- J02

CODEC = {"u8": "U8", "u16": "U16", "u32": "U32", "u64": "U64", "i64": "I64"}


def codec_of(ty, what):
    if ty["kind"] == "numberTypeNode":
        return ("app", "get%s%s" % (CODEC[ty["format"]], what))
    if ty["kind"] == "booleanTypeNode":
        return ("app", "getBoolean" + what)
    if ty["kind"] == "publicKeyTypeNode":
        return ("app", "getAddress" + what)
    raise MissingAnchor("type " + ty["kind"])


def struct_fields(v, what):
    """[(name, codec)] of getStructEncoder([...]) / getStructDecoder([...])"""
    if not (isinstance(v, tuple) and v[:2] == ("app", "getStruct" + what) and v[2][0] == "arr"):
        return None
    out = []
    for x in v[2][1]:
        if x[0] != "arr" or len(x[1]) != 2 or x[1][0][0] != "lit":
            return None
        out.append((x[1][0][1], x[1][1]))
    return out


def odict(v):
    return dict(v[1]) if isinstance(v, tuple) and v[0] == "obj" else None


def account_meta(x, prog):
    """(name, value, writable) of getAccountMeta('name', {value, isWritable})"""
    if not (isinstance(x, tuple) and x[:2] == ("app", "call") and len(x) == 5):
        return None
    fac, nm, o = x[2], x[3], odict(x[4])
    if fac[:2] != ("app", "getAccountMetaFactory") or nm[0] != "lit" or o is None:
        return None
    if fac[2] != prog or fac[3] != lit("programId"):
        return None
    return nm[1], o.get("value"), o.get("isWritable")


def J02(ctx, rep):
    idl = ctx.idl
    PROG = lit(idl["publicKey"])
    rep.ok(ctx.js_value("generated/programs/tokenWrap.ts", "TOKEN_WRAP_PROGRAM_ADDRESS") == PROG, GEN + "programs/tokenWrap.ts", "the program address is the published one")
    for i in idl["instructions"]:
        n = i["name"]
        rel = "generated/instructions/%s.ts" % n
        w = "clients/js/src/%s" % rel
        fn = "get%sInstruction" % up(n)
        accs, args = i["accounts"], i["arguments"]
        skippable = [a["name"] for a in accs if a.get("isOptional") or (a.get("defaultValue") or {}).get("kind") == "publicKeyValueNode"]
        code = next(a["defaultValue"]["number"] for a in args if a["name"] == "discriminator")
        rest = [a for a in args if a["name"] != "discriminator"]
        rem = bool(i.get("remainingAccounts"))
        const = "".join("_" + c if c.isupper() or (c.isdigit() and not n[k - 1].isdigit()) else c.upper() for k, c in enumerate(n)).upper() + "_DISCRIMINATOR"
        combos = [()]
        for s in skippable:
            combos = [c + ((s, v),) for c in combos for v in (True, False)]
        for a in rest:
            if a.get("defaultValue") is not None:
                combos = [c + (("#" + a["name"], v),) for c in combos for v in (True, False)]
        if rem:
            combos = [c + (("#multiSigners", v),) for c in combos for v in (True, False)]
        combos = [c + (("#prog", v),) for c in combos for v in (True, False)]
        for c in combos:
            given = dict(c)

            def inp(given=given):
                o = Obj()
                for a in accs:
                    if given.get(a["name"], True):
                        o.d[a["name"]] = ("addr", a["name"])
                for a in rest:
                    if given.get("#" + a["name"], True):
                        o.d[a["name"]] = ("addr", "#" + a["name"])
                if given.get("#multiSigners"):
                    o.d["multiSigners"] = ("addr", "#multiSigners")
                return o

            def cfg(given=given):
                return Obj({"programAddress": ("addr", "#prog")}) if given["#prog"] else UNDEF
            try:
                ps = ctx.js(rel, fn, [inp, cfg])
            except E.Unknown as x:
                rep.ok(False, w, "the builder can be analysed: %s" % x, key="analysed")
                continue
            rep.ok(len(ps) == 1 and ps[0].kind == "return", w, "the builder's result depends only on what was given")
            o = odict(ps[0].value)
            if o is None:
                continue
            prog = ("addr", "#prog") if given["#prog"] else PROG
            rep.ok(o.get("programAddress") == prog, w, "the instruction addresses the program")
            items = o["accounts"][1] if o.get("accounts", ("?",))[0] == "arr" else ()
            for k, a in enumerate(accs):
                m = account_meta(items[k], prog) if k < len(items) else None
                if m is None:
                    rep.ok(False, w, "account %d is present and falls back to the program's id" % k)
                    continue
                nm, val, wr = m
                rep.ok(nm == a["name"] and wr == lit(a["isWritable"]), w, "account %d is %s with its published role" % (k, a["name"]))
                if given.get(a["name"], True):
                    rep.ok(val == ("addr", a["name"]), w, "%s is the one supplied" % a["name"])
                else:
                    dv = a.get("defaultValue")
                    if dv:
                        rep.ok(val == lit(dv["publicKey"]), w, "%s defaults to the published key" % a["name"])
                    else:
                        rep.ok(val in (NULL, UNDEF), w, "%s stays empty when omitted" % a["name"])
            tail = items[len(accs):]
            if rem and given.get("#multiSigners"):
                el = ("elem", ("addr", "#multiSigners"))
                body = odict(tail[0][1][2]) if len(tail) == 1 and tail[0][0] == "spread" and tail[0][1][0] == "map" and tail[0][1][1] == ("addr", "#multiSigners") else None
                rep.ok(body is not None and body.get("address") == get(el, "address") and body.get("role") == get(("extern", "AccountRole"), "READONLY_SIGNER") and
                       body.get("signer") == el, w, "every multisig member follows as read-only signer")
            else:
                rep.ok(not tail, w, "nothing else is listed")
            d = o.get("data")
            fs = struct_fields(d[2], "Encoder") if isinstance(d, tuple) and d[:2] == ("app", "method") and d[3] == "encode" else None
            rep.ok(fs == [(a["name"], codec_of(a["type"], "Encoder")) for a in args], w, "the data has the published layout")
            vals = odict(d[4]) if fs is not None and len(d) > 4 else None
            if vals is None:
                rep.ok(False, w, "the encoded values are known")
                continue
            rep.ok(vals.get("discriminator") == lit(code), w, "the data carries the instruction's code")
            for a in rest:
                if given.get("#" + a["name"], True):
                    rep.ok(vals.get(a["name"]) == ("addr", "#" + a["name"]), w, "the data carries the given %s" % a["name"])
                else:
                    dv = a["defaultValue"]
                    rep.ok(vals.get(a["name"]) == lit(dv.get("boolean", dv.get("number"))), w, "the data carries the published default of %s" % a["name"])
        env = ctx.ts.module(ctx.ts.path(rel))
        discs = [k for k in env if k.endswith("_DISCRIMINATOR")]
        rep.ok(len(discs) == 1 and ctx.js_value(rel, discs[0]) == lit(code), w, "the exported code is the published one")
        dec = ctx.js(rel, "get%sInstructionDataDecoder" % up(n), [])
        rep.ok(len(dec) == 1 and struct_fields(dec[0].value, "Decoder") == [(a["name"], codec_of(a["type"], "Decoder")) for a in args], w, "the decoder reads the published layout")
        # reading an instruction back
        ix = ("sym", "ix")
        good = 0
        for p in ctx.js(rel, "parse%sInstruction" % up(n), [ix]):
            cnt = ("cond", "<", get(get(ix, "accounts"), "length"), lit(len(accs)))
            rep.ok(p.fact(cnt) is not None and (p.fact(cnt) is False or p.kind == "throw"), w, "an instruction with too few accounts is refused")
            if p.kind == "throw":
                rep.ok(p.fact(cnt) is True, w, "a complete instruction is read")
                continue
            good += 1
            o = odict(p.value)
            got = odict(o.get("accounts")) or {}
            for k, a in enumerate(accs):
                v = got.get(a["name"])
                at = get(get(ix, "accounts"), k)
                if a.get("isOptional") and v == UNDEF:
                    fact = [f for f, val in p.facts.items() if val is True and any(s == get(at, "address") for s in E.subs(f)) and any(s == PROG for s in E.subs(f))]
                    rep.ok(bool(fact), w, "%s is read as absent only when the program's id stands in its place" % a["name"])
                else:
                    rep.ok(v == at, w, "%s is read from its position" % a["name"])
                    if a.get("isOptional"):
                        absent = [f for f, val in p.facts.items() if val is True and any(s == get(at, "address") for s in E.subs(f)) and any(s == PROG for s in E.subs(f))]
                        rep.ok(not absent, w, "%s is not read where the program's id stands for its absence" % a["name"])
            rep.ok(set(got) == {a["name"] for a in accs}, w, "exactly the published accounts are read")
            rep.ok(o.get("programAddress") == get(ix, "programAddress"), w, "the program is the instruction's own")
            d = o.get("data")
            rep.ok(isinstance(d, tuple) and d[:2] == ("app", "method") and d[3] == "decode" and struct_fields(d[2], "Decoder") is not None and d[4] == get(ix, "data"), w,
                   "the data is decoded with the instruction's decoder")
        rep.ok(good > 0, w, "an instruction can be read back")
    # which instruction is it
    rel = "generated/programs/tokenWrap.ts"
    w = "clients/js/src/" + rel
    seen = {}
    data = ("sym", "data")

    def code_of(p):
        yes = []
        for f, v in p.facts.items():
            if f[0] == "truthy" and isinstance(f[1], tuple) and f[1][:2] == ("app", "containsBytes") and v is True:
                enc, off = f[1][3], f[1][4]
                if enc[:2] == ("app", "method") and enc[2] == ("app", "getU8Encoder") and enc[3] == "encode" and enc[4][0] == "lit" and off == lit(0):
                    yes.append(enc[4][1])
        return yes
    for p in ctx.js(rel, "identifyTokenWrapInstruction", [data]):
        if p.kind == "throw":
            continue
        ys = code_of(p)
        rep.ok(p.value[0] == "enum" and len(ys) == 1, w, "an instruction is identified by its first byte")
        if p.value[0] == "enum" and len(ys) == 1:
            seen.setdefault(p.value[2], set()).add(ys[0])
    exp = {up(i["name"]): {next(a["defaultValue"]["number"] for a in i["arguments"] if a["name"] == "discriminator")} for i in idl["instructions"]}
    rep.ok(seen == exp, w, "every published code is identified as its instruction (%s)" % seen)
    ix = ("sym", "ix")
    done = set()
    for p in ctx.js(rel, "parseTokenWrapInstruction", [ix]):
        if p.kind == "throw":
            continue
        o = odict(p.value) or {}
        t = o.get("instructionType")
        ys = code_of(p)
        rep.ok(t is not None and t[0] == "enum" and exp.get(t[2]) == set(ys), w, "an instruction is labelled by its code")
        if t and t[0] == "enum":
            i = next((x for x in idl["instructions"] if up(x["name"]) == t[2]), None)
            done.add(t[2])
            got = odict(o.get("accounts")) or {}
            rep.ok(i is not None and set(got) == {a["name"] for a in i["accounts"]}, w, "an instruction is read as the one its code names")
    rep.ok(done == set(exp), w, "every instruction can be read (%s)" % sorted(done))
    # derived addresses
    for x in idl["pdas"]:
        rel = "generated/pdas/%s.ts" % x["name"]
        w = "clients/js/src/" + rel
        for own in (True, False):
            ps = ctx.js(rel, "find%sPda" % up(x["name"]), [lambda: Obj({s["name"]: ("addr", s["name"]) for s in x["seeds"] if s["kind"] == "variablePdaSeedNode"}),
                                                            (lambda: Obj({"programAddress": ("addr", "#prog")})) if own else UNDEF])
            rep.ok(len(ps) == 1 and ps[0].kind == "return", w, "the address depends only on the seeds")
            v = ps[0].value
            o = odict(v[2]) if v[:2] == ("app", "getProgramDerivedAddress") else None
            want = tuple(("app", "method", ("app", "getUtf8Encoder"), "encode", lit(s["value"]["string"])) if s["kind"] == "constantPdaSeedNode" else
                         ("app", "method", ("app", "getAddressEncoder"), "encode", ("addr", s["name"])) for s in x["seeds"])
            rep.ok(o is not None and o.get("seeds") == ("arr", want), w, "the seeds are the published ones")
            rep.ok(o is not None and o.get("programAddress") == (("addr", "#prog") if own else PROG), w, "the address is derived under the program's id")
    # account records
    for x in idl["accounts"]:
        rel = "generated/accounts/%s.ts" % x["name"]
        w = "clients/js/src/" + rel
        fs = x["data"]["fields"]
        for what in ("Encoder", "Decoder"):
            ps = ctx.js(rel, "get%s%s" % (up(x["name"]), what), [])
            rep.ok(len(ps) == 1 and struct_fields(ps[0].value, what) == [(f["name"], codec_of(f["type"], what)) for f in fs], w, "the record has the published layout (%s)" % what)
        ps = ctx.js(rel, "get%sSize" % up(x["name"]), [])
        rep.ok(len(ps) == 1 and ps[0].value == lit(x["size"]), w, "the record has the published size")
        ps = ctx.js(rel, "decode" + up(x["name"]), [("sym", "acct")])
        rep.ok(len(ps) == 1 and ps[0].value[:2] == ("app", "decodeAccount") and ps[0].value[2] == ("sym", "acct") and struct_fields(ps[0].value[3], "Decoder") is not None, w,
               "an account is decoded with the record's decoder")
    # the plugin hands each request to its own builder
    cli = ts_errors(ctx)
    ers = {e["name"]: e["code"] for e in idl["errors"]}
    got = {}
    for k, v in cli["codes"].items():
        got[k.upper()] = v
    rep.ok(len(got) == len(ers), GEN + "errors/tokenWrap.ts", "exactly the published errors are listed")
    for n, c in ers.items():
        m = [v for k, v in got.items() if k.endswith("__" + A.screaming(n))]
        rep.ok(m == [c], GEN + "errors/tokenWrap.ts", "%s has its published code" % n)


def ts_errors(ctx):
    import ts
    return ts.errors(REPO)


# ------------------------------------------------------------------------------------- J03

def pda_of(name, **seeds):
    """what a derived-address helper of the client computes"""
    return name, seeds


class Client:
    """recognises the values the wrappers compute"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = lit(ctx.idl["publicKey"])
        self.pdas = {p["name"]: p for p in ctx.idl["pdas"]}

    def derived(self, name, **seeds):
        want = tuple(("app", "method", ("app", "getUtf8Encoder"), "encode", lit(s["value"]["string"])) if s["kind"] == "constantPdaSeedNode" else
                     ("app", "method", ("app", "getAddressEncoder"), "encode", seeds[s["name"]]) for s in self.pdas[name]["seeds"])
        return get(("app", "getProgramDerivedAddress", ("obj", (("programAddress", self.prog), ("seeds", ("arr", want))), (), ())), 0)

    def mint(self, u, wtp):
        return self.derived("wrappedMint", unwrappedMint=u, wrappedTokenProgram=wtp)

    def authority(self, m):
        return self.derived("wrappedMintAuthority", wrappedMint=m)

    def backpointer(self, m):
        return self.derived("backpointer", wrappedMint=m)

    @staticmethod
    def ata(owner, mint, program):
        return get(("app", "findAssociatedTokenPda", ("obj", (("mint", mint), ("owner", owner), ("tokenProgram", program)), (), ())), 0)

    def instruction(self, v, name):
        """(accounts by name, values by name) of an instruction one of the generated builders produced"""
        o = odict(v)
        i = next(x for x in self.ctx.idl["instructions"] if x["name"] == name)
        if o is None or o.get("programAddress") != self.prog or o.get("accounts", ("?",))[0] != "arr":
            return None
        items = o["accounts"][1]
        accs = {}
        for k, a in enumerate(i["accounts"]):
            m = account_meta(items[k], self.prog) if k < len(items) else None
            if m is None or m[0] != a["name"]:
                return None
            accs[m[0]] = m[1]
        d = o.get("data")
        vals = odict(d[4]) if isinstance(d, tuple) and d[:2] == ("app", "method") and d[3] == "encode" and len(d) > 4 else None
        code = next(a["defaultValue"]["number"] for a in i["arguments"] if a["name"] == "discriminator")
        if vals is None or vals.get("discriminator") != lit(code):
            return None
        return accs, vals, items[len(i["accounts"]):]


def addr(n):
    return ("addr", n)


def account_owner(acct):
    """the owner of an account as the ledger reports it"""
    def f(v):
        return isinstance(v, tuple) and v[0] == "get" and v[2] == "owner" and fetched(v, acct)
    return f


def fetched(v, acct):
    """v is (part of) the answer to a look-up of this account"""
    while isinstance(v, tuple):
        if v[0] == "get":
            v = v[1]
        elif v[0] == "app" and v[1] in ("fetchEncodedAccount", "fetchMaybeToken", "fetchToken", "fetchMint", "fetchMaybeMint") and len(v) > 3:
            return v[3] == acct
        elif v[0] == "app" and v[1] == "method" and len(v) > 3 and v[3] == "send":
            v = v[2]
        elif v[0] == "app" and v[1] == "method" and len(v) > 4 and v[3] == "getAccountInfo":
            return v[4] == acct
        elif v[0] == "app" and v[1] == "method" and len(v) > 4 and v[3] == "decode":
            v = v[4]
        elif v[0] == "app" and v[1] in ("decodeToken", "decodeMint", "assertAccountExists") and len(v) > 2:
            v = v[2]
        else:
            return False
    return False


def token_mint(acct):
    """the mint recorded in a token account"""
    def f(v):
        return isinstance(v, tuple) and v[0] == "get" and v[2] == "mint" and fetched(v, acct) and (
            any(isinstance(s, tuple) and s[:2] == ("app", "getTokenDecoder") for s in E.subs(v)) or
            any(isinstance(s, tuple) and s[:2] in (("app", "fetchMaybeToken"), ("app", "fetchToken")) for s in E.subs(v)))
    return f


def is_(v, want):
    return want(v) if callable(want) else v == want


def existing(p, acct, rep, w):
    """a path that uses what an account holds established that it exists"""
    for f, val in p.facts.items():
        for s in E.subs(f):
            if isinstance(s, tuple) and len(s) == 3 and s[0] == "get" and s[2] in ("exists", "value") and fetched(s, acct):
                return (val is True and f[0] == "truthy") or (val is False and f[0] == "nullish")
    return False


def combos(names):
    out = [{}]
    for n in names:
        out = [dict(c, **{n: v}) for c in out for v in (True, False)]
    return out


def J03(ctx, rep):
    c = Client(ctx)
    rpc = ("sym", "rpc")
    payer = addr("payer")
    pay_addr = get(payer, "address")
    big = lambda v: ("app", "BigInt", v)
    n = {}

    def run(rel, fn, args):
        w = "clients/js/src/%s (%s)" % (rel, fn)
        try:
            ps = ctx.js(rel, fn, args)
        except E.Unknown as x:
            rep.ok(False, w, "the helper can be analysed: %s" % x, key="analysed")
            return w, []
        rep.ok(any(p.kind == "return" for p in ps), w, "the helper can succeed")
        n[fn] = n.get(fn, 0) + len(ps)
        return w, ps

    def keys(w, accs, want):
        for k, t in want.items():
            rep.ok(is_(accs.get(k), t), w, "%s is the account the request designates" % k)

    # wrap, single signer
    for g in combos(["transferAuthority", "unwrappedMint", "recipientWrappedTokenAccount", "unwrappedTokenProgram"]):
        def inp(g=g):
            o = Obj({"rpc": rpc, "payer": payer, "unwrappedTokenAccount": addr("uta"), "wrappedTokenProgram": addr("wtp"), "amount": addr("amount")})
            for k, v in g.items():
                if v:
                    o.d[k] = addr(k)
            return o
        w, ps = run("wrap.ts", "singleSignerWrap", [inp])
        for p in ps:
            if p.kind != "return":
                continue
            o = odict(p.value) or {}
            ixs = o.get("ixs", ("?",))
            rep.ok(ixs[0] == "arr" and len(ixs[1]) == 1, w, "one instruction is returned")
            t = c.instruction(ixs[1][0], "wrap") if ixs[0] == "arr" and ixs[1] else None
            if t is None:
                rep.ok(False, w, "the instruction is a wrap")
                continue
            accs, vals, tail = t
            u = accs["unwrappedMint"]
            rep.ok(u == addr("unwrappedMint") if g["unwrappedMint"] else token_mint(addr("uta"))(u), w, "the mint is the one supplied, else the token account's")
            tp = accs["unwrappedTokenProgram"]
            rep.ok(tp == addr("unwrappedTokenProgram") if g["unwrappedTokenProgram"] else account_owner(addr("uta"))(tp), w, "the token program is the one supplied, else the token account's owner")
            m = c.mint(u, addr("wtp"))
            a = c.authority(m)
            keys(w, accs, {"wrappedMint": m, "wrappedMintAuthority": a, "wrappedTokenProgram": addr("wtp"), "unwrappedTokenAccount": addr("uta"),
                           "unwrappedEscrow": c.ata(a, u, tp),
                           "recipientWrappedTokenAccount": addr("recipientWrappedTokenAccount") if g["recipientWrappedTokenAccount"] else c.ata(pay_addr, m, addr("wtp")),
                           "transferAuthority": addr("transferAuthority") if g["transferAuthority"] else payer})
            rep.ok(vals.get("amount") in (addr("amount"), big(addr("amount"))), w, "the amount is the one requested")
            rep.ok(not tail, w, "no other signer is listed")
            rep.ok(o.get("recipientWrappedTokenAccount") == accs["recipientWrappedTokenAccount"] and o.get("escrowAccount") == accs["unwrappedEscrow"] and
                   o.get("amount") in (addr("amount"), big(addr("amount"))), w, "the result names the accounts and amount of the instruction")
            rep.ok(g["unwrappedMint"] or existing(p, addr("uta"), rep, w), w, "a missing token account is an error")
    # unwrap, single signer
    for g in combos(["transferAuthority", "unwrappedMint", "wrappedTokenProgram", "unwrappedTokenProgram"]):
        def inp(g=g):
            o = Obj({"rpc": rpc, "payer": payer, "wrappedTokenAccount": addr("wta"), "amount": addr("amount"), "recipientUnwrappedToken": addr("to")})
            for k, v in g.items():
                if v:
                    o.d[k] = addr(k)
            return o
        w, ps = run("unwrap.ts", "singleSignerUnwrap", [inp])
        for p in ps:
            if p.kind != "return":
                continue
            o = odict(p.value) or {}
            ixs = o.get("ixs", ("?",))
            rep.ok(ixs[0] == "arr" and len(ixs[1]) == 1, w, "one instruction is returned")
            t = c.instruction(ixs[1][0], "unwrap") if ixs[0] == "arr" and ixs[1] else None
            if t is None:
                rep.ok(False, w, "the instruction is an unwrap")
                continue
            accs, vals, tail = t
            u, tp, wtp, m = accs["unwrappedMint"], accs["unwrappedTokenProgram"], accs["wrappedTokenProgram"], accs["wrappedMint"]
            rep.ok(u == addr("unwrappedMint") if g["unwrappedMint"] else token_mint(addr("to"))(u), w, "the unwrapped mint is the one supplied, else the recipient account's")
            rep.ok(tp == addr("unwrappedTokenProgram") if g["unwrappedTokenProgram"] else account_owner(addr("to"))(tp), w,
                   "the unwrapped token program is the one supplied, else the recipient account's owner")
            rep.ok(wtp == addr("wrappedTokenProgram") if g["wrappedTokenProgram"] else account_owner(addr("wta"))(wtp), w,
                   "the wrapped token program is the one supplied, else the wrapped account's owner")
            rep.ok(token_mint(addr("wta"))(m) or m == c.mint(u, wtp), w, "the wrapped mint is the wrapped account's")
            a = c.authority(m)
            keys(w, accs, {"wrappedMintAuthority": a, "unwrappedEscrow": c.ata(a, u, tp), "recipientUnwrappedToken": addr("to"), "wrappedTokenAccount": addr("wta"),
                           "transferAuthority": addr("transferAuthority") if g["transferAuthority"] else payer})
            rep.ok(vals.get("amount") in (addr("amount"), big(addr("amount"))), w, "the amount is the one requested")
            rep.ok(not tail, w, "no other signer is listed")
            rep.ok(o.get("recipientUnwrappedToken") == addr("to") and o.get("amount") in (addr("amount"), big(addr("amount"))), w, "the result names the account and amount of the instruction")
            rep.ok(existing(p, addr("wta"), rep, w), w, "a missing wrapped account is an error")
    # multisig, offline
    for rel, fn, name, accts in (
            ("wrap.ts", "multisigOfflineSignWrap", "wrap", ["unwrappedTokenAccount", "wrappedTokenProgram", "wrappedMint", "wrappedMintAuthority", "transferAuthority", "unwrappedMint",
                                                            "recipientWrappedTokenAccount", "unwrappedTokenProgram"]),
            ("unwrap.ts", "multisigOfflineSignUnwrap", "unwrap", ["wrappedTokenAccount", "wrappedMint", "wrappedMintAuthority", "unwrappedMint", "recipientUnwrappedToken",
                                                                  "unwrappedTokenProgram", "wrappedTokenProgram", "transferAuthority"])):
        def inp(accts=accts):
            return Obj(dict({k: addr(k) for k in accts}, payer=payer, blockhash=addr("blockhash"), multiSigners=addr("members"), amount=addr("amount")))
        w, ps = run(rel, fn, [inp])
        for p in ps:
            if p.kind != "return":
                continue
            v = p.value
            steps = []
            while isinstance(v, tuple) and v[0] == "app" and len(v) == 4:
                steps.append((v[1], v[2]))
                v = v[3]
            st = dict(steps)
            rep.ok(isinstance(v, tuple) and v[:2] == ("app", "createTransactionMessage"), w, "the message starts empty")
            rep.ok(st.get("setTransactionMessageFeePayerSigner") == payer, w, "the payer pays the fee")
            rep.ok(st.get("setTransactionMessageLifetimeUsingBlockhash") == addr("blockhash"), w, "the message lives as long as the supplied blockhash")
            ix = st.get("appendTransactionMessageInstructions")
            ix = ix[1] if isinstance(ix, tuple) and ix[0] == "arr" else ((st["appendTransactionMessageInstruction"],) if "appendTransactionMessageInstruction" in st else ())
            rep.ok(len(ix) == 1 and len(steps) == 3, w, "the message holds exactly one instruction")
            t = c.instruction(ix[0], name) if len(ix) == 1 else None
            if t is None:
                rep.ok(False, w, "the instruction is the requested one")
                continue
            accs, vals, tail = t
            keys(w, accs, dict({k: addr(k) for k in accts}, unwrappedEscrow=c.ata(addr("wrappedMintAuthority"), addr("unwrappedMint"), addr("unwrappedTokenProgram"))))
            rep.ok(vals.get("amount") in (addr("amount"), big(addr("amount"))), w, "the amount is the one requested")
            el = ("elem", addr("members"))
            body = odict(tail[0][1][2]) if len(tail) == 1 and tail[0][0] == "spread" and tail[0][1][:2] == ("map", addr("members")) else None
            rep.ok(body is not None and body.get("address") == get(el, "address") and body.get("signer") == el, w, "every multisig member signs")
    create_mint_rule(ctx, rep, c, run)
    escrow_rule(ctx, rep, c, run)
    combine_rule(ctx, rep, run)
    rep.notes["paths"] = n


def create_mint_rule(ctx, rep, c, run):
    flav = default_extensions(ctx)
    for g in combos(["idempotent"]):
        def inp(g=g):
            o = Obj({"rpc": ("sym", "rpc"), "unwrappedMint": addr("u"), "wrappedTokenProgram": addr("wtp"), "payer": addr("payer")})
            if g["idempotent"]:
                o.d["idempotent"] = addr("idem")
            return o
        w, ps = run("create-mint.ts", "createMint", [inp])
        m = c.mint(addr("u"), addr("wtp"))
        b = c.backpointer(m)
        cases = set()
        for p in ps:
            if p.kind != "return":
                continue
            o = odict(p.value) or {}
            rep.ok(o.get("wrappedMint") == m and o.get("backpointer") == b, w, "the addresses returned are the canonical ones")
            ixs = o.get("ixs", ("?",))
            items = list(ixs[1]) if ixs[0] == "arr" else []
            t = c.instruction(items[-1], "createMint") if items else None
            rep.ok(t is not None, w, "the last instruction creates the mint")
            if t is None:
                continue
            accs, vals, tail = t
            for k, v in {"wrappedMint": m, "backpointer": b, "unwrappedMint": addr("u"), "wrappedTokenProgram": addr("wtp"), "systemProgram": lit("1" * 32)}.items():
                rep.ok(accs.get(k) == v, w, "%s is the account the request designates" % k)
            rep.ok(vals.get("idempotent") == (addr("idem") if g["idempotent"] else lit(False)), w, "the flag is the one requested, else false")
            t22 = [v for f, v in p.facts.items() if f[0] == "eq" and addr("wtp") in f and any(x[0] == "extern" and x[1] == "TOKEN_2022_PROGRAM_ADDRESS" for x in f[1:])]
            spl = [v for f, v in p.facts.items() if f[0] == "eq" and addr("wtp") in f and any(x[0] == "extern" and x[1] == "TOKEN_PROGRAM_ADDRESS" for x in f[1:])]
            is22 = True if t22 == [True] else (False if t22 == [False] or spl == [True] else None)
            rep.ok(is22 is not None, w, "the mint's size depends on the token program")
            for who, sizes, res in ((m, mint_sizes(flav, is22), "fundedWrappedMintLamports"), (b, [lit(ctx.idl["accounts"][0]["size"])], "fundedBackpointerLamports")):
                nm = "wrapped mint" if who == m else "backpointer"
                trs = [x for x in items[:-1] if x[:2] == ("app", "getTransferSolInstruction") and (odict(x[2]) or {}).get("destination") == who]
                short = None
                rent = None
                for f, v in p.facts.items():
                    if f[0] == "cond" and f[1] == "<":
                        for s in (f[2], f[3]):
                            r = rent_of(s)
                            if r is not None and size_is(r, sizes) and lamports_of(f[2] if s is f[3] else f[3], who, p):
                                rent, have = s, (f[2] if s is f[3] else f[3])
                                short = v if s is f[3] else (not v)
                rep.ok(short is not None, w, "the balance of the %s is compared with the rent for its size" % nm)
                if short is None:
                    continue
                cases.add((nm, short))
                want = ("bin", "-", rent, have)
                if short:
                    d = odict(trs[0][2]) if trs else {}
                    rep.ok(len(trs) == 1 and amount_is(d.get("amount"), rent, have) and d.get("source") == addr("payer"), w, "the payer sends the %s exactly the shortfall" % nm)
                    rep.ok(amount_is(o.get(res), rent, have), w, "%s is reported" % res)
                else:
                    rep.ok(not trs, w, "a funded %s receives nothing" % nm)
                    rep.ok(o.get(res) == lit(0), w, "%s is reported as zero" % res)
            rep.ok(all(x[:2] == ("app", "getTransferSolInstruction") and (odict(x[2]) or {}).get("destination") in (m, b) for x in items[:-1]), w, "nothing else is done")
        rep.ok(len(cases) >= 4, w, "funded and underfunded accounts are both handled")


def amount_is(v, rent, have):
    return v == ("bin", "-", rent, have) or have == lit(0) and v == rent


def rent_of(v):
    """the size a rent query asked for"""
    for s in E.subs(v):
        if isinstance(s, tuple) and s[:2] == ("app", "method") and len(s) > 4 and s[3] == "getMinimumBalanceForRentExemption":
            return s[4]
    return None


def strip_big(v):
    while isinstance(v, tuple) and v[:2] == ("app", "BigInt"):
        v = v[2]
    return v


def size_is(v, sizes):
    return strip_big(v) in sizes


def lamports_of(v, who, p):
    if v == lit(0):
        return any(val is False and f[0] == "truthy" and fetched(f[1], who) for f, val in p.facts.items())
    return isinstance(v, tuple) and v[0] == "get" and v[2] == "lamports" and fetched(v, who) and \
        any(val is True and f[0] == "truthy" and fetched(f[1], who) for f, val in p.facts.items())


def default_extensions(ctx):
    """the extensions the program's default flavour reserves space for"""
    inst = next((i for i in ctx.lib.insts.values() if i["path"].startswith("<spl_token_wrap::mint_customizer::default_token_2022::") and
                 i["path"].endswith("::get_token_2022_mint_space") and i.get("blocks")), None)
    if inst is None:
        raise MissingAnchor("get_token_2022_mint_space of the default flavour")
    r = ctx.run(inst, [])
    out = set()
    for s, v in r.res:
        v = r.it.freeze(s, v)
        for x in A.subterms(v):
            e = A.space_exts(x) if x.op == "app" or x.op == "field" else None
            if e:
                out |= set(e)
    return sorted(out)


def mint_sizes(flav, is22):
    bare = [("app", "getMintSize"), lit(82)]
    if not is22:
        return bare

    class Any(list):
        def __contains__(self, v):
            if not (isinstance(v, tuple) and v[:2] == ("app", "getMintSize") and len(v) == 3 and v[2][0] == "arr"):
                return False
            names = []
            for x in v[2][1]:
                if x[:2] == ("app", "extension") and x[2][0] == "lit":
                    names.append(x[2][1])
                else:
                    o = odict(x) or {}
                    names.append(o.get("__kind", ("", None))[1])
            return sorted(map(str, names)) == flav
    return Any()


def escrow_rule(ctx, rep, c, run):
    w, ps = run("utilities.ts", "createEscrowAccount", [lambda: Obj({"rpc": ("sym", "rpc"), "payer": addr("payer"), "unwrappedMint": addr("u"), "wrappedTokenProgram": addr("wtp")})])
    m = c.mint(addr("u"), addr("wtp"))
    a = c.authority(m)
    kinds = set()
    for p in ps:
        if p.kind != "return":
            continue
        o = odict(p.value) or {}
        kind = o.get("kind")
        kinds.add(kind)
        look = [(f, v) for f, v in p.facts.items() if f[0] == "truthy" and isinstance(f[1], tuple) and f[1][0] == "get" and f[1][2] == "exists"]
        here = None
        esc = None
        for f, v in look:
            for s in E.subs(f):
                if isinstance(s, tuple) and s[:2] == ("app", "findAssociatedTokenPda"):
                    d = odict(s[2]) or {}
                    if d.get("owner") == a and d.get("mint") == addr("u") and account_owner(addr("u"))(d.get("tokenProgram")):
                        esc, here = get(s, 0), v
                        prog = d["tokenProgram"]
        rep.ok(esc is not None, w, "whether the canonical escrow exists is examined")
        if esc is None:
            continue
        if here:
            rep.ok(kind == lit("already_exists") and fetched(o.get("account"), esc), w, "an existing escrow is returned, not created again")
        else:
            ixs = o.get("ixs", ("?",))
            ok = kind == lit("instructions_to_create") and ixs[0] == "arr" and len(ixs[1]) == 1 and o.get("address") == esc
            rep.ok(ok, w, "a missing escrow is created by one instruction")
            if ok:
                x = ixs[1][0]
                d = odict(x[2]) if x[0] == "app" and x[1] in ("getCreateAssociatedTokenInstruction", "getCreateAssociatedTokenIdempotentInstruction") else None
                rep.ok(d is not None and d.get("payer") == addr("payer") and d.get("owner") == a and d.get("mint") == addr("u") and d.get("ata", esc) == esc and
                       d.get("tokenProgram") == prog, w, "the escrow is created as the authority's associated account under the mint's token program")
    rep.ok(len(kinds) == 2, w, "existing and missing escrows are both handled")
    w, ps = run("utilities.ts", "getOwnerFromAccount", [("sym", "rpc"), addr("x")])
    for p in ps:
        if p.kind == "return":
            rep.ok(account_owner(addr("x"))(p.value) and existing(p, addr("x"), rep, w), w, "the owner is the account's, and a missing account is an error")
    w, ps = run("utilities.ts", "getMintFromTokenAccount", [("sym", "rpc"), addr("x")])
    for p in ps:
        if p.kind == "return":
            rep.ok(token_mint(addr("x"))(p.value) and existing(p, addr("x"), rep, w), w, "the mint is the account's, and a missing account is an error")
    w, ps = run("utilities.ts", "createTokenAccount", [lambda: Obj({"rpc": ("sym", "rpc"), "payer": addr("payer"), "mint": addr("m"), "owner": addr("o"), "tokenProgram": addr("tp")})])
    for p in ps:
        if p.kind != "return":
            continue
        o = odict(p.value) or {}
        ixs = o.get("ixs", ("?",))
        items = ixs[1] if ixs[0] == "arr" else ()
        rep.ok(len(items) == 2, w, "an account is created and initialised")
        if len(items) != 2:
            continue
        kp = o.get("keyPair")
        d = odict(items[0][2]) if items[0][:2] == ("app", "getCreateAccountInstruction") else {}
        rent = rent_of(d.get("lamports"))
        rep.ok(d.get("payer") == addr("payer") and d.get("newAccount") == kp and d.get("programAddress") == addr("tp") and d.get("space") == lit(165) and
               rent is not None and strip_big(rent) == lit(165), w, "the new account has a token account's size, rent and owner program")
        which = {"token:getInitializeAccountInstruction": "TOKEN_PROGRAM_ADDRESS", "getInitializeAccountInstruction": "TOKEN_2022_PROGRAM_ADDRESS"}
        known = which.get(items[1][1]) if items[1][0] == "app" else None
        d = odict(items[1][2]) if known else {}
        cfg = odict(items[1][3]) if known and len(items[1]) > 3 else {}
        told = cfg and cfg.get("programAddress") == addr("tp")
        same = any(v is True and f[0] == "eq" and set(f[1:]) == {addr("tp"), ("extern", known)} for f, v in p.facts.items())
        rep.ok(bool(told or same), w, "the account is initialised by its owner program")
        rep.ok(d.get("account") == get(kp, "address") and d.get("mint") == addr("m") and d.get("owner") == addr("o"), w, "the new account is initialised for the mint and owner")


def combine_rule(ctx, rep, run):
    txs = addr("txs")
    w, ps = run("utilities.ts", "combinedMultisigTx", [lambda: Obj({"signedTxs": txs, "blockhash": addr("blockhash")})])
    first = get(txs, 0)
    n = 0
    for p in ps:
        if p.kind != "return":
            continue
        n += 1
        o = odict(p.value) or {}
        rep.ok(o.get("messageBytes") == get(first, "messageBytes"), w, "the combined transaction carries the signed message")
        rep.ok(o.get("lifetimeConstraint") == addr("blockhash"), w, "the combined transaction carries the supplied blockhash")
        single = any(v is True and f[0] == "eq" and lit(1) in f and any(isinstance(x, tuple) and x == get(txs, "length") for x in f[1:]) for f, v in p.facts.items())
        every = any(messages_compared(dict(fs), q, txs) for q, fs in p.rounds if q in (txs, ("slice", txs, 1)))
        rep.ok(single or every, w, "messages of several signers are combined only when they are all the same")
        sig = o.get("signatures")
        ok = isinstance(sig, tuple) and sig[0] == "obj"
        rep.ok(ok, w, "the signatures are collected")
        el = ("elem", txs)
        if ok:
            bad = [k for k, v, lp in sig[3] if v != NULL and not own_signature(k, v, txs)]
            rep.ok(not bad, w, "each signature is stored under its own signer")
            rep.ok(any(v == NULL for k, v, lp in sig[3]), w, "every signer of the first transaction is expected")
        checks = [x for x in p.calls if x[0] == "app" and x[1] in ("assertIsFullySignedTransaction", "assertIsSendableTransaction")]
        rep.ok({x[1] for x in checks} == {"assertIsFullySignedTransaction", "assertIsSendableTransaction"} and all(x[2] == p.value for x in checks), w,
               "an incompletely signed transaction is refused")
    rep.ok(n > 0, w, "signatures can be combined")


def messages_compared(facts, seq, txs):
    """the round over the transactions was completed only for messages equal to the first one"""
    ref = get(get(txs, 0), "messageBytes")
    cur = get(("elem", seq), "messageBytes")
    length = ("eq",) + tuple(sorted((get(ref, "length"), get(cur, "length")), key=repr))
    true = [f[1] for f, v in facts.items() if v is True and f[0] == "truthy"]
    whole = any(x[:2] == ("app", "containsBytes") and set(x[2:4]) == {ref, cur} and x[4:] == (lit(0),) for x in true)
    return whole and facts.get(length) is True or any(x[:2] == ("app", "bytesEqual") and set(x[2:4]) == {ref, cur} for x in true)


def own_signature(k, v, txs):
    """entry [address, signature] of one of the transactions' signatures"""
    if isinstance(k, tuple) and k[0] == "get" and isinstance(v, tuple) and v[0] == "get" and k[2] == 0 and v[2] == 1 and k[1] == v[1]:
        return any(x == get(("elem", txs), "signatures") for x in E.subs(k))
    return isinstance(v, tuple) and v[0] == "get" and v[1] == get(("elem", txs), "signatures") and v[2] == k
