"""Abstract evaluation of the TypeScript client over its syntax tree: symbolic values, every combination of undecided conditions
enumerated as a separate path. Calls into other packages stay uninterpreted; calls within the client are inlined. Nothing is executed."""
import os
import ts


# functions both token libraries export under one name but which act for their own program
SPL_ONLY = ("getInitializeAccountInstruction", "getMintSize")


class Throw(Exception):
    def __init__(self, v):
        self.v = v


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Unknown(Exception):
    pass


UNDEF = ("undef",)
NULL = ("null",)


class Obj:
    def __init__(self, d=None, base=None):
        self.d = dict(d or {})
        self.rest = list(base or [])       # symbolic spreads
        self.stores = []                   # stores under symbolic keys


class Arr:
    def __init__(self, items=None):
        self.items = list(items or [])     # values or ("spread", v)


class TEnc:
    """an encoder whose input is first mapped by a local function"""
    def __init__(self, enc, fn):
        self.enc, self.fn = enc, fn


class Fn:
    def __init__(self, node, env, mod):
        self.node, self.env, self.mod = node, env, mod


def lit(v):
    return ("lit", v)


def app(f, *a):
    return ("app", f) + tuple(a)


def get(b, p):
    return ("get", b, p)


def freeze(v, depth=0):
    """hashable, immutable form of a value"""
    if depth > 40:
        raise Unknown("depth")
    if isinstance(v, Obj):
        return ("obj", tuple(sorted((k, freeze(x, depth + 1)) for k, x in v.d.items())), tuple(freeze(x, depth + 1) for x in v.rest),
                tuple((freeze(k, depth + 1), freeze(x, depth + 1), c) for k, x, c in v.stores))
    if isinstance(v, Arr):
        return ("arr", tuple(freeze(x, depth + 1) for x in v.items))
    if isinstance(v, Fn):
        return ("fn", id(v.node))
    if isinstance(v, TEnc):
        return ("app", "transformEncoder", freeze(v.enc, depth + 1), ("fn", id(v.fn.node)))
    if isinstance(v, tuple):
        return tuple(freeze(x, depth + 1) if isinstance(x, (Obj, Arr, Fn, TEnc, tuple)) else x for x in v)
    return v


def subs(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                yield from subs(x)


class Program:
    def __init__(self, root):
        self.root = root
        files = []
        for d, ds, fs in os.walk(root):
            ds[:] = [x for x in ds if x not in ("node_modules", "examples")]
            files += [os.path.join(d, f) for f in fs if f.endswith(".ts") and not f.endswith(".d.ts")]
        self.mods = ts.load(sorted(files)) if files else {}
        self.envs = {}

    def path(self, rel):
        return os.path.join(self.root, rel)

    def resolve(self, frm, spec):
        if not spec.startswith("."):
            return None
        p = os.path.normpath(os.path.join(os.path.dirname(frm), spec))
        for c in (p + ".ts", os.path.join(p, "index.ts")):
            if c in self.mods:
                return c
        return None

    def module(self, path):
        """top-level names of a module: name -> (kind, payload)"""
        if path in self.envs:
            return self.envs[path]
        env = {}
        self.envs[path] = env
        for s in self.mods[path]:
            k = s["k"]
            if k == "ImportDeclaration":
                spec = s["moduleSpecifier"]["text"]
                tgt = self.resolve(path, spec)
                ic = s.get("importClause") or {}
                if ic.get("name"):
                    env[ic["name"]["text"]] = ("import", tgt, spec, "default")
                nb = ic.get("namedBindings")
                if nb and nb["k"] == "NamedImports":
                    for e in nb["elements"]:
                        src = (e.get("propertyName") or e["name"])["text"]
                        env[e["name"]["text"]] = ("import", tgt, spec, src)
                elif nb:
                    env[nb["name"]["text"]] = ("import", tgt, spec, "*")
            elif k == "FunctionDeclaration" and s.get("name"):
                env[s["name"]["text"]] = ("function", s)
            elif k == "VariableStatement":
                for d in s["declarationList"]["declarations"]:
                    if d["name"]["k"] == "Identifier" and d.get("initializer"):
                        env[d["name"]["text"]] = ("const", d["initializer"])
            elif k == "EnumDeclaration":
                env[s["name"]["text"]] = ("enum", s)
            elif k == "ExportDeclaration" and s.get("moduleSpecifier"):
                tgt = self.resolve(path, s["moduleSpecifier"]["text"])
                ec = s.get("exportClause")
                if ec is None:
                    env.setdefault("*", []).append(tgt)
                elif ec["k"] == "NamedExports":
                    for e in ec["elements"]:
                        src = (e.get("propertyName") or e["name"])["text"]
                        env[e["name"]["text"]] = ("import", tgt, s["moduleSpecifier"]["text"], src)
        return env

    def lookup(self, path, name, seen=()):
        """(module, entry) of a name visible at the top level of a module"""
        if (path, name) in seen:
            return None
        env = self.module(path)
        if name in env and name != "*":
            e = env[name]
            if e[0] == "import":
                if e[1] is None:
                    return (path, ("extern", e[2], e[3]))
                if e[3] == "*":
                    return (path, ("namespace", e[1]))
                return self.lookup(e[1], e[3], seen + ((path, name),))
            return (path, e)
        for t in env.get("*", ()):
            if t:
                r = self.lookup(t, name, seen + ((path, name),))
                if r:
                    return r
        return None


class Path:
    def __init__(self, kind, value, facts, calls, rounds=()):
        # rounds: (sequence, facts decided for its representative element) of every loop that ran over all of its sequence
        self.kind, self.value, self.facts, self.calls, self.rounds = kind, value, facts, calls, rounds

    def fact(self, c):
        return self.facts.get(freeze(c))


class Eval:
    MAXPATHS = 4096
    # properties of what library calls return that their types declare present
    NONNULL = {"owner", "mint", "lamports", "address", "data", 0, 1}

    def __init__(self, prog):
        self.p = prog

    def run(self, path, name, args):
        """every path of an exported function"""
        r = self.p.lookup(path, name)
        if r is None or r[1][0] != "function":
            raise Unknown("function %s" % name)
        return self.paths(lambda: self.call_fn(Fn(r[1][1], {}, r[0]), [a() if callable(a) else a for a in args]))

    def value(self, path, name):
        ps = self.paths(lambda: self.name(name, {}, path))
        return ps[0].value if len(ps) == 1 and ps[0].kind == "return" else None

    def paths(self, f):
        out = []
        todo = [[]]
        while todo:
            pre = todo.pop()
            self.decisions = list(pre)
            self.at = 0
            self.facts = {}
            self.calls = []
            self.loops = []
            self.rounds = []
            self.fresh = 0
            self.depth = 0
            try:
                v = f()
                kind = "return"
            except Throw as t:
                v, kind = t.v, "throw"
            for i in range(len(pre), len(self.decisions)):
                todo.append(self.decisions[:i] + [not self.decisions[i]])
            out.append(Path(kind, freeze(v), dict(self.facts), [freeze(c) for c in self.calls], tuple(self.rounds)))
            if len(out) > self.MAXPATHS:
                raise Unknown("too many paths")
        return out

    # -- conditions
    def decide(self, c):
        c = freeze(c)
        if c in self.facts:
            return self.facts[c]
        if self.at < len(self.decisions):
            v = self.decisions[self.at]
        else:
            v = True
            self.decisions.append(v)
        self.at += 1
        self.facts[c] = v
        return v

    def truthy(self, v):
        if isinstance(v, (Obj, Arr, Fn)):
            return True
        if v in (UNDEF, NULL):
            return False
        if v[0] == "lit":
            return bool(v[1])
        if v[0] == "cond":
            return self.decide(v) if len(v) > 1 else None
        if v[0] == "not":
            return not self.truthy(v[1])
        if v[0] == "eqc":
            return self.equal(v[1], v[2])
        if v[0] == "addr":
            return True
        return self.decide(("truthy", v))

    def nullish(self, v):
        if isinstance(v, (Obj, Arr, Fn, TEnc)):
            return False
        if v in (UNDEF, NULL):
            return True
        if v[0] in ("lit", "cond", "addr", "enum", "app", "not", "eqc", "bin", "map"):
            return False
        if self.facts.get(("truthy", freeze(v))) is True:
            return False
        if v[0] == "get" and v[2] in self.NONNULL:
            b = v
            while b[0] == "get":
                b = b[1]
            if b[0] == "app":
                return False
        return self.decide(("nullish", v))

    def equal(self, a, b):
        fa, fb = freeze(a), freeze(b)
        if fa == fb:
            return True
        if isinstance(a, (Obj, Arr, Fn)) or isinstance(b, (Obj, Arr, Fn)):
            if fa in (UNDEF, NULL) or fb in (UNDEF, NULL):
                return False
            return self.decide(("eq",) + tuple(sorted((fa, fb), key=repr)))
        if fb in (UNDEF, NULL):
            return self.nullish(a)
        if fa in (UNDEF, NULL):
            return self.nullish(b)
        if fa[0] in ("lit", "enum") and fb[0] in ("lit", "enum"):
            return False
        return self.decide(("eq",) + tuple(sorted((fa, fb), key=repr)))

    # -- names
    def name(self, n, env, mod):
        e = env
        while e is not None:
            if n in e:
                return e[n]
            e = e.get("^")
        if n == "undefined":
            return UNDEF
        r = self.p.lookup(mod, n)
        if r is None:
            return ("global", n)
        m, x = r
        if x[0] == "function":
            return Fn(x[1], {}, m)
        if x[0] == "const":
            return self.expr(x[1], {}, m)
        if x[0] == "enum":
            return ("enumtype", x[1]["name"]["text"])
        if x[0] == "extern":
            if x[1] == "@solana-program/token" and x[2] in SPL_ONLY:
                return ("extern", "token:" + x[2])
            return ("extern", x[2])
        return ("ns", x[1])

    # -- functions
    def call_fn(self, fn, args):
        self.depth += 1
        if self.depth > 60:
            raise Unknown("recursion")
        try:
            env = {"^": fn.env}
            for i, p in enumerate(fn.node.get("parameters", [])):
                if p.get("dotDotDotToken"):
                    self.bind(p["name"], Arr(args[i:]), env, fn.mod)
                    break
                v = args[i] if i < len(args) else UNDEF
                if p.get("initializer") is not None and (v == UNDEF if not isinstance(v, (Obj, Arr, Fn)) else False):
                    v = self.expr(p["initializer"], env, fn.mod)
                elif p.get("initializer") is not None and isinstance(v, tuple) and v[0] in ("sym", "get") and self.nullish(v):
                    v = self.expr(p["initializer"], env, fn.mod)
                self.bind(p["name"], v, env, fn.mod)
            b = fn.node.get("body")
            if b is None:
                raise Unknown("no body")
            if b["k"] != "Block":
                return self.expr(b, env, fn.mod)
            try:
                self.block(b["statements"], env, fn.mod)
            except Ret as r:
                return r.v
            return UNDEF
        finally:
            self.depth -= 1

    def bind(self, pat, v, env, mod):
        k = pat["k"]
        if k == "Identifier":
            env[pat["text"]] = v
        elif k == "ObjectBindingPattern":
            taken = []
            for e in pat["elements"]:
                if e.get("dotDotDotToken"):
                    o = Obj({a: b for a, b in v.d.items() if a not in taken}) if isinstance(v, Obj) else ("without", v, tuple(taken))
                    self.bind(e["name"], o, env, mod)
                    continue
                pn = e.get("propertyName") or e["name"]
                key = ts.text(pn)
                taken.append(key)
                x = self.prop(v, key)
                if e.get("initializer") is not None and self.nullish(x):
                    x = self.expr(e["initializer"], env, mod)
                self.bind(e["name"], x, env, mod)
        elif k == "ArrayBindingPattern":
            for i, e in enumerate(pat["elements"]):
                if e["k"] == "OmittedExpression":
                    continue
                if e.get("dotDotDotToken"):
                    self.bind(e["name"], self.slice(v, i), env, mod)
                    continue
                self.bind(e["name"], self.index(v, i), env, mod)
        else:
            raise Unknown("pattern " + k)

    # -- statements
    def block(self, sts, env, mod):
        for s in sts:
            if s["k"] == "FunctionDeclaration" and s.get("name"):
                env[s["name"]["text"]] = Fn(s, env, mod)
        for s in sts:
            self.stmt(s, env, mod)

    def stmt(self, s, env, mod):
        k = s["k"]
        if k in ("VariableStatement",):
            for d in s["declarationList"]["declarations"]:
                self.bind(d["name"], self.expr(d["initializer"], env, mod) if d.get("initializer") else UNDEF, env, mod)
        elif k == "ExpressionStatement":
            self.expr(s["expression"], env, mod)
        elif k == "ReturnStatement":
            raise Ret(self.expr(s["expression"], env, mod) if s.get("expression") else UNDEF)
        elif k == "ThrowStatement":
            raise Throw(self.expr(s["expression"], env, mod))
        elif k == "IfStatement":
            if self.truthy(self.expr(s["expression"], env, mod)):
                self.stmt(s["thenStatement"], {"^": env}, mod)
            elif s.get("elseStatement"):
                self.stmt(s["elseStatement"], {"^": env}, mod)
        elif k == "Block":
            self.block(s["statements"], {"^": env}, mod)
        elif k == "SwitchStatement":
            v = self.expr(s["expression"], env, mod)
            cl = s["caseBlock"]["clauses"]
            on = None
            for i, c in enumerate(cl):
                if c["k"] == "CaseClause" and self.equal(v, self.expr(c["expression"], env, mod)):
                    on = i
                    break
            if on is None:
                on = next((i for i, c in enumerate(cl) if c["k"] == "DefaultClause"), None)
            if on is not None:
                try:
                    for c in cl[on:]:
                        self.block(c["statements"], {"^": env}, mod)
                except Break:
                    pass
        elif k == "BreakStatement":
            raise Break()
        elif k == "ContinueStatement":
            raise Continue()
        elif k == "ForOfStatement":
            self.for_of(s, env, mod)
        elif k == "ForStatement":
            self.for_index(s, env, mod)
        elif k in ("FunctionDeclaration", "EmptyStatement", "InterfaceDeclaration", "TypeAliasDeclaration"):
            pass
        elif k == "TryStatement":
            raise Unknown("try")
        else:
            raise Unknown("statement " + k)

    def for_of(self, s, env, mod):
        it = self.expr(s["expression"], env, mod)
        dl = s["initializer"]["declarations"][0]["name"]
        known = isinstance(it, Arr) and not any(isinstance(x, tuple) and x[0] == "spread" for x in it.items)
        items = it.items if known else [("elem", freeze(it))]
        if known:
            for x in items:
                e = {"^": env}
                self.bind(dl, x, e, mod)
                try:
                    self.stmt(s["statement"], e, mod)
                except Continue:
                    continue
                except Break:
                    break
            return

        def body():
            e = {"^": env}
            self.bind(dl, items[0], e, mod)
            self.stmt(s["statement"], e, mod)
        self.round(freeze(it), body)

    def round(self, seq, body):
        """a loop over an unknown sequence: one representative round, of which every effect is recorded under the round's conditions"""
        before = set(self.facts)
        self.loops.append(seq)
        try:
            body()
        except Continue:
            pass
        except Break:
            return
        finally:
            self.loops.pop()
        self.rounds.append((seq, tuple((f, v) for f, v in self.facts.items() if f not in before)))

    def for_index(self, s, env, mod):
        """for (let i = <number>; i < <sequence>.length; i++)"""
        ds = s["initializer"].get("declarations", []) if s.get("initializer") else []
        c, inc = s.get("condition"), s.get("incrementor")
        if len(ds) != 1 or c is None or inc is None or ds[0]["name"]["k"] != "Identifier" or not ds[0].get("initializer"):
            raise Unknown("for")
        i = ds[0]["name"]["text"]
        start = self.expr(ds[0]["initializer"], env, mod)
        op = c.get("operatorToken", {}).get("k")
        step = inc["k"] in ("PostfixUnaryExpression", "PrefixUnaryExpression") and inc.get("operator") == ts.PLUSPLUS and inc["operand"].get("text") == i
        if inc["k"] == "BinaryExpression" and inc["operatorToken"]["k"] == "PlusEqualsToken" and inc["left"].get("text") == i and inc["right"].get("text") == "1":
            step = True
        if c["k"] != "BinaryExpression" or c["left"].get("text") != i or op not in ("LessThanToken", "ExclamationEqualsEqualsToken", "ExclamationEqualsToken") or not step:
            raise Unknown("for")
        n = freeze(self.expr(c["right"], {"^": env}, mod))
        if start[0] != "lit":
            raise Unknown("for")
        if n[0] == "lit":
            for j in range(start[1], n[1]):
                try:
                    self.stmt(s["statement"], {"^": env, i: lit(j)}, mod)
                except Continue:
                    continue
                except Break:
                    break
            return
        if n[0] == "get" and n[2] == "length":
            seq = n[1]
        elif n[:2] == ("app", "length"):
            seq = n[2]
        else:
            raise Unknown("for")
        part = self.slice(seq, start[1])
        self.round(freeze(part), lambda: self.stmt(s["statement"], {"^": env, i: ("position", seq, part)}, mod))

    def slice(self, v, k):
        if k == 0:
            return v
        if isinstance(v, Arr) and not any(isinstance(x, tuple) and x[0] == "spread" for x in v.items[:k]):
            return Arr(v.items[k:])
        return ("slice", freeze(v), k)

    # -- expressions
    def prop(self, v, key):
        if isinstance(v, Obj):
            if key in v.d:
                return v.d[key]
            if v.rest:
                return self.prop(v.rest[-1], key)
            return UNDEF
        if isinstance(v, Arr):
            if key == "length":
                if not any(isinstance(x, tuple) and x[0] == "spread" for x in v.items):
                    return lit(len(v.items))
                return app("length", freeze(v))
            return ("method", v, key)
        if isinstance(v, Fn):
            raise Unknown("property of function")
        if v in (UNDEF, NULL):
            raise Throw(app("TypeError", lit(key)))
        if v[0] == "enumtype":
            return ("enum", v[1], key)
        if v[0] == "ns":
            return self.name(key, {}, v[1])
        if v[0] == "without" and key not in v[2]:
            return self.prop(v[1], key)
        return get(v, key)

    def index(self, v, i):
        if isinstance(i, tuple) and i[0] == "position":
            if freeze(v) != i[1]:
                raise Unknown("index of another sequence")
            return ("elem", freeze(i[2]))
        if isinstance(i, tuple) and i[0] == "lit":
            i = i[1]
        if isinstance(v, tuple) and v[0] == "slice" and isinstance(i, int):
            return self.index(v[1], v[2] + i)
        if isinstance(v, Arr):
            if isinstance(i, int):
                if any(isinstance(x, tuple) and x[0] == "spread" for x in v.items[:i + 1]):
                    return get(freeze(v), i)
                return v.items[i] if i < len(v.items) else UNDEF
        if isinstance(v, Obj):
            return self.prop(v, i)
        return get(freeze(v), i if isinstance(i, (int, str)) else freeze(i))

    def expr(self, n, env, mod):
        k = n["k"]
        if k == "Identifier":
            return self.name(n["text"], env, mod)
        if k in ("NumericLiteral", "BigIntLiteral"):
            return lit(int(n["text"].rstrip("n").replace("_", ""), 0))
        if k in ("StringLiteral", "NoSubstitutionTemplateLiteral"):
            return lit(n["text"])
        if k == "TrueKeyword":
            return lit(True)
        if k == "FalseKeyword":
            return lit(False)
        if k == "NullKeyword":
            return NULL
        if k in ("AsExpression", "ParenthesizedExpression", "SatisfiesExpression", "NonNullExpression", "AwaitExpression", "TypeAssertionExpression"):
            return self.expr(n["expression"], env, mod)
        if k == "ObjectLiteralExpression":
            o = Obj()
            for p in n["properties"]:
                if p["k"] == "PropertyAssignment":
                    if p["name"]["k"] == "ComputedPropertyName":
                        key = self.expr(p["name"]["expression"], env, mod)
                        val = self.expr(p["initializer"], env, mod)
                        if isinstance(key, tuple) and key[0] == "lit":
                            o.d[key[1]] = val
                        else:
                            o.stores.append((key, val, ()))
                        continue
                    o.d[ts.text(p["name"])] = self.expr(p["initializer"], env, mod)
                elif p["k"] == "ShorthandPropertyAssignment":
                    o.d[p["name"]["text"]] = self.name(p["name"]["text"], env, mod)
                elif p["k"] == "SpreadAssignment":
                    v = self.expr(p["expression"], env, mod)
                    if isinstance(v, Obj):
                        o.d.update(v.d)
                        o.rest += v.rest
                    else:
                        o.rest.append(v)
                elif p["k"] == "MethodDeclaration":
                    o.d[ts.text(p["name"])] = Fn(p, env, mod)
                else:
                    raise Unknown("property " + p["k"])
            return o
        if k == "ArrayLiteralExpression":
            a = Arr()
            for x in n["elements"]:
                if x["k"] == "SpreadElement":
                    v = self.expr(x["expression"], env, mod)
                    if isinstance(v, Arr):
                        a.items += v.items
                    else:
                        a.items.append(("spread", v))
                else:
                    a.items.append(self.expr(x, env, mod))
            return a
        if k in ("ArrowFunction", "FunctionExpression"):
            return Fn(n, env, mod)
        if k == "PropertyAccessExpression":
            b = self.expr(n["expression"], env, mod)
            if n.get("questionDotToken") and self.nullish(b):
                return UNDEF
            return self.prop(b, n["name"]["text"])
        if k == "ElementAccessExpression":
            b = self.expr(n["expression"], env, mod)
            i = self.expr(n["argumentExpression"], env, mod)
            if isinstance(i, tuple) and i[0] == "lit":
                return self.index(b, i[1])
            return self.index(b, i)
        if k == "ConditionalExpression":
            return self.expr(n["whenTrue"] if self.truthy(self.expr(n["condition"], env, mod)) else n["whenFalse"], env, mod)
        if k == "BinaryExpression":
            return self.binary(n, env, mod)
        if k == "PrefixUnaryExpression":
            v = self.expr(n["operand"], env, mod)
            if n["operator"] == 54 or n.get("op") == "!":
                return ("not", v) if not isinstance(v, (Obj, Arr, Fn)) else lit(False)
            if isinstance(v, tuple) and v[0] == "lit":
                return lit(-v[1])
            return app("unary", v)
        if k == "CallExpression":
            return self.call(n, env, mod)
        if k == "NewExpression":
            c = self.expr(n["expression"], env, mod)
            return app("new", c, *[self.arg(a, env, mod) for a in n.get("arguments", [])])
        if k == "TemplateExpression":
            return app("template", lit(n["head"].get("text")), *[self.expr(x["expression"], env, mod) for x in n["templateSpans"]])
        if k == "TypeOfExpression":
            return app("typeof", self.expr(n["expression"], env, mod))
        if k == "VoidExpression":
            return UNDEF
        raise Unknown("expression " + k)

    def arg(self, a, env, mod):
        if a["k"] == "SpreadElement":
            return ("spread", self.expr(a["expression"], env, mod))
        return self.expr(a, env, mod)

    def binary(self, n, env, mod):
        op = n["operatorToken"]["k"]
        if op in ("EqualsToken", "FirstAssignment"):
            v = self.expr(n["right"], env, mod)
            self.assign(n["left"], v, env, mod)
            return v
        if op in ("PlusEqualsToken", "FirstCompoundAssignment", "MinusEqualsToken"):
            a, b = self.expr(n["left"], env, mod), self.expr(n["right"], env, mod)
            v = self.arith("+" if op != "MinusEqualsToken" else "-", a, b)
            self.assign(n["left"], v, env, mod)
            return v
        if op == "QuestionQuestionToken":
            a = self.expr(n["left"], env, mod)
            return self.expr(n["right"], env, mod) if self.nullish(a) else a
        if op == "QuestionQuestionEqualsToken":
            a = self.expr(n["left"], env, mod)
            if self.nullish(a):
                a = self.expr(n["right"], env, mod)
                self.assign(n["left"], a, env, mod)
            return a
        if op == "BarBarToken":
            a = self.expr(n["left"], env, mod)
            return a if self.truthy(a) else self.expr(n["right"], env, mod)
        if op == "AmpersandAmpersandToken":
            a = self.expr(n["left"], env, mod)
            return self.expr(n["right"], env, mod) if self.truthy(a) else a
        a, b = self.expr(n["left"], env, mod), self.expr(n["right"], env, mod)
        if op in ("EqualsEqualsEqualsToken", "EqualsEqualsToken"):
            return ("eqc", a, b)
        if op in ("ExclamationEqualsEqualsToken", "ExclamationEqualsToken"):
            return ("not", ("eqc", a, b))
        sym = {"PlusToken": "+", "MinusToken": "-", "AsteriskToken": "*", "SlashToken": "/", "LessThanToken": "<", "FirstBinaryOperator": "<",
               "GreaterThanToken": ">", "LessThanEqualsToken": "<=", "GreaterThanEqualsToken": ">=", "InKeyword": "in",
               "InstanceOfKeyword": "instanceof"}.get(op)
        if sym is None:
            raise Unknown("operator " + op)
        if sym == ">":
            a, b, sym = b, a, "<"
        if sym == ">=":
            return ("not", self.arith("<", a, b))
        if sym == "<=":
            return ("not", self.arith("<", b, a))
        if sym == "in" and isinstance(b, Obj) and isinstance(a, tuple) and a[0] == "lit":
            return lit(a[1] in b.d)
        return self.arith(sym, a, b)

    def arith(self, op, a, b):
        if all(isinstance(x, tuple) and x[0] == "lit" for x in (a, b)) and not isinstance(a[1], str) and not isinstance(b[1], str):
            try:
                return lit({"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "<": lambda x, y: x < y}[op](a[1], b[1]))
            except KeyError:
                pass
        return ("bin", op, freeze(a), freeze(b)) if op not in ("<", "in", "instanceof") else ("cond", op, freeze(a), freeze(b))

    def assign(self, l, v, env, mod):
        while l["k"] in ("ParenthesizedExpression", "NonNullExpression", "AsExpression"):
            l = l["expression"]
        if l["k"] == "Identifier":
            e = env
            while e is not None:
                if l["text"] in e:
                    e[l["text"]] = v
                    return
                e = e.get("^")
            raise Unknown("assignment to " + l["text"])
        if l["k"] == "PropertyAccessExpression":
            b = self.expr(l["expression"], env, mod)
            if isinstance(b, Obj):
                b.d[l["name"]["text"]] = v
                return
        if l["k"] == "ElementAccessExpression":
            b = self.expr(l["expression"], env, mod)
            i = self.expr(l["argumentExpression"], env, mod)
            if isinstance(b, Obj):
                if isinstance(i, tuple) and i[0] == "lit":
                    b.d[i[1]] = v
                else:
                    b.stores.append((i, v, tuple(self.loops)))
                return
        raise Unknown("assignment target")

    def call(self, n, env, mod):
        f = n["expression"]
        while f["k"] in ("ParenthesizedExpression", "NonNullExpression"):
            f = f["expression"]
        if f["k"] == "PropertyAccessExpression":
            base = self.expr(f["expression"], env, mod)
            if f.get("questionDotToken") and self.nullish(base):
                return UNDEF
            args = [self.arg(a, env, mod) for a in n.get("arguments", [])]
            return self.method(base, f["name"]["text"], args)
        callee = self.expr(f, env, mod)
        args = [self.arg(a, env, mod) for a in n.get("arguments", [])]
        return self.apply(callee, args)

    def apply(self, callee, args):
        if isinstance(callee, Fn):
            return self.call_fn(callee, args)
        if isinstance(callee, tuple):
            if callee[0] == "extern" and callee[1] == "pipe":
                v = args[0]
                for g in args[1:]:
                    v = self.apply(g, [v])
                return v
            if callee[0] == "extern" and callee[1] == "transformEncoder" and len(args) == 2 and isinstance(args[1], Fn):
                return TEnc(args[0], args[1])
            if callee[0] in ("extern", "global"):
                t = app(callee[1], *[self.arg_value(a) for a in args])
                self.calls.append(t)
                if callee[1] == "BigInt" and len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == "lit":
                    return args[0]
                return t
            t = app("call", callee, *[self.arg_value(a) for a in args])
            self.calls.append(t)
            return t
        raise Unknown("call")

    def arg_value(self, a):
        return freeze(self.lazy(a))

    def lazy(self, a):
        """a function passed to another package stands for its body over fresh parameters"""
        if isinstance(a, Fn):
            ps = a.node.get("parameters", [])
            try:
                return ("lambda", freeze(self.call_fn(a, [("lparam", i) for i in range(len(ps))])))
            except (Unknown, Throw):
                return ("fn", id(a.node))
        return a

    def method(self, b, name, args):
        if isinstance(b, tuple) and b == ("global", "Object"):
            if name == "freeze" and args:
                return args[0]
            if name in ("keys", "entries", "values"):
                return app("Object." + name, freeze(args[0]))
            if name == "assign" and args and isinstance(args[0], Obj):
                for x in args[1:]:
                    if isinstance(x, Obj):
                        args[0].d.update(x.d)
                    else:
                        args[0].rest.append(x)
                return args[0]
        if isinstance(b, tuple) and b == ("global", "Promise") and name == "all":
            return args[0]
        if isinstance(b, Arr):
            if name == "push":
                for a in args:
                    if isinstance(a, tuple) and a[0] == "spread" and isinstance(a[1], Arr):
                        b.items += a[1].items
                    elif self.loops:
                        b.items.append(("spread", ("looped", tuple(self.loops), freeze(a))))
                    else:
                        b.items.append(a)
                return UNDEF
            spread = any(isinstance(x, tuple) and x[0] == "spread" for x in b.items)
            if name == "map" and not spread:
                return Arr([self.apply(args[0], [x, lit(i)]) for i, x in enumerate(b.items)])
            if name == "concat":
                o = Arr(b.items)
                for a in args:
                    o.items += a.items if isinstance(a, Arr) else [("spread", a)]
                return o
            if name == "every" and not spread:
                for x in b.items:
                    if not self.truthy(self.apply(args[0], [x])):
                        return lit(False)
                return lit(True)
        if isinstance(b, TEnc):
            if name == "encode":
                t = app("method", freeze(b.enc), "encode", freeze(self.call_fn(b.fn, args)))
                self.calls.append(t)
                return t
            return app("method", freeze(b), name, *[self.arg_value(a) for a in args])
        if isinstance(b, Obj) and name in b.d:
            return self.apply(b.d[name], args)
        if isinstance(b, tuple) and b[0] == "ns":
            return self.apply(self.name(name, {}, b[1]), args)
        fb = freeze(b)
        if name == "slice" and len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == "lit":
            return self.slice(b, args[0][1])
        if name in ("map", "every", "some", "filter", "forEach", "flatMap", "find") and args and isinstance(args[0], Fn):
            el = ("elem", fb)
            out = []

            def body():
                v = self.apply(args[0], [el, ("elemindex", fb)])
                out.append(v)
                if name in ("every", "some") and self.truthy(v) != (name == "every"):
                    raise Break()
            n = len(self.rounds)
            self.round(fb, body)
            v = out[0]
            if name in ("every", "some"):
                return lit((len(self.rounds) > n) == (name == "every"))
            if name == "forEach":
                return UNDEF
            if name == "map":
                return ("map", fb, freeze(v))
            return app("arr." + name, fb, freeze(v))
        t = app("method", fb, name, *[self.arg_value(a) for a in args])
        self.calls.append(t)
        return t
