"""Syntax trees of the TypeScript client (parsed by the TypeScript compiler API; nothing is executed)."""
import json, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))


def load(files):
    r = subprocess.run(["node", os.path.join(V, "tsast.js")] + list(files), capture_output=True, text=True, timeout=120)
    if r.returncode != 0:
        raise RuntimeError("TypeScript parser failed: " + r.stderr[-500:])
    d = json.loads(r.stdout)
    for f, t in d.items():
        if t["diags"]:
            raise RuntimeError("%s does not parse" % f)
    return {f: t["statements"] for f, t in d.items()}


def text(n):
    """value of a literal or name"""
    if n is None:
        return None
    k = n["k"]
    if k == "NumericLiteral":
        return int(n["text"], 0)
    if k in ("StringLiteral", "NoSubstitutionTemplateLiteral", "Identifier", "PrivateIdentifier"):
        return n["text"]
    if k == "TrueKeyword":
        return True
    if k == "FalseKeyword":
        return False
    if k in ("AsExpression", "ParenthesizedExpression", "SatisfiesExpression", "NonNullExpression"):
        return text(n["expression"])
    return None


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for x in n:
            yield from walk(x)


def decls(stmts):
    """top-level variable declarations name -> initializer"""
    out = {}
    for s in stmts:
        if s["k"] == "VariableStatement":
            for d in s["declarationList"]["declarations"]:
                if d["name"]["k"] == "Identifier":
                    out[d["name"]["text"]] = d.get("initializer")
    return out


def funcs(stmts):
    return {s["name"]["text"]: s for s in stmts if s["k"] == "FunctionDeclaration" and s.get("name")}


def errors(repo):
    f = os.path.join(repo, "clients/js/src/generated/errors/tokenWrap.ts")
    if not os.path.exists(f):
        return {"codes": {}, "messages": {}}
    st = load([f])[f]
    codes = {k: text(v) for k, v in decls(st).items() if v is not None and v["k"] == "NumericLiteral"}
    msgs = {}
    for n in walk(st):
        if n["k"] == "PropertyAssignment" and n["name"]["k"] == "ComputedPropertyName":
            key = text(n["name"]["expression"])
            val = text(n["initializer"])
            if isinstance(val, str):
                msgs[key] = val
    return {"codes": codes, "messages": msgs}

PLUSPLUS = 46
