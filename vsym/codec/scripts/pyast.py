# Writes the syntax tree of each Python file named on standard input as JSON
# (FILE.json next to it), as Python's own parser sees it.
import ast, json, sys

def conv(n):
    if isinstance(n, ast.Constant):
        v = n.value
        if v is None: k, s = "none", ""
        elif isinstance(v, bool): k, s = "bool", str(v)
        elif isinstance(v, int): k, s = "int", str(v)
        elif isinstance(v, float): k, s = "float", ("+Inf" if v == float("inf") else repr(v))
        elif isinstance(v, str): k, s = "str", v
        elif isinstance(v, bytes): k, s = "bytes", v.hex()
        elif v is Ellipsis: k, s = "ellipsis", ""
        else: k, s = "other", repr(v)
        return {"type": "Constant", "kind": k, "v": s, "line": n.lineno}
    if isinstance(n, ast.AST):
        o = {"type": type(n).__name__, "line": getattr(n, "lineno", 0)}
        for f, v in ast.iter_fields(n):
            if f in ("ctx", "type_comment", "type_ignores", "annotation", "returns", "type_params"):
                continue
            if f == "type":
                f = "h_type"
            if f == "op":
                o["op"] = type(v).__name__
            elif f == "ops":
                o["ops"] = " ".join(type(x).__name__ for x in v)
            else:
                o[f] = conv(v)
        return o
    if isinstance(n, list):
        return [conv(x) for x in n]
    return n

for line in sys.stdin:
    p = line.strip()
    if not p:
        continue
    try:
        with open(p, encoding="utf-8") as f:
            t = conv(ast.parse(f.read(), p))
    except SyntaxError as e:
        t = {"error": "%s (line %s: %s)" % (e.msg, e.lineno, (e.text or "").strip())}
    with open(p + ".json", "w") as f:
        json.dump(t, f)
