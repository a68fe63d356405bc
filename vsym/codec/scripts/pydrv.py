# Runs recorded operations on the real generated Python code.
import importlib.util, json, struct, sys

mods = {}
def load(path):
    if path not in mods:
        spec = importlib.util.spec_from_file_location("gen%d" % len(mods), path)
        m = importlib.util.module_from_spec(spec)
        sys.modules[spec.name] = m
        spec.loader.exec_module(m)
        mods[path] = m
    return mods[path]

def norm(s): return s.lower().replace("_", "")

def attr(o, name):
    for k in dir(type(o)):
        if norm(k) == norm(name) and isinstance(getattr(type(o), k), property):
            return k
    for k in vars(o):
        if norm(k) == norm(name):
            return k
    raise RuntimeError("no attribute " + name)

def cls(m, name):
    for k in vars(m):
        if norm(k) == norm(name) and isinstance(getattr(m, k), type):
            return getattr(m, k)
    raise RuntimeError("no class " + name)

def val(m, v):
    k = v["k"]
    if k == "arr": return [val(m, e) for e in v["e"]]
    if k == "struct":
        o = cls(m, v["t"])()
        fill(m, o, v)
        return o
    if k == "str": return bytes.fromhex(v["v"]).decode("utf-8")
    if k == "bytes": return bytes.fromhex(v["v"])
    if k == "bool": return v["v"] == "1"
    if k == "f32": return struct.unpack("<f", struct.pack("<I", int(v["v"])))[0]
    if k == "f64": return struct.unpack("<d", struct.pack("<Q", int(v["v"])))[0]
    if k == "enum": return cls(m, v["t"])(int(v["v"]))
    return int(v["v"])

def fill(m, o, v):
    for f in v["f"]:
        setattr(o, attr(o, f["n"]), val(m, f["v"]))

def show(x, k, w):
    if k == "str": return x.encode("utf-8").hex()
    if k == "bytes": return bytes(x).hex()
    if k == "bool":
        if isinstance(x, bool): return "1" if x else "0"
        return "%x" % x
    if k in ("f32", "f64"):
        x = float(x)
        if x != x: return "nan"
        if k == "f32":
            try: return "%x" % struct.unpack("<I", struct.pack("<f", x))[0]
            except OverflowError: return "7f800000" if x > 0 else "ff800000"
        return "%x" % struct.unpack("<Q", struct.pack("<d", x))[0]
    if k == "enum": x = x.value
    if isinstance(x, float):
        return "float%r" % x
    x = int(x)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if k[0] == "i" else (0, (1 << w) - 1)
    if x < lo or x > hi: return "!%d" % x
    return "%x" % (x & ((1 << w) - 1))

def retc(r):
    return max(-(1 << 63), min((1 << 63) - 1, r))

def run(i, op):
    m = load(op["file"])
    o = cls(m, op["st"])()
    if op.get("init"): fill(m, o, op["init"])
    buf = bytearray.fromhex(op.get("buf") or "")
    st = op["start"]
    kind = op["kind"]
    dump = False
    if kind == "encode":
        r = o.encode(memoryview(buf)[st:])
        print("ret=%d buf=%s" % (r, buf.hex()))
    elif kind == "fresh":
        r = o.encode()
        print("ret=%d buf=%s" % (len(r), bytes(r).hex()))
    elif kind == "encsize": print("ret=%d" % retc(o.encode_size()))
    elif kind == "decsize": print("ret=%d" % retc(o.decode_size(memoryview(buf)[st:])))
    elif kind == "decode":
        ok, n = o.decode(memoryview(buf)[st:])
        print("ret=%d" % (n if ok or n < 0 else -1000 - n))
        dump = ok
    elif kind == "get":
        x = getattr(o, attr(o, op["meth"]))
        print("val=%s" % show(x, op["mk"], op["mw"]))
    elif kind == "set":
        setattr(o, attr(o, op["meth"]), val(m, op["arg"]))
        dump = True
    elif kind == "alias":
        ok, n = o.decode(memoryview(buf)[st:])
        print("ret=%d" % n)
        buf[:] = bytes.fromhex(op["buf2"])
        dump = ok
    if dump:
        out = []
        for l in op["leaves"]:
            x = o
            for n, idx in l["path"]:
                x = getattr(x, attr(x, n))
                if idx >= 0: x = x[idx]
            out.append("%s=%s" % (l["label"], show(x, l["k"], l["w"])))
        print("\n".join(out))
        if kind == "alias":
            for p in op.get("poke") or []:
                for k, b in enumerate(bytes.fromhex(p["v"])):
                    try: getattr(o, attr(o, p["n"]))[k] = b
                    except TypeError: pass # bytes cannot be written to
            print("buf=" + buf.hex())

for i, line in enumerate(open(sys.argv[1])):
    print("#%d" % i)
    try:
        run(i, json.loads(line))
    except RuntimeError as e:
        print("driver", e)
    except Exception as e:
        if len(sys.argv) > 2: print("why", repr(e))
        print("exc")
