"""Serves the Python module over lines of JSON: peer.py DIRECTORY_OF_THE_MODULE"""
import ctypes
import gc
import json
import sys

sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
import cosmian_abe_gpsw as module  # noqa: E402


def arg(v):
    if isinstance(v, dict):
        if "b" in v:
            return bytes.fromhex(v["b"])
        if "a" in v:
            return bytearray.fromhex(v["a"])
        if "l" in v:
            return list(bytes.fromhex(v["l"]))
        if "n" in v:
            return int(v["n"])
        if "f" in v:
            return float(v["f"])
    return v


def ret(v):
    if isinstance(v, (bytes, bytearray)):
        return {"b": bytes(v).hex()}
    if isinstance(v, list) and all(isinstance(x, int) for x in v):
        return {"b": bytes(v).hex()}
    if isinstance(v, (tuple, list)):
        return [ret(x) for x in v]
    if isinstance(v, int):
        return {"n": str(v)}
    return v


class Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in
                ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


mallinfo2 = ctypes.CDLL(None).mallinfo2
mallinfo2.restype = Info


def memory():
    """bytes allocated by the module and for large objects; blocks of the interpreter"""
    gc.collect()
    i = mallinfo2()
    return [i.uordblks + i.hblkhd, sys.getallocatedblocks()]


def repeat(q):
    """Makes the same calls again and again, and reads the memory between batches"""
    todo = [(getattr(module, c["f"]), [arg(x) for x in c["a"]]) for c in q["repeat"]]
    batches = q["batches"]
    rows = [None] * (batches + 1)

    def batch(n):
        for _ in range(n):
            for f, a in todo:
                try:
                    f(*a)
                except Exception:
                    pass

    batch(3)
    rows[0] = memory()
    rows[0] = memory()
    for b in range(batches):
        batch(q["n"])
        rows[b + 1] = memory()
    return {"ok": [[{"n": str(v)} for v in r] for r in rows]}


def main():
    out = sys.stdout
    out.write(json.dumps(sorted(n for n in dir(module) if not n.startswith("_"))) + "\n")
    out.flush()
    for line in sys.stdin:
        q = json.loads(line)
        if "repeat" in q:
            out.write(json.dumps(repeat(q)) + "\n")
            out.flush()
            continue
        args = [arg(x) for x in q["a"]]
        try:
            r = {"ok": ret(getattr(module, q["f"])(*args))}
        except Exception as e:
            r = {"err": type(e).__name__, "m": str(e)}
        except BaseException as e:
            r = {"panic": type(e).__name__, "m": str(e)}
        # the arguments are the caller's: they are not changed
        if any(isinstance(x, bytearray) and x.hex() != y["a"] for x, y in zip(args, q["a"])):
            r = {"panic": "argument changed", "m": q["f"]}
        out.write(json.dumps(r) + "\n")
        out.flush()


main()
