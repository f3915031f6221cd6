"""Executes calls on the Python bindings, one JSON object per line, for the suites of C22."""

import binascii
import importlib.machinery
import importlib.util
import json
import resource
import struct
import sys

path = sys.argv[1]
loader = importlib.machinery.ExtensionFileLoader("poppy", path)
spec = importlib.util.spec_from_loader("poppy", loader, origin=path)
poppy = importlib.util.module_from_spec(spec)
loader.exec_module(poppy)

slots = {}

# calls that must be refused, whatever the filter holds
WRONG = [
    ("insert_bytes of a str", lambda f: f.insert_bytes("text")),
    ("insert_bytes of None", lambda f: f.insert_bytes(None)),
    ("insert_bytes of an int", lambda f: f.insert_bytes(5)),
    ("insert_bytes without argument", lambda f: f.insert_bytes()),
    ("insert_str of bytes", lambda f: f.insert_str(b"text")),
    ("insert_str of a lone surrogate", lambda f: f.insert_str("a\ud800b")),
    ("contains_bytes of a str", lambda f: f.contains_bytes("text")),
    ("contains_str of bytes", lambda f: f.contains_str(b"text")),
    ("contains_str of a lone surrogate", lambda f: f.contains_str("\udcff")),
    ("union with None", lambda f: f.union_merge(None)),
    ("union with bytes", lambda f: f.union_merge(b"")),
    ("common entries with a str", lambda f: f.count_common_entries("x")),
    ("a negative capacity", lambda f: poppy.BloomFilter(-1, 0.1)),
    ("a capacity above 64 bits", lambda f: poppy.BloomFilter(2**64, 0.1)),
    ("a capacity that is a str", lambda f: poppy.BloomFilter("10", 0.1)),
    ("a probability that is a str", lambda f: poppy.BloomFilter(10, "0.1")),
    ("no probability", lambda f: poppy.BloomFilter(10)),
    ("version 300", lambda f: poppy.BloomFilter.with_version(300, 10, 0.1)),
    ("version -1", lambda f: poppy.BloomFilter.with_version(-1, 10, 0.1)),
    ("level 256", lambda f: poppy.BloomFilter.with_params(2, 10, 0.1, 256)),
    ("level -1", lambda f: poppy.BloomFilter.with_params(2, 10, 0.1, -1)),
    ("loads of a str", lambda f: poppy.loads("text")),
    ("loads of None", lambda f: poppy.loads(None)),
    ("load of None", lambda f: poppy.load(None)),
    ("load of a path with a NUL", lambda f: poppy.load("a\0b")),
    ("save to a path with a NUL", lambda f: f.save("a\0b")),
    ("save to None", lambda f: f.save(None)),
    ("setting the capacity", lambda f: setattr(f, "capacity", 5)),
]


def call(c):
    op = c["op"]
    if op == "reset":
        slots.clear()
        return None
    if op == "new":
        slots[c["slot"]] = poppy.BloomFilter(c["cap"], c["fpp"])
    elif op == "new_kw":
        slots[c["slot"]] = poppy.BloomFilter(fpp=c["fpp"], capacity=c["cap"])
    elif op == "with_version":
        slots[c["slot"]] = poppy.BloomFilter.with_version(c["version"], c["cap"], c["fpp"])
    elif op == "with_params":
        slots[c["slot"]] = poppy.BloomFilter.with_params(c["version"], c["cap"], c["fpp"], c["opt"])
    elif op == "insert_bytes":
        return slots[c["slot"]].insert_bytes(bytes.fromhex(c["value"]))
    elif op == "insert_str":
        return slots[c["slot"]].insert_str(bytes.fromhex(c["value"]).decode())
    elif op == "contains_bytes":
        return slots[c["slot"]].contains_bytes(bytes.fromhex(c["value"]))
    elif op == "contains_str":
        return slots[c["slot"]].contains_str(bytes.fromhex(c["value"]).decode())
    elif op == "union":
        return slots[c["slot"]].union_merge(slots[c["src"]])
    elif op == "common":
        return slots[c["slot"]].count_common_entries(slots[c["src"]])
    elif op == "dumps":
        d = slots[c["slot"]].dumps()
        if type(d) is not bytes:
            return "dumps returned " + type(d).__name__
        return d.hex()
    elif op == "loads":
        slots[c["slot"]] = poppy.loads(bytes.fromhex(c["value"]))
    elif op == "wrong":
        return WRONG[c["which"] % len(WRONG)][1](slots[c["slot"]])
    elif op == "save" and "fsize" in c:
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (c["fsize"], hard))
        try:
            return slots[c["slot"]].save(c["path"])
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    elif op == "save":
        return slots[c["slot"]].save(c["path"])
    elif op == "load":
        slots[c["slot"]] = poppy.load(c["path"])
    else:
        raise SystemExit("unknown call " + op)
    return None


def state(f):
    d = f.dumps()
    return {
        "version": f.version,
        "capacity": f.capacity,
        "fpp": struct.pack(">d", f.fpp).hex(),
        "count": f.count_estimate,
        "full": f.is_full(),
        "data": binascii.crc32(bytes(f.data)),
        "len": len(d),
        "crc": binascii.crc32(d),
    }


for line in sys.stdin:
    c = json.loads(line)
    if "fpp" in c:
        c["fpp"] = struct.unpack(">d", bytes.fromhex(c["fpp"]))[0]
    r = {}
    if c["op"] == "wrong":
        r["what"] = WRONG[c["which"] % len(WRONG)][0]
    try:
        r["ok"] = call(c)
    except BaseException as e:
        r["err"] = [k.__name__ for k in type(e).__mro__]
        r["msg"] = str(e)[:200]
    try:
        r["states"] = {str(s): state(f) for s, f in slots.items() if s in (c.get("slot"), c.get("src"))}
    except BaseException as e:
        r["states_err"] = "%s: %s" % (type(e).__name__, e)
    sys.stdout.write(json.dumps(r) + "\n")
    sys.stdout.flush()
