"""Lossless JSON encoding of generated cases (replay files are JSON)."""
import json


def enc(x):
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        if x != x:
            return {"__f": "nan"}
        if x in (float("inf"), float("-inf")):
            return {"__f": repr(x)}
        return x
    if isinstance(x, complex):
        return {"__c": [enc(x.real), enc(x.imag)]}
    if isinstance(x, (bytes, bytearray)):
        return {"__b": bytes(x).hex()}
    if isinstance(x, tuple):
        return {"__t": [enc(i) for i in x]}
    if isinstance(x, list):
        return [enc(i) for i in x]
    if isinstance(x, dict):
        if all(isinstance(k, str) and not k.startswith("__") for k in x):
            return {k: enc(v) for k, v in x.items()}
        return {"__d": [[enc(k), enc(v)] for k, v in x.items()]}
    if hasattr(x, "item"):
        return enc(x.item())
    raise TypeError("cannot encode %r" % (type(x),))


def dec(x):
    if isinstance(x, list):
        return [dec(i) for i in x]
    if isinstance(x, dict):
        if "__f" in x:
            return float(x["__f"])
        if "__c" in x:
            return complex(dec(x["__c"][0]), dec(x["__c"][1]))
        if "__b" in x:
            return bytes.fromhex(x["__b"])
        if "__t" in x:
            return tuple(dec(i) for i in x["__t"])
        if "__d" in x:
            return {dec(k): dec(v) for k, v in x["__d"]}
        return {k: dec(v) for k, v in x.items()}
    return x


def dumps(x):
    return json.dumps(enc(x), sort_keys=False)


def loads(s):
    return dec(json.loads(s))
