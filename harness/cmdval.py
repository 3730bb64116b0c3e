"""Values as the specification sees them: [k: kind, v: sequence of strings]."""
import json

def enc(x):
    if x is None:
        return {"k": "n", "v": []}
    if isinstance(x, bool):
        return {"k": "b", "v": ["T" if x else "F"]}
    if isinstance(x, int):
        return {"k": "i", "v": [str(x)]}
    if isinstance(x, str):
        return {"k": "s", "v": [x]}
    if isinstance(x, (set, frozenset)):
        return {"k": "l", "v": sorted(flat(y) for y in x)}
    if isinstance(x, (list, tuple)):
        return {"k": "l", "v": [flat(y) for y in x]}
    return {"k": "o", "v": [type(x).__name__]}

def flat(y):
    if isinstance(y, str):
        return y
    if isinstance(y, (list, tuple)):
        return "|".join(flat(z) for z in y)
    if hasattr(y, "__dict__"):
        return ";".join("%s=%s" % (k, flat(v)) for k, v in sorted(vars(y).items()) if not k.startswith("_") and k != "lineno")
    return str(y)
