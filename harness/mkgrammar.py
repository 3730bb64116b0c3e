"""Writes spec/grammar.json: the tables of the specification (which command, option, attribute and default exists in which
version).  Run once on the tree the specification was written from; the checks only read the committed file."""
import json, os, sys, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter("ignore")
import cmdval

HIDE = {"op", "handler", "writePriority", "currentCmd", "currentLine", "seen", "lineno", "levelMap", "bootprotoList", "whenMap",
        "exclusive_required_options", "typeMap", "bind_to_choices", "handler", "validLocations", "deviceprobe_", "method"}

def attrs(o):
    return {k: cmdval.enc(v) for k, v in sorted(vars(o).items()) if not k.startswith("_") and k not in HIDE}

def typename(a):
    t = a.type
    if t is None:
        return "str"
    return getattr(t, "__name__", "str").strip("_")

def main():
    from pykickstart.version import versionMap, returnClassForVersion
    from pykickstart.base import DeprecatedCommand, RemovedCommand
    import argparse
    g = {"classes": {}, "versions": {}, "order": sorted(versionMap, key=lambda v: versionMap[v])}
    left = set()
    for v in versionMap:
        h = returnClassForVersion(v)()
        row = {}
        for name, o in sorted(h.commands.items()):
            cls = type(o).__name__
            kind = "removed" if isinstance(o, RemovedCommand) else "deprecated" if isinstance(o, DeprecatedCommand) else "active"
            row[name] = cls
            base = [c.__name__ for c in type(o).__mro__ if "_" in c.__name__]
            e = {"kind": kind, "fam": cls.split("_", 1)[1], "mro": base, "prio": o.writePriority if o.writePriority is not None else -1,
                 "names": sorted(n for n, x in h.commands.items() if x is o)}
            e.update({"opt": {}, "pos": [], "dflt": {}, "req": [], "attrs": {}, "data": {}, "dcls": "", "list": ""})
            if kind == "active" and e["fam"] != "Method":
                op = o._getParser()
                e["attrs"] = attrs(o)
                if e["fam"] == "Keyboard" and "keyboard" not in e["attrs"]:
                    e["attrs"]["keyboard"] = e["attrs"]["keyboard0"] = cmdval.enc("")
                if o.dataList() is not None:
                    d = o.dataClass
                    e["dcls"] = d.__name__
                    e["data"] = attrs(d())
                    e["list"] = [k for k, x in vars(o).items() if x is o.dataList()][0]
                    e["attrs"].pop(e["list"], None)
                acts = {"_StoreAction": "store", "_StoreTrueAction": "true", "_StoreFalseAction": "false", "_StoreConstAction": "const",
                        "_AppendConstAction": "append_const", "ExtendAction": "extend", "_AppendAction": "append", "ExtendConstAction": "extend_const"}
                for s, a in op._option_string_actions.items():
                    if a not in op._actions:
                        left.add((cls, s))
                        continue
                    e["opt"][s] = {"dest": a.dest, "act": acts[type(a).__name__], "type": typename(a), "cst": cmdval.enc(a.const),
                                   "ch": [cmdval.enc(x)["v"][0] for x in (a.choices or [])], "depr": bool(a.deprecated), "nargs": str(a.nargs or "")}
                    if "choices" in str(a.choices):
                        raise SystemExit("choices")
                for a in op._actions:
                    if not a.option_strings:
                        e["pos"].append({"dest": a.dest, "nargs": str(a.nargs or ""), "type": typename(a), "ch": [cmdval.enc(x)["v"][0] for x in (a.choices or [])]})
                    if a.default is not argparse.SUPPRESS:
                        old = e["dflt"].get(a.dest)
                        # argparse: the first action with a given dest decides
                        if old is None:
                            e["dflt"][a.dest] = cmdval.enc(a.default)
                    if a.option_strings and a.required:
                        e["req"].append(list(a.option_strings))
            old = g["classes"].get(cls)
            if old is not None and old != e:
                diff = {k: (old[k], e[k]) for k in e if old[k] != e[k]}
                key = cls + "@" + v
                print("class differs between versions:", cls, v, {k: str(x)[:200] for k, x in diff.items()})
                g["classes"][key] = e
                row[name] = key
            else:
                g["classes"][cls] = e
        g["versions"][v] = row
    print("left over aliases:", sorted(left))
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "grammar.json"), "w") as f:
        json.dump(g, f, indent=0, sort_keys=True)
        f.write("\n")

if __name__ == "__main__":
    main()
