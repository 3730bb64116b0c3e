"""C06: the command registry."""
import random
import vlib, handlerdrv as H, libdrv

def c06(c):
    c.model(vlib.run_tlc("MC_KsHandler", consts={"MaxOps": "5" if vlib.THOROUGH else "4"}, timeout=1500), "MC_KsHandler")
    rng = random.Random(vlib.SEED * 1000 + 6)
    n = 12000 if vlib.THOROUGH else 1500
    ses = [H.session(rng) for _ in range(n)]
    obs = H.run_all(ses)
    rows, idx = [], []
    for k, (s, ob) in enumerate(zip(ses, obs)):
        if len(ob) != len(s["ops"]):
            c.violation("the session could not be completed: %s" % ob[-1].get("crash"), {"session": s}, key="crash")
            continue
        rows.append({"ops": [dict({a: b for a, b in op.items() if a not in ("upd", "dupd", "kind", "ver")}, obs={a: b for a, b in o.items() if a != "text"})
                             for op, o in zip(s["ops"], ob)]})
        idx.append(k)
    fails, stats = vlib.judge_sessions("Trace_KsHandler", rows, {}, chunk=3000)
    c.add(stats)
    for sid, opn, clause in fails:
        k = idx[sid]
        c.violation(clause[:300], {"session": ses[k], "op": opn, "observed": obs[k][opn - 1], "clause": clause}, key=clause.split(": ")[-2:][0])
    libdrv.judge(c, *libdrv.histories(vlib.SEED * 1000 + 6, 9000 if vlib.THOROUGH else 900, .4))
    c.sample({"session": ses[0], "observed": obs[0][-1]})
