"""Traces with hidden steps: accepted if the specification explains them in some way."""
import json, re
from vf import CheckError, beyond, readable


def accepted(c, traces, module, canaries, shards=None, prop=""):
    """Indexes of the traces that the module does not explain."""
    bad, todo = {}, []
    for i, t in enumerate(traces):
        j = json.loads(t)
        if "skipped" in j:
            continue
        if "crash" in j:
            bad[i] = {"crash": j["crash"]}
        else:
            todo.append(i)
    if not todo:
        return bad
    shards = shards or max(1, min(8, len(todo) // 40 + 1))

    def one(k):
        return some(todo[k::shards])

    def some(idx):
        f = c.path("traces.ndjson")
        steps = 0
        with open(f, "w") as o:
            for i in idx:
                o.write(traces[i] + "\n")
                steps += len(json.loads(traces[i])["obs"])
            for what in canaries:      # an event that cannot happen: not to be accepted
                canary = json.loads(traces[idx[0]])
                canary["obs"].insert(0, what)
                o.write(json.dumps(canary) + "\n")
        r = c.tlc(module + ".tla", module + ".cfg", {"TRACE": f, "PROP": prop}, 1, 700)
        if beyond(r["out"]):      # something was observed that the specification cannot even read
            return idx if len(idx) == 1 else some(idx[::2]) + some(idx[1::2])
        if r["rc"] != 0 or "No error has been found" not in r["out"]:
            raise CheckError("trace validation: TLC rc %d\n%s" % (r["rc"], r["out"][-3000:]))
        ok = {int(x) for x in re.findall(r'^"ACCEPT (\d+)"$', r["out"], re.M)}
        if any(k > len(idx) for k in ok):
            raise CheckError("trace validation: a corrupted trace was accepted")
        c.validated_steps += steps
        return [i for n, i in enumerate(idx) if n + 1 not in ok]

    for rej in c.pool.map(one, range(shards)):
        for i in rej:
            bad[i] = {"unexplained": True}
    c.validated += len(todo)
    return bad


def explain(c, trace, module, prop):
    """How much of a trace can be explained."""
    f = c.path("one.ndjson")
    with open(f, "w") as o:
        o.write(trace + "\n")
    r = c.tlc(module + ".tla", module + ".cfg", {"TRACE": f, "PROP": prop}, 1, 300)
    best = max([int(x) for x in re.findall(r'^"AT 1 (\d+)"$', r["out"], re.M)] or [1])
    obs = json.loads(trace)["obs"]
    return {"explained": best - 1, "of": len(obs), "then": obs[best - 1] if best <= len(obs) else None}


def conform(c, exe, stimuli, module, canaries, tries=3, timeout=600, prop=""):
    if not stimuli or c.violations:
        return
    traces = c.drive(exe, stimuli, timeout=timeout)
    c.samples.append(readable({k: v for k, v in json.loads(traces[len(traces) // 2]).items() if k in ("kind", "threads", "fns", "main", "typist", "objects", "obs")}))
    bad = accepted(c, traces, module, canaries, prop=prop)
    if not bad:
        return
    c.log("%d of %d traces rejected" % (len(bad), len(traces)))
    for i in sorted(bad, key=lambda k: len(traces[k]))[:3]:
        for _ in range(tries):
            again = c.drive(exe, [stimuli[i]])
            b = accepted(c, again, module, canaries, prop=prop)
            c.validated -= 1
            if b:
                why = b[0] if "crash" in b[0] else explain(c, again[0], module, prop)
                c.violation({"stimulus": stimuli[i], "rejection": why, "trace": json.loads(again[0]), "driver": exe.split("/")[-1]})
                return
        c.log("rejection not repeated, ignored", json.dumps(bad[i])[:300] if "crash" in bad[i] else json.dumps(explain(c, traces[i], module, prop)))


