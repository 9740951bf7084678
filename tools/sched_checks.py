"""Checks of the schedulers: C19 (posted work) and C20 (stop and wakeups)."""
import json, re
from vf import CheckError

CTL = ("-DCONTROLLED",)


def O(o, **k):
    return dict(o=o, **k)


def post(f):
    return O("post", f=f)


def await_(n):
    return O("await", n=n)


from accept import conform as conform_


def conform(c, exe, stimuli, **kw):
    conform_(c, exe, stimuli, "TraceSched", [{"t": 1, "e": "bogus"}, {"t": 1, "e": "start", "f": 1}], **kw)


# ---------------------------------------------------------------------------
# programs
# ---------------------------------------------------------------------------
# (threads, functions) for the exhaustive exploration of the lock protocol
SCEN = {
    "stop": ([[O("run")], [O("run")], [post(1), post(2), O("stop"), O("stopped")]], [[post(3)], [], []]),
    "await": ([[O("run")], [O("exec"), O("exec")], [post(1), post(2), await_(3)]], [[post(3)], [], []]),
    "self": ([[O("run"), O("stopped")], [post(1), O("poll"), O("run")], [post(2)]], [[O("stop")], [O("throw", x=4)]]),
    "execs": ([[O("exec"), O("exec")], [O("exec")], [post(1), post(1)], [post(1)]], [[]]),
    "late": ([[O("stop"), post(1), O("run"), O("exec"), O("poll")], [O("run"), O("stopped")], [O("exec")]], [[]]),
    "nest": ([[O("run"), O("run")], [post(1), post(2), await_(2), O("stop")]], [[O("exec")], [O("throw", x=1)]]),
    "stops": ([[O("run")], [O("exec"), O("run")], [O("stop"), O("stop")], [O("stop"), O("stopped")]], []),
    "order": ([[O("run")], [post(1), post(2)], [post(3), await_(3), O("stop")]], [[], [], []]),
}
BIG = {
    "stop3": ([[O("run")], [O("run")], [post(1), O("stop")], [post(2), O("poll")]], [[post(3)], [], []]),
    "runs4": ([[O("run")], [O("run")], [O("run")], [post(1), post(1), await_(2), O("stop")]], [[]]),
    "throws": ([[O("run"), O("run"), O("run")], [post(1), post(2), post(3), await_(3), O("stop")], [O("exec")]], [[O("throw", x=1)], [O("throw", x=2)], []]),
}


def scen(c, name, p, emit, faulty=""):
    f = c.path("scen.json")
    with open(f, "w") as o:
        json.dump(dict(kind="loop", threads=p[0], fns=p[1], spurious=1, faulty=faulty, emit=emit), o)
    return f


def locked_schedules(c, names):
    """Model checks the lock protocol of the loop scheduler and gives the schedules of all its transitions."""
    def one(name):
        p = SCEN.get(name) or BIG[name]
        r = c.model("lock-" + name, "LoopLock.tla", "LoopLock.cfg", {"SCEN": scen(c, name, p, 1)}, timeout=800, heap="4g")
        hs = {tuple(int(x) for x in m.split(",") if x.strip()) for m in re.findall(r'^"T \[([0-9, ]*)\]"$', r["out"], re.M)}
        pref = {h[:k] for h in hs for k in range(1, len(h))}
        return [dict(kind="loop", threads=p[0], fns=p[1], sched=list(h), seed=1) for h in sorted(hs) if h not in pref]
    out = {}
    for n, s in zip(names, c.pool.map(one, names)):
        out[n] = s
    return out


def live(c, names):
    def one(name):
        return c.model("live-" + name, "LoopLock.tla", "LoopLive.cfg", {"SCEN": scen(c, name, SCEN.get(name) or BIG[name], 0)}, timeout=800, heap="4g")
    list(c.pool.map(one, names))


def faults(c, prop_faults):
    """The properties of the model are not vacuous: protocols with a known fault break them."""
    def one(f):
        name, fault = f
        r = c.tlc("LoopLock.tla", "LoopLock.cfg", {"SCEN": scen(c, name, SCEN[name], 0, fault)}, 1, 300)
        if "NoLostWakeup is violated" not in r["out"]:
            raise CheckError("the model does not find the fault %s in %s" % (fault, name))
    list(c.pool.map(one, prop_faults))
    c.extra["faulty_models_refuted"] = ["%s/%s" % f for f in prop_faults]


def program(rnd, real=False, stops=False):
    """A random program.  With real it always ends when the promises are kept."""
    nf = rnd.randint(1, 4)
    fns = []
    for i in range(1, nf + 1):
        ops = []
        for _ in range(rnd.choice((0, 0, 1, 2))):
            later = list(range(i + 1, nf + 1))
            k = rnd.random()
            if k < .5 and later:
                ops.append(post(rnd.choice(later)))
            elif k < .6:
                ops.append(O("poll"))
            elif k < .66 and not real:
                ops.append(O("exec"))
            elif k < .70 and (stops or not real):
                ops.append(O("stop"))
            elif k < .73 and not real:
                ops.append(O("run"))
            elif k < .85:
                ops.append(O("stopped"))
        if rnd.random() < .2:
            ops.append(O("throw", x=i))
        fns.append(ops)
    reach = lambda f: 1 + sum(reach(o["f"]) for o in fns[f - 1] if o["o"] == "post")
    total = 0
    if real:
        runners = [[O("run")] for _ in range(rnd.randint(1, 3))]
        posters = []
        for _ in range(rnd.randint(1, 3)):
            p = [post(rnd.randint(1, nf)) for _ in range(rnd.randint(1, 6))]
            if rnd.random() < .3:
                p.insert(rnd.randint(0, len(p)), O("poll"))
            posters.append(p)
        total = sum(reach(o["f"]) for p in posters for o in p if o["o"] == "post")
        # every exception ends a run or comes out of a poll inside a function, which ends that function
        runners = [r * (total + 1) for r in runners]
        if rnd.random() < .5:
            runners.append([O("exec")] * rnd.randint(1, 3))
        if stops and rnd.random() < .7:
            posters.append([O("stop"), O("stopped")])
            return [*runners, *posters], fns
        return [*runners, *posters, [await_(total), O("stopped"), O("stop"), O("stop"), O("stopped")][rnd.choice((0, 0, 1)):]] if not stops else [*runners, *posters, [await_(rnd.randint(0, max(1, total // 2))) if not any(o["o"] == "stop" for f in fns for o in f) else O("stopped"), O("stop"), O("stopped")]], fns
    threads = []
    for _ in range(rnd.randint(2, 4)):
        ops = []
        for _ in range(rnd.randint(1, 5)):
            k = rnd.random()
            if k < .45:
                ops.append(post(rnd.randint(1, nf)))
            elif k < .65:
                ops.append(O("run"))
            elif k < .75:
                ops.append(O("exec"))
            elif k < .83:
                ops.append(O("poll"))
            elif k < (.95 if stops else .86):
                ops.append(O("stop"))
            else:
                ops.append(O("stopped"))
            if rnd.random() < .1:
                ops.append(await_(rnd.randint(1, 4)))
        threads.append(ops)
    if not any(o["o"] in ("run", "exec") for t in threads for o in t):
        threads[0].append(O("run"))
    if rnd.random() < .3:
        threads[-1] += [await_(rnd.randint(1, 4)), O("stop"), O("stopped")]
    return threads, fns


def stim(c, kind, n, real=False, stops=False, k=""):
    out = []
    for i in range(n):
        t, f = program(c.rnd, real, stops)
        out.append(dict(kind=kind, threads=t, fns=f, sched=[], seed=c.rnd.randint(1, 10**6), preempt=c.rnd.choice((100, 60, 30, 10)),
                        spurious=c.rnd.choice((0, 0, 20)), jitter=c.rnd.randint(0, 1), real=1 if real else 0))
    return out


# ---------------------------------------------------------------------------
def check(c, stops):
    th = c.thorough
    exes = {}

    def b(a):
        name, flags, libs = a
        exes[name] = c.build("schedrv.cpp", flags, libs, out=name)
    list(c.pool.map(b, [("ctl", CTL, ("-ldl",)), ("ctlboost", (*CTL, "-DBOOST"), ("-ldl", "-lboost_system")), ("real", ("-O1",), ("-ldl",)),
                        ("tsan", ("-fsanitize=thread", "-O1"), ("-ldl",)), ("realboost", ("-O1", "-DBOOST"), ("-ldl", "-lboost_system"))]))
    faults(c, [("stop", "stop-unlocked"), ("self", "stop-unlocked"), ("stop", "notify-one")] if stops else [("await", "no-notify-post"), ("execs", "no-notify-post")])
    names = ["stop", "self", "late", "stops"] if stops else ["await", "execs", "nest", "order"]
    if th:
        names = list(SCEN) + list(BIG)
    live(c, names if th else names[:3])
    sch = locked_schedules(c, names)
    st = []
    for n in names:
        s = sch[n]
        lim = 20000 if th else 1500
        if len(s) > lim:
            s = c.rnd.sample(s, lim)
        st += s
    c.log("%d schedules from %d models" % (len(st), len(names)))
    conform(c, exes["ctl"], st)
    # the same schedules, of another implementation of the same promises
    other = [dict(x, kind=k) for x in c.rnd.sample(st, min(len(st), 4000 if th else 150)) for k in ("asio", "asioext")]
    n = 4000 if th else 250
    conform(c, exes["ctl"], other + [x for k in ("loop", "loop", "asio", "asioext") for x in stim(c, k, n, stops=stops)])
    conform(c, exes["ctlboost"], [dict(x, kind=k) for x in c.rnd.sample(st, min(len(st), 2000 if th else 60)) for k in ("asio", "asioext")] +
            [x for k in ("asio", "asioext") for x in stim(c, k, n // 2, stops=stops)])
    n = 1500 if th else 60
    conform(c, exes["real"], [x for k in ("loop", "loop", "asio", "asioext") for x in stim(c, k, n, True, stops)], tries=10)
    conform(c, exes["realboost"], [x for k in ("asio", "asioext") for x in stim(c, k, n // 2, True, stops)], tries=10)
    conform(c, exes["tsan"], [x for k in ("loop", "asio", "asioext") for x in stim(c, k, n, True, stops)] +
            [dict(kind=k, threads=SCEN["stops"][0], fns=[], sched=[], seed=1, jitter=0) for k in ("loop", "asio", "asioext")] * 10, tries=10)
    c.assumptions += ["the asio library itself is not modelled: its schedulers are validated against the same abstract scheduler under controlled and free schedules",
                      "a function taken from the queue before Stop takes effect may still start after it",
                      "controlled schedules change threads at the synchronisation calls and at the start and end of functions; data races between them are looked for with ThreadSanitizer"]


def C19(c):
    check(c, False)


def C20(c):
    check(c, True)
