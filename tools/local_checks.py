"""Checks of local sessions (C23) and of destruction (C27)."""
import json, re
from vf import CheckError, histories
from cligen import *
from accept import conform as conform_
from core_checks import rand

CTL = ("-DCONTROLLED",)
START, END, GOT = dict(t="tty", k="start"), dict(t="tty", k="end"), dict(t="got")
ESC = "\x1b["


def O(o, **k):
    return dict(o=o, **k)


def T(b):
    return O("type", b=list(b.encode("latin-1")))


def local_world():
    p = lambda b: dict(t="print", b=b, how=0)
    t = menu("m", [
        cmd("r", (), [START, GOT, END]),
        cmd("p", (), [START, p("P\n"), END]),
        cmd("rr", (), [START, GOT, p("x"), GOT, END]),
        cmd("s", ("string",), [START, END]),
        cmd("x", (), [START, dict(t="exit"), END]),
        cmd("t", (), [START, END, dict(t="throw", kind=0, std=1, b="boom")]),
        menu("sub", [cmd("r", ("int",), [START, GOT, END]), cmd("y", (), [START, END])]),
    ])
    nodes, kids = number(t)
    h = header(nodes, kids, cfg=dict(wrong=1, exc=1, genter=1, gexit=1))
    h.pop("steps", None)
    return h


def typed_line(rnd, pty, words):
    """A line typed with mistakes."""
    w = rnd.choice(words)
    out = ""
    for ch in w:
        k = rnd.random()
        if k < .06:
            out += "z" + rnd.choice(("\x08",) if pty else ("\x08", "\x7f"))
        elif k < .1:
            out += ESC + "D" + ESC + "C"
        elif k < .12:
            out += ESC + "5~"
        elif k < .14:
            out += "q" + ESC + "D" + ESC + "3~"
        elif k < .15:
            out += rnd.choice(("\xc3\xa9\x08\x08", "\x80\x08", "\xfe\x08"))
        elif k < .16:
            out += ESC + rnd.choice("ABHF") if out == "" or not pty else ESC + "F"
        out += ch
    return out + "\n"


WORDS = ["r", "r", "p", "rr", "s one", "t", "sub", "sub r 4", "..", "y", "nosuch", "", "exit", "x", "sub y", "s", "history"]


def local_program(rnd, pty=False):
    words = [w for w in WORDS if w not in ("x", "exit") or rnd.random() < .3]
    typist, lines = [], 0
    chunk = ""

    def flush():
        nonlocal chunk
        if chunk:
            typist.append(T(chunk))
        chunk = ""
    for _ in range(rnd.randint(1, 4)):
        chunk += typed_line(rnd, pty, words)
        k = rnd.random()
        if k < .3:
            flush()
            typist.append(O(rnd.choice(("starts", "wants")), n=rnd.randint(1, 2)) if not pty else O("sleep", n=rnd.choice((0, 300, 3000))))
            chunk += rnd.choice(("hello\n", "h\nr\n", "\n", "he", "a b c\n"))
        elif k < .5:
            flush()
            typist.append(O("done", n=rnd.randint(1, 8)) if not pty else O("sleep", n=rnd.choice((0, 300, 3000))))
        elif k < .6:
            flush()
            typist.append(O("signal"))
        elif k < .8:
            flush()
            if rnd.random() < .4:
                typist.append(O("sleep", n=0))
    if rnd.random() < .15:
        chunk += rnd.choice(("\x1b", ESC, ESC + "3", ESC + "7"))
    if not pty and rnd.random() < .1:
        chunk += "\x04" + rnd.choice(("", "p\n"))
    flush()
    main = []
    for _ in range(rnd.choice((1, 1, 1, 2))):
        if rnd.random() < .4:
            main.append(O("mode", n=rnd.randint(0, 15)))
        main.append(O("create"))
        k = rnd.random()
        if pty:
            main += [O("poll")] * rnd.randint(0, 2) + ([O("idle")] if k < .5 else []) + [O("poll")] * rnd.randint(0, 12)
        elif k < .5:
            main.append(O("runexit"))
        elif k < .75:
            main += [O("exec")] * rnd.randint(0, 8)
        else:
            main += [O(rnd.choice(("poll", "exec", "idle")))for _ in range(rnd.randint(0, 8))]
        main.append(O("destroy"))
        main += [O("poll")] * rnd.randint(0, 2)
    if not pty and (rnd.random() < .7 or any(o["o"] == "runexit" for o in main)) and rnd.random() < .95:
        typist.append(O("eof"))
    if pty:
        if rnd.random() < .4:
            typist += [O("sleep", n=20000), O("eof")]
            if rnd.random() < .7:
                main = [O("create"), O("runexit"), O("destroy")]
        else:
            typist.append(O("keep"))
    return main, typist


def local_stimuli(c, n, pty=False):
    w = local_world()
    out = []
    for _ in range(n):
        main, typist = local_program(c.rnd, pty)
        out.append(dict(w, kind=c.rnd.choice(("loop", "loop", "asio")), main=main, typist=typist, sched=[], seed=c.rnd.randint(1, 10**6), real=1 if pty else 0,
                        preempt=c.rnd.choice((100, 60, 30, 10)), spurious=c.rnd.choice((0, 0, 20)), signals=c.rnd.choice((0, 0, 20)), noecho=c.rnd.randint(0, 1),
                        hmax=c.rnd.choice((100, 2)), steps=[]))
    return out


def conform_local(c, exe, stimuli, **kw):
    conform_(c, exe, stimuli, "TraceLocal", [{"e": "bogus"}, {"e": "key"}], **kw)


KBD = {      # name: the program of the thread of the scheduler, of the typist
    "read": ([O("create"), O("exec"), O("exec"), O("destroy")], [T("r"), T("\n"), O("wants", n=1), T("p\n"), T("p")]),
    "eof": ([O("create"), O("runexit"), O("destroy")], [T("r\n"), T("\n"), T("p\n"), O("eof")]),
    "two": ([O("create"), O("exec"), O("destroy"), O("create"), O("poll"), O("destroy")], [T("p\n"), T("p")]),
    "last": ([O("create"), O("exec"), O("exec"), O("destroy")], [T("r\n"), O("wants", n=1), T("p\n")]),
    "early": ([O("create"), O("exec"), O("exec"), O("exec"), O("destroy")], [T("p\nr"), T("\n"), T("p\n")]),
}
KBD_MORE = {
    "reads": ([O("create"), O("runexit"), O("destroy")], [T("r\nr\n"), T("p\n"), O("wants", n=2), T("\nr"), O("eof")]),
    "three": ([O("create"), O("poll"), O("destroy")] * 3, [T("r"), T("\np"), T("\n\n")]),
}
KBD_FAULTS = [("read", "no-recheck"), ("eof", "no-recheck"), ("read", "read-blocks"), ("last", "read-blocks"), ("two", "no-stopping"), ("read", "no-stopping"), ("two", "no-pipe")]


def kbd_scen(c, p, emit, faulty=""):
    f = c.path("scen.json")
    with open(f, "w") as o:
        json.dump(dict(main=p[0], typist=p[1], emit=emit, faulty=faulty), o)
    return f


def keyboard_models(c):
    """The protocol of the keyboard: model checked, with known faults, and its transitions as schedules."""
    scen = dict(KBD, **(KBD_MORE if c.thorough else {}))

    def safe(name):
        r = c.model("keyboard-" + name, "KbdLock.tla", "KbdLock.cfg", {"SCEN": kbd_scen(c, scen[name], 1)}, timeout=600)
        hs = {tuple(int(x) for x in m.split(",") if x.strip()) for m in re.findall(r'^"T \[([0-9, ]*)\]"$', r["out"], re.M)}
        pref = {h[:k] for h in hs for k in range(1, len(h))}
        return [(name, list(h)) for h in sorted(hs) if h not in pref]

    def live(name):
        c.model("keyboard-live-" + name, "KbdLock.tla", "KbdLive.cfg", {"SCEN": kbd_scen(c, scen[name], 0)}, timeout=600)
        return []

    def fault(f):
        r = c.tlc("KbdLock.tla", "KbdLock.cfg", {"SCEN": kbd_scen(c, KBD[f[0]], 0, f[1])}, 1, 300)
        if "is violated" not in r["out"]:
            raise CheckError("the model does not find the fault %s in %s" % (f[1], f[0]))
        return []
    jobs = [(safe, n) for n in scen] + [(live, n) for n in scen] + [(fault, f) for f in KBD_FAULTS]
    res = list(c.pool.map(lambda j: j[0](j[1]), jobs))
    c.extra["faulty_models_refuted"] = ["%s/%s" % f for f in KBD_FAULTS]
    return [x for r in res for x in r], scen


def C23(c):
    th = c.thorough
    exes = {}

    def b(a):
        exes[a[0]] = c.build("localdrv.cpp", a[1], ("-ldl",), out=a[0])
    list(c.pool.map(b, [("ctl", CTL), ("pty", ("-O1",)), ("asan", (*CTL, "-fsanitize=address"))]))
    scheds, scen = keyboard_models(c)
    base = dict(local_world(), kind="loop", preempt=30, signals=0, spurious=0, real=0, noecho=0, hmax=100, steps=[])
    st = [dict(base, main=scen[n][0], typist=scen[n][1], sched=s, seed=k + 1) for k, (n, s) in enumerate(scheds)]
    limit = 20000 if th else 1200
    c.extra["schedules_of_the_keyboard_model"] = {"generated": len(st), "replayed": min(limit, len(st))}
    if len(st) > limit:      # the small ones whole
        by = {n: [x for x, (m, _) in zip(st, scheds) if m == n] for n in scen}
        small = [x for v in by.values() if len(v) < limit // 6 for x in v]
        large = [x for v in by.values() if len(v) >= limit // 6 for x in v]
        st = small + c.rnd.sample(large, limit - len(small))
    conform_local(c, exes["ctl"], st)
    conform_local(c, exes["ctl"], local_stimuli(c, 20000 if th else 1000))
    conform_local(c, exes["asan"], local_stimuli(c, 4000 if th else 150))
    conform_local(c, exes["pty"], local_stimuli(c, 2000 if th else 200, True), tries=10)


# ---------------------------------------------------------------------------
# C16, C22: what a local session writes
# ---------------------------------------------------------------------------
def screen_world():
    p = lambda b, how=0: dict(t="print", b=b, how=how)
    bc = lambda b, how=0: dict(t="bcast", b=b, how=how)
    t = menu("m", [
        cmd("p", (), [START, p("P\n"), END]),
        cmd("pp", (), [p("one\ntwo")]),
        cmd("print", ("string",), [p("x\n\n", 2)]),
        cmd("q", (), []),
        cmd("bb", (), [bc("all\n"), p("own "), bc("end", 2)]),
        cmd("t", (), [dict(t="throw", kind=0, std=1, b="boom")]),
        cmd("x", (), [dict(t="exit")]),
        menu("sub", [cmd("r", ("int",), []), cmd("sun", (), [p("S")])]),
    ])
    nodes, kids = number(t)
    h = header(nodes, kids, cfg=dict(genter=1, gexit=1))
    h.pop("steps", None)
    return h


SWORDS = ["p", "pp", "print a", "q", "bb", "t", "sub", "sub r 4", "..", "sun", "nosuch", "", "history", "!0", "help", "a rather long line of text"]


def screen_program(rnd):
    """Lines typed with a lot of editing, browsing and completion, some broadcasts."""
    text = ""
    for _ in range(rnd.randint(1, 4)):
        for ch in rnd.choice(SWORDS):
            k = rnd.random()
            if k < .3:
                text += rnd.choice((ESC + "D", ESC + "C", ESC + "H", ESC + "F", ESC + "A", ESC + "B", ESC + "3~", "\x7f", "\t", "\x0c", "zz" + ESC + "D" + ESC + "D", ESC + "5~"))
            text += ch
        text += rnd.choice(("", "", "\t", ESC + "A", ESC + "H")) + "\n"
    typist = [T(text)]
    main = []
    for _ in range(rnd.choice((1, 1, 2))):
        main.append(O("create"))
        for _ in range(rnd.randint(3, 14)):
            main += [O("poll")] * rnd.randint(1, 6)
            if rnd.random() < .1:
                main.append(O("bcast", b=list(rnd.choice((b"B", b"news\n", b"a\nb")))))
        main.append(O("destroy"))
        if rnd.random() < .3:
            main.append(O("bcast", b=list(b"late")))
    if rnd.random() < .3:
        typist.append(O("eof"))
    return main, typist


def local_output(c):
    """The screen of a local session, or the broadcasts it gets."""
    exe = c.build("localdrv.cpp", CTL, ("-ldl",), out="local-ctl")
    w = screen_world()
    st = []
    for _ in range(4000 if c.thorough else 250):
        main, typist = screen_program(c.rnd)
        st.append(dict(w, kind=c.rnd.choice(("loop", "asio")), main=main, typist=typist, sched=[], seed=c.rnd.randint(1, 10**6), real=0, preempt=c.rnd.choice((100, 50)),
                       spurious=0, signals=0, noecho=0, hmax=c.rnd.choice((0, 2, 100)), color=c.rnd.randint(0, 1), steps=[]))
    conform_local(c, exe, st, prop=c.prop)


C16 = C22 = local_output

# ---------------------------------------------------------------------------
# C27: destruction
# ---------------------------------------------------------------------------
def life_scenarios(th):
    """name: kind, operations, depth"""
    V = [O("mkV"), O("rmV")]
    P, S = O("poll"), O("settle")
    def send(c, m): return O("send", c=c, m=m)
    def post(m): return O("post", m=m)
    def typ(m): return O("type", m=m)
    end = [O("rmS"), O("rmC")]
    d = 1 if th else 0
    sc = {}
    for kind in ("own", "ext"):
        e = end + ([O("rmX")] if kind == "ext" else [])
        sc["server-" + kind] = (kind, V + [O("conn", c=1), send(1, "p"), send(1, "exit"), P, S] + e, 7 + d)
        sc["closing-" + kind] = (kind, V + [O("conn", c=1), send(1, "p"), O("close", c=1, how=0), O("close", c=1, how=1), P, S] + e, 6 + d)
        sc["posted-" + kind] = (kind, V + [O("conn", c=1), O("mkL"), post("v"), post("l"), post("p"), P, S] + e, 6 + d)
        sc["async-" + kind] = (kind, [O("mkA"), O("rmA"), typ("p"), typ("t"), post("a"), P, S] + e, 6 + d)
        sc["local-" + kind] = (kind, [O("mkL"), O("rmL"), typ("p"), typ("t"), post("l"), P, S] + e, 6 + d)
        sc["cross-" + kind] = (kind, V + [O("conn", c=1), O("mkA" if kind == "own" else "mkL"), send(1, "v"), send(1, "a" if kind == "own" else "l"), typ("v"), P, S] + e, 6 + d)
        sc["two-" + kind] = (kind, V + [O("conn", c=1), O("conn", c=2), send(1, "v"), send(2, "p"), O("bcast"), P, S] + e, 6 + d)
    sc["handles"] = ("own", [O("handle", m=x) for x in ("en", "dis", "rm")] + [O("mkL"), O("rmL"), typ("q"), post("r"), S, O("rmS"), O("rmC")], 6 + d)
    sc["loop"] = ("loop", [O("mkL"), O("rmL"), typ("p"), typ("t"), post("l"), post("p"), O("bcast"), P, S] + end, 6 + d)
    return sc


def life_models(c):
    sc = life_scenarios(c.thorough)

    def one(name):
        kind, ops, depth = sc[name]
        f = c.path("scen.json")
        with open(f, "w") as o:
            json.dump(dict(kind=kind, ops=ops, depth=depth), o)
        r = c.model("life-" + name, "MCLife.tla", "MCLife.cfg", {"SCEN": f}, timeout=600)
        return [dict(kind=kind, main=[ops[i - 1] for i in h]) for h in histories(r["out"])]
    return [x for part in c.pool.map(one, sc) for x in part]


def life_random(rnd):
    kind = rnd.choice(("own", "own", "ext", "ext", "loop"))
    ms = ["p", "q", "v", "t"]
    main = []
    for _ in range(rnd.randint(5, 40)):
        k = rnd.random()
        cl = rnd.randint(1, 3)
        if k < .18:
            main.append(O(rnd.choice(("poll", "poll", "settle"))))
        elif k < .3:
            main.append(O(rnd.choice(("mkV", "mkV", "mkL", "mkA"))))
        elif k < .42:
            main.append(O("conn", c=cl))
        elif k < .6:
            main.append(O("send", c=cl, m=rnd.choice(ms + ["p", "q", "l", "a", "exit"])))
        elif k < .7:
            main.append(O("type", m=rnd.choice(ms)))
        elif k < .78:
            main.append(O("post", m=rnd.choice(("p", "v", "l", "a", "r", "p"))))
        elif k < .83:
            main.append(O("handle", m=rnd.choice(("en", "dis", "en", "dis", "rm"))))
        elif k < .88:
            main.append(O("bcast"))
        elif k < .92:
            main.append(O("close", c=cl, how=rnd.randint(0, 1)))
        elif k < .98:
            main.append(O(rnd.choice(("rmV", "rmL", "rmA"))))
        else:
            main += [O("rmV"), O("rmL"), O("rmA"), O("rmS")] + [O(rnd.choice(("rmX", "rmC", "handle")), m="en")]
    tail = [O("rmV"), O("rmL"), O("rmA"), O("rmS"), O("rmX"), O("rmC"), O("handle", m="rm")]
    k = rnd.random()
    main += [O("settle")] * (k < .5) + tail
    return dict(kind=kind, main=main)


def C27(c):
    th = c.thorough
    exes = {}

    def b(a):
        exes[a[0]] = c.build(a[1], (*CTL, "-fsanitize=address", *a[2]), ("-ldl",), out=a[0])
    list(c.pool.map(b, [("life", "lifedrv.cpp", ()), ("lifeboost", "lifedrv.cpp", ("-DBOOST",)), ("local", "localdrv.cpp", ())]))
    st = life_models(c)
    limit = 100000 if th else 4000
    c.extra["operation_sequences_of_the_model"] = {"generated": len(st), "replayed": min(limit, len(st))}
    if len(st) > limit:
        st = c.rnd.sample(st, limit)
    for k, s in enumerate(st):
        s.update(sched=[], seed=k, preempt=c.rnd.choice((100, 30)))
    half = len(st) // 2
    cn = [{"e": "bogus"}, {"e": "fn", "m": "p", "k": 1}]
    conform_(c, exes["life"], st[:half], "TraceLife", cn)
    conform_(c, exes["lifeboost"], st[half:], "TraceLife", cn)
    for e, n in (("life", 600), ("lifeboost", 600)):
        r = [dict(life_random(c.rnd), sched=[], seed=c.rnd.randint(1, 10**6), preempt=c.rnd.choice((100, 50, 20))) for _ in range(n * (10 if th else 1))]
        conform_(c, exes[e], r, "TraceLife", cn)
    conform_local(c, exes["local"], local_stimuli(c, 3000 if th else 200))
    # menus and commands removed by handlers, through every handle, at any moment
    exe = c.build("clidrv.cpp", ["-fsanitize=address"], out="core-asan")
    c.conform(exe, rand(c, 8000 if th else 500, dict(feed=14, comp=1, prompt=2, en=2, dis=1, rm=3, ins=2, open=.5, close=.5), eff=["print", "rm", "rm", "rm", "en", "dis", "ins", "throw"], sessions=3, length=(10, 40)), prop="C05")
