"""Checks of the command line core: sessions driven through the interface."""
import itertools, json, re
from vf import Check, CheckError, text as B, histories
from cligen import *

COUNT = {"quick": 1, "thorough": 12}


def run_scenarios(c, exe, scens, **kw):
    """Explores each scenario exhaustively with TLC and replays every transition on the code."""
    def one(named):
        name, s = named
        p = c.path("scen.json")
        with open(p, "w") as f:
            json.dump(s, f)
        r = c.model(name, "MCCli.tla", "MCCli.cfg", {"SCEN": p})
        hs = histories(r["out"])
        if not hs:
            raise CheckError("scenario %s generated nothing" % name)
        return stimuli_of(s, hs)
    st = []
    for part in c.pool.map(one, scens):
        st += part
    c.log("%d stimuli from %d models" % (len(st), len(scens)))
    return c.conform(exe, st, **kw)


# ---------------------------------------------------------------------------
# scenarios
# ---------------------------------------------------------------------------
def P(b, how=0):
    return dict(t="print", b=b, how=how)


def nav(c):
    t = menu("cli", [
        cmd("a", (), [P("A")]),
        menu("sub", [cmd("a", (), [P("SA")]),
                     menu("deep", [cmd("x", (), [P("X")]), cmd("boom", (), [dict(t="throw", kind=0, std=1, b="bang")])], prompt="DEEP"),
                     cmd("b", ("int",), [P("SB")])]),
        cmd("b", ("string",), [P("BS")]),
        cmd("b", ("int",), [P("BI")]),
        menu("su", [cmd("sub", (), [P("SU")])], prompt="*su*"),
        cmd("sub", ("string",), [P("never")]),
    ], prompt="TOP")
    lines = ["a", "sub", "su", "sub a", "sub deep", "deep", "x", "boom", "..", ".. a", ".. ..", "cli", "cli a", "cli sub deep", "b 1", "b z", "b", "sub b 1",
             "sub b z", "nosuch", "sub deep x", "sub deep boom", "su sub", "deep deep", "sub sub", "deep ..", "", "sub deep .. a", ".. sub deep", "sub deep .. .. su"]
    nodes, kids = number(t)
    out = []
    for cfg in ({}, {"wrong": 1, "exc": 1}):
        out.append(("nav", scenario(header(nodes, kids, cfg=cfg), [feed(l) for l in lines], 5 if c.thorough else 4,
                                    prefix=[opn(1, hmax=0)], tail=[op("prompt", 1), feed("a"), op("prompt", 1)], nohist=1)))
        if not c.thorough:
            break
    return out


def structure(c, prop=None):
    """enable, disable, remove and insert from outside and from handlers, two sessions"""
    t = menu("m", [
        cmd("a", (), [P("A")]),
        menu("sub", [cmd("a", (), [P("SA")]), cmd("kill", (), [dict(t="rm", n=3), P("k")]), menu("deep", [cmd("self", (), [dict(t="rm", n=7), P("s")])])]),
        cmd("off", (), [dict(t="dis", n=8), dict(t="dis", n=3)]),
        cmd("on", (), [dict(t="en", n=3), dict(t="en", n=2), dict(t="ins", n=11, m=1)]),
        cmd("gone", (), [dict(t="rm", n=10), P("g")]),
    ])
    nodes, kids = number(t, [cmd("new", (), [P("N")])])
    names = [bytes(d["name"]).decode() for d in nodes]
    assert names[2] == "sub" and names[6] == "self" and names[7] == "off" and names[9] == "gone" and names[10] == "new", names
    ops = [op("dis", n=3), op("en", n=3), op("rm", n=3), op("rm", n=7), op("dis", n=6), op("dis", n=2), op("en", n=2), op("rm", n=2),
           feed("sub", 1), feed("sub deep", 2), feed("..", 1), feed("kill", 1), feed("sub deep self", 1), feed("self", 2), feed("off", 1), feed("on", 1), feed("gone", 2)]
    tail = []
    for s in (1, 2):
        tail += [op("prompt", s), op("help", s)] + [op("comp", s, b=x) for x in ("", "s", "sub", "sub ", "sub deep ", ".. ", "m ")]
        tail += [feed(x, s) for x in ("a", "sub a", "new", "deep", "..")] + [op("prompt", s)]
    return [("structure", scenario(header(nodes, kids), ops, 4 if c.thorough else 3, prefix=[opn(1, 1, hmax=0), opn(2, 2, hmax=0)], tail=tail, nohist=1))]


def hist(c, depth=None):
    t = menu("m", [cmd("a"), cmd("b", (), [P("B")]), cmd("x", (), [dict(t="throw", kind=0, std=1, b="e")])])
    nodes, kids = number(t)
    out = []
    for hmax, store in ((0, ()), (1, ()), (2, ()), (3, ("p", "q")), (2, ("p", "q", "r"))):
        ops = [feed("a"), feed("b"), feed("!0"), feed("!1"), feed("!2"), op("prev", 1, b=""), op("prev", 1, b="!1"), op("next", 1), feed("nosuch"), feed("!9")]
        d = depth or (6 if c.thorough else 5 if hmax < 3 else 4)
        tail = [feed("history"), op("show", 1), op("prev", 1, b="T"), op("prev", 1, b="U"), op("next", 1), op("next", 1), op("next", 1), feed("zz"), op("show", 1),
                op("exit", 1), op("dump")]
        out.append(("history-%d-%d" % (hmax, len(store)),
                    scenario(header(nodes, kids, store=store, smax=5), ops, d, prefix=[opn(1, hmax=hmax)], tail=tail)))
    return out


def store(c):
    t = menu("m", [cmd("a"), cmd("b")])
    nodes, kids = number(t)
    out = []
    for storage in ("volatile", "file"):
        for smax, hmax, pre in ((3, 2, ("p",)), (0, 2, ()), (1, 3, ()), (2, 100, ("p", "q"))):
            if storage == "file" and smax < len(pre):
                continue
            ops = [opn(1, hmax=hmax), opn(2, hmax=hmax), feed("a", 1), feed("b", 1), feed("c\n\\", 2), feed("!0", 1), op("prev", 2, b="y"), feed("exit", 1), op("exit", 2),
                   op("close", 1), op("xstore", l=["x"], seen=0), op("restart", keep=1 if storage == "file" else 0), op("clear")]
            out.append(("store-%s-%d" % (storage, smax),
                        scenario(header(nodes, kids, store=pre, smax=smax, storage=storage), ops, 6 if c.thorough else 5, tail=[op("dump"), opn(9, hmax=3), op("show", 9), op("exit", 9), op("dump")])))
    return out


KINDS = [(0, "boom"), (1, "logic\nline"), (2, ""), (3, "custom"), (4, None), (5, None), (6, None), (7, None), (10, None), (11, None), (12, None), (13, None)]


def throws(c):
    def thr(k):
        kind, what = KINDS[k]
        return dict(t="throw", kind=kind, std=1 if kind < 10 else 0, b=[-1] if what is None else what)
    top = [cmd("t%d" % i, (), [P("p"), thr(i)]) for i in range(len(KINDS))]
    dup = [cmd("t%d" % i, (), [P("second")]) for i in range(len(KINDS))]
    t = menu("m", top + [free("t4", [P("third")])] + dup +
             [menu("sub", [cmd("t4", (), [thr(4)]), cmd("t0", (), [P("x\n"), thr(0)])]), cmd("ok", (), [P("fine")]),
              cmd("arg", ("int", "string"), [thr(4)]), cmd("arg", ("string", "string"), [P("no")]),
              cmd("nest", (), [dict(t="feed", b="sub t4"), P("after"), thr(3)])])
    nodes, kids = number(t)
    out = []
    for cfg in ({}, {"exc": 1, "wrong": 1}):
        ops = [feed("t%d" % i) for i in range(len(KINDS))] + [feed("sub"), feed("sub t4"), feed("t0"), feed("sub t0"), feed("arg 1 x"), feed("nest"), feed("!0"), feed("!1"), feed("..")]
        out.append(("throw", scenario(header(nodes, kids, cfg=cfg), ops, 3 if c.thorough else 2, prefix=[opn(1, hmax=2)],
                                      tail=[op("prompt", 1), feed("ok"), feed("history"), feed("t4"), op("prompt", 1), feed("exit"), feed("ok"), op("dump")], nohist=0)))
    return out


def exits(c):
    t = menu("m", [cmd("a", (), [P("A")]), cmd("bye", (), [P("B"), dict(t="exit"), P("C")]), cmd("twice", (), [dict(t="exit"), dict(t="exit")]),
                   cmd("fe", (), [dict(t="feed", b="exit"), dict(t="feed", b="a")]), menu("sub", [cmd("exit", ("int",), [P("E")])])])
    nodes, kids = number(t)
    out = []
    for g in (1, 0):
        for a in (1, 0):
            ops = [feed("a", 1), feed("exit", 1), op("exit", 1), feed("bye", 1), feed("twice", 1), feed("fe", 1), feed("sub", 1), feed("!0", 1), op("prompt", 1),
                   feed("exit", 2), feed("a", 2), op("prompt", 2), op("enter", 2)]
            out.append(("exit-%d%d" % (g, a), scenario(header(nodes, kids, cfg=dict(genter=g, gexit=g), smax=4), ops, 5 if c.thorough else 4,
                                                       prefix=[opn(1, 1, aenter=a, aexit=a), op("enter", 1), opn(2, 1, aenter=1 - a, aexit=1 - a)],
                                                       tail=[op("prompt", 1), feed("a", 1), feed("exit", 1), op("prompt", 2), feed("exit", 2), op("dump")])))
    return out


def bcasts(c):
    t = menu("m", [cmd("say", (), [dict(t="bcast", b="said", how=0)])])
    nodes, kids = number(t)
    ops = [opn(1, 1, 0), opn(2, 1, 0, sick=1), opn(3, 2, 0, sick=6), opn(4, 3, 0, "other", sick=7), op("close", 1), op("close", 2, sick=7), op("close", 3), op("close", 4), feed("say", 1), feed("say", 3), op("exit", 2),
           op("bcast", b="hi", how=0)]
    tail = [op("bcast", b="b1", how=0), op("bcast", b="c2", how=1), op("bcast", b="d3\n", how=2), op("bcast", b="e4", how=3), op("bcast", b="f5g6", how=4), op("bcast", b="77", how=8), op("bcast", b="h8", how=9),
            op("bcast", b="i9", how=0, sick=1), op("bcast", b="10", how=8, sick=2), op("bcast", b="j", how=2, sick=3)]
    return [("broadcast", scenario(header(nodes, kids), ops, 6 if c.thorough else 5, tail=tail, nohist=1))]


def files(c):
    t = menu("m", [cmd("a", (), [P("A")]), cmd("eat", (), [P("E"), dict(t="eat")]), cmd("brk", (), [P("K"), dict(t="break")]),
                   cmd("bye", (), [dict(t="exit"), P("B")]), cmd("boom", (), [dict(t="throw", kind=0, std=1, b="x")]), menu("sub", [cmd("b", ("string",), [P("SB")])])])
    nodes, kids = number(t)
    segs = ["a\n", "exit\n", "\n", "eat\n", "brk\n", "bye\n", "boom\n", "sub\n", "b 'x y'\n", "a", " a \n", "nosuch\r\n", "\x00\n", "!0\n"]
    inputs = [""]
    for n in range(1, 4 if c.thorough else 3):
        inputs += ["".join(p) for p in itertools.product(segs, repeat=n)]
    out = []
    hdr = header(nodes, kids, cfg=dict(genter=1, gexit=1), smax=5)
    tail = [op("prompt", 1), feed("a", 1), op("exit", 1), op("dump")]
    inputs += ["\n" * 50, "a" * 5000 + "\n" + "a\n", "\xff\xfe'\x01'\n", "a\n" * 60 + "exit\n" + "a\n" * 3]
    ops = [opn(1, 1, 1, "file", i, j) for i in (0, 1) for j in (0, 1)] + [dict(op="file", s=1, b=B(x)) for x in inputs]
    return [("file", scenario(hdr, ops, 2, tail=tail))]


# ---------------------------------------------------------------------------
# random behaviours
# ---------------------------------------------------------------------------
ALLOPS = dict(feed=10, prompt=1, help=1, comp=2, up=1, prev=.5, next=1, show=.5, en=1, dis=1, rm=.7, ins=.5, bcast=.5, open=.5, close=.3, exitline=.2, restart=.1, dump=.3)
ALLEFF = ["print", "print", "en", "dis", "rm", "ins", "bcast", "exit", "feed", "throw"]


def rand(c, n, ops, eff=("print",), sessions=2, hist=(100,), cfg=True, smax=(1000,), storages=("volatile",), acts=False, length=(8, 30), streams=None, preload=False, pool=False, kinds=("plain",), multi=False, **wkw):
    r = c.rnd
    st = []
    for _ in range(n):
        w = World(r, list(eff), **wkw)
        sm = r.choice(smax)
        storage = r.choice(storages)
        pre = [r.choice(["p", "q", "r", "a"]) for _ in range(r.randint(0, min(sm, 4)))] if preload else []
        lines = [w.line() for _ in range(4)] if pool else None
        if multi and r.random() < .5:
            lines = [multiline(r, x) if r.random() < .5 else x + "x" * r.randint(1000, 3000) if r.random() < .1 else x for x in lines]
        st.append(random_trace(r, r.randint(*length), w, ops, sessions=sessions, streams=streams, hist=hist,
                               cfg={k: int(cfg and r.random() < .5) for k in CFG}, store=pre, smax=sm, storage=storage, acts=acts, lines=lines, kinds=kinds))
    return st


def per(c, quick, thorough=None):
    return thorough if c.thorough and thorough else quick


# ---------------------------------------------------------------------------
# the checks
# ---------------------------------------------------------------------------
def C02(c):
    exe = c.build("clidrv.cpp")
    run_scenarios(c, exe, nav(c))
    c.conform(exe, rand(c, per(c, 1200, 20000), dict(feed=20, prompt=1, en=1, dis=1, open=.3, rm=.2), eff=["print", "print", "dis", "en"]))


def C04(c):
    exe = c.build("clidrv.cpp")
    run_scenarios(c, exe, nav(c))
    c.conform(exe, rand(c, per(c, 1200, 20000), dict(feed=10, prompt=8, open=.5, en=.3, dis=.3, rm=.2), eff=["print", "throw", "feed", "dis", "rm"]))


def C05(c):
    exe = c.build("clidrv.cpp", ["-fsanitize=address"])
    run_scenarios(c, exe, structure(c))
    c.conform(exe, rand(c, per(c, 900, 12000), dict(feed=12, help=2, comp=2, prompt=2, en=3, dis=3, rm=3, ins=2, open=.5, close=.3),
                        eff=["print", "en", "dis", "rm", "rm", "ins", "throw"], sessions=3, length=(10, 40)))


def C06(c):
    exe = c.build("clidrv.cpp", ["-DWORLD_ALL_TYPES"])
    run_scenarios(c, exe, structure(c))
    c.conform(exe, rand(c, per(c, 1200, 20000), dict(feed=5, help=8, en=2, dis=2, rm=1, ins=1, open=.3), eff=["print"], maxnodes=18, params=ALLPARAMS))


def C07(c):
    exe = c.build("clidrv.cpp")
    run_scenarios(c, exe, structure(c))
    c.conform(exe, rand(c, per(c, 1200, 20000), dict(feed=3, comp=16, en=1.5, dis=2, rm=.5, ins=.5), eff=["print"], maxnodes=18, length=(10, 40)))


HOPS = dict(feed=10, up=5, prev=2, next=4, show=4, exitline=.2, open=.3)


def C09(c):
    exe = c.build("clidrv.cpp")
    run_scenarios(c, exe, hist(c))
    c.conform(exe, rand(c, per(c, 1000, 15000), HOPS, hist=(0, 1, 2, 3, 4, 7, 100), preload=True, pool=True, smax=(1000, 3), length=(15, 50), maxnodes=6, removable=False))
    # the default size, filled and overfilled
    w = World(c.rnd, ["print"], maxnodes=4, removable=False)
    for n in (98, 99, 100, 101, 130):
        st = [opn(1, hmax=100)] + [feed("l%d" % i) for i in range(n)] + [feed("history"), feed("!%d" % (n - 100)), feed("!%d" % (n - 99)), feed("history"), op("exit", 1), op("dump")]
        c.conform(exe, [dict(header(w.nodes, w.kids, smax=1000), steps=st)], sample=False)
    # bigger than the default sizes
    for n, hmax in ((300, 280), (600, 1000)) + (((1300, 1200), (5000, 4097)) if c.thorough else ()):
        st = [opn(1, hmax=hmax)] + [feed("l%d" % i) for i in range(n)] + [feed("history"), feed("!%d" % max(0, n - hmax)), feed("!%d" % (n - 1)), feed("history")]
        c.conform(exe, [dict(header(w.nodes, w.kids, smax=1000), steps=st)], sample=False)


def C10(c):
    exe = c.build("clidrv.cpp")
    run_scenarios(c, exe, hist(c))
    c.conform(exe, rand(c, per(c, 1200, 15000), dict(feed=6, up=8, prev=4, next=8, show=3), hist=(0, 1, 2, 3, 4, 7, 100), preload=True, pool=True, smax=(1000,), length=(15, 60), maxnodes=6, removable=False))


def C11(c):
    exe = c.build("clidrv.cpp")
    run_scenarios(c, exe, hist(c))
    r = c.rnd
    st = []
    for _ in range(per(c, 1200, 15000)):
        w = World(r, ["print", "throw", "feed", "dis"], maxnodes=6, removable=False)
        lines = [w.line() for _ in range(3)] + ["!%d" % r.randint(0, 6) for _ in range(3)] + ["! %d" % r.randint(0, 12), "!" + r.choice(["x", "-1", "4294967296", "4294967295", "00", "", "1 2", "+1"])]
        st.append(random_trace(r, r.randint(10, 40), w, dict(feed=14, up=2, prev=2, next=1, show=2, dump=.3, exitline=.1), sessions=2, hist=(0, 1, 2, 3, 5, 100),
                               cfg={k: int(r.random() < .5) for k in CFG}, smax=1000, lines=lines, store=[r.choice(lines) for _ in range(r.randint(0, 3))]))
    c.conform(exe, st)


def C12(c):
    exe = c.build("clidrv.cpp")
    run_scenarios(c, exe, store(c))
    c.conform(exe, rand(c, per(c, 1200, 15000), dict(feed=8, up=1, prev=.7, next=.7, exitline=2, exit=.5, open=3, close=1.5, dump=2, clear=.2, restart=.8, xstore=.8), multi=True, sessions=3,
                        hist=(0, 1, 2, 3, 5, 100), smax=(0, 1, 2, 3, 5, 1000), storages=("volatile", "file"), preload=True, pool=True, length=(15, 50), maxnodes=6, removable=False))
    # the default size of the storages, overfilled
    w = World(c.rnd, ["print"], maxnodes=4, removable=False)
    for storage in ("volatile", "file"):
        st = []
        for s in range(1, 5):
            st += [opn(s, hmax=400)] + [feed("l%d-%d" % (s, i)) for i in range(330)] + [op("exit", s), op("close", s)]
        c.conform(exe, [dict(header(w.nodes, w.kids, smax=1000, storage=storage), steps=st + [op("dump"), opn(9, hmax=3), op("show", 9)])], sample=False)


def C13(c):
    exe = c.build("clidrv.cpp")
    run_scenarios(c, exe, throws(c))
    c.conform(exe, rand(c, per(c, 1200, 15000), dict(feed=12, prompt=3, show=.5, open=.3), eff=["throw", "throw", "print", "feed", "dis"], length=(10, 30)))


def C22(c):
    exe = c.build("clidrv.cpp", ["-fsanitize=address"])
    run_scenarios(c, exe, bcasts(c))
    c.conform(exe, rand(c, per(c, 800, 10000), dict(feed=4, bcast=8, open=4, close=3, exitline=.5), eff=["bcast", "print"], sessions=5, streams=[1, 2, 3], length=(10, 40), kinds=("plain", "plain", "other")))


def C14(c):
    exe = c.build("clidrv.cpp")
    run_scenarios(c, exe, exits(c))
    run_scenarios(c, exe, files(c))
    c.conform(exe, rand(c, per(c, 1000, 15000), dict(feed=10, prompt=4, exitline=2, exit=2, enter=.5, open=2, close=.5, up=.3, dump=1), eff=["print", "exit", "exit", "feed", "throw"],
                        acts=True, sessions=3, streams=[1, 2], length=(10, 40)))


def C24(c):
    exe = c.build("clidrv.cpp", ["-fsanitize=address"])
    run_scenarios(c, exe, files(c))
    r = c.rnd
    w = World(r)
    st = [dict(header(w.nodes, w.kids), steps=[dict(op="badopen", **{"in": i, "out": o}) for i in (0, 1, 2, 3, 4, 7) for o in (0, 1, 2, 4)])]
    for _ in range(per(c, 600, 10000)):
        w = World(r, ["print", "exit", "eat", "break", "throw", "feed", "rm", "dis"])
        ls = [r.choice([w.line(), w.line(), w.line(), "exit", "", "x" * r.choice([r.randint(1, 300), r.randint(1, 5000)]), bytes(r.randint(0, 255) for _ in range(r.randint(1, 8))).decode("latin-1").replace("\n", "")])
              for _ in range(r.randint(0, 12))]
        x = "\n".join(ls) + r.choice(["", "\n", "\n", "\n\n", "\r\n"])
        st.append(dict(header(w.nodes, w.kids, cfg={k: int(r.random() < .5) for k in CFG}, smax=7),
                       steps=[opn(1, 1, 1, "file", r.randint(0, 1), r.randint(0, 1)), dict(op="file", s=1, b=B(x)), op("prompt", 1), feed("help"), op("exit", 1), op("dump")]))
    c.conform(exe, st)


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def C01(c):
    n = "6" if c.thorough else "5"
    fut = c.pool.submit(c.model, "split", "MCSplit.tla", "MCSplit.cfg", {"LEN": n}, 4)
    exe = c.build("clidrv.cpp")
    r = c.rnd
    sigma = [97, 32, 34, 39, 92, 33, 10]
    lines = [list(p) for k in range(0, int(n) + 1) for p in itertools.product(sigma, repeat=k)]
    if c.thorough:
        lines += [list(p) for p in itertools.product([97, 32, 34, 39, 92, 33], repeat=7)]
    wide = sigma + [98, 9, 13, 0, 255, 11, 12, 128, 160, 27, 63]

    def anyline():
        k = r.random()
        if k < .5:
            return [r.choice(wide) for _ in range(r.randint(0, 40))]
        if k < .7:
            return [r.randint(0, 255) for _ in range(r.randint(0, 60))]
        if k < .72:
            return [r.choice(wide) for _ in range(r.randint(200, 3000))]
        args = [[r.choice(wide) if r.random() < .6 else r.randint(0, 255) for _ in range(r.randint(1, 12))] for _ in range(r.randint(1, 5))]
        out = []
        for a in args:
            q = r.choice([34, 39])
            if k < .9 or any(x in (32, 9, 10, 33) for x in a):
                out += [q] + [y for x in a for y in ([92, x] if x in (q, 92) else [x])] + [q]
            else:
                out += [y for x in a for y in ([92, x] if x in (34, 39, 92) else [x])]
            out += [r.choice([32, 9, 10])] * r.randint(1, 2)
        return out
    lines += [anyline() for _ in range(per(c, 3000, 60000))]
    w = World(r, loose=False)
    hdr = header(w.nodes, w.kids)
    st = [dict(hdr, steps=[dict(op="split", b=x) for x in part]) for part in chunks(lines, 250)]
    # the same lines as the arguments of a command
    nodes, kids = number(menu("m", [free("f", [P("!")]), free("\xff\x80", ins=1), free("g'h", ins=2)]))
    hdr = header(nodes, kids)
    names = [B("f "), B("f"), B("'g\\'h' "), [255, 128, 32]]
    feeds = [r.choice(names) + (anyline() if r.random() < .6 else r.choice(lines[:20000])) for _ in range(per(c, 3000, 40000))]
    feeds = [x for x in feeds if 10 not in x or r.random() < .2]
    st += [dict(hdr, steps=[opn(1, hmax=0)] + [dict(op="feed", s=1, b=x) for x in part]) for part in chunks(feeds, 100)]
    c.conform(exe, st)
    fut.result()


TYPES = ALLTYPES
WIDTH = {"schar": 8, "uchar": 8, "short": 16, "ushort": 16, "int": 32, "uint": 32, "long": 64, "ulong": 64, "llong": 64, "ullong": 64}


def C03(c):
    fut = c.pool.submit(c.model, "conv", "MCConv.tla", "MCConv.cfg", None, 4)
    exe = c.build("clidrv.cpp", ["-DWORLD_ALL_TYPES"])
    r = c.rnd
    cmds = []
    for t in TYPES:
        for sig in ((t,), (t, "string"), ("string", t), ("int", t, "char")):
            if sig not in [x[1] for x in cmds]:
                cmds.append(("%s%d" % (t, len(cmds)), sig))
    nodes, kids = number(menu("m", [cmd(n, s, ins=r.choice([0, 1, 2, 3, 4, 5])) for n, s in cmds] +
                              # overloads of one name: the first whose types fit
                              [cmd("o", (t,)) for t in r.sample(TYPES, len(TYPES))]))
    hdr = header(nodes, kids)
    byname = {}
    for n, s in cmds:
        byname.setdefault(s, n)

    def q(x):
        return [34] + [y for ch in x for y in ([92, ch] if ch in (34, 92) else [ch])] + [34]

    def line(sig, pos, x):
        args = [dict(int=B("1"), char=B("c"), string=B("s")).get(t, B("1")) for t in sig]
        args[pos] = x
        out = B(byname[sig]) if sig in byname else B("o")
        for a in args:
            out = out + [32] + q(a)
        return out
    sigma = [43, 45, 48, 49, 50, 51, 53, 55, 56, 57, 32, 120, 46]
    short = [list(p) for k in range(0, 4 if c.thorough else 3) for p in itertools.product(sigma, repeat=k)]

    def edge():
        k = r.choice(list(WIDTH.values()))
        base = r.choice([2 ** k, 2 ** (k - 1), 2 ** (k - 1), 10 ** r.randint(0, 22), 2 ** r.randint(1, 70), 0, r.randint(0, 2 ** 66)]) + r.randint(-2, 2)
        s = str(abs(base))
        if r.random() < .15:
            s = "0" * r.randint(1, 25) + s
        s = r.choice(["", "", "", "-", "+", "--", "+-"]) + s
        if r.random() < .08:
            i = r.randint(0, len(s))
            s = s[:i] + r.choice([" ", "x", ".", "0x", "e1", "\x00", "\n", "a", "'", "\t", "L", "u", "\xff", ","]) + s[i:]
        return B(s)

    def misc():
        return B(r.choice(["true", "false", "True", "TRUE", "tru", "true ", " true", "0", "1", "2", "-0", "-1", "+1", "+0", "01", "00", "1.0", "10", "x", "xy", "", " ", "  ", "\n", "\x00", "\xff", "'",
                           "5u", " 5u", "5u ", "5", "u5", "5ux", "05u", "-5u", "999999u", "5 u", "a b", "nil", "0x10", "1e3", "on", "1 ", " 1", "1\n", "1\x00"]))

    BIGX = [30, 36, 37, 40, 45, 100, 300, 306, 307, 310, 400, 1000, 4900, 4931, 4934, 5000, 99999, -30, -36, -48, -60, -300, -306, -330, -1000, -4900, -4930, -4960, -9999, -99999]

    def flt():
        if r.random() < .1:      # numbers far out, never next to a limit of a type
            return B(r.choice(["", "-", "+"]) + r.choice(["1", "3", "9", "7", "0"]) + r.choice(["e", "E"]) + str(r.choice(BIGX)))
        def dig(n):
            return "".join(r.choice("0123456789") for _ in range(n))
        s = r.choice(["", "", "-", "+"]) + r.choice([dig(1), dig(2), "", "0", "00" + dig(1)]) + r.choice(["", "." + dig(1), "." + dig(2), "."]) + \
            r.choice(["", "", "", "e%d" % r.randint(-6, 6), "E+%d" % r.randint(0, 5), "e", "e+"])
        if r.random() < .15:
            s += r.choice(["x", " ", "f", ".", "-", "e5", ",5"])
        k = r.random()
        if k < .12:
            s = r.choice(" \t\n\v\f\r") + s
        elif k < .2:
            s += r.choice(" \t\n\v\f\r")
        if r.random() < .12:
            i = r.randint(0, len(s))
            s = s[:i] + r.choice([" ", "\t", "\n", "\v", "\f", "\r", "\0", "\x85", "\xa0", ",", "'", "_", "f", "l", "-"]) + s[i:]
        return B(s)
    # around the limits of every width, and what a narrower type would wrap to a small number
    grid = [B(g + str(abs(n))) for n, g in sorted({(m * 2 ** k + d, "-" if m < 0 else "") for k in (7, 8, 15, 16, 31, 32, 63, 64) for m in (1, -1, 3) for d in (-2, -1, 0, 1, 2)})]
    feeds = []
    for t in TYPES:
        sigs = [s for n, s in cmds if t in s]
        if t not in ("float", "double", "ldouble"):
            feeds += [line((t,), 0, x) for x in grid]
        for x in short:
            if t in ("float", "double", "ldouble", "user") and len(x) > 2 and not c.thorough:
                continue
            feeds.append(line((t,), 0, x))
        for _ in range(per(c, 160, 3000)):
            s = r.choice(sigs)
            if t in ("float", "double", "ldouble"):
                x = flt() if r.random() < .85 else misc()
            else:
                x = edge() if r.random() < .7 else misc() if r.random() < .8 else flt()
            feeds.append(line(s, r.choice([i for i, y in enumerate(s) if y == t]), x))
    feeds += [B("o ") + q(r.choice([edge, misc, misc, flt])()) for _ in range(per(c, 600, 6000))]
    # texts that streams read as numbers but the grammar of the specification does not cover
    feeds = [x for x in feeds if not any(k in bytes(x).lower() for k in (b"inf", b"nan"))]
    feeds = [x for x in feeds if not (b"0x" in bytes(x).lower() and any(t in bytes(x[:12]) for t in (b"float", b"double", b"o ")))]
    # ... nor numbers next to the limits of a type, that may be rounded
    feeds = [x for x in feeds if all(int(e) in BIGX and re.search(rb"(?<![\d.])[13790][eE]" + re.escape(e), bytes(x)) for e in re.findall(rb"[eE]([+-]?\d{2,})", bytes(x)))]
    st = [dict(hdr, steps=[opn(1, hmax=0)] + [dict(op="feed", s=1, b=x) for x in part]) for part in chunks(feeds, 100)]
    c.conform(exe, st)
    fut.result()
