"""Checks of the remote family: telnet sessions over real connections."""
import itertools, json, re
from vf import Check, CheckError, text as B, histories
from netgen import *
from core_checks import per, P

TR = dict(module="TraceRemote.tla", cfg="TraceRemote.cfg")
ENTER = KEYS["enter"]
NOTHEADER = ("ops", "depth", "emit", "prefix", "tail", "nohist", "closer")


def rscenario(hdr, ops, depth, prefix=(), tail=(), nohist=0, closer=0):
    return dict(hdr, ops=list(ops), depth=depth, emit=1, prefix=list(prefix), tail=list(tail), nohist=nohist, closer=closer)


def closed(out):
    """Histories with the bytes that complete the telnet command they end in."""
    r = {}
    for m in re.finditer(r'^"C (.*)"$', out, re.M):
        j = json.loads(json.loads('"' + m.group(1) + '"'))
        r[tuple(j["h"])] = j["c"]
    return r


def run_remote(c, exe, scens, limit=None, **kw):
    """Explores each scenario exhaustively with TLC and replays every transition on a real server."""
    def one(named):
        name, s = named
        p = c.path("scen.json")
        with open(p, "w") as f:
            json.dump(s, f)
        r = c.model(name, "MCRemote.tla", "MCRemote.cfg", {"SCEN": p})
        hdr = {k: v for k, v in s.items() if k not in NOTHEADER}
        if s["closer"]:
            cl = closed(r["out"])
            if not cl:
                raise CheckError("scenario %s generated nothing" % name)
            return [dict(hdr, steps=s["prefix"] + [s["ops"][i - 1] for i in h] + ([send(1, x)] if x else []) + s["tail"]) for h, x in sorted(cl.items())]
        hs = histories(r["out"])
        if not hs:
            raise CheckError("scenario %s generated nothing" % name)
        return [dict(hdr, steps=s["prefix"] + [s["ops"][i - 1] for i in h] + s["tail"]) for h in hs]
    st = []
    for part in c.pool.map(one, scens):
        st += part
    c.log("%d stimuli from %d models" % (len(st), len(scens)))
    return c.conform(exe, st, **TR, **kw)


def keys(c, *names):
    """One step per key: the name of a key, or a text."""
    return [send(c, KEYS[x] if x in KEYS else x) for x in names]


# ---------------------------------------------------------------------------
# scenarios
# ---------------------------------------------------------------------------
CUSTOM = dict(wrong=1, exc=1)


def simple_world():
    t = menu("m", [cmd("ab", (), [P("AB")]), cmd("abc", ("int",), [P("C")]), menu("sub", [cmd("x", (), [P("X")]), cmd("exit", ("int",))]), cmd("b", (), [P("B\nb")])])
    return number(t)


def editing(c):
    n, k = simple_world()
    h = rheader(header(n, k, cfg=CUSTOM))
    return [("editing", rscenario(h, keys(1, "a", "b", " ", "left", "right", "home", "end", "bs", "delete", "enter"), 6 if c.thorough else 4,
                                  [connect(1)] + keys(1, "xy"), keys(1, "Z", "enter", "q", "enter")))]


def telnetbytes(c, every=True):
    """Every byte in every state of the telnet parser and of the key decoder."""
    n, k = simple_world()
    h = rheader(header(n, k, cfg=CUSTOM))
    some = [0, 1, 3, 4, 8, 9, 10, 12, 13, 27, 32, 51, 65, 66, 67, 68, 70, 72, 91, 97, 126, 127, 128, 233] + list(range(240, 256))
    bs = list(range(256)) if every else some
    return [("telnet-bytes", rscenario(h, [send(1, [b]) for b in bs], 12, [connect(1)] + keys(1, "ab", "left"), keys(1, "qw~", "enter", "r", "enter"), nohist=2, closer=1))]


def telnetseqs(c):
    """Whole and cut telnet commands among keys, in all orders."""
    n, k = simple_world()
    h = rheader(header(n, k, cfg=CUSTOM))
    ops = [send(1, x) for x in ([255, 253, 1], [255, 251, 31], [255, 254, 3], [255, 252, 34], [255, 241], [255, 250, 31, 0, 80, 13, 255, 255, 24, 255, 240], [255], [250, 24, 97], [240], [253], [3],
                                "a", [13], [0], [10], [27], "[", "A", "3", "~")]
    return [("telnet-seqs", rscenario(h, ops, 4 if c.thorough else 3, [connect(1)] + keys(1, "ab"), keys(1, "qw~", "enter"), closer=1))]


def browsing(c):
    n, k = simple_world()
    out = []
    for hmax, store in ((2, ("p", "q")), (0, ()), (1, ()), (100, ("ab",))):
        h = rheader(header(n, k, store=store, cfg=CUSTOM), hmax)
        out.append(("browsing-%d" % hmax, rscenario(h, keys(1, "up", "down", "a", "bs", "enter", "tab"), (7 if c.thorough else 5) + (hmax != 0) - 1,
                                                    [connect(1)] + keys(1, "b", "enter", "z"), keys(1, "up", "up", "up", "down", "down", "down") + [send(1, "history"), send(1, ENTER)])))
    return out


def tabbing(c):
    t = menu("m", [cmd("ab"), cmd("abc", ("int",)), cmd("abd"), menu("sub", [cmd("x"), cmd("xy"), menu("deep", [cmd("z")])]), menu("su", [cmd("exit", ("int",)), cmd("q")]), cmd("e xit"), cmd("helper")], prompt="P")
    n, k = number(t)
    out = []
    for color in (0, 1):
        h = rheader(header(n, k, cfg=CUSTOM), 0, color=color)
        out.append(("tab-%d" % color, rscenario(h, keys(1, "tab", "a", "b", "s", "ub", " ", "x", "e", ".", "left", "bs", "enter"), 5 if c.thorough else 4,
                                                [connect(1)], keys(1, "tab", "z"), nohist=1)))
        if not c.thorough:
            break
    h = rheader(header(n, k, cfg=CUSTOM), 0)
    ops = keys(1, "tab", "su", "x", " ", "..", "enter") + [op("dis", n=2), op("en", n=2), op("dis", n=5), op("en", n=5), op("rm", n=9), op("dis", n=9), op("dis", n=1), op("en", n=1)]
    out.append(("tab-structure", rscenario(h, ops, 4 if c.thorough else 3, [connect(1)] + keys(1, "sub", "enter"), keys(1, "tab", "enter", "su", "tab"), nohist=1)))
    return out


def screens(c):
    t = menu("m", [cmd("nl", (), [P("line\n")]), cmd("no", (), [P("text")]), cmd("cr", (), [P("abcdef\rX")]), cmd("long", (), [P("y" * 100)]), menu("su", [cmd("q")], prompt="longer prompt")], prompt="P")
    n, k = number(t)
    out = []
    for color in (0, 1):
        h = rheader(header(n, k, store=["longest entry", "nl", "no"], cfg=dict()), 3, color=color)
        out.append(("screen-%d" % color, rscenario(h, keys(1, "a", "n", "left", "home", "bs", "delete", "up", "down", "tab", "clear", "enter"), 5 if c.thorough else 4, [connect(1)],
                                                   keys(1, "w", "left", "tab", "up", "home", "v"), nohist=1)))
    return out


def clients(c):
    """Two clients, what they share and what they do not."""
    t = menu("m", [cmd("a", (), [P("A")]), menu("sub", [cmd("x", (), [P("X")]), cmd("kill", (), [dict(t="rm", n=3)])]), cmd("say", (), [dict(t="bcast", b="hey\n", how=0)]), cmd("off", (), [dict(t="dis", n=2)])])
    n, k = number(t)
    h = rheader(header(n, k, cfg=dict(CUSTOM, genter=1, gexit=1), store=["p"], smax=6), 3, 1, 1)
    ops = [connect(3), dict(op="flash", n=2, how=1, polls=0, b=[]), send(1, "a"), send(1, ENTER), send(1, [27, 91]), send(1, "sub\r\0"), send(1, "say\r\0"), send(1, [255, 253]), send(1, [4]), send(1, KEYS["up"]), rclose(1, 0), rclose(1, 1),
           send(2, "A"), send(2, ENTER), send(2, "sub\r\0kill\r\0"), send(2, "off\r\0"), send(2, KEYS["up"]), rclose(2, 2), send(2, "exit\r\0a\r\0"), op("bcast", b="b", how=1)]
    return [("clients", rscenario(h, ops, 4 if c.thorough else 3, [connect(1), connect(2), send(1, "a"), send(2, "s")],
                                  [send(1, [1]), send(1, "a\r\0"), send(2, "a\r\0"), connect(4), send(4, "a\r\0exit\r\0"), op("dump"), op("bcast", b="z", how=0)]))]


def rexits(c):
    t = menu("m", [cmd("a", (), [P("A")]), cmd("bye", (), [P("B"), dict(t="exit"), P("C")]), cmd("fe", (), [dict(t="feed", b="exit"), dict(t="feed", b="a")]), menu("sub", [cmd("exit", ("int",), [P("E")])])])
    n, k = number(t)
    out = []
    for g in (1, 0):
        for a in (1, 0):
            h = rheader(header(n, k, cfg=dict(genter=g, gexit=g), smax=4), 3, a, a)
            ops = [send(1, x) for x in ("a", ENTER, [4], [255, 255], "exit\r\0", "exit\r\0a\r\0", "bye\r\0a\r\0", "fe\r\0", "sub\r\0", [4, 4, 97, 13, 0], KEYS["up"])] + \
                  [send(2, "a\r\0exit\r\0exit\r\0"), rclose(1, 0), rclose(1, 1), send(1, "a", [4], "a\r\0"), connect(3)]
            out.append(("rexit-%d%d" % (g, a), rscenario(h, ops, 4 if c.thorough else 3, [connect(1), connect(2)], [send(1, "a\r\0"), send(2, "a\r\0"), op("dump"), rclose(2), op("dump")])))
    return out


def rbcasts(c):
    t = menu("m", [cmd("say", (), [dict(t="bcast", b="said\n", how=0)]), cmd("both", (), [P("p"), dict(t="bcast", b="q", how=1)])])
    n, k = number(t)
    h = rheader(header(n, k), 0)
    ops = [connect(1), connect(2), opn(50, 50, 0), opn(51, 50, 0, sick=1), opn(52, 52, 0, sick=7), op("close", 50), op("close", 51, sick=4), op("close", 52), send(1, "say\r\0"), send(2, "both\r\0"), rclose(1), rclose(2, 1),
           send(1, [4]), feed("say", 50), op("bcast", b="x\ny", how=0)]
    tail = [op("bcast", b="b1", how=0), op("bcast", b="c\n2", how=1), op("bcast", b="d3\n", how=2), op("bcast", b="e4", how=3), op("bcast", b="f5g6", how=4)]
    return [("rbroadcast", rscenario(h, ops, 5 if c.thorough else 4, tail=tail, nohist=1))]


# ---------------------------------------------------------------------------
# random behaviours
# ---------------------------------------------------------------------------
def rrand(c, n, modes=("keys", "line", "cut"), eff=("print", "throw", "dis", "en"), ops=(), ko=None, color=(0,), wkw=None, **kw):
    r = c.rnd
    st = []
    for _ in range(n):
        w = World(r, list(eff), **dict(dict(maxnodes=10, removable=False), **(wkw or {})))
        keyopts = {k: r.choice(v) if isinstance(v, (list, tuple)) else v for k, v in (ko or {}).items()}
        k = dict(clients=2, hmax=(0, 1, 2, 5, 100), cfg={x: int(r.random() < .6) for x in CFG})
        k.update(kw)
        st.append(remote_trace(r, w, r.randint(15, 50), mode=r.choice(modes), ops=list(ops), color=r.choice(color), keyopts=keyopts, **k))
    return st


def net(c, flags=(), out=None):
    return c.build("netdrv.cpp", flags, out=out)


def boost(c):
    return c.build("netdrv.cpp", ["-DBOOST"], ["-lboost_system"], out="netdrvb")


def C08(c):
    exe = net(c)
    run_remote(c, exe, tabbing(c))
    c.conform(exe, rrand(c, per(c, 250, 5000), ko=dict(edit=.05, tab=(.1, .3)), hmax=(0, 100), eff=("print", "dis", "en"), ops=("en", "dis", "rm"), wkw=dict(maxnodes=18, removable=True)), **TR)


def C10(c):
    exe = net(c)
    run_remote(c, exe, browsing(c))
    c.conform(exe, rrand(c, per(c, 250, 5000), ko=dict(edit=.1, hist=(.1, .3)), eff=("print", "feed"), store=("p", "ab", "q r"), clients=1), **TR)


def C13(c):
    exe = net(c)
    c.conform(exe, rrand(c, per(c, 250, 4000), eff=("throw", "throw", "print", "feed"), ko=dict(edit=0)), **TR)


def C14(c):
    exe = net(c)
    run_remote(c, exe, rexits(c))
    c.conform(exe, rrand(c, per(c, 250, 5000), eff=("exit", "exit", "print", "feed", "throw"), exits=.12, ko=dict(edit=.02), ops=("dump", "plain", "pfeed")), **TR)


def C15(c):
    exe = net(c)
    run_remote(c, exe, editing(c))
    c.conform(exe, rrand(c, per(c, 400, 8000), ko=dict(edit=(.1, .3, .6), anybyte=(0, .1)), clients=1), **TR)
    c.conform(exe, [long_trace(c.rnd, 60) for _ in range(per(c, 20, 200))], **TR)


SCREEN_FAULTS = ["back", "left", "return", "stale", "shorter", "column", "again"]


def screen_model(c):
    """The redrawing as designed keeps the screen right; with each known mistake it does not."""
    for color in "01":
        c.model("screen-color" + color, "MCScreen.tla", "MCScreen.cfg", {"LEN": "5" if c.thorough else "3", "FAULT": "", "COLOR": color}, 4)

    def refuted(f):
        r = c.tlc("MCScreen.tla", "MCScreen.cfg", {"LEN": "3", "FAULT": f, "COLOR": "1"})
        if "is violated" not in r["out"]:
            raise CheckError("model screen does not refute the fault %s\n%s" % (f, r["out"][-2000:]))
    list(c.pool.map(refuted, SCREEN_FAULTS))
    c.extra["faulty_models_refuted"] = SCREEN_FAULTS


def C16(c):
    screen_model(c)
    exe = net(c)
    run_remote(c, exe, screens(c))
    c.conform(exe, rrand(c, per(c, 400, 8000), modes=("keys",), ko=dict(edit=(.1, .3), hist=.05, tab=(0, .1), clear=(0, .05)), color=(0, 1), clients=1, hmax=(0, 2, 100)), **TR)
    c.conform(exe, [long_trace(c.rnd, 60, 400, c.rnd.randint(0, 1)) for _ in range(per(c, 20, 200))], **TR)


def C17(c):
    exe = net(c)
    run_remote(c, exe, telnetbytes(c, c.thorough) + telnetseqs(c))
    c.conform(exe, rrand(c, per(c, 500, 8000), modes=("keys", "cut", "cut"), ko=dict(edit=.05, iac=(.1, .3), weirds=(0, .05)), eff=("print", "throw")), **TR)


def C18(c):
    exe = net(c)
    run_remote(c, exe, telnetbytes(c))
    c.conform(exe, rrand(c, per(c, 300, 8000), modes=("keys", "cut"), ko=dict(edit=.1, weirds=(.1, .3), anybyte=(0, .1), tab=.03, hist=.03), eff=("print",), clients=1), **TR)


def C21(c):
    exe = net(c, ["-fsanitize=address"])
    run_remote(c, exe, clients(c))
    kw = dict(clients=4, conn=.08, close=.05, ops=("bcast", "en", "dis"))
    c.conform(exe, rrand(c, per(c, 250, 4000), eff=("print", "bcast", "throw", "dis"), ab=.15, ko=dict(weirds=(0, .1), iac=(0, .1), hist=.03, tab=.03), **kw), **TR)
    c.conform(exe, rrand(c, per(c, 250, 4000), eff=("print", "bcast", "exit", "throw", "feed"), exits=.08, ko=dict(weirds=(0, .1), iac=(0, .1), hist=.03, tab=.03), **kw), **TR)
    # the same server over boost
    exe = boost(c)
    c.conform(exe, rrand(c, per(c, 100, 2000), eff=("print", "bcast", "throw", "dis"), ab=.15, ko=dict(weirds=(0, .1), iac=(0, .1), hist=.03, tab=.03), **kw), **TR)


def C22(c):
    exe = net(c, ["-fsanitize=address"])
    run_remote(c, exe, rbcasts(c))
    c.conform(exe, rrand(c, per(c, 200, 4000), eff=("bcast", "bcast", "print"), clients=4, conn=.1, close=.06, exits=.05, ops=("bcast", "bcast", "plain", "pfeed"), ko=dict(edit=0)), **TR)


BIG = "".join(chr(33 + (7 * i + i // 94) % 94) for i in range(997)) + "\n"


def C25(c):
    c.model("encode", "MCEncode.tla", "MCEncode.cfg", {"LEN": "8" if c.thorough else "6"}, 4)
    exe = net(c)
    r = c.rnd
    c.conform(exe, rrand(c, per(c, 200, 4000), eff=("print", "print", "bcast"), ko=dict(edit=0), ops=("bcast", "plain"), clients=3, color=(0, 1)), **TR)
    # sizes around those of buffers, and far beyond what a connection takes at once
    sizes = [0, 1, 2, 63, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193]
    st = []
    for how in range(8):
        effs = []
        for i, n in enumerate(sizes):
            body = [(11 * j + n) % 254 + 1 for j in range(n)] if i % 2 else B((BIG * (n // 500 + 1))[:n])
            effs.append(cmd("s%d" % n, (), [dict(t="print", b=[233 if x == 255 else x for x in body], how=how), P("<end>", how % 4)]))
        effs.append(cmd("nl", (), [P("\n" * 700, how)]))
        effs.append(cmd("crnl", (), [P("\r\n\n\r" * 200, how)]))
        n, k = number(menu("m", effs))
        h = rheader(header(n, k))
        ls = [bytes(e["name"]).decode() for e in n[1:]]
        steps = [connect(1), connect(2)]
        for l in r.sample(ls, len(ls)):
            q = r.choice([1, 2])
            steps += [send(q, l), send(q, ENTER)]
        st.append(dict(h, steps=steps))
    c.conform(exe, st, sample=False, **TR)
    big = []
    for how in (0, 5, 6, 3, 7):
        for rep in ((80, 300) if not c.thorough else (80, 300, 1500)):
            n, k = number(menu("m", [cmd("big", (), [dict(t="print", b=B(BIG), how=how, rep=rep), P("<end>")]), cmd("a", (), [P("A")])]))
            h = rheader(header(n, k), sndbuf=r.choice([2048, 8192, 65536]), rcvbuf=r.choice([2048, 8192, 65536]), big=1)
            big.append(dict(h, steps=[connect(1), connect(2), send(1, "big"), send(1, ENTER), send(2, "a"), send(2, ENTER), send(1, "a"), send(1, ENTER)]))
    c.conform(exe, big, sample=False, **TR)


def kinds_trace(r, w, color=0):
    """The same lines given to every kind of session."""
    lines = [w.line() for _ in range(r.randint(3, 10))]
    lines = [l.replace("\n", " ").replace("\xff", "y") for l in lines]
    lines = [l for l in lines if all(31 < ord(ch) < 127 or ord(ch) > 127 or ch == "\t" for ch in l)]
    return lines


ODD = ["\r", "\r", "\x00", "\x04", "\x08", "\x0c", "\x1b", "\x1b[A", "\x7f", "\xff", "\xff\xff", "\x1a", "\t", "\\"]


def kinds_stimuli(r, h, lines, last, st, fs):
    # bytes that are keys only in interactive sessions
    plain = list(lines)
    if r.random() < .5:
        for i, l in enumerate(plain):
            if r.random() < .6:
                k = r.choice([len(l), len(l), 0, r.randint(0, len(l))])
                plain[i] = l[:k] + r.choice(ODD) + l[k:]
    typed = lines
    # history size 1: that of file and asynchronous sessions
    for kind in ("plain", "async", "remote", "file"):
        lines = typed if kind == "remote" else plain
        if kind == "file":
            fs.append(dict(h, steps=[opn(1, 1, 1, "file", 0, 0), dict(op="file", s=1, b=B("".join(l + "\n" for l in lines + last))), op("dump")]))
        elif kind == "plain":
            steps = [opn(1, 1, 1), op("enter", 1), op("prompt", 1)]
            for l in lines + last:
                steps += [feed(l), op("prompt", 1)]
            fs.append(dict(h, steps=steps + [op("exit", 1), op("dump")]))
        elif kind == "async":
            steps = [op("aopen", 60, stream=60)]
            if r.random() < .5:
                steps.append(op("aexit", 60))
            for l in lines + last:
                steps.append(dict(op="asend", s=60, parts=cut(r, B(l + "\n"))))
            if r.random() < .5:
                steps = steps[:1] + [dict(op="asend", s=60, parts=cut(r, B("".join(l + "\n" for l in lines + last))))]
            st.append(dict(rheader(h), steps=steps + [op("exit", 60), op("dump")]))
        else:
            steps = [connect(1)]
            if r.random() < .6:
                for l in lines + last:
                    q = [b for k in keys_of(r, l.replace("\t", " "), edit=0) for b in k]
                    if q:
                        steps.append(send(1, *cut(r, q)))
                    steps.append(send(1, *cut(r, list(KEYS[r.choice(["enter", "enterlf"])]))))
            else:
                q = [b for l in lines + last for k in keys_of(r, l.replace("\t", " "), edit=0) + [KEYS[r.choice(["enter", "enterlf"])]] for b in k]
                steps.append(send(1, *cut(r, q)))
            st.append(dict(rheader(h, r.choice([1, 1, 3, 100])), steps=steps + [send(1, [4]), op("dump")]))


def kinds_model(c):
    t = menu("m", [cmd("a", ("int",), [P("A\n")]), cmd("boom", (), [dict(t="throw", kind=0, std=1, b="x")]), menu("sub", [cmd("b", ("string",), [P("SB")]), menu("deep", [cmd("a")])]),
                   cmd("bye", (), [dict(t="exit"), P("B")]), cmd("fe", (), [dict(t="feed", b="sub")])])
    out = []
    for cfg in (dict(), dict(wrong=1, exc=1, genter=1, gexit=1)):
        n, k = number(t)
        h = rheader(header(n, k, ["p"], 5, cfg), 1)
        lines = ["a 1", "a x", "sub", "deep", "..", "b 'x y'", "boom", "nosuch", "", "!0", "!1", "history", "help", "exit", "bye", "fe", " sub  deep a"]
        p = c.path("scen.json")
        with open(p, "w") as f:
            json.dump(dict(h, lines=[B(l) for l in lines], depth=4 if c.thorough else 3, emit=1), f)
        r = c.model("kinds", "MCKinds.tla", "MCKinds.cfg", {"SCEN": p}, 4)
        hs = histories(r["out"])
        if not c.thorough:
            hs = c.rnd.sample(hs, 150)
        out += [({x: h[x] for x in h if x not in ("hmax", "senter", "sexit", "color")}, [lines[i - 1] for i in x]) for x in hs]
    return out


def C26(c):
    exe = net(c)
    exec2 = c.build("clidrv.cpp")
    r = c.rnd
    st, fs = [], []
    for h, lines in kinds_model(c):
        kinds_stimuli(r, h, lines, [], st, fs)
    for _ in range(per(c, 250, 4000)):
        w = World(r, ["print", "throw", "feed", "dis", "en", "exit"] if r.random() < .3 else ["print", "throw", "feed", "dis", "en"], maxnodes=12, removable=False)
        for d in w.nodes:
            for e in d["eff"]:
                if "b" in e:
                    e["b"] = [233 if x == 255 else x for x in e["b"]]
        cfg = {x: int(r.random() < .5) for x in CFG}
        pre = [r.choice(["p", "q"]) for _ in range(r.randint(0, 2))]
        lines = kinds_trace(r, w)
        data = "".join(l + "\n" for l in lines)
        h = header(w.nodes, w.kids, pre, 1000, cfg)
        last = r.choice([[], ["exit"], ["history"]])
        kinds_stimuli(r, h, lines, last, st, fs)
    c.conform(exec2, fs)
    c.conform(exe, st, **TR)
    exe = boost(c)
    c.conform(exe, st[:per(c, 60, 1000)], sample=False, **TR)
