"""Stimuli for the remote family: connections, keys, telnet commands, packets."""
from vf import text as B
from cligen import *

KEYS = dict(enter=[13, 0], enterlf=[13, 10], bs=[127], bs8=[8], tab=[9], clear=[12], eof=[4], up=[27, 91, 65], down=[27, 91, 66], right=[27, 91, 67],
            left=[27, 91, 68], end=[27, 91, 70], home=[27, 91, 72], delete=[27, 91, 51, 126])
EDITS = ["bs", "bs8", "right", "left", "end", "home", "delete"]


def rheader(h, hmax=100, senter=0, sexit=0, color=0, **k):
    return dict(h, hmax=hmax, senter=senter, sexit=sexit, color=color, **k)


def connect(c, starved=0):
    return dict(op="connect", c=c, starved=starved)


def send(c, *parts):
    return dict(op="send", c=c, parts=[B(p) for p in parts])


def rclose(c, how=0):
    return dict(op="rclose", c=c, how=how)


def abort(c, data, how=0, polls=0):
    return dict(op="abort", c=c, parts=[B(data)], how=how, polls=polls)


def cut(r, data, pieces=None):
    """The bytes cut into packets."""
    k = r.random()
    if k < .3 or len(data) < 2:
        return [data]
    if k < .5:
        return [[b] for b in data]
    n = r.randint(1, min(4, len(data) - 1))
    at = sorted(r.sample(range(1, len(data)), n))
    return [data[i:j] for i, j in zip([0] + at, at + [len(data)])]


def telnet(r):
    """A telnet command, an option request or a subnegotiation."""
    k = r.random()
    if k < .25:
        return [255, r.randint(241, 249)]
    if k < .7:
        return [255, r.randint(251, 254), r.choice([0, 1, 3, 24, 31, 32, 34, 39, r.randint(0, 254)])]
    body = []
    for _ in range(r.randint(0, 8)):
        x = r.choice([0, 1, 13, 10, 65, 9, 4, 27, 127, 240, 250, r.randint(0, 255)])
        body += [255, 255] if x == 255 else [x]
    return [255, 250, r.choice([24, 31, 34, 39])] + body + [255, 240]


def weird(r):
    """A sequence that is no key."""
    k = r.random()
    if k < .35:
        return [27, r.choice([97, 79, 0, 13, 27, 9, 127, 4, 12, r.choice([x for x in range(0, 255) if x != 91])])]
    if k < .75:
        x = r.choice([69, 71, 90, 49, 50, 52, 0, 13, 27, 9, 127, 91, 126, r.choice([y for y in range(0, 255) if y not in (51, 65, 66, 67, 68, 70, 72)])])
        return [27, 91, x, r.choice([126, 65, 97, 13, 0, 27, 9, 127, 4, r.randint(0, 254)])]
    if k < .85:
        return [27, 91, 51, r.choice([97, 65, 13, 0, 27, 9, 127, 4, r.choice([y for y in range(0, 255) if y != 126])])]
    return [13, r.choice([13, 97, 27, 9, 127, 4, 12, 32, r.choice([y for y in range(1, 255) if y != 10])])]


def keys_of(r, text, edit=.15, weirds=0, iac=0, hist=0, tab=0, clear=0, anybyte=0):
    """A line as typed: its characters with editing in between; a list of keys (byte lists)."""
    out = []
    for b in B(text):
        while r.random() < edit:
            k = r.choice(EDITS + ["left", "home"])
            out.append(KEYS[k])
            if r.random() < .5:
                out.append([r.choice([97, 98, 32, 46, 120, 39])])
        if r.random() < weirds:
            out.append(weird(r))
        if r.random() < iac:
            out.append(telnet(r))
        if r.random() < iac * .3:
            out.append([27, 255, 255] if r.random() < .5 else [27, 91, 50, 255, 255])
        if r.random() < hist:
            out += [KEYS[r.choice(["up", "up", "down"])] for _ in range(r.randint(1, 3))]
        if r.random() < tab:
            out.append([9])
        if r.random() < clear:
            out.append([12])
        if r.random() < anybyte:
            out.append([r.choice([x for x in range(1, 255) if x not in (4, 13, 27)])])
        if b == 255:
            out.append([255, 255])
        elif b == 13:
            out.append([13, 0])
        else:
            out.append([b])
    return out


def remote_trace(r, w, nops, clients=2, hmax=(100,), mode="keys", cfg=None, conn=.05, close=.03, ab=0, ops=None, color=0, acts=True, exits=.03, store=(), keyopts=None,
                 enterlf=.3, paste=.1, plain=False, storage=None, big=None):
    """A random behaviour of clients of one server.
    mode: "keys" one key per step, "line" a line (with the Enter in a step of its own), "cut" packets cut anywhere."""
    ko = dict(edit=.1)
    ko.update(keyopts or {})
    h = header(w.nodes, w.kids, store, 1000, cfg, storage or ("none" if ab else "volatile"))
    h = rheader(h, r.choice(hmax), int(acts and r.random() < .5), int(acts and r.random() < .5), color)
    steps, live, nextc = [], [], [1]
    dead = []
    sess = []

    for d in w.nodes:   # a 255 a handler writes is not doubled: not to be mixed with telnet commands
        for e in d["eff"]:
            if "b" in e:
                e["b"] = [233 if x == 255 else x for x in e["b"]]

    def conn1():
        c = nextc[0]
        nextc[0] += 1
        # starved: for a while the server has no file descriptor for the client
        steps.append(connect(c, r.randint(1, 20) if ab and r.random() < .15 else 0))
        live.append(c)

    conn1()
    while len(steps) < nops:
        if len(live) < clients and r.random() < (conn if live else .9):
            conn1()
            continue
        if not live:
            if dead and r.random() < .3:
                steps.append(send(r.choice(dead), "a\r\0"))
            continue
        c = r.choice(live)
        x = r.random()
        if x < close:
            steps.append(rclose(c, r.randint(0, 2)))
            live.remove(c)
            continue
        if ab and r.random() < .04:
            steps.append(dict(op="flash", n=r.randint(1, 3), how=r.randint(0, 2), polls=r.randint(0, 3), b=B(r.choice(["", "", "ab", "a\x1b[", "\xff\xfd"]))))
            continue
        if x < close + ab:
            data = []
            for _ in range(r.randint(0, 4)):
                k = r.random()
                data += B(r.choice([x for x in [w.nm(n) for n in range(2, len(w.nodes) + 1)] if x != "exit"] + ["x"])) if k < .4 else KEYS[r.choice(EDITS + ["up", "down", "tab", "enter", "enter", "enter"])] if k < .8 else weird(r) if k < .9 else telnet(r)
            if r.random() < .3:
                data += r.choice([[27], [27, 91], [27, 91, 51], [13], [255], [255, 253], [255, 250, 24, 1], [255, 250, 24, 255]])
            steps.append(abort(c, data, r.choice([0, 1]), r.randint(0, 6)))
            live.remove(c)
            continue
        if x < close + ab + exits:
            if r.random() < .5:
                steps.append(send(c, KEYS["eof"]))
            else:
                steps.append(send(c, "exit"))
                steps.append(send(c, KEYS["enter"]))
            if r.random() < .3:
                steps.append(send(c, "a\r\0"))
            # the line being typed may make it something else: the specification knows
            if r.random() < .5:
                dead.append(c)
                live.remove(c)
                steps.append(rclose(c, 0))
            continue
        if ops and r.random() < .15:
            o = r.choice(ops)
            if o == "bcast":
                steps.append(op(o, b=w.word().replace("\xff", "\xe9"), how=r.randint(0, 4)))
            elif o in ("en", "dis") and w.attached:
                steps.append(op(o, n=r.choice(w.attached)))
            elif o == "rm" and w.removable:
                steps.append(op(o, n=r.choice(w.removable)))
            elif o == "dump" and h["storage"] != "none":
                steps.append(op(o))
            elif o == "plain":
                if sess and r.random() < .4:
                    steps.append(op("close", sess.pop(), **sick(r)))
                elif len(sess) < 3:
                    s = 50 + nextc[0]
                    nextc[0] += 1
                    steps.append(opn(s, r.choice([s, 50]), 100, **sick(r)))
                    sess.append(s)
            elif o == "pfeed" and sess:
                steps.append(feed(w.line(), r.choice(sess)))
            continue
        line = big(r) if big and r.random() < .3 else w.line()
        ks = keys_of(r, line, **ko)
        ent = KEYS["enterlf" if r.random() < enterlf else "enter"]
        if mode == "keys":
            steps += [send(c, k) for k in ks] + [send(c, ent)]
        elif mode == "line":
            flat = [b for k in ks for b in k]
            if flat:
                steps.append(send(c, *cut(r, flat)))
            steps.append(send(c, *cut(r, list(ent))))
        else:
            flat = [b for k in ks for b in k] + list(ent)
            while r.random() < paste:
                flat += [b for k in keys_of(r, w.line(), **ko) for b in k] + list(ent)
            steps.append(send(c, *cut(r, flat)))
    return dict(h, steps=steps)


def long_trace(r, ops, longest=600, color=0):
    """One client that edits lines much longer than a screen."""
    nodes, kids = number(menu("m", [cmd("a", ()), free("b")]))
    h = rheader(header(nodes, kids, (), 1000, dict(wrong=1), "volatile"), 100, 0, 0, color)
    steps = [connect(1)]
    while len(steps) < ops:
        n = r.choice([r.randint(20, 90), r.randint(60, 300), r.randint(100, longest)])
        t = [r.choice(B("abc xyz.,'\"\\") if r.random() < .3 else list(range(33, 127))) for _ in range(n)]
        if t[0] == 33:
            t[0] = 97
        while t:
            k = r.randint(1, 700)
            steps.append(send(1, t[:k]))
            t = t[k:]
        for _ in range(r.randint(1, 12)):
            # somewhere in the line: from its begin, its end or from where it is
            x = r.random()
            if x < .3:
                steps.append(send(1, KEYS[r.choice(["home", "end"])]))
            elif x < .4:
                steps.append(send(1, KEYS[r.choice(["up", "up", "down"])]))
            k = r.choice([r.randint(0, 3), r.randint(0, 40), r.randint(0, 150)])
            if k:
                steps.append(send(1, KEYS[r.choice(["left", "left", "right"])] * k))
            for _ in range(r.randint(0, 4)):
                y = r.choice(["bs", "delete", "bs8", "", "", "clear"] if r.random() < .8 else ["left", "right"])
                steps.append(send(1, KEYS[y] if y else [r.randint(33, 126)]))
        steps.append(send(1, KEYS[r.choice(["enter", "enterlf"])]))
    return dict(h, steps=steps)
