"""Stimuli for the command line core: scenarios for the bounded models and
seeded random worlds and operation sequences.  Nothing here says what the code
should do: the specification does."""
from vf import text as B

CFG = dict(wrong=0, exc=0, genter=0, gexit=0)


def cmd(name, params=(), eff=(), desc="", pdesc=(), ins=0):
    return dict(kind="cmd", name=name, params=list(params), eff=list(eff), desc=desc or ("d:" + name if isinstance(name, str) else "d"), pdesc=list(pdesc), ins=ins)


def free(name, eff=(), desc="", pdesc=(), ins=0):
    return dict(kind="free", name=name, params=[], eff=list(eff), desc=desc or "d", pdesc=list(pdesc), ins=ins)


def menu(name, kids=(), prompt=None, desc="(menu)", late=0):
    return dict(kind="menu", name=name, prompt=name if prompt is None else prompt, desc=desc, sub=list(kids), late=late)


def number(root, loose=()):
    """Numbers the nodes of a tree depth first; loose nodes are not inserted anywhere yet."""
    nodes, kids = [], []

    def add(t):
        n = len(nodes) + 1
        d = {k: v for k, v in t.items() if k != "sub"}
        d["name"] = B(d["name"])
        d["desc"] = B(d["desc"])
        d["prompt"] = B(d.get("prompt", ""))
        d["pdesc"] = [B(x) for x in d.get("pdesc", [])]
        d.setdefault("params", [])
        d["eff"] = [dict(e, b=B(e["b"])) if "b" in e else e for e in d.get("eff", [])]
        nodes.append(d)
        kids.append([])
        t["n"] = n
        for s in t.get("sub", []):
            kids[n - 1].append(add(s))
        return n

    add(root)
    for t in loose:
        add(t)
    return nodes, kids


def header(nodes, kids, store=(), smax=1000, cfg=None, storage="volatile"):
    return dict(nodes=nodes, kids=kids, store=[B(x) for x in store], smax=smax, cfg=dict(CFG, **(cfg or {})), storage=storage)


def feed(line, s=1):
    return dict(op="feed", s=s, b=B(line))


def op(name, s=None, **k):
    d = dict(op=name)
    if s is not None:
        d["s"] = s
    for a, v in k.items():
        d[a] = B(v) if a == "b" else [B(x) for x in v] if a == "l" else v
    return d


def opn(s=1, stream=None, hmax=100, kind="plain", aenter=0, aexit=0, **k):
    return dict(op="open", s=s, stream=stream or s, hmax=hmax, kind=kind, aenter=aenter, aexit=aexit, **k)


def sick(r):
    """The error flags of the stream while an operation is done: what it does must not depend on them."""
    return dict(sick=r.choice([1, 2, 4, 7])) if r.random() < .2 else {}


def scenario(hdr, ops, depth, prefix=(), tail=(), nohist=0):
    return dict(hdr, ops=list(ops), depth=depth, emit=1, prefix=list(prefix), tail=list(tail), nohist=nohist)


def stimuli_of(scen, histories):
    hdr = {k: scen[k] for k in ("nodes", "kids", "store", "smax", "cfg", "storage")}
    return [dict(hdr, steps=scen["prefix"] + [scen["ops"][i - 1] for i in h] + scen["tail"]) for h in histories]


# ---------------------------------------------------------------------------
# random worlds
# ---------------------------------------------------------------------------
PARAMS = [(), ("int",), ("string",), ("bool",), ("char",), ("uint",), ("string", "string"), ("int", "int"), ("int", "string"),
          ("string", "int"), ("bool", "char"), ("int", "string", "int"), ("string", "string", "string")]
# more parameter types, for drivers built with them
ALLTYPES = ["schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "bool", "char", "string", "float", "double", "ldouble", "user"]
ALLPARAMS = PARAMS + [x for t in ALLTYPES for x in ((t,), (t, "string"), ("string", t), ("int", t, "char"))]
NAMES = ["a", "ab", "abc", "b", "bar", "x", "sub", "su", "menu", "help", "exit", "run", "..", "hello", "he", "1", "-1", "A", "!", "a b"]


class World:
    """A random world: tree, effects and the lines worth typing in it."""

    def __init__(self, rnd, effects=(), maxnodes=14, sessions=1, globals_shadow=True, removable=True, loose=True, names=None, params=PARAMS):
        self.r = rnd
        r = rnd
        self.effects = list(effects)
        self.names = names or r.sample(NAMES, r.randint(4, 9))
        self.count = 1
        self.params = params
        self.feedname = None
        depth = r.randint(1, 3)
        root = menu(r.choice(["cli", "root", "r"]), prompt=r.choice([None, "PS"]), desc="(root)")
        self._fill(root, depth, maxnodes)
        self.loose = []
        if loose:
            for _ in range(r.randint(0, 2)):
                self.loose.append(menu(self._name(), late=0) if r.random() < .3 else self._cmd())
        self.nodes, self.kids = number(root, self.loose)
        self.parent = {k: m + 1 for m, ks in enumerate(self.kids) for k in ks}
        self.menus = [i + 1 for i, d in enumerate(self.nodes) if d["kind"] == "menu"]
        self.attached = [n for n in range(2, len(self.nodes) + 1) if n in self.parent]
        self.unattached = [n for n in range(2, len(self.nodes) + 1) if n not in self.parent]
        # nodes that may be removed in this behaviour; menus below them are never insertion targets
        self.removable = [n for n in self.attached if r.random() < .35] if removable else []
        # commands that remove themselves and menus they are in
        suicidal = [n for n in self.attached if self.nodes[n - 1]["kind"] != "menu" and r.random() < .12] if removable and "rm" in self.effects else []
        self.removable += [x for n in suicidal for x in self._up(n) if x != 1 and x not in self.removable]
        self.targets = [m for m in self.menus if m not in self.unattached and not any(x in self.removable for x in self._up(m))]
        for d in self.nodes:
            if d["kind"] != "menu":
                d["eff"] = self._effects(d)
        for n in suicidal:
            up = [x for x in self._up(n) if x != 1]
            r.shuffle(up)
            if r.random() < .3:
                up = up[:r.randint(1, len(up))]
            self.nodes[n - 1]["eff"] = [dict(t=r.choice(("rm", "rm", "rm", "dis", "en")), n=x) for x in up + r.sample(up, r.randint(0, 1))] + self.nodes[n - 1]["eff"]

    def _up(self, n):
        u = [n]
        while u[-1] in self.parent:
            u.append(self.parent[u[-1]])
        return u

    def _name(self):
        r = self.r
        return r.choice(self.names)

    def _cmd(self):
        r = self.r
        pd = ["p%d" % i for i in range(r.randint(0, 3))] if r.random() < .3 else []
        if r.random() < .2:
            return free(self._name(), pdesc=pd, ins=r.randint(0, 5), desc=r.choice(["", "free"]))
        return cmd(self._name(), r.choice(self.params), pdesc=pd, ins=r.choice([0, 0, 1, 2, 2, 3, 4, 5]), desc=r.choice(["", "does something"]))

    def _fill(self, m, depth, maxnodes):
        r = self.r
        for _ in range(r.randint(1, 4)):
            if self.count >= maxnodes:
                return
            self.count += 1
            if depth > 0 and r.random() < .4:
                s = menu(self._name(), prompt=r.choice([None, None, "P%d" % self.count]), late=r.randint(0, 1), desc=r.choice(["(menu)", "x"]))
                self._fill(s, depth - 1, maxnodes)
            else:
                s = self._cmd()
            m["sub"].append(s)

    def _effects(self, d):
        r = self.r
        out = []
        n = r.choice([0, 0, 1, 1, 2, 3]) if self.effects else r.choice([0, 1])
        for _ in range(n):
            k = r.choice(self.effects or ["print"])
            if k == "print":
                out.append(dict(t="print", b=B(self.word() + r.choice(["", "\n", " ", "\r\n", "\x00"])), how=r.choice([0, 1, 2, 3, 4, 8, 9])))
            elif k in ("en", "dis") and self.attached:
                out.append(dict(t=k, n=r.choice(self.attached)))
            elif k == "rm" and self.removable:
                out.append(dict(t=k, n=r.choice(self.removable)))
            elif k == "ins" and self.unattached and self.targets:
                out.append(dict(t=k, n=r.choice(self.unattached), m=r.choice(self.targets)))
            elif k == "bcast":
                out.append(dict(t=k, b=B(self.word()), how=r.randint(0, 4)))
            elif k == "exit":
                out.append(dict(t=k))
            elif k in ("eat", "break"):
                out.append(dict(t=k))
            elif k == "feed" and self.feedname in (None, bytes(d["name"])):
                if sum(1 for x in self.nodes if x["name"] == d["name"]) > 1:
                    continue
                self.feedname = bytes(d["name"])
                others = [bytes(x["name"]).decode("latin-1") for x in self.nodes if x["name"] != d["name"]]
                out.append(dict(t=k, b=B(r.choice(others + ["help", "exit", "history", "nosuch", "..", "", "'x y'", "!0", "!1", "!7"]))))
            elif k == "throw":
                kind = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13])
                out.append(dict(t=k, kind=kind, std=1 if kind < 10 else 0, b=[-1] if 4 <= kind < 10 else B(self.word() + r.choice(["", "\n", "%s"]))))
                break
        return out

    def word(self):
        r = self.r
        return r.choice(["x", "hello", "w1", "ab cd", "q", "tick", "\xe9\xff", "long" * r.randint(1, 5)])

    def nm(self, n):
        return bytes(self.nodes[n - 1]["name"]).decode("latin-1")

    def quote(self, a):
        r = self.r
        if a and all(c not in " \t\n!'\"\\" for c in a) and r.random() < .9:
            return a
        q = r.choice("'\"")
        return q + "".join("\\" + c if c in (q, "\\") else c for c in a) + q

    def arg(self, t):
        r = self.r
        return {"int": lambda: r.choice(["1", "-5", "007", "2147483647", "2147483648", "x", "1.5", "+3"]),
                "uint": lambda: r.choice(["1", "0", "-1", "4294967295"]),
                "bool": lambda: r.choice(["true", "false", "1", "0", "2", "yes"]),
                "char": lambda: r.choice(["c", "z", "cc", "'"]),
                **{x: (lambda: r.choice(["1", "5", "0", "-1", "300", "x"])) for x in ("schar", "uchar", "short", "ushort", "long", "ulong", "llong", "ullong")},
                **{x: (lambda: r.choice(["1", "5", "0.5", "-1", "x"])) for x in ("float", "double", "ldouble")}, "user": lambda: r.choice(["1u", "5u", "x"])}.get(t, lambda: r.choice(["s", "two words", "5", "!", "a'b", "true"]))()

    def spoil(self, x):
        """Almost the same word."""
        r = self.r
        k = r.randint(0, 8)
        if k == 0:
            return x + r.choice(["\0", "\0\0", "\0" + x, "\0x"])
        if k == 1:
            return x[:-1]
        if k == 2:
            return x + r.choice(["a", "x", " ", "\t", "\n", ".", "\x7f", "\xff", x[-1:]])
        if k == 3:
            return x.swapcase()
        if k == 4:
            return r.choice([" ", "\0", "\t", "_", "\\"]) + x
        if k == 5:
            return "".join(reversed(x))
        if k == 6:
            i = r.randint(0, len(x))
            return x[:i] + r.choice("\0 ax-_'\"\x80") + x[i:]
        if k == 7:
            i = r.randrange(len(x)) if x else 0
            return x[:i] + chr(ord(x[i]) ^ r.choice([1, 32, 128])) + x[i + 1:] if x else "\0"
        return x[1:]

    def line(self, bang=True):
        """A line: mostly something that could mean something here."""
        r = self.r
        p = r.random()
        if bang and p < .06:
            return "!" + r.choice(["", " "]) + str(r.choice([0, 0, 1, 1, 2, 3, 4, 5, 99, "x", "", "00", "4294967295", "4294967296"]))
        if p < .10:
            return r.choice(["", " ", "\t", "help", "history", "help x", "exit x", "nosuch", "..", ".. ..", "'", "''", "help "])
        n = r.choice(range(2, len(self.nodes) + 1)) if len(self.nodes) > 1 else 1
        d = self.nodes[n - 1]
        up = [x for x in self._up(n)[1:-1]]
        parts = [self.nm(n)]
        if d["kind"] == "free":
            parts += [self.arg("string") for _ in range(r.randint(0, 3))]
        elif d["kind"] == "cmd":
            parts += [self.arg(t) if r.random() < .85 else self.arg("string") for t in d["params"]]
            if r.random() < .15:
                parts = parts[:-1] or parts
            elif r.random() < .1:
                parts.append("extra")
        for m in up:
            if r.random() < .55:
                parts.insert(0, self.nm(m))
        if r.random() < .2:
            parts.insert(0, r.choice(["..", self.nm(r.choice(self.menus))]))
        if r.random() < .12:
            i = r.randrange(len(parts))
            parts[i] = self.spoil(parts[i])
        sep = r.choice([" ", " ", " ", "  ", "\t"])
        return r.choice(["", "", "", " "]) + sep.join(self.quote(x) for x in parts) + r.choice(["", "", " "])

    def partial(self):
        """Something to complete."""
        r = self.r
        if r.random() < .15:
            return r.choice(["", " ", "  ", "h", "..", ".", ".. ", "e", "hi", "!"])
        l = self.line(False)
        return l[:r.randint(0, len(l))]


def multiline(r, line):
    """Lines with line feeds and backslashes inside, that a file has to keep apart."""
    x = list(line)
    for _ in range(r.randint(1, 3)):
        x.insert(r.randint(0, len(x)), r.choice(["\n", "\n", "\\", "\\", "\\\n", "\n\n", "\\\\"]))
    return "".join(x) + r.choice(["", "", "\\", "\\\\", "\n", "\\\n"])


def random_trace(rnd, nops, w, ops, sessions=2, streams=None, hist=(100,), cfg=None, store=(), smax=1000, storage="volatile",
                 kinds=("plain",), acts=False, lines=None):
    """A random behaviour; ops is a dict of operation -> weight."""
    r = rnd
    steps, live, others = [], [], []
    nexts = [1]
    pending_ins = list(w.unattached)

    def opens():
        s = nexts[0]
        nexts[0] += 1
        steps.append(opn(s, r.choice(streams) if streams else s, r.choice(hist), "plain", int(acts and r.random() < .5), int(acts and r.random() < .5), **sick(r)))
        live.append(s)
        return s

    for _ in range(r.randint(1, sessions)):
        opens()
        if acts and r.random() < .8:
            steps.append(op("enter", live[-1]))
    names, weights = list(ops), list(ops.values())
    pool = lines
    while len(steps) < nops:
        o = r.choices(names, weights)[0]
        if o == "open":
            if len(live) < sessions:
                if r.choice(kinds) == "other":      # a session of another cli, that is never fed
                    steps.append(opn(nexts[0], r.choice(streams) if streams else nexts[0], 1, "other"))
                    others.append(nexts[0])
                    nexts[0] += 1
                else:
                    opens()
            continue
        if o == "close" and others and r.random() < .4:
            steps.append(op(o, others.pop(r.randrange(len(others))), **sick(r)))
            continue
        if o == "restart":
            if storage == "file" and r.random() < .7 or r.random() < .3:
                steps.append(op("restart", keep=1 if storage == "file" else 0))
                live.clear()
                opens()
                pending_ins = list(w.unattached)
            continue
        if o in ("dump",):
            if storage != "none":
                steps.append(op(o))
            continue
        if o == "xstore":
            if storage != "none":
                steps.append(op(o, l=[r.choice((pool or []) + ["p", "q", "x y"]) for _ in range(r.randint(0, 3))], seen=r.randint(0, 1)))
            continue
        if o == "clear":
            if storage != "none":
                steps.append(op(o))
            continue
        if o in ("en", "dis"):
            if w.attached:
                steps.append(op(o, n=r.choice(w.attached)))
            continue
        if o == "rm":
            if w.removable:
                steps.append(op(o, n=r.choice(w.removable)))
            continue
        if o == "ins":
            if pending_ins and w.targets:
                n = pending_ins.pop()
                steps.append(op(o, n=n, m=r.choice(w.targets)))
            continue
        if o == "bcast":
            steps.append(op(o, b=r.choice([w.word(), "42", "123456789", w.word()]), how=r.choice([0, 1, 2, 3, 4, 8, 9]), sick=r.choice([0, 0, 0, 1, 2, 3])))
            continue
        if not live:
            opens()
            continue
        s = r.choice(live)
        if o == "close":
            steps.append(op(o, s, **sick(r)))
            live.remove(s)
        elif o == "feed":
            steps.append(feed(r.choice(pool) if pool and r.random() < .7 else w.line(), s))
        elif o == "exitline":
            steps.append(feed("exit", s))
        elif o == "comp":
            steps.append(op(o, s, b=w.partial()))
        elif o == "prev":
            steps.append(op(o, s, b=r.choice(pool) if pool and r.random() < .5 else ""))
        elif o == "up":      # browsing the way a terminal does: the line shown comes back
            steps.append(op("prev", s, b=""))
        else:
            steps.append(op(o, s))
    return dict(header(w.nodes, w.kids, store, smax, cfg, storage), steps=steps)
