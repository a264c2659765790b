"""C07-C13: the box model, decided by Boxes."""
import vf

import os
INF = 2000000000
TINY = 4096    # units per point of programs with very small lengths
DEBUG = os.environ.get("DBG")
GLYPHS = {  # coefficients in eighths of the font size
    "a": dict(a=5, w=4, h=4, i=4, x0=0, x1=4, y0=0, y1=4),
    "b": dict(a=5, w=5, h=7, i=6, x0=0, x1=5, y0=-1, y1=6),
    "g": dict(a=4, w=6, h=6, i=3, x0=-1, x1=5, y0=-3, y1=3),
    "_": dict(a=4, w=4, h=1, i=-1, x0=0, x1=4, y0=-2, y1=-1),
    "-": dict(a=6, w=4, h=1, i=4, x0=1, x1=5, y0=3, y1=4),
    " ": dict(a=3, w=0, h=0, i=0, x0=0, x1=0, y0=0, y1=0),
    "^": dict(a=5, w=3, h=2, i=6, x0=1, x1=4, y0=4, y1=6),
    "W": dict(a=8, w=8, h=8, i=5, x0=0, x1=8, y0=-3, y1=5),
}
KERNS = {"a": {"b": -1, "a": -1, "^": 1, "g": 2}, "b": {"a": -2, "W": 1, "b": 0}, "^": {"a": -1, "^": -2},
         "g": {"g": 2, "_": 1}, " ": {"a": 1}, "W": {"W": -1, " ": -1}, "_": {"a": 0}}
for _x in GLYPHS:
    GLYPHS[_x]["sp"] = _x == " "
CHARS = sorted(GLYPHS)
GLUES = ["fil", "fill", "filll", "neg_fil", "neg_fill", "neg_filll", "empty", "ss"]


# (for scaled programs: no amounts that cancel out to almost nothing)
KERNS_SCALED = {x: {y: KERNS[x][y] - (1 if GLYPHS[x]["a"] - GLYPHS[x]["w"] + KERNS[x][y] == 0 else 0)
                    for y in KERNS[x]} for x in KERNS}


def kerns(u):
    return KERNS if u in (1, 16, TINY) else KERNS_SCALED


def base(u, cases=(), **kw):
    d = dict(u=u, den=8, glyphs=GLYPHS, kerns=kerns(u), thick=2, cases=list(cases), palette=[], packs=[], dirs=["h"],
             maxlen=0, z=8 * u, ox=0, oy=0, kern=False, echo=False)
    d.update(kw)
    return d


class Gen:
    """Random programs.  Nodes are referred to by the operation that made
    them."""

    def __init__(self, r, u=16, fine=True):
        self.r, self.u, self.fine = r, u, fine
        self.p = []
        self.kind = {}

    def op(self, kind, **o):
        self.p.append(o)
        self.kind[len(self.p)] = kind
        return len(self.p)

    def amt(self, lo=0, hi=12):
        r = self.r
        if self.u == TINY and r.random() < 0.6:
            return r.randint(max(-40, lo * self.u), min(40, hi * self.u))
        if self.u == 1:
            k = 20000 if r.random() < 0.12 else 200
            return r.randint(lo * k, hi * k)
        if self.fine and r.random() < 0.5:
            return r.randint(lo * self.u, hi * self.u)
        return r.randint(lo, hi) * self.u

    def size(self):
        if self.u == TINY and self.r.random() < 0.6:
            return 8 * self.r.randint(1, 8)
        if self.u == 1:
            return 8 * self.r.randint(1, 200)
        return self.r.choice([8, 8, 8, 16, 4 if self.fine else 8]) * self.u

    def char(self, c=None):
        return self.op("char", o="char", c=c or self.r.choice(CHARS), z=self.size())

    def acc(self):
        return self.op("acc", o="acc", c=self.r.choice(["^", "g", "-", "b"]), z=self.size())

    def box(self):
        r = self.r
        if r.random() < 0.5:
            return self.op("box", o="box", w=self.amt(), h=0, d=0)
        return self.op("box", o="box", w=0, h=self.amt(-2), d=self.amt(-3, 8))

    def rule(self, running=None):
        """running: which dimensions may run ("hd" in h lists, "w" in v)"""
        r = self.r
        x = r.random()
        if running == "hd" and x < 0.45:
            if x < 0.2:
                return self.op("rule", o="vrule", z=16 * self.u)
            h, d = r.choice([(INF, INF), (INF, self.amt()), (self.amt(), INF)])
            return self.op("rule", o="rule", w=self.amt(), h=h, d=d)
        if running == "w" and x < 0.45:
            if x < 0.2:
                return self.op("rule", o="hrule", w=r.choice([-1, 2 * self.u * r.randint(0, 3)]), z=16 * self.u)
            return self.op("rule", o="rule", w=INF, h=self.amt(), d=self.amt(-1))
        return self.op("rule", o="rule", w=self.amt(r.choice([0, -1])), h=self.amt(-2), d=self.amt(-4, 8))

    def kern(self):
        return self.op("kern", o="kern", w=self.amt(-8, 8))

    def glue(self, kinds=GLUES):
        return self.op("glue", o="glue", c=self.r.choice(kinds))

    def auto(self):
        r, u = self.r, self.u
        c = r.choice(["b", "W", "g"])
        if r.random() < 0.5 or u == TINY:
            return self.op("h", o="auto", c=c, z=8 * u, h=self.amt(), d=self.amt(), fn=r.choice([1, 2, 3]), fd=r.choice([1, 2]))
        g = GLYPHS[c]
        tot = g["h"] * r.choice([1, 2, 3]) * u    # a multiple of the natural extent
        h = r.randint(0, tot // u) * u
        return self.op("h", o="auto", c=c, z=8 * u, h=h, d=tot - h, fn=0, fd=1)

    def list(self, t, kids, kern=None):
        r = self.r
        if t == "h":
            cl = r.random() < 0.15    # a SubSuperCluster: a horizontal list like any other
            if r.random() < 0.12:
                return self.op("h", o="hcenter", k=kids, cl=cl)
            return self.op("h", o="hlist", k=kids, kern=r.random() < 0.5 if kern is None else kern, cl=cl)
        if r.random() < 0.12:
            return self.op("v", o="vcenter", k=kids)
        return self.op("v", o="vlist", k=kids)

    def tree(self, t, depth, weights=None, kern=None, share=0.03, inner=None):
        r = self.r
        n = r.choice([0, 1, 2, 2, 3, 3, 4, 5]) if r.random() < 0.95 or depth > 1 else r.choice([9, 14, 20])
        w = dict(char=6, acc=1, box=2, rule=2, kern=2, glue=3, h=2, v=2, auto=0.5)
        w.update(weights or {})
        kids = []
        for _ in range(n):
            names = [x for x in w if w[x] > 0 and (t == "h" or x not in ("char", "acc")) and
                     (depth > 0 or x not in ("h", "v"))]
            x = r.choices(names, [w[y] for y in names])[0]
            if kids and r.random() < share:
                kids.append(r.choice(kids))
            elif x == "char":
                kids.append(self.char())
            elif x == "rule":
                kids.append(self.rule("hd" if t == "h" else "w"))
            elif x in ("h", "v"):
                y = self.tree(x, depth - 1, weights, kern, share, inner)
                kids.append(y)
            else:
                kids.append(getattr(self, x)())
        l = self.list(t, kids, kern)
        if t == "v" and r.random() < 0.4:
            self.op(None, o="shift", n=l, w=self.amt(-6, 6))
        if inner and r.random() < inner:
            self.repack(l)
        return l

    def repack(self, l, add=None):
        r = self.r
        if add is None:
            add = r.random() < 0.5
        lim = r.choice([INF, INF, 0, self.amt(), -self.u])
        if add:
            w = r.choice([0, self.amt(), self.amt(-10, 0), self.amt(-3, 30)])
        else:
            w = r.choice([0, self.amt(0, 30), self.amt(0, 60)])
        self.op(None, o="pack", n=l, w=w, add=add, lim=lim)

    def ship(self, l, x=None, y=None, fresh=True):
        if x is None:
            x, y = self.amt(-5, 30), self.amt(-5, 30)
        self.op(None, o="ship", n=l, x=x, y=y, fresh=fresh)

    def lists(self, t=None):
        return [i for i, k in self.kind.items() if k in ("h", "v") and (t is None or k == t)]


# --------------------------------------------------------------- programs
def prog_dims(r, t, u=16):
    g = Gen(r, u)
    g.tree(t, r.choice([0, 1, 2]), inner=0.4)
    ls = g.lists()
    for _ in range(r.randint(1, 4)):
        l = r.choice(ls)
        g.repack(l)
        if r.random() < 0.2 and g.kind[l] == "v":
            g.op(None, o="shift", n=l, w=g.amt(-6, 6))
    for l in r.sample(ls, min(len(ls), 3)):    # enclosing lists follow
        g.repack(l)
    if r.random() < 0.3:
        g.op(t, o=t + "list", k=[r.choice(ls) for _ in range(r.randint(1, 3))], kern=False)
    return g.p


def prog_glue(r, u=16):
    g = Gen(r, u)
    t = r.choice("hv")
    l = g.tree(t, r.choice([0, 0, 1]), weights=dict(glue=9, auto=0, acc=0))
    root = g.op("h", o="hlist", k=[g.char("a"), l, g.char("b")], kern=False)
    x, y = g.amt(-5, 30), g.amt(-5, 30)
    g.ship(root, x, y)
    for _ in range(r.randint(1, 3)):
        g.repack(r.choice(g.lists()) if r.random() < 0.3 else l)
        g.op(None, o="pack", n=root, w=0, add=True, lim=INF)
        g.ship(root, x, y)
    return g.p


def prog_kern(r, u=16):
    g = Gen(r, u)
    ks = []
    for _ in range(r.choice([0, 1, 2, 3, 4, 6, 8]) if r.random() < 0.93 else r.choice([17, 34, 70])):
        x = r.random()
        ks.append(g.char() if x < 0.55 else g.acc() if x < 0.7 else
                  r.choice([g.box, g.kern, g.glue, g.rule, g.auto])() if x < 0.9 or not ks else r.choice(ks))
    for _ in range(r.choice([1, 1, 2])):
        k = list(ks) if r.random() < 0.6 else [r.choice(ks) for _ in range(len(ks))]
        l = g.op("h", o="hlist", k=k, kern=r.random() < 0.75)
        if r.random() < 0.3:
            g.repack(l)
    if ks and r.random() < 0.4:
        g.op("h", o="hlist", k=[ks[0], l, ks[-1]], kern=True)
    if r.random() < 0.3:
        g.op("h", o="hcenter", k=ks)
    return g.p


def prog_scale(r, u=343000, lo=-3, hi=3):
    g = Gen(r, u, fine=False)
    t = r.choice("hv")
    l = g.tree(t, r.choice([0, 1, 2]), weights=dict(auto=0), share=0)
    if r.random() < 0.6:
        g.repack(l, add=True)
    ks = [g.char() for _ in range(r.randint(0, 3))]
    l2 = g.op("h", o="hlist", k=[l] + ks, kern=False)
    g.op("h", o="hlist", k=ks, kern=True)
    x, y = 0, 0
    g.ship(l2, x, y)
    lev = 0
    for _ in range(r.choice([1, 2, 2, 3, 4, 6])):
        up = r.random() < 0.5
        if lev + (1 if up else -1) not in range(lo, hi + 1):
            up = not up
        lev += 1 if up else -1
        g.op(None, o="grow" if up else "shrink", n=l2)
        if r.random() < 0.5:
            g.ship(l2, x, y)
        if r.random() < 0.3:
            g.op("h", o="hlist", k=ks, kern=True)
        if r.random() < 0.2:
            g.op(None, o="pack", n=l2, w=0, add=True, lim=INF)
    g.ship(l2, x, y)
    return g.p


def prog_draw(r, u=16):
    g = Gen(r, u)
    g_in = dict(glue=2)
    l = g.tree(r.choice("hhv"), r.choice([1, 2, 2, 3, 3, 6]), weights=g_in, kern=None)
    if g.kind[l] == "v":
        l = g.op("h", o="hlist", k=[g.char(), l, g.rule("hd"), g.char()], kern=r.random() < 0.5)
    if r.random() < 0.3:    # over- and underfull lists without glue to take it up
        plain = [i for i in g.lists() if g.p[i - 1]["o"] in ("hlist", "vlist") and
                 all(g.kind[k] != "glue" for k in g.p[i - 1]["k"])]
        for q in plain[:2]:
            g.repack(q)
    g.ship(l)
    return g.p


def prog_again(r, u=16):
    g = Gen(r, u)
    roots = []
    for _ in range(r.choice([1, 2, 2, 3])):
        l = g.tree("h", r.choice([0, 1, 2]), inner=0.3)
        if r.random() < 0.15:
            for _ in range(r.choice([5, 12])):
                l = g.list("v" if g.kind[l] == "h" and r.random() < 0.3 else "h", [l])
            l = g.list("h", [l, g.char()])
        roots.append(l)
    for _ in range(r.randint(2, 6)):
        g.ship(r.choice(roots), fresh=r.random() < 0.4,
               **(dict(x=0, y=0) if r.random() < 0.3 else dict(x=g.amt(-40, 40), y=g.amt(-40, 40))))
    return g.p


# ---------------------------------------------------------------- judging
class Judge:
    def __init__(self, c, u):
        self.c, self.pid, self.u = c, c.pid, u
        self.tol = max(u * 1e-6, 1e-5)
        self.vmode = None    # where rules of vertical lists are painted
        self.stopped = 0

    def num(self, x):
        return INF if x == 1e300 else x * self.u if abs(x) < 1e290 else float("nan")

    def eq(self, a, b):
        return abs(a - b) <= self.tol

    def sight(self, s):
        return dict(w=self.num(s["w"]), h=self.num(s["h"]), d=self.num(s["d"]), k=s["k"] or [],
                    gs=s["gs"], go=s["go"], set=s["gv"] * self.u if abs(s["gv"]) < 1e290 else float("nan"))

    def fields(self, x, y):
        """which fields of spec x and implementation y differ"""
        out = [f for f in "whd" if not self.eq(x[f], y[f])]
        if x["k"] != y["k"]:
            out.append("k")
        if x["gs"] != y["gs"] or (x["gs"] and (x["go"] != y["go"] or abs(x["gn"] / x["gd"] - y["set"]) > self.tol)):
            out.append("glue")
        return out

    def draws(self, ds):
        out = []
        for d in ds:
            if d[0] == "g":
                out.append(dict(t="g", c=d[1], z=d[2] * self.u, x=d[3] * self.u, y=d[4] * self.u, id=d[5],
                                name=d[6], typ=d[7], dpi=d[8]))
            else:
                out.append(dict(t="r", p=[self.num(v) for v in d[2:6]], id=d[6]))
        return out

    def same_draw(self, s, d):
        """spec draw s against implementation draw d: None or what differs"""
        if s[0] != d["t"]:
            return "a %s is drawn instead of a %s" % (d["t"], s[0])
        if s[0] == "g":
            if s[1] != d["c"] or s[5] != d["id"]:
                return "glyph %r of node %d is drawn instead of %r of node %d" % (d["c"], d["id"], s[1], s[5])
            if not (self.eq(s[2], d["z"]) and self.eq(s[3], d["x"]) and self.eq(s[4], d["y"])):
                return "glyph %r of node %d is drawn at %s size %s, expected %s size %s" % \
                    (s[1], s[5], (d["x"], d["y"]), d["z"], (s[3], s[4]), s[2])
            if d["name"] != "n%d" % d["id"] or d["typ"] != "t%d" % d["id"] or d["dpi"] != 100 + d["id"]:
                return "glyph %r of node %d is drawn with font %s %s dpi %s" % (d["c"], d["id"], d["name"], d["typ"], d["dpi"])
            return None
        if s[6] != d["id"]:
            return "rule of node %d is drawn instead of that of node %d" % (d["id"], s[6])
        if all(self.eq(a, b) for a, b in zip(s[2:6], d["p"])):
            mode = "slot"
        elif s[1] == "v" and all(self.eq(a, b) for a, b in zip([s[2], s[5], s[4], 2 * s[5] - s[3]], d["p"])):
            mode = "below"
        else:
            return "rule of node %d is drawn over %s, expected %s" % (s[6], d["p"], s[2:6])
        if s[1] == "v":
            if self.vmode not in (None, mode):
                return "rules of vertical lists are not drawn in consistent places: node %d over %s" % (s[6], d["p"])
            self.vmode = mode
            if mode == "below" and self.pid == "C12":
                self.c.known_finding("vlist-rule-below")
                if not self.c.matches_known("vlist-rule-below"):
                    return "rule of node %d is drawn below its slot" % s[6]
        return None

    def draw_diff(self, sd, idr):
        if len(sd) != len(idr):
            return "%d drawing operations, expected %d" % (len(idr), len(sd))
        for j, (s, d) in enumerate(zip(sd, idr)):
            e = self.same_draw(s, d)
            if e:
                return "drawing operation %d: %s" % (j + 1, e)
        return None

    def moved(self, s1, s2, d1, d2):
        """does the drawing change from d1 to d2 as from s1 to s2?"""
        if len(d1) != len(d2):
            return "%d drawing operations, then %d" % (len(d1), len(d2))
        for j in range(len(d1)):
            a, b = d1[j], d2[j]
            if a["t"] != b["t"] or a["id"] != b["id"]:
                return "drawing operation %d differs" % (j + 1)
            if a["t"] == "g":
                sx = (s2[j][3] - s1[j][3], s2[j][4] - s1[j][4])
                dx = (b["x"] - a["x"], b["y"] - a["y"])
                if a["c"] != b["c"] or not self.eq(a["z"], b["z"]) or a["name"] != b["name"] or a["dpi"] != b["dpi"] or a["typ"] != b["typ"]:
                    return "drawing operation %d draws another glyph" % (j + 1)
            else:
                sx = [s2[j][2 + q] - s1[j][2 + q] for q in range(4)]
                dx = [b["p"][q] - a["p"][q] for q in range(4)]
            if not all(self.eq(p, q) for p, q in zip(sx, dx)):
                return "drawing operation %d (node %d) moved by %s, expected %s" % (j + 1, a["id"], list(dx), list(sx))
        return None

    def run(self, prog, sobs, impl):
        """None, or what violates the property."""
        pid, eq = self.pid, self.eq
        if "crash" in impl or "panic" in impl:
            return "crash: %s" % (impl.get("crash") or impl.get("panic"))
        iobs = impl["obs"]
        S, I, typ = {}, {}, {}
        scaled = loose = False
        first = {}    # node -> (spec, impl) drawing of its last reference output
        old = 0
        for p, op in enumerate(prog):
            if p >= len(iobs):
                return None
            so, io = sobs[p], iobs[p]
            where = "operation %d %s: " % (p + 1, op)
            if io.get("panic"):
                return where + "panic: " + io["panic"]
            ids = set()
            for i, t, s in so["ch"]:
                S[i], typ[i] = s, t
                ids.add(i)
            for i, s in io["ch"]:
                I[i] = self.sight(s)
                ids.add(i)
            target = (sobs[op["n"] - 1]["m"] if op.get("n", 0) > 0 else so["m"] + op["n"]) if "n" in op else so["m"]
            mism = {}
            for i in sorted(ids):
                if i not in S or i not in I:
                    mism[i] = ["node"]
                else:
                    f = self.fields(S[i], I[i])
                    if f:
                        mism[i] = f
            if op["o"] == "ship":    # the width of stacked lists may be that of the enclosing list from now on, or not
                for i in [i for i, f in mism.items() if f == ["w"] and typ.get(i) in ("h", "v")]:
                    loose = True
                    del mism[i]
            elif mism and loose:
                self.stopped += 1
                return None
            dims = {i: [f for f in fs if f != "glue"] for i, fs in mism.items() if fs != ["glue"]}
            o = op["o"]
            build = o in ("hlist", "vlist", "hcenter", "vcenter", "auto")
            desc = lambda i: "node %d (%s) is %s, expected %s" % (i, typ.get(i), I.get(i), S.get(i))

            if pid in ("C07", "C08"):
                t = "h" if pid == "C07" else "v"
                if (build or o == "pack") and typ.get(target) == t:
                    if target in dims and not set(dims[target]) & {"k", "node"} and \
                            not any(k in dims for k in S[target]["k"]):
                        return where + "wrong dimensions: " + desc(target)
                    ch = [i for i in dims if i <= old and i != target]
                    if ch and target not in dims:
                        return where + "packing changed another node: " + desc(ch[0])
                if dims:
                    self.stopped += 1
                    return None
            elif pid == "C09":
                if (build or o == "pack") and "glue" in mism.get(target, []) and target not in dims:
                    return where + "wrong glue setting: " + desc(target)
                if dims and o != "ship":
                    self.stopped += 1
                    return None
                if o == "ship":
                    d = self.draws(io["dr"])
                    if so["tie"]:
                        self.stopped += 1
                    elif target not in first:
                        if len(d) != len(so["dr"]):
                            return None
                        first[target] = (so["dr"], d)
                    else:
                        e = self.moved(first[target][0], so["dr"], first[target][1], d)
                        if e:
                            return where + e
            elif pid == "C10":
                if o in ("hlist", "hcenter", "auto"):
                    if io.get("slice"):
                        return where + io["slice"]
                    if target in dims and "k" in dims[target]:
                        return where + "the list has the children %s, expected %s" % (I[target]["k"], S[target]["k"])
                    for i in dims:
                        if old < i < target and typ.get(i) == "kern" and i in I:
                            return where + "wrong amount of kerning: " + desc(i)
                        if i <= old and i != target:
                            return where + "building a list changed another node: " + desc(i)
                if dims:
                    self.stopped += 1
                    return None
            elif pid == "C11":
                if o in ("shrink", "grow"):
                    scaled = True
                e = None
                if mism:
                    i = sorted(mism)[0]
                    e = desc(i)
                elif o == "ship" and not so["tie"]:
                    e = self.draw_diff(so["dr"], self.draws(io["dr"]))
                if e and scaled:
                    return where + e
                if e:
                    if DEBUG: print(where, e)
                    self.stopped += 1
                    return None
            elif pid == "C12":
                if o == "ship" and not so["tie"]:
                    e = self.draw_diff(so["dr"], self.draws(io["dr"]))
                    if e:
                        return where + e
                if mism:
                    if DEBUG: print(where, mism, desc(sorted(mism)[0]))
                    self.stopped += 1
                    return None
            elif pid == "C13":
                if o == "ship":
                    d = self.draws(io["dr"])
                    if target in first:
                        e = self.moved(first[target][0], so["dr"], first[target][1], d)
                        if e:
                            return where + e
                    elif len(d) == len(so["dr"]):
                        first[target] = (so["dr"], d)
                elif mism:
                    self.stopped += 1
                    return None
            old = max(old, so["m"])
        return None


# ---------------------------------------------------------------- checking
def palette(u, z):
    """items of the enumerated lists: (program, allowed in vertical lists)"""
    P = []

    def it(p, v=True):
        P.append({"p": p, "v": v})
    it([dict(o="char", c="b", z=z)], False)
    it([dict(o="acc", c="^", z=z)], False)
    it([dict(o="box", w=3 * u, h=0, d=0)])
    it([dict(o="rule", w=2 * u, h=5 * u, d=u)])
    it([dict(o="kern", w=-2 * u)])
    it([dict(o="glue", c="fil")])
    it([dict(o="glue", c="ss")])
    it([dict(o="glue", c="filll")])
    it([dict(o="char", c="a", z=z), dict(o="hlist", k=[0], kern=False)])
    it([dict(o="rule", w=4 * u, h=3 * u, d=2 * u), dict(o="vlist", k=[0]), dict(o="shift", n=0, w=3 * u)])
    it([dict(o="hlist", k=[], kern=False)])
    return P


def run(c):
    drv = c.build()
    r = c.rng
    pid = c.pid
    fam = c.cov.setdefault("families", {})

    def check(u, progs, specs, label, judge=None):
        j = judge or Judge(c, u)
        req = {"U": u, "Glyphs": GLYPHS, "Kerns": kerns(u), "Thick": 2}
        res = c.drive(drv, "box", [dict(req, P=p) for p in progs])
        for p, s, im in zip(progs, specs, res):
            c.traces += 1
            e = j.run(p, s, im)
            if e:
                c.violation("%s\n  (%s, lengths in 1/%d pt)" % (e, label, u), {"u": u, "program": p, "spec": s, "impl": im})
            for op, ob in zip(p, s):
                if op["o"] == "pack" and any(x[2]["gs"] for x in ob["ch"]):
                    c.nontrivial.add("glue set")
        fam[label] = fam.get(label, 0) + len(progs)
        if progs:
            m = len(progs) // 2
            c.sample({"family": label, "program": progs[m], "expected": specs[m]})
        c.cov["programs abandoned because of a deviation outside the property"] = \
            c.cov.get("programs abandoned because of a deviation outside the property", 0) + j.stopped
        j.stopped = 0

    def enum(u, label, **kw):
        conf = base(u, echo=True, **kw)
        res = c.tlc_cases("MCBoxes.tla", "BoxEnum.cfg", conf, "BOX_IN")
        check(u, [x["prog"] for x in res], [x["obs"] for x in res], label, main)
        c.log("enumerated", len(res))

    def cases(u, progs, label, judge=None, cfg=None):
        for b in range(0, len(progs), 4000):
            part = progs[b:b + 4000]
            res = {x["i"]: x["obs"] for x in c.tlc_cases("MCBoxes.tla", cfg or "BoxCase.cfg", base(u, part), "BOX_IN")}
            if len(res) != len(part):
                raise vf.Broken("missing results")
            check(u, part, [res[i + 1] for i in range(len(part))], label, judge)
        c.log(label, len(progs))

    U = 16
    main = Judge(c, U)
    z = 8 * U
    pal = palette(U, z)
    ship = dict(o="ship", n=0, x=2 * U, y=-3 * U, fresh=True)

    def pk(w, add, lim=INF, n=0):
        return dict(o="pack", n=n, w=w, add=add, lim=lim)
    N = c.pick(2000, 40000)

    def scales(prog, label, n):
        """the same kind of programs with ordinary, very small and large lengths"""
        cases(U, [prog(r, U) for _ in range(n)], label, main)
        cases(TINY, [prog(r, TINY) for _ in range(n // 4)], label + ", very small lengths", Judge(c, TINY))
        cases(1, [prog(r, 1) for _ in range(n // 4)], label + ", large lengths", Judge(c, 1))
    if pid in ("C07", "C08"):
        t = "h" if pid == "C07" else "v"
        packs = [dict(pre=[pk(7 * U, False), pk(0, True)], post=[]), dict(pre=[pk(5 * U, True, 0)], post=[]),
                 dict(pre=[pk(-9 * U, True, U), pk(100 * U, False, 2 * U)], post=[])]
        enum(U, "all lists of <=%d items of %d kinds" % (c.pick(3, 4), len(pal)), palette=pal, packs=packs, dirs=[t],
             maxlen=c.pick(3, 4), z=z)
        scales(lambda r, u: prog_dims(r, t, u), "generated trees, repeatedly packed", N)
    elif pid == "C09":
        pal = [pal[3]] + [{"p": [dict(o="glue", c=g)], "v": True} for g in GLUES]
        packs = [dict(pre=[], post=[ship, pk(w, True, INF, -3), pk(0, True), ship]) for w in (9 * U + 5, -7 * U - 3)]
        packs.append(dict(pre=[pk(-40 * U, True)], post=[ship, pk(41 * U, False, INF, -3), ship, pk(0, True, INF, -3), ship]))
        for t in "hv":
            enum(U, "all lists of <=%d glues and rules, %s" % (c.pick(3, 4), t), palette=pal, packs=packs, dirs=[t],
                 maxlen=c.pick(3, 4), z=z)
        scales(prog_glue, "generated trees packed to other sizes and output", N)
    elif pid == "C10":
        pal = [{"p": [dict(o="char", c=x, z=z)], "v": False} for x in "abg ^"] + pal[1:5] + pal[8:9]
        enum(U, "all lists of <=%d items, kerned" % c.pick(3, 5), palette=pal, packs=[dict(pre=[], post=[])], dirs=["h"],
             maxlen=c.pick(3, 5), z=z, kern=True)
        enum(U, "all lists of <=%d items, not kerned" % c.pick(3, 4), palette=pal, packs=[dict(pre=[], post=[])], dirs=["h"],
             maxlen=c.pick(3, 4), z=z, kern=False)
        scales(prog_kern, "generated lists", 2 * N)
    elif pid == "C11":
        V = 343000
        mj = main = Judge(c, V)
        zz = 8 * V
        steps = [["shrink"], ["grow"], ["shrink", "shrink", "grow"], ["grow", "shrink"], ["shrink"] * 3 + ["grow"] * 5]
        for t in "hv":
            packs = [dict(pre=[pk(a * V, True)], post=[dict(ship, x=0, y=0)] + [dict(o=x, n=0) for x in st] + [dict(ship, x=0, y=0)])
                     for st in steps for a in (0, 10, -20)]
            enum(V, "all lists of <=2 items, scaled", palette=palette(V, zz), packs=packs, dirs=[t], maxlen=2, z=zz)
        cases(V, [prog_scale(r) for _ in range(N)], "generated trees, scaled by up to three levels each way", mj)
        # many levels in one direction, and back
        for u, a, b, n in ((1000000, "shrink", "grow", 6), (117649, "grow", "shrink", 6)):
            progs = []
            for _ in range(c.pick(60, 600)):
                g = Gen(r, u, fine=False)
                l = g.tree(r.choice("hv"), 1, weights=dict(auto=0), share=0)
                l2 = g.op("h", o="hlist", k=[l, g.op("char", o="char", c="b", z=8 * u)], kern=False)
                progs.append(g.p + [dict(o=a, n=l2)] * n + [dict(o=b, n=l2)] * n)
            progs = [p for p in progs if not any(x["o"] in ("hrule", "vrule") for x in p)]
            cases(u, progs, "six levels of %s and back" % a, Judge(c, u))
        grown(c, drv)
    elif pid == "C12":
        pal = palette(U, z)[:6] + palette(U, z)[8:] + [
            {"p": [dict(o="rule", w=2 * U, h=INF, d=INF)], "v": False},
            {"p": [dict(o="char", c="g", z=z), dict(o="rule", w=U, h=INF, d=INF), dict(o="hlist", k=[-1, 0], kern=True),
                   dict(o="rule", w=INF, h=U, d=U), dict(o="vlist", k=[-1, 0, -1])], "v": True}]
        packs = [dict(pre=[], post=[ship])]
        for t in "hv":
            enum(U, "all lists of <=%d items, %s" % (c.pick(3, 4), t), palette=pal, packs=packs, dirs=[t], maxlen=c.pick(3, 4), z=z)
        scales(prog_draw, "generated trees, output", N)
    elif pid == "C13":
        again = [dict(ship, x=5 * U, y=7 * U), dict(ship, fresh=False), dict(ship, x=-U, y=U, fresh=False), dict(ship, x=5 * U, y=7 * U, fresh=False)]
        packs = [dict(pre=[pk(9 * U + 3, True)], post=again), dict(pre=[pk(-9 * U - 3, True)], post=again[::-1])]
        for t in "hv":
            enum(U, "all lists of <=2 items output four times, %s" % t, palette=palette(U, z), packs=packs, dirs=[t],
                 maxlen=c.pick(2, 3), z=z)
        scales(prog_again, "generated trees, output in turns", N)
    c.cov["deviating sizes covered"] = sorted(c.nontrivial)
    c.assume = ["lengths are of ordinary size (binary floating point is exact or nearly so on the lengths used)",
                "glue displacements exactly half way between two whole units may be rounded either way",
                "the font is linear (the real ones are checked by C20)",
                "lists are not shared between lists that are scaled; no characters in vertical lists; no running widths in "
                "horizontal, or running heights or depths in vertical lists"]


def grown(c, drv):
    """Trees grown seven times and shrunk: the listed finding."""
    u = 823543
    progs = []
    mk = [[dict(o="char", c="b", z=8 * u)], [dict(o="box", w=3 * u, h=0, d=0)], [dict(o="rule", w=u, h=2 * u, d=u)],
          [dict(o="kern", w=5 * u)], [dict(o="kern", w=2 * u), dict(o="hlist", k=[0], kern=False)],
          [dict(o="box", w=0, h=u, d=u), dict(o="vlist", k=[0])]]
    for m in mk:
        progs.append(m + [dict(o="grow", n=0)] * 7 + [dict(o="shrink", n=0)])
    res = {x["i"]: x["obs"] for x in c.tlc_cases("MCBoxes.tla", "BoxCase.cfg", base(u, progs), "BOX_IN")}
    j = Judge(c, u)
    out = c.drive(drv, "box", [{"U": u, "Glyphs": GLYPHS, "Kerns": kerns(u), "Thick": 2, "P": p} for p in progs])
    for i, (p, im) in enumerate(zip(progs, out)):
        c.traces += 1
        s = res[i + 1]
        e = j.run(p[:-1], s, im)
        if e:
            c.violation(e, {"u": u, "program": p})
            continue
        e = j.run(p, s, im)
        if e and c.matches_known("grown-seven-times") and not im["obs"][-1]["ch"] and not im["obs"][-1].get("panic"):
            c.known_finding("grown-seven-times")
        elif e:
            c.violation(e, {"u": u, "program": p})
