"""C14-C17: typesetting, decided by Mtex."""
import base64, hashlib, itertools, json, os
import vf
from front import ARITY, BOM, chars, enc, esc, escs, show

U = 100000
TOL = 0.002
TEX2UNI = vf.data("tex2uni.json")
CLS = vf.data("classes.json")
DEBUG = os.environ.get("DBG")
SPACES = {"\\,": 16667, "\\thinspace": 16667, "\\:": 22222, "\\;": 27778, "\\ ": 33333,
          "\\enspace": 50000, "\\quad": 100000, "\\qquad": 200000, "\\!": -16667}
SPACES = {k: v for k, v in SPACES.items() if k in ARITY}
FUNCTIONS = ["\\" + x for x in CLS["fun"]]
SPACED = CLS["bin"] + CLS["rel"] + CLS["arrow"]


def usable(s):
    """the symbols the symbol table knows"""
    return len(s) == 1 or s[1:] in TEX2UNI


MACSYMS = [m for m in sorted(ARITY) if not ARITY[m] and usable(m) and m not in FUNCTIONS and m not in SPACES
           and m not in CLS["punct"] and m[1:] not in CLS["fontnames"]]
PLAIN = [m for m in MACSYMS if m not in SPACED]
OPS = [m for m in CLS["bin"] if m in ("+", "-", "*") or m in MACSYMS]
RELS = [m for m in CLS["rel"] + CLS["arrow"] if len(m) == 1 or m in MACSYMS]
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
ODD = ["é", "ß", "ж", "漢"]
TEXTSYMS = list("=<>/*-+!?':,;.()[] ")
FORMULASYMS = ["(", ")", "."]      # one-character symbols usable in formulas, besides the spaced ones
SYMBOLS = PLAIN + FORMULASYMS


def h(key, lo, hi, salt):
    n = int(hashlib.md5((salt + key).encode()).hexdigest()[:6], 16)
    return lo + n % (hi - lo + 1)


def glyph(key):
    s = key.rsplit("|", 2)[0]
    a = h(key, 4, 10, "a")
    w = max(1, a - h(key, 0, 2, "w"))
    y0 = -h(key, 0, 3, "y") if h(key, 0, 2, "dd") else h(key, 0, 1, "y")
    y1 = h(key, max(2, y0 + 1), 9, "Y")
    if s in ("(", ")", "\\__sqrt__"):
        y0, y1 = -2, 6
    return dict(a=a, w=w, h=y1 - y0, i=y1, x0=0, x1=w, y0=y0, y1=y1, sp=s == " ")


def tables(syms, kern=True):
    keys = ["%s|%s|%s" % (s, t, m) for s in syms for t in ("it", "rm") for m in "mt"]
    G = {k: glyph(k) for k in keys}
    K = {}
    if kern:
        common = [s for s in syms if s in LETTERS[:6] or s in ("g", "x", "1", "2", "+", "\\alpha", "(", "-")]
        for a in common:
            for b in common:
                for t in ("it", "rm"):
                    v = h(a + b + t, -3, 3, "k")
                    if abs(v) <= 2 and v:
                        for m in "mt":
                            for n in "mt":
                                K.setdefault("%s|%s|%s" % (a, t, m), {})["%s|%s|%s" % (b, t, n)] = v
    return G, K


THICK = 1


# ---------------------------------------------------------------- generation
class Gen:
    def __init__(self, r, kinds):
        """kinds: weights of the kinds of items"""
        self.r, self.kinds = r, kinds

    def word(self):
        r = self.r
        if r.random() < 0.03:
            return r.choice(ODD)
        return "".join(r.choice("abgxyz" if r.random() < .7 else LETTERS) for _ in range(r.choice([1, 1, 1, 2, 3])))

    def number(self):
        r = self.r
        return r.choice(["0", "1", "12", "2", "42", "1.5", ".5", "3.", "1.2.3", "10.25", "7", "9", "1..2"]) \
            if self.kinds.get("dots") else r.choice(["0", "1", "12", "345", "7"])

    def mac(self, m):
        return m + (self.r.choice([" ", " ", "{}"] if False else [" "]) if m[-1].isalpha() else self.r.choice(["", " "]))

    def sep(self):
        return self.r.choice(["", "", " ", "  "])

    def seq(self, depth, math, n=None):
        n = self.r.choice([1, 1, 2, 2, 3, 4]) if n is None else n
        return self.sep().join(self.item(depth, math) for _ in range(n))

    def arg(self, depth, math):
        r = self.r
        e = self.kinds.get("empty", 0.04)
        x = r.random()
        if x < e:
            return ""
        if x < 0.5:
            return self.item(0, math)
        return self.seq(depth, math)

    def item(self, depth, math):
        r, k = self.r, self.kinds
        w = {"word": 6, "number": 3, "sym": k.get("sym", 2), "text": 0 if math else k.get("text", 2)}
        if math:
            w.update(op=k.get("op", 3), rel=k.get("rel", 2), dot=k.get("dot", 0), paren=k.get("paren", 1),
                     space=k.get("space", 1))
        else:
            w.update(op=k.get("op", 3) / 6, rel=k.get("rel", 2) / 6, space=k.get("space", 1) / 4)
        w.update(fun=k.get("fun", 1), minus=k.get("minus", 0))
        if depth > 0:
            w.update(con=k.get("con", 4), math=k.get("math", 1) if math else 3 + k.get("math", 1))
            if math:
                w["group"] = k.get("group", 1)
            w["exp"] = k.get("fun", 1) / 2
        c = r.choices(list(w), list(w.values()))[0]
        if c == "word":
            return self.word()
        if c == "number":
            return self.number()
        if c == "sym":
            return self.mac(r.choice(PLAIN))
        if c == "text":
            return r.choice(TEXTSYMS)
        if c == "minus":
            return "-"
        if c == "op":
            return self.mac(r.choice(["+", "-", "*"] if r.random() < .5 and math else [x for x in OPS if len(x) > 1]))
        if c == "rel":
            return self.mac(r.choice(["=", "<", ">", ":"] if r.random() < .4 and math else [x for x in RELS if len(x) > 1]))
        if c == "dot":
            return r.choice([".", " . ", "a.b", "1 .2", "2. 3"])
        if c == "paren":
            return "(" + r.choice(["", " "]) + self.seq(depth - 1, math, 1) + ")"
        if c == "space":
            if r.random() < 0.3:
                return "\\hspace{%s}" % r.choice(["1", "0.5", "2", ".25", "1.5", "0", "3."])
            return self.mac(r.choice(sorted(SPACES)))
        if c == "fun":
            return self.mac(r.choice([f for f in FUNCTIONS if not ARITY[f]]))
        if c == "exp":
            return "\\exp{%s}" % self.arg(depth - 1, math)
        if c == "group":
            return "{" + self.sep() + (self.seq(depth - 1, math) if r.random() < .95 else "") + "}"
        if c == "math":
            return "$" + self.sep() + self.seq(depth - 1, True) + self.sep() + "$"
        return self.construct(depth, math)

    def construct(self, depth, math):
        r = self.r
        m = r.choice(["\\frac", "\\frac", "\\dfrac", "\\tfrac", "\\binom", "\\sqrt", "\\sqrt", "\\sqrt", "\\overline"])
        if m == "\\sqrt":
            o = "[%s]" % self.arg(depth - 1, math).replace("[", "(").replace("]", ")") if r.random() < 0.4 else ""
            return "\\sqrt" + o + "{%s}" % self.arg(depth - 1, math)
        if m == "\\overline":
            return m + "{%s}" % self.arg(depth - 1, math)
        return m + "{%s}{%s}" % (self.arg(depth - 1, math), self.arg(depth - 1, math))

    def expr(self, depth):
        r = self.r
        if r.random() < 0.75:
            return "$" + self.sep() + self.seq(depth, True) + self.sep() + "$"
        return self.seq(depth, False, r.choice([1, 2, 3]))


def nested(leaves):
    """all constructs around leaves, and all constructs around those"""
    def around(us):
        out = []
        for a in us:
            out += ["\\sqrt{%s}" % a, "\\overline{%s}" % a]
            for b in us:
                out += [x % (a, b) for x in ("\\frac{%s}{%s}", "\\dfrac{%s}{%s}", "\\binom{%s}{%s}", "\\sqrt[%s]{%s}")]
        return out
    one = around(leaves)
    return one, around(leaves[:2] + one)


# ---------------------------------------------------------------- the model's input
def model(G, K, thick, den, cases, **kw):
    d = dict(u=U, den=den, glyphs={escs(k): v for k, v in G.items()},
             kerns={escs(k): {escs(q): x for q, x in v.items()} for k, v in K.items()},
             thick=thick, arity=ARITY, bom=esc(BOM), binary=CLS["bin"], spaced=SPACED, punct=CLS["punct"],
             left=CLS["left"], functions=FUNCTIONS, symbols=SYMBOLS, spaces=SPACES, cases=cases,
             lexemes=[], bytes=[], maxlen=0, pre=[], post=[], z=12 * U, pool=[])
    d.update(kw)
    return d


def source(s):
    cs, o = chars(enc(s)), 0
    for x in cs:
        x["o"] = o
        o += x["n"]
    return cs


def symbols_of(srcs):
    """the symbols that may come up"""
    out = set("m=()-.") | {"\\__sqrt__"} | set(LETTERS)
    for s in srcs:
        for w in macro_names(s):
            out.add(w)
            out |= set(w[1:])
        out |= {ch for ch in s if ch.isalnum() or ch in "".join(TEXTSYMS)}
    return sorted(x for x in out if usable(x) or x == "\\__sqrt__")


# ---------------------------------------------------------------- judging
class Judge:
    def __init__(self, c):
        self.c, self.pid, self.stopped = c, c.pid, 0

    def run(self, s, im, zeff, size, dpi):
        pid = self.pid
        if "crash" in im or "panic" in im:
            return "crash: %s" % (im.get("crash") or im.get("panic"))
        if s["s"] == "err":
            return None
        if im["s"] != "ok":
            if pid == "C14":
                return "not typeset (%s): %s" % (im["s"], im.get("msg"))
            self.stopped += 1
            return None
        sd, rd = s["dr"], im["dr"]
        name = lambda d: d[1].rsplit("|", 2)
        want = [name(d) if d[0] == "g" else "r" for d in sd]
        wsym = [x[0] if x != "r" else "(rule)" for x in want]
        gsym = [escs(base64.b64decode(d[1]).decode("utf-8", "replace")) if d[0] == "g" else "(rule)" for d in rd]
        if pid == "C14":
            wg, gg = [x for x in wsym if x != "(rule)"], [x for x in gsym if x != "(rule)"]
            if wg != gg:
                return "drawn: %s\n  expected: %s" % (" ".join(gg), " ".join(wg))
            if len(wsym) != len(gsym):
                return "%d rules drawn, expected %d" % (len(gsym) - len(gg), len(wsym) - len(wg))
            return None
        if wsym != gsym:
            self.stopped += 1
            if DEBUG:
                print("symbols", wsym, gsym)
            return None
        types = [(x[1] if x != "r" else None) for x in want]
        gtypes = [(d[3] if d[0] == "g" else None) for d in rd]
        if pid == "C17":
            if types != gtypes:
                i = [a != b for a, b in zip(types, gtypes)].index(True)
                return "glyph %d (%s) requested in style %s, expected %s" % (i + 1, wsym[i], gtypes[i], types[i])
            for i, (a, b) in enumerate(zip(sd, rd)):
                if a[0] != "g":
                    continue
                if b[2] != "default":
                    return "glyph %d (%s) requested from font %r" % (i + 1, wsym[i], b[2])
                if b[5] != dpi:
                    return "glyph %d (%s) requested at resolution %s, expected %s" % (i + 1, wsym[i], b[5], dpi)
                if abs(b[4] * dpi / 72 - a[2] / U) > TOL * max(1, size / 10):
                    return "glyph %d (%s) requested at size %s, expected %.4f" % (i + 1, wsym[i], b[4], a[2] / U * 72 / dpi)
            wm = sorted({d[1] for d in sd if d[0] == "g" and name(d)[0] == "-"})
            if wm != sorted(im["minus"]):
                return "minus signs measured as %s, expected %s" % (sorted(im["minus"]), wm)
            return None
        if types != gtypes:
            self.stopped += 1
            return None
        if pid == "C16":
            own = dict(s["own"])
            for i in range(len(sd) - 1):
                a, b = sd[i], sd[i + 1]
                if a[0] != "g" or b[0] != "g" or own.get(a[5]) is None or own.get(a[5]) != own.get(b[5]):
                    continue
                if name(a)[0] == "\\__sqrt__" or name(b)[0] == "\\__sqrt__":
                    continue
                w = (b[3] - a[3]) / U
                g = rd[i + 1][6] - rd[i][6]
                if abs(w - g) > TOL:
                    return "from glyph %d (%s) to %d (%s): %.4f, expected %.4f (font size %s at %s dpi)" % (
                        i + 1, wsym[i], i + 2, wsym[i + 1], g, w, size, dpi)
            if not any(d[0] == "r" or name(d)[0] == "\\__sqrt__" for d in sd):
                if abs(im["w"] - s["w"] / U) > TOL:
                    return "width %.4f, expected %.4f" % (im["w"], s["w"] / U)
            return None
        # C15
        if s["tie"]:
            self.stopped += 1
            return None
        for k in "whd":
            if abs(im[k] - s[k] / U) > TOL:
                return "%s %.4f, expected %.4f" % (dict(w="width", h="height", d="depth")[k], im[k], s[k] / U)
        below = None
        for i, (a, b) in enumerate(zip(sd, rd)):
            if a[0] == "g":
                w, g = (a[3] / U, a[4] / U), (b[6], b[7])
                if max(abs(w[0] - g[0]), abs(w[1] - g[1])) > TOL:
                    return "glyph %d (%s) at (%.4f, %.4f), expected (%.4f, %.4f)" % ((i + 1, wsym[i]) + tuple(g) + w)
                if abs(b[4] * dpi / 72 - a[2] / U) > TOL * max(1, size / 10):
                    return "glyph %d (%s) requested at size %s, expected %.4f" % (i + 1, wsym[i], b[4], a[2] / U * 72 / dpi)
            else:
                w, g = [x / U for x in a[2:6]], b[1:5]
                t = w[3] - w[1]
                off = [v * t for v in ((0, 1) if below is None else (below,))]
                fit = [v for v in off if all(abs(x + (v if j % 2 else 0) - y) <= TOL for j, (x, y) in enumerate(zip(w, g)))]
                if not fit:
                    return "rule %d over (%s), expected (%s)" % (i + 1, ", ".join("%.4f" % x for x in g),
                                                               ", ".join("%.4f" % x for x in w))
                if t > 2 * TOL:
                    below = fit[0] / t
        return None


# ---------------------------------------------------------------- checking
def run(c):
    drv = c.build()
    r, pid = c.rng, c.pid
    fam = c.cov.setdefault("families", {})
    j = Judge(c)

    def conf(syms, cases, **kw):
        G, K = tables(syms)
        f = os.path.join(c.work, "table.json")
        with open(f, "w") as fh:
            json.dump({"Glyphs": G, "Kerns": K, "Thick": THICK}, fh)
        return model(G, K, THICK, 8, cases, **kw), {"VERIF_TABLE": f}

    def check(srcs, sizes, specs, env, label):
        res = c.drive(drv, "mtex", [dict(S=base64.b64encode(enc(s)).decode(), Size=z, DPI=d) for s, (z, d) in zip(srcs, sizes)], env=env)
        ok = 0
        for s, (z, d), sp, im in zip(srcs, sizes, specs, res):
            c.traces += 1
            ok += sp["s"] == "ok"
            e = j.run(sp, im, z * d / 72, z, d)
            if e:
                c.violation("%s\n  source %s at %s pt, %s dpi (%s)" % (e, show(enc(s)), z, d, label),
                            {"source": s, "size": z, "dpi": d, "spec": sp, "impl": im, "label": label})
        f = fam.setdefault(label, {"expressions": 0, "typeset": 0})
        f["expressions"] += len(srcs)
        f["typeset"] += ok
        m = len(srcs) // 2
        c.sample({"family": label, "source": srcs[m], "expected": str(specs[m])[:300]})
        c.cov["expressions abandoned because of a deviation outside the property"] = j.stopped

    SIZES = [(12, 72), (10, 72), (12, 144), (7.5, 96), (20, 72), (5, 300), (33, 72), (24, 36)]

    def cases(srcs, label, sizes=None):
        srcs = list(dict.fromkeys(srcs))
        for b in range(0, len(srcs), 3000):
            part = srcs[b:b + 3000]
            zs = [r.choice(sizes or SIZES) for _ in part]
            cf, env = conf(symbols_of(part), [dict(s=source(s), z=round(z * d * U / 72)) for s, (z, d) in zip(part, zs)])
            res = {x["i"]: x for x in c.tlc_cases("MCMtex.tla", "MtexCase.cfg", cf, "MTEX_IN")}
            if len(res) != len(part):
                raise vf.Broken("%d results for %d cases" % (len(res), len(part)))
            check(part, zs, [res[i + 1] for i in range(len(part))], env, label)
        c.log(label, len(srcs))

    def enum(lex, maxlen, pre, post):
        """all strings of at most maxlen of the lexemes between pre and post"""
        label = "all strings of <=%d of %s between %r and %r" % (maxlen, lex, pre, post)
        al = lex + [pre, post]
        cf, env = conf(symbols_of(al), [], lexemes=[source(x) for x in al], bytes=[len(enc(x)) for x in al],
                       maxlen=maxlen, pre=[len(lex) + 1], post=[len(lex) + 2])
        # the lexemes only: pre and post are not enumerated
        cf["nlex"] = len(lex)
        specs = c.tlc_cases("MCMtex.tla", "MtexEnum.cfg", cf, "MTEX_IN")
        if len(specs) != sum(len(lex) ** k for k in range(maxlen + 1)):
            raise vf.Broken("enumeration incomplete")
        srcs = [pre + "".join(lex[i - 1] for i in x["i"]) + post for x in specs]
        check(srcs, [(12, 72)] * len(srcs), specs, env, label)
        c.log(label, len(srcs))

    run_property(c, r, cases, enum)
    c.assume = ["the backend is a linear font: metrics proportional to the size in dots, different for every symbol, style and mode",
                "the classes of symbols are those of spec/data/classes.json",
                "rules may be painted in or exactly below their slot (finding vlist-rule-below of C12)"]


def macro_names(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\":
            j = i + 1
            while j < len(s) and s[j].isalpha():
                j += 1
            j = max(j, i + 2)
            out.append(s[i:j])
            i = j
        else:
            i += 1
    return out


def run_property(c, r, cases, enum):
    pid = c.pid
    n = c.pick(1200, 20000)
    allmacs = []
    for m in MACSYMS:
        allmacs += ["$a%s b$" % m, "$%s$" % m, "x%s y" % m, "$\\frac{%s}{c}$" % m, "$({%s x}%s z)$" % (m, m)]
    for m in FUNCTIONS:
        a = "{x}" if ARITY[m] else " "
        allmacs += ["$%sy$" % (m + a), "a%s$b%sc$" % (m + a, m + a), "$\\frac{%sa}{b}$" % (m + a)]
    for m in SPACES:
        allmacs += ["$a%s b$" % m, "a%s b" % m, "$\\sqrt{a%s{}b}%s c$" % (m, m)]
    if pid == "C14":
        g = Gen(r, dict(dots=1, dot=1, empty=.1))
        cases(allmacs, "every symbol, function and space")
        one, two = nested(["x", "g1", ""])
        cases(["$%s$" % x for x in one] + ["a%sb" % x for x in one], "each construct around simple parts")
        cases(["$a%sb$" % x for x in r.sample(two, c.pick(500, len(two)))], "constructs in constructs")
        cases([g.expr(r.choice([1, 2, 3, 4])) for _ in range(n)], "generated expressions")
        enum(["a", "$", "-", "{", "}", "\\frac{x}{", "\\sqrt{", "\\exp{"], c.pick(4, 5), "", "")
        long = []
        for n in [*range(20, 40, 5), 48, 49, 60, 63, 64, 65, 80, 100, *([127, 128, 129, 200, 256, 257, 400] if c.tier == "thorough" else [129])]:
            w = "".join(r.choice(LETTERS[:26]) for _ in range(n))
            d = "".join(r.choice("0123456789") for _ in range(n))
            long += ["$%s$" % w, w + " x", "$%s$" % d, d[:-1], "$\\frac{%s}{%s}$" % (w, d), "$\\sqrt{%s+%s.5}$" % (w[:n // 2], d),
                     "$%s$" % "+".join(w[:n // 3]), " ".join(w[:n // 2]), "$%s$" % ("{" * (n // 6) + "a" + "}" * (n // 6))]
        cases(long, "long words, numbers and sums")
    elif pid == "C15":
        g = Gen(r, dict(op=0, rel=0, sym=1, paren=0, space=0, fun=0, text=0, con=9, math=.3, group=.3))
        one, two = nested(["x", "g1", ""])
        cases(["$%s$" % x for x in one] + ["a%sb" % x for x in one], "each construct around simple parts")
        cases(["$a%sb$" % x for x in r.sample(two, c.pick(900, len(two)))], "constructs in constructs")
        cases([g.expr(r.choice([2, 3, 3, 4])) for _ in range(n)], "generated expressions")
        cases(["$a%sb$" % s for s in one], "sizes and resolutions", sizes=[(a, b) for a in (1, 6.5, 9, 14, 17) for b in (50, 72, 110)])
    elif pid == "C16":
        g = Gen(r, dict(dots=1, dot=2, op=6, rel=3, paren=2, space=3, con=2, empty=0))
        cases(allmacs, "every symbol, function and space")
        ops = ["+", "-", "\\pm ", "\\cdot ", "=", "\\leq ", "\\to " if "\\to" in ARITY else "\\rightarrow ", "<", "(", ")", ".", "1", "a"]
        srcs = []
        for x in OPS + RELS:
            y = x if len(x) == 1 else x + " "
            srcs += ["$(%sa$" % y, "$( %sa$" % y, "$a%sb$" % y, "$a %s b$" % y, "$\\frac{%sa}{b %s}$" % (y, y), "%sa" % y,
                     "  %s a" % y, "$[%sa$" % y, "$\\lfloor %sa$" % y, "$\\{%sa$" % y, "$\\sqrt{ %sa}$" % y, "$a{%sb}$" % y, "$a{ }%sb$" % y]
        cases(srcs, "every operator, relation and arrow in every position")
        dots = []
        for x in "a1é=</*-+!?':,;.()[]":
            dots += ["$%s.5$" % x, "$1.%s$" % x, "$%s.%s$" % (x, x), "$1.%s2$" % x, "%s.5a" % x, "$\\sqrt{%s.1}$" % x]
        cases(dots, "every character beside a period")
        enum(["a", "1", ".", " ", "+", "=", "(", "{", "}", "\\pm ", "\\,"], c.pick(3, 5), "$", "$")
        cases([g.expr(r.choice([0, 1, 1, 2, 3])) for _ in range(n)], "generated expressions")
    elif pid == "C17":
        g = Gen(r, dict(minus=3, fun=3, math=3, con=3, text=3))
        cases(allmacs, "every symbol, function and space")
        enum(["a", "$", "-", "{", "}", "\\frac{x}{", "\\sin ", "\\exp{"], c.pick(4, 5), "", "")
        one, two = nested(["$-x$", "-\\sin a"])
        cases(["a%s-b$-%s-$-" % (x, x) for x in one], "styles in constructs")
        cases([g.expr(r.choice([1, 2, 3, 4])) for _ in range(n)], "generated expressions")
