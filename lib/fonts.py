"""C19 (what a font backend remembers), C20 (what it answers): decided by
FontBackend."""
import base64, os, unicodedata
from concurrent.futures import ThreadPoolExecutor
from math import prod
import vf
from front import enc, escs, show
from typeset import TEX2UNI

SETS = ["go", "nil", "lib", "lm", "stix", "dejavu", "mix"]
NAMES = ["default", "regular", "rm", "it", ""]
TYPES = ["rm", "it", "bf", "default", "regular"]


def cps(sym):
    """code points of a symbol in formulas and in text (frozen table)"""
    if len(sym) == 1:
        return (0x2212 if sym == "-" else ord(sym)), ord(sym)
    cp = TEX2UNI[sym.replace("\\", "", 1)]
    return cp, cp


def letter(cp):
    return unicodedata.category(chr(cp))[0] == "L"


class Q(dict):
    """a query; sizes in hundredths of a point, resolutions in halves"""
    def spec(q):
        d = {k: v for k, v in q.items() if k not in ("b",)}
        for k in ("s", "s2"):
            if k in d:
                d[k] = escs(d[k])
        return {"b": q["b"] + 1, "q": d}

    def impl(q):
        f = lambda v: {"N": v["n"], "T": v["t"], "Z": v["z"] / 100}
        d = {"Op": q["op"], "B": q["b"], "DPI": q.get("dpi", 144) / 2}
        for k in ("s", "s2"):
            if k in q:
                d[k.upper()] = base64.b64encode(enc(q[k])).decode()
        for k in ("f", "f2"):
            if k in q:
                d[k.upper()] = f(q[k])
        for k in ("m", "x", "y", "x2", "y2"):
            if k in q:
                d[k.upper()] = q[k]
        return d

    def show(q):
        f = lambda v: "%s/%s/%g" % (v["n"], v["t"], v["z"] / 100)
        return "%d.%s(%s)" % (q["b"] + 1, q["op"], ", ".join(
            (f(v) if k in ("f", "f2") else "%g dpi" % (v / 2) if k == "dpi" else repr(v) if k in ("s", "s2") else "%s=%s" % (k, v))
            for k, v in q.items() if k not in ("b", "op")))


def font(n, t, z):
    return {"n": n, "t": t, "z": z}


def tables(c, drv, sets, syms, kern=()):
    """what the fonts themselves say about some symbols, for the specification"""
    allcp = sorted({x for s in syms for x in cps(s)})
    kcp = sorted({x for s in kern for x in cps(s)})
    rs = c.drive(drv, "rawfont", [{"Set": s, "Cps": allcp, "Kern": kcp} for s in sets])
    fonts, slots = {}, {}
    for s, r in zip(sets, rs):
        if "slots" not in r:
            raise vf.Broken("reading the fonts of %s: %s" % (s, r))
        slots[s] = r["slots"]
        fonts.update(r["fonts"])
    return dict(sym={escs(s): dict(cp=cps(s)[0], cpt=cps(s)[1], L=letter(cps(s)[0]), Lt=letter(cps(s)[1])) for s in syms},
                sets=slots, fonts=fonts)


def val(f):
    return prod(f[0]) / prod(f[1])


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1e-3, abs(a), abs(b))


INFO = [("adv", 0), ("w", 1), ("h", 2), ("ice", 3), ("x0", 4), ("x1", 5), ("y0", 6), ("y1", 7)]
NAME = dict(adv="advance", w="width", h="height", ice="height above the baseline", x0="left extent", x1="right extent", y0="lower extent", y1="upper extent")


def judge_info(c, i, m, conf):
    for k, j in INFO:
        w = val(i[k])
        if close(w, m[j]):
            continue
        up = conf["fonts"][i["font"]]["upem"]
        if k == "adv" and up != 2048 and close(w * up / 2048, m[j]) and c.matches_known("advance-units"):
            c.known_finding("advance-units")
            continue
        return "%s %.9g, expected %.9g" % (NAME[k], m[j], w)
    if i["sl"] != bool(m[8]):
        return "reported as %sslanted" % ("" if m[8] else "not ")
    return None


def judge_answer(c, q, a, o, conf, set_):
    """one answer against the fonts (C20)"""
    if q["op"] == "metrics":
        return judge_info(c, a["i"], o["m"], conf)
    if a["k"] == "v":
        w = val(a["v"])
        if q["op"] == "xheight":
            up = conf["fonts"][conf["sets"][set_][q["f"]["t"]]]
            if abs(o["v"] - w) <= (1 + up["xh"] / up["upem"]) / 64:
                return None
        elif close(w, o["v"]):
            return None
        return "answers %.9g, expected %.9g" % (o["v"], w)
    return judge_op(c, a, o.get("d"), conf)


def judge_op(c, a, d, conf):
    if d is None:
        return "nothing is drawn"
    if d["k"] != a["k"]:
        return "draws %s" % d
    if a["k"] == "r":
        got, want = [d[k] for k in ("x", "y", "x2", "y2")], [a[k] for k in ("x", "y", "x2", "y2")]
        return None if got == want else "rectangle %s, expected %s" % (got, want)
    i = a["i"]
    f = conf["fonts"][i["font"]]
    if d["fontps"] != f["ps"]:
        return "glyph from font %s, expected %s" % (d["fontps"], f["ps"])
    if d["ps"] != f["ps"]:
        return "glyph said to be from font %s, but is from %s" % (d["ps"], f["ps"])
    if d["cp"] != i["cp"] or d["g"] != i["g"]:
        return "glyph %d of U+%04X, expected glyph %d of U+%04X" % (d["g"], d["cp"], i["g"], i["cp"])
    if (d["x"], d["y"]) != (a["x"], a["y"]):
        return "glyph drawn at (%s, %s)" % (d["x"], d["y"])
    if not close(d["z"], a["z"] / 100):
        return "glyph drawn at size %s" % d["z"]
    if d["off"]:
        return "glyph drawn with an offset of %s" % d["off"]
    e = judge_info(c, i, d["m"], conf)
    return "metrics of the drawn glyph: " + e if e else None


def spec_cases(c, conf, hist, cfg="FontBackendCase.cfg"):
    """the answers of the specification to given histories"""
    res = [[None] * len(h) for h in hist]
    old = [[None] * len(h) for h in hist]
    for x in c.tlc_cases("MCFontBackend.tla", cfg, dict(conf, cases=[[q.spec() for q in h] for h in hist]), "FONT_IN"):
        res[x["i"][0] - 1][x["n"] - 1] = x["a"]
        old[x["i"][0] - 1][x["n"] - 1] = x["o"]
    if any(y is None for r in res for y in r):
        raise vf.Broken("the specification left queries unanswered")
    return res, old


def solo(c, drv, sets, qs):
    """what a new backend of a new process answers to each query"""
    def one(k):
        q = dict(qs[k].impl(), B=0)
        return c._drive(drv, "fonts", [{"Sets": [sets[k]], "Qs": [q]}], 100, None, "-solo%d" % k)[0]
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, range(len(qs))))


def c19(c):
    drv = c.build()
    r = c.rng
    fam = c.cov.setdefault("families", {})
    alone = {}

    def key(owner, q):
        return (owner[q["b"]], Q(dict(q, b=0)).show())

    def compare(owner, hist, spec, label, batch=False):
        """hist against new backends; spec: (answers, answers of the short memory)
        (batch: new backends, but not each in a process of its own)"""
        miss, ks = [], set()
        for h in hist:
            for q in h:
                k = key(owner, q)
                if k not in alone and k not in ks:
                    ks.add(k)
                    miss.append((k, owner[q["b"]], q))
        if batch:
            new = c.drive(drv, "fonts", [{"Sets": [m[1]], "Qs": [dict(m[2].impl(), B=0)]} for m in miss])
        else:
            new = solo(c, drv, [m[1] for m in miss], [m[2] for m in miss])
        for (k, _, _), o in zip(miss, new):
            alone[k] = o
        res = c.drive(drv, "fonts", [{"Sets": owner, "Qs": [q.impl() for q in h]} for h in hist])
        for h, im, sp in zip(hist, res, spec):
            c.traces += 1
            e = None
            if "outs" not in im:
                ref = [alone[key(owner, q)] for q in h]
                if all("outs" in x for x in ref):
                    e = "crash: %s" % (im.get("crash") or im.get("panic"))
            else:
                stale = {}           # (backend, index on its canvas) accepted
                ncv = [0] * len(owner)
                for j, (q, o) in enumerate(zip(h, im["outs"])):
                    ref = alone[key(owner, q)]
                    if "outs" not in ref:
                        continue
                    ok = o == ref["outs"][0]
                    listed = False
                    if not ok and sp[1][j] and sp[1][j]["k"] != "none" and c.matches_known("mode-not-in-key"):
                        # a memory without the mode explains it
                        x = c20_explains(q, sp[1][j], o)
                        if x:
                            c.known_finding("mode-not-in-key")
                            ok = listed = True
                    if q["op"] in ("draw", "rect"):
                        stale[q["b"], ncv[q["b"]]] = (o.get("d"), listed)
                        ncv[q["b"]] += 1
                    if "stray" in o:
                        e = "query %d also draws on the canvas of backend %d" % (j + 1, o["stray"] + 1)
                    elif not ok:
                        e = "query %d, %s: answers %s,\n  a new backend %s" % (j + 1, q.show(), o, ref["outs"][0])
                    if e:
                        break
                if not e:
                    for b, cv in enumerate(im["canvas"]):
                        if len(cv) != ncv[b] or any(d != stale[b, k][0] for k, d in enumerate(cv)):
                            e = "what backend %d had drawn has changed" % (b + 1)
            if e:
                c.violation("%s\n  backends over %s, history %s (%s)" % (e, owner, "; ".join(q.show() for q in h)[:4000], label),
                            {"sets": owner, "history": h, "impl": str(im)[:4000]})
        d = fam.setdefault(label, {"histories": 0, "queries": 0})
        d["histories"] += len(hist)
        d["queries"] += sum(map(len, hist))
        c.log(label, len(hist))

    def c20_explains(q, o, im):
        """the answer is the one of the other mode"""
        conf = conf_now[0]
        if q["op"] == "metrics":
            return judge_info(Quiet(c), o["i"], im["m"], conf) is None
        if q["op"] == "draw":
            return judge_op(Quiet(c), o, im.get("d"), conf) is None
        return close(val(o["v"]), im["v"])

    conf_now = [None]
    # all short histories
    f1, f2, f3 = font("default", "rm", 1200), font("default", "it", 1200), font("rm", "rm", 1000)
    base = [
        Q(op="metrics", s="a", f=f1, dpi=144, m=True), Q(op="metrics", s="a", f=f2, dpi=144, m=False),
        Q(op="draw", s="a", f=f2, dpi=144, x=3, y=7), Q(op="metrics", s="-", f=f1, dpi=144, m=True),
        Q(op="metrics", s="-", f=f1, dpi=144, m=False), Q(op="draw", s="-", f=f1, dpi=144, x=1, y=2),
        Q(op="kern", s="A", f=f1, s2="V", f2=f1, dpi=144), Q(op="kern", s="-", f=f1, s2="V", f2=f1, dpi=144),
        Q(op="metrics", s="a", f=f3, dpi=144, m=True), Q(op="metrics", s="a", f=f1, dpi=288, m=True),
        Q(op="xheight", f=f2, dpi=144), Q(op="thick", f=f1, dpi=200), Q(op="rect", x=1, y=2, x2=3, y2=4)]
    big = base + [
        Q(op="draw", s="a", f=font("default", "rm", 1230), dpi=144, x=3, y=7), Q(op="metrics", s="a", f=font("default", "it", 1204), dpi=144, m=True),
        Q(op="kern", s="A", f=f2, s2="V", f2=f2, dpi=144), Q(op="kern", s="V", f=f1, s2="A", f2=f1, dpi=144), Q(op="kern", s="A", f=f1, s2="V", f2=f3, dpi=144),
        Q(op="draw", s="\\sigma", f=f2, dpi=144, x=0, y=0), Q(op="draw", s="\\sum", f=f2, dpi=144, x=0, y=0),
        Q(op="metrics", s="\\sum", f=f1, dpi=144, m=False), Q(op="xheight", f=f1, dpi=144), Q(op="xheight", f=f2, dpi=288), Q(op="xheight", f=font("default", "it", 1000), dpi=144),
        Q(op="thick", f=f1, dpi=144), Q(op="thick", f=font("default", "rm", 1204), dpi=144)]

    def enum(owner, pool, n, label):
        conf = tables(c, drv, sorted(set(owner)), sorted({q[k] for q in pool for k in ("s", "s2") if k in q}), ["A", "V", "-", "a"])
        conf_now[0] = conf
        rs = c.tlc_cases("MCFontBackend.tla", "FontBackendEnum.cfg", dict(conf, owner=owner, maxlen=n, pool=[q.spec() for q in pool], cases=[]), "FONT_IN")
        by = {tuple(x["i"]): x for x in rs}
        hist = [i for i in by if len(i) == n]
        compare(owner, [[pool[j - 1] for j in i] for i in hist],
                [([by[i[:k + 1]]["a"] for k in range(n)], [by[i[:k + 1]]["o"] for k in range(n)]) for i in hist], label)

    one = [Q(dict(q, b=0)) for q in base]
    enum(["lib"], [Q(dict(q, b=0)) for q in big], 2, "all histories of 2 queries")
    enum(["lib"], one, c.pick(3, 4), "all histories of %d queries" % c.pick(3, 4))
    two = [Q(dict(q, b=b)) for b in (0, 1) for q in (base[:8] if not c.thorough else big[:12])]
    enum(["lib", "lib"], two, c.pick(2, 3), "all histories of %d queries to two backends over one set" % c.pick(2, 3))
    enum(["lib", "go"], two, c.pick(2, 3), "all histories of %d queries to two backends over two sets" % c.pick(2, 3))
    enum(["go", "mix"], two, 2, "all histories of 2 queries to two backends over mixed sets")

    # long histories
    syms = ["-", "a", "A", "V", "f", "i", "1", "+", "(", "é", "β", "\\alpha", "\\beta", "\\sum", "\\int", "alpha", "\\Gamma", "\\pm", "Γ", "\\__sqrt__", " ", "\\|", "T", "o", ".", "−"]
    kern = ["-", "a", "A", "V", "f", "i", "T", "o", ".", "1"]
    zs = [1200, 1000, 1204, 1250, 1299, 700, 840, 2400, 1, 120, 12000]
    dpis = [144, 145, 288, 200, 72, 1200, 1]

    def query(nb, hot):
        s = r.choice(hot) if r.random() < .6 else r.choice(syms)
        f = font(r.choice(NAMES), r.choice(TYPES), r.choice(zs)) if r.random() < .4 else font("default", r.choice(["rm", "it"]), r.choice(zs[:3]))
        d = r.choice(dpis) if r.random() < .3 else 144
        b = r.randrange(nb)
        op = r.choices(["metrics", "draw", "kern", "xheight", "thick", "rect"], [40, 25, 25, 3, 3, 4])[0]
        if op == "metrics":
            return Q(op=op, b=b, s=s, f=f, dpi=d, m=r.random() < .6)
        if op == "draw":
            return Q(op=op, b=b, s=s, f=f, dpi=d, x=r.randrange(-9, 100), y=r.randrange(100))
        if op == "kern":
            g = f if r.random() < .8 else font(r.choice(NAMES), r.choice(TYPES), r.choice(zs[:3]))
            return Q(op=op, b=b, s=r.choice(kern), f=f, s2=r.choice(kern), f2=g, dpi=d)
        if op == "rect":
            return Q(op=op, b=b, x=r.randrange(9), y=r.randrange(9), x2=r.randrange(9), y2=r.randrange(9))
        return Q(op=op, b=b, f=f, dpi=d)

    def miss(q, nb, k=None):
        """a near miss: one component of a query changed"""
        p = Q(dict(q))
        k = k or r.choice([k for k in ("f", "dpi", "m", "s", "b") if k in p])
        if k == "f":
            p["f"] = dict(p["f"])
            w = r.choice("ntzz")
            p["f"][w] = r.choice([v for v in {"n": NAMES, "t": TYPES, "z": zs}[w] if v != p["f"][w]])
            if "f2" in p and r.random() < .8:
                p["f2"] = p["f"]
        elif k == "dpi":
            p[k] = r.choice(dpis)
        elif k == "m":
            p[k] = not p[k]
        elif k == "s":
            p[k] = r.choice(kern)
        else:
            p[k] = r.randrange(nb)
        return p

    def pools(nb, n):
        """queries that meet again: drawn from few"""
        pool = [query(nb, r.sample(syms, 3)) for _ in range(n)]
        return pool + [miss(q, nb) for q in pool[:n // 2]]

    def walk(nb, n):
        """around a few queries: repetitions and near misses of what was asked just before"""
        near = []
        for _ in range(3):
            q = query(nb, r.sample(syms, 3))
            while q["op"] == "rect":
                q = query(nb, syms)
            near.append([q] + [miss(q, nb) for _ in range(4)])
        h = []
        if r.random() < .6:
            # one backend that has answered much before
            h = [Q(dict(q, b=0)) for q in r.sample(pool, 16)]
            near = [[Q(dict(q, b=0)) for q in ns] for ns in near]
        n += len(h)
        ns = r.choice(near)
        while len(h) < n:
            ns = r.choice(near) if r.random() < .3 else ns
            q = r.choice(ns)
            h += [q] * r.choice([1, 1, 2, 3])
        return h

    for rnd in range(c.pick(4, 24)):
        owner = r.sample(SETS, 3) + [r.choice(SETS)]
        owner[3] = owner[0] if rnd % 2 else owner[3]
        pool = pools(4, c.pick(60, 120))
        hist = [[r.choice(p) for _ in range(r.choice([6, 12, 40]))] for _ in range(c.pick(40, 150)) for p in [r.sample(pool, 12)]]
        hist += [walk(4, r.choice([12, 40])) for _ in range(c.pick(15, 60))]
        conf = dict(tables(c, drv, sorted(set(owner)), syms, kern), owner=owner)
        conf_now[0] = conf
        compare(owner, hist, list(zip(*spec_cases(c, conf, hist))), "long histories over four backends")
    c.sample({"history": [q.show() for q in hist[0][:8]], "sets": owner})

    # crowded memories: backends that have answered about very many glyphs
    def crowd(n):
        qs, h, seen = [], [], []
        for s in syms:
            for t in ("rm", "it", "bf"):
                for z in range(700, 1500, 7):
                    qs.append((s, t, z + r.choice([0, 0, 1])))
        r.shuffle(qs)
        for s, t, z in qs[:n]:
            f = font(r.choice(NAMES[:4]), t, z)
            q = Q(op="metrics", b=0, s=s, f=f, dpi=144, m=True) if r.random() < .8 else Q(op="draw", b=0, s=s, f=f, dpi=144, x=len(h), y=3)
            seen.append(q)
            h.append(q)
            if r.random() < .15:
                h.append(r.choice([Q, Q, lambda q: miss(q, 1, r.choice("fs"))])(r.choice(seen if r.random() < .5 else seen[:20])))
        # and again about what was asked first, last and in between
        again = [Q(q) for q in seen[:25] + seen[-25:] + r.sample(seen, 50)]
        again += [miss(q, 1) for q in again]
        again += [Q(op="kern", b=0, s=a, f=font("default", "rm", 1200), s2=b, f2=font("default", "rm", 1200), dpi=144) for a in "AVf" for b in "oaV"]
        r.shuffle(again)
        return h + again

    owner = [r.choice(SETS)]
    hist = [crowd(n) for n in c.pick([150, 300, 600, 1200], [100, 200, 400, 800, 1600, 3200, 5000])]
    conf = dict(tables(c, drv, owner, syms, kern), owner=owner)
    conf_now[0] = conf
    compare(owner, hist, list(zip(*spec_cases(c, conf, hist, "FontBackendLong.cfg"))), "crowded memories", batch=True)
    c.cov["queries answered by a new backend in a process of its own"] = len(alone)
    c.assume = ["a new backend in a process of its own stands for `a new one`"]


class Quiet:
    """a check that records no findings"""
    def __init__(self, c):
        self.c = c
        self.matches_known = lambda k: True
        self.known_finding = lambda k: None


def c20(c):
    drv = c.build()
    r = c.rng
    fam = c.cov.setdefault("families", {})
    ascii_ = [chr(x) for x in range(32, 127)]
    other = list("éßñøÅçþµπβΓΩжЖאあ中½×÷±−–—“”…€∑∫√∞≤≥≠→⟨⟩ª²₁𝐀𝑎𝛼ǆʰͅ٣Ⅷ①") + ["𝔄", "😀", "\u0301"]
    names = sorted(TEX2UNI)
    zs = [1200, 1000, 2400, 700, 1, 33, 12345, 588, 1728]
    dpis = [144, 72, 200, 600, 1200, 3]
    kern = list("AVWTYLPFoeacfijty.,'-1 +") + ["\\alpha", "\\sum", "é", "ж"]
    for set_ in SETS:
        syms = ascii_ + other + ["\\" + n for n in names]
        if set_ in ("go", "lm") or c.thorough:
            syms += [n for n in names if len(n) > 1]
        types = TYPES if c.thorough else ["rm", "it"] + ([r.choice(TYPES[2:])] if set_ != "nil" else [])
        conf = dict(tables(c, drv, [set_], sorted(set(syms)), kern), owner=[set_])
        hist, mid = [], []
        for s in syms:
            for t in (types if c.thorough else ["rm", "it"] if r.random() < .8 else types):
                z = r.choice(zs)
                f = font(r.choice(NAMES), t, z)
                m = r.random() < .7
                h = [Q(op="metrics", s=s, f=f, dpi=r.choice(dpis), m=m), Q(op="draw", s=s, f=f, dpi=r.choice(dpis), x=r.randrange(-50, 500), y=r.randrange(-50, 500)),
                     Q(op="metrics", s=s, f=dict(f, z=r.choice(zs)), dpi=r.choice(dpis), m=m)]
                if s == "-":
                    # (what has been asked in the other mode before is C19)
                    h = [[Q(q)] for q in h]
                else:
                    r.shuffle(h)
                    h = [h]
                hist += h
        for a in kern:
            for b in kern:
                t, t2 = r.choice(["rm", "it"]), r.choice(["rm", "it"])
                if r.random() < .6:
                    t2 = t
                z = r.choice(zs)
                f = font("default", t, z)
                g = r.choice([dict(f, t=t2), dict(f, t=t2), dict(f, t=t2), dict(f, t=t2), font("rm", t2, z), font("default", t2, r.choice(zs))])
                hist.append([Q(op="kern", s=a, f=f, s2=b, f2=g, dpi=r.choice(dpis)), Q(op="kern", s=a, f=dict(f, z=1200), s2=b, f2=dict(f, z=1200), dpi=144)])
        for t in TYPES:
            for z in zs:
                f = font(r.choice(NAMES), t, z)
                hist.append([Q(op="xheight", f=f, dpi=d) for d in dpis] + [Q(op="thick", f=f, dpi=d) for d in dpis] +
                            [Q(op="rect", x=z, y=.5, x2=-3, y2=7)])
        hist = [[Q(dict(q, b=0)) for q in h] for h in hist]
        for q in (q for h in hist for q in h):
            if q["op"] == "rect":
                q["y"] = 5
        spec, _ = spec_cases(c, conf, hist)
        res = c.drive(drv, "fonts", [{"Sets": [set_], "Qs": [q.impl() for q in h]} for h in hist])
        for h, sp, im in zip(hist, spec, res):
            c.traces += 1
            e = None
            if "outs" not in im:
                e = "crash: %s" % (im.get("crash") or im.get("panic"))
            else:
                for j, (q, a, o) in enumerate(zip(h, sp, im["outs"])):
                    e = judge_answer(c, q, a, o, conf, set_)
                    if e:
                        e = "%s: %s" % (q.show(), e)
                        break
            if e:
                c.violation("%s\n  fonts %s, history %s" % (e, set_, "; ".join(q.show() for q in h)),
                            {"set": set_, "history": h, "spec": str(sp)[:2000], "impl": str(im)[:2000]})
        fam["fonts %s" % set_] = {"symbols": len(syms), "sessions": len(hist), "queries": sum(map(len, hist))}
        c.sample({"fonts": set_, "session": [q.show() for q in hist[0]], "expected": str(spec[0][0])[:300]})
        c.log(set_, len(hist))
    c.assume = ["the sfnt package reads the fonts' tables rightly (glyph of a code point, advance, bounds at 12 per em, kern table)",
                "bounds are those of the outline at 12 pixels per em, as the goldens of the repository pin them"]


def run(c):
    {"C19": c19, "C20": c20}[c.pid](c)
