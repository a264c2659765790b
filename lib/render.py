"""C18 (rendering), C22 (images), C25 (command line): decided by Render,
Raster and Cli."""
import base64, json, math, os, unicodedata
import vf
from front import enc, esc, escs, show
from typeset import (ARITY, FUNCTIONS, Gen, LETTERS, MACSYMS, SPACES, TEX2UNI, U, macro_names, model, nested,
                     source, symbols_of)

DEN = 768000
TOL = 0.002


# ---------------------------------------------------------------- real fonts
def code_point(sym, math_):
    """the code point of a symbol (frozen table)"""
    if sym == "-" and math_:
        return 0x2212
    if len(sym) == 1:
        return ord(sym)
    return TEX2UNI[sym[1:]] if sym != "\\__sqrt__" else TEX2UNI["__sqrt__"]


def slot(sym, ty, math_=True):
    """the font that has the glyph of a symbol requested in style ty"""
    cp = code_point(sym, math_)
    if ty == "it" and cp < 0x10000 and unicodedata.category(chr(cp))[0] != "L":
        return "rm"
    return ty


def font_tables(c, drv, fset, syms):
    """glyphs and kerns of a font set, as the model wants them: what new
    backends answer at a size that makes everything whole"""
    r = c.drive(drv, "fonttab", [{"Set": fset, "Den": DEN, "Kern": True,
                                  "Syms": [base64.b64encode(enc(s)).decode() for s in syms]}])[0]
    if "tab" not in r:
        return None, None, str(r)
    # ("tab" keys are Go strings: safe for all valid UTF-8)
    G, K = {}, {}
    for x in r["tab"]:
        m = [round(v) for v in x["M"]]
        if any(abs(v - w) > 1e-3 for v, w in zip(x["M"], m)):
            raise vf.Broken("metrics of %r are not whole: %s" % (x["K"], x["M"]))
        G[x["K"]] = dict(zip(("a", "w", "h", "i", "x0", "x1", "y0", "y1"), m), sp=x["K"].startswith(" |"))
    for k in r["kerns"]:
        for m in "mt":
            for n in "mt":
                K.setdefault("%s|%s|%s" % (k["A"], k["TA"], m), {})["%s|%s|%s" % (k["B"], k["TB"], n)] = round(k["V"])
    return (G, K, round(r["thick"])), None, None


# ---------------------------------------------------------------- C18
def judge_call(q, im, fset, size, dpi):
    """one call of the renderer against the model's"""
    if im["dpi"] != dpi:
        return "resolution %s handed to the renderer, requested %s" % (im["dpi"], dpi)
    if abs(im["w"] * 72 - q["w"] / U) > TOL:
        return "page width %.5f pt, expected %.5f" % (im["w"] * 72, q["w"] / U)
    hs = {q["h"]}
    if q["x"] <= TOL * U and (q["h"] or q["dr"]):      # (almost) a whole number of points
        hs |= {q["h"] + 1} if q["x"] == 0 else {q["h"] - 1}
    if q["x"] and U - q["x"] <= TOL * U:
        hs.add(q["h"] + 1)
    if min(abs(im["h"] * 72 - x) for x in hs) > 1e-9 * max(1, q["h"]):
        return "page height %.9f pt, expected %s" % (im["h"] * 72, sorted(hs))
    want, got = q["dr"], im["ops"]
    def name(d):
        return d[1].rsplit("|", 2)
    ws = ["U+%04X" % code_point(unesc(name(d)[0]), True) if d[0] == "g" else "rule" for d in want]
    gs = [" ".join("U+%04X" % x for x in d[1]) if d[0] == "g" else "rule" for d in got]
    if ws != gs:
        return "drawing handed over: %s\n  expected: %s" % (" ".join(gs), " ".join(ws))
    below = None
    for i, (a, b) in enumerate(zip(want, got)):
        if a[0] == "g":
            s = slot(unesc(name(a)[0]), name(a)[1])
            if b[2] != s and not (fset in ("go", "nil", "lib", "lm") and {b[2], s} <= {"rm", "default"}):
                return "glyph %d (%s) from font %s, expected %s" % (i + 1, ws[i], b[2], s)
            if b[6] != "ok":
                return "glyph %d (%s): the glyph index is not that of its code point" % (i + 1, ws[i])
            if abs(b[3] - a[2] / U) > TOL * max(1, size / 10):
                return "glyph %d (%s) at size %s, expected %.4f" % (i + 1, ws[i], b[3], a[2] / U)
            if not q["tie"] and max(abs(a[3] / U - b[4]), abs(a[4] / U - b[5])) > TOL:
                return "glyph %d (%s) at (%.4f, %.4f), expected (%.4f, %.4f)" % (i + 1, ws[i], b[4], b[5], a[3] / U, a[4] / U)
        elif not q["tie"]:
            w, g = [x / U for x in a[2:6]], b[1:5]
            t = w[3] - w[1]
            off = [v * t for v in ((0, 1) if below is None else (below,))]
            fit = [v for v in off if all(abs(x + (v if j % 2 else 0) - y) <= TOL for j, (x, y) in enumerate(zip(w, g)))]
            if not fit:
                return "rule %d over %s, expected %s" % (i + 1, g, w)
            if t > 2 * TOL:
                below = fit[0] / t
    return None


def unesc(s):
    out, i = "", 0
    while i < len(s):
        if s[i] == "\x01":
            j = s.index("\x02", i)
            out += chr(int(s[i + 1:j], 16))
            i = j + 1
        else:
            out += s[i]
            i += 1
    return out


def text_minus(outs):
    """a hyphen in text: what backends answer about it is C19's listed finding"""
    return any(d[0] == "g" and d[1] in ("-|rm|t", "-|it|t") for o in outs for k in o["calls"] for d in k["dr"])


def judge_session(spec, im, reqs, fset):
    if "outs" not in im:
        return "crash: %s" % (im.get("crash") or im.get("panic"))
    for i, (s, g, q) in enumerate(zip(spec, im["outs"], reqs)):
        pre = "request %d (%s at %s pt, %s dpi): " % (i + 1, show(enc(q[0])), q[1], q[2])
        if len(g["calls"]) != len(s["calls"]):
            return pre + "%d calls of the renderer, expected %d (error: %r)" % (len(g["calls"]), len(s["calls"]), g["err"])
        if s["r"] == "ok" and g["err"]:
            return pre + "unexpected error %r" % g["err"]
        if s["r"] == "invalid" and not g["err"]:
            return pre + "accepted, although invalid"
        if s["r"] == "failed" and not g["err"]:
            return pre + "the error of the renderer is lost"
        if s["r"] == "failed" and not g["is"]:
            return pre + "the error returned (%r) is not that of the renderer" % g["err"]
        if s["r"] == "invalid" and g["is"]:
            return pre + "the error returned is not that of the expression"
        for a, b in zip(s["calls"], g["calls"]):
            e = judge_call(a, b, fset, q[1], q[2])
            if e:
                return pre + e
            if g["later"] != b["ops"]:
                return pre + "the drawing changed after it was handed over"
    return None


SETS = ["go", "nil", "lib", "lm", "stix"]


def c18(c):
    drv = c.build()
    r = c.rng
    fam = c.cov.setdefault("families", {})
    queue = []                 # (set, requests, expected outcomes, label)

    def sessions(fset, sess, label, enum=None):
        """sess: lists of (source, size, dpi, fail)"""
        srcs = sorted({q[0] for s in (sess or [enum[0]]) for q in s})
        tabs, _, err = font_tables(c, drv, "go" if fset == "nil" else fset, symbols_of(srcs))
        if err:
            c.violation("the font backend fails on set %s: %s" % (fset, err), {"set": fset})
            return
        G, K, th = tabs
        req = lambda q: dict(s=source(q[0]), z=round(q[1] * U), dpi=round(2 * q[2]), fail=q[3])
        if enum:
            cf = model(G, K, th, DEN, [], pool=[req(q) for q in enum[0]], maxlen=enum[1])
            for x in c.tlc_cases("MCRender.tla", "RenderEnum.cfg", cf, "RENDER_IN"):
                queue.append((fset, [enum[0][j - 1] for j in x["i"]], x["outs"], label))
        else:
            cf = model(G, K, th, DEN, [dict(reqs=[req(q) for q in s]) for s in sess])
            res = {x["i"]: x for x in c.tlc_cases("MCRender.tla", "RenderCase.cfg", cf, "RENDER_IN")}
            if len(res) != len(sess):
                raise vf.Broken("%d results for %d sessions" % (len(res), len(sess)))
            for i, s in enumerate(sess):
                queue.append((fset, s, res[i + 1]["outs"], label))
        c.log(label, fset, len(sess) if sess else "")

    pool = [("$x+\\frac{a}{2}$", 12, 72, False), ("$x+\\frac{a}{2}$", 12, 300, False), ("$x+\\frac{a}{2}$", 12, 72, True),
            ("$\\frac{a}$ \\foo", 12, 72, False), ("ab $\\sqrt{g}$", 20, 96, False), ("", 10, 72, False), ("$y^2$", 10, 72, True)]
    sessions("lib", None, "all sessions", enum=(pool, c.pick(2, 3)))
    sessions("nil", None, "all sessions", enum=(pool[:4], 2))
    g = Gen(r, dict(minus=1, dots=1, empty=.05, con=4))
    dpis = [72, 72, 100, 96, 256, 36.5, 300, 1, 600, 1200, 2400, 9600, 20]
    zs = [12, 12, 10, 20, 7.5, 33, 5, 100, 8, 17, 48, 250, 1]
    one, _ = nested(["x", "g1", ""])
    n = c.pick(60, 1500)
    for fset in SETS:
        srcs = [g.expr(r.choice([1, 2, 3])) for _ in range(n)]
        srcs += ["$%s$" % x for x in r.sample(one, c.pick(12, len(one)))] + ["a%sb" % x for x in r.sample(one, c.pick(6, len(one)))]
        srcs += ["$a%s b$" % m for m in r.sample(MACSYMS, c.pick(25, 200))]
        srcs += ["$\\sin x\\exp{y}$", "\\sum g$\\int \\Gamma Jfy$", "A\\pm V. T", "$f(x)=ax-b$", "$\\hspace{2}$", " ", "$\\!$", "$g$", "(", "$\\langle x\\rangle$"]
        srcs += ["$x_i$", "$a&b$", "}", "\\nope", "$\\frac{a}$"]       # refused
        sess, i = [], 0
        r.shuffle(srcs)
        while i < len(srcs):
            k = r.choice([1, 2, 3])
            sess.append([(s, r.choice(zs), r.choice(dpis), r.random() < .15) for s in srcs[i:i + k]])
            i += k
        sessions(fset, sess, "generated sessions")
    r.shuffle(queue)
    drop = 0
    todo = []
    for x in queue:
        if text_minus(x[2]):
            drop += 1
        else:
            todo.append(x)
    res = c.drive(drv, "render", [{"Reqs": [dict(Set=f, S=base64.b64encode(enc(q[0])).decode(), Size=q[1], DPI=q[2], Fail=q[3])
                                            for q in s]} for f, s, _, _ in todo])
    for (f, s, sp, label), im in zip(todo, res):
        c.traces += 1
        e = judge_session(sp, im, s, f)
        if e:
            c.violation("%s\n  fonts %s (%s)" % (e, f, label), {"set": f, "session": s, "spec": sp, "impl": im})
        d = fam.setdefault("%s, fonts %s" % (label, f), {"sessions": 0, "requests": 0})
        d["sessions"] += 1
        d["requests"] += len(s)
    m = len(todo) // 2
    c.sample({"session": todo[m][1], "fonts": todo[m][0], "expected": str(todo[m][2])[:300]})
    c.cov["sessions left out (hyphen in text: listed finding of C19)"] = drop
    c.assume = ["glyph metrics and kerning are what new font backends answer (they are C19 and C20)",
                "the symbol tables are those of spec/data"]


# ---------------------------------------------------------------- C22
from fractions import Fraction


def size_ok(w, dpi):
    """the size in floating point and the exact one round up alike"""
    f, e = math.ceil(float(w) * dpi), math.ceil(w * Fraction(dpi))
    return f == e


def judge_image(sp, img, err, glyphs):
    if sp["r"] == "error":
        return None if err else "no error, although there is no image of %d x %d pixels" % (sp["w"], sp["h"])
    if err:
        return "unexpected error %r" % err
    if "bad" in img:
        return "not a PNG image: %s" % img["bad"]
    if (img["w"], img["h"]) != (sp["w"], sp["h"]):
        return "image of %d x %d pixels, expected %d x %d" % (img["w"], img["h"], sp["w"], sp["h"])
    if img["x0"] or img["y0"]:
        return "the image starts at pixel (%d, %d)" % (img["x0"], img["y0"])
    alpha = base64.b64decode(img["alpha"] or "")
    tg, tb, s1, s2 = (40, 12, 0, 0) if glyphs else (12, 0, 0, 0)
    for k, (a, see) in enumerate(zip(alpha, sp["see"])):
        want = 255 - see * 255 / 10000
        s1 += a
        s2 += want
        tol = tb if see in (0, 10000) and not glyphs else tb if see == 10000 else tg
        if abs(a - want) > tol:
            return "pixel (%d, %d) has opacity %d, expected %.0f (of 255)" % (k % sp["w"], k // sp["w"], a, want)
    if glyphs and abs(s1 - s2) > 255 + .03 * s2:
        return "total opacity %.0f, expected %.0f" % (s1, s2)
    if not img["black"]:
        return "the paint is not black"
    return None


def mask_key(o, dpi):
    return (o["Set"], o["Slot"], o["Rune"], o["Size"], o["X1"], o["Y1"], dpi)


def c22(c):
    drv = c.build()
    r = c.rng
    fam = c.cov.setdefault("families", {})

    def masks(pages):
        """the shapes of all glyphs"""
        keys = list(dict.fromkeys(mask_key(o, p["dpi"]) for p in pages for o in p["ops"] if o["K"] == "g"))
        res = c.drive(drv, "mask", [dict(Set=k[0], Slot=k[1], Rune=k[2], Size=k[3], X=k[4], Y=k[5], DPI=k[6]) for k in keys])
        bad = [x for x in res if "m" not in x]
        if bad:
            raise vf.Broken("no shape for a glyph: %s" % bad[0])
        return dict(zip(keys, res))

    def spec_page(p, M):
        g = p["g"]
        ops = []
        for o in p["ops"]:
            if o["K"] == "r":
                ops.append(dict(k="r", x1=o["x1"], y1=o["y1"], x2=o["x2"], y2=o["y2"]))
            else:
                ops.append(dict(M[mask_key(o, p["dpi"])], k="g"))
        return dict(wn=p["w"].numerator, wd=p["w"].denominator, hn=p["h"].numerator, hd=p["h"].denominator,
                    dpi=round(2 * p["dpi"]), g=g, ops=ops, fail=False)

    def request(p, caps=()):
        ops = [dict(K="r", **{k.upper(): o[k] / p["g"] for k in ("x1", "y1", "x2", "y2")}) if o["K"] == "r" else o for o in p["ops"]]
        return dict(W=float(p["w"]), H=float(p["h"]), DPI=p["dpi"], Ops=ops, Caps=list(caps))

    def compare(pages, specs, label, caps):
        res = c.drive(drv, "image", [request(p, caps) for p in pages])
        for p, sp, im in zip(pages, specs, res):
            c.traces += 1
            gl = any(o["K"] == "g" for o in p["ops"])
            if "crash" in im or "panic" in im:
                e = "crash: %s" % (im.get("crash") or im.get("panic"))
            else:
                e = judge_image(sp, im.get("img"), im["err"], gl)
                if not e and sp["r"] == "image":
                    if im.get("err2"):
                        e = "rendering again fails: %s" % im["err2"]
                    elif not im["same"]:
                        e = "rendering the same drawing again gives another image"
                    else:
                        for s, x in zip(caps, im["caps"] or []):
                            if x != ("ok" if s >= 1 else "reported"):
                                e = "a writer that takes %s of the image: %s" % ("all" if s >= 1 else "%d%%" % (100 * s), x)
                                break
            if e:
                c.violation("%s\n  page %s x %s in at %s dpi, operations %s (%s)" % (
                    e, p["w"], p["h"], p["dpi"], [{k: v for k, v in o.items()} for o in p["ops"]][:6], label),
                    {"page": request(p), "impl": str(im)[:2000], "label": label})
        d = fam.setdefault(label, {"images": 0, "pixels": 0})
        d["images"] += len(pages)
        d["pixels"] += sum(s["w"] * s["h"] for s in specs if s["w"] > 0 and s["h"] > 0)
        c.sample({"family": label, "page": str(request(pages[len(pages) // 2]))[:300]})
        c.log(label, len(pages))

    def cases(pages, label, caps=()):
        M = masks(pages)
        res = {x["i"]: x for x in c.tlc_cases("MCRaster.tla", "RasterCase.cfg", dict(cases=[spec_page(p, M) for p in pages]), "RASTER_IN")}
        if len(res) != len(pages):
            raise vf.Broken("%d results for %d pages" % (len(res), len(pages)))
        compare(pages, [res[j + 1] for j in range(len(pages))], label, caps)

    def rect(x1, y1, x2, y2):
        return dict(K="r", x1=x1, y1=y1, x2=x2, y2=y2)

    # every drawing of a few rectangles (units: quarters of a point, one point to a pixel)
    pool = [rect(4, 4, 16, 12), rect(0, 0, 24, 20), rect(6, 5, 9, 14), rect(14, 18, 2, 3), rect(-8, 8, 40, 9),
            rect(5, 5, 5, 15), rect(17, -10, 60, 7), rect(30, 30, 40, 40)]
    page = dict(w=Fraction(6, 72), h=Fraction(5, 72), dpi=72, g=4, ops=[])
    if not size_ok(page["w"], 72) or not size_ok(page["h"], 72):
        raise vf.Broken("unusable page")
    ml = c.pick(2, 3)
    specs = c.tlc_cases("MCRaster.tla", "RasterEnum.cfg",
                        dict(cases=[], maxlen=ml, pool=[spec_page(dict(page, ops=[o]), {})["ops"][0] for o in pool],
                             page=spec_page(page, {})), "RASTER_IN")
    if len(specs) != sum(len(pool) ** k for k in range(ml + 1)):
        raise vf.Broken("enumeration incomplete")
    compare([dict(page, ops=[pool[j - 1] for j in s["i"]]) for s in specs], specs,
            "all drawings of <=%d of %d rectangles" % (ml, len(pool)), [0, .5, .999, 1])

    # generated pages
    runes = [ord(x) for x in "agxM1+=(Ω∑√-.fij%"]
    def gen():
        while True:
            dpi = r.choice([72, 72, 36, 100, 96, 144, 150, 300, 50.5, 60, 600, 1200, 10])
            g = r.choice([1, 4, 64, 100])
            npx = lambda: r.choice([0, 1, 2, 5, 8, 13, 20, 27] if r.random() < .3 else [6, 9, 14, 19, 24])
            w, h = [Fraction(max(0, npx() * r.choice([8, 8, 7, 5]) + r.choice([0, 0, 1, 3, -1])), 8) / Fraction(r.choice([dpi, dpi, 72])) for _ in range(2)]
            if r.random() < .3:
                w, h = Fraction(r.randrange(1, 40), 100), Fraction(r.randrange(1, 30), 100)
            if r.random() < .06:    # hardly more, or less, than a whole number of pixels
                dpi = 1
                w, h = [Fraction(r.randrange(1, 20)) + r.choice([0, 1, -1]) * Fraction(1, 39999) for _ in range(2)]
            if w * Fraction(dpi) * h * Fraction(dpi) <= 900 and size_ok(w, dpi) and size_ok(h, dpi) and w.denominator < 40000:
                break
        ops = []
        ppt = dpi / 72
        W, H = float(w) * dpi / ppt, float(h) * dpi / ppt       # in points
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            if r.random() < .55:
                x, y = [sorted(round(r.uniform(-.4, 1.4) * q * g) for _ in range(2)) for q in (W, H)]
                if r.random() < .15:
                    x = [x[1], x[0]]
                if r.random() < .15:
                    y = [y[1], y[0]]
                if r.random() < .3:     # thin, as fraction bars
                    y[1] = y[0] + max(1, g // 4)
                ops.append(rect(x[0], y[0], x[1], y[1]))
            else:
                ops.append(dict(K="g", Set=r.choice(["go", "lib", "lm", "stix"]), Slot=r.choice(["rm", "it", "bf"]), Rune=r.choice(runes),
                                Size=r.choice([12, 10, 5, 8.4, 20, 7.3, 3]), X1=round(r.uniform(-.2, 1) * W, 2), Y1=round(r.uniform(0, 1.3) * H, 2)))
        return dict(w=w, h=h, dpi=dpi, g=g, ops=ops)
    for _ in range(c.pick(2, 20)):
        cases([gen() for _ in range(c.pick(150, 250))], "generated drawings", [0, .9, 1])

    # drawings of expressions
    g = Gen(r, dict(con=5, empty=.02))
    srcs = ["$f(x)=ax+b$", "$\\frac{\\sqrt{x+2}}{2\\pi}$", "$\\sqrt[3]{x}$", "$\\binom{n}{k}$", "$\\overline{ab}$", "a $\\delta x$"]
    srcs += [g.expr(r.choice([1, 2])) for _ in range(c.pick(14, 150))]
    reqs = [dict(Set=r.choice(["go", "nil", "lib", "lm", "stix"]), S=base64.b64encode(enc(s)).decode(), Size=r.choice([12, 10, 8, 14.5]),
                 DPI=r.choice([72, 72, 96, 60, 110]), Image=True) for s in srcs]
    res = c.drive(drv, "render", [{"Reqs": [q]} for q in reqs])
    pages, imgs = [], []
    for s, q, x in zip(srcs, reqs, res):
        o = x["outs"][0] if "outs" in x else None
        if not o or not o["calls"]:
            continue
        k = o["calls"][0]
        # (measured to a thousandth of a point)
        p = dict(w=Fraction(round(k["w"] * 72000), 72000), h=Fraction(round(k["h"] * 72), 72), dpi=q["DPI"], g=1000, ops=[], src=s)
        if p["w"] <= 0 or p["h"] <= 0 or p["w"] * p["h"] * q["DPI"] ** 2 > 6000 or not size_ok(p["w"], q["DPI"]) or not size_ok(p["h"], q["DPI"]) \
                or math.ceil(k["w"] * q["DPI"]) != math.ceil(p["w"] * Fraction(q["DPI"])):
            continue
        for op in k["ops"]:
            if op[0] == "r":
                p["ops"].append(rect(*[round(v * 1000) for v in op[1:]]))
            else:
                p["ops"].append(dict(K="g", Set="go" if q["Set"] == "nil" else q["Set"], Slot=op[2], Rune=op[1][0], Size=op[3], X1=op[4], Y1=op[5]))
        pages.append(p)
        imgs.append((o.get("img"), o.get("imgerr", "")))
    M = masks(pages)
    specs = {x["i"]: x for x in c.tlc_cases("MCRaster.tla", "RasterCase.cfg", dict(cases=[spec_page(p, M) for p in pages]), "RASTER_IN")}
    for j, (p, (img, err)) in enumerate(zip(pages, imgs)):
        c.traces += 1
        e = judge_image(specs[j + 1], img, err, True)
        if e:
            c.violation("%s\n  expression %s at %s dpi" % (e, p["src"], p["dpi"]), {"source": p["src"], "dpi": p["dpi"], "page": request(p)})
    fam["drawings of expressions"] = {"images": len(pages), "pixels": sum(s["w"] * s["h"] for s in specs.values())}
    c.log("drawings of expressions", len(pages))
    c.assume = ["the shape of a glyph is its outline in the font, rasterized by golang.org/x/image/vector",
                "positions are represented to 1/64 of a pixel: opacities of partly covered pixels are compared to within 5% (16% with glyphs)",
                "sizes are not negative and their product with the resolution is not within rounding of a whole number"]


# ---------------------------------------------------------------- C25
FILES = {"out.png": "fine", "a.png": "fine", "old.png": "fine", "sub/b.png": "fine", "no/such/x.png": "absent", "dir": "folder", "full.png": "full"}


def c25(c):
    import shutil, subprocess
    from concurrent.futures import ThreadPoolExecutor
    drv = c.build()
    exe = c.gobuild("./cmd/mtex-render", os.path.join(c.work, "mtex-render"))
    r = c.rng
    fam = c.cov.setdefault("families", {})

    def unit(k, words, v=None):
        return dict(k=k, v=v, n=len(words), words=words, s=words[0])

    def opt(k, v, form=None):
        """an option; v: text of its value"""
        name = {"dpi": "dpi", "size": "font-size", "out": "o"}[k]
        form = form or r.choice(["-%s=%s", "--%s=%s", "-%s %s", "--%s %s"])
        words = [form.split(" ")[0] % name, v] if " " in form else [form % (name, v)]
        return unit(k, words, v if k == "out" else round(float(v) * (100 if k == "dpi" else U)))

    def strip(u):
        d = dict(k=u["k"], n=u["n"], s=source(u["s"]))
        if u["v"] is not None:
            d["v"] = u["v"]
        return d

    def invoke(k, args):
        cwd = os.path.join(c.work, "cli", str(k))
        os.makedirs(os.path.join(cwd, "dir"))
        os.makedirs(os.path.join(cwd, "sub"))
        with open(os.path.join(cwd, "old.png"), "wb") as f:
            f.write(b"what was there before " * 20000)
        os.symlink("/dev/full", os.path.join(cwd, "full.png"))
        user = c.unprivileged(cwd)
        try:
            p = subprocess.run([exe] + [w for u in args for w in u["words"]], cwd=cwd, env=dict(vf.GOENV), stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, **user)
        except subprocess.TimeoutExpired:
            return None, "", cwd
        return p.returncode, (p.stderr + p.stdout).decode("utf-8", "replace"), cwd

    def batch(invs, specs, label):
        with ThreadPoolExecutor(8) as ex:
            ran = list(ex.map(lambda x: invoke(*x), enumerate(invs)))
        want = c.drive(drv, "picture", [dict(Set="lib", S=base64.b64encode(enc(source_of(a, s))).decode(), Size=s["wrote"][0]["size"] / U,
                                                 DPI=s["wrote"][0]["dpi"] / 100) for a, s in zip(invs, specs) if s["wrote"]])
        got = c.drive(drv, "png", [dict(File=os.path.join(x[2], s["wrote"][0]["name"])) for x, s in zip(ran, specs) if s["wrote"]])
        pics = iter(list(zip(want, got)))
        for a, s, (rc, msg, cwd) in zip(invs, specs, ran):
            c.traces += 1
            e = None
            line = " ".join(w if w.replace("-", "").isalnum() else repr(w) for u in a for w in u["words"])
            pic = next(pics) if s["wrote"] else None
            if rc is None:
                e = "the command does not end"
            elif rc < 0 or "goroutine " in msg:
                e = "the command crashes: %s" % msg[-300:]
            elif s["exit"] == 0:
                w, g = pic
                q = s["wrote"][0]
                near = abs(q["pw"] * q["dpi"] / (7200 * U) - round(q["pw"] * q["dpi"] / (7200 * U))) < .01
                if rc != 0:
                    e = "exit status %d (%s), expected success" % (rc, msg[-200:].strip())
                elif "bad" in g:
                    e = "no picture in %s: %s" % (q["name"], g["bad"])
                elif "img" not in w:
                    e = "the library gives no picture: %s" % str(w)[:300]
                elif g != w["img"]:
                    e = "the picture written (%d x %d) differs from that of the library (%d x %d)" % (g["w"], g["h"], w["img"]["w"], w["img"]["h"])
                elif abs(g["w"] - q["w"]) > near or g["h"] - q["h"] not in ((0, 1) if q["h"] * 7200 % q["dpi"] == 0 else (0,)):
                    e = "picture of %d x %d pixels, expected %d x %d" % (g["w"], g["h"], q["w"], q["h"])
            elif rc == 0 and not os.path.islink(os.path.join(cwd, "full.png")):
                pass    # (the link to the full disk was replaced by a file)
            elif rc == 0:
                e = "exit status 0, although it must fail"
            elif not msg.strip():
                e = "failure without a message"
            if e:
                c.violation("%s\n  mtex-render %s (%s)" % (e, line, label), {"args": [w for u in a for w in u["words"]], "spec": s})
            shutil.rmtree(cwd, ignore_errors=True)
        d = fam.setdefault(label, {"invocations": 0, "pictures": 0})
        d["invocations"] += len(invs)
        d["pictures"] += sum(bool(s["wrote"]) for s in specs)
        m = len(invs) // 2
        c.sample({"args": [w for u in invs[m] for w in u["words"]], "expected": str(specs[m])[:200]})
        c.log(label, len(invs))

    def source_of(a, s):
        return next(w for w in reversed([w for u in a for w in u["words"]]))

    def conf(srcs, **kw):
        tabs, _, err = font_tables(c, drv, "lib", symbols_of(srcs))
        if err:
            c.violation("the font backend fails: %s" % err, {})
            return None
        G, K, th = tabs
        return model(G, K, th, DEN, kw.pop("cases", []), files=FILES, **kw)

    def cases(invs, label):
        cf = conf(sorted({u["s"] for a in invs for u in a}), cases=[dict(args=[strip(u) for u in a], files=FILES) for a in invs])
        if cf:
            res = {x["i"]: x for x in c.tlc_cases("MCCli.tla", "CliCase.cfg", cf, "CLI_IN")}
            if len(res) != len(invs):
                raise vf.Broken("%d results for %d invocations" % (len(res), len(invs)))
            batch(invs, [res[j + 1] for j in range(len(invs))], label)

    E = "-%s=%s"
    pool = [opt("dpi", "96", E), opt("size", "20", "--%s=%s"), opt("out", "a.png", "-%s %s"), opt("out", "dir", E), unit("end", ["--"]),
            unit("arg", ["$\\frac{a}{b}$"]), unit("arg", ["$x"]), unit("arg", ["\\foo"]), unit("bad", ["-nope"])]
    cf = conf([u["s"] for u in pool], pool=[strip(u) for u in pool], maxlen=c.pick(3, 4))
    if cf:
        # (an expression with a hyphen in text: the font memory is C19's finding)
        specs = c.tlc_cases("MCCli.tla", "CliEnum.cfg", cf, "CLI_IN")
        if len(specs) != sum(len(pool) ** k for k in range(c.pick(3, 4) + 1)):
            raise vf.Broken("enumeration incomplete")
        batch([[pool[j - 1] for j in s["i"]] for s in specs], specs, "all invocations with <=%d arguments" % c.pick(3, 4))
    g = Gen(r, dict(con=4, dots=1))
    invs = []
    for _ in range(c.pick(150, 2500)):
        a = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            x = r.random()
            a.append(opt("dpi", r.choice(["72", "96", "100", "150", "300", "36.5", "72.0", "1e2", "72.3", "100.1", "299.97", "72.27", "61.64", "90.9"])) if x < .35 else
                     opt("size", r.choice(["12", "10", "7.5", "24", "33", "8", "10.95", "14.4", "9.01", "100"])) if x < .7 else
                     opt("out", r.choice(["out.png", "a.png", "old.png", "old.png", "sub/b.png", "sub/b.png", "no/such/x.png", "dir", "full.png"])) if x < .97 else
                     unit("bad", r.choice([["-dpi=abc"], ["-x"], ["--font-size="], ["-o=a.png", "-dpix", "3"][1:2]])))
        if r.random() < .2:
            a.append(unit("end", ["--"]))
        n = r.choice([0] + [1] * 14 + [2])
        for _ in range(n):
            s = r.choice(["", "}", "\\nope", "$x_i$", "a&b"]) if r.random() < .1 else g.expr(r.choice([1, 2]))
            if s[:1] == "-" or "\\!" in s:
                s = "x"
            a.append(unit("arg", [s]))
        if r.random() < .04:
            a.append(opt("dpi", "96"))
        invs.append(a)
    # hyphens in text are left out: listed finding of C19
    invs = [a for a in invs if not any("-" in u["s"] and u["k"] == "arg" and not hyphen_free(u["s"]) for u in a)]
    cases(invs, "generated invocations")
    c.assume = ["the picture of the library is that of mtex.Render and drawimg with the Liberation fonts (they are C18 and C22)",
                "a full disk is /dev/full, behind a link; the command runs as an unprivileged user", "-gui is not used"]


def hyphen_free(s):
    """no hyphen outside of formulas"""
    return all("-" not in x for x in s.split("$")[::2])


def run(c):
    {"C18": c18, "C22": c22, "C25": c25}[c.pid](c)
