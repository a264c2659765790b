"""C29: the vector drawing in the window of mtex-render -gui, decided by Vector."""
from concurrent.futures import ThreadPoolExecutor
import vf
from gui import b64, build, text
from loop import BAD, POOL
from typeset import Gen, PLAIN, OPS, RELS
from render import hyphen_free

ENV = {"VERIF_GUI": "1", "EGL_PLATFORM": "surfaceless"}
MAXW, MAXH = 1000, 180         # pictures up to that size are looked at


def pixels(marks):
    """first row and column, numbers of the dark and of the grey pixels"""
    n = lambda x, y: (y + 100) * 4000 + x + 100
    return dict(left=min((x for x, _, _ in marks), default=0), top=min((y for _, y, _ in marks), default=0),
                dark=[n(x, y) for x, y, k in marks if 4 * k > 3 * 255], grey=[n(x, y) for x, y, k in marks if 5 * k > 2 * 255])


def run(c):
    drv = build(c)
    r = c.rng
    fam = c.cov.setdefault("families", {})
    pics = {}      # text -> picture or None

    def drive(reqs):
        n = max(1, min(60, (len(reqs) + 7) // 8))
        parts = [reqs[k:k + n] for k in range(0, len(reqs), n)]
        with ThreadPoolExecutor(8) as ex:
            out = ex.map(lambda k: c._drive(drv, "", parts[k], 800, ENV, "-v%d" % k), range(len(parts)))
            return [x for p in out for x in p]

    def learn(texts):
        todo = sorted(set(texts) - set(pics))
        for t, o in zip(todo, drive([dict(Vec=True, HasPic=True, Pic=t) for t in todo])):
            if "pic" not in o:
                raise vf.Broken("no reference picture of %r: %s" % (text(t), str(o)[:500]))
            pics[t] = o["pic"] and dict(pixels(o["pic"].pop("pix")), **o["pic"])

    def small(t):
        p = pics[t]
        return p is None or p["w"] <= MAXW and p["h"] <= MAXH

    def show(ev):
        return "; ".join(("%d: " % (e["Win"] + 1) if e.get("Win") else "") + e["K"] + (" %r" % text(e["T"]) if "T" in e else
                         " %dx%d (%s)" % (e["W"], e["H"], e["S"]) if e["K"] == "size" else "") for e in ev)

    def judge(hists, label):
        learn([e["T"] for _, ev in hists for e in ev if "T" in e])
        hists = [h for h in hists if all(small(e["T"]) for e in h[1] if "T" in e)]
        res = drive([dict(Vec=True, Wins=n, Events=ev) for n, ev in hists])
        learn([o["T"] for x in res for o in x.get("obs") or [] if o["K"] != "see"])
        d = fam.setdefault(label, {"histories": 0, "drawings": 0, "marks": 0})
        for lo in range(0, len(hists), 300):
            part = range(lo, min(len(hists), lo + 300))
            ts = sorted({o["T"] for k in part for o in res[k].get("obs") or [] if o["K"] != "see"})
            tn = {t: j + 1 for j, t in enumerate(ts)}
            conf = dict(texts=list(tn.values()), renderable=[j for t, j in tn.items() if pics[t]],
                        pics=[pics[t] or dict(pixels([]), w=0, h=0, marks=[]) for t in ts], first=1, len=0)
            cases, which = [], []
            for k in part:
                x, (n, ev) = res[k], hists[k]
                c.traces += 1
                if "panic" in x or "crash" in x:
                    c.violation("the window fails: %s\n  after %s (%s)" % (str(x.get("panic") or x.get("crash"))[:400], show(ev), label), {"events": ev, "impl": str(x)[:4000]})
                    continue
                if not x["shots"]:
                    raise vf.Broken("there is no software EGL here: the window cannot be drawn")
                obs = x["obs"]
                which.append(k)
                cases.append(dict(first=[tn[o["T"]] for o in obs[:n]],
                                  trace=[dict(k="see", w=o["Win"] + 1, marks=o.get("Marks") or [], **pixels(o.get("Pix") or [])) if o["K"] == "see" else
                                         dict(k=o["K"], w=o["Win"] + 1, t=tn[o["T"]]) for o in obs[n:]]))
                d["drawings"] += n
                d["marks"] += sum(len(o.get("Marks") or []) for o in obs)
            left = {}
            if cases:
                for x in c.tlc_cases("MCVector.tla", "VectorTrace.cfg", dict(conf, cases=cases), "VEC_IN"):
                    if x["left"] < left.get(x["i"], (1 << 30, 0))[0]:
                        left[x["i"]] = (x["left"], x["d"])
            for j, k in enumerate(which):
                n, want = left[j + 1]
                if n == 0:
                    continue
                o = res[k]["obs"][-n]
                if o["K"] != "see":
                    raise vf.Broken("the specification does not take event %d of %s" % (len(res[k]["obs"]) - n, show(hists[k][1])))
                s = ts[want[o["Win"]] - 1]
                m = o.get("Marks") or []
                c.violation("after %s\n  the vector drawing of window %d is not that of %r: %d marks, ink %d, in %s\n  instead of %d marks, ink %d, in a picture of %d x %d (%s)" % (
                    show(hists[k][1]), o["Win"] + 1, text(s), len(m), sum(y[2] for y in m), box(m),
                    len(pics[s]["marks"]), sum(y[2] for y in pics[s]["marks"]), pics[s]["w"], pics[s]["h"], label),
                    {"wins": hists[k][0], "events": hists[k][1], "drawing": m, "picture": pics[s]["marks"]})
        d["histories"] += len(hists)
        if hists:
            c.sample({"history": show(hists[len(hists) // 2][1]), "family": label})
        c.log(label, d)

    def box(m):
        return "cells %d..%d x %d..%d" % (min(x for x, _, _ in m), max(x for x, _, _ in m), min(y for _, y, _ in m), max(y for _, y, _ in m)) if m else "no cell"

    size = lambda: r.choice([dict(K="size", W=1200, H=1350, S=1)] * 3 + [dict(K="size", W=1400, H=2400, S=2), dict(K="size", W=1100, H=1550, S=1.25)])
    sub = lambda t, w=0: dict(K="submit", T=b64(t), Win=w)
    edit = lambda t, w=0: dict(K="edit", T=b64(t), Win=w)

    # every history of at most 2 (3) events
    n = c.pick(2, 3)
    hs = c.tlc_cases("MCVector.tla", "VectorEnum.cfg", dict(first=1, texts=[1, 2, 3], renderable=[1, 3], pics=[], len=n, cases=[]), "VEC_IN")
    hs = {tuple(h["h"]): h["d"] for h in hs}
    if len(hs) != sum(7 ** k for k in range(n + 1)):
        raise vf.Broken("enumeration incomplete: %d" % len(hs))
    hists = []
    for h in sorted(hs):
        if hs[h] == 0:
            continue       # nothing has to be drawn
        own = [r.choice(POOL), r.choice(BAD), r.choice(POOL)]
        hists.append((1, [size(), sub(own[0])] + [dict(K="frame") if x == 0 else sub(own[x - 1]) if x > 0 else edit(own[-x - 1]) for x in h]))
    judge(hists, "all histories of at most %d events" % n)

    # single expressions, generated
    g = Gen(r, dict(con=4, dots=1))

    def expr():
        while True:
            s = g.expr(r.choice([1, 1, 2]))
            if hyphen_free(s) and "\n" not in s:
                return s

    judge([(1, [size(), sub(expr())]) for _ in range(c.pick(130, 1500))], "expressions")

    # each symbol first, small and last
    sy = [m + " " if m[-1].isalpha() else m for m in sorted(set(PLAIN + OPS + RELS)) if hyphen_free(m)]
    judge([(1, [size(), sub("$%sx\\frac{%s}{a}%s$" % (m, m, m))]) for m in (r.sample(sy, 40) if not c.thorough else sy)], "symbols")

    # long ones
    def long():
        s = expr()
        while len(s) < 60:
            s += " " + expr()
        return s

    ex = [b64(long()) for _ in range(c.pick(60, 600))]
    learn(ex)
    ex = [t for t in ex if pics[t] and 450 < pics[t]["w"] <= MAXW][:c.pick(16, 160)]
    judge([(1, [size(), dict(K="submit", T=t, Win=0)]) for t in ex], "long expressions")

    # several windows, several submissions
    hists = []
    for _ in range(c.pick(40, 500)):
        wins = r.choice([1, 2, 2, 3])
        own = [expr() for _ in range(3)] + [r.choice(BAD)]
        ev = [dict(size(), Win=w) for w in range(wins)]
        for _ in range(r.choice([3, 6, 9])):
            w = r.randrange(wins)
            ev.append(r.choice([sub(r.choice(own), w), sub(r.choice(own), w), edit(r.choice(own), w), dict(K="frame", Win=w), dict(size(), Win=w)]))
        hists.append((wins, ev))
    judge(hists, "several windows and submissions")
    c.cov["expressions"] = {"with a picture": sum(p is not None for p in pics.values()), "without": sum(p is None for p in pics.values())}
    c.assume = ["the window is drawn by the toolkit's headless renderer (software EGL); the vector drawing is what disappears from it when an expression without a picture is submitted",
                "pictures of the library at 16 pt and 256 dpi (C18, C22) are the reference; cells of 4 x 4 pixels are compared, one cell beside counts as equal; what the picture cuts off at its edge is not judged"]
