"""C26: windows of mtex-render -gui, decided by Gui."""
import base64, json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
import vf
from front import enc
from typeset import Gen
from render import hyphen_free

SIZES = [(800, 900, 1), (800, 1400, 1), (1300, 1000, 1), (1700, 1900, 2), (1100, 1250, 1.25)]


def b64(s):
    return base64.b64encode(enc(s)).decode()


def text(b):
    return base64.b64decode(b).decode("utf-8", "replace")


def build(c):
    ov = os.path.join(c.work, "gui.json")
    with open(ov, "w") as f:
        json.dump({"Replace": {os.path.join(vf.REPO, "cmd/mtex-render", n): os.path.join(vf.VERIF, "guidriver", n)
                               for n in ("zz_verif_gui.go", "zz_verif_loop.go", "zz_verif_vec.go")}}, f)
    out = os.path.join(c.work, "gui")
    r = subprocess.run(["go", "build", "-overlay", ov, "-o", out, "./cmd/mtex-render"], cwd=vf.REPO,
                       env=dict(vf.GOENV, GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build")),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise vf.Broken("building the window driver failed:\n" + r.stdout[-4000:])
    return out


def run(c):
    drv = build(c)
    r = c.rng
    fam = c.cov.setdefault("families", {})
    pics = {}      # text -> picture ("" if it has none)

    def drive(reqs):
        n = max(1, (len(reqs) + 7) // 8)
        parts = [reqs[k:k + n] for k in range(0, len(reqs), n)]
        with ThreadPoolExecutor(8) as ex:
            out = ex.map(lambda k: c._drive(drv, "", parts[k], 600, {"VERIF_GUI": "1"}, "-g%d" % k), range(len(parts)))
            return [x for p in out for x in p]

    def learn(texts):
        todo = sorted(set(texts) - set(pics))
        for t, o in zip(todo, drive([dict(HasPic=True, Pic=t) for t in todo])):
            if "pic" not in o:
                raise vf.Broken("no reference picture of %r: %s" % (text(t), str(o)[:500]))
            pics[t] = o["pic"]

    def judge(hists, label):
        """hists: (number of windows, events)"""
        res = drive([dict(Wins=n, Events=ev) for n, ev in hists])
        learn([o["T"] for x in res for o in x.get("obs") or [] if o["K"] == "type"])
        cases, which = [], []
        for k, (x, (n, ev)) in enumerate(zip(res, hists)):
            c.traces += 1
            if "panic" in x or "crash" in x:
                c.violation("the window fails: %s\n  after %s (%s)" % (str(x.get("panic") or x.get("crash"))[:400], show(ev), label), {"events": ev, "impl": str(x)[:4000]})
                continue
            which.append(k)
        # numbers for texts and pictures of each history
        tn = {t: j + 1 for j, t in enumerate(sorted({o["T"] for k in which for o in res[k]["obs"] if o["K"] == "type"}))}
        pn = {p: j + 1 for j, p in enumerate(sorted({p for p in pics.values() if p}))}
        conf = dict(texts=list(tn.values()), renderable=[j for t, j in tn.items() if pics[t]],
                    pics=[pn.get(pics[t], 0) for t in sorted(tn)])
        for k in which:
            obs = res[k]["obs"]
            n = hists[k][0]
            cases.append(dict(first=[tn[o["T"]] for o in obs[:n]],
                              trace=[dict(k="type", w=o["Win"] + 1, t=tn[o["T"]]) if o["K"] == "type" else
                                     dict(k="press", w=o["Win"] + 1) if o["K"] == "press" else
                                     dict(k="frame", w=o["Win"] + 1, p=pn.get(o.get("Pic"), -1)) for o in obs[n:]]))
        left = {}
        if cases:
            for x in c.tlc_cases("MCGui.tla", "GuiTrace.cfg", dict(conf, cases=cases), "GUI_IN"):
                left[x["i"]] = min(x["left"], left.get(x["i"], 1 << 30))
        for j, k in enumerate(which):
            if left[j + 1] == 0:
                continue
            obs = res[k]["obs"][hists[k][0]:]
            at = len(obs) - left[j + 1]
            o = obs[at]
            if o["K"] != "frame":
                raise vf.Broken("the specification does not take event %d of %s" % (at, obs))
            known = [text(t) for t, p in pics.items() if p and p == o.get("Pic")]
            c.violation("after %s\n  the window shows %s (%s)" % (
                "; ".join(("%d: " % (e["Win"] + 1) if hists[k][0] > 1 else "") + (repr(text(e["T"])) if e["K"] == "type" else e["K"]) for e in obs[max(0, at - 8):at + 1]),
                "the picture of %r" % known[0] if known else "a picture of no submitted expression (%s)" % o.get("Pic"), label),
                {"events": hists[k][1], "observed": res[k]["obs"][:at + hists[k][0] + 1]})
        d = fam.setdefault(label, {"histories": 0, "frames": 0})
        d["histories"] += len(hists)
        d["frames"] += sum(o["K"] == "frame" for x in res for o in x.get("obs") or [])
        c.sample({"history": show(hists[len(hists) // 2][1]), "family": label})
        c.log(label, len(hists))

    def show(ev):
        return ", ".join(e["K"] + (" %r" % text(e["T"]) if "T" in e else "") for e in ev[:14])

    frame = dict(K="frame")
    press = lambda: dict(K=r.choice(["click", "point"]))

    # the specification itself: progress
    c.tlc_cases("MCGui.tla", "GuiLive.cfg", dict(first=1, texts=[1, 2, 3], renderable=[1, 2], pics=[1, 2, 0], len=c.pick(3, 4), cases=[]), "GUI_IN")

    # every history of a length
    pool = ["$\\frac{a}{b}$", "$\\sqrt[3]{x}$ y", "$x$", "$b$", "$\\frac{a}{c}$", " a b ", "a b"]
    bad = ["", "", " ", "\\foo", "\\foo", "$\\frac{a}$", "$x_i$", "}", "a&b", "$\\hspace{-9}$", "%", "$$", "\\hspace{2}"]
    n = c.pick(4, 5)
    hs = c.tlc_cases("MCGui.tla", "GuiEnum.cfg", dict(first=1, texts=[1, 2, 3], renderable=[1, 3], pics=[1, 0, 2], len=n, cases=[]), "GUI_IN")
    hs = sorted({tuple(h) for h in hs})
    if len(hs) != 5 ** n:
        raise vf.Broken("enumeration incomplete: %d" % len(hs))
    r.shuffle(hs)
    hists = []
    for h in hs:
        w, hh, s = r.choice(SIZES[:2] * 3 + SIZES)
        own = [r.choice(pool), r.choice(bad), r.choice(pool)]
        ev = [dict(K="size", W=w, H=hh, S=s), dict(K="type", T=b64(own[0]))]
        ev += [frame if x == 0 else press() if x == -1 else dict(K="type", T=b64(own[x - 1])) for x in h] + [frame, frame]
        hists.append((1, ev))
    judge(hists, "all histories of %d events" % n)

    # generated ones: several windows, typed text, other clicks, sizes
    g = Gen(r, dict(con=4, dots=1))

    def expr():
        while True:
            s = r.choice(bad) if r.random() < .2 else g.expr(r.choice([1, 1, 2]))
            if hyphen_free(s) and "\n" not in s:
                return s

    def vary(s):
        """nearly the same text"""
        x = r.random()
        at = [k for k, ch in enumerate(s) if ch.isdigit() or ch.isalpha() and ch.isascii() and not s[:k].rpartition("\\")[2].isalpha() and s[k - 1:k] != "\\"]
        if x < .5 and at:
            k = r.choice(at)
            return s[:k] + r.choice([ch for ch in "abxyz579" if ch != s[k]]) + s[k + 1:]
        return s + r.choice([" ", "a"]) if x < .7 else r.choice([" ", "b"]) + s

    hists = []
    for _ in range(c.pick(160, 2200)):
        wins = r.choice([1, 1, 1, 2, 3])
        own = [expr() for _ in range(r.choice([1, 2, 3]))] + [r.choice(bad)]
        own += [vary(s) for s in own]
        ev = []
        for w in range(wins):
            if r.random() < .5:
                a, b, s = r.choice(SIZES)
                ev.append(dict(K="size", W=a, H=b, S=s, Win=w))
        for _ in range(r.choice([6, 10, 16])):
            w = r.randrange(wins)
            x = r.random()
            if x < .3:
                ev.append(dict(K="type", T=b64(r.choice(own)), Win=w))
            elif x < .45:
                ev += [dict(K="type", T=b64(r.choice(own)), Win=w), dict(press(), Win=w)] + [dict(frame, Win=w)] * 2
            elif x < .5:
                ev.append(dict(K="keys", T=b64(r.choice(["x", "$y$", "+", " a", "\\"])), Win=w))
            elif x < .67:
                ev.append(dict(press(), Win=w))
                if r.random() < .7:
                    ev += [dict(frame, Win=w)] * 2
            elif x < .72:
                ev.append(dict(K="away", Win=w))
            elif x < .76:
                a, b, s = r.choice(SIZES)
                ev.append(dict(K="size", W=a, H=b, S=s, Win=w))
            else:
                ev.append(dict(frame, Win=w))
        ev += [dict(frame, Win=w) for w in range(wins)] * 2
        hists.append((wins, ev))
    judge(hists, "generated histories")
    c.cov["expressions"] = {"with a picture": sum(bool(p) for p in pics.values()), "without": sum(not p for p in pics.values())}
    c.assume = ["the picture of an expression is that of mtex.Render and drawimg at 16 pt and 256 dpi with the Liberation fonts (they are C18 and C22)",
                "the toolkit (gioui.org) delivers clicks and key presses as documented"]
