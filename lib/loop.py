"""C28: the event loop of the window of mtex-render -gui, decided by Loop."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor
import vf
from gui import b64, build, text
from typeset import Gen
from render import hyphen_free

POOL = ["$\\frac{a}{b}$", "$\\sqrt[3]{x}$ y", "$x$", "$b$", "$\\frac{a}{c}$", " a b ", "a b"]
BAD = ["", " ", "\\foo", "$\\frac{a}$", "}", "a&b", "$$", "\\hspace{2}"]
OTHER = ["F1", "F10", "F12", "space", "tab", "R", "left"]
# the keys of the enumeration
KEYS = [dict(n="return", ctrl=True, down=True), dict(n="return", ctrl=False, down=True), dict(n="return", ctrl=True, down=False),
        dict(n="shot", ctrl=False, down=True), dict(n="shot", ctrl=False, down=False),
        dict(n="escape", ctrl=False, down=True), dict(n="other", ctrl=True, down=True)]


def run(c):
    drv = build(c)
    r = c.rng
    fam = c.cov.setdefault("families", {})
    pics = {}

    def drive(reqs, tag):
        n = max(1, min(100, (len(reqs) + 7) // 8))   # (headless windows are never released)
        parts = [reqs[k:k + n] for k in range(0, len(reqs), n)]

        def one(k):
            d = os.path.join(c.work, "cwd-%s-%d" % (tag, k))
            os.makedirs(d, exist_ok=True)
            user = c.unprivileged(d)
            out = c._drive(drv, "", [dict(q, Dir=d) if q.get("Loop") else q for q in parts[k]], 800,
                           {"VERIF_GUI": "1", "EGL_PLATFORM": "surfaceless"}, "-l%s%d" % (tag, k), user)
            left = sorted(os.listdir(d))
            if left:
                c.violation("the window leaves files behind: %s" % left, {"files": left})
            return out

        c.unprivileged()
        with ThreadPoolExecutor(8) as ex:
            return [x for p in ex.map(one, range(len(parts))) for x in p]

    def learn(texts):
        todo = sorted(set(texts) - set(pics))
        for t, o in zip(todo, drive([dict(HasPic=True, Pic=t) for t in todo], "pic")):
            if "pic" not in o:
                raise vf.Broken("no reference picture of %r: %s" % (text(t), str(o)[:500]))
            pics[t] = o["pic"]

    def show(ev):
        out = []
        for e in ev:
            k = e["K"]
            out.append("type %r" % text(e["T"]) if k == "type" else
                       "%s %s%s" % ("press" if e["Down"] else "release", "Ctrl+" if e["Ctrl"] else "", e["N"]) if k == "key" else
                       "closed" + ("" if e["Err"] == "ok" else " (%s)" % e["Err"]) if k == "destroy" else k)
        return "; ".join(out)

    def judge(hists, label):
        res = drive([dict(Loop=True, Events=ev) for ev in hists], "w")
        learn([o["T"] for x in res for o in x.get("obs") or [] if o["K"] == "type"])
        cases, which = {True: [], False: []}, {True: [], False: []}
        tn = {t: j + 1 for j, t in enumerate(sorted({o["T"] for x in res for o in x.get("obs") or [] if o["K"] == "type"}))}
        pn = {p: j + 1 for j, p in enumerate(sorted({p for p in pics.values() if p}))}
        for k, (x, ev) in enumerate(zip(res, hists)):
            c.traces += 1
            if "panic" in x or "crash" in x:
                c.violation("the window fails: %s\n  after %s (%s)" % (str(x.get("panic") or x.get("crash"))[:400], show(ev[-14:]), label), {"events": ev, "impl": str(x)[:4000]})
                continue
            tr = []
            seen = [e for e in ev if e["K"] != "size"]
            for e, o in zip(seen, x["obs"][1:]):
                t = dict(k=o["K"], o=o["Open"], res=o["Res"])
                if o["K"] == "type":
                    t["t"] = tn[o["T"]]
                elif o["K"] == "frame":
                    t.update(p=pn.get(o.get("Pic"), -1), n=o["N"], s=o["S"])
                elif o["K"] == "key":
                    t.update(n={"enter": "return", "return": "return", "shot": "shot", "escape": "escape"}.get(e["N"], "other"),
                             ctrl=e["Ctrl"], down=e["Down"], r=o["R"] > 0)
                elif o["K"] == "destroy":
                    t["err"] = e["Err"]
                tr.append(t)
            w = bool(x["shots"])
            cases[w].append(dict(first=tn[x["obs"][0]["T"]], trace=tr))
            which[w].append(k)
        for w in cases:
            if not cases[w]:
                continue
            conf = dict(texts=list(tn.values()), renderable=[j for t, j in tn.items() if pics[t]],
                        pics=[pn.get(pics[t], 0) for t in sorted(tn)], writable=w, shots=w, keys=KEYS, first=1, len=0)
            left = {}
            for x in c.tlc_cases("MCLoop.tla", "LoopTrace.cfg", dict(conf, cases=cases[w]), "LOOP_IN"):
                left[x["i"]] = min(x["left"], left.get(x["i"], 1 << 30))
            for j, k in enumerate(which[w]):
                if left[j + 1] == 0:
                    continue
                tr = cases[w][j]["trace"]
                at = len(tr) - left[j + 1]
                o = dict(tr[at])
                known = [text(t) for t, p in pics.items() if p and pn[p] == o.get("p")]
                seen = [e for e in hists[k] if e["K"] != "size"]
                c.violation("after %s\n  the window is %s%s (%s%s)" % (
                    show(seen[max(0, at - 8):at + 1]), "open" if o["o"] else "closed (%s)" % o["res"],
                    "; %s frame(s), picture %s, screenshot: %s" % (o["n"], "of %r" % known[0] if known else "unknown", o["s"]) if o["k"] == "frame" else
                    "; %s frame asked for" % ("a" if o["r"] else "no") if o["k"] == "key" else "", label, "" if w else ", no screenshot can be written"),
                    {"events": hists[k], "observed": tr[:at + 1]})
        d = fam.setdefault(label, {"histories": 0, "frames": 0, "screenshots": 0, "keys": 0})
        d["histories"] += len(hists)
        for x in res:
            for o in x.get("obs") or []:
                d["frames"] += o["K"] == "frame"
                d["keys"] += o["K"] == "key"
                d["screenshots"] += o["S"] == "shot"
        c.sample({"history": show(hists[len(hists) // 2]), "family": label})
        c.log(label, d)

    typ = lambda t: dict(K="type", T=b64(t))
    frame = dict(K="frame")

    def key(k):
        n, mods = k["n"], 0
        if n == "return" and r.random() < .5:
            n = "enter"
        if n == "other":
            n = r.choice(OTHER)
        return dict(K="key", N=n, Ctrl=k["ctrl"], Down=k["down"])

    # the specification itself: progress
    base = dict(first=1, texts=[1, 2, 3], renderable=[1, 3], pics=[1, 0, 2], writable=True, shots=True, keys=KEYS, cases=[])
    c.tlc_cases("MCLoop.tla", "LoopLive.cfg", dict(base, len=c.pick(3, 4)), "LOOP_IN")

    # every history of a length
    n = c.pick(3, 4)
    hs = c.tlc_cases("MCLoop.tla", "LoopEnum.cfg", dict(base, len=n), "LOOP_IN")
    hs = sorted({tuple(h) for h in hs})
    ends = {100 + 1 + [k["n"] for k in KEYS].index("escape"), 200, 201}
    going = 3 + 1 + 1 + 1 + len(KEYS) - 1
    full = sum(going ** (j - 1) * 3 for j in range(1, n)) + going ** (n - 1) * (going + 3)
    if len(hs) != full:
        raise vf.Broken("enumeration incomplete: %d instead of %d" % (len(hs), full))

    def history(h):
        own = [r.choice(POOL), r.choice(BAD), r.choice(POOL)]
        ev = [typ(own[0]), KEYEV(), frame]
        for x in h:
            ev.append(frame if x == 0 else dict(K="place") if x == 300 else dict(K="click") if x == -1 else dict(K="destroy", Err="ok") if x == 200 else
                      dict(K="destroy", Err=r.choice(["broken", "no display"])) if x == 201 else
                      key(KEYS[x - 101]) if x > 100 else typ(own[x - 1]))
        return ev if h[-1] in ends else ev + [frame] * (2 if -1 in h else 1)

    KEYEV = lambda: key(KEYS[0])
    judge([history(h) for h in hs], "all histories of %d events" % n)

    # generated ones
    g = Gen(r, dict(con=4, dots=1))

    def expr():
        while True:
            s = r.choice(BAD) if r.random() < .2 else g.expr(r.choice([1, 1, 2]))
            if hyphen_free(s) and "\n" not in s:
                return s

    def anykey():
        x = r.random()
        if x < .4:
            k = dict(key(KEYS[0]), Mods=r.choice([0, 0, 0, 4, 8]))
        elif x < .5:
            k = key(KEYS[1])
            k["Mods"] = r.choice([0, 4, 8])
        elif x < .6:
            k = key(KEYS[2])
        elif x < .8:
            k = dict(key(KEYS[3]), Ctrl=r.random() < .2)
        elif x < .9:
            k = key(KEYS[4])
        else:
            k = dict(key(KEYS[6]), Ctrl=r.random() < .5, Down=r.random() < .8)
        return k

    hists = []
    for _ in range(c.pick(120, 1500)):
        own = [expr() for _ in range(r.choice([2, 3, 4]))] + [r.choice(BAD)]
        ev = []
        for _ in range(r.choice([10, 20, 40])):
            x = r.random()
            ev.append(typ(r.choice(own)) if x < .25 else frame if x < .55 else dict(K="click") if x < .61 else dict(K="place") if x < .66 else anykey())
        ev += [frame, frame]
        if r.random() < .6:
            ev.append(r.choice([dict(K="destroy", Err="ok"), dict(K="destroy", Err="lost"), key(KEYS[5])]))
        hists.append(ev)
    judge(hists, "generated histories")

    # the command itself, with no screen to show a window on
    d = os.path.join(c.work, "noscreen")
    os.makedirs(d)
    cmd = c.gobuild("./cmd/mtex-render", os.path.join(c.work, "mtex-render"))
    user = c.unprivileged(d)
    for args in (["-gui"], ["-gui", "$x$"], ["-gui=true", "-o", "a.png"], ["-dpi", "100", "-gui"]):
        c.traces += 1
        env = {k: v for k, v in os.environ.items() if k not in ("DISPLAY", "WAYLAND_DISPLAY", "XDG_RUNTIME_DIR", "WAYLAND_SOCKET")}
        try:
            p = subprocess.run([cmd] + args, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=120, **user)
            rc, msg = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, msg = None, b""
        if rc in (0, None) or not msg.strip() or os.listdir(d):
            c.violation("mtex-render %s without a screen: %s, %r, files %s" % (
                " ".join(args), "does not end" if rc is None else "exit status %s" % rc, msg[-300:], os.listdir(d)),
                {"args": args, "rc": rc, "out": msg[-2000:].decode("utf-8", "replace")})
    c.assume = ["the pictures are those of C26; the toolkit delivers the events of the operating system's window as documented (the window is made by hand, its channels are the driver's)",
                "a screenshot is compared with the toolkit's own headless drawing of the same frame (software EGL); where there is none, no screenshot can be written"]
