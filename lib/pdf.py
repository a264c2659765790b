"""C27: PDF documents, decided by Pdf."""
import os, re, shutil
import vf

PLACES = {"a.pdf": "fine", "b.pdf": "fine", "old.pdf": "fine", "sub/c.pdf": "fine", "no/such/x.pdf": "absent", "dir": "folder", "full.pdf": "full"}
OLD = b"what was there before " * 30000


def pages(path):
    """sizes of the pages of a document, in hundredths of a point; or a complaint"""
    with open(path, "rb") as f:
        b = f.read()
    if b == OLD:
        return [[0, 0]]
    if not b.startswith(b"%PDF-1."):
        return "no PDF header: %r" % b[:20]
    m = re.search(rb"startxref\s+(\d+)\s+%%EOF\s*\Z", b)
    if not m:
        return "no end of document: %r" % b[-40:]
    x = re.compile(rb"xref\s+0\s+(\d+)\s+").match(b, int(m[1]))
    if not x:
        return "no cross-reference table at %d" % int(m[1])
    n = int(x[1])
    objs = {}
    for j in range(n):
        e = b[x.end() + 20 * j:x.end() + 20 * j + 20]
        if not re.fullmatch(rb"\d{10} \d{5} [nf]\s*", e):
            return "bad cross-reference entry %r" % e
        if e[17:18] == b"n":
            at = int(e[:10])
            o = re.compile(rb"%d 0 obj(.*?)endobj" % j, re.S).match(b, at)
            if not o:
                return "no object %d at %d" % (j, at)
            objs[j] = o[1]
    t = re.search(rb"trailer\s*<<(.*?)>>\s*startxref", b, re.S)
    root = t and re.search(rb"/Root (\d+) 0 R", t[1])
    cat = root and objs.get(int(root[1]), b"")
    tree = cat and re.search(rb"/Pages (\d+) 0 R", cat)
    top = tree and objs.get(int(tree[1]), b"")
    if not top:
        return "no pages"
    box = lambda o: re.search(rb"/MediaBox\s*\[\s*0\s+0\s+(\S+)\s+(\S+?)\s*\]", o)
    out = []
    for kid in re.findall(rb"(\d+) 0 R", re.search(rb"/Kids\s*\[(.*?)\]", top, re.S)[1]):
        o = objs.get(int(kid))
        if o is None or not re.search(rb"/Type\s*/Page\b", o):
            return "a page is missing"
        if re.search(rb"/Rotate\s+(?!0\b)", o):
            return "a page is turned"
        m = box(o) or box(top)
        if not m:
            return "a page without size"
        out.append([round(float(m[1]) * 100), round(float(m[2]) * 100)])
    if int(re.search(rb"/Count\s+(\d+)", top)[1]) != len(out):
        return "wrong number of pages"
    return out


def run(c):
    drv = c.build()
    r = c.rng
    fam = c.cov.setdefault("families", {})

    def ops(n):
        return [dict(K=r.choice(["rect", "glyph"]), V=[round(r.uniform(-50, 700), 2) for _ in range(2)] + [round(r.uniform(1, 700), 2) for _ in range(2)]) for _ in range(n)]

    def batch(sessions, specs, label):
        reqs = []
        dirs = []
        for j, s in enumerate(sessions):
            d = os.path.join(c.work, "pdf", str(j))
            os.makedirs(os.path.join(d, "dir"))
            os.makedirs(os.path.join(d, "sub"))
            with open(os.path.join(d, "old.pdf"), "wb") as f:
                f.write(OLD)
            os.symlink("/dev/full", os.path.join(d, "full.pdf"))
            dirs.append(d)
            reqs.append(dict(Writes=[dict(File=os.path.join(d, w["f"]), W=w["w"] / 100, H=w["h"] / 100, Canvas=w["c"], Ops=ops(w["n"])) for w in s]))
        user = c.unprivileged(os.path.join(c.work, "pdf"))
        for s, q, d, x, o in zip(sessions, reqs, dirs, specs, c.drive(drv, "pdf", reqs, user=user)):
            c.traces += 1
            e = None
            if "out" not in o:
                e = "the library fails: %s" % str(o.get("panic") or o.get("crash"))[:300]
            else:
                for k, (a, t) in enumerate(zip(o["out"] or [], x["told"])):
                    if a["ok"] and not t and s[k]["f"] == "full.pdf" and not os.path.islink(os.path.join(d, "full.pdf")):
                        continue    # (the link to the full disk was replaced by a file)
                    if a["ok"] != t:
                        e = "write %d %s" % (k + 1, "fails: %s" % a.get("err") if t else "reports success, although %s cannot be written" % s[k]["f"])
                    elif not a["same"]:
                        e = "write %d changes the drawing" % (k + 1)
                    if e:
                        break
            if not e:
                for f, want in x["disk"].items():
                    p = os.path.join(d, f)
                    if PLACES[f] != "fine":
                        continue
                    got = pages(p) if os.path.exists(p) else []
                    # sizes are written with two decimals
                    if got != want and not (isinstance(got, list) and len(got) == len(want) == 1 and [[0, 0]] not in (want, got) and
                                            all(abs(g - w) <= 1 for g, w in zip(got[0], want[0]))):
                        e = "%s holds %s, expected %s" % (f, got if isinstance(got, str) else "pages %s" % got, "pages %s" % want)
                        break
                extra = sorted(os.path.relpath(os.path.join(b, f), d) for b, _, fs in os.walk(d) for f in fs if os.path.relpath(os.path.join(b, f), d) not in PLACES)
                if not e and extra:
                    e = "unexpected file %s" % extra[0]
            if e:
                c.violation("%s\n  after %s (%s; sizes in 1/100 pt)" % (e, "; ".join("%s %d x %d, drawing %d (+%d)" % (w["f"], w["w"], w["h"], w["c"], w["n"]) for w in s[:8]), label), {"writes": q["Writes"], "spec": x, "impl": str(o)[:2000]})
            shutil.rmtree(d, ignore_errors=True)
        d = fam.setdefault(label, {"sessions": 0, "documents": 0})
        d["sessions"] += len(sessions)
        d["documents"] += sum(map(len, sessions))
        m = len(sessions) // 2
        c.sample({"writes": sessions[m], "expected": str(specs[m])[:300]})
        c.log(label, len(sessions))

    def w(f, a, b, n, k):
        return dict(f=f, w=a, h=b, n=n, c=k)

    pool = [w("a.pdf", 10000, 5000, 1, 1), w("a.pdf", 5000, 10000, 0, 2), w("old.pdf", 7200, 7200, 2, 1), w("sub/c.pdf", 1234, 56789, 1, 3),
            w("no/such/x.pdf", 10000, 5000, 1, 1), w("dir", 10000, 5000, 0, 1), w("full.pdf", 10000, 5000, 1, 2)]
    n = c.pick(3, 4)
    base = dict(places=PLACES, drawings=[1, 2, 3, 4], old=["old.pdf"])
    specs = c.tlc_cases("MCPdf.tla", "PdfEnum.cfg", dict(base, pool=pool, maxlen=n, cases=[]), "PDF_IN")
    if len(specs) != sum(len(pool) ** k for k in range(n + 1)):
        raise vf.Broken("enumeration incomplete")
    batch([[pool[j - 1] for j in s["i"]] for s in specs], specs, "all sessions of <=%d writes" % n)

    size = lambda: r.choice([r.randint(1, 300), r.randint(100, 200000), r.randint(100, 20000), r.randint(20, 2000) * 100, 59528, 84189, 61200, 79200, 1440000, 2000000])
    sessions = []
    for _ in range(c.pick(300, 6000)):
        s = []
        for _ in range(r.choice([1, 1, 2, 3, 5, 9])):
            a = size()
            s.append(w(r.choice(["a.pdf"] * 3 + ["b.pdf"] * 2 + sorted(PLACES)), a, a if r.random() < .15 else size(), r.choice([0, 1, 2, 3, 8, 60] * 8 + [150, 600, 1100, 3000]), r.randint(1, 4)))
        sessions.append(s)
    res = {x["i"]: x for x in c.tlc_cases("MCPdf.tla", "PdfCase.cfg", dict(base, cases=sessions), "PDF_IN")}
    if len(res) != len(sessions):
        raise vf.Broken("%d results for %d sessions" % (len(res), len(sessions)))
    batch(sessions, [res[j + 1] for j in range(len(sessions))], "generated sessions")
    c.assume = ["a full disk is /dev/full, behind a link; the driver runs as an unprivileged user", "what the page shows is not judged: the drawing functions are empty so far"]
