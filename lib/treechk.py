"""C05, C06: traversal and printing of trees, decided by AstTree."""
import base64, vf
import front

ALLK = ["list", "mac", "arg", "opt", "math", "word", "lit", "sym", "ident", "sup", "sub", "nil"]
TEXTS = [b"a", b"xyz", b"", b"\"", b"\\", b"\\frac", b"\"}, ast.Word{\"", b"\n", b"\x00", "é".encode(), "漢字".encode(),
         b"\xff", "\ufffd".encode(), b"`", b"'", b", ", b"{", b"}", b"<nil>", b"%d%s", "\u2028".encode(), b"\x7f", "\U0001d538".encode(), b"t"]


def rand_tree(r, size):
    """(kinds, parents) in preorder."""
    k, q = [], []

    def node(p, budget, where):
        i = len(k) + 1
        if where == "name":
            kind = "nil" if r.random() < 0.1 else "ident"
        elif where == "root":
            kind = r.choice(["list", "list", "list", "math", "mac", "arg", "sup", "opt", "word", "sub", "lit", "sym", "ident"])
        else:
            kind = r.choice(["word", "lit", "sym", "nil", "ident", "list", "mac", "mac", "arg", "opt", "math", "sup", "sub"])
        k.append(kind)
        q.append(p)
        if kind in ("list", "arg", "opt", "math"):
            for _ in range(r.choice([0, 1, 2, 2, 3]) if budget > 0 else 0):
                if len(k) < size:
                    node(i, budget - 1, "child")
        elif kind in ("sup", "sub"):
            if budget > 0:
                node(i, budget - 1, "child")
            else:
                k.append("nil")
                q.append(i)
        elif kind == "mac":
            node(i, 0, "name")
            for _ in range(r.choice([0, 1, 1, 2, 3]) if budget > 0 else 0):
                if len(k) < size:
                    node(i, budget - 1, "child")
    node(0, r.choice([1, 2, 3, 5, 9]), "root")
    return k, q


def parsed_tree(t, k, q, p):
    """Flattens a tree of the front driver."""
    i = len(k) + 1
    kind = t["k"]
    k.append(kind)
    q.append(p)
    if kind == "mac":
        k.append("ident")
        q.append(i)
    for x in t.get("l", []) + ([t["n"]] if "n" in t else []):
        parsed_tree(x, k, q, i)


def run(c):
    drv = c.build()
    walk = c.pid == "C05"
    r = c.rng

    def check(cases, specs, label):
        """cases: (kinds, parents, policies, texts)"""
        reqs = [{"k": k, "q": q, "l": l, "t": [base64.b64encode(x).decode() for x in t],
                 "pos": [3 * i for i in range(len(k))], "walk": walk} for k, q, l, t in cases]
        res = c.drive(drv, "tree", reqs)
        for (k, q, l, t), sp, im in zip(cases, specs, res):
            c.traces += 1
            bad = None
            if "crash" in im or "panic" in im:
                bad = "crash: %s" % (im.get("crash") or im.get("panic"))
            elif walk:
                want = [list(x) for x in sp["log"]]
                if im.get("walkpanic"):
                    bad = "Walk: " + im["walkpanic"]
                elif im["walk"] != want:
                    bad = "Walk made the calls (visitor, node) %s, expected %s" % (im["walk"], want)
                elif im.get("inspectpanic"):
                    bad = "Inspect: " + im["inspectpanic"]
                elif im["inspect"] != [x[1] for x in want]:
                    bad = "Inspect made the calls %s, expected %s" % (im["inspect"], [x[1] for x in want])
            else:
                want = "".join(x if s == "s" else im["q"][x - 1] for s, x in sp["p"])
                if im.get("printpanic"):
                    bad = "Print: " + im["printpanic"]
                elif im["p"] != want:
                    bad = "Print wrote %s, expected %s" % (im["p"][:400], want[:400])
                elif not im["same"]:
                    bad = "Print depends on positions: %s" % im["p"][:400]
            if bad:
                c.violation("%s\n  tree: kinds %s parents %s policies %s (%s)" % (bad, k, q, l, label),
                            {"kinds": k, "parents": q, "policies": l, "texts": [repr(x) for x in t], "spec": sp, "impl": im})
        c.cov.setdefault("families", {})[label] = c.cov.get("families", {}).get(label, 0) + len(cases)
        if cases:
            m = len(cases) // 2
            c.sample({"family": label, "kinds": cases[m][0], "parents": cases[m][1], "policies": cases[m][2],
                      "expected": specs[m]["log"] if walk else specs[m]["p"]})

    pols = ["stop", "keep", "new"]
    # all small trees, all policies
    if walk:
        confs = [(["list", "mac", "ident", "sup", "word", "nil"], c.pick(4, 5), pols),
                 (["math", "arg", "sub", "opt", "lit", "sym", "nil"], c.pick(3, 4), pols)]
    else:
        confs = [(ALLK, c.pick(3, 4), ["keep"]), (["list", "mac", "ident", "arg", "word", "nil", "math"], c.pick(4, 5), ["keep"])]
    for kinds, n, ps in confs:
        conf = {"cases": [], "kinds": kinds, "n": n, "policies": ps, "print": not walk, "inj": 0 if walk else n}
        specs = c.tlc_cases("MCAst.tla", "AstEnum.cfg", conf, "AST_IN")
        cases = [(s["i"][0], s["i"][1], s["i"][2], [TEXTS[(7 * j + len(s["i"][0])) % len(TEXTS)] for j in range(len(s["i"][0]))]) for s in specs]
        check(cases, specs, "all trees of <=%d nodes over %s" % (n, kinds))
        c.log("enumerated", len(cases))
    # larger trees
    cases = []
    for _ in range(c.pick(3000, 30000)):
        k, q = rand_tree(r, r.choice([4, 8, 15, 30]))
        bias = r.choice([[1, 6, 3], [0, 1, 1], [2, 2, 2], [0, 1, 0], [1, 1, 8]])
        cases.append((k, q, r.choices(pols, bias, k=len(k)), [r.choice(TEXTS) for _ in k]))
    # trees of the parser
    g = front.Gen(r)
    srcs = [front.enc(g.valid()) for _ in range(c.pick(400, 3000))]
    ts = c.drive(drv, "front", [{"s": base64.b64encode(s).decode()} for s in srcs])
    for t in ts:
        if t.get("s") == "ok":
            k, q = [], []
            parsed_tree(t["t"], k, q, 0)
            if len(k) <= 60:
                cases.append((k, q, r.choices(pols, [1, 6, 3], k=len(k)), [r.choice(TEXTS) for _ in k]))
    # deep and wide ones
    for n in (40, 90):
        cases.append((["list"] * n + ["word"], list(range(n + 1)), ["keep"] * (n + 1), [b"t"] * (n + 1)))
        cases.append((["list"] + ["word"] * n, [0] + [1] * n, r.choices(pols, k=n + 1), [b"t"] * (n + 1)))
        cases.append((["sup"] * n + ["nil"], list(range(n + 1)), ["new"] * (n + 1), [b"t"] * (n + 1)))
    small = [x for x in cases if len(x[0]) <= 12]
    large = [x for x in cases if len(x[0]) > 12]
    for part, cfg, label in [(small[b:b + 5000], "AstCase.cfg", "generated trees of <=12 nodes") for b in range(0, len(small), 5000)] + \
                            [(large[b:b + 5000], "AstLong.cfg", "generated larger trees") for b in range(0, len(large), 5000)]:
        conf = {"cases": [{"k": k, "q": q, "l": l} for k, q, l, t in part], "kinds": ["word"], "n": 1,
                "policies": ["keep"], "print": not walk, "inj": 0}
        specs = {s["i"]: s for s in c.tlc_cases("MCAst.tla", cfg, conf, "AST_IN")}
        if len(specs) != len(part):
            raise vf.Broken("missing results")
        check(part, [specs[i + 1] for i in range(len(part))], label)
    c.log("larger trees", len(cases))
    c.assume = ["nodes of a tree are distinct objects", "quoting of texts is Go's strconv.Quote",
                "the delimiter name stored in a formula node is not part of what is printed"]
