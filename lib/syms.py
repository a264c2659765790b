"""C21 (names of symbols: Names), C24 (sets of symbols: SymSets)."""
import base64
import vf
from front import enc, show
from typeset import ARITY, MACSYMS, TEX2UNI

NOTCHAR = 0x110000
PKG = ["ambi", "arrow", "bin", "dropsub", "fontnames", "fun", "left", "overfun", "overunder", "punct", "rel", "right", "spaced"]


def points(b):
    """code points of a name; bytes that are no part of one keep their value
    above NOTCHAR"""
    if isinstance(b, str):
        b = enc(b)
    out, i = [], 0
    while i < len(b):
        for n in (1, 2, 3, 4):
            try:
                s = b[i:i + n].decode("utf-8")
            except UnicodeDecodeError:
                continue
            if len(s) == 1:
                out.append(ord(s))
                i += n
                break
        else:
            out.append(NOTCHAR + b[i])
            i += 1
    return out


def tobytes(ps):
    return b"".join(bytes([p - NOTCHAR]) if p >= NOTCHAR else enc(chr(p)) for p in ps)


def c21(c):
    drv = c.build()
    r = c.rng
    fam = c.cov.setdefault("families", {})
    names = {"".join(".%d" % p for p in points(n)): cp for n, cp in TEX2UNI.items()}
    if any("\\" in n for n in TEX2UNI):
        raise vf.Broken("a name with a backslash")
    uni = sorted(TEX2UNI)

    def compare(res, label):
        by = {}
        for x in res:
            by.setdefault(tuple(x["v"]), {})[x["m"]] = x
        vs = [v for v in by if v != (0xFFFD,)]
        r.shuffle(vs)
        # (every name twice, in different orders)
        twice = vs + r.sample(vs, len(vs))
        ims = c.drive(drv, "names", [{"V": base64.b64encode(tobytes(v)).decode()} for v in twice])
        f = lambda x: "refused" if x == -1 else "U+%04X" % x
        for v, im in zip(twice, ims):
            c.traces += 1
            e = None
            if "t" not in im:
                e = "crash: %s" % im
            else:
                for m, k in ((True, "m"), (False, "t")):
                    w = by[v][m]["r"]
                    if im[k] != w:
                        e = "%s in %s, expected %s" % (f(im[k]), "formulas" if m else "text", f(w))
                if im["h"] != by[v][True]["h"]:
                    e = "%sa known name" % ("" if im["h"] else "not ")
            if e:
                c.violation("name %s: %s (%s)" % (show(tobytes(v)), e, label), {"name": list(v), "impl": im})
        fam[label] = len(vs)
        c.log(label, len(vs))

    conf = dict(names=names, pool=[], maxlen=0, enum=False)
    # all short strings
    for alpha, n, label in [(sorted(map(ord, "\\-aiLo|#")), c.pick(3, 4), "all strings over \\-aiLo|#"),
                            ([ord("\\"), ord("p"), ord("i"), ord("P"), ord("n"), ord("e"), 0x3c0, NOTCHAR + 0xff, ord(" ")], c.pick(3, 4), "all strings over \\piPne, a letter pi, a blank, a lone byte")]:
        compare(c.tlc_cases("MCNames.tla", "Names.cfg", dict(conf, pool=alpha, maxlen=n, enum=True, cases=[]), "NAMES_IN"), label)
    # every name, and its neighbours
    near = []
    for n in uni:
        near += [n, "\\" + n]
        mut = ["\\\\" + n, n + "\\", "\\" + n + " ", " " + n, "\\ " + n, n[:-1], "\\" + n[:-1], n + n[-1], "\\" + n + "s", n.swapcase(), "\\" + n.capitalize(),
               "{" + n + "}", "\\" + n + "\x00", n[0] + "\\" + n[1:], "\\" + n[0] + "\\" + n[1:], n[1:], "\\" + n[::-1], n + "-", "-" + n,
               "/" + n, n.replace("a", "\u0430"), chr(TEX2UNI[n]), "\\" + chr(TEX2UNI[n])]
        near += mut if c.thorough else r.sample(mut, 7)
    near += [chr(x) for x in range(0x20)] + [chr(x) for x in range(0x7f, 0x500)] + ["\\" + chr(x) for x in range(0x20, 0x180)]
    near += [chr(x) for x in range(0x2000, 0x2070)] + [chr(x) for x in (range(0x500, 0xd800) if c.thorough else r.sample(range(0x500, 0xd800), 400))]
    near += [chr(r.randrange(0x10000, 0x110000)) for _ in range(300)] + [chr(x) for x in (0xd7ff, 0xe000, 0xfffe, 0xffff, 0x10ffff, 0x10000, 0x2212, 0x2010, 0x301, 0xfeff)]
    near += ["--", "\\-", "−", "\\−", "a\u0301", "\U0001f1e6\U0001f1e7", "alpha beta", "\\alpha\\beta"]
    near += [b"\xff", b"\xc3", b"\xc3\xa9\xff", b"\\\xff", b"alph\xe1", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\xaf", b"alpha\xff", b"\xffalpha"]
    near = list(dict.fromkeys(enc(x) for x in near))
    compare(c.tlc_cases("MCNames.tla", "Names.cfg", dict(conf, cases=[points(x) for x in near]), "NAMES_IN"), "every name, its neighbours, single characters")

    # the list of names is the domain of the table
    ls = c.drive(drv, "namelist", [{}] * 2)
    for k, im in enumerate(ls):
        for w in ("a", "b"):
            got = im.get(w)
            if got is None or sorted(got) != uni:
                c.violation("list of names: %s" % (
                    im if got is None else "missing %s, unknown %s, twice %s" % (sorted(set(uni) - set(got))[:5], sorted(set(got) - set(uni))[:5],
                                                                               sorted(x for x in set(got) if got.count(x) > 1)[:5])), {"list": got})
    # every name can be used as a macro, and draws its code point
    use = [n for n in uni if n != "__sqrt__"]
    reqs = []
    for n in use:
        for pre, post, m in (("$", "$", True), ("", "", False), ("$a", "{}b$", True)):
            reqs.append((n, pre + "\\" + n + post, m))
    res = c.drive(drv, "render", [{"Reqs": [dict(Set="dejavu", S=base64.b64encode(enc(s)).decode(), Size=12, DPI=72)]} for _, s, _ in reqs])
    for (n, s, m), im in zip(reqs, res):
        c.traces += 1
        e = None
        if "outs" not in im:
            e = "crash: %s" % (im.get("crash") or im.get("panic"))
        else:
            o = im["outs"][0]
            want = [] if n == "quad" else [TEX2UNI[n]]
            if "a" in s[:2] and m:
                want = [ord("a")] + want + [ord("b")]
            if o["err"] and n == "cdotp" and not o["calls"] and c.matches_known("cdotp"):
                c.known_finding("cdotp")
            elif o["err"]:
                e = "refused: %s" % o["err"]
            else:
                got = [d[1][0] if d[0] == "g" else d[0] for d in o["calls"][0]["ops"]]
                if got != want:
                    e = "draws %s, expected %s" % (["U+%04X" % x if x != "r" else x for x in got], ["U+%04X" % x for x in want])
        if e:
            c.violation("name %s used as a macro in %r: %s" % (n, s, e), {"source": s, "impl": im})
    fam["names used as macros"] = len(reqs)
    c.sample({"name": "\\alpha", "expected": "U+03B1 in text and in formulas"})
    c.assume = ["the table of names and code points in spec/data/tex2uni.json (reviewed against Unicode's character names)"]


def c24(c):
    drv = c.build()
    r = c.rng
    fam = c.cov.setdefault("families", {})
    CLS = vf.data("classes.json")
    cls = {k: v for k, v in CLS.items()}
    fixed = [cls["ambi"], cls["arrow"], cls["bin"], cls["dropsub"], cls["fontnames"], cls["fun"], cls["left"], cls["overfun"], cls["overunder"], cls["punct"], cls["rel"], cls["right"],
             sorted(set(cls["bin"]) | set(cls["rel"]) | set(cls["arrow"]))]
    SP = [3, 11, 2]

    def run_(names, package, sess, label, pool=None, maxlen=0):
        """names in the order of their bytes"""
        num = {n: j + 1 for j, n in enumerate(names)}
        conf = dict(n=len(names), fixed=[[num[x] for x in f] for f in fixed] if package else [], spaced=SP if package else [],
                    pool=pool or [], maxlen=maxlen, enum=bool(pool))
        if pool:
            rs = c.tlc_cases("MCSymSets.tla", "SymSetsEnum.cfg", dict(conf, cases=[]), "SETS_IN")
            sess = [[pool[j - 1] for j in x["i"]] for x in rs]
        else:
            rs = c.tlc_cases("MCSymSets.tla", "SymSetsCase.cfg", dict(conf, cases=sess), "SETS_IN")
            rs.sort(key=lambda x: x["i"])
            if len(rs) != len(sess):
                raise vf.Broken("%d results for %d sessions" % (len(rs), len(sess)))
        up = lambda o: {k.upper() if k in "lie" else "Op": v for k, v in o.items()}
        res = c.drive(drv, "symsets", [{"Names": names, "Package": package, "Ops": [up(o) for o in s]} for s in sess])
        nm = lambda l: [names[e - 1] for e in l]
        for s, sp, im in zip(sess, rs, res):
            c.traces += 1
            e = None
            if "a" not in im:
                e = "crash: %s" % (im.get("crash") or im.get("panic"))
            else:
                for j, (o, a, b) in enumerate(zip(s, sp["a"], im["a"])):
                    w = nm(a) if o["op"] == "keys" else (["yes"] if a == [1] else ["no"]) if o["op"] in ("has", "spaced") else []
                    if w != b:
                        e = "operation %d (%s): %s, expected %s" % (j + 1, show_op(o, names), b[:20], w[:20])
                        break
                if not e:
                    for what, ws, gs in (("set", sp["h"], im["heap"]), ("set of the package", conf["fixed"], im["fixed"])):
                        if len(ws) != len(gs):
                            raise vf.Broken("sets do not correspond")
                        for k, (w, g) in enumerate(zip(ws, gs)):
                            w = nm(w)
                            if g["keys"] != w or g["has"] != w or g["len"] != len(w):
                                miss, extra = sorted(set(w) - set(g["keys"])), sorted(set(g["keys"]) - set(w))
                                e = "%s %s in the end: listed %s, has %s, expected %s" % (
                                    what, PKG[k] if what != "set" else k + 1, g["keys"][:12], g["has"][:12], w[:12]) + (
                                        "\n  missing %s, too many %s" % (miss[:8], extra[:8]))
                if not e and [nm(x) for x in sp["s"]] != im["slices"]:
                    e = "slices in the end: %s, expected %s" % (im["slices"][:6], [nm(x) for x in sp["s"]][:6])
            if e:
                c.violation("%s\n  session %s (%s)" % (e, "; ".join(show_op(o, names) for o in s[:12]), label), {"names": names, "package": package, "session": s, "impl": str(im)[:3000]})
        fam[label] = {"sessions": len(sess), "operations": sum(map(len, sess))}
        if sess:
            c.sample({"family": label, "session": "; ".join(show_op(o, names) for o in sess[len(sess) // 2][:10])})
        c.log(label, len(sess))

    def show_op(o, names):
        if o["op"] == "new":
            return "new %s" % [names[e - 1] for e in o["l"]]
        return "%s %s %s" % (o["op"], o.get("l", o.get("i", "")), repr(names[o["e"] - 1]) if "e" in o else "")

    small = ["", "+", "\\pm"]
    pool = [dict(op="new", l=[]), dict(op="new", l=[2]), dict(op="new", l=[3, 1, 3]), dict(op="union", l=[]), dict(op="union", l=[1]), dict(op="union", l=[1, 2]), dict(op="union", l=[2, 1, 2]),
            dict(op="union", l=[1, 2, 3]), dict(op="keys", i=1), dict(op="keys", i=2), dict(op="has", i=1, e=1), dict(op="has", i=2, e=2),
            dict(op="put", i=1, e=1), dict(op="put", i=2, e=3), dict(op="put", i=3, e=2), dict(op="drop", i=1, e=2), dict(op="drop", i=2, e=3), dict(op="scribble", i=1, e=1), dict(op="scribble", i=2, e=2)]
    run_(small, False, None, "all sessions of %d operations" % c.pick(4, 5), pool=pool, maxlen=c.pick(4, 5))

    allsyms = sorted({x for f in fixed for x in f} | {"\\" + n for n in TEX2UNI} | set(TEX2UNI) | {m for m in ARITY} |
                     {"", " ", "a", "A", "\\", "++", "+ ", " =", "\\Pm", "\\leftarrow ", "leftarrow", "\\\\leftarrow", "−", "é"} | {chr(x) for x in range(32, 127)}, key=enc)
    n = len(allsyms)
    # what each class contains, what is spaced
    run_(allsyms, True, [[]] + [[dict(op="spaced", e=e) for e in range(k, min(k + 100, n + 1))] for k in range(1, n + 1, 100)] +
         [[dict(op="keys", i=i)] * 2 for i in range(1, 14)], "the sets of the package and spaced symbols")

    def session(package, names, k):
        f = 13 if package else 0
        m, h, s, ops = len(names), f, 0, []
        for _ in range(k):
            kind = r.choices(["new", "union", "keys", "has", "put", "drop", "scribble"], [20, 25, 15, 10, 10, 8, 12])[0]
            e = r.randrange(1, m + 1)
            if kind == "new":
                ops.append(dict(op="new", l=[r.randrange(1, m + 1) for _ in range(r.choice([0, 1, 2, 5, 20]))]))
                h, s = h + 1, s + 1
            elif kind == "union" and h:
                ops.append(dict(op="union", l=[r.randrange(1, h + 1) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 6]))]))
                h += 1
            elif kind == "keys" and h:
                ops.append(dict(op="keys", i=r.randrange(1, h + 1)))
                s += 1
            elif kind == "has" and h:
                ops.append(dict(op="has", i=r.randrange(1, h + 1), e=e))
            elif kind in ("put", "drop") and h > f:
                ops.append(dict(op=kind, i=r.randrange(f + 1, h + 1), e=e))
            elif kind == "scribble" and s:
                ops.append(dict(op=kind, i=r.randrange(1, s + 1), e=e))
        return ops
    odd = sorted(["", "a", "b", "B", "aa", "\\a", "\\b", "é", "\U0001d400", "\uffff", "10", "9", " ", "a b", "\\alpha", "+", "~", "\x7f"], key=enc)
    run_(odd, False, [session(False, odd, r.choice([8, 20, 50])) for _ in range(c.pick(300, 5000))], "generated sessions")
    some = sorted({x for f in fixed for x in f} | {"a", "\\alpha"}, key=enc)
    run_(some, True, [session(True, some, r.choice([8, 20])) for _ in range(c.pick(60, 1000))], "generated sessions with the sets of the package")
    c.assume = ["the classes of symbols in spec/data/classes.json (reviewed)"]


def run(c):
    {"C21": c21, "C24": c24}[c.pid](c)
