"""C01-C04: source text -> tree, decided by the LatexFront specification."""
import base64, unicodedata, vf

ARITY = vf.data("arity.json")
BOM = "\ufeff"


# ---------------------------------------------------------------- characters
def esc(c):
    """Name of a character in the specification: TLC keeps only ASCII strings
    intact when its state queue goes to disk."""
    return c if " " <= c <= "~" or c in "\t\n\r" else "\x01%x\x02" % ord(c)


def escs(s):
    return "".join(map(esc, s))


def chars(b):
    """The characters of a source (bytes), for the specification.  A byte
    that is not part of valid UTF-8 is a character of its own."""
    out, i = [], 0
    while i < len(b):
        for n in (1, 2, 3, 4):
            try:
                c = b[i:i + n].decode("utf-8")
                if len(c) == 1:
                    break
            except UnicodeDecodeError:
                c = None
        if not c:
            c, n = "\ufffd", 1
        # letters by Unicode category; never the replacement of a bad byte
        out.append({"c": esc(c), "n": n, "l": unicodedata.category(c)[0] == "L"})
        i += n
    return out


def enc(s):
    return s if isinstance(s, bytes) else s.encode("utf-8", "surrogatepass")


def show(b):
    return repr(b)[1:] if len(b) < 300 else repr(b[:300])[1:] + "... (%d bytes)" % len(b)


# ---------------------------------------------------------------- generation
WORDS = ["a", "b", "x", "y", "ab", "Hello", "wor", "é", "Äh", "αβ", "жук", "漢字", "𝔸", "ſ", "ʰ", "ﬁ", "İ", "e", "x", "E", "dz"]
NUMS = ["0", "1", "7", "12", "007", "1.5", ".5", "1.", "1.2.3", "..5", "10.25", "1e5", "0x1F", "0b1", "0o7", "0777", "1_0", "08", "1..2", "3.e", ".", "123456789012345678901234567890"]
SYMS = list("=<>/*-+!?':,;.()[]")
BAD = list("&#|~@`\"") + ["\x00", "\x0b", "\x0c", "\u00a0", "\u2028", "€", "²", "٣", "½", "\u0301", "\U0001f600", "\ufeff", "\ufffd", "\x7f", "\x85"]
SKIPS = ["\t", "\n", "\r\n", "\r", " ", "  ", "\n\n", " \t "]
COMMENTS = ["%\n", "% c\n", "%$x$ {} \\frac \"q' 'z `\n", "%%\n", "% é漢\r\n", "%a\rb\n", "%\t \n", "% 1.5e }\n", "%\"\n", "%'\n", "%`\n", "%/* x\n", "%//\n", "%\\\n"]
MACROS = sorted(ARITY)
ARGMACROS = [m for m in MACROS if ARITY[m]]
NOARG = [m for m in MACROS if not ARITY[m]]
UNKNOWN = ["\\foo", "\\Frac", "\\", "\\1", "\\é", "\\\\", "\\\n", "\\\t", "\\genfrac", "\\sqrtx", "\\-", "\\[", "\\]", "\\begin", "\\.", "\\\"", "\\'", "\\^", "\\$", "\\%", "\\&", "\\#", "\\_", "\\{", "\\}", "\\|", "\\ ", "\\,", "\\(", "\\)"]


class Gen:
    def __init__(self, rng):
        self.r = rng

    def sep(self):
        r = self.r
        x = r.random()
        if x < 0.55:
            return ""
        if x < 0.85:
            return r.choice(SKIPS)
        return r.choice(COMMENTS)

    def seq(self, depth, math, n=None):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 4]) if n is None else n
        return "".join(self.item(depth, math) + self.sep() for _ in range(n))

    def item(self, depth, math):
        r = self.r
        x = r.random()
        if depth <= 0:
            x *= 0.55
        if x < 0.2:
            return r.choice(WORDS)
        if x < 0.33:
            return r.choice(NUMS)
        if x < 0.45:
            return r.choice(SYMS)
        if x < 0.52:
            return r.choice(NOARG) + r.choice(["", "", " ", "\n", "{" if r.random() < .1 else ""])
        if x < 0.53:
            return r.choice(UNKNOWN)
        if x < 0.535:
            return r.choice(BAD)
        if x < 0.55:
            return r.choice(SKIPS)
        if x < 0.72:
            m = r.choice(["\\sqrt", "\\sqrt", "\\frac"] + [r.choice(ARGMACROS)])
            s = m
            for a in ARITY[m]:
                if a == "o":
                    if r.random() < 0.5:
                        s += "[" + self.seq(depth - 1, math) + "]"
                else:
                    if r.random() < 0.15:
                        s += r.choice(SKIPS)
                    s += "{" + self.seq(depth - 1, math) + "}"
            return s
        if x < 0.84:
            k = r.choice("^_")
            if r.random() < 0.45:
                return k + "{" + self.seq(depth - 1, math) + "}"
            return k + self.sep() + self.item(depth - 1, math)
        if x < 0.94 and math or x < 0.56:
            return "{" + self.seq(depth - 1, math) + "}"
        return "$" + self.seq(depth - 1, True) + "$"

    def valid(self, depth=4):
        r = self.r
        s = self.seq(depth, False, r.choice([1, 1, 2, 3, 5]))
        if r.random() < 0.03:
            s = BOM + s
        return s

    def mutated(self):
        r = self.r
        s = self.valid()
        for _ in range(r.choice([1, 1, 2, 4])):
            i = r.randrange(len(s) + 1)
            x = r.random()
            if x < 0.3 and s:
                s = s[:i] + s[i + 1:]
            elif x < 0.7:
                s = s[:i] + r.choice(["{", "}", "[", "]", "$", "^", "_", "\\", "%", " ", "\n", "\r", ".", "1", "a", "\\sqrt", "\\frac", "\\exp", "$$", "é", r.choice(BAD), r.choice(UNKNOWN)]) + s[i:]
            elif x < 0.85:
                s = s[:i]
            else:
                j = r.randrange(len(s) + 1)
                s = s[:i] + s[j:]
        return s

    def raw(self):
        r = self.r
        al = list("ab1.0 \n\r\t%${}[]^_\\-+=<é&\"'") + ["\\frac", "\\sqrt", "\\pi", "$", "{", "}", " "]
        return "".join(r.choice(al) for _ in range(r.randrange(1, 25)))

    def bytes_(self):
        b = bytearray(enc(self.valid(3)))
        for _ in range(self.r.choice([1, 2])):
            b.insert(self.r.randrange(len(b) + 1), self.r.choice([0x80, 0xff, 0xc3, 0xe2, 0xf0, 0, 0xed]))
        return bytes(b)


def every_macro():
    """Each macro of the language, with and without what it calls for."""
    out = []
    for m in MACROS:
        a = "".join("{%s}" % x if k == "a" else "[%s]" % x for k, x in zip(ARITY[m], "uvw"))
        out += [m + a, "$%s%s$x" % (m, a), m + " " + a + "z", "$%s[p]{q}{r}{s}$" % m, m + "\n{c}d"]
        if "a" in ARITY[m]:
            out += [m, "$" + m + " {a}{b}$", m + "{" + m + a + "}{$y$}", m + "\t{\ta\n}\r\n{b}", m + "{a}", m + "{a", "$" + m + "a$"]
    return out


def near_misses():
    """Names that almost are macros."""
    out = set()
    for m in MACROS:
        n = m[1:]
        for v in (n + "x", n[:-1], n[1:], n.swapcase(), n.capitalize(), n.upper(), n.lower(), n + "A", "x" + n, n + "é"):
            if "\\" + v not in ARITY and v and v.isalpha():
                out.add(v)
    out = sorted(out)
    return ["\\" + v for v in out] + ["$\\%s{a}$" % v for v in out[::3]]


def odd_characters(rng, n):
    """Every ASCII and Latin-1 character, and some of every category."""
    cs = [chr(i) for i in range(0x180)]
    per = {}
    for i in list(range(0x180, 0x3100)) + list(range(0xa000, 0xa100)) + list(range(0xfb00, 0x10000)) + list(range(0x1d400, 0x1d800, 3)) + list(range(0x1f600, 0x1f650)):
        if 0xd800 <= i < 0xe000:
            continue
        per.setdefault(unicodedata.category(chr(i)), []).append(chr(i))
    for k in sorted(per):
        cs += per[k][:2] + rng.sample(per[k], min(n, len(per[k])))
    cs += [chr(i) for i in (0x10000, 0x10380, 0x12000, 0x1b000, 0x20000, 0x2a6d6, 0x2f800, 0x30000, 0x3134a, 0xe0100, 0x10ffff)]
    out = []
    for ch in cs:
        out += ["a" + ch + "b", "$1" + ch + "2$", "\\" + ch + " x", ch, "x_" + ch + "%" + ch + "\nz"]
    return out


def long_cases(rng, thorough):
    """Inputs around and beyond the buffer of the scanner, and deep nesting."""
    out = []
    g = Gen(rng)
    for n in ([1018, 1022, 1024, 2045] if not thorough else list(range(1016, 1030)) + [2040, 2047, 2048, 2049, 3070, 4095, 5000]):
        pad = "w" * n
        out.append(pad + "é $x^{12.5}$ \\frac{a}{b}")
        out.append(" " * n + "1.5 \\pi $ a$")
        out.append("%" + "c" * n + "\n\\sqrt[3]{x}y")
        out.append("é" * (n // 2) + "1." + "2" * 30 + "\\alpha b")
        out.append("1" * n + ".5 \\overline{a b}%" + "z" * 1100)
    out.append("%" + "c" * (9000 if thorough else 4200) + "\n$x$ 1.5")
    out.append(("ab %c\n$x^2$ " * (700 if thorough else 350)) + "\\pi")
    for n in ([300] if not thorough else [300, 600, 1000]):
        out.append("$" + "{" * n + "x" + "}" * n + "$ y")
        out.append("\\overline{" * n + "x" + "}" * n + " y")
    for d in ([60, 150] if not thorough else [60, 150, 400]):
        out.append("$" + "{" * d + "x" + "}" * d + "$ y")
        out.append("\\sqrt{" * d + "x" + "}" * d + " y")
        out.append("\\frac{" * d + "x" + "}{y}" * d + " y")
        out.append("$" + "^" * d + "x$")
        out.append("$" + "x_{" * d + "x" + "}" * (d - 1))
        out.append("\\sqrt[" * d + "x" + "]{z}" * d)
        out.append("a^" * d)
    for _ in range(3 if not thorough else 20):
        out.append("".join(g.valid() for _ in range(30))[:1500])
    return out


LEX_A = ["a", "1", ".", " ", "\n", "%", "$", "{", "}", "[", "]", "^", "\\frac", "\\sqrt"]
LEX_C = ["a", " ", "{", "}", "^{", "[", "]", "\\sqrt"]
LEX_B = ["\\", "a", "é", "2", ".", "%", "\n", "\r", " ", "$", "\"", "-"]


# ---------------------------------------------------------------- comparison
def text(n):
    return escs(base64.b64decode(n["t"]).decode("utf-8", "replace")) if n.get("t") else ""


def leaves_spec(ns, out):
    for n in ns:
        k = n["k"]
        if k in ("word", "lit", "sym"):
            out.append((k, n["t"]))
        elif k == "mac":
            out.append(("mac", n["t"]))
            leaves_spec(n["l"], out)
        elif k in ("sup", "sub"):
            leaves_spec([n["n"]], out)
        else:
            leaves_spec(n["l"], out)
    return out


def leaves_impl(ns, out):
    for n in ns:
        k = n["k"]
        if k in ("word", "lit", "sym"):
            out.append((k, text(n)))
        elif k == "mac":
            out.append(("mac", text(n)))
            leaves_impl(n["l"], out)
        elif k in ("sup", "sub"):
            leaves_impl([n["n"]], out)
        elif "l" in n:
            leaves_impl(n["l"], out)
        else:
            out.append((k, "?"))
    return out


def shape(n, impl):
    """Structure with texts, no positions."""
    k = n["k"]
    if k in ("word", "lit", "sym"):
        return [k, text(n) if impl else n["t"]]
    if k == "mac":
        return [k, text(n) if impl else n["t"], [shape(x, impl) for x in n["l"]]]
    if k in ("sup", "sub"):
        return [k, shape(n["n"], impl)]
    if k in ("arg", "opt", "list", "math"):
        return [k, [shape(x, impl) for x in n["l"]]]
    return [k]


def first_diff(a, b, path="tree"):
    if type(a) != type(b):
        return "%s: expected %r, got %r" % (path, a, b)
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, "%s.%d" % (path, i))
            if d:
                return d
        if len(a) != len(b):
            return "%s: expected %d elements, got %d: %s" % (path, len(a), len(b), str((a, b))[:300])
        return None
    return None if a == b else "%s: expected %r, got %r" % (path, a, b)


def start_of(n):
    if n["k"] == "list":
        return start_of(n["l"][0]) if n["l"] else -1
    return n["p"]


def end_of(n):
    k = n["k"]
    if k == "mac":
        return end_of(n["l"][-1]) if n["l"] else n["e"]
    if k == "list":
        return end_of(n["l"][-1]) if n["l"] else -1
    if k in ("sup", "sub"):
        return end_of(n["n"])
    return n["e"]


def pos_diff(s, i, path):
    """Positions of the implementation's node i against the specified s.
    An end of -1 is the end of something the end of input cut short (not
    constrained); an empty list has no position (-1 in the code too)."""
    k = s["k"]
    if i["k"] != k:
        return None            # another property's concern
    if k != "list" and i["p"] != s["p"]:
        return "%s (%s): starts at %d, expected %d" % (path, k, i["p"], s["p"])
    if k in ("word", "lit", "sym") and i["e"] != s["e"]:
        return "%s (%s): ends at %d, expected %d" % (path, k, i["e"], s["e"])
    if k == "mac":
        if i.get("np") != s["p"] or i.get("e") != s["e"]:
            return "%s: macro name at %s-%s, expected %d-%d" % (path, i.get("np"), i.get("e"), s["p"], s["e"])
        e = end_of(s)
        if e >= 0 and i["x"] != e:
            return "%s: macro ends at %d, expected %d" % (path, i["x"], e)
    if k in ("arg", "opt", "math"):
        if i["o"] != s["p"]:
            return "%s (%s): opened at %d, expected %d" % (path, k, i["o"], s["p"])
        if s["e"] >= 0 and (i["e"] != s["e"] or i["c"] != s["e"] - 1):
            return "%s (%s): closed at %d, ends at %d, expected %d and %d" % (path, k, i["c"], i["e"], s["e"] - 1, s["e"])
    if k == "list":
        if s["l"] and start_of(s) >= 0 and i["p"] != start_of(s):
            return "%s (list): starts at %d, expected %d" % (path, i["p"], start_of(s))
        if s["l"] and end_of(s) >= 0 and i["e"] != end_of(s):
            return "%s (list): ends at %d, expected %d" % (path, i["e"], end_of(s))
    if k in ("sup", "sub"):
        e = end_of(s)
        if e >= 0 and i["e"] != e:
            return "%s (%s): ends at %d, expected %d" % (path, k, i["e"], e)
        return pos_diff(s["n"], i["n"], path + ".script")
    for j, (a, b) in enumerate(zip(s.get("l", []), i.get("l", []))):
        d = pos_diff(a, b, "%s.%d" % (path, j))
        if d:
            return d
    return None


def judge_rejected(spec, impl, src):
    """The code built a tree of a source that has none.  Whether it should is
    C01's concern; its leaves still have to be the source's text: those in
    front of the point of failure, then the character that is to blame."""
    want = [escs(src[a:b].decode("utf-8", "replace")) for a, b in spec["t"]]
    got = [t for k, t in leaves_impl(impl["t"].get("l", []), [])]
    if got[:len(want)] != want:
        return "content differs: expected %s..., got %s" % (want[:60], got[:60])
    if spec["u"]:
        ch = chars(src[spec["o"]:])[0]["c"]
        if got[len(want):len(want) + 1] != [ch]:
            return "character %r at %d was lost or merged: got %s" % (ch, spec["o"], got[:60])
    return None


def judge(pid, spec, impl, src):
    """None, or what is wrong.  spec: {s, t}; impl: the driver's answer."""
    if "crash" in impl or "panic" in impl:
        return "parser crashed or hung: %s" % (impl.get("crash") or impl.get("panic"))
    v = impl["s"]
    if pid == "C01":
        if v not in ("ok", "err"):
            return "ParseExpr: %s %s" % (v, impl.get("msg", ""))
        for key, what in (("ms", "mtex.Parse"), ("rs", "mtex.Render")):
            if impl.get(key, "ok") not in ("ok", "err"):
                return "%s: %s %s" % (what, impl[key], impl.get("mmsg", impl.get("rmsg", "")))
        if v != spec["s"]:
            return "ParseExpr should %s this string, but it %s" % (
                "accept" if spec["s"] == "ok" else "reject",
                "returned a tree" if v == "ok" else "failed: " + impl.get("msg", ""))
        if v == "err" and impl.get("ms") == "ok":
            return "mtex.Parse accepted a string the parser rejects"
        return None
    if v != spec["s"]:
        if pid == "C04" and v == "err":
            return None
        if pid == "C04":
            return None
        if spec["s"] == "err":
            return judge_rejected(spec, impl, src) if pid == "C02" else "tree built although an argument or delimiter is missing or stray"
        return "text of an accepted string was not turned into a tree: %s %s" % (v, impl.get("msg", ""))
    if v != "ok":
        return None
    t = impl["t"]
    if t["k"] != "list":
        return "result is not a list of nodes: %s" % t["k"]
    if pid == "C02":
        a, b = leaves_spec(spec["t"], []), leaves_impl(t["l"], [])
        if a != b:
            return "content differs: expected %s, got %s" % (a[:60], b[:60])
        return None
    if pid == "C03":
        return first_diff([shape(x, False) for x in spec["t"]], [shape(x, True) for x in t["l"]])
    if pid == "C04":
        for j, (a, b) in enumerate(zip(spec["t"], t["l"])):
            d = pos_diff(a, b, "tree.%d" % j)
            if d:
                return d
        if spec["t"] and start_of({"k": "list", "l": spec["t"]}) >= 0 and t["p"] != start_of({"k": "list", "l": spec["t"]}):
            return "tree starts at %d" % t["p"]
    return None


# ---------------------------------------------------------------- running
def conf(cases=(), lexemes=(), maxlen=0, prefix=""):
    return {"arity": ARITY, "bom": esc(BOM), "cases": [chars(x) for x in cases],
            "lexemes": [chars(enc(x)) for x in lexemes], "maxlen": maxlen, "prefix": chars(enc(prefix))}


def compare(c, drv, srcs, specs, label):
    mt = c.pid == "C01"
    step = 1 if len(srcs) < 5000 else 12     # how many are also typeset
    reqs = [{"s": base64.b64encode(s).decode(), "m": mt and j % step == 0} for j, s in enumerate(srcs)]
    res = c.drive(drv, "front", reqs)
    for s, sp, im in zip(srcs, specs, res):
        c.traces += 1
        w = judge(c.pid, sp, im, s)
        if w:
            c.violation("%s\n  source %s (%s)" % (w, show(s), label), {"source_b64": base64.b64encode(s).decode(), "spec": sp, "impl": im})
    if c.pid == "C01":
        # earlier calls: the same requests in another order, in one process
        perm = list(range(len(srcs)))
        c.rng.shuffle(perm)
        perm = perm[:6000]
        again = c.drive(drv, "front", [reqs[i] for i in perm])
        for i, a in zip(perm, again):
            if a != res[i] and "crash" not in a and "crash" not in res[i]:
                c.violation("result depends on earlier calls: %s then %s\n  source %s" % (res[i], a, show(srcs[i])),
                            {"source_b64": base64.b64encode(srcs[i]).decode(), "first": res[i], "again": a})
        c.cov["repeated_in_other_order"] = c.cov.get("repeated_in_other_order", 0) + len(again)
    ok = sum(1 for x in specs if x["s"] == "ok")
    c.cov.setdefault("families", {})[label] = {"cases": len(srcs), "accepted": ok, "rejected": len(srcs) - ok}
    return res


def run_cases(c, drv, srcs, label, cfg="FrontCase.cfg"):
    specs = c.tlc_cases("MCFront.tla", cfg, conf(srcs), "FRONT_IN")
    by = {r["i"]: r for r in specs}
    if len(by) != len(srcs):
        raise vf.Broken("%d results for %d cases" % (len(by), len(srcs)))
    compare(c, drv, srcs, [by[i + 1] for i in range(len(srcs))], label)
    for i in range(0, len(srcs), max(1, len(srcs) // 2)):
        c.sample({"family": label, "source": show(srcs[i]), "verdict": by[i + 1]["s"],
                  "tree": str(by[i + 1]["t"])[:200]})


def run_enum(c, drv, lex, maxlen, prefix=""):
    label = "all strings %sof <=%d lexemes %s" % (prefix and "%r + " % prefix, maxlen, lex)
    specs = c.tlc_cases("MCFront.tla", "FrontEnum.cfg", conf((), lex, maxlen, prefix), "FRONT_IN")
    n = sum(len(lex) ** k for k in range(maxlen + 1))
    if len(specs) != n:
        raise vf.Broken("enumeration gave %d of %d results" % (len(specs), n))
    specs.sort(key=lambda r: (len(r["i"]), r["i"]))
    srcs = [enc(prefix + "".join(lex[k - 1] for k in r["i"])) for r in specs]
    compare(c, drv, srcs, specs, label)
    c.sample({"family": label, "source": show(srcs[len(srcs) // 3]), "verdict": specs[len(srcs) // 3]["s"]}, 8)


def run(c):
    drv = c.build()
    c.log("driver built")
    g = Gen(c.rng)
    q = c.pick(1, 10)
    fam = []
    for s in ["", BOM, BOM + BOM, "%", "%x", "$", "\\", "$$", "$$$", "^", "_", "{", "}", "[", "]", "\\frac", "a}", "$a}$", "\\sqrt[", "\\sqrt[]{", "^{", "^{}", "$^$", "$x^$", "x^ ", "$x^ y$", "x^%c\ny", "$x^%c\n y$", "\\sqrt [3]{x}", "\\sqrt\n[3]{x}", "\\sqrt[3] {x}", "\\sqrt[3]\n{x}", "\\sqrt%\n{x}", "\\sqrt[{]}]{x}", "$\\sqrt[{]}]{x}$", "\\sqrt[\\sqrt[3]{x}]{y}", "\\sqrt[^]]{x}", "$a$b$c", "\\frac{$a$}{$b}", "\\frac{a}{$b$}", "$\\frac{$a b$}{c d} e f$ g h", "$x$ y $z$", "%\r\nx", "%\rx\ny", "a\r\nb", "1 . 5", "1.5.2", "a.5", "a.b", "1.", ".", "..", "-1.5", "\\ x", "\\  x", "\\alpha x", "\\alphax", "\\alpha1", "\\|x", "\\$5", "\\%5", "\\_a", "\\{a\\}", "{a}", "${a}$", "${{a}b}$", "${a$", "$a{b$c$d}$"]:
        fam.append(enc(s))
    run_cases(c, drv, fam, "corner")
    run_cases(c, drv, [enc(s) for s in every_macro()], "every-macro")
    run_cases(c, drv, [enc(s) for s in near_misses()], "near-misses of macros")
    run_cases(c, drv, [enc(s) for s in odd_characters(c.rng, c.pick(4, 60))], "odd characters")
    c.log("macros and characters done")
    srcs = [enc(g.valid()) for _ in range(1500 * q)] + [enc(g.mutated()) for _ in range(1000 * q)] + \
           [enc(g.raw()) for _ in range(700 * q)] + [g.bytes_() for _ in range(120 * q)]
    srcs = [s[:400] for s in srcs]
    srcs = sorted(set(srcs))
    c.rng.shuffle(srcs)
    # the specification's own invariants are checked on the short ones
    short = [s for s in srcs if len(s) <= 40]
    long_ = [s for s in srcs if len(s) > 40]
    for name, ss, cfg in (("random-short", short, "FrontCase.cfg"), ("random-long", long_, "FrontLong.cfg")):
        for i in range(0, len(ss), 8000):
            run_cases(c, drv, ss[i:i + 8000], "%s-%d" % (name, i // 8000), cfg=cfg)
            c.log(name)
    c.log("random done")
    run_cases(c, drv, [enc(s) for s in long_cases(c.rng, c.thorough)], "long-and-deep", cfg="FrontLong.cfg")
    c.log("long done")
    run_enum(c, drv, LEX_A, c.pick(4, 5))
    run_enum(c, drv, LEX_B, c.pick(4, 5))
    run_enum(c, drv, LEX_C, c.pick(5, 6), "$")
    c.cov["exhaustive_part"] = "all lexeme strings of the enumerated families"
    c.assume = ["letters are the Unicode category L of the Python and Go tables (both Unicode 15)",
                "the macro table spec/data/arity.json is the language definition",
                "ends of constructs cut short by the end of input are not constrained"]
