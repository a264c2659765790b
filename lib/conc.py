"""C23: concurrent use, decided by Concurrent."""
import base64, glob, json, os, re
from concurrent.futures import ThreadPoolExecutor
import vf
from front import enc
from typeset import Gen

LOADED = ("lm", "lib")


def call(op, s="", set_="", size=12, dpi=72):
    return dict(Op=op, S=base64.b64encode(enc(s)).decode(), Set=set_, Size=size, DPI=dpi)


def show(x):
    return "%s(%r%s)" % (x["Op"], base64.b64decode(x["S"]).decode("utf-8", "replace"), ", %s, %s pt, %s dpi" % (x["Set"] or "-", x["Size"], x["DPI"]) if x["Op"] != "parse" else "")


def run(c):
    drv = c.build()
    rdrv = c.build(race=True)
    r = c.rng
    fam = c.cov.setdefault("families", {})
    alone = {}
    races = set()

    def key(x):
        return json.dumps(x, sort_keys=True)

    def fresh(n, drv_, req, env=None):
        return c._drive(drv_, "conc", [req], 200, env, "-c%d" % n)[0]

    def solo(calls):
        todo = [x for x in {key(x): x for x in calls}.values() if key(x) not in alone]
        with ThreadPoolExecutor(8) as ex:
            for x, o in zip(todo, ex.map(lambda j: fresh(j, drv, {"Progs": [[todo[j]]]}), range(len(todo)))):
                # (a call that fails alone is for the other checks)
                alone[key(x)] = o["out"][0][0]["r"] if "out" in o else "?"

    def progs(ps):
        """for the specification"""
        return [[dict(c=n, r=alone[key(x)], set=x["Set"] if x["Set"] in LOADED else "") for n, x in enumerate(p)] for p in ps]

    def race_reports(n):
        out = []
        for f in glob.glob(os.path.join(c.work, "race.%d.*" % n)):
            with open(f) as fh:
                out.append(fh.read())
            os.unlink(f)
        return out

    def go(jobs, label, race):
        """jobs: (programs, schedule or None, procs); all in processes of their own"""
        def one(n):
            ps, sched, procs = jobs[n]
            o = fresh(n, rdrv if race else drv, dict(Progs=ps, Sched=sched, Procs=procs),
                      {"GORACE": "log_path=%s exitcode=0 halt_on_error=0" % os.path.join(c.work, "race.%d" % n)} if race else None)
            return o, race_reports(n)
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, range(len(jobs))))

    def judge(jobs, results, label):
        traces, cases = [], []
        for n, ((ps, sched, procs), (o, rep)) in enumerate(zip(jobs, results)):
            c.traces += 1
            what = "; ".join("%d: %s" % (g + 1, ", ".join(map(show, p[:4]))) for g, p in enumerate(ps[:4]))
            if rep:
                m = re.search(r"WARNING: DATA RACE.*?(?===================|$)", rep[0], re.S)
                txt = m[0] if m else rep[0]
                where = re.findall(r"^\s+(\S+)\(.*\)\n\s+(\S+):(\d+)", txt, re.M)[:6]
                k = str([(f, l) for _, f, l in where[:1]])
                if k not in races:
                    races.add(k)
                    c.violation("data race: %s\n  goroutines %s; schedule %s (%s)" % (" < ".join("%s %s:%s" % (a.split("/")[-1], os.path.basename(b), l) for a, b, l in where), what, sched, label),
                                {"programs": ps, "schedule": sched, "procs": procs, "report": txt[:6000]})
            if "out" not in o:
                if any(alone[key(x)] == "?" for p in ps for x in p):
                    continue
                c.violation("crash: %s\n  goroutines %s; schedule %s (%s)" % (str(o.get("crash") or o.get("panic"))[:600], what, sched, label),
                            {"programs": ps, "schedule": sched, "procs": procs, "impl": str(o)[:4000]})
                continue
            # the trace: beginnings and ends in the order they happened
            if sched is not None:
                at = [0] * len(ps)
                ev = []
                for g, k in sched:
                    x = o["out"][g][at[g]]
                    ev.append(dict(g=g + 1, k=k, c=at[g], r=x["r"]))
                    at[g] += k
            else:
                ev = []
                for g, xs in enumerate(o["out"]):
                    for k, x in enumerate(xs):
                        ev.append((x["t0"], g, k, 0, x["r"]))
                        ev.append((x["t1"], g, k, 1, x["r"]))
                # (per goroutine in order, even when the clock stands still)
                ev.sort(key=lambda e: (e[0], e[1], e[2], e[3]))
                ev = [dict(g=g + 1, k=k, c=n_, r=x) for _, g, n_, k, x in ev]
            cases.append(dict(prog=progs(ps), trace=ev))
            traces.append(n)
        ok = {x["i"] for x in c.tlc_cases("MCConcurrent.tla", "ConcTrace.cfg", dict(cases=cases), "CONC_IN")}
        for j, n in enumerate(traces):
            if j + 1 in ok:
                continue
            ps, sched, procs = jobs[n]
            bad = [(g, k) for g, xs in enumerate(results[n][0]["out"]) for k, x in enumerate(xs) if x["r"] != alone[key(ps[g][k])]]
            if not bad:
                raise vf.Broken("the specification has no behaviour for a trace with the right results")
            g, k = bad[0]
            full = lambda o: o["out"]
            a = fresh(9000, drv, dict(Progs=[[ps[g][k]]], Full=True))
            c.violation("goroutine %d, call %d, %s: not the result it gives alone\n  alone: %s\n  (%d wrong of %d calls; schedule %s; %s)" % (
                g + 1, k + 1, show(ps[g][k]), str(a.get("out"))[:300], len(bad), sum(map(len, ps)), sched, label),
                {"programs": ps, "schedule": sched, "procs": procs, "wrong": bad[:20]})
        d = fam.setdefault(label, {"processes": 0, "calls": 0})
        d["processes"] += len(jobs)
        d["calls"] += sum(len(p) for ps, _, _ in jobs for p in ps)
        c.log(label, len(jobs))

    srcs = ["$x+\\frac{a}{2}$", "ab $\\sqrt[3]{x}$ V", "$\\sum\\alpha\\leq\\sin x$", "\\foo", "$\\frac{a}$", "% no", "$-1.5$ -A", "$\\overline{AV}\\binom{n}{k}$", "Tо 12.5", "$\\hspace{3} \\quad x$", "$\\mathbb{R}$", "$a,b$"]
    ops = []
    for s in srcs:
        ops += [call("parse", s), call("typeset", s, "lm"), call("typeset", s, "lib", 20, 100), call("typeset", s, ""), call("typeset", s, "own", 10),
                call("render", s, "lib"), call("render", s, "lm", 17), call("render", s, "", 12, 300), call("image", s, "lib", 12, 100), call("image", s, "own"), call("image", s, "", 30)]
    ops += [call("fonts", "", "lm"), call("fonts", "", "lib")] * 5

    # schedules from the first use on
    combos = [[[call("fonts", "", "lm")], [call("fonts", "", "lm")], [call("render", srcs[0], "lm")]],
              [[call("fonts", "", "lib")], [call("typeset", srcs[1], "lib")], [call("fonts", "", "lm")]],
              [[call("image", srcs[1], "lib")], [call("image", srcs[1], "lib")], [call("image", srcs[2], "lib", 20)]],
              [[call("parse", srcs[1])], [call("parse", srcs[3])], [call("parse", srcs[5])]],
              [[call("render", srcs[7], "")], [call("render", srcs[7], "")], [call("typeset", srcs[6], "", 10)]],
              [[call("fonts", "", "lm"), call("render", srcs[2], "lm")], [call("render", srcs[2], "lib"), call("fonts", "", "lm")]],
              [[call("parse", srcs[0]), call("image", srcs[0], "own")], [call("image", srcs[0], "own"), call("typeset", srcs[0], "own")]]]
    combos += [[[call("render", srcs[10], "lib"), call("render", srcs[0], "lib")], [call("typeset", srcs[11], "lm"), call("typeset", srcs[3], "lib")]]]
    combos += [[[r.choice(ops)] for _ in range(3)] for _ in range(c.pick(6, 60))]
    combos += [[[r.choice(ops), r.choice(ops)], [r.choice(ops), r.choice(ops)]] for _ in range(c.pick(3, 40))]
    combos += [[[r.choice(ops)], [r.choice(ops)], [r.choice(ops)], [r.choice(ops)]] for _ in range(c.pick(0, 6))]
    solo([x for ps in combos for p in ps for x in p])
    scheds = {}
    for x in c.tlc_cases("MCConcurrent.tla", "ConcEnum.cfg", dict(cases=[dict(prog=progs(ps)) for ps in combos]), "CONC_IN"):
        scheds.setdefault(x["i"] - 1, set()).add(tuple((g - 1, k) for g, k in x["h"]))
    jobs = []
    for j, ps in enumerate(combos):
        ss = sorted(scheds[j])
        # (those with the most calls under way at once first)
        def overlap(s):
            n = m = 0
            for _, k in s:
                n += 1 if k == 0 else -1
                m += n
            return -m
        r.shuffle(ss)
        ss.sort(key=overlap)
        k = c.pick(10, 40)
        pick = ss[:k // 2] + r.sample(ss[k // 2:], min(len(ss) - k // 2, k - k // 2)) if len(ss) > k else ss
        jobs += [(ps, [list(e) for e in s], r.choice([0, 0, 1, 2])) for s in pick]
    c.cov["schedules the specification allows"] = sum(map(len, scheds.values()))
    judge(jobs, go(jobs, "schedules", True), "schedules from the first use on (race detector)")
    c.sample({"goroutines": [list(map(show, p)) for p in combos[0]], "schedule": jobs[0][1]})

    # free running
    g = Gen(r, dict(minus=.3, dots=1, con=3))
    def some():
        s = g.expr(r.choice([1, 2]))
        return [call("parse", s), call(r.choice(["typeset", "render"]), s, r.choice(["lm", "lib", "", "own"]), r.choice([10, 12, 20]), r.choice([72, 100]))]
    for race, n, gs, k in ((True, c.pick(8, 60), 6, c.pick(12, 30)), (False, c.pick(16, 150), 8, c.pick(40, 80))):
        jobs = []
        for _ in range(n):
            pool = r.sample(ops, 12) + [x for _ in range(4) for x in some()]
            few = r.sample(pool, 4)
            jobs.append(([[r.choice(r.choice([pool, few])) for _ in range(k)] for _ in range(gs)], None, r.choice([0, 0, 0, 2])))
        solo([x for ps, _, _ in jobs for p in ps for x in p])
        judge(jobs, go(jobs, "free", race), "running freely%s" % (" (race detector)" if race else ""))
    c.cov["calls run alone for reference"] = len(alone)
    c.assume = ["what a call gives alone in a process of its own is its sequential result",
                "the race detector of Go reports the races that happen"]
