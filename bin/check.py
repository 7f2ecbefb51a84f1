#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property: cases come from the TLA+ specification, the real macro
(rebuilt from /repo) is run on them, and TLC checks what was observed against
the specification. Exit 0: held on everything explored; exit 1 with a VIOLATION
line: broken; exit 2: the check itself failed.
"""
import argparse, collections, copy, json, os, random, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mv, plans

KNOWN = os.path.join(mv.VERIF, "known-findings.txt")


def expected_of(c):
    if c["exp"] != "ok":
        return "err"
    return "ok" if c["run"] else "junk"     # junk: accepted, but not a program the kit can run


def fams(cs):
    return dict(collections.Counter(c["lab"].split(" ")[0] for c in cs).most_common(40))


def corrupt(o, rng):
    """An observation that did not happen: the judge must reject it."""
    o = copy.deepcopy(o)
    if o["out"] == "err":
        if rng.random() < .5:
            return dict(out="ok", root="x", clog=[], rlog=[], dom=[]), "error not reported"
        o["locs"] = []
        return o, "error at no location"
    nodes = []

    def walk(ns):
        for n in ns:
            nodes.append((ns, n))
            walk(n["ch"])
    walk(o["dom"])
    how = ["outcome"]
    if nodes:
        how += ["drop node", "extra node"]
    at = [n for _, n in nodes if n["at"]]
    cl = [n for _, n in nodes if n["cls"]]
    tx = [n for _, n in nodes if n["t"] == "tx" and n["s"]]
    if at:
        how += ["drop attribute", "change attribute"]
    if cl:
        how += ["drop class"]
    if tx:
        how += ["change text"]
    if o["clog"]:
        how += ["drop evaluation"]
    if o["rlog"]:
        how += ["repeat evaluation"]
    h = rng.choice(how)
    if h == "outcome":
        return dict(out="err", locs=[]), h
    if h == "drop node":
        ns, n = rng.choice(nodes)
        ns.remove(n)
    elif h == "extra node":
        ns, n = rng.choice(nodes)
        ns.append(dict(t="el", s="x-extra", ns="", at=[], cls=[], sty=[], ch=[]))
    elif h == "drop attribute":
        n = rng.choice(at)
        n["at"].pop(rng.randrange(len(n["at"])))
    elif h == "change attribute":
        n = rng.choice(at)
        n["at"][rng.randrange(len(n["at"]))][1] += "~"
    elif h == "drop class":
        n = rng.choice(cl)
        n["cls"].pop()
    elif h == "change text":
        rng.choice(tx)["s"] += "~"
    elif h == "drop evaluation":
        o["clog"].pop()
    elif h == "repeat evaluation":
        o["rlog"].append(o["rlog"][0])
    return o, h


def key_of(toks, bad):
    return {"call": mv.plain(toks, False), "aspects": sorted(bad)}


def known_for(prop):
    out = []
    for l in open(KNOWN):
        if l.startswith("known:"):
            k = json.loads(l[6:])
            if k["property"] == prop:
                out.append(k)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(mv.BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="w_%s_" % a.prop, dir=mv.BUILD)
    try:
        return run(a, seed, work)
    except mv.CheckError as x:
        print("CHECK-ERROR %s: %s" % (a.prop, x))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def run(a, seed, work):
    t0 = time.time()
    times = {}

    def lap(name):
        nonlocal last
        times[name] = round(time.time() - last, 1)
        last = time.time()
    last = t0
    plan = plans.PLANS[a.prop]
    stable = plan.get("kit") == "stable"
    kit = mv.build_kit(stable)
    lap("build")
    gen = mv.Generator(work)
    srcs = []
    if a.replay:
        r = json.load(open(a.replay))
        cases = [dict(lab=r.get("lab", "replay"), exp=r["expected"], run=True, dg=[], toks=r["toks"], src="replay")]
        if r["expected"] == "junk":
            cases[0].update(exp="ok", run=False)
    else:
        cases = []
        sources = plan["quick" if a.tier == "quick" else "thorough"]
        for s, got in zip(sources, gen.all(sources, seed)):
            for c in got:
                c["src"] = s[0]
            srcs.append(dict(source=" ".join(map(str, s)), cases=len(got), families=fams(got)))
            cases += got
        cases = mv.dedup(cases)
    lap("generate")
    # the number of a case says how it is laid out and what surrounds it
    base = r.get("id", 0) if a.replay else 0
    ids = [(base + i, c["toks"], expected_of(c)) for i, c in enumerate(cases)]
    envs = mv.OTHERS if plan.get("envs") == "others" else mv.PLAIN
    ob = mv.Observer(kit, work, envs)
    obs = ob.observe(ids)
    lap("observe")
    again = {}
    if plan.get("repeat"):
        again = ob.repeat([t for t in ids if t[0] in obs and obs[t[0]]["out"] in ("ok", "err")], plan["repeat"] * (1 if a.tier == "quick" else 2))
        for i, digs in again.items():
            obs[i]["digs"] = digs
        lap("repeat")
    # corrupted observations, judged along with the real ones
    rng = random.Random(seed)
    seen = [t for t in ids if t[0] in obs]
    fit = [t for t in seen if (t[2] == "ok" and obs[t[0]]["out"] == "ok") or (cases[t[0] - base]["exp"] == "err" and obs[t[0]]["out"] == "err")]
    mut = []
    for t in rng.sample(fit, min(len(fit), 40)):
        o, how = corrupt(obs[t[0]], rng)
        n = 3 * 10 ** 6 + 3 * len(mut)
        mut.append((n, t[1], t[2], t[0], how))
        obs[n] = o
    jd = mv.Judge(work, stable)
    ver = jd.judge(seen + [m[:3] for m in mut], obs)
    lap("judge")

    counted = plan["aspects"]
    always = {"panic", "hang", "crash"}
    viol, other = [], []
    for t in seen:
        v = ver[t[0]]
        if not v["bad"]:
            continue
        c = cases[t[0] - base]
        cat = c["src"] == "cat"
        hit = set(v["bad"]) & (set(counted) | always)
        # in its own catalogue, whatever differs is this property's
        if cat and not plan.get("strict"):
            hit = set(v["bad"])
        (viol if hit else other).append((t, c, v, obs[t[0]], sorted(hit)))
    missed = [m for m in mut if not ver[m[0]]["bad"] and not ver[m[3]]["bad"]]
    if missed and not viol:
        m = missed[0]
        raise mv.CheckError("the judge accepts a corrupted observation (%s): %s" % (m[4], mv.plain(m[1])))

    known = known_for(a.prop)
    fresh = []
    for x in viol:
        k = key_of(x[0][1], x[4])
        for e in known:
            if e["call"] == k["call"] and set(x[4]) <= set(e["aspects"]):
                break
        else:
            fresh.append(x)
    for e in known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, e["what"]))
    fresh.sort(key=lambda x: len(json.dumps(x[0][1])))
    rc = 0
    if fresh:
        rc = 1
        out = os.path.join(mv.BUILD, "replay")
        os.makedirs(out, exist_ok=True)
        for n, (t, c, v, o, hit) in enumerate(fresh[:5 if not a.v else 50]):
            f = os.path.join(out, "%s_%d.json" % (a.prop, n))
            json.dump(dict(property=a.prop, aspects=hit, call="mview! { %s }" % mv.plain(t[1]), lab=c["lab"], id=t[0],
                           expected=t[2], spec=dict(outcome=v["exp"], errors_at=v["locs"], run=v["run"]),
                           observed=o, toks=t[1]), open(f, "w"), indent=1)
            print("differs in %s: mview! { %s }" % (", ".join(hit), mv.plain(t[1])[:400]))
            if o.get("why"):
                print("    observed %s: %s" % (o["out"], o["why"][:300]))
        print("%d of %d cases differ" % (len(fresh), len(seen)))
        print("VIOLATION property=%s replay=%s" % (a.prop, os.path.join(out, "%s_0.json" % a.prop)))
    if a.v:
        for t, c, v, o, hit in other[:20]:
            print("other:", v["bad"], mv.plain(t[1])[:300], o.get("why", "")[:300])

    outc = collections.Counter(o["out"] for i, o in obs.items() if i < 3 * 10 ** 6)
    kept = [t for t in seen if not ver[t[0]]["bad"]]
    samp = []
    for t in rng.sample(kept, min(6, len(kept))):
        o = obs[t[0]]
        samp.append(dict(call="mview! { %s }" % mv.plain(t[1])[:500], family=cases[t[0] - base]["lab"], outcome=o["out"],
                         errors_at=o.get("locs"), html=(o.get("html") or "")[:400],
                         evaluated=dict(at_construction=o.get("clog"), at_rendering=o.get("rlog")) if o["out"] == "ok" else None))
    diags = collections.Counter(d for c in cases for d in c["dg"])
    ev = dict(
        property=a.prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking",
        coverage=dict(
            states=gen.states + jd.states, transitions=gen.trans + jd.trans,
            traces_validated_against_impl=len(kept), samples=samp,
            generation=dict(states=gen.states, sources=srcs), judging=dict(states=jd.states),
            cases=len(cases), observed=len(seen), outcomes=dict(outc), errors_in_the_cases=dict(diags),
            compilations=ob.compiles, corrupted_traces=len(mut), corrupted_traces_rejected=len(mut) - len(missed),
            repeated_expansions=sum(len(d) for d in again.values()),
            differing_in_aspects_of_other_properties=len(other), seconds=times,
            invariants_checked=plans.INVARIANTS),
        assumptions=plans.ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=len(fresh))
    if not a.replay:
        os.makedirs(os.path.join(mv.VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(mv.VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
    print("%s: %d cases, %d conform, %d differ (%d in other aspects); %s; %d states; %.0f s %s" % (
        a.prop, len(cases), len(kept), len(fresh), len(other), dict(outc), gen.states + jd.states, time.time() - t0, times))
    return rc


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
