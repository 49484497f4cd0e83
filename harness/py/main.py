import sys, os, json, time, random, multiprocessing as mp, traceback, gc, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.unraisablehook = lambda *a: None
import sim, q

EV = "/verif/evidence"
SEED = int(os.environ.get("VERIF_SEED", "1"))
realtime = time.time

def scen_list(prop, tier):
    l = q.PROPS[prop](tier)
    for s in l:
        if tier == "thorough" and s.dbound is not None: s.bound = s.dbound
    return l

def subtree(args):
    """Explores below the prefixes, for a number of executions; the rest is returned."""
    si, prefixes, quota = args
    s = SC[si]
    st = dict(n=0, dec={}, longest=0, iters=0, viol={}, trans=0)
    fan = set()
    stack = list(prefixes)
    gc.disable()
    while stack and st["n"] < quota:
        prefix, spent = stack.pop()
        try: trail, v, ev, it = sim.execute(s, prefix)
        except sim.HarnessError as e: return si, st, [], "harness error in %s %s: %s" % (s.name, prefix, e)
        except Exception: return si, st, [], "harness exception in %s %s:\n%s" % (s.name, prefix, traceback.format_exc())
        st["n"] += 1; st["iters"] += it
        if v and v[0] == sim.HUNG:
            # Takes long; do not go on.
            st["viol"][v[0]] = (prefix, v[1])
            stack = []
            break
        st["longest"] = max(st["longest"], len(trail))
        st["trans"] += len(ev)
        for n, c, cost, kind in trail: st["dec"][kind] = st["dec"].get(kind, 0) + 1
        fan.add(hashlib.blake2b("\n".join(x[10:] for x in ev).encode(), digest_size=8).digest())
        if v:
            if v[0] not in st["viol"] or len(prefix) < len(st["viol"][v[0]][0]): st["viol"][v[0]] = (prefix, v[1])
        # alternatives after the prefix
        ch = [t[1] for t in trail]
        sp = spent
        for i in range(len(prefix), len(trail)):
            n, c, cost, kind = trail[i]
            if sp + cost <= s.bound:
                for a in range(n - 1, 0, -1): stack.append((ch[:i] + [a], sp + cost))
    st["hist"] = fan
    return si, st, stack, None

def check(prop, tier, only=None):
    global SC
    t0 = realtime()
    cap = 600 if tier == "quick" else 780
    SC = [s for s in scen_list(prop, tier) if not only or s.name.startswith(only)]
    tot = [dict(n=0, dec={}, longest=0, iters=0, viol={}, hist=set(), trans=0) for _ in SC]
    nw = int(os.environ.get("PX_WORKERS", "8"))
    complete = True
    err = None
    with mp.get_context("fork").Pool(nw) as pool:
        work = [(i, [([], 0)]) for i in range(len(SC))]
        out = 0
        import queue
        done = queue.Queue()
        active = 0
        while (work or active) and not err:
            if realtime() - t0 > cap or sum(sim.HUNG in t["viol"] for t in tot) >= 8: complete = False; break
            while work and active < nw * 2:
                k = min(range(len(work)), key=lambda k: tot[work[k][0]]["n"]) if len(work) < 2000 else -1
                work[k], work[-1] = work[-1], work[k]
                i, p = work.pop()
                active += 1
                pool.apply_async(subtree, ((i, p, 25 if tot[i]["n"] < 100 else 200),), callback=done.put, error_callback=lambda e: done.put((0, None, [], repr(e))))
            i, st, rest, e = done.get()
            active -= 1
            if e: err = e; break
            t = tot[i]
            t["n"] += st["n"]; t["iters"] += st["iters"]; t["trans"] += st["trans"]; t["longest"] = max(t["longest"], st["longest"])
            t["hist"] |= st["hist"]
            for k, v in st["dec"].items(): t["dec"][k] = t["dec"].get(k, 0) + v
            for k, v in st["viol"].items():
                if k not in t["viol"] or len(v[0]) < len(t["viol"][k][0]): t["viol"][k] = v
            if rest:
                m = max(1, (len(rest) + nw - 1) // nw)
                for j in range(0, len(rest), m): work.append((i, rest[j: j + m]))
        if not complete or err: pool.terminate()
    if err: print(err); return 2
    known = json.load(open("/verif/known_findings.json")).get("findings", []) if os.path.exists("/verif/known_findings.json") else []
    viol, kn, unconf = [], [], []
    os.makedirs(EV + "/replays", exist_ok=True)
    rc = 0
    seen = set()
    for s, t in zip(SC, tot):
        for sig, (prefix, text) in t["viol"].items():
            if (s.name.split("#")[0], sig) in seen: continue
            # The same schedule must fail again in the same way.
            trail, v, ev, _ = sim.execute(s, prefix)
            full = "%s|%s" % (s.name.split("#")[0], sig)
            if not v or v[0] != sig:
                unconf.append(full); continue
            seen.add((s.name.split("#")[0], sig))
            if any(k["property"] == prop and k["signature"] == full for k in known):
                print("KNOWN-FINDING: property=%s %s" % (prop, full)); kn.append(full); continue
            name = hashlib.md5(full.encode()).hexdigest()[:8]
            path = "%s/replays/%s-%s.json" % (EV, prop, name)
            json.dump(dict(property=prop, tier=tier, scenario=s.name, choices=prefix, signature=full, what=v[1], events=ev), open(path, "w"), indent=1, default=repr)
            viol.append(dict(signature=full, replay=path, what=v[1]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   %s (%s)\n   %s" % (full, s.name, v[1]))
            rc = 1
    n = sum(t["n"] for t in tot)
    dec = {}
    for t in tot:
        for k, v in t["dec"].items(): dec[k] = dec.get(k, 0) + v
    rep = {}
    for s, t in zip(SC, tot):
        b = s.name.split("#")[0]
        r = rep.setdefault(b, dict(name=b, deviation_bound=s.bound, order_cost=s.order_cost, variants=0, executions=0))
        r["variants"] += 1; r["executions"] += t["n"]
    samples = []
    for s in SC[:: max(1, len(SC) // 5)][:5]:
        trail, v, ev, _ = sim.execute(s, [])
        samples.append(dict(scenario=s.name, decisions=["%s:%d/%d" % (k, c, m) for m, c, _, k in trail][:30], events=ev[:30]))
    e = dict(property=prop, tier=tier, level="model_checking", seed=SEED, wall_s=realtime() - t0,
        coverage=dict(states=len(set().union(*[t["hist"] for t in tot])) if tot else 0, transitions=sum(t["trans"] for t in tot),
            traces_validated_against_impl=n, decisions=sum(dec.values()), decision_kinds=dec, longest_schedule=max(t["longest"] for t in tot),
            loop_iterations=sum(t["iters"] for t in tot), scenarios=sorted(rep.values(), key=lambda r: r["name"]), scenario_variants=len(SC),
            exhaustive_within_bounds=complete, samples=samples,
            states_meaning="distinct histories of observable events",
            bounds="every choice sequence of each scenario whose deviations from the default schedule cost at most the scenario's deviation_bound",
            how_bound="there is no separate model of the library: every execution runs the Python library of /repo/python and the real websockets library on an event loop, clock and network that the explorer controls"),
        violations=viol, known_findings_seen=kn, unconfirmed=unconf)
    os.makedirs(EV, exist_ok=True)
    json.dump(e, open("%s/%s.json" % (EV, prop), "w"), indent=1, default=repr)
    for u in unconf: print("unconfirmed:", u)
    print("%s %s: %d executions, %d scenarios, %d iterations, %.1f s%s, %d violations" % (prop, tier, n, len(SC), sum(t["iters"] for t in tot), realtime() - t0, "" if complete else " (not complete)", len(viol)))
    if os.environ.get("PX_V"):
        for s, t in zip(SC, tot): print("  %-60s %6d" % (s.name, t["n"]))
    return rc

def run1(prop, tier, name, choices):
    s = [s for s in scen_list(prop, tier) if s.name == name][0]
    trail, v, ev, it = sim.execute(s, choices)
    for x in ev: print(x)
    print(" ".join("%s:%d/%d" % (k, c, m) for m, c, _, k in trail))
    print(v, it)

if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "check": sys.exit(check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else "quick", sys.argv[4] if len(sys.argv) > 4 else None))
    if cmd == "run": run1(sys.argv[2], sys.argv[3], sys.argv[4], json.loads(sys.argv[5]) if len(sys.argv) > 5 else [])
    if cmd == "replay":
        r = json.load(open(sys.argv[2])); run1(r["property"], r["tier"], r["scenario"], r["choices"])
    if cmd == "list":
        for s in scen_list(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else "quick"): print(s.name, s.bound)
