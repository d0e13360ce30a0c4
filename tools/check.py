#!/usr/bin/env python3
"""bin/check <ID> [--replay FILE]: decide one property on /repo's current tree."""
import copy, hashlib, json, os, random, shutil, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
import engine
from engine import *
import gen, models, toy

# what each property judges (used to place canaries) and which observed field it must read
JUDGED = {
 "C01": [("mn.entropy", "res")], "C02": [("mn.phrase", "res"), ("mn.validate", "res")], "C03": [("seed.new", "res")], "C04": [("prv.new", "res")],
 "C05": [("ckd", "res.val.key"), ("ckd", "res.val.chain")], "C06": [("commute", "viaprv"), ("commute", "viapub"), ("neuter", "res")],
 "C07": [("path.derive", "res"), ("path.derive", "steps"), ("path.derive", "parts")], "C08": [("ckd", "res.val.fp"), ("ckd", "res.val.depth"), ("ckd", "res.val.cn"), ("fp", "res")],
 "C09": [("cn.parse", "res"), ("cn.show", "res"), ("cn.new", "res"), ("path.parse", "res"), ("path.show", "res")],
 "C10": [("export", "res"), ("export", "back"), ("import", "res"), ("ek.show", "res"), ("ek.into", "res")], "C11": [("import", "res")], "C12": [("eq", "res")],
 "C13": [("sk.from", "res"), ("pk.from", "res"), ("sk.tweak", "res"), ("pk.tweak", "res"), ("sk.pub", "res")], "C14": [("sign", "res"), ("sign", "again")],
 "C15": [("w.drop", "alive"), ("w.make", "mem"), ("w.clone", "alive")], "C16": [("dbg", "res")], "C17": [("mn.new", "res"), ("mn.new", "back")],
 "C18": [("lang.word", "res"), ("lang.index", "res"), ("lang.prefix", "res"), ("lang.code", "res"), ("lang.detect", "res")], "C19": [("*", "self2")],
 "C20": [("prefix.of", "res"), ("prefix.std", "res"), ("prefix.parts", "res")], "C21": [("mn.render", "res"), ("seed.render", "res")], "C22": [("mtype", "res")], "C23": [("ripemd", "res")], "C24": [("prv.new", "res.val.key"), ("ckd", "res.val.key"), ("path.derive", "res.val.key"), ("commute", "viapub.val.key"), ("import", "res.val.key"), ("ek.into", "res.val.key")],
 "C25": [("p.view", "res"), ("p.into", "res"), ("p.eq", "res"), ("p.derive", "res"), ("p.push", "all"), ("p.clone", "all"), ("p.parent", "all")], "C26": [], "C27": [("order", "res")],
}

def leaves(v, path=()):
    if isinstance(v, dict):
        for k in v: yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        for i in range(len(v)): yield from leaves(v[i], path + (i,))
    else: yield path
def put(v, path, f):
    if not path: return f(v)
    v = copy.copy(v); v[path[0]] = put(v[path[0]], path[1:], f); return v
def damage(x):
    if isinstance(x, bool): return not x
    if isinstance(x, int): return x ^ 1
    if isinstance(x, str): return {"held": "dirty", "clean": "dirty", "given": "dirty"}.get(x, x + "~")
    if isinstance(x, list): return [1]
    return x
def canaries(prop, logs, r, want=4):
    """damaged copies of recorded sessions: validation has to object to every one of them"""
    out = []
    if prop == "C24":                                   # what was refused must not be accepted
        pool = [(s, i) for s in logs for i, e in enumerate(s["evs"]) if e["res"]["tag"] == "err" and (e["op"] == "prv.new" and len(e["self"]["bytes"] if "self" in e else e["seed"]) in (16, 32, 64, 128) or e["op"] == "ckd" and e["self"]["depth"] < 255 and (e["self"]["kind"] == "prv" or e["cn"][0] < 128))]
        for s, i in r.sample(pool, min(len(pool), 8)):
            e = s["evs"][i]; keep = next((x["res"] for y in logs for x in y["evs"] if x["op"] == e["op"] and x["res"]["tag"] == "ok"), None)
            out.append({"id": f"canary{len(out)}", "evs": s["evs"][:i] + [{**e, "res": keep if keep and len(out) % 2 else {"tag": "panic"}}]})
    if prop == "C26":                                   # another kind, another text, another number
        pool = {}
        for s in logs:
            for i, e in enumerate(s["evs"]):
                if e["res"]["tag"] == "err": pool.setdefault(e["op"], []).append((s, i))
        for op in sorted(pool):
            for s, i in r.sample(pool[op], min(len(pool[op]), 3)):
                e = s["evs"][i]; b39 = op.startswith("mn.") or op in ("mtype", "lang.index")
                for x in ({"kind": "Crypto" if b39 else "Bip39"}, {"text": e["res"]["text"] + "~"}):
                    if op == "mn.validate" and "text" in x: continue
                    out.append({"id": f"canary{len(out)}", "evs": s["evs"][:i] + [{**e, "res": {**e["res"], **x}}]})
                if op in ("mn.entropy", "mtype", "mn.phrase") and e["res"]["kind"] in ("InvalidKeysize", "InvalidWordLength"): out.append({"id": f"canary{len(out)}", "evs": s["evs"][:i] + [{**e, "num": e["num"][:7] + [e["num"][7] ^ 1]}]})
    for op, field in JUDGED[prop]:
        got = 0
        path = tuple(field.split("."))
        pool = [(s, i) for s in logs for i, e in enumerate(s["evs"]) if (op == "*" or e["op"] == op) and e["res"]["tag"] == ("err" if prop == "C11" else "ok") and "cn.parse" != op]
        if op == "cn.parse": pool = [(s, i) for s in logs for i, e in enumerate(s["evs"]) if e["op"] == op and e["res"]["tag"] == "ok" and 43 not in e["text"]]
        r.shuffle(pool)
        for s, i in pool[:200]:
            if got >= want: break
            e = s["evs"][i]
            if prop == "C16" and {k: v for k, v in e["a"].items() if k != "key"} != {k: v for k, v in e["b"].items() if k != "key"}: continue
            if prop == "C05" and e["self"]["kind"] != "prv": continue
            if prop == "C06" and op == "commute" and any(c[0] >= 128 for c in e["path"]): continue
            if prop == "C10" and op == "export" and field == "back" and e["self"]["depth"] == 0 and any(e["self"]["fp"] + e["self"]["cn"]): continue
            if prop == "C10" and op in ("import", "ek.into") and "self" in e and e["self"]["depth"] == 0: continue
            if prop == "C11":
                out.append({"id": f"canary{len(out)}", "evs": s["evs"][:i] + [{**e, "res": {"tag": "ok", "val": 0} if got % 2 else {"tag": "panic"}}]}); got += 1; continue
            try:
                for k in path: v = e[k] if k == path[0] else v[k]
            except KeyError: continue
            if field in ("mem", "alive") and not v: continue
            if field.startswith("res") and field == "res":
                cand = [("res",) + p for p in leaves(e["res"].get("val"), ("val",))] + [None]
            else: cand = [path + p for p in leaves(v)]
            def at(q):
                y = e
                for k in q: y = y[k]
                return y
            cand = [q for q in cand if q is None or not (q[-1] in ("kind", "text") and at(q[:-1]).get("tag") == "err")]   # which error it is may differ
            if not cand: continue
            p = r.choice(cand)
            if p is None: e2 = {**e, "res": {"tag": "panic"}}
            else:
                if prop == "C14" and p[-1] == "recid" and False: continue
                e2 = put(e, p, damage)
                if e2 == e: continue
            out.append({"id": f"canary{len(out)}", "evs": s["evs"][:i] + [e2]}); got += 1
    return out

def runs_c19(sessions, work, seed, thorough):
    """the same calls in many orders, on threads and racing in fresh processes"""
    REL = "--release"
    def kmsh(ss, work, name, mode): return engine.kmsh(ss, work, name, [m for m in mode if m != REL], release=REL in mode)
    plans = [("fwd", []), ("rev", ["--order", "rev"]), ("shuf", ["--order", f"shuffle:{seed}"]), ("thr4", ["--threads", "4"]), ("thr8", ["--order", f"shuffle:{seed + 1}", "--threads", "8"]), ("rel", [REL]), ("relthr", [REL, "--threads", "8"])] + [(f"host{k}", ["--hostile", str(k)] + (["--threads", "4"] if k < 13 else []) + ([REL] if k % 2 else [])) for k in ([1, 2 + seed % 11] if not thorough else range(1, 13))] + [(f"host{k}", ["--hostile", str(k)] + ([REL] if k % 3 == 0 else [])) for k in range(40 + 4 * seed, 44 + 4 * seed + (8 if thorough else 0))]
    if thorough: plans += [(f"shuf{k}", ["--order", f"shuffle:{seed + 10 + k}"]) for k in range(5)] + [(f"thr{k}", ["--order", f"shuffle:{seed + 30 + k}", "--threads", str(2 + k)]) for k in range(7)]
    hard = [s for s in sessions if s["evs"][0]["op"] == "hammer"]; sessions = [s for s in sessions if s not in hard]
    struck = [{**s, "id": f"{n}/{s['id']}"} for n, ss, mode in (("h", hard, []), ("hr", hard, [REL])) for s in kmsh([x for x in ss if not x["id"].startswith("soak_")], work, n, mode) + kmsh([x for x in ss if x["id"].startswith("soak_")], work, n + "s", mode + ["--threads", "8"])] if hard else []
    wide = [s for s in sessions if s["id"].startswith("wide_")]; sessions = [s for s in sessions if not s["id"].startswith("wide_")]
    if not sessions and not wide: return struck, [], sum(len(c["evs"][0]["calls"]) * c["evs"][0]["n"] * c["evs"][0]["threads"] for c in struck), ({}, {})
    r = random.Random(f"race/{seed}")
    lookups = [s for s in sessions if any(e["op"] in ("lang.word", "lang.index", "lang.prefix", "lang.detect", "mn.entropy", "mn.phrase", "mn.validate", "seed.new") for e in s["evs"])]
    rest = [s for s in sessions if s not in lookups]
    all_logs = []
    strange = [p for p in plans if "--hostile" in p[1]]; plans = [p for p in plans if p not in strange]
    def go(p):
        ss = sessions + wide if p[0] == "fwd" or p in strange else sessions
        return (*p, ss, kmsh(ss, work, p[0], p[1]))
    all_logs += [go(p) for p in plans]
    with ThreadPoolExecutor(4) as ex: all_logs += list(ex.map(go, strange))
    for k in range(60 if thorough else 24):             # cold starts: the first use in the process is a race
        sub = r.sample(lookups, min(len(lookups), 5)) + r.sample(rest, min(len(rest), 3)); r.shuffle(sub)
        if k % 3 == 0: sub = r.sample(rest, min(len(rest), 5)) + r.sample(lookups, min(len(lookups), 2))
        mode = ["--race", "--threads", str(r.choice((2, 4, 8)))] + (["--order", f"shuffle:{k}"] if k % 2 else []) + ([REL] if k % 3 == 1 else []) + (["--hostile", str(30 + seed + k)] if k % 4 == 3 else [])
        all_logs.append((f"race{k}", mode, sub, kmsh(sub, work, f"race{k}", mode)))
    cells = {}
    for s in sessions:
        if s["id"].startswith("cell_"): cells.setdefault(tuple(s["id"].split("_")[1:3]), []).append(s)
    if cells:                                           # cold starts generated by LazyInit: every thread has its own calls to make first
        def cold(kp):
            k, plan = kp; rr = random.Random(f"cold/{seed}/{k}"); sub = []
            for t, cs in enumerate(plan): sub += [{**rr.choice(cells[tuple(c)]), "thread": t} for c in cs]
            mode = ["--race", "--threads", str(len(plan))] + ([REL] if k % 2 else [])
            return (f"cold{k}", mode, sub, kmsh(sub, work, f"cold{k}", mode))
        with ThreadPoolExecutor(3) as ex: all_logs += list(ex.map(cold, enumerate(models.cold_plans(seed, thorough, work))))
    # the same call (operation, arguments, objects by value) has to give the same observation wherever it is made
    script = {s["id"]: s for s in sessions}
    for _, _, ss, _ in all_logs: script.update({s["id"]: s for s in ss})
    by = {}
    for name, mode, _, logs in all_logs:
        for s in logs:
            for e, c in zip(s["evs"], script[s["id"]]["evs"]):
                args = {k: e.get(k) for k in c if k != "out"}
                seen = {k: v for k, v in e.items() if k not in args and k not in ("out", "selfh", "ah", "bh")}
                by.setdefault(json.dumps(args, sort_keys=True), []).append((json.dumps(seen, sort_keys=True), f"{name}:{s['id']}"))
    out = []; calls = sorted(by); where = {}
    for b in range(0, len(calls), 40):
        evs = []
        for c in calls[b:b + 40]:
            uniq = sorted({v for v, _ in by[c]})
            # equal observations are sent to the specification once, as a pair
            res = [hashlib.sha256(v.encode()).hexdigest() for v in (uniq if len(uniq) > 1 else uniq * 2)]
            evs.append({"op": "runs", "n": len(by[c]), "results": res, "res": {"tag": "ok", "val": 0}})
            where[(f"runs/{b}", len(evs))] = c
        out.append({"id": f"runs/{b}", "evs": evs})
    # immutability is judged on the sequential run and on the first threaded one
    out += struck + [s for s in all_logs[0][3] if not s["id"].startswith("wide_")] + [{**s, "id": "thr/" + s["id"]} for s in all_logs[3][3]]
    n = sum(len(s["evs"]) for _, _, _, l in all_logs for s in l) + sum(len(c["evs"][0]["calls"]) * c["evs"][0]["n"] * c["evs"][0]["threads"] for c in struck)
    return out, all_logs, n, (by, where)

def runs_c17(sessions, work, seed, thorough):
    out = []
    drawn = [s for s in sessions if any(e["op"] == "mn.draw" for e in s["evs"])]; sessions = [s for s in sessions if s not in drawn]
    for n, release in (("s", False), ("t", True)):      # a process each: the first draw of a process is recognised
        for j, x in enumerate(drawn):
            for s in kmsh([x], work, f"n{n}{j}", release=release): out.append({"id": f"{n}/{j}/{s['id']}", "evs": s["evs"]})
    if not sessions: return out
    parts = [("a", sessions, []), ("b", sessions[::2], ["--threads", "6"]), ("c", sessions[1::2], ["--race", "--threads", "3"])] + [(f"p{k}", sessions[k::6], []) for k in range(6)] + [(f"f{k}", sessions[k::3], ["--fork"]) for k in range(3)]
    rel = [(f"r{n}", ss, mode) for n, ss, mode in parts[:3] + parts[-1:]]
    if thorough: parts += [(f"q{k}", sessions, ["--threads", str(1 + k % 8)]) for k in range(12)]
    for n, ss, mode in parts + rel:
        for j, s in enumerate(kmsh(ss, work, "n" + n, mode, release=n[0] == "r")): out.append({"id": f"{n}/{j}/{s['id']}", "evs": s["evs"]})
    return out

def describe(e):
    d = {k: v for k, v in e.items() if k not in ("res",)}
    s = json.dumps(d); return (s[:600] + "...") if len(s) > 600 else s

def known_findings(prop):
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    for line in open(f) if os.path.exists(f) else []:
        if line.startswith(f"known: property={prop} "):
            m = re.match(r"known: property=\S+ match=(\{.*\}) what=(.*)", line.strip())
            out.append((json.loads(m.group(1)), m.group(2)))
    return out
def is_known(kf, e):
    return next((w for m, w in kf if all(e.get(k) == v for k, v in m.items())), None)

def judge(prop, sessions, work, seed, thorough, replay, toys, report, st):
    """run the sessions on the real code and decide every recorded call"""
    def run(ss, name, release=False): return kmsh(ss, work, name, toy=toys, release=release)
    def check(ls, **kw): return validate(prop, ls, work, toy=toys, **kw)
    logs = []; calls19 = None; runs = sum(len(s["evs"]) for s in sessions)
    t1 = time.time()
    try:
        if prop == "C19": logs, _, runs, calls19 = runs_c19(sessions, work, seed, thorough)
        elif prop == "C17": logs = runs_c17(sessions, work, seed, thorough); runs = sum(len(s["evs"]) for s in logs)
        else:
            logs = run(sessions, "toy" if toys else "main")
            if not toys:                                # the same as users ship it, optimised and without overflow checks: what differs is judged, too
                rel = run(sessions, "rel", True); runs *= 2
                logs += [{**b, "id": "rel/" + b["id"]} for a, b in zip(logs, rel) if a["evs"] != b["evs"]]; st["release_differs"] = len(logs) - len(rel)
    except Stuck as x:
        # confirm: alone, then with everything before it
        ids = [s["id"] for s in sessions]; k = ids.index(x.session) if x.session in ids else len(ids) - 1
        confirmed = False
        for sub in ([sessions[k]], sessions[:k + 1]) if x.session else (sessions,):
            try:
                if prop == "C19": runs_c19(sub, work, seed, thorough)
                elif prop == "C17": runs_c17(sub, work, seed, thorough)
                else: run(sub, "again"); toys or run(sub, "again", True)
            except Stuck as y: report(f"the code under test {y.how}", sub, {"session": y.session}, toys); confirmed = True; break
        if not confirmed: report(f"the code under test {x.how} (not every time)", sessions[:k + 1] if x.session else sessions, {"session": x.session}, toys)
    st["calls"] += runs; st["run_s"] += time.time() - t1
    if not logs: return logs
    t2 = time.time(); kf = known_findings(prop)
    can = [] if replay else canaries(prop, logs, random.Random(f"canary/{prop}/{seed}"))
    real, g, d = check(logs)
    st["gen"] += g; st["dis"] += d; st["canaries"] += len(can)
    if not replay and not can and not real: raise ToolError("no canary could be placed: nothing judged was recorded")
    missed = []
    if can and not real:
        refused = {a for a, _ in check(can, workers=2)[0]}
        missed = [c["id"] for c in can if c["id"] not in refused]
    if missed:
        json.dump([c for c in can if c["id"] in missed], open(os.path.join(VERIF, "scratch", f"missed-{prop}.json"), "w"))
        raise ToolError(f"validation accepted damaged traces {missed} (see scratch/missed-{prop}.json)")
    byid = {s["id"]: s for s in logs}; script = {s["id"]: s for s in sessions}
    seen = set()
    for a, l in real:
        e = byid[a]["evs"][l - 1]
        w = is_known(kf, e)
        if w: print(f"KNOWN-FINDING: property={prop} {w}"); continue
        if a in seen: continue
        seen.add(a)
        sid = a.split("/")[-1]
        src = [script[sid]] if sid in script else []
        if len(seen) > 6: report(f"session {sid}, call {l}", None, None, toys); continue
        if prop == "C19" and a.startswith("runs/"):
            by, where = calls19; obs = {}
            for v, n in by[where[(a, l)]]: obs.setdefault(v, []).append(n)
            report(f"the call {where[(a, l)][:700]} gives different results: { {v[0]: k[-300:] for k, v in obs.items()} }", sessions, {v[0]: k for k, v in obs.items()}, toys)
            continue
        # does the session fail on its own?
        if src and prop not in ("C17", "C19") and not replay:
            try: alone = check(run(src, "alone", a.startswith("rel/")))[0]
            except Stuck: alone = True
            if not alone: src = sessions[:[s["id"] for s in sessions].index(sid) + 1]
        report(f"session {sid}, call {l}: {describe(script[sid]['evs'][l - 1]) if sid in script else e['op']} observed {json.dumps(e['res'])[:400]}" + (" (key type of ToyKey.tla)" if toys else " (optimised build)" if a.startswith("rel/") else ""), src or sessions, e, toys)
    st["validate_s"] += time.time() - t2
    return logs

def main():
    prop = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1); thorough = tier == "thorough"
    t0 = time.time()
    plug = build(prop in toy.PROPS) and prop in toy.PROPS
    if prop == "C24" and not plug: raise ToolError("no other key type can be plugged in")
    work = os.path.join(VERIF, "scratch", f"{prop}-{os.getpid()}"); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
    violations, mc_box = [], {}
    def mc():
        try: mc_box["r"] = models.run(prop, work, thorough)
        except Exception as x: mc_box["x"] = x
    th = None
    if not replay: th = threading.Thread(target=mc); th.start()
    st = {"calls": 0, "gen": 0, "dis": 0, "canaries": 0, "run_s": 0, "validate_s": 0}
    def report(what, sess, info, toys):
        f = None
        if sess is not None:
            f = os.path.join(rdir, f"{prop}-{len(violations)}.json")
            json.dump({"property": prop, "keys": "toy" if toys else "secp256k1", "what": what, "seen": info, "sessions": sess}, open(f, "w"), indent=1)
        violations.append((what, f))
    try:
        if replay:
            rep = json.load(open(replay)); todo = [(rep.get("keys") == "toy", rep["sessions"])]
        else:
            todo = [(False, gen.make(prop, seed, thorough) + models.behaviours(prop, seed, thorough) + (gen.c17draws(seed, thorough) if prop == "C17" else []))]
            if plug: todo.append((True, toy.sessions(prop, seed, thorough) + models.toy_behaviours(prop, seed, thorough)))
        t1 = time.time(); logs = []
        for toys, sessions in todo:
            got = judge(prop, sessions, work, seed, thorough, replay, toys, report, st); logs += got
            if prop == "C17" and not violations:
                sc = [{"script": e["src"]["script"], "ent": e["res"]["val"]["ent"], "drawn": e["drawn"], "first": i == 0 and e["src"]["fail"] < 0} for s in got for i, e in enumerate(s["evs"]) if e["op"] == "mn.draw" and e["src"]["script"] and e["res"]["tag"] == "ok"]
                if sc:
                    fr = models.scripted(sc, work); st["gen"] += fr["gen"]; st["dis"] += fr["dis"]
                    if not fr["bad"]:
                        few = copy.deepcopy(sc[:30]); few[7]["ent"] = few[9]["ent"]; few[0]["drawn"] = 0
                        if len(models.scripted(few, work)["bad"]) != 2: raise ToolError("Scripted accepts an entropy that comes twice, or a draw from nowhere")
                    else: report("generated entropies do not carry the randomness of the system: " + "; ".join(fr["bad"][:5]), [s for s in sessions if s["id"].startswith("script")], fr["bad"], False)
            if prop == "C17" and not violations:
                ds = [{"lang": e["lang"], "ent": e["res"]["val"]["ent"], "id": s["id"]} for s in got for e in s["evs"] if e["res"]["tag"] == "ok" and not (e["op"] == "mn.draw" and e["src"]["script"])]
                fr = models.fresh(ds, work)
                if not fr["bad"] and len(ds) >= 40:     # the instrument: draws with one stretch used twice have to be noticed
                    few = copy.deepcopy(ds[:40]); few[7]["ent"][5:13] = few[23]["ent"][2:10]
                    if not models.fresh(few, work)["bad"]: raise ToolError("Fresh accepts a repeated stretch")
                st["gen"] += fr["gen"]; st["dis"] += fr["dis"]
                if fr["bad"]: report("generated entropies are not fresh: " + "; ".join(fr["bad"][:5]), sessions, fr["bad"], False)
    finally:
        if th: th.join()
    if "x" in mc_box: raise mc_box["x"]
    mcr = mc_box.get("r", [])
    wall = time.time() - t0
    samples = []
    for s in logs[:: max(1, len(logs) // 4)][:4]:
        if s["evs"]:
            e = s["evs"][len(s["evs"]) // 2]; samples.append(json.dumps({"session": s["id"], "call": len(s["evs"]) // 2 + 1, **e})[:1500])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": st["dis"] + sum(m["distinct"] for m in mcr), "transitions": st["gen"] + sum(m["generated"] for m in mcr),
                       "traces_validated_against_impl": len(logs), "calls_on_real_code": st["calls"], "canaries_refused": st["canaries"],
                       "sessions_the_optimised_build_answers_differently": st.get("release_differs", 0), "calls_by_operation": {op: n for op, n in sorted(count(logs).items())},
                       "models": mcr, "samples": samples or ["none"]},
          "assumptions": models.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not replay: json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    log(f"{prop}: {sum(len(x) for _, x in todo)} sessions, {st['calls']} calls, gen {t1 - t0:.1f}s run {st['run_s']:.1f}s validate {st['validate_s']:.1f}s total {wall:.1f}s, {len(violations)} violations")
    if "--keep" not in sys.argv: shutil.rmtree(work, ignore_errors=True)
    told = [v for v in violations if v[1]]
    for what, f in told[:6]: print(f"VIOLATION property={prop} replay={f}"); print("  " + what)
    if len(violations) > len(told[:6]): print(f"  and {len(violations) - len(told[:6])} more sessions")
    return 1 if violations else 0
def count(logs):
    c = {}
    for s in logs:
        for e in s["evs"]: c[e["op"]] = c.get(e["op"], 0) + 1
    return c

if __name__ == "__main__":
    try: rc = main()
    except ToolError as x: log("tool error:", x); rc = 2
    sys.stdout.flush(); sys.exit(rc)
