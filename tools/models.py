"""Exhaustive model runs, behaviours generated from the models and replayed on the real code,
freshness of generated entropies."""
import json, os, random, re, shutil, subprocess, unicodedata
import memo, toy
from concurrent.futures import ThreadPoolExecutor
from engine import *
from ref import N, PRVS, PUBS, ENT, WORDS, phrase, pub
WORDFILE = json.dumps(os.path.join(SPEC, "data/words.json"))
VECFILE = json.dumps(os.path.join(SPEC, "data/vectors.json"))
ASSUMPTIONS = [
  "the specification's primitives (SHA-256, HMAC-SHA512, PBKDF2, RIPEMD-160, secp256k1, Base58, NFKD, GB18030) are evaluated by Java code written independently of the crates used by kms; SelfTest.tla checks it against published vectors and group laws on every run that uses it",
  "HMAC-SHA512 outputs whose left half is out of range (probability 2^-127) are explored only on the small-scale model, where they are common",
  "inputs to the real code are the generated behaviours and the boundary and random cases of tools/gen.py, not all inputs; exhaustiveness holds for the models",
]
q = lambda s: json.dumps(s)

# ------------------------------------------------------------------- what is model-checked for which property
def st(*kinds): return ("SelfTest", {"WordFile": WORDFILE, "VecFile": VECFILE, "Kinds": "{" + ", ".join(map(q, kinds)) + "}"}, True)
def system(t): return [("MCSystem", {"MaxObjs": 5 if t else 4}, True)]
def keys(t): return [("MCKeys", {}, True)]
def bip39(t, *modes):
    size = {"entropy": (5, 8), "phrase": (4, 6), "string": (5, 7)}
    return [("MCBip39", {"Mode": q(m), "MaxLen": size[m][t]}, True) for m in modes]
def text(t): return [("MCText", {"Mode": q(m), "MaxLen": n}, True) for m, n in (("strings", 6 if t else 5), ("paths", 5 if t else 4), ("numbers", 1))]
def lifecycle(t):
    c = lambda sh, rule, n=6: ("Lifecycle", {"MaxObjs": 3, "MaxSteps": n, "Kinds": '{"mn", "one"}', "Sharing": sh, "WipeRule": q(rule)})
    n = 8 if t else 6
    return [(*c("TRUE", "last", n), True), (*c("FALSE", "last", n), True)] + [(*c("TRUE", r, 5), False) for r in ("any", "first", "none")]
def lazy(t):
    c = lambda th, k, v: ("LazyInit", {"Threads": th, "PerThread": k, "Variant": q(v)})
    return [(*c("{1, 2}", 2, "ok"), True), (*c("{1, 2, 3}", 2 if t else 1, "ok"), True)] + [(*c("{1, 2}", 1, v), False) for v in ("racy", "twice", "cross")]
def draws(t):
    c = lambda d, k=3: ("Draws", {"Procs": "{1, 2}", "Threads": "{1, 2}", "Sizes": "{2, 3}", "MaxDraws": k, "Design": q(d)})
    return [(*c("os"), True)] + [(*c(d), False) for d in ("forked", "shared", "pad", "memo")] + [("Sources", {"N": 4, "B": 4, "Design": q(d)}, d in ("os", "stream")) for d in ("os", "stream", "swallow", "once", "short", "fold", "clamp", "tie")]
def ecdsa(t): return [("MCEcdsa", {"Variant": q("ok")}, True)] + [("MCEcdsa", {"Variant": q(v)}, False) for v in ("highs", "keepid", "noid2")]
def memos(t): return [("Memo", {"NFields": n, "How": memo.HOWSET}, True) for n in (1, 2)] + [("Memo", {"NFields": 2, "How": '{"first", "last", "middle", "extend", "exchange", "shift"}'}, False)]
def edits(t): return [("Edits", {"MaxEdits": 3 if t else 2, "Mode": q("string"), "MaxLen": 0}, True)]
def paths(t):
    c = lambda d, n: ("Paths", {"MaxPaths": 4 if t else 3, "MaxLive": 3, "MaxSteps": n, "MaxSeq": 4, "Design": q(d)})
    return [(*c("own", 7 if t else 6), True)] + [(*c(d, 4), False) for d in ("shared", "parent", "cached")]
def shared(t): return [("Shared", {"Threads": "{1, 2}", "Calls": "{1, 2}", "Rounds": 4 if t else 3, "Wrap": 5, "Design": q(d)}, d in ("none", "locked")) for d in ("none", "locked", "torn", "checkuse", "scratch", "wraps")]
def sizes(t): return [("MCSizes", {"Top": 4000 if t else 1200}, True)]

PLAN = {
 "C01": lambda t: bip39(t, "entropy") + [st("bip39", "sha256", "dict")],
 "C02": lambda t: bip39(t, "phrase", "string") + edits(t) + [st("bip39", "nfkd", "utf8", "dict")],
 "C03": lambda t: [st("pbkdf", "hmac", "nfkd", "utf8", "gb", "bip39")],
 "C04": lambda t: keys(t) + [st("hmac", "bip32", "bip39")],
 "C05": lambda t: keys(t) + system(t) + [st("hmac", "group", "point", "bip32")],
 "C06": lambda t: system(t) + keys(t) + [st("group", "point", "bip32")],
 "C07": lambda t: system(t) + [st("bip32")],
 "C08": lambda t: system(t) + [st("ripemd", "sha256", "point", "bip32")],
 "C09": lambda t: text(t),
 "C10": lambda t: system(t) + [st("b58", "bip32", "pre", "letter")],
 "C11": lambda t: system(t) + [st("b58", "badkey", "bip32", "pre")],
 "C12": lambda t: [("MCPairs", {}, True)] + system(t),
 "C13": lambda t: keys(t) + [st("group", "point")],
 "C14": lambda t: ecdsa(t) + [st("sig", "point")],
 "C15": lifecycle,
 "C16": lambda t: [("MCPairs", {}, True)],
 "C17": lambda t: draws(t) + bip39(t, "entropy") + [st("bip39", "sha256", "dict")],
 "C18": lambda t: [st("word", "dict")] + bip39(t, "entropy"),
 "C19": lambda t: lazy(t) + system(t) + shared(t),
 "C20": lambda t: [st("pre", "b58", "letter")],
 "C21": lambda t: [("MCHex", {"MaxLen": 2}, True)],
 "C22": lambda t: sizes(t) + bip39(t, "entropy"),
 "C23": lambda t: [st("ripemd")],
 "C25": lambda t: paths(t) + text(t),
 "C26": lambda t: keys(t) + system(t) + bip39(t, "phrase", "string") + text(t) + sizes(t) + [st("b58", "badkey", "bip32", "pre", "bip39")],
 "C27": lambda t: [("Order", {"Way": q("lex"), "NFields": n, "NValues": m}, True) for n, m in (((4, 2), (3, 3)) if t else ((3, 2), (2, 3)))] + [("Order", {"Way": q(w), "NFields": 2, "NValues": 3}, False) for w in ("partial", "rounded", "cyclic")],
 "C24": lambda t: keys(t) + system(t) + [st("point", "group", "b58", "bip32", "hmac")],
}

NOMEMO = ("C15", "C17", "C25", "C26", "C27")
PROOFS = {"C05": ["Proofs"], "C06": ["Proofs"], "C07": ["Proofs"], "C08": ["Proofs"], "C18": ["ProofsInit"], "C19": ["ProofsInit", "ProofsShared"]}
def prove(mod, work):
    """have TLAPS check a module of proofs; what it proves holds without any bound"""
    d = os.path.join(work, "tlaps-" + mod); os.makedirs(d)
    for f in [x for x in os.listdir(SPEC) if x.endswith(".tla")]: shutil.copy(os.path.join(SPEC, f), d)
    p = subprocess.run(["tlapm", "--threads", "3", "--stretch", "4", "-I", os.path.join(SPEC, "stubs"), mod + ".tla"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    m = re.search(r"All (\d+) obligations? proved", p.stdout)
    if not m: raise ToolError(f"proofs in {mod} do not go through:\n" + p.stdout[-3000:])
    return {"name": mod, "result": f"proved by TLAPS ({m.group(1)} obligations)", "generated": 0, "distinct": 0}

def run(prop, work, thorough):
    """model-check what the property rests on; a model that fails, or a broken variant that passes, is an error of the tooling"""
    def one(job):
        mod, consts, want = job
        out, ok, gen, dis, d = tlc(mod, consts, work, workers=4, heap="4g", timeout=800)
        refused = bool(re.search(r"Error: (Invariant \S+ is violated|Action property|Temporal properties were violated|Deadlock reached)", out))
        if want and not ok: raise ToolError(f"model {mod} {consts} does not hold:\n" + out[-3000:])
        if not want and not refused: raise ToolError(f"broken variant {mod} {consts} is not refused:\n" + out[-3000:])
        name = mod + "".join(f" {k}={v}" for k, v in consts.items() if k not in ("WordFile", "VecFile"))
        return {"name": name, "result": "holds" if want else "refused, as it has to be", "generated": gen, "distinct": dis}
    proofs = [prove(m, work) for m in PROOFS.get(prop, [])] if thorough and shutil.which("tlapm") else []
    with ThreadPoolExecutor(3) as ex: return proofs + list(ex.map(one, PLAN[prop](1 if thorough else 0) + ([] if prop in NOMEMO else memos(thorough)) + ([("MCToyKey", {}, True)] if prop in toy.PROPS else [])))

# ------------------------------------------------------------------- behaviours
def emitted(module, consts, work, how, extra="", action=True, timeout=300):
    """what TLC prints while it enumerates the (small) state space: one value per transition or state"""
    keep, skip = [], False
    for l in open(os.path.join(SPEC, module + ".cfg")):
        w = l.split()
        if w and w[0] in ("INVARIANT", "INVARIANTS", "PROPERTY", "PROPERTIES"): skip = True; continue
        if w and w[0] in ("SPECIFICATION", "CONSTANTS", "CONSTANT", "VIEW", "CHECK_DEADLOCK", "CONSTRAINT", "ACTION_CONSTRAINT"): skip = False
        if not skip: keep.append(l)
    text = "".join(keep) + "\n" + ("ACTION_CONSTRAINT" if action else "CONSTRAINT") + f" {how}\n{extra}\n"
    cfg = os.path.join(work, f"{module}_emit_{time.time_ns()}.cfg"); open(cfg, "w").write(text)
    out, ok, gen, dis, d = tlc(module, consts, work, cfg=cfg, workers=1, heap="3g", timeout=timeout)
    if not ok: raise ToolError(f"generation from {module}: " + out[-3000:])
    res, seen = [], set()
    for l in out.splitlines():
        if l.startswith('"BEHAVIOUR '):
            s = json.loads(l)[10:]
            if s not in seen: seen.add(s); res.append(json.loads(s))
    if not res: raise ToolError(f"generation from {module}: nothing emitted")
    return res

B = lambda v, n=32: list(v.to_bytes(n, "big"))
def rb(r, n): return bytes(r.getrandbits(8) for _ in range(n))
def real_roots(r):
    def o(kind, d, k): return {"kind": kind, "key": list(pub(k)) if kind == "pub" else B(k), "chain": list(rb(r, 32)), "depth": 252 + d, "fp": list(rb(r, 4)), "cn": list(rb(r, 4))}
    ks = [r.randrange(1, N) for _ in range(5)]
    if r.random() < .5: ks[r.randrange(5)] = r.choice((1, 2, N - 1, N - 2))
    return [o("prv", 0, ks[0]), o("prv", 1, ks[1]), o("prv", 2, ks[2]), o("pub", 0, ks[3]), o("prv", 3, ks[4])]

def toy_roots(g):
    r = g.r; o = lambda kind, d: {"kind": kind, "key": list(g.point() if kind == "pub" else g.key()), "chain": list(rb(r, 32)), "depth": 252 + d, "fp": list(rb(r, 4)), "cn": list(rb(r, 4))}
    return [o("prv", 0), o("prv", 1), o("prv", 2), o("pub", 0), o("prv", 3)]
def toy_follows(pre, roots, conv):
    """does what succeeds in the model succeed with these roots and indices, too"""
    xs = []
    for s in pre:
        x = xs[s["h"] - 1] if s["op"] != "root" else roots[s["root"] - 1]
        if s["tag"] != "ok" and s["op"] != "root": continue
        for c in [s["cn"]] if s["op"] == "ckd" else s["path"] if s["op"] == "path" else []:
            if not isinstance(x, dict): return False
            x = toy.child(x, conv(c))
        if not isinstance(x, dict): return False
        xs.append({**x, "kind": "pub", "key": [2] + x["key"]} if s["op"] == "neuter" else x)
    return True
def system_sessions(prop, seed, thorough, work, toys=False):
    hs = emitted("MCSystem", {"MaxObjs": 4}, work, "Emit")
    # all the calls possible in one state of the store make one session: what led there, then every one of them
    groups = {}
    for h in hs: groups.setdefault(json.dumps(h[:-1]), []).append(h[-1])
    r = random.Random(f"sys/{prop}/{seed}/{toys}"); tg = toy.ToyGen(prop, f"toyroots/{seed}", thorough)
    keys_ = list(groups)
    want = {"C19": 25}.get(prop, 60) * (20 if thorough else 1)
    if len(keys_) > want: keys_ = r.sample(keys_, want)
    out = []
    for n, k in enumerate(keys_):
        pre, steps = json.loads(k), groups[k]
        for _ in range(200):
            roots = toy_roots(tg) if toys else real_roots(r)
            i0, i1 = r.choice(((0, 1), (r.randrange(2**31), r.randrange(2**31)), (2**31 - 1, r.randrange(2**31)), (r.randrange(256), r.randrange(2**31))))
            ix = {0: i0, 1: i1}
            if not toys or toy_follows(pre, roots, lambda c: B(ix[c[3]] | (2**31 if c[0] >= 128 else 0), 4)): break
        conv = lambda c: B(ix[c[3]] | (2**31 if c[0] >= 128 else 0), 4)
        evs, kinds = [], []
        def call(st_, final):
            nonlocal evs
            if st_["op"] == "root":
                x = roots[st_["root"] - 1]
                if st_["root"] == 1 and r.random() < .5 and not final: x = {**x, "depth": 252}
                evs.append({"op": "clone", "self": {"lit": x}, "out": 1}); kinds.append(x["kind"]); return
            h = st_["h"]; me = {"h": h}; kind = kinds[h - 1]; okay = st_["tag"] == "ok"
            new = {"out": len(kinds) + 1} if okay else {}
            if final and okay: new = {"out": 100 + len(evs)}
            op = st_["op"]; k2 = kind
            if op == "ckd": e = {"op": "ckd", "self": me, "cn": conv(st_["cn"])}
            elif op == "path":
                p = [conv(c) for c in st_["path"]]
                e = {"op": "path.derive", "self": me, "path": p, "mk": r.choice(["push", "extend", "parse"]), "cuts": sorted(r.randrange(len(p) + 1) for _ in range(r.randrange(3)))}
            elif op == "neuter": e = {"op": "neuter", "self": me}; k2 = "pub"
            elif op == "clone": e = {"op": "clone", "self": me}
            elif op == "reimport":
                s = ([0, 2, 4, 6] if kind == "prv" else [1, 3, 5, 7])[r.randrange(4)] if final else (2 if kind == "prv" else 3)
                e = {"op": "reimport", "self": me, "std": s}
            evs.append({**e, **new})
            if okay: (fresh_ if final else kinds).append((100 + len(evs) - 1, k2) if final else k2)
        fresh_ = []
        for s_ in pre: call(s_, False)
        for s_ in steps: call(s_, True)
        live = [(i + 1, k2) for i, k2 in enumerate(kinds)] + fresh_
        if prop == "C06":
            for h, k2 in live:
                for c in (i0, i1, i0 | 2**31):
                    evs.append({"op": "commute", "self": {"h": h}, "path": [B(c, 4)]} if k2 == "prv" else {"op": "ckd", "self": {"h": h}, "cn": B(c | 2**31, 4)})
                if k2 == "prv": evs.append({"op": "commute", "self": {"h": h}, "path": [B(i0, 4), B(i1, 4)]})
        if prop == "C08": evs += [{"op": "fp", "self": {"h": h}} for h, k2 in live if k2 == "pub"]
        if prop == "C10": evs += [{"op": "export", "self": {"h": h}, "std": s} for h, k2 in live for s in r.sample(PRVS if k2 == "prv" else PUBS, 4 if thorough else 1)]
        if prop == "C12":
            for k2 in ("prv", "pub"):
                hs_ = [h for h, kk in live if kk == k2]
                if len(hs_) > 9: hs_ = hs_[:3] + r.sample(hs_[3:], 6)
                evs += [{"op": "eq", "a": {"h": a}, "b": {"h": b}} for a in hs_ for b in hs_]
        out.append({"id": f"{'toy' if toys else ''}sys{n}", "evs": evs})
    return out

def text_sessions(seed, thorough, work):
    ts = emitted("MCText", {"Mode": q("strings"), "MaxLen": 5 if thorough else 4}, work, "Emit", action=False)
    ts += emitted("MCText", {"Mode": q("numbers"), "MaxLen": 1}, work, "Emit", action=False)
    ps = emitted("MCText", {"Mode": q("paths"), "MaxLen": 4 if thorough else 3}, work, "Emit", action=False)
    evs = [{"op": op, "text": t} for t in ts for op in ("cn.parse", "path.parse")] + [{"op": "path.parse", "text": t} for t in ps]
    return [{"id": f"text{i}", "evs": evs[i:i + 150]} for i in range(0, len(evs), 150)]

def show_cn(c): v = int.from_bytes(bytes(c), "big"); return str(v % 2**31) + ("'" if v >= 2**31 else "")
def paths_sessions(seed, thorough, work):
    import gen
    hs = emitted("Paths", {"MaxPaths": 3, "MaxLive": 3, "MaxSteps": 6 if thorough else 5, "MaxSeq": 4, "Design": q("own")}, work, "Emit")
    inner = {json.dumps(h[:-1]) for h in hs}
    hs = [h for h in hs if json.dumps(h) not in inner]
    r = random.Random(f"paths/{seed}"); g = gen.Gen("C25", seed, thorough)
    want = 5000 if thorough else 500
    if len(hs) > want: hs = r.sample(hs, want)
    out = []
    for n, h in enumerate(hs):
        a = {json.dumps([0, 0, 0, 0]): g.cn(), json.dumps([128, 0, 0, 7]): g.cn()}; conv = lambda c: a[json.dumps(c)]
        evs, size = [], {}
        for s in h:
            e = dict(s)
            if r.random() < .3 and size: evs.append({"op": "p.view", "h": r.choice(list(size))})
            if e["op"] == "p.parse" and len(e["text"]) > 1: e["text"] = gen.U("m/" + show_cn(conv([128, 0, 0, 7])))
            if "cn" in e: e["cn"] = conv(e["cn"])
            if e["op"] == "p.extend":
                if "from" in e: e["via"] = "path"; e["cns"] = []
                else: e["cns"] = [conv(c) for c in e["cns"]]; e["via"] = r.choice(("vec", "slice", "chain", "few", "none", "many", "one"))
            if e["op"] == "p.parent" and size[e["h"]] == 0: e["out"] = 90 + len(evs)
            evs.append(e); op = e["op"]
            if op in ("p.new", "p.parse"): size[e["out"]] = 0 if op == "p.new" or len(e["text"]) == 1 else 1
            elif op == "p.clone": size[e["out"]] = size[e["h"]]
            elif op == "p.parent" and size[e["h"]]: size[e["out"]] = size[e["h"]] - 1
            elif op == "p.push": size[e["h"]] += 1
            elif op == "p.extend": size[e["h"]] += size[e["from"]] if "from" in e else len(e["cns"])
            elif op == "p.clonefrom": size[e["h"]] = size[e["from"]]
            elif op in ("p.into", "p.drop"): del size[e["h"]]
        live = list(size)
        evs += [{"op": "p.view", "h": x} for x in live] + [{"op": "p.eq", "h": x, "g": y} for x in live for y in live]
        if live and n % 8 == 0: evs.append({"op": "p.derive", "h": r.choice(live), "seed": g.seedb()})
        out.append({"id": f"paths{n}", "evs": evs})
    return out

def lifecycle_sessions(seed, thorough, work):
    import gen
    hs = emitted("Lifecycle", {"MaxObjs": 3, "MaxSteps": 6 if thorough else 5, "Kinds": '{"mn", "one"}', "Sharing": "FALSE", "WipeRule": q("last")}, work, "EmitSeq")
    inner = {json.dumps(h[:-1]) for h in hs}
    hs = [h for h in hs if json.dumps(h) not in inner]          # only behaviours that are not continued by another one
    r = random.Random(f"life/{seed}"); g = gen.Gen("C15", seed, thorough)
    want = 2500 if thorough else 500
    if len(hs) > want: hs = r.sample(hs, want)
    pool = [gen.wipelits(g) for _ in range(3)]; mns = [l for p in pool for l in p if l["kind"] == "mn"]; ones = [l for p in pool for l in p if l["kind"] != "mn"]
    out = []
    for n, h in enumerate(hs):
        evs, live, into = [], {}, set()
        for s in h:
            op = s["op"]
            if op == "make": live[s["h"]] = s["kind"]; evs.append({"op": "w.make", "h": s["h"], "lit": r.choice(mns if s["kind"] == "mn" else ones)})
            elif op == "clone": live[s["out"]] = live[s["h"]]; evs.append({"op": "w.clone", "h": s["h"], "out": s["out"]})
            elif op in ("drop", "dropthread"): evs.append({"op": "w." + op, "h": s["h"]}); del live[s["h"]]
            elif op == "into": evs.append({"op": "w.into", "h": s["h"], "via": r.choice(["into", "string"])}); into.add(s["h"])
            elif op == "unwind": evs.append({"op": "w.unwind", "h": 0, "hs": sorted(s["hs"])}); [live.pop(x) for x in s["hs"]]
        left = list(live); r.shuffle(left)
        evs += [{"op": "w.drop", "h": x} for x in left]
        out.append({"id": f"life{n}", "evs": evs})
    return out

def pair_sessions(prop, seed, thorough, work):
    ps = emitted("MCPairs", {}, work, "Emit", action=False)
    r = random.Random(f"pairs/{prop}/{seed}"); evs = []
    pts = [pub(r.randrange(1, N)) for _ in range(12)]
    for rep in range(4 if thorough else 1):
        for p in ps:
            if prop == "C16" and p["kind"] == "pub": continue
            kind = p["kind"]
            x = {"kind": kind, "key": B(r.randrange(2**200, N // 2)) if kind == "prv" else list(r.choice(pts)), "chain": list(rb(r, 32)), "depth": r.randrange(1, 255), "fp": list(rb(r, 4)), "cn": list(rb(r, 4))}
            y = json.loads(json.dumps(x))
            # the same change in the same place everywhere, and again with the places lined up differently
            mask = 1 if p["bit"] == "low" else 128
            for f in p["diff"]:
                if f == "depth": y["depth"] ^= mask
                elif f == "key" and kind == "pub": y["key"] = [x["key"][0] ^ 1] + x["key"][1:] if p["pos"] == "first" else list(r.choice([q_ for q_ in pts if list(q_) != x["key"]]))
                else:
                    i = {"first": 0, "middle": len(x[f]) // 2, "last": len(x[f]) - 1}[p["pos"]]
                    y[f][i] ^= mask
            if kind == "prv" and not 0 < int.from_bytes(bytes(y["key"]), "big") < N: y["key"] = B(r.randrange(2**200, N // 2))
            op = "eq" if prop == "C12" else "dbg"
            evs += [{"op": op, "a": {"lit": x}, "b": {"lit": y}}, {"op": op, "a": {"lit": y}, "b": {"lit": x}}]
    return [{"id": f"pair{i}", "evs": evs[i:i + 60]} for i in range(0, len(evs), 60)]

def order_sessions(seed, thorough, work, toys=False):
    ts = emitted("Order", {"Way": q("lex"), "NFields": 4, "NValues": 2}, work, "Emit", action=False) + emitted("Order", {"Way": q("lex"), "NFields": 2, "NValues": 3}, work, "Emit", action=False)
    r = random.Random(f"order/{seed}/{toys}")
    if not thorough: ts = r.sample(ts, 500)
    evs = []; tg = toy.ToyGen("C27", f"orderkeys/{seed}", thorough)
    for t in ts:
        fs = r.sample(("depth", "fp", "cn", "chain") if not toys else ("key", "depth", "fp", "cn", "chain"), len(t[0]))
        base = {**({"kind": "pub", "key": list(tg.point())} if toys else {}), "depth": r.randrange(256), "fp": list(rb(r, 4)), "cn": list(rb(r, 4)), "chain": list(rb(r, 32))}
        vals = {}
        for f in fs:                                    # values of one field differ in one place
            if f == "depth": vals[f] = r.sample(range(256), 3)
            elif f == "key": vals[f] = [list(tg.point()) for _ in range(3)]
            else:
                i = r.randrange(len(base[f])); vs = r.sample(range(256), 3); vals[f] = [base[f][:i] + [v] + base[f][i + 1:] for v in vs]
        evs.append({"op": "order", "kind": "pub" if toys else "attrs", "vals": [{**base, **{f: vals[f][x[k]] for k, f in enumerate(fs)}} for x in t]})
    return [{"id": f"{'toy' if toys else ''}order{i}", "evs": evs[i:i + 60]} for i in range(0, len(evs), 60)]

_compat = None
def compat(w):
    """another spelling of the word with the same NFKD form, if there is one"""
    global _compat
    if all("!" <= c <= "~" for c in w): return "".join(chr(ord(c) + 0xfee0) for c in w)
    if _compat is None:
        _compat = {}
        for cp in list(range(0x2e80, 0x2fe0)) + list(range(0xf900, 0xfb00)) + list(range(0x2f800, 0x2fa20)):
            d = unicodedata.normalize("NFKD", chr(cp))
            if len(d) == 1 and d != chr(cp): _compat.setdefault(d, chr(cp))
    return _compat.get(w, w)
def edit_sessions(seed, thorough, work):
    hs = emitted("Edits", {"MaxEdits": 2, "Mode": q("string"), "MaxLen": 0}, work, "EmitOne")
    r = random.Random(f"edits/{seed}")
    if not thorough and len(hs) > 700: hs = r.sample(hs, 700)
    evs = []
    for h in hs:
        for l in ("en", "zh") if thorough else (r.choice(("en", "zh")),):
            W, O = WORDS[l], WORDS["zh" if l == "en" else "en"]
            ws = phrase(l, rb(r, r.choice(ENT))); seps = [""] + [" "] * (len(ws) - 1) + [""]
            for s in h:
                at = {"first": 0, "last": len(ws) - 1}.get(s["pos"], (len(ws) + 1) // 2 - 1); op = s["op"]
                if op == "replace": ws[at] = W[(W.index(ws[at]) + 1) % 2048 if ws[at] in W else 3] if s["arg"] == "list" else "qqq" if s["arg"] == "unknown" else r.choice(O)
                elif op == "compat": ws[at] = compat(ws[at])
                elif op == "remove": del ws[at]; del seps[at]
                elif op == "double": ws.insert(at, ws[at]); seps.insert(at + 1, " ")
                elif op == "swap": b = (at + 1) % len(ws); ws[at], ws[b] = ws[b], ws[at]
                elif op == "separate":
                    k = {"first": 0, "last": len(seps) - 1}.get(s["pos"], (len(seps) + 1) // 2 - 1)
                    seps[k] = {"none": "", "space": " ", "two": "  ", "tab": r.choice("\t\n\r\u3000\u00a0\u2003\u2028\x85"), "mixed": r.choice([" \t ", "\u3000 ", "\r\n", " \u2009"])}[s["arg"]]
            t = seps[0] + "".join(w + s for w, s in zip(ws, seps[1:]))
            evs += [{"op": op, "lang": l, "text": list(t.encode())} for op in ("mn.phrase", "mn.validate")]
    return [{"id": f"edit{i}", "evs": evs[i:i + 60]} for i in range(0, len(evs), 60)]

def cold_plans(seed, thorough, work):
    """which tables each of the racing threads touches first (generated by LazyInit)"""
    ps = emitted("LazyInit", {"Threads": "{1, 2}", "PerThread": 2, "Variant": q("ok")}, work, "OnlyPlans", action=False) + emitted("LazyInit", {"Threads": "{1, 2, 3}", "PerThread": 1, "Variant": q("ok")}, work, "OnlyPlans", action=False)
    r = random.Random(f"cold/{seed}")
    return ps if thorough else r.sample(ps, 40)
def cell_session(r, lang, cell, k):
    W = WORDS[lang]; i = r.randrange(2048); e = rb(r, r.choice(ENT)); p = list(" ".join(phrase(lang, e)).encode())
    ev = r.choice([{"op": "lang.word", "lang": lang, "i": i}, {"op": "mn.entropy", "lang": lang, "ent": list(e)}, {"op": "lang.prefix", "lang": lang, "text": list(W[i].encode())}]) if cell == "list" else \
         r.choice([{"op": "lang.index", "lang": lang, "text": list(W[i].encode())}, {"op": "mn.phrase", "lang": lang, "text": p}, {"op": "mn.validate", "lang": lang, "text": p}, {"op": "lang.detect", "text": list(W[i].encode())}])
    return {"id": f"cell_{lang}_{cell}_{k}", "evs": [ev]}

def memo_sessions(prop, seed, thorough, work):
    vs = emitted("Memo", {"NFields": 2, "How": memo.HOWSET}, work, "EmitPlan", action=False)
    n = len(memo.sessions(prop, vs, seed, 1))
    return memo.sessions(prop, vs, seed, (1 if prop == "C19" else -(-120 // n)) * (6 if thorough else 1))

def behaviours(prop, seed, thorough):
    work = os.path.join(VERIF, "scratch", f"gen-{prop}-{os.getpid()}"); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    fs = [] if prop in NOMEMO else [lambda: memo_sessions(prop, seed, thorough, work)]
    if prop in ("C05", "C06", "C07", "C08", "C10", "C12", "C19", "C24"): fs.append(lambda: system_sessions(prop, seed, thorough, work))
    if prop in ("C12", "C16"): fs.append(lambda: pair_sessions(prop, seed, thorough, work))
    if prop == "C09": fs.append(lambda: text_sessions(seed, thorough, work))
    if prop == "C27": fs.append(lambda: order_sessions(seed, thorough, work))
    if prop == "C25": fs.append(lambda: paths_sessions(seed, thorough, work))
    if prop == "C15": fs.append(lambda: lifecycle_sessions(seed, thorough, work))
    if prop == "C02": fs.append(lambda: edit_sessions(seed, thorough, work))
    try:
        with ThreadPoolExecutor(3) as ex: out = [s for ss in ex.map(lambda f: f(), fs) for s in ss]
        if prop == "C19":
            r = random.Random(f"cells/{seed}")
            vs = emitted("Memo", {"NFields": 2, "How": memo.HOWSET}, work, "EmitPlan", action=False)
            out += memo.hammers(vs, seed, thorough)
            out += [cell_session(r, l, c, k) for l in ("en", "zh") for c in ("list", "map") for k in range(4)]
        return out
    finally: shutil.rmtree(work, ignore_errors=True)

def toy_behaviours(prop, seed, thorough):
    if prop not in ("C05", "C06", "C07", "C08", "C10", "C12", "C24", "C27"): return []
    work = os.path.join(VERIF, "scratch", f"toygen-{prop}-{os.getpid()}"); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    try: return order_sessions(seed, thorough, work, True) if prop == "C27" else system_sessions(prop, seed, thorough, work, True)
    finally: shutil.rmtree(work, ignore_errors=True)

def scripted(draws_, work):
    f = os.path.join(work, "scripted.ndjson"); write_lines(f, draws_)
    out, ok, gen, dis, d = tlc("Scripted", {"LogFile": json.dumps(f)}, work)
    if not ok or dis != 2: raise ToolError("Scripted: " + out[-3000:])
    return {"gen": gen, "dis": dis, "bad": [json.dumps(x)[:600] for x in printed("NOTFRESH", out)]}
def fresh(draws_, work):
    f = os.path.join(work, "draws.ndjson"); write_lines(f, draws_)
    out, ok, gen, dis, d = tlc("Fresh", {"LogFile": json.dumps(f)}, work)
    if not ok or dis != len(draws_) + 1: raise ToolError("Fresh: " + out[-3000:])
    return {"gen": gen, "dis": dis, "bad": [json.dumps(x)[:600] for x in printed("NOTFRESH", out)]}
