"""Concretises the variations generated by Memo.tla: for every operation, a base call, the call varied in
one specific way, and the base call again (and the other way round)."""
import random
from ref import *
HOW = ("first", "last", "middle", "swap", "extend", "prepend", "cut", "behead", "shift", "exchange")
HOWSET = "{" + ", ".join(f'"{h}"' for h in HOW) + "}"
_pts = None
def points(r):
    global _pts
    if _pts is None: _pts = [pub(random.Random(5).randrange(1, N) + i) for i in range(24)]
    return _pts

# a field: its type and value; vary() gives another value or None when the variation makes no sense for it
def vary(t, v, how, r):
    if t == "enum": return r.choice([x for x in v[1] if x != v[0]]) if how == "first" and len(v[1]) > 1 else None
    if t == "int":                                      # (value, number of bits)
        x, w = v
        return {"first": x ^ (1 << (w - 1)), "last": x ^ 1, "middle": x ^ (1 << (w // 2)), "extend": (x << 1) % 2**w if (x << 1) % 2**w != x else None,
                "cut": x >> 1 if x >> 1 != x else None, "swap": int(format(x, f"0{w}b")[::-1], 2) if int(format(x, f"0{w}b")[::-1], 2) != x else None, "behead": x % 2**(w - 8) if w > 8 and x % 2**(w - 8) != x else None}.get(how)
    if t == "point":
        if how == "first": return bytes([v[0] ^ 1]) + v[1:]
        return r.choice([p for p in points(r) if p != v]) if how in ("last", "middle") else None
    s = list(v)                                         # sequences: "fix" bytes of fixed length, "var" bytes, "key", "cns", "text" (characters stay letters)
    bump = (lambda x: [x[0], x[1], x[2], x[3] ^ 1]) if t == "cns" else (lambda x: x + 1 if chr(x) not in "zZ9\x7f" and chr(x + 1).isalnum() else x - 1) if t == "text" else (lambda x: x ^ 1)
    if t in ("fix", "key") and how in ("extend", "prepend", "cut", "behead"): return None
    if not s and how not in ("extend", "prepend"): return None
    if how == "first": s[0] = bump(s[0])
    elif how == "last": s[-1] = bump(s[-1])
    elif how == "middle": i = len(s) // 2; s[i] = bump(s[i])
    elif how == "swap":
        ij = [(i, j) for i in range(len(s)) for j in range(i + 1, len(s)) if s[i] != s[j]]
        if not ij: return None
        i, j = r.choice(ij); s[i], s[j] = s[j], s[i]
    elif how == "extend": s.append(s[-1] if s else ([0, 0, 0, 7] if t == "cns" else 97))
    elif how == "prepend": s.insert(0, s[0] if s else ([0, 0, 0, 7] if t == "cns" else 97))
    elif how == "cut": s.pop()
    elif how == "behead": s.pop(0)
    else: return None
    if t == "key" and not 0 < int.from_bytes(bytes(s), "big") < N: return None
    return s

# ---- operations: name -> (base fields from r, call from fields)
rb = lambda r, n: list(r.getrandbits(8) for _ in range(n))
def key(r): return list(r.randrange(2**200, N - 2**200).to_bytes(32, "big"))
def attrs(r): return {"chain": ("fix", rb(r, 32)), "depth": ("int", (r.randrange(1, 120), 7)), "fp": ("fix", rb(r, 4)), "cn": ("fix", rb(r, 4))}
def obj(f, kind): return {"kind": kind, "key": list(f["key"][1]), "chain": list(f["chain"][1]), "depth": f["depth"][1][0], "fp": list(f["fp"][1]), "cn": list(f["cn"][1])}
def prvf(r): return {"key": ("key", key(r)), **attrs(r)}
def pubf(r): return {"key": ("point", bytes(r.choice(points(r)))), **attrs(r)}
L = lambda x: {"lit": x}
en = lambda f, k: f[k][1][0]
lst = lambda f, k: list(f[k][1])
LANG = lambda r: ("enum", (r.choice(("en", "zh")), ("en", "zh")))
ENTS = lambda r: ("fix", rb(r, r.choice(ENT)))
W = lambda l: WORDS[l]
def txt(f, k="text"): return list(bytes(f[k][1]))
def exported(r, kind, std):
    f = prvf(r) if kind == "prv" else pubf(r); x = obj(f, kind)
    return b58c(payload(STD[std][1], x["depth"], bytes(x["fp"]), bytes(x["cn"]), bytes(x["chain"]), bytes(([0] if kind == "prv" else []) + x["key"])))
def imp(r, f):
    kind = en(f, "as"); return {"op": "import", "as": kind, "text": txt(f)}
def ekobj(f): return {"kind": "ek", "std": en(f, "std"), "key": [0] + lst(f, "key") if en(f, "std") in PRVS else lst(f, "key"), "chain": lst(f, "chain"), "depth": f["depth"][1][0], "fp": lst(f, "fp"), "cn": lst(f, "cn")}
def path_(r, k=None): return ("cns", [[r.randrange(2) * 0, 0, r.randrange(256), r.randrange(256)] for _ in range(r.randrange(1, 5) if k is None else k)])
def bothkinds(f, e):
    """the private key or its public key: what is remembered for one must not answer for the other"""
    x = obj(f, "prv")
    if en(f, "kind") == "pub": x = {**x, "kind": "pub", "key": list(pub(int.from_bytes(bytes(x["key"]), "big")))}
    return {**e, "self": L(x)}
KIND = ("enum", ("prv", ("prv", "pub")))
mnl = lambda f: L({"kind": "mn", "lang": en(f, "lang"), "ent": lst(f, "ent")})
cnof = lambda f: list(f["i"][1][0].to_bytes(4, "big"))
A = lambda *xs: (lambda r: {k: v for x in xs for k, v in x(r).items()})
one = lambda k, t, g: (lambda r: {k: (t, g(r))})
ascii_ = lambda lo, hi: (lambda r: list(ord(r.choice("abcdefghijklmnopqrstuvwxyzABC123")) for _ in range(r.randrange(lo, hi))))
OPS = {
 "entropy": (lambda r: {"lang": LANG(r), "ent": ENTS(r)}, lambda f: {"op": "mn.entropy", "lang": en(f, "lang"), "ent": lst(f, "ent")}),
 "phrase": (lambda r: {"lang": LANG(r), "ent": ENTS(r)}, lambda f: {"op": "mn.phrase", "lang": en(f, "lang"), "text": list(" ".join(phrase(en(f, "lang"), bytes(lst(f, "ent")))).encode())}),
 "phrasetext": (lambda r: {"lang": ("enum", ("en", ("en", "zh"))), "text": ("text", list(" ".join(phrase("en", bytes(rb(r, r.choice(ENT))))).encode()))}, lambda f: {"op": "mn.phrase", "lang": en(f, "lang"), "text": txt(f)}),
 "phrasewords": (lambda r: {"ws": ("words", phrase("en", bytes(rb(r, r.choice(ENT)))))}, lambda f: {"op": "mn.phrase", "lang": "en", "text": list(" ".join(f["ws"][1]).encode())}),
 "validatewords": (lambda r: {"ws": ("words", phrase("en", bytes(rb(r, r.choice(ENT)))))}, lambda f: {"op": "mn.validate", "lang": "en", "text": list(" ".join(f["ws"][1]).encode())}),
 "validate": (lambda r: {"lang": ("enum", ("en", ("en", "zh"))), "text": ("text", list(" ".join(phrase("en", bytes(rb(r, r.choice(ENT))))).encode()))}, lambda f: {"op": "mn.validate", "lang": en(f, "lang"), "text": txt(f)}),
 "seed": (lambda r: {"lang": LANG(r), "ent": ENTS(r), "pass": ("var", ascii_(1, 12)(r))}, lambda f: {"op": "seed.new", "self": mnl(f), "pass": [x % 128 for x in lst(f, "pass")]}),
 "seedtext": (lambda r: {"ws": ("words", phrase("en", bytes(rb(r, 16)))), "pass": ("var", ascii_(1, 12)(r))}, lambda f: {"op": "seed.new", "self": L({"kind": "mn", "lang": "en", "text": list(" ".join(f["ws"][1]).encode())}), "pass": [x % 128 for x in lst(f, "pass")]}),
 "master": (lambda r: {"seed": ("var", rb(r, r.choice((16, 32, 64, 128))))}, lambda f: {"op": "prv.new", "seed": lst(f, "seed")}),
 "ckd": (lambda r: {"kind": KIND, "i": ("int", (r.randrange(2**31), 32)), **prvf(r)}, lambda f: bothkinds(f, {"op": "ckd", "cn": cnof(f)})),
 "ckdprv": (lambda r: {"i": ("int", (r.choice((r.randrange(2**31), r.randrange(4))), 32)), **prvf(r)}, lambda f: {"op": "ckd", "self": L(obj(f, "prv")), "cn": cnof(f)}),
 "ckdpub": (lambda r: {"i": ("int", (r.choice((r.randrange(2**31), r.randrange(4))), 32)), **pubf(r)}, lambda f: {"op": "ckd", "self": L(obj(f, "pub")), "cn": cnof(f)}),
 "commute": (lambda r: {"i": ("int", (r.randrange(2**31), 31)), **prvf(r)}, lambda f: {"op": "commute", "self": L(obj(f, "prv")), "path": [cnof(f)]}),
 "neuter": (prvf, lambda f: {"op": "neuter", "self": L(obj(f, "prv"))}),
 "fp": (pubf, lambda f: {"op": "fp", "self": L(obj(f, "pub"))}),
 "pathprv": (lambda r: {"kind": KIND, "path": path_(r), **prvf(r)}, lambda f: bothkinds(f, {"op": "path.derive", "path": lst(f, "path"), "mk": "push", "cuts": []})),
 "pathseed": (lambda r: {"seed": ("fix", rb(r, 32)), "path": path_(r)}, lambda f: {"op": "path.derive", "seed": lst(f, "seed"), "path": lst(f, "path"), "mk": "push", "cuts": []}),
 "cnparse": (lambda r: {"text": ("text", list(str(r.randrange(10, 10**9)).encode()))}, lambda f: {"op": "cn.parse", "text": txt(f)}),
 "cnmark": (lambda r: {"mark": ("enum", ("", ("", "'"))), "text": ("text", list(str(r.randrange(10, 10**9)).encode()))}, lambda f: {"op": "cn.parse", "text": txt(f) + list(en(f, "mark").encode())}),
 "pathparse": (lambda r: {"p": path_(r, 3), "mark": ("enum", ("", ("", "'")))}, lambda f: {"op": "path.parse", "text": list(("m" + "".join(f"/{int.from_bytes(bytes(c), 'big')}{en(f, 'mark')}" for c in f["p"][1])).encode())}),
 "cnshow": (lambda r: {"i": ("int", (r.randrange(2**32), 32))}, lambda f: {"op": "cn.show", "cn": cnof(f)}),
 "cnnew": (lambda r: {"i": ("int", (r.randrange(2**31), 31)), "hard": ("enum", (True, (True, False)))}, lambda f: {"op": "cn.new", "raw": cnof(f), "hard": en(f, "hard")}),
 "pathshow": (lambda r: {"p": path_(r)}, lambda f: {"op": "path.show", "path": lst(f, "p"), "mk": "push"}),
 "exportprv": (lambda r: {"std": ("enum", (2, tuple(PRVS))), **prvf(r)}, lambda f: {"op": "export", "self": L(obj(f, "prv")), "std": en(f, "std")}),
 "exportpub": (lambda r: {"std": ("enum", (3, tuple(PUBS))), **pubf(r)}, lambda f: {"op": "export", "self": L(obj(f, "pub")), "std": en(f, "std")}),
 "import": (lambda r: (lambda k: {"as": ("enum", (k, ("prv", "pub", "ek"))), "text": ("text", list(exported(r, k, r.choice(PRVS if k == "prv" else PUBS)).encode()))})(r.choice(("prv", "pub"))), lambda f: imp(None, f)),
 "importobj": (lambda r: {"std": ("enum", (2, tuple(PRVS))), **prvf(r)}, lambda f: {"op": "import", "as": "prv", "text": list(b58c(payload(STD[en(f, "std")][1], f["depth"][1][0], bytes(lst(f, "fp")), bytes(lst(f, "cn")), bytes(lst(f, "chain")), bytes([0] + lst(f, "key")))).encode())}),
 "importpub": (lambda r: {"std": ("enum", (3, tuple(PUBS))), **pubf(r)}, lambda f: {"op": "import", "as": "pub", "text": list(b58c(payload(STD[en(f, "std")][1], f["depth"][1][0], bytes(lst(f, "fp")), bytes(lst(f, "cn")), bytes(lst(f, "chain")), bytes(lst(f, "key")))).encode())}),
 "importver": (lambda r: {"v": ("enum", (2, tuple(range(8)))), "as": ("enum", ("prv", ("prv", "pub"))), **prvf(r)}, lambda f: {"op": "import", "as": en(f, "as"), "text": list(b58c(payload(STD[en(f, "v")][1], f["depth"][1][0], bytes(lst(f, "fp")), bytes(lst(f, "cn")), bytes(lst(f, "chain")), bytes([0] + lst(f, "key")))).encode())}),
 "ekinto": (lambda r: {"as": ("enum", ("prv", ("prv", "pub"))), "std": ("enum", (2, tuple(PRVS))), **prvf(r)}, lambda f: {"op": "ek.into", "as": en(f, "as"), "self": L(ekobj(f))}),
 "ekshow": (lambda r: {"std": ("enum", (2, tuple(PRVS))), **prvf(r)}, lambda f: {"op": "ek.show", "self": L(ekobj(f))}),
 "skfrom": (lambda r: {"key": ("fix", key(r))}, lambda f: {"op": "sk.from", "key": lst(f, "key")}),
 "skpub": (lambda r: {"key": ("key", key(r))}, lambda f: {"op": "sk.pub", "key": lst(f, "key")}),
 "pkfrom": (lambda r: {"key": ("point", r.choice(points(r)))}, lambda f: {"op": "pk.from", "key": lst(f, "key")}),
 "pkfromraw": (lambda r: {"key": ("fix", list(r.choice(points(r))))}, lambda f: {"op": "pk.from", "key": lst(f, "key")}),
 "sktweak": (lambda r: {"key": ("key", key(r)), "t": ("fix", key(r))}, lambda f: {"op": "sk.tweak", "key": lst(f, "key"), "t": lst(f, "t")}),
 "pktweak": (lambda r: {"key": ("point", r.choice(points(r))), "t": ("fix", key(r))}, lambda f: {"op": "pk.tweak", "key": lst(f, "key"), "t": lst(f, "t")}),
 "sign": (lambda r: {"key": ("key", key(r)), "msg": ("key", key(r))}, lambda f: {"op": "sign", "key": lst(f, "key"), "msg": lst(f, "msg")}),
 "signlen": (lambda r: {"msg": ("var", key(r))}, lambda f: {"op": "sign", "key": [1] * 32, "msg": lst(f, "msg")}),
 "langword": (lambda r: {"lang": LANG(r), "i": ("int", (r.randrange(2048), 11))}, lambda f: {"op": "lang.word", "lang": en(f, "lang"), "i": f["i"][1][0]}),
 "langindex": (lambda r: {"lang": ("enum", ("en", ("en", "zh"))), "text": ("text", list(r.choice(WORDS["en"]).encode()))}, lambda f: {"op": "lang.index", "lang": en(f, "lang"), "text": txt(f)}),
 "langprefix": (lambda r: {"lang": ("enum", ("en", ("en", "zh"))), "text": ("text", list(r.choice(WORDS["en"])[:r.randrange(1, 5)].encode()))}, lambda f: {"op": "lang.prefix", "lang": en(f, "lang"), "text": txt(f)}),
 "langcode": (lambda r: {"text": ("text", list(r.choice(("en", "zh-cn", "EN", "Zh-Cn")).encode()))}, lambda f: {"op": "lang.code", "text": txt(f)}),
 "langdetect": (lambda r: {"text": ("text", list(r.choice(WORDS["en"]).encode()))}, lambda f: {"op": "lang.detect", "text": txt(f)}),
 "prefixof": (lambda r: {"via": ("enum", ("u32", ("u32", "bytes", "slice"))), "v": ("fix", list(r.choice(STD)[1].to_bytes(4, "big")))}, lambda f: {"op": "prefix.of", "via": en(f, "via"), "bytes": lst(f, "v")}),
 "mnrender": (lambda r: {"lang": LANG(r), "ent": ENTS(r)}, lambda f: {"op": "mn.render", "self": mnl(f)}),
 "seedrender": (lambda r: {"lang": LANG(r), "ent": ENTS(r), "pass": ("var", ascii_(1, 8)(r))}, lambda f: {"op": "seed.render", "self": L({"kind": "seed", "mn": {"lang": en(f, "lang"), "ent": lst(f, "ent")}, "pass": [x % 128 for x in lst(f, "pass")]})}),
 "mtype": (lambda r: {"via": ("enum", ("words", ("words", "bits"))), "n": ("int", (r.choice((12, 15, 18, 21, 24, 128, 160, 192, 224, 256)), 16))}, lambda f: {"op": "mtype", "via": en(f, "via"), "n": list(f["n"][1][0].to_bytes(8, "big"))}),
 "ripemd": (lambda r: {"msg": ("var", rb(r, r.choice((1, 20, 55, 64, 100, 200))))}, lambda f: {"op": "ripemd", "msg": lst(f, "msg")}),
}
# two objects, the second one varied
for k_, base_, kind_ in (("eqprv", prvf, "prv"), ("eqpub", pubf, "pub")):
    OPS[k_] = (base_, lambda f, kind=kind_: {"op": "eq", "a": L({**obj(f, kind), **f.get("_a", {})}), "b": L(obj(f, kind))})
OPS["dbg"] = (prvf, lambda f: {"op": "dbg", "a": L({**obj(f, "prv"), "key": f["_a"]["key"]} if "_a" in f else obj(f, "prv")), "b": L(obj(f, "prv"))})
FOR = {"C01": ["entropy"], "C02": ["phrase", "phrasetext", "phrasewords", "validate", "validatewords"], "C03": ["seed", "seedtext"], "C04": ["master"], "C05": ["ckdprv", "ckd"], "C06": ["commute", "neuter", "ckd", "ckdpub"], "C07": ["pathprv", "pathseed"],
       "C08": ["ckdprv", "ckdpub", "ckd", "fp"], "C09": ["cnparse", "cnmark", "pathparse", "cnshow", "cnnew", "pathshow"], "C10": ["exportprv", "exportpub", "importobj", "importpub", "ekinto", "ekshow"],
       "C11": ["import", "importver", "importobj", "importpub", "ekinto"], "C12": ["eqprv", "eqpub"], "C13": ["skfrom", "skpub", "pkfrom", "pkfromraw", "sktweak", "pktweak"], "C14": ["sign", "signlen"], "C16": ["dbg"],
       "C18": ["langword", "langindex", "langprefix", "langcode", "langdetect"], "C20": ["prefixof"], "C21": ["mnrender", "seedrender"], "C22": ["mtype"], "C23": ["ripemd"], "C24": ["master", "ckdprv", "ckdpub", "pathprv", "importobj", "importpub", "ekinto"]}
FOR["C19"] = list(OPS)

def vary_words(ws, how, r):
    ws = list(ws); B = WORDS["en"]; nxt = lambda w: B[B.index(w) ^ 1]
    if how == "first": ws[0] = nxt(ws[0])
    elif how == "last":                                 # another last word with the right checksum, so that both are valid
        k = len(ws); n = k * 32 // 3; idx = [B.index(w) for w in ws]; v = 0
        for i in idx: v = v << 11 | i
        ent = (v >> (k * 11 - n)) ^ 1
        ws = phrase("en", ent.to_bytes(n // 8, "big"))
    elif how == "middle": i = len(ws) // 2; ws[i] = nxt(ws[i])
    elif how == "swap":
        i, j = r.sample(range(len(ws)), 2)
        if ws[i] == ws[j]: return None
        ws[i], ws[j] = ws[j], ws[i]
    elif how == "extend": ws.append(ws[-1])
    elif how == "prepend": ws.insert(0, ws[0])
    elif how == "cut": ws.pop()
    elif how == "behead": ws.pop(0)
    else: return None
    return ws

def varied(f, how, i, j, r):
    names = [k for k in f if not k.startswith("_")]
    if how in ("shift", "exchange"):
        a, b = names[i], names[j]
        (ta, va), (tb, vb) = f[a], f[b]
        if how == "exchange":
            if ta == tb and ta in ("fix", "key") and len(va) == len(vb) and va != vb or {ta, tb} <= {"fix", "key"} and len(va) == len(vb) and va != vb and 0 < int.from_bytes(bytes(vb), "big") < N and 0 < int.from_bytes(bytes(va), "big") < N:
                return {**f, a: (ta, vb), b: (tb, va)}
            return None
        if ta == tb == "var" and va: return {**f, a: (ta, list(va)[:-1]), b: (tb, [list(va)[-1]] + list(vb))}
        return None
    n = names[i]; t, v = f[n]
    w = vary_words(v, how, r) if t == "words" else vary(t, v, how, r)
    if w is None: return None
    if t == "enum": w = (w, v[1])
    if t == "int": w = (w, v[1])
    if t in ("text",) and any(x > 126 for x in w): return None
    return {**f, n: (t, w)}

def sessions(prop, variations, seed, reps):
    """variations: those of a call with two fields; an operation uses them for each of its own fields and pairs of fields"""
    r = random.Random(f"memo/{prop}/{seed}"); out = []
    single = [h for h in HOW if any(v["how"] == h and v["g"] == 0 for v in variations)]
    double = [h for h in HOW if any(v["how"] == h and v["g"] > 0 for v in variations)]
    for name in FOR.get(prop, []):
        base, call = OPS[name]; k = 0
        for rep in range(reps):
            n = len([x for x in base(random.Random(1)) if not x.startswith("_")])
            for how, i, j in [(h, i, 0) for h in single for i in range(n)] + [(h, i, j) for h in double for i in range(n) for j in range(i + 1, n)]:
                f = base(r)
                if name in ("eqprv", "eqpub", "dbg"): f["_a"] = obj(f, "pub" if name == "eqpub" else "prv")
                if name in ("eqprv", "eqpub"): f["_a"].pop("kind")
                if name == "dbg": f["_a"] = {"key": key(r)}
                g = varied(f, how, i, j, r)
                if g is None: continue
                v, w = call(f), call(g)
                if v == w: continue
                for x, y in ((v, w), (w, v)):
                    k += 1; out.append({"id": f"memo_{name}_{k}", "evs": [x, y, x]})
    # call on the same object: handles instead of literals, so that the object itself persists
    return out
LIGHT = ("cnparse", "cnmark", "pathparse", "cnshow", "cnnew", "pathshow", "langword", "langindex", "langcode", "langdetect", "prefixof", "mtype", "skfrom", "ripemd")
def hammers(variations, seed, thorough):
    """few similar calls, many rounds, many threads; and single calls very often (Shared.tla)"""
    r = random.Random(f"hammer/{seed}"); out = []; m = 5 if thorough else 1
    FOR["hammer"] = list(OPS)
    by = {}
    for s in sessions("hammer", variations, f"{seed}", 1): by.setdefault(s["id"].split("_")[1], []).append(s["evs"])
    for name in sorted(by):
        for k in range(2 * m):
            x = r.choice(by[name]); calls = [x[0], x[1]] + [c for y in r.sample(by[name], min(len(by[name]), 4)) for c in y[:1]]
            out.append({"id": f"hammer_{name}_{k}", "evs": [{"op": "hammer", "threads": r.choice((2, 4, 8)), "n": 60 * m, "calls": calls[:2] if k % 2 else calls}]})
        out.append({"id": f"soak_{name}", "evs": [{"op": "hammer", "threads": 1, "n": 66000 if name in LIGHT else 300 * m, "calls": [r.choice(by[name])[0]]}]})
    return out
if __name__ == "__main__":
    import sys
    vs = [{"how": h, "f": 1, "g": 0} for h in HOW[:8]] + [{"how": h, "f": 1, "g": 2} for h in HOW[8:]]
    for p in sorted(FOR): s = sessions(p, vs, 1, 1); print(p, len(s), sum(len(x["evs"]) for x in s))
