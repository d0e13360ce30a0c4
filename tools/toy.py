"""Sessions for the key type of spec/ToyKey.tla (kmsh-toy).  The arithmetic here only steers
which inputs are made; what a result must be is decided by the specification."""
import random
from gen import Gen, path, U, order_vals
from ref import *

PROPS = ("C04", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C16", "C24", "C26", "C27")
TOP, MOD = 150, 150 << 248
def fine(b): return b[0] < TOP and sum(b) % 15 != 0
def add(a, t):
    if not fine(t): return None
    s = ((int.from_bytes(a, "big") + int.from_bytes(t, "big")) % MOD).to_bytes(32, "big")
    return s if fine(s) else None
def child(x, cn):
    """the child of a literal, or why there is none: refused tweak or refused sum"""
    k = bytes(x["key"][-32:]); hard = cn[0] >= 128
    I = hm(bytes(x["chain"]), (b"\0" + k if hard else b"\2" + k) + bytes(cn))
    if not fine(I[:32]): return "tweak"
    s = add(k, I[:32])
    if s is None: return "sum"
    return {**x, "key": list(s if x["kind"] == "prv" else b"\2" + s), "chain": list(I[32:]), "depth": x["depth"] + 1, "fp": [0, 0, 0, 0], "cn": list(cn)}

class ToyGen(Gen):
    def key(self):
        while True:
            b = self.rb2(32) if self.r.random() < .6 else self.r.randrange(MOD).to_bytes(32, "big")
            if fine(b): return b
    def point(self): return b"\2" + self.key()
    def badkey(self):
        while True:
            b = bytearray(self.rb2(32)); c = self.r.randrange(4)
            if c == 0: b = bytearray(32)
            if c == 1: b[0] = self.r.randrange(TOP, 256)
            if c == 2: b[31] = (b[31] - sum(b)) % 15
            if not fine(b): return bytes(b)
    def cnfor(self, x, want, hard=None):
        """a child number whose child has the fate wanted: 'ok', 'tweak' or 'sum'"""
        for _ in range(400):
            c = self.cn(hard); r = child(x, c)
            if ("ok" if isinstance(r, dict) else r) == want: return c
        return c
    def pathfor(self, x, n, fate, hard=None):
        """n steps that succeed, except that the last one has the fate wanted"""
        p = []
        for i in range(n):
            c = self.cnfor(x, "ok" if i < n - 1 else fate, hard if x["kind"] == "prv" else False)
            p.append(c); r = child(x, c)
            if isinstance(r, dict): x = r
        return p
    def fate(self): return self.r.choice(("ok", "ok", "tweak", "sum"))

def sessions(prop, seed, thorough):
    g = ToyGen(prop, f"toy/{seed}", thorough); r = g.r; evs = []; L = g.lit
    wants = lambda *ps: prop in ps
    if wants("C04", "C24", "C26"):
        for n in (16, 32, 64, 128) * g.n(20): evs.append({"op": "prv.new", "seed": list(g.rb2(n))})
        for n in (0, 1, 15, 17, 31, 33, 48, 63, 65, 127, 129, 256): evs.append({"op": "prv.new", "seed": list(g.rb(n))})
        for _ in range(g.n(8)): g.add([{"op": "seed.new", "self": {"lit": g.mn()}, "pass": [], "out": 1}, {"op": "prv.new", "self": {"h": 1}, "out": 2}, {"op": "prv.new", "self": {"h": 1}}], "toy")
    if wants("C05", "C06", "C08", "C24", "C26"):
        for _ in range(g.n(120)):
            x = r.choice((g.prv, g.prv, g.pub))(); x["depth"] = min(x["depth"], 254) if r.random() < .9 else 255
            evs.append({"op": "ckd", "self": L(x), "cn": g.cnfor(x, g.fate(), None if x["kind"] == "prv" else r.random() < .1)})
        for _ in range(g.n(8)):                     # trees by handle, going on after refusals
            x = g.prv(r.randrange(200)); e = [{"op": "clone", "self": L(x), "out": 1}]; live = [(1, x)]
            for _ in range(20):
                h, y = r.choice(live) if r.random() < .5 else live[-1]
                if r.random() < .2 and y["kind"] == "prv": e.append({"op": "neuter", "self": {"h": h}, "out": len(e) + 1}); live.append((len(e), {**y, "kind": "pub", "key": [2] + y["key"]})); continue
                c = g.cnfor(y, r.choice(("ok", "ok", "ok", "tweak", "sum")), None if y["kind"] == "prv" else False); z = child(y, c)
                e.append({"op": "ckd", "self": {"h": h}, "cn": c, "out": len(e) + 1})
                if isinstance(z, dict): live.append((len(e), z))
                elif r.random() < .5: e.append({"op": "ckd", "self": {"h": h}, "cn": c})
            g.add(e, "toy")
    if wants("C08"):
        for _ in range(g.n(60)): evs.append({"op": "fp", "self": L(g.pub())})
    if wants("C06", "C24", "C26"):
        for _ in range(g.n(80)):
            x = g.prv(r.randrange(240)); n = r.choice((1, 1, 1, 2, 3, 4))
            evs.append({"op": "commute", "self": L(x), "path": g.pathfor(x, n, g.fate(), False), "bypath": r.random() < .5})
        for _ in range(g.n(20)): evs.append({"op": "neuter", "self": L(g.prv())})
    if wants("C07", "C08", "C24", "C26"):
        for _ in range(g.n(80)):
            x = r.choice((g.prv, g.prv, g.pub))(); n = r.randrange(0, 6); x["depth"] = min(x["depth"], 249 if r.random() < .9 else 255)
            p = g.pathfor(x, n, g.fate()) + ([g.cn(None if x["kind"] == "prv" else False) for _ in range(r.randrange(0, 3))] if r.random() < .5 else [])
            evs.append({"op": "path.derive", "self": L(x), "path": p, "mk": r.choice(("push", "extend", "parse")), "cuts": sorted(r.randrange(len(p) + 1) for _ in range(r.randrange(3)))})
        for _ in range(g.n(60)):
            s = g.seedb(); I = hm(b"Bitcoin seed", bytes(s)); p = []
            if fine(I[:32]): x = {"kind": "prv", "key": list(I[:32]), "chain": list(I[32:]), "depth": 0, "fp": [0] * 4, "cn": [0] * 4}; p = g.pathfor(x, r.randrange(0, 5), g.fate())
            else: p = path(g, r.randrange(0, 3))
            evs.append({"op": "path.derive", "seed": s, "path": p, "mk": r.choice(("push", "extend", "parse")), "cuts": sorted(r.randrange(len(p) + 1) for _ in range(r.randrange(3)))})
    def kf(o): return (b"\0" if o["kind"] == "prv" else b"") + bytes(o["key"])
    def text(o, s, key=None): return b58c(payload(STD[s][1], o["depth"], bytes(o["fp"]), bytes(o["cn"]), bytes(o["chain"]), key or kf(o)))
    if wants("C10"):
        for _ in range(g.n(80)):
            x = r.choice((g.prv, g.pub))(); s = r.choice(PRVS if x["kind"] == "prv" else PUBS)
            evs += [{"op": "export", "self": L(x), "std": s}, {"op": "reimport", "self": L(x), "std": s}]
    if wants("C10", "C11", "C24", "C26"):
        for _ in range(g.n(80)):
            x = r.choice((g.prv, g.pub))()
            if x["depth"] == 0: x.update(fp=[0] * 4, cn=[0] * 4)
            s = r.choice(PRVS if x["kind"] == "prv" else PUBS); key = kf(x)
            if r.random() < .55: key = (b"\0" if x["kind"] == "prv" else b"\2") + g.badkey()
            elif r.random() < .2: key = bytes([r.choice((1, 2, 3, 4, 255))]) + key[1:]
            elif r.random() < .1: s = r.randrange(8)
            evs += [{"op": "import", "as": x["kind"], "text": U(text(x, s, key))}, {"op": "ek.into", "as": x["kind"], "self": L({**x, "kind": "ek", "std": s, "key": list(key)})}]
    if wants("C12", "C16"):
        op = "eq" if prop == "C12" else "dbg"
        for _ in range(g.n(60)):
            x = g.prv(); f = r.choice(("key", "chain", "depth", "fp", "cn")); y = {**x, f: g.prv()[f]}
            if f == "key" and r.random() < .5:
                for _ in range(99):
                    k = bytearray(x["key"]); k[r.randrange(32)] ^= 1 << r.randrange(8); k[r.randrange(32)] ^= 1 << r.randrange(8)
                    if fine(k): y["key"] = list(k); break
            evs += [{"op": op, "a": L(x), "b": L(y)}, {"op": op, "a": L(x), "b": L(dict(x))}]
            if prop == "C12": p = g.pub(); evs += [{"op": op, "a": L(p), "b": L({**p, f: g.pub()[f]})}, {"op": op, "a": L(p), "b": L(dict(p))}]
    if wants("C27"):                                # points of this key type are ordered
        for _ in range(g.n(250)): evs.append({"op": "order", "kind": "pub", "vals": order_vals(g, "pub")})
    r.shuffle(evs); g.spread(evs, 40, "toy")
    return g.sessions
