"""Plain helpers the generators use to build interesting inputs.  Nothing here is an
oracle: what a result must be is decided by the TLA+ specification only."""
import hashlib, hmac, json, os, re

N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
P = 2**256 - 2**32 - 977
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("KMS_REPO", "/repo")

def sha(b): return hashlib.sha256(bytes(b)).digest()
def hm(k, m): return hmac.new(bytes(k), bytes(m), hashlib.sha512).digest()

def padd(a, b):
    if a is None: return b
    if b is None: return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0: return None
        m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (m * m - a[0] - b[0]) % P
    return (x, (m * (a[0] - x) - a[1]) % P)
_tab = []
def _mk():
    q = G
    for _ in range(256):
        _tab.append(q); q = padd(q, q)
def mulg(k):
    if not _tab: _mk()
    # Jacobian would be faster; the generators need few points
    r = None; i = 0
    while k:
        if k & 1: r = padd(r, _tab[i])
        k >>= 1; i += 1
    return r
def ser(p): return bytes([2 + (p[1] & 1)]) + p[0].to_bytes(32, "big")
def pub(k): return ser(mulg(k))
def on_curve_x(x):
    y2 = (pow(x, 3, P) + 7) % P
    y = pow(y2, (P + 1) // 4, P)
    return y * y % P == y2

A58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
def b58(b):
    n = int.from_bytes(b, "big"); s = ""
    while n: n, r = divmod(n, 58); s = A58[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s
def b58c(p): return b58(p + sha(sha(p))[:4])
STD = [("tprv", 0x04358394), ("tpub", 0x043587cf), ("xprv", 0x0488ade4), ("xpub", 0x0488b21e),
       ("yprv", 0x049d7878), ("ypub", 0x049d7cb2), ("zprv", 0x04b2430c), ("zpub", 0x04b24746),
       ("uprv", 0x044a4e28), ("upub", 0x044a5262), ("vprv", 0x045f18bc), ("vpub", 0x045f1cf6), ("Yprv", 0x0295b005), ("Ypub", 0x0295b43f), ("Zprv", 0x02aa7a99), ("Zpub", 0x02aa7ed3), ("Uprv", 0x024285b5), ("Upub", 0x024289ef), ("Vprv", 0x02575048), ("Vpub", 0x02575483)]
PRVS, PUBS = list(range(0, 20, 2)), list(range(1, 20, 2))
def payload(ver, depth, fp, cn, chain, key): return ver.to_bytes(4, "big") + bytes([depth]) + fp + cn + chain + key

_w = json.load(open(os.path.join(VERIF, "spec/data/words.json")))
WORDS = {l: [bytes(x).decode() for x in _w[l]] for l in ("en", "zh")}
def phrase(lang, ent):
    n = len(ent) * 8; cs = n // 32
    v = (int.from_bytes(ent, "big") << cs) | (sha(ent)[0] >> (8 - cs))
    k = (n + cs) // 11
    return [WORDS[lang][(v >> (11 * (k - 1 - i))) & 2047] for i in range(k)]
ENT = [16, 20, 24, 28, 32]

def source_literals():
    """integers and strings written in the crate's current sources (a fuzzing dictionary)"""
    ints, strs = set(), set()
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith(".rs"):
                t = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
                t = re.sub(r"//[^\n]*", "", t)
                for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|\d[\d_]*)(?:u8|u16|u32|u64|usize|i32|i64)?\b", t):
                    s = m.group(1).replace("_", "")
                    try: v = int(s, 16) if s.startswith("0x") else int(s)
                    except ValueError: continue
                    if v < 2**64: ints.add(v)
                for m in re.finditer(r'"((?:[^"\\\n]|\\.){0,40})"', t): strs.add(m.group(1))
                for m in re.finditer(r"b?'([^'\\\n])'", t): strs.add(m.group(1))
    return sorted(ints), sorted(strs)
