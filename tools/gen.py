"""Scripts (sessions of calls) for each property.  Every random choice comes from VERIF_SEED."""
import json, os, random, unicodedata
from ref import *

INTS, STRS = source_literals()

class Gen:
    def __init__(self, prop, seed, thorough):
        self.r = random.Random(f"{prop}/{seed}")
        self.prop, self.thorough = prop, thorough
        self.sessions = []
        self.k = 0
    def n(self, quick, thorough=None): return (thorough or quick * 8) if self.thorough else quick
    def add(self, evs, tag="s"):
        self.k += 1
        self.sessions.append({"id": f"{tag}{self.k}", "evs": evs})
    def spread(self, evs, size=40, tag="s"):
        for i in range(0, len(evs), size): self.add(evs[i:i + size], tag)
    # ---------------------------------------------------------------- values
    def rb(self, n): return bytes(self.r.getrandbits(8) for _ in range(n))
    def rb2(self, n):
        """n bytes, often structured"""
        c = self.r.randrange(12)
        if c == 0: return b"\0" * n
        if c == 1: return b"\xff" * n
        if c == 2: z = self.r.randrange(n + 1); return b"\0" * z + self.rb(n - z)
        if c == 3: z = self.r.randrange(n + 1); return self.rb(n - z) + b"\0" * z
        if c == 4: z = self.r.randrange(n + 1); return b"\xff" * z + self.rb(n - z)
        if c == 5: return bytes([self.r.randrange(256)]) * n
        if c == 6: return bytes((i + 1) % 256 for i in range(n))
        if c == 7: x = bytearray(n); x[self.r.randrange(n)] = 1 << self.r.randrange(8); return bytes(x)
        if c == 8: return bytes(self.r.choice((0, 1, 0x7f, 0x80, 0xff)) for _ in range(n))
        return self.rb(n)
    # scalars whose public point, or its fingerprint, has two zero (or all-ones) bytes at an end or in the middle
    RARE = [10916, 19308, 44629, 51572, 58165, 63439, 68831, 71903, 91835, 110519, 114554, 114662, 118741, 136257, 139388, 170280, 183670, 198296, 202760, 207580, 215193, 238325, 263525, 266900, 277382, 279859, 283524, 283768, 291433]
    def scalar(self):
        c = self.r.randrange(15)
        if c == 14: k = self.r.choice(self.RARE); return self.r.choice((k, N - k))
        if c == 0: return self.r.choice((1, 2, 3, 4, 5, 7, 255, 256, 65535))
        if c == 1: return N - self.r.choice((1, 2, 3, 4, 5))
        if c == 2: return N // 2 + self.r.choice((-1, 0, 1, 2))
        if c == 3: return 1 << self.r.randrange(256) if True else 0
        if c == 4: return self.r.getrandbits(8 * self.r.randrange(1, 32)) or 1
        if c == 5: return (self.r.getrandbits(8 * self.r.randrange(1, 31)) << (8 * self.r.randrange(1, 31))) % N or 1
        if c == 6: return N - 1 - self.r.getrandbits(8 * self.r.randrange(1, 31))
        return self.r.randrange(1, N)
    def key(self): return (self.scalar() % N or 1).to_bytes(32, "big")
    def chain(self): return self.rb2(32)
    def depth(self): return self.r.choice((0, 1, 2, 3, 5, 8, 127, 128, 253, 254, 255)) if self.r.random() < .4 else self.r.randrange(256)
    POOL = sorted({v for k in range(31) for v in (2**k - 1, 2**k, 2**k + 1)} | {2**31 - 1, 2**31 - 2, 2, 3, 7, 9, 10, 11, 44, 49, 60, 84, 86, 99, 100, 101, 196, 300049, 999, 1000,
             9999, 10000, 123456789, 1000000000, 0x12345678, 0x01020304, 0x00ffffff, 0x7f000000, 0x00010000, 0x0000ff00} - {2**31, -1})
    def index(self):
        c = self.r.random()
        if c < .35: return self.r.choice(self.POOL) % 2**31
        if c < .5 and INTS: return (self.r.choice(INTS) + self.r.choice((-1, 0, 0, 1))) % 2**31
        if c < .68: return self.r.randrange(256)
        if c < .76: return int.from_bytes(bytes(self.r.choice((0, 0, 1, 0x7f, 0x80, 0xfe, 0xff, self.r.randrange(256))) for _ in range(4)), "big") % 2**31
        return self.r.randrange(2**31)
    def cn(self, hard=None):
        h = self.r.random() < .5 if hard is None else hard
        return list((self.index() | (2**31 if h else 0)).to_bytes(4, "big"))
    def allcns(self):
        s = {v % 2**31 for v in self.POOL} | {(v + d) % 2**31 for v in INTS for d in (-1, 0, 1)}
        return [list((v | h).to_bytes(4, "big")) for v in sorted(s) for h in (0, 2**31)]
    def attrs(self, depth=None):
        d = self.depth() if depth is None else depth
        if d == 0 and self.r.random() < .8: return {"depth": 0, "fp": [0] * 4, "cn": [0] * 4, "chain": list(self.chain())}
        return {"depth": d, "fp": list(self.rb2(4)), "cn": self.cn(), "chain": list(self.chain())}
    def prv(self, depth=None): return {"kind": "prv", "key": list(self.key()), **self.attrs(depth)}
    def pub(self, depth=None):
        return {"kind": "pub", "key": list(self.point()), **self.attrs(depth)}
    _pts = None
    def point(self):
        if self._pts is None:
            self._pts = [pub(k) for k in [1, 2, 3, N - 1, N - 2] + [self.r.choice((k, N - k)) for k in self.RARE[::2 if self.r.random() < .5 else 1]]] + [pub(self.scalar() % N or 1) for _ in range(60)]
            for x in list(range(1, 40)) + [2**k for k in range(0, 256, 9)] + [P - 3, P - 4, P - 5]:
                if on_curve_x(x): self._pts += [bytes([2]) + x.to_bytes(32, "big"), bytes([3]) + x.to_bytes(32, "big")]
        return self.r.choice(self._pts)
    def lit(self, o): return {"lit": o}
    def lang(self): return self.r.choice(("en", "en", "zh"))
    def mn(self):
        return {"kind": "mn", "lang": self.lang(), "ent": list(self.rb2(self.r.choice(ENT)))}
    def seedb(self): return list(self.rb2(self.r.choice((16, 32, 64, 128))))

U = lambda s: list(s.encode("utf-8"))

# ------------------------------------------------------------------- unicode pools
SPACES = ["\t", "\n", "\x0b", "\x0c", "\r", " ", "\x85", "\xa0", "\u1680", "\u2000", "\u2003", "\u2007", "\u2009", "\u200a", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000"]
NOTSPACES = ["\u200b", "\u180e", "\ufeff", "\x00", "\x1c", "\x1f", "\u200d", "\u00ad"]
PASS = ["", "TREZOR", " ", "  ", "a", "A", "\0", "a\0b", "\n", "tab\t", " lead", "trail ", "pass phrase", "mnemonic", "m\u00e9t\u00e9o", "me\u0301te\u0301o", "\u212b", "\u00c5", "A\u030a",
        "\ufb01", "fi", "\uff21\uff22", "AB", "\u2460", "1", "\u00bd", "\u1e9b\u0323", "\u1e69", "s\u0323\u0307", "s\u0307\u0323", "\uac00", "\u1100\u1161", "\ud55c\uae00", "\u304c", "\u304b\u3099", "\uff76\uff9e",
        "\u00a8", "\u3000", "\u00a0", "\U0001f600", "\U0001f1e9\U0001f1ea", "e\u0301\u0323", "e\u0323\u0301", "\u0344", "\u0301", "\u2126", "\u03a9", "\u00e9\u00e9\u00e9" * 20, "\u4f60\u597d", "\u6f22\u5b57",
        "\u0645\u0631\u062d\u0628\u0627", "\ufdfa", "\u1d15e", "\U0001d15e", "\u0958", "\u0cca", "\u0fb9", "\u00df", "ss", "\u017f", "s", "\u0130", "i\u0307", "\u200b", "\ufeff", "p\u200bq", "\r\n", "'", "\"", "\\", "%", "{}", "/", "\u33a7", "\u2075", "\u00b5", "\u03bc"]
# characters that careless code strips, folds or splits at: controls, formats, separators, variation selectors, marks, modifiers
ODD = [chr(c) for c in range(0xfb00) if c not in (0x890, 0x891, 0x20) and unicodedata.category(chr(c)) in ("Cc", "Cf", "Zs", "Zl", "Zp")] + [chr(c) for r in ((0x300, 0x370), (0x483, 0x488), (0x591, 0x5be), (0x64b, 0x660), (0x2b0, 0x300), (0x2032, 0x2038), (0xfe00, 0xfe10), (0xfe20, 0xfe30), (0x3099, 0x309d), (0xfff9, 0x10000), (0x20d0, 0x20e1)) for c in range(*r)] + [
    chr(c) for c in (0x60, 0xb4, 0xb8, 0x1fef, 0x1ffd, 0x37a, 0x384, 0x17b4, 0x17b5, 0x115f, 0x1160, 0x3164, 0xffa0, 0xfeff, 0x1d173, 0xe0001, 0xe0020, 0xe007f, 0xe0100, 0xe01ef, 0x10ffff, 0xf8ff, 0x2027, 0xb7, 0x387, 0x30fb, 0xff65, 0x2e, 0x2c, 0x3b, 0x3a, 0x2d, 0x2010, 0x2011, 0x2013, 0x2212, 0xff0d, 0x5f, 0x7c, 0x2044, 0x2215, 0xff0f, 0x5c, 0x22, 0x27, 0x2018, 0x2019, 0x201c, 0x201d, 0xff07, 0x2b)]
def odd(g, s, n=1, every=1):
    """the text with one odd character put in: in front, behind, or somewhere inside"""
    for j, c in enumerate(ODD):
        if every > 1 and (j + n) % every: continue
        at = (0, len(s), g.r.randrange(1, len(s)) if len(s) > 1 else 0)
        # what counts as a separator or a control is trimmed at the ends and split at inside: all three places
        for k in at if unicodedata.category(c)[0] in "ZC" and every < 8 else g.r.sample(at, n): yield s[:k] + c + s[k:]
def wide(w): return "".join(chr(ord(c) + 0xfee0) if "!" <= c <= "~" else c for c in w)

# =================================================================== properties
def lens(g, what, fits):
    """lengths that fit in some narrower integer only after losing their top bits"""
    tops = [2**12, 2**13, 2**15, 2**16, 2**24] + [2**28, 2**29, 2**31, 2**32]
    vs = [t + g.r.choice(fits) for t in tops for _ in (0, 1)] + [2**16, 2**16 - 1, 2**29, 2**32, 2**32 - 1]
    g.spread([{"op": "len", "what": what, "lang": g.lang(), "len": list(v.to_bytes(8, "big")), "bits": list((8 * v).to_bytes(8, "big"))} for v in sorted(set(vs))], 6, "len")
def c01(g):
    lens(g, "mn", ENT)
    E = lambda l, e: {"op": "mn.entropy", "lang": l, "ent": list(e)}
    evs = []
    for l in ("en", "zh"):
        for n in list(range(0, 66)) + [100, 127, 128, 255, 256, 272, 512, 1000]:
            evs += [E(l, g.rb(n)), E(l, b"\0" * n)] if n not in ENT else []
        for n in ENT:
            for e in [b"\0" * n, b"\xff" * n, b"\x7f" * n, b"\x80" * n, b"\x55" * n, b"\xaa" * n, bytes(range(n)), bytes(range(255, 255 - n, -1))]: evs.append(E(l, e))
            for i in range(8 * n):                      # every single bit set, every single bit clear
                if l == "en" or i % 3 == 0:
                    evs.append(E(l, (1 << i).to_bytes(n, "big")))
                    if l == "en" and i % 2 == 0: evs.append(E(l, (2**(8 * n) - 1 - (1 << i)).to_bytes(n, "big")))
            w = n * 8 // 11                             # every word of the list
            for b in range(0, 2048, w):
                v = 0
                for i in range(w): v = v << 11 | ((b + i) % 2048)
                v <<= 8 * n - 11 * w
                if n in (16, 32) or l == "en": evs.append(E(l, (v | g.r.getrandbits(max(1, 8 * n - 11 * w)) % (1 << max(1, 8 * n - 11 * w))).to_bytes(n, "big")))
            cs, seen = n // 4, set()                    # every checksum value
            want = set(range(2**cs))
            while want:
                e = g.rb(n); c = sha(e)[0] >> (8 - cs)
                if c in want: want.discard(c); evs.append(E(l, e))
            for i in range(g.n(40)): evs.append(E(l, g.rb2(n)))
    g.r.shuffle(evs)
    g.spread(evs)

def word_check(idx):
    """do these words carry their checksum?"""
    v = 0
    for i in idx: v = v << 11 | i
    k = len(idx); cs = k // 3; n = 11 * k - cs
    return sha((v >> cs).to_bytes(n // 8, "big"))[0] >> (8 - cs) == v & ((1 << cs) - 1)
def texts_c02(g):
    out = []
    T = lambda l, s: out.append((l, s))
    for l in ("en", "zh"):
        other = "zh" if l == "en" else "en"
        W = WORDS[l]
        for n in ENT:
            for j in range(g.n(7)):
                ws = phrase(l, g.rb2(n)); p = " ".join(ws); k = len(ws)
                T(l, p); T(other, p)
                for _ in range(2):
                    sp = g.r.choice(SPACES)
                    T(l, sp.join(ws)); T(l, sp + p); T(l, p + sp); T(l, (sp + g.r.choice(SPACES)).join(ws)); i = g.r.randrange(1, k); T(l, " ".join(ws[:i]) + sp + " ".join(ws[i:]))
                ns = g.r.choice(NOTSPACES); T(l, ns.join(ws)); T(l, p + ns); T(l, ns + p)
                i = g.r.randrange(k)
                def rep(i, w): return " ".join(ws[:i] + [w] + ws[i + 1:])
                T(l, rep(i, g.r.choice(W))); T(l, rep(k - 1, g.r.choice(W))); T(l, rep(0, g.r.choice(W))); T(l, rep(i, WORDS[other][g.r.randrange(2048)]))
                T(l, rep(i, ws[i][:4])); T(l, rep(i, ws[i][:-1])); T(l, rep(i, ws[i] + "s")); T(l, rep(i, ws[i].upper())); T(l, rep(i, ws[i].capitalize())); T(l, p.upper()); T(l, rep(i, "")); T(l, rep(i, ws[i] + ","))
                T(l, rep(i, wide(ws[i]))); T(l, " ".join(map(wide, ws))); T(l, rep(i, ws[i] + "\u0301")); T(l, rep(i, "\u00e9" + ws[i])); T(l, rep(i, ws[i] + "\u00a8")); T(l, rep(i, "\u00a8".join([ws[i], ws[i]])))
                a, b = g.r.randrange(k), g.r.randrange(k); x = ws[:]; x[a], x[b] = x[b], x[a]; T(l, " ".join(x)); T(l, " ".join(ws[1:] + ws[:1])); T(l, " ".join(reversed(ws)))
                T(l, " ".join(ws[:-1])); T(l, " ".join(ws[1:])); T(l, " ".join(ws + [g.r.choice(W)])); T(l, " ".join(ws + ws)); T(l, " ".join(ws[:-3])); T(l, p + " " + " ".join(g.r.choice(W) for _ in range(3)))
                T(l, ",".join(ws)); T(l, "".join(ws)); T(l, p.replace(" ", "  ")); T(l, "-".join(ws)); T(l, rep(i, unicodedata.normalize("NFC", ws[i]))); T(l, p.replace(" ", "\\n"))
            ws = phrase(l, g.rb(n))                     # the last word through the dictionary: the checksum in full
            for w in (W if g.thorough else g.r.sample(W, 220 if l == "en" else 90)): T(l, " ".join(ws[:-1] + [w]))
            for i in range(len(ws)):                    # one word at every position off by one bit
                x = ws[:]; x[i] = W[W.index(ws[i]) ^ (1 << g.r.randrange(11))]; T(l, " ".join(x))
            for e in (b"\0" * n, b"\xff" * n): T(l, " ".join(phrase(l, e)))
            # valid phrases that repeat themselves, run through the list, or read the same backwards
            k = n * 3 // 4; found = 0
            def whole(idx): T(l, " ".join(W[i] for i in idx)) if word_check(idx) else None; return word_check(idx)
            order = list(range(2048)); g.r.shuffle(order)
            for i in order:
                found += whole([i] * k)
                if found > g.n(4, 40): break
            for mk in (lambda a, b, c: [(a, b)[j % 2] for j in range(k)], lambda a, b, c: [(a, b, c)[j % 3] for j in range(k)], lambda a, b, c: [a] * (k - 1) + [b], lambda a, b, c: [(a + j) % 2048 for j in range(k)], lambda a, b, c: [(a - j) % 2048 for j in range(k)],
                       lambda a, b, c: [(a, b)[j * 2 // k] for j in range(k)], lambda a, b, c: (lambda h: (h + h[:k // 2][::-1])[:k])([g.r.randrange(2048) for _ in range((k + 1) // 2)]), lambda a, b, c: (lambda h: [a] + h + [a])([g.r.randrange(2048) for _ in range(k - 2)])):
                found = 0
                for _ in range(4000):
                    found += whole(mk(g.r.randrange(2048), g.r.randrange(2048), g.r.randrange(2048)))
                    if found > g.n(1, 8): break
        for c in list(range(0, 50)) + [60, 96, 144, 264, 2064, 5000]:
            T(l, " ".join(g.r.choice(W) for _ in range(c)))
            if c < 50: T(l, " ".join([W[0]] * c)); T(l, " ".join([W[2047]] * c))
            if c > 24 and c < 80:
                e = g.rb(32); T(l, " ".join(phrase(l, e) + [W[0]] * (c - 24))); T(l, " ".join([W[0]] * (c - 24) + phrase(l, e)))
        # phrases of other lengths whose checksum would be right for that length
        for nb in (4, 8, 12, 36, 40, 64):
            e = g.rb(nb); n = nb * 8; cs = n // 32; v = (int.from_bytes(e, "big") << cs) | (int.from_bytes(sha(e), "big") >> (256 - cs)); k = (n + cs) // 11
            T(l, " ".join(W[(v >> (11 * (k - 1 - i))) & 2047] for i in range(k)))
        # as many words too many as a narrow counter can hold
        for n in ENT:
            ws = phrase(l, g.rb2(n)); k = len(ws)
            if n == 16 and (l == "en" or g.thorough): T(l, " ".join(ws + [W[0]] * 65536))
            for m in (256, 512):
                T(l, " ".join(ws + [W[0]] * m)); T(l, " ".join([g.r.choice(W) for _ in range(m)] + ws)); T(l, " ".join(ws[:k // 2] + [W[0]] * m + ws[k // 2:]))
                if m == 256: T(l, " ".join((ws * 100)[:k + m])); T(l, " ".join((ws * 100)[:k * 2])); T(l, " ".join(phrase(l, g.rb(32)) * 11 + ws)); T(l, " ".join(ws + [WORDS[other][5]] * m))
            for j, m in enumerate((1024, 2048, 4096, 8192, 16384, 32768)):
                if g.thorough or (j + n // 4) % 5 == (l == "en"): T(l, " ".join(ws + [W[0]] * m))
            for m in (63, 64, 127, 128): T(l, " ".join(ws + [W[0]] * m)); T(l, " ".join([W[0]] * m + ws))
        for s in STRS: T(l, s)
        ws = phrase(l, g.rb(16)); p = " ".join(ws)      # one odd character, around the phrase and in and around a word
        for s in odd(g, p): T(l, s)
        i = g.r.randrange(12)
        for s in odd(g, ws[i], 2): T(l, " ".join(ws[:i] + [s] + ws[i + 1:]))
    T("en", "\u00a8"); T("en", ""); T("en", " "); T("en", "\u3000"); T("en", "abandon"); T("en", "\u0301")
    return out
def c02(g):
    ts = texts_c02(g)
    g.r.shuffle(ts)
    g.spread([{"op": op, "lang": l, "text": U(s)} for l, s in ts for op in ("mn.phrase", "mn.validate")])

def messy(g, ws):
    return g.r.choice(["", " ", "\t\n"]) + "".join(w + g.r.choice([" ", "  ", "\n", "\u3000", " \t "]) for w in ws[:-1]) + ws[-1] + g.r.choice(["", " ", "\n"])
def c03(g):
    passes = list(PASS) + [s for s in STRS if s]
    for n in (31, 32, 33, 55, 56, 63, 64, 65, 100, 103, 104, 105, 111, 112, 119, 120, 121, 127, 128, 129, 247, 248, 249, 255, 256, 257, 500, 1000, 4090, 5000, 66000):
        s = "".join(g.r.choice("abcdefghij KLMNO") for _ in range(n)); passes += [s, s[:-1] + "!", "!" + s[1:]]
    # long runs of combining marks, in order and out of order (and where a stream-safe text would be broken up)
    marks = [chr(c) for c in (0x301, 0x300, 0x323, 0x327, 0x345, 0x315, 0x1dce, 0x3099, 0x5b0, 0x64b, 0xfb1e, 0x94d, 0xe38, 0x1d165, 0x302a)]
    for n in (2, 5, 17, 29, 30, 31, 32, 33, 40, 63, 64, 65, 100, 130, 300):
        passes += ["a" + "\u0301" * n, "\u0323" * n + "q", "x" + "".join(g.r.choice(marks) for _ in range(n)) + "\u1e69", "\u1e69" + "".join(sorted((g.r.choice(marks) for _ in range(n)), key=unicodedata.combining, reverse=True))]
    passes += ["\u034f" * 3 + "a", "a\u034f\u0301", "\ufdfa" * 3, "\uac01\u11a8", "\u1112\u1161\u11ab", "\u0344" * 12, "\u1fb7\u0323", "\u212b\u2126\u00c5", "\u2000\u3000\u00a0", "\ufeffbom", "nul\0nul", "\u1100" * 40]
    # beyond the sixteen bit characters: every plane in use
    for lo, hi in ((0x10000, 0x100fb), (0x1d400, 0x1d455), (0x1d7ce, 0x1d800), (0x1f300, 0x1f6d5), (0x1f130, 0x1f16a), (0x20000, 0x2a6d7), (0x2a700, 0x2b735), (0x2f800, 0x2fa1e), (0x30000, 0x3134b), (0xe0020, 0xe007f), (0xf0000, 0xffffe), (0x100000, 0x10fffe)):
        for n in (1, 3): passes += ["".join(chr(g.r.randrange(lo, hi)) for _ in range(n)) + g.r.choice(("", "z", "\u4e2d"))]
    passes += list(odd(g, "pa", every=2)) + [c for j, c in enumerate(ODD) if j % 4 == 0]
    evs = []
    for i, p in enumerate(passes * (4 if g.thorough else 1)):
        l = g.lang(); e = g.rb2(g.r.choice(ENT)); ws = phrase(l, e)
        h = [{"op": "mn.entropy", "lang": l, "ent": list(e), "out": 1}, {"op": "mn.phrase", "lang": l, "text": U(messy(g, ws)), "out": 2}, {"op": "mn.clone", "self": {"h": 2}, "out": 3}]
        seq = [{"op": "seed.new", "self": {"h": g.r.choice((1, 2, 3))}, "pass": U(p)}]
        if i % 3 == 0: seq.append({"op": "seed.new", "self": {"h": g.r.choice((1, 2, 3))}, "pass": U(unicodedata.normalize(g.r.choice(["NFC", "NFD", "NFKC", "NFKD"]), p))})
        if i % 5 == 0: seq.append({"op": "seed.new", "self": {"h": 1}, "pass": U(g.r.choice(passes))}); seq.append({"op": "seed.new", "self": {"h": 2}, "pass": U(p)})
        g.add(h + seq)
    order = list(range(2048)); g.r.shuffle(order)
    for i in order[:g.n(2048)]:                    # Chinese words in front and at the end
        e = (i << 117 | g.r.getrandbits(117)).to_bytes(16, "big"); g.add([{"op": "seed.new", "self": {"lit": {"kind": "mn", "lang": "zh", "ent": list(e)}}, "pass": []}])
    for i in range(g.n(60)):
        l = g.lang(); p = "".join(chr(g.r.choice((g.r.randrange(32, 127), g.r.randrange(0xa0, 0x250), g.r.randrange(0x300, 0x370), g.r.randrange(0x3041, 0x3097), g.r.randrange(0xac00, 0xd7a4), g.r.randrange(0xff01, 0xff5f)))) for _ in range(g.r.randrange(1, 40)))
        p = "".join(c for c in p if unicodedata.category(c) != "Cn")
        m = {"kind": "mn", "lang": l, "ent": list(g.rb(g.r.choice(ENT)))}
        g.add([{"op": "seed.new", "self": {"lit": m}, "pass": U(p)}, {"op": "seed.new", "self": {"lit": m}, "pass": U(unicodedata.normalize("NFC", p))}])

def c04(g):
    evs = []; lens(g, "seed", [16, 32, 64, 128])
    for n in list(range(0, 140)) + [160, 192, 200, 255, 256, 257, 272, 288, 320, 384, 400, 512, 528, 640, 1024, 4096]:
        for b in ([g.rb(n), b"\0" * n] + ([b"\xff" * n, bytes(i % 256 for i in range(n)), g.rb(n)] if n in (16, 32, 64, 128) else [])): evs.append({"op": "prv.new", "seed": list(b)})
    for n in (16, 32, 64, 128):
        for _ in range(g.n(150)): evs.append({"op": "prv.new", "seed": list(g.rb2(n))})
        for i in range(8 * n): 
            if i % 7 == 0: evs.append({"op": "prv.new", "seed": list((1 << i).to_bytes(n, "big"))})
    want = {"k0": lambda I: I[0] == 0, "c0": lambda I: I[32] == 0, "kl0": lambda I: I[31] == 0, "cl0": lambda I: I[63] == 0, "kff": lambda I: I[0] == 255, "k00": lambda I: I[0] == 0 and I[1] < 16}
    for f in want.values():
        for _ in range(4):
            n = g.r.choice((16, 32, 64, 128))
            while True:
                s = g.rb(n)
                if f(hm(b"Bitcoin seed", s)): break
            evs.append({"op": "prv.new", "seed": list(s)})
    g.r.shuffle(evs); g.spread(evs)
    for _ in range(g.n(25)):
        m = g.mn()
        g.add([{"op": "seed.new", "self": {"lit": m}, "pass": U(g.r.choice(PASS)), "out": 1}, {"op": "prv.new", "self": {"h": 1}, "out": 2}, {"op": "clone", "self": {"h": 1}, "out": 3}, {"op": "prv.new", "self": {"h": 3}}])

def tree(g, root, depth, hardp=.4, pubs=True):
    """derive a small tree through handles: children, siblings, grandchildren, revisits"""
    evs = [root]; live = [(1, "prv")]; h = 1
    for _ in range(depth):
        if g.r.random() < .35: par = live[-1]
        else: par = g.r.choice(live)
        c = g.r.random()
        if c < .12: h += 1; evs.append({"op": "clone", "self": {"h": par[0]}, "out": h}); live.append((h, par[1]))
        elif c < .28 and par[1] == "prv" and pubs: h += 1; evs.append({"op": "neuter", "self": {"h": par[0]}, "out": h}); live.append((h, "pub"))
        else:
            h += 1
            evs.append({"op": "ckd", "self": {"h": par[0]}, "cn": g.r.choice(g._recent) if hasattr(g, "_recent") and g.r.random() < .4 else g.cn(None if par[1] == "prv" else False if g.r.random() < .9 else True), "out": h})
            g._recent = (getattr(g, "_recent", []) + [evs[-1]["cn"]])[-4:]
            live.append((h, par[1]))
    return evs
def roots(g): return g.r.choice([{"op": "prv.new", "seed": g.seedb(), "out": 1}, {"op": "clone", "self": g.lit(g.prv(g.r.randrange(0, 250))), "out": 1}])
def rare_children(g, count):
    """parents and child numbers whose HMAC or child key has leading/trailing zero bytes, carries, ..."""
    out = []
    tests = [lambda I, k: k[0] == 0, lambda I, k: I[0] == 0, lambda I, k: I[32] == 0, lambda I, k: k[31] == 0, lambda I, k: I[31] == 0, lambda I, k: I[63] == 0, lambda I, k: k[0] == 255, lambda I, k: k[0] == 0 and k[1] < 32,
             lambda I, k: I[0] == 255 and I[32] == 255, lambda I, k: k[0] >= 128 and k[31] == 0]
    for t in tests:
        for _ in range(count):
            x = g.prv(g.r.randrange(0, 255)); kb = bytes(x["key"]); kk = int.from_bytes(kb, "big")
            hard = g.r.random() < .5
            pre = (b"\0" + kb) if hard else pub(kk)
            i = g.r.randrange(2**30)
            while True:
                cnb = (i | (2**31 if hard else 0)).to_bytes(4, "big")
                I = hm(bytes(x["chain"]), pre + cnb); il = int.from_bytes(I[:32], "big")
                if t(I, ((il + kk) % N).to_bytes(32, "big")): break
                i += 1
            out.append((x, list(cnb)))
    return out
def c05(g):
    evs = []
    for x, c in rare_children(g, g.n(3, 12)): g.add([{"op": "ckd", "self": g.lit(x), "cn": c, "out": 1}, {"op": "ckd", "self": {"h": 1}, "cn": g.cn()}])
    for c in g.allcns(): evs.append({"op": "ckd", "self": g.lit(g.prv(g.r.randrange(255))), "cn": c})
    for _ in range(g.n(900)): evs.append({"op": "ckd", "self": g.lit(g.prv()), "cn": g.cn()})
    for d in range(255): evs.append({"op": "ckd", "self": g.lit(g.prv(d)), "cn": g.cn()})
    for k in g.RARE:
        for v in (k, N - k):
            for h in (False, True): evs.append({"op": "ckd", "self": g.lit({**g.prv(g.r.randrange(255)), "key": list(v.to_bytes(32, "big"))}), "cn": g.cn(h)})
    g.r.shuffle(evs); g.spread(evs)
    for _ in range(g.n(40)): g.add(tree(g, roots(g), 20, pubs=False), "t")
    # one parent, many children in a row and again: hidden state must not matter
    for _ in range(g.n(6)):
        x = g.prv(3); y = g.prv(3); cs = [g.cn() for _ in range(6)]
        evs = [{"op": "clone", "self": g.lit(x), "out": 1}, {"op": "clone", "self": g.lit(y), "out": 2}]
        for c in cs + cs[::-1]: evs += [{"op": "ckd", "self": {"h": 1}, "cn": c}, {"op": "ckd", "self": {"h": 2}, "cn": c}]
        y2 = dict(x); y2["chain"] = y["chain"]; y3 = dict(x); y3["key"] = y["key"]
        for c in cs: evs += [{"op": "ckd", "self": g.lit(q), "cn": c} for q in (x, y2, y3)]
        g.add(evs)

def c06(g):
    evs = []
    for x, c in rare_children(g, g.n(2, 8)): evs.append({"op": "commute", "self": g.lit(x), "path": [[c[0] & 127] + c[1:]]})
    for c in g.allcns(): evs.append({"op": "commute", "self": g.lit(g.prv(g.r.randrange(255))), "path": [c]}) if c[0] < 128 or g.r.random() < .3 else None
    for c in g.allcns():
        if c[0] >= 128: evs.append({"op": "ckd", "self": g.lit(g.pub()), "cn": c})
    for d in range(256): evs.append({"op": "commute", "self": g.lit(g.prv(d)), "path": [g.cn(False)]})
    for _ in range(g.n(250)): evs.append({"op": "commute", "self": g.lit(g.prv()), "path": [g.cn(False)], "bypath": g.r.random() < .5})
    for _ in range(g.n(120)):
        p = [g.cn(False) for _ in range(g.r.randrange(2, 7))]
        if g.r.random() < .15: p[g.r.randrange(len(p))] = g.cn(True)
        evs.append({"op": "commute", "self": g.lit(g.prv()), "path": p})
    for _ in range(g.n(60)): evs.append({"op": "neuter", "self": g.lit(g.prv())})
    for k in g.RARE:
        for v in (k, N - k): evs.append({"op": "commute", "self": g.lit({**g.prv(g.r.randrange(255)), "key": list(v.to_bytes(32, "big"))}), "path": [g.cn(False)]})
    for _ in range(g.n(60)): evs.append({"op": "ckd", "self": g.lit(g.pub()), "cn": g.cn(True)})
    for _ in range(g.n(30)):
        p = [g.cn(False) for _ in range(g.r.randrange(0, 5))] + [g.cn(True)] + [g.cn(False) for _ in range(g.r.randrange(0, 3))]
        evs.append({"op": "path.derive", "self": g.lit(g.pub(g.r.randrange(200))), "path": p, "mk": g.r.choice(["push", "extend", "parse"]), "cuts": []})
    g.r.shuffle(evs); g.spread(evs)
    for _ in range(g.n(25)):
        t = tree(g, roots(g), 10); more = []
        hs = [e["out"] for e in t if e["op"] in ("prv.new",) or (e["op"] == "ckd")]
        for h in range(1, len(t) + 1):
            pass
        kinds = {1: "prv"}
        for e in t[1:]: kinds[e["out"]] = "pub" if e["op"] == "neuter" else kinds[e["self"]["h"]]
        for h, k in kinds.items():
            if k == "prv": more.append({"op": "commute", "self": {"h": h}, "path": [g.cn(False)]})
            else: more.append({"op": "ckd", "self": {"h": h}, "cn": g.cn(True)})
        g.add(t + more, "t")

def path(g, n, hard=None):
    p = [g.cn(hard) for _ in range(n)]
    if n in (3, 4, 5, 6) and g.r.random() < .3:          # the customary shapes: purpose', coin', account', change, index
        p = [list((v % 2**31 | (2**31 if (i < 3 if hard is None else hard) else 0)).to_bytes(4, "big")) for i, v in enumerate([g.r.choice((44, 48, 49, 84, 86)), g.r.choice((0, 1, 2, 60, 196, 501)), g.r.choice((0, 1, 7)), g.r.choice((0, 1, 2, 2**31 - 1)), g.index(), g.index()][:n])]
        if g.r.random() < .3: i = g.r.randrange(n); p[i] = g.cn(hard)
    return p
def cuts(g, n): return sorted(g.r.randrange(n + 1) for _ in range(g.r.randrange(0, 4)))
def c07(g):
    evs = []
    D = lambda p, **kw: evs.append({"op": "path.derive", "path": p, "mk": g.r.choice(["push", "extend", "parse"]), "cuts": cuts(g, len(p)), **kw})
    for n in list(range(0, 14)) * 2:
        D(path(g, n), seed=g.seedb()); D(path(g, n), self=g.lit(g.prv(g.r.randrange(200)))); D(path(g, n, False), self=g.lit(g.pub(g.r.randrange(200)))); D(path(g, n), self=g.lit(g.prv()))
    for n in (20, 50, 127, 128, 254, 255, 256, 257, 300) if g.thorough else (20, 128, 255, 256, 257):
        D(path(g, n), seed=g.seedb()); D(path(g, n, False), self=g.lit(g.pub(0)))
    for d in (0, 1, 2, 5, 31, 54, 55, 63, 100, 127, 128, 191, 200):   # long ones from anywhere, up to the limit
        for n in {255 - d, 256 - d, (255 - d) // 2, g.r.randrange(1, 255 - d)}: D(path(g, n), self=g.lit(g.prv(d))); D(path(g, n, False), self=g.lit(g.pub(d)))
    for d in (250, 251, 252, 253, 254, 255):
        for n in range(0, 7): D(path(g, n), self=g.lit(g.prv(d))); D(path(g, n, False), self=g.lit(g.pub(d)))
    for c in g.allcns()[::3]: D(path(g, g.r.randrange(3)) + [c] + path(g, g.r.randrange(2)), seed=g.seedb())
    for _ in range(g.n(180)): D(path(g, g.r.randrange(1, 9)), seed=g.seedb())
    for _ in range(g.n(120)): D(path(g, g.r.randrange(1, 7)), self=g.lit(g.prv()))
    for _ in range(g.n(90)): D(path(g, g.r.randrange(1, 6), False), self=g.lit(g.pub()))
    for _ in range(g.n(30)): p = path(g, g.r.randrange(1, 6), False); p[g.r.randrange(len(p))] = g.cn(True); D(p, self=g.lit(g.pub()))
    for n in (0, 1, 15, 17, 31, 33, 63, 65, 127, 129): D(path(g, g.r.randrange(3)), seed=list(g.rb(n)))
    be = lambda v: list(v.to_bytes(4, "big")); H = 2**31
    for pur in (44, 48, 49, 84, 86, 45, 0):              # the customary shapes, from masters and from accounts
        for coin in (0, 1, 2, 60, 501):
            acct, chg, idx = g.r.choice((0, 1, 2, 99)), g.r.choice((0, 1, 2, 3, g.index() % H)), g.r.choice((0, 1, 19, 20, 999, g.index() % H))
            full = [be(pur + H), be(coin + H), be(acct + H), be(chg), be(idx)]
            D(full, seed=g.seedb()); D(full, self=g.lit(g.prv(0))); D(full[:3] + [be(g.r.choice((2, 3, 7))), be(idx)], self=g.lit(g.prv(0))); D(full[:g.r.choice((1, 2, 3, 4))], seed=g.seedb())
            if pur == 44: D(full[:3] + [be(idx + H)], seed=g.seedb()); D(full[:3] + [be(chg + H), be(idx + H)], seed=g.seedb())
            D(full[3:], self=g.lit(g.prv(3))); D(full[3:], self=g.lit(g.pub(3)))
    # repeated, equal and mirrored steps
    for _ in range(g.n(15)):
        c = g.cn(); d = g.cn()
        for p in ([c, c], [c, d, c], [d, c, d, c], [c] * 5, [c, d], [d, c]): D(p, seed=g.seedb())
    for v in (0, 1, 2, 255, 256, 65535, 2**31 - 2, 2**31 - 1):
        for h in (0, 2**31):
            c = list((v | h).to_bytes(4, "big")); d = list((v | (2**31 - h)).to_bytes(4, "big")); e = g.cn()
            for p in ([c], [c, c], [c, c, c], [c, d], [d, c, c], [c, e, c], [e, c, c, e]):
                D(p, seed=g.seedb()); D(p, self=g.lit(g.prv(g.r.randrange(200))))
                if not any(x[0] > 127 for x in p): D(p, self=g.lit(g.pub(g.r.randrange(200))))
    g.r.shuffle(evs); g.spread(evs, 20)
    for _ in range(g.n(20)):
        m = g.mn(); p = path(g, g.r.randrange(0, 6))
        ev = {"op": "path.derive", "path": p, "mk": "parse", "cuts": cuts(g, len(p))}
        g.add([{"op": "seed.new", "self": {"lit": m}, "pass": [], "out": 1}, {**ev, "self": {"h": 1}, "out": 2}, {**ev, "self": {"h": 2}, "out": 3}, {**ev, "self": {"h": 1}}, {**ev, "self": {"h": 3}, "path": p[::-1], "cuts": []}])

def c08(g):
    evs = []
    for d in range(256):
        evs += [{"op": "ckd", "self": g.lit(g.prv(d)), "cn": g.cn()}, {"op": "ckd", "self": g.lit(g.prv(d)), "cn": g.cn()}, {"op": "ckd", "self": g.lit(g.pub(d)), "cn": g.cn(False)}]
    for c in g.allcns():
        evs.append({"op": "ckd", "self": g.lit(g.prv()), "cn": c})
        if c[0] < 128: evs.append({"op": "ckd", "self": g.lit(g.pub()), "cn": c})
    for _ in range(40): evs += [{"op": "ckd", "self": g.lit(g.prv(255)), "cn": g.cn()}, {"op": "ckd", "self": g.lit(g.pub(255)), "cn": g.cn()}]
    for _ in range(g.n(300)): evs += [{"op": "ckd", "self": g.lit(g.prv()), "cn": g.cn()}, {"op": "ckd", "self": g.lit(g.pub()), "cn": g.cn(False)}, {"op": "fp", "self": g.lit(g.pub())}]
    for x, c in rare_children(g, 1): evs.append({"op": "ckd", "self": g.lit(x), "cn": c})
    # fingerprints with leading zero bytes
    for t in range(3):
        k = g.r.randrange(1, N); q = mulg(k)
        import hashlib
        while True:
            f = hashlib.new("ripemd160", sha(ser(q))).digest() if "ripemd160" in hashlib.algorithms_available else None
            if f is None or f[t] == 0: break
            k += 1; q = padd(q, G)
        x = g.prv(5); x["key"] = list((k % N).to_bytes(32, "big")); evs.append({"op": "ckd", "self": g.lit(x), "cn": g.cn()})
        y = g.pub(5); y["key"] = list(ser(q)); evs += [{"op": "ckd", "self": g.lit(y), "cn": g.cn(False)}, {"op": "fp", "self": g.lit(y)}]
    g.r.shuffle(evs); g.spread(evs)
    for _ in range(g.n(30)): g.add(tree(g, roots(g), 20), "t")
    for start in (0, 200, 250): # walk up to the cap and beyond
        x = g.prv(start); h = 1; e = [{"op": "clone", "self": g.lit(x), "out": 1}]
        for i in range(start, 258): e.append({"op": "ckd", "self": {"h": h}, "cn": g.cn(), "out": h + 1 if i < 255 else 999}); h = h + 1 if i < 255 else h
        g.add(e, "walk")
        y = g.pub(start); h = 1; e = [{"op": "clone", "self": g.lit(y), "out": 1}]
        for i in range(start, 258): e.append({"op": "ckd", "self": {"h": h}, "cn": g.cn(False), "out": h + 1 if i < 255 else 999}); h = h + 1 if i < 255 else h
        if start: g.add(e, "walk")
    for n in (254, 255, 256, 257, 260, 511, 512): g.add([{"op": "path.derive", "self": g.lit(g.prv(0)), "path": path(g, n), "mk": "push", "cuts": []}])

def c09(g):
    evs = []
    CP = lambda s: evs.append({"op": "cn.parse", "text": U(s)})
    PP = lambda s: evs.append({"op": "path.parse", "text": U(s)})
    nums = sorted({v % 2**31 for v in g.POOL} | {v % 2**31 for v in INTS})
    over = [2**31, 2**31 + 1, 2**31 + 44, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + 44, 2**33, 2**63, 2**64 - 1, 2**64, 2**64 + 5, 2**65, 10**20, 10**30, 4294967340, 2147483648, 9999999999, 3000000000]
    for v in nums + over:
        s = str(v)
        for t in (s, s + "'", "0" + s, "000000000000" + s + "'", s + "''", s + "h", s + "H", "-" + s, s + "\u2019", " " + s, s + " ", "'" + s, s + "' ", s + " '", s + "'0", "+" + s, "+" + s + "'", s + ".0", s + "_0", "0x" + s, s + "u32"):
            CP(t)
            if g.r.random() < .5: PP("m/" + t)
            if g.r.random() < .2: PP("m/" + t + "/" + s); PP("m/0/" + t)
    for t in ["", "'", "''", "h", "-", "+", "+'", "-0", "-0'", "-1", "0", "00", "0'", "\u0661", "\uff11", "\u00b2", "1e3", "1,000", "1_000", "0b1", "0o7", "0xff", "NaN", "\0", "1\0", "a", "1a", "a1", "\u2032", "1\u2032", "1`", "1\"", "\ud7ff", "*", "m", "/", "1/", "/1"] + STRS: CP(t); PP(t); PP("m/" + t); PP("m" + t)
    for t in ["m", "M", "m/", "/m", "m//", "m//0", "m/0/", "m/0//1", "m/m", "m m", " m", "m ", "M/0", "mm/0", "n/0", "/0", "0", "0/1", "m/0'/1/2'/2/1000000000", "m/44'/60'/0'/0/0", "m/0h", "m/0H", "m/0''", "m/'", "m/0'/", "m\\0", "m/0\\1", "m/ 0", "m/0 ", "m/0/ 1", "m.0", "m/0.1", "\u006d/0", "\uff4d/0", "m\u0301/0", "m/\u0660", "m\u20440", "m/0\n", "\nm/0", "m/0/m", "m/0'/m/1", "./m", "xm/0", "m/0?x", "m/*", "m/**", "m/1-2", "m/<0;1>/0", "m/0;1", "m:0", "", "/", "//", "m/2147483648'", "m/2147483647'", "m/4294967295"]: PP(t)
    for s in odd(g, "44"): CP(s)
    for s in odd(g, "7'"): CP(s)
    for s in odd(g, "m/44'/0"): PP(s)
    for c in ODD: PP("m" + c + "0"); PP("m/1" + c + "2")
    for _ in range(g.n(500)):
        n = g.r.randrange(1, 8); s = "m" + "".join("/" + ("0" * g.r.choice((0, 0, 0, 1, 3))) + str(g.index()) + g.r.choice(["", "'"]) for _ in range(n))
        PP(s)
        i = g.r.randrange(len(s)); c = g.r.choice("0123456789'/m+-h Hx.\u0661\u2019,_M\\")
        PP(s[:i] + c + s[i:]); PP(s[:i] + c + s[i + 1:]); PP(s[:i] + s[i + 1:])
    for c in g.allcns(): evs.append({"op": "cn.show", "cn": c})
    for _ in range(g.n(200)): evs.append({"op": "cn.show", "cn": g.cn()})
    for c in g.allcns(): evs.append({"op": "cn.new", "raw": c, "hard": g.r.random() < .5}); 
    for v in (0, 1, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1): evs += [{"op": "cn.new", "raw": list(v.to_bytes(4, "big")), "hard": h} for h in (True, False)]
    for n in list(range(0, 12)) * 6 + [50, 255, 256, 300, 1000]: evs.append({"op": "path.show", "path": path(g, n), "mk": g.r.choice(["push", "extend", "parse"])})
    for c in g.allcns()[::4]: evs.append({"op": "path.show", "path": path(g, g.r.randrange(3)) + [c], "mk": g.r.choice(["push", "extend", "parse"])})
    PP("m" + "/0" * 5000); PP("m" + "/2147483647'" * 300); CP("0" * 5000 + "7"); CP("9" * 5000)
    g.r.shuffle(evs); g.spread(evs, 60)

def c10(g):
    evs = []
    def both(x, y):
        for s in (g.r.sample(PRVS, 5) if not g.thorough else PRVS): evs.append({"op": "export", "self": g.lit(x), "std": s})
        for s in (g.r.sample(PUBS, 5) if not g.thorough else PUBS): evs.append({"op": "export", "self": g.lit(y), "std": s})
    for d in range(256):
        evs.append({"op": "export", "self": g.lit(g.prv(d)), "std": g.r.choice(PRVS)}); evs.append({"op": "export", "self": g.lit(g.pub(d)), "std": g.r.choice(PUBS)})
    for _ in range(g.n(45)): both(g.prv(), g.pub())
    for c in g.allcns()[::2]: x = g.prv(7); x["cn"] = c; y = g.pub(7); y["cn"] = c; evs += [{"op": "export", "self": g.lit(x), "std": g.r.choice(PRVS)}, {"op": "export", "self": g.lit(y), "std": g.r.choice(PUBS)}]
    for f in ("chain", "fp", "key", "cn"):
        for b in (0, 255):
            x = g.prv(9); x[f] = [b] * len(x[f])
            if f != "key": evs.append({"op": "export", "self": g.lit(x), "std": g.r.choice(PRVS)})
            y = g.pub(9); y[f] = [b] * len(y[f])
            if f != "key": evs.append({"op": "export", "self": g.lit(y), "std": g.r.choice(PUBS)})
    x0 = g.prv(0); x0.update(fp=[0] * 4, cn=[0] * 4, chain=[0] * 32, key=[0] * 31 + [1]); xf = g.prv(255); xf.update(fp=[255] * 4, cn=[255] * 4, chain=[255] * 32, key=list((N - 1).to_bytes(32, "big")))
    for s in PRVS: evs += [{"op": "export", "self": g.lit(x0), "std": s}, {"op": "export", "self": g.lit(xf), "std": s}]
    # checksums with leading/trailing zero bytes, every first checksum byte value
    want = {("f", i) for i in range(0, 256, 8)} | {("z", i) for i in range(4)}
    while want:
        x = g.prv(g.r.randrange(1, 256)); s = g.r.choice(PRVS)
        p = payload(STD[s][1], x["depth"], bytes(x["fp"]), bytes(x["cn"]), bytes(x["chain"]), b"\0" + bytes(x["key"])); c = sha(sha(p))[:4]
        hit = ({("f", c[0])} | {("z", i) for i in range(4) if c[i] == 0}) & want
        if hit: want -= hit; evs.append({"op": "export", "self": g.lit(x), "std": s})
    # import of valid text made elsewhere, and struct to key without text
    for _ in range(g.n(120)):
        x, y = g.prv(), g.pub()
        for k, o in ((PRVS, x), (PUBS, y)):
            s = g.r.choice(k); kf = (b"\0" if o["kind"] == "prv" else b"") + bytes(o["key"])
            t = b58c(payload(STD[s][1], o["depth"], bytes(o["fp"]), bytes(o["cn"]), bytes(o["chain"]), kf))
            evs.append({"op": "import", "as": o["kind"], "text": U(t)})
            if g.r.random() < .3: evs.append({"op": "import", "as": "ek", "text": U(t)})
            if g.r.random() < .5: evs.append({"op": "ek.into", "as": o["kind"], "self": g.lit({**o, "kind": "ek", "std": s, "key": list(kf)})})
            if g.r.random() < .5: evs.append({"op": "ek.show", "self": g.lit({**o, "kind": "ek", "std": s, "key": list(kf)})})
    g.r.shuffle(evs); g.spread(evs)
    for _ in range(g.n(15)):
        t = tree(g, roots(g), 8); kinds = {1: "prv"}
        for e in t[1:]: kinds[e["out"]] = "pub" if e["op"] == "neuter" else kinds[e["self"]["h"]]
        g.add(t + [{"op": "export", "self": {"h": h}, "std": g.r.choice(PRVS if k == "prv" else PUBS)} for h, k in kinds.items()], "t")

def c11_texts(g, deep):
    out = []
    for base in range(g.n(10, 40)):
        prv = base % 2 == 0
        o = g.prv() if prv else g.pub()
        if base < 2 or o["depth"] == 0: o = {**o, "depth": 0 if base < 4 else 3, "fp": [0] * 4, "cn": [0] * 4}
        s = g.r.choice(PRVS if prv else PUBS); ver = STD[s][1]
        kf = (b"\0" if prv else b"") + bytes(o["key"])
        D, F, C, H = o["depth"], bytes(o["fp"]), bytes(o["cn"]), bytes(o["chain"])
        p = payload(ver, D, F, C, H, kf); t = b58c(p)
        A = lambda x: out.append(x)
        A(t)
        for i in (range(len(t)) if deep or base < 3 else sorted(g.r.sample(range(len(t)), 25))):
            c = g.r.choice(A58); A(t[:i] + c + t[i + 1:])
            if base < 2: A(t[:i] + g.r.choice("0OIl \n+/=\u00e9") + t[i + 1:]); A(t[:i] + t[i + 1:]); A(t[:i] + t[i].swapcase() + t[i + 1:])
            if base < 1: A(t[:i]); A(t[i:]); A(t[:i] + "1" + t[i:])
        for _ in range(8): i = g.r.randrange(len(t) - 1); A(t[:i] + t[i + 1] + t[i] + t[i + 2:])
        for x in (" " + t, t + " ", t + "\n", "\t" + t, t + "\0", "1" + t, t + "1", t + t, t.upper(), t.lower(), t[:-1], t[1:], "", "x", "xprv", t[:4], t + "\u00e9", "\u00e9" + t[1:], t[:3] + "\u00e9" + t[4:], "\u2603" + t, t[::-1], "11" + t, t[:50] + "\n" + t[50:], t[:3] + "\u4f60" + t[4:], "'" + t + "'", t + "=", "bitcoin:" + t): A(x)
        for x in (t[:4].upper() + t[4:], t[:4].title() + t[4:], t[:1].upper() + t[1:], t[:1] + t[1:4].upper() + t[4:], t[:4] + t[4:].upper(), t[:4] + t[4:].lower()): A(x)
        if base in (4, 5): out += odd(g, t)
        # right checksum, wrong content
        for i in range(8 * 78) if deep else g.r.sample(range(8 * 78), 60):
            q = bytearray(p); q[i // 8] ^= 1 << (i % 8); A(b58c(bytes(q)))
        for (_, v) in STD: A(b58c(payload(v, D, F, C, H, kf)))
        for v in (0, 1, ver + 1, ver - 1, ver + 256, ver ^ 0x80000000, 0xffffffff, 0x0488b21d, 0x0488b21f, 0x049d7878 + 1, 0x02aa7a99, 0x0295b005, 0x019da462, 0x019d9cfe, 0x0488b000, 0x04000000, int.from_bytes(t[:4].encode(), "big")): A(b58c(payload(v & 0xffffffff, D, F, C, H, kf)))
        for _ in range(6): A(b58c(payload(g.r.getrandbits(32), D, F, C, H, kf)))
        for kb in range(256) if base < 2 or deep else list(range(9)) + [0x10, 0x22, 0x42, 0x7f, 0x80, 0x81, 0x82, 0x83, 0xfd, 0xfe, 0xff]: A(b58c(payload(ver, D, F, C, H, bytes([kb]) + kf[1:])))
        for v in ((0, N, N + 1, N + 2, 2**256 - 1, P, N - 1, 1, 2**255, N + 2**64, 2**256 - 2**32, *(2**256 - 2**b + g.r.getrandbits(b) for b in (32, 64, 96, 120, 127, 128)), N + g.r.getrandbits(64), N + g.r.getrandbits(120), 2**256 - 2**128 + g.r.getrandbits(128)) if prv else (0, 5, P, P + 1, P + 7, 2**256 - 1, 1, 2, 3, 7, 9, N)):
            for tag in ((0,) if prv else (2, 3)): A(b58c(payload(ver, D, F, C, H, bytes([tag]) + v.to_bytes(32, "big"))))
        if not prv:
            for _ in range(6): x = g.r.randrange(P); A(b58c(payload(ver, D, F, C, H, bytes([g.r.choice((2, 3))]) + x.to_bytes(32, "big"))))
            x = 1
            for _ in range(4):
                x = g.r.randrange(P)
                while on_curve_x(x): x += 1
                A(b58c(payload(ver, D, F, C, H, bytes([g.r.choice((2, 3))]) + x.to_bytes(32, "big"))))
        else: A(b58c(payload(ver, D, F, C, H, g.point())))
        A(b58c(payload(ver, D, F, C, H, g.point() if prv else b"\0" + g.key())))
        # depth zero with lineage
        for f, c in ((b"\0\0\0\1", b"\0\0\0\0"), (b"\0\0\0\0", b"\0\0\0\1"), (b"\1\0\0\0", b"\0\0\0\0"), (b"\0\0\0\0", b"\x80\0\0\0"), (b"\xff\xff\xff\xff", b"\xff\xff\xff\xff"), (g.rb(4), b"\0" * 4), (b"\0" * 4, g.rb(4)), (b"\0\0\0\0", b"\0\0\0\0")): A(b58c(payload(ver, 0, f, c, H, kf)))
        # other lengths, with right checksum
        for n in (0, 1, 4, 45, 65, 70, 73, 74, 76, 77): A(b58c(p[:n]))
        for n in (1, 2, 4, 5, 10, 33): A(b58c(p + b"\0" * n)); A(b58c(p + g.rb(n))); A(b58c(b"\0" * n + p)); A(b58c(p[:4] + b"\0" * n + p[4:]))
        A(b58(p)); A(b58(p + sha(p)[:4])); A(b58(p + b"\0\0\0\0")); A(b58(p + sha(sha(p))[:3])); A(b58(p + sha(sha(p))[:5])); A(b58(p + sha(sha(p))[:4][::-1])); A(b58(p + sha(sha(p))[4:8])); A(b58(p + sha(sha(p))[:4] + b"\0")); A(b58(p + sha(sha(p))[:2] + b"\0\0"))
        for i in range(32): c = bytearray(sha(sha(p))[:4]); c[i // 8] ^= 1 << (i % 8); A(b58(p + bytes(c)))
        A(p.hex()); A((p + sha(sha(p))[:4]).hex())
    for i, (nm, v) in enumerate(STD):                   # a good text under each standard version, its letters changed
        for _ in range(g.n(2)):
            o = g.prv() if i in PRVS else g.pub(); o = o if o["depth"] else {**o, "fp": [0] * 4, "cn": [0] * 4}
            t = b58c(payload(v, o["depth"], bytes(o["fp"]), bytes(o["cn"]), bytes(o["chain"]), (b"\0" if i in PRVS else b"") + bytes(o["key"])))
            out += ["".join(c.upper() if k >> j & 1 else c.lower() for j, c in enumerate(t[:4])) + t[4:] for k in range(16)] + [m + t[4:] for m, _ in STD] + [t[0] + m[1:] + t[4:] for m, _ in STD]
    for n in (1, 10, 110, 111, 112, 113, 120, 200, 1000): out += ["1" * n, "z" * n, "".join(g.r.choice(A58) for _ in range(n)), "xprv" + "".join(g.r.choice(A58) for _ in range(n))]
    out += [s for s in STRS] + ["\u00e9", "\u4f60\u597d", "\U0001f600", "\0", "xpr\u00e9"]
    return out
def c11(g):
    evs = []
    for t in c11_texts(g, g.thorough):
        evs.append({"op": "import", "as": "prv", "text": U(t)}); evs.append({"op": "import", "as": "pub", "text": U(t)})
        if g.r.random() < .3: evs.append({"op": "import", "as": "ek", "text": U(t)})
    for kb in range(256):                               # every first byte, before a body fit for either kind
        k = bytes([kb]) + g.point()[1:]
        for a in ("prv", "pub"): evs.append({"op": "ek.into", "as": a, "self": g.lit({"kind": "ek", "std": (PRVS if a == "prv" else PUBS)[kb % 4], **g.attrs(), "key": list(k)})})
    for _ in range(g.n(100)):
        s = g.r.randrange(8); k = g.r.choice([b"\0" + g.key(), g.point(), bytes([g.r.randrange(256)]) + g.rb2(32), b"\0" + g.r.choice([0, N, N + 1, 2**256 - 1]).to_bytes(32, "big"), bytes([g.r.choice((1, 2, 3, 4))]) + g.key()])
        for a in ("prv", "pub"): evs.append({"op": "ek.into", "as": a, "self": g.lit({"kind": "ek", "std": s, **g.attrs(), "key": list(k)})})
    g.r.shuffle(evs); g.spread(evs, 60)

def c12(g):
    evs = []
    def flip(o, f, i):
        q = json.loads(json.dumps(o))
        if f == "depth": q["depth"] ^= 1 << i
        else: q[f][i // 8] ^= 1 << (7 - i % 8)
        return q
    EQ = lambda a, b: evs.append({"op": "eq", "a": g.lit(a), "b": g.lit(b)})
    for rep in range(g.n(2, 6)):
        x = {**g.prv(5), "key": list((g.r.randrange(2**200, N // 2)).to_bytes(32, "big"))}; y = g.pub(5)
        EQ(x, x); EQ(y, y)
        for f, n in (("key", 256), ("chain", 256), ("depth", 8), ("fp", 32), ("cn", 32)):
            for i in range(n):
                if f == "key":
                    a = flip(x, f, i)
                    if 0 < int.from_bytes(bytes(a["key"]), "big") < N: EQ(x, a)
                else: EQ(x, flip(x, f, i)); EQ(y, flip(y, f, i))
        z = dict(y); z["key"] = [y["key"][0] ^ 1] + y["key"][1:]; EQ(y, z); EQ(z, y)
        for _ in range(30): z = dict(y); z["key"] = list(g.point()); EQ(y, z)
    # two bits at once: differences that add up or cancel out in a digest of the fields
    L = {"depth": 8, "fp": 32, "cn": 32, "chain": 256}
    x = {**g.prv(5), "key": list((g.r.randrange(2**200, N // 2)).to_bytes(32, "big"))}; y = g.pub(5)
    two = [(f, i, h, j) for f, n in L.items() for h, m in L.items() if f <= h for i in range(n) for j in range(m) if (f, i) < (h, j)]
    same = [t for t in two if t[1] % 8 == t[3] % 8]; few = [t for t in two if L[t[0]] + L[t[2]] < 100]
    for f, i, h, j in g.r.sample(same, g.n(400)) + g.r.sample(few, g.n(700)) + g.r.sample(two, g.n(200)) + [("chain", i * 8, "chain", j * 8) for i in range(32) for j in range(i + 1, 32) if (i + j) % 3 == 0 or j == i + 1]:
        z = x if g.r.random() < .7 else y; EQ(z, flip(flip(z, f, i), h, j))
    for _ in range(g.n(60)):
        x, y = g.prv(), g.prv(); EQ(x, y)
        # several fields at once, in ways that could cancel out
        z = json.loads(json.dumps(x)); i = g.r.randrange(4); v = 1 << g.r.randrange(8); z["fp"][i] ^= v; z["cn"][i] ^= v; EQ(x, z)
        z = json.loads(json.dumps(x)); z["fp"], z["cn"] = z["cn"], z["fp"]; EQ(x, z)
        z = json.loads(json.dumps(x)); i, j = g.r.randrange(32), g.r.randrange(32); z["chain"][i], z["chain"][j] = z["chain"][j], z["chain"][i]; EQ(x, z)
        z = json.loads(json.dumps(x)); i = g.r.randrange(32); z["chain"][i] ^= v; z["depth"] ^= v; EQ(x, z)
        z = json.loads(json.dumps(x)); z["key"], z["chain"] = (z["chain"], z["key"]) if 0 < int.from_bytes(bytes(z["chain"]), "big") < N else (z["key"], z["chain"]); EQ(x, z)
        z = json.loads(json.dumps(x)); z["key"] = list((N - int.from_bytes(bytes(x["key"]), "big")).to_bytes(32, "big")); EQ(x, z)
        z = json.loads(json.dumps(x)); z["chain"] = z["chain"][::-1]; EQ(x, z)
        z = json.loads(json.dumps(x)); z["cn"][0] ^= 128; EQ(x, z)
        z = {**y, "key": x["key"]}; EQ(x, z); z = {**x, "key": y["key"]}; EQ(x, z)
        p, q = g.pub(), g.pub(); EQ(p, q); EQ(p, {**q, "key": p["key"]}); EQ(p, {**p, "key": q["key"]})
    g.r.shuffle(evs); g.spread(evs, 60)
    # equal and unequal keys of different provenance
    for _ in range(g.n(25)):
        s = g.seedb(); cs = path(g, 3); e = [{"op": "prv.new", "seed": s, "out": 1}]
        for i, c in enumerate(cs): e.append({"op": "ckd", "self": {"h": i + 1}, "cn": c, "out": i + 2})
        e += [{"op": "path.derive", "seed": s, "path": cs, "mk": "parse", "cuts": [], "out": 10}, {"op": "clone", "self": {"h": 4}, "out": 11}, {"op": "path.derive", "self": {"h": 2}, "path": cs[1:], "mk": "push", "cuts": [], "out": 12}]
        ls = [1, 2, 3, 4, 10, 11, 12]
        e += [{"op": "eq", "a": {"h": a}, "b": {"h": b}} for a in ls for b in ls]
        for i, h in enumerate(ls): e.append({"op": "neuter", "self": {"h": h}, "out": 20 + i})
        ps = [20 + i for i in range(len(ls))]
        if cs[2][0] < 128: e.append({"op": "ckd", "self": {"h": 22}, "cn": cs[2], "out": 40}); ps.append(40)
        e += [{"op": "eq", "a": {"h": a}, "b": {"h": b}} for a in ps for b in ps]
        g.add(e, "p")

def c13(g):
    evs = []; B = lambda v: list((v % 2**256).to_bytes(32, "big"))
    edge = [0, 1, 2, 3, N - 2, N - 1, N, N + 1, N + 2, N // 2, N // 2 + 1, 2**255, 2**256 - 1, 2**256 - 2, P - 1, P, P + 1, 2**128, N + 2**64, N - 2**64, N ^ 1, N ^ 2**255, N + 2**128, 2**256 - 2**128]
    edge += [1 << i for i in range(0, 256, 5)] + [N - (1 << i) for i in range(0, 120, 7)] + [N + (1 << i) for i in range(0, 120, 7)]
    for v in edge: evs.append({"op": "sk.from", "key": B(v)})
    # values that differ from n in a single limb or byte
    nb = N.to_bytes(32, "big")
    for i in range(32):
        for d in (-1, 1):
            q = bytearray(nb); q[i] = (q[i] + d) % 256; evs.append({"op": "sk.from", "key": list(q)}); k = g.key(); evs.append({"op": "sk.tweak", "key": list(k), "t": list(q)}); evs.append({"op": "pk.tweak", "key": list(g.point()), "t": list(q)})
    for v in edge:
        k = g.scalar() % N or 1
        evs.append({"op": "sk.tweak", "key": B(k), "t": B(v)}); evs.append({"op": "pk.tweak", "key": list(g.point()), "t": B(v)})
        if 0 < v < N:
            for t in (N - v, N - v + 1, N - v - 1, v): evs.append({"op": "sk.tweak", "key": B(v), "t": B(t)}); 
            pt = list(pub(v))
            for t in (N - v, v, (N - v + 1) % N): evs.append({"op": "pk.tweak", "key": pt, "t": B(t)})
            evs.append({"op": "sk.pub", "key": B(v)})
    for _ in range(g.n(250)):
        k = g.scalar() % N or 1; t = g.scalar() % N
        evs += [{"op": "sk.tweak", "key": B(k), "t": B(t)}, {"op": "pk.tweak", "key": list(g.point()), "t": B(t)}, {"op": "sk.from", "key": list(g.rb2(32))}, {"op": "sk.pub", "key": B(k)}]
    for _ in range(g.n(40)): # tweak that makes the sum exactly 0, 1, n-1 or leaves leading zeros
        k = g.scalar() % N or 1
        for s in (0, 1, N - 1, g.r.getrandbits(240), 2**248): evs.append({"op": "sk.tweak", "key": B(k), "t": B((s - k) % N)})
    for x in [0, 1, 2, 3, 4, 5, 6, 7, P - 1, P, P + 1, P + 2, 2**256 - 1, N, G[0]] + [g.r.randrange(P) for _ in range(g.n(60))]:
        for tag in (0, 1, 2, 3, 4, 5, 6, 7, 255) if x < 8 else (2, 3, g.r.randrange(256)): evs.append({"op": "pk.from", "key": [tag] + B(x)})
    for _ in range(g.n(60)): evs.append({"op": "pk.from", "key": list(g.point())}); evs.append({"op": "access", "self": g.lit(g.prv())}); evs.append({"op": "access", "self": g.lit(g.pub())})
    g.r.shuffle(evs); g.spread(evs, 50)

def c14(g):
    lens(g, "msg", [32])
    keys = [1, 2, 3, N - 1, N - 2, N // 2, 2**128, 2**255, 7] + [g.r.randrange(1, N) for _ in range(6)]
    msgs = [0, 1, 2, N - 1, N, N + 1, N + 5, 2**256 - 1, 2**255, N // 2, 5, 2**128] + [g.r.getrandbits(256) for _ in range(8)]
    B = lambda v: list(v.to_bytes(32, "big"))
    evs = [{"op": "sign", "key": B(k), "msg": B(m)} for k in keys for m in (msgs if k in keys[:4] else g.r.sample(msgs, 6))]
    g.r.shuffle(evs); g.spread(evs, 60)
    for n in list(range(0, 80)) + [96, 127, 128, 129, 255, 256, 288, 1000]: 
        if n != 32: evs = [{"op": "sign", "key": B(g.r.choice(keys)), "msg": list(g.rb(n))}, {"op": "sign", "key": B(g.r.choice(keys)), "msg": [0] * n}]; g.add(evs)
    for _ in range(g.n(7)): # same key many messages, related keys, related messages
        k = g.r.randrange(1, N); m = g.r.getrandbits(256); e = []
        for i in range(30): e.append({"op": "sign", "key": B(k), "msg": B(g.r.getrandbits(256))})
        for i in range(16): e.append({"op": "sign", "key": B((k + i) % N or 1), "msg": B(m)}); e.append({"op": "sign", "key": B(k), "msg": B(m ^ (1 << g.r.randrange(256)))})
        for i in range(4): e.append({"op": "sign", "key": B(N - k), "msg": B(m)}); e.append({"op": "sign", "key": B(k ^ (1 << g.r.randrange(8))), "msg": B(m)}); e.append({"op": "sign", "key": B(k), "msg": B(m)})
        for i in range(8): e.append({"op": "sign", "key": B(k), "msg": [i] + list(b"\0" * 31)}); e.append({"op": "sign", "key": B(k), "msg": list(b"\0" * 31) + [i]})
        g.add(e, "k")
    evs = [{"op": "sign", "key": list(g.key()), "msg": list(g.rb2(32))} for _ in range(g.n(250))]
    g.spread(evs, 60)

def wipelits(g):
    L = []
    for l in ("en", "zh"):
        for n in ENT: L.append({"kind": "mn", "lang": l, "ent": list(g.rb(n))}); L.append({"kind": "mn", "lang": l, "text": U(messy(g, phrase(l, g.rb(n))))})
    for p in ("", "TREZOR", "\u00e9" * 50): L.append({"kind": "seed", "mn": {"lang": g.lang(), "ent": list(g.rb(g.r.choice(ENT)))}, "pass": U(p)})
    for s in range(8): L.append({"kind": "ek", "std": s, **g.attrs(), "key": list(b"\0" + g.key()) if s in PRVS else list(g.point())})
    for k in ("ekprv", "ektext", "text"):
        for s in PRVS: L.append({**g.prv(g.r.randrange(1, 255)), "kind": k, "std": s})
    for d in (0, 255):
        x = {**g.prv(d), "kind": "ekprv", "std": 2}; L.append(x); L.append({**x, "kind": "text"})
    return L
def c15(g):
    for rep in range(g.n(1, 5)):
        for lit in wipelits(g):
            M = {"op": "w.make", "h": 1, "lit": lit}
            C = lambda a, b: {"op": "w.clone", "h": a, "out": b}
            X = lambda a: {"op": "w.drop", "h": a}
            T = lambda a: {"op": "w.dropthread", "h": a}
            W = lambda *hs: {"op": "w.unwind", "h": 0, "hs": list(hs)}
            seqs = [[X(1)], [T(1)], [W(1)], [C(1, 2), X(2), X(1)], [C(1, 2), X(1), X(2)], [C(1, 2), C(2, 3), X(2), C(3, 4), X(3), X(1), X(4)], [C(1, 2), W(2), X(1)], [C(1, 2), W(1), X(2)], [C(1, 2), W(1, 2)], [C(1, 2), T(1), T(2)]]
            if lit["kind"] == "mn":
                for v in ("into", "string"):
                    I = lambda a: {"op": "w.into", "h": a, "via": v}
                    seqs += [[I(1), X(1)], [C(1, 2), I(1), X(2), X(1)], [C(1, 2), I(2), X(2), X(1)], [C(1, 2), I(2), W(1), X(2)], [C(1, 2), I(1), I(2), X(1), X(2)], [C(1, 2), X(2), I(1), X(1)]]
            for q in seqs: g.add([M] + q, "w")
    # several objects at once, random histories
    for _ in range(g.n(60)):
        L = wipelits(g); e = []; live = []; h = 0
        for _ in range(g.r.randrange(5, 16)):
            c = g.r.random()
            if not live or c < .3: h += 1; e.append({"op": "w.make", "h": h, "lit": g.r.choice(L)}); live.append(h)
            elif c < .55: h += 1; e.append({"op": "w.clone", "h": g.r.choice(live), "out": h}); live.append(h)
            elif c < .8: x = live.pop(g.r.randrange(len(live))); e.append({"op": g.r.choice(["w.drop", "w.dropthread"]), "h": x})
            elif c < .9: k = g.r.randrange(1, len(live) + 1); hs = live[:k]; live = live[k:]; e.append({"op": "w.unwind", "h": 0, "hs": hs})
            else: e.append({"op": "w.into", "h": g.r.choice(live), "via": g.r.choice(["into", "string"])})
        e += [{"op": "w.drop", "h": x} for x in live]
        g.add(e, "r")

def c16(g):
    evs = []
    for _ in range(g.n(250)):
        x = g.prv(); evs.append({"op": "dbg", "a": g.lit(x), "b": g.lit({**x, "key": list(g.key())})})
    for d in range(256): x = g.prv(d); evs.append({"op": "dbg", "a": g.lit(x), "b": g.lit({**x, "key": list(g.key())})})
    x = g.prv()
    for i in range(256):
        for v in (1 << i, N - 1 - (1 << i), (1 << i) | 1):
            if 0 < v < N and (i % 4 == 0): evs.append({"op": "dbg", "a": g.lit(x), "b": g.lit({**x, "key": list(v.to_bytes(32, "big"))})})
    for c in g.allcns()[::6]: x = g.prv(4); x["cn"] = c; evs.append({"op": "dbg", "a": g.lit(x), "b": g.lit({**x, "key": list(g.key())})})
    for z in range(0, 32): # keys with zero bytes in front or behind, or equal bytes
        x = g.prv(); evs.append({"op": "dbg", "a": g.lit(x), "b": g.lit({**x, "key": [0] * z + list(g.rb(32 - z)) if z else list(g.key())})}); evs.append({"op": "dbg", "a": g.lit({**x, "key": [1 + z] * 32}), "b": g.lit({**x, "key": list(g.key())})})
        y = g.prv(); y["key"] = list(g.key()); y2 = dict(y); evs.append({"op": "dbg", "a": g.lit({**y, "chain": y["key"]}), "b": g.lit({**y, "chain": y["key"], "key": list(g.key())})})
    g.r.shuffle(evs); g.spread(evs, 60)
    for _ in range(g.n(12)): # derived key against an imported one with the same attributes
        s = g.seedb(); cs = path(g, 2)
        h = hm(b"Bitcoin seed", bytes(s)); x = {"kind": "prv", "key": list(h[:32]), "chain": list(h[32:]), "depth": 0, "fp": [0] * 4, "cn": [0] * 4}
        g.add([{"op": "prv.new", "seed": s, "out": 1}, {"op": "dbg", "a": {"h": 1}, "b": g.lit({**x, "key": list(g.key())})}, {"op": "clone", "self": {"h": 1}, "out": 2}, {"op": "dbg", "a": {"h": 2}, "b": {"h": 1}}])

def c17(g):
    for l in ("en", "zh"):
        for w in (12, 15, 18, 21, 24):
            for _ in range(3 if not g.thorough else 10): g.add([{"op": "mn.new", "words": w, "lang": l} for _ in range(12)], "n")

def scripts(n, r, thorough):
    """the Family of Sources.tla over bytes: constant contents, one bit changed, two bytes changed alike"""
    out = [bytes([v]) * n for v in range(256)]
    for v in (0, 255):
        for i in range(8 * n): b = bytearray([v]) * n; b[i // 8] ^= 1 << (i % 8); out.append(bytes(b))
    for p in range(n):
        for q in range(p + 1, n):
            for d, e in ((1, 1), (1, 255), (128, 128)): b = bytearray(n); b[p] = d; b[q] = e; out.append(bytes(b))
    out += [bytes(k) + bytes(r.randrange(1, 256) for _ in range(n - k)) for k in range(n)]
    out += [bytes(r.randrange(1, 256) for _ in range(n - k)) + bytes(k) for k in range(1, n)]
    seen = sorted(set(out)); r.shuffle(seen)
    return seen if thorough or n <= 16 else seen[:700]

def c17draws(seed, thorough):
    """sessions with the system's randomness scripted, served in portions, interrupted or failing"""
    r = random.Random(f"draws/{seed}"); out = []
    src = lambda script=b"", portion=0, eintr=0, fail=-1: {"script": list(script), "portion": portion, "eintr": eintr, "fail": fail}
    def ev(w, s): return {"op": "mn.draw", "words": w, "lang": r.choice(("en", "zh")), "src": s}
    for w in (12, 15, 18, 21, 24):
        n = w * 4 // 3
        out.append({"id": f"script{w}", "evs": [ev(w, src(s)) for s in scripts(n, r, thorough)]})
        evs = [ev(w, src(portion=k, eintr=j)) for k in (1, 3, 7, 8, n - 1, n, n + 1) for j in (0, 1, 5)]
        evs += [ev(w, src(fail=k)) for k in range(0, n + 1) for _ in range(2)] + [ev(w, src(fail=k, portion=p, eintr=1)) for k in (0, 1, n // 2, n - 1) for p in (1, 5)]
        r.shuffle(evs); out.append({"id": f"fault{w}", "evs": evs + [ev(w, src()) for _ in range(3)]})
    return out

def c18(g):
    evs = []
    for l in ("en", "zh"):
        W = WORDS[l]; o = "zh" if l == "en" else "en"
        for i in range(2048): evs.append({"op": "lang.word", "lang": l, "i": i}); evs.append({"op": "lang.index", "lang": l, "text": U(W[i])})
        bad = [W[i].upper() for i in range(0, 2048, 97)] + [W[i] + "x" for i in range(0, 2048, 97)] + [W[i][:-1] for i in range(0, 2048, 41)] + [" " + W[3], W[3] + " ", "", " ", "\n", W[0] + "\0", wide(W[5]), W[7] + W[8], W[0] + " " + W[1], "\u00e9"] + WORDS[o][::131] + STRS + [W[i] + "\u0301" for i in range(0, 2048, 301)] + [w[1:] for w in W[::57]] + [w[::-1] for w in W[::83]] + [w.capitalize() for w in W[::71]]
        bad += list(odd(g, W[11], 2))
        for s in bad: evs.append({"op": "lang.index", "lang": l, "text": U(s)})
        for s in odd(g, W[12][:2]): evs.append({"op": "lang.prefix", "lang": l, "text": U(s)})
        for s in odd(g, W[13]): evs.append({"op": "lang.detect", "text": U(s)})
        for s in odd(g, "en" if l == "en" else "zh-cn", 2): evs.append({"op": "lang.code", "text": U(s)})
        if l == "en":
            pre = sorted({w[:k] for w in W for k in (1, 2)} | {w[:3] for w in W} | {w[:4] for w in W[::1 if g.thorough else 4]} | {w[:5] for w in W[::9]} | set(W[::1 if g.thorough else 4]) | set(W[-3:]) | {w + "s" for w in W[::41]})
            pre += ["z", "zz", "zoo", "zoop", "zooo", "{", "`", "A", "Z", "AB", "Ab", "x", "xy", " ", "a ", "-", "\u00e9", "~", "\x7f", "\U0001f600", "ac", "act", "acti", "actor", "art", "arti", "can", "cat", "sea", "win", "wing", "you", "young"]
        else: pre = W[::8] + W[:20] + W[-20:] + ["a", "\u9fff", "\uffff", "\u4dff", W[0] + W[1], W[5] + " ", "\u4e00", "\U00020000"]
        for p in pre: evs.append({"op": "lang.prefix", "lang": l, "text": U(p)})
        evs.append({"op": "lang.prefix", "lang": l, "text": []})
        for j in range(g.n(40)):
            ws = phrase(l, g.rb(16)); p = " ".join(ws)
            for s in (p, "  " + p, "\n" + ws[0], "\u3000" + p, "\u00a0" + p, ws[0] + "\t", WORDS[o][j] + " " + p, "zzz " + p, p.upper(), ws[0] + ",", "\u200b" + p, wide(ws[0]), ws[0].capitalize(), ws[0] + WORDS[o][3], ws[0] + "\u0301"): evs.append({"op": "lang.detect", "text": U(s)})
    for i in range(0, 2048, 5):
        for l in ("en", "zh"): evs.append({"op": "lang.detect", "text": U(WORDS[l][i])})
    for s in ["", " ", "\t\n", "\u3000", "\0"] + STRS: evs.append({"op": "lang.detect", "text": U(s)})
    evs.append({"op": "lang.default"})
    codes = ["en", "EN", "eN", "En", "zh-cn", "ZH-CN", "zh-CN", "Zh-Cn", "zH-cN", "", " ", "en ", " en", "eng", "e", "n", "ne", "en-us", "en-US", "en_US", "zh", "cn", "zh_cn", "zh-tw", "zh-TW", "ZH-TW", "zh-hans", "zhcn", "zh--cn", "zh-cn ", "fr", "it", "ja", "ko", "es", "FR", "IT", "JA", "KO", "ES", "de", "pt", "cs",
             "\uff45\uff4e", "\u0435n", "e\u0301n", "en\0", "\u212aO", "zh\u2010cn", "zh\u2212cn", "\uff3a\uff28-CN", "english", "English", "chinese", "zh-c", "zh-cnn", "xx", "EN\n", "\u0130t", "zh-\u212an", "e\u017f"] + STRS
    for c in codes: evs.append({"op": "lang.code", "text": U(c)})
    for _ in range(60):
        c = "".join(g.r.choice((x.upper(), x)) for x in g.r.choice(("en", "zh-cn", "zh-tw", "fr", "ja", "ko", "es", "it"))); evs.append({"op": "lang.code", "text": U(c)})
    g.r.shuffle(evs); g.spread(evs, 100)

def c20(g):
    evs = []
    V = lambda v: [evs.append({"op": "prefix.of", "via": x, "bytes": list((v % 2**32).to_bytes(4, "big"))}) for x in ("u32", "bytes", "slice")]
    for _, v in STD:
        for d in list(range(-3, 4)) + [256, -256, 65536, -65536, 1 << 24, 0x80000000]: V(v + d)
        for i in range(32): V(v ^ (1 << i))
        V(int.from_bytes(v.to_bytes(4, "big")[::-1], "big"))
    for k in range(32): V(1 << k); V((1 << k) - 1)
    bs = lambda k: [g.r.choice((0, 0, 1, 0x7f, 0x80, 0xff, g.r.getrandbits(8))) for _ in range(k)]
    for _ in range(g.n(60)): V(int.from_bytes(bytes(bs(4)), 'big')); V(0x04880000 | int.from_bytes(bytes(bs(2)), 'big'))
    for _ in range(g.n(30)): V(g.r.getrandbits(16) << 16); V(g.r.getrandbits(24) << 8); V((0x0200 + g.r.getrandbits(9)) << 16); V((0x0480 + g.r.getrandbits(4)) << 16 | g.r.choice((0, 0xffff, 1)))
    for v in INTS: V(v)
    for v in (0, 0xffffffff, 0x0295b005, 0x0295b43f, 0x02aa7a99, 0x02aa7ed3, 0x024289ef, 0x024285b5, 0x045f1cf6, 0x045f18bc, 0x044a5262, 0x044a4e28, 0x02575483, 0x02575048, 0x019da462, 0x019d9cfe, 0x0488b21d, 0x02fac398, 0x02facafd): V(v)
    for _ in range(g.n(250)): V(g.r.getrandbits(32))
    for _ in range(g.n(250)): V(0x04000000 + g.r.getrandbits(24))
    # versions whose text is a chosen four letters
    for w in ["Aprv", "Zpub", "aprv", "zzzz", "AAAA", "XPRV", "xPrv", "prvx", "pubx", "xprv", "xpub", "xpuB", "xprb", "cprv", "ppub", "uprv", "upub", "vprv", "vpub", "Yprv", "Ypub", "Zprv", "Uprv", "Vpub", "xpux", "iiii", "dgub", "Ltpv", "Mtub", "Ltub"] + ["".join(g.r.choice("ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz") for _ in range(4)) for _ in range(g.n(40))]:
        if all(c in A58 for c in w):
            n = 0
            for ch in w: n = n * 58 + A58.index(ch)
            for L in (111, 112):
                v = (n * 58 ** (L - 4) + 58 ** (L - 5) * 29) >> (8 * 78)
                if v < 2**32: V(v); V(v + 1); V(v - 1)
                lo, hi = n * 58 ** (L - 4) >> (8 * 78), ((n + 1) * 58 ** (L - 4) - 1) >> (8 * 78)
                if hi < 2**32 and hi > lo: V(lo); V(hi); V(lo + 1); V(hi - 1)
    for n in (0, 1, 2, 3, 5, 6, 8, 78): evs.append({"op": "prefix.of", "via": "slice", "bytes": list(g.rb(n))}); evs.append({"op": "prefix.of", "via": "slice", "bytes": ([4, 136, 173, 228] * 20)[:n]}); evs.append({"op": "prefix.of", "via": "slice", "bytes": ([0] * n + [4, 136, 173, 228])[-n:] if n else []})
    for i in range(20): evs.append({"op": "prefix.std", "std": i})
    # a prefix from its parts: whatever letters and version the caller names
    for w in [x for x, _ in STD] + ["", "a", "abc", "abcd", "ABCD", "zZzZ", "aZ@A", "xpr1", "1prv", "xp v", "xprv ", "xprvx", " xprv", "a[cd", "ab`d", "abc{", "\u00e9ab", "\u00e9\u00e9", "\u01c5a", "ab\0d", "prvs", "apub", "aprv", "APRV", "aPub", "aPRV", "prv", "pub", "prvx"] + [c + "prv" for c in "!/09:@[`{~"]:
        for v in (0x0488ade4, 0x0488b21e, g.r.getrandbits(32), 0, 0xffffffff)[:(5 if len(w) == 4 else 2)]: evs.append({"op": "prefix.parts", "text": U(w), "ver": list(v.to_bytes(4, "big"))})
    g.r.shuffle(evs); g.spread(evs, 60)

def c21(g):
    evs = []
    for l in ("en", "zh"):
        for n in ENT:
            for e in [b"\0" * n, b"\xff" * n, bytes(range(n)), b"\0" * (n - 1) + b"\1", b"\x0f" * n, b"\xa0" * n, bytes((i * 17 + 160) % 256 for i in range(n))] + [g.rb2(n) for _ in range(g.n(12))]:
                evs.append({"op": "mn.render", "self": {"lit": {"kind": "mn", "lang": l, "ent": list(e)}}})
            for _ in range(3): evs.append({"op": "mn.render", "self": {"lit": {"kind": "mn", "lang": l, "text": U(messy(g, phrase(l, g.rb(n))))}}})
    for i in range(2048):                               # every word in front, and every word in the middle, of some phrase
        if i % 2 == 0 or g.thorough: e = (i << 117 | g.r.getrandbits(11) << 106 | (i + 1) % 2048 << 95 | g.r.getrandbits(95)).to_bytes(16, "big"); evs.append({"op": "mn.render", "self": {"lit": {"kind": "mn", "lang": "zh", "ent": list(e)}}})
    for b in range(256): # every byte value, at a random place
        n = g.r.choice(ENT); e = bytearray(g.rb(n)); e[g.r.randrange(n)] = b; evs.append({"op": "mn.render", "self": {"lit": {"kind": "mn", "lang": "en", "ent": list(e)}}})
    for _ in range(g.n(120)): evs.append({"op": "seed.render", "self": {"lit": {"kind": "seed", "mn": {"lang": g.lang(), "ent": list(g.rb2(g.r.choice(ENT)))}, "pass": U(g.r.choice(PASS))}}})
    g.r.shuffle(evs); g.spread(evs, 40)
    for _ in range(g.n(15)):
        g.add([{"op": "mn.new", "words": g.r.choice((12, 15, 18, 21, 24)), "lang": g.lang(), "out": 1}, {"op": "mn.render", "self": {"h": 1}}, {"op": "mn.clone", "self": {"h": 1}, "out": 2}, {"op": "mn.render", "self": {"h": 2}}, {"op": "seed.new", "self": {"h": 2}, "pass": [], "out": 3}, {"op": "seed.render", "self": {"h": 3}}, {"op": "clone", "self": {"h": 3}, "out": 4}, {"op": "seed.render", "self": {"h": 4}}])

def c22(g):
    evs = []
    B = lambda v: list((v % 2**64).to_bytes(8, "big"))
    vals = set(range(0, 700)) | {v + d for v in INTS for d in (-1, 0, 1)} | {2**k + d for k in range(8, 64) for d in (-1, 0, 1)}
    for base in (12, 15, 18, 21, 24, 128, 160, 192, 224, 256):
        for k in (8, 9, 10, 11, 16, 31, 32, 33, 48, 63): vals |= {base + 2**k, base << k, 2**k - base}
    for e in (16, 20, 24, 28, 32, 128, 160, 192, 224, 256, 12, 15, 18, 21):  # packed pairs: entropy and checksum lengths, words and bits
        for c in (4, 5, 6, 7, 8, 12, 15, 18, 21, 24):
            for w in (4, 5, 8, 11, 16, 24, 32): vals |= {e << w | c, c << w | e, e * c, e + c}
    for v in sorted(vals):
        if 0 <= v < 2**64: evs += [{"op": "mtype", "via": "words", "n": B(v)}, {"op": "mtype", "via": "bits", "n": B(v)}]
    for n in list(range(0, 60)) + [100, 128, 160, 256, 268, 524, 1000]:
        w = [g.r.choice(WORDS["en"]) for _ in range(n)]
        for s in (" ".join(w), " ".join(["x"] * n), " " * n, " ".join(WORDS["zh"][i] for i in range(n)), "\t".join(w), "\u3000".join(w), " ".join(w) + " ", " " + " ".join(w), "  ".join(w)): evs.append({"op": "mtype", "via": "phrase", "text": U(s)})
    for s in odd(g, " ".join(g.r.choice(WORDS["en"]) for _ in range(12)), 2): evs.append({"op": "mtype", "via": "phrase", "text": U(s)})
    for c in ODD: evs.append({"op": "mtype", "via": "phrase", "text": U(c.join(g.r.choice(WORDS["en"]) for _ in range(g.r.choice((12, 24)))))}); evs.append({"op": "mtype", "via": "phrase", "text": U(" ".join(["a"] * 11 + [c]))})
    for w in (12, 15, 18, 21, 24): evs.append({"op": "mtype", "via": "enum", "words": w})
    evs.append({"op": "mtype", "via": "default"})
    g.r.shuffle(evs); g.spread(evs, 100)

def c23(g):
    evs = []
    for n in list(range(0, 330)) + [511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000]:
        evs.append({"op": "ripemd", "msg": list(g.rb(n))})
        if n < 200: evs.append({"op": "ripemd", "msg": [g.r.choice((0, 255, 97))] * n})
    for s in (b"", b"a", b"abc", b"message digest", b"abcdefghijklmnopqrstuvwxyz", b"1234567890" * 8, b"Hello world!"): evs.append({"op": "ripemd", "msg": list(s)})
    for b in range(256): evs.append({"op": "ripemd", "msg": [b]})
    for n in range(1, 131):                             # ends that padding could be taken for
        for b in (0, 1, 0x80, 0xff, 0x20, 0x0a):
            m = bytearray(g.rb(n)); m[-1] = b
            if g.r.random() < .2: m[0] = g.r.choice((0, 0x80))
            if n % 8 == 0 or b in (0, 0x80) or g.r.random() < .25: evs.append({"op": "ripemd", "msg": list(m)})
    for s in STRS: evs.append({"op": "ripemd", "msg": U(s)})
    for _ in range(g.n(150)): evs.append({"op": "ripemd", "msg": list(g.rb2(g.r.choice((1, 20, 32, 33, 55, 56, 63, 64, 65, 119, 120, 128, 200))))})
    for _ in range(3): # digests with zero nibbles in front
        evs.append({"op": "ripemd", "msg": list(b"zz%d" % _)})
    big = []
    for k in range(13, 21 if g.thorough else 19):
        for n in {2**k - 65, 2**k - 64, 2**k - 9, 2**k - 8, 2**k - 1, 2**k, 2**k + 1, 2**k + 55, 2**k + 56, 2**k + 64, 3 * 2**k // 2, g.r.randrange(2**k, 2**(k + 1)), 64 * g.r.randrange(2**(k - 6), 2**(k - 5))} if k < 16 or g.thorough else {2**k - 1, 2**k, 2**k + 1, 2**k + 55, 2**k + 56, 2**k + 64, 3 * 2**(k - 1), g.r.randrange(2**k, 2**(k + 1))}:
            big.append({"op": "ripemd", "pat": list(g.rb(g.r.choice((1, 7, 61, 64, 251)))), "len": n})
    g.spread(big, 4, "big")
    g.r.shuffle(evs); g.spread(evs, 60)

def c24(g):
    """secp256k1: refusals at import are easy to have, those in derivation are left to the toy key type"""
    evs = []
    bad = lambda: g.r.choice([0, N, N + 1, N + g.r.getrandbits(60), 2**256 - 1, 2**256 - 1 - g.r.getrandbits(100), P, N + 2**64]).to_bytes(32, "big")
    def badpt():
        x = g.r.randrange(P)
        while on_curve_x(x): x += 1
        return g.r.choice((bytes([2 + (x & 1)]) + x.to_bytes(32, "big"), bytes([g.r.choice((0, 1, 4, 5, 6, 7))]) + g.point()[1:], b"\2" + (P + g.r.randrange(8)).to_bytes(32, "big"), b"\2" + b"\xff" * 32))
    for _ in range(g.n(120)):
        o = g.prv() if g.r.random() < .5 else g.pub(); prv = o["kind"] == "prv"
        if o["depth"] == 0: o.update(fp=[0] * 4, cn=[0] * 4)
        s = g.r.choice(PRVS if prv else PUBS); kf = (b"\0" if prv else b"") + bytes(o["key"])
        if g.r.random() < .6: kf = b"\0" + bad() if prv else badpt()
        t = b58c(payload(STD[s][1], o["depth"], bytes(o["fp"]), bytes(o["cn"]), bytes(o["chain"]), kf))
        evs += [{"op": "import", "as": o["kind"], "text": U(t)}, {"op": "ek.into", "as": o["kind"], "self": g.lit({**o, "kind": "ek", "std": s, "key": list(kf)})}]
    for _ in range(g.n(60)): evs += [{"op": "prv.new", "seed": g.seedb()}, {"op": "ckd", "self": g.lit(g.prv(g.r.randrange(255))), "cn": g.cn()}, {"op": "ckd", "self": g.lit(g.pub(g.r.randrange(255))), "cn": g.cn(False)}]
    for _ in range(g.n(15)): evs.append({"op": "path.derive", "path": path(g, g.r.randrange(1, 5)), "mk": "push", "cuts": [], "seed": g.seedb()})
    for _ in range(g.n(15)): evs.append({"op": "commute", "self": g.lit(g.prv(g.r.randrange(200))), "path": path(g, 2, False)})
    g.r.shuffle(evs); g.spread(evs)

VIAS = ("vec", "slice", "chain", "few", "none", "many", "one")
def c25(g):
    """long histories of derivation paths"""
    r = g.r; plain = g.cn
    class G:                                            # steps often repeated: the same one again, zeros, their hardened twins
        last = [0, 0, 0, 0]
        def __getattr__(self, n): return getattr(g0, n)
        def cn(self, h=None):
            x = r.random()
            c = self.last if x < .2 else [0, 0, 0, 0] if x < .3 else [128, 0, 0, 0] if x < .37 else [self.last[0] ^ 128] + list(self.last[1:]) if x < .42 else list(plain())
            self.last = list(c); return list(c)
    g0, g = g, G()
    for k in range(g.n(40)):
        evs, size, nxt = [], {}, 1; deep = k % 5 == 0
        for _ in range(r.randrange(10, 60)):
            h = r.choice(list(size)) if size else 0; c = r.random()
            if not size or (c < .12 and len(size) < 6):
                if r.random() < .5: evs.append({"op": "p.new", "out": nxt}); size[nxt] = 0
                else:
                    t = "m" + "".join("/" + show(g.cn()) for _ in range(r.choice((0, 1, 2, 3, 5, 30 if deep else 4))))
                    if r.random() < .2: evs.append({"op": "p.parse", "text": U(r.choice((t + "/", t + "/x", t[1:], "M" + t[1:], t + "/2147483648", t.replace("/", "//"), ""))), "out": nxt}); nxt += 1; continue
                    evs.append({"op": "p.parse", "text": U(t), "out": nxt}); size[nxt] = t.count("/")
                nxt += 1
            elif c < .32: evs.append({"op": "p.push", "h": h, "cn": g.cn()}); size[h] += 1
            elif c < .47:
                n = r.choice((0, 1, 2, 3, 7, 90 if deep else 5, 256 if deep else 8)); n = min(n, 600 - size[h])
                evs.append({"op": "p.extend", "h": h, "via": r.choice(VIAS), "cns": [g.cn() for _ in range(n)]}); size[h] += n
            elif c < .52:
                o = r.choice(list(size))
                if size[h] + size[o] < 600: evs.append({"op": "p.extend", "h": h, "via": "path", "from": o, "cns": []}); size[h] += size[o]
            elif c < .62 and len(size) < 6: evs.append({"op": "p.clone", "h": h, "out": nxt}); size[nxt] = size[h]; nxt += 1
            elif c < .67: o = r.choice(list(size)); evs.append({"op": "p.clonefrom", "h": h, "from": o}); size[h] = size[o]
            elif c < .77 and len(size) < 7:
                evs.append({"op": "p.parent", "h": h, "out": nxt})
                if size[h]: size[nxt] = size[h] - 1
                nxt += 1
            elif c < .83 and len(size) > 1: evs.append({"op": r.choice(("p.into", "p.drop")), "h": h}); del size[h]
            elif c < .93: evs.append({"op": "p.view", "h": h})
            elif c < .97: evs.append({"op": "p.eq", "h": h, "g": r.choice(list(size))})
            elif size[h] < 8: evs.append({"op": "p.derive", "h": h, "seed": g.seedb()})
        evs += [{"op": "p.view", "h": h} for h in size]
        g.add(evs, "hist")
    for n in (1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 512, 513):      # growth: equal however it was reached
        e = [{"op": "p.new", "out": 1}, {"op": "p.new", "out": 2}, {"op": "p.new", "out": 3}]; cs = [g.cn() for _ in range(n)]
        e += [{"op": "p.extend", "h": 1, "via": "one" if n < 40 else r.choice(VIAS), "cns": cs}, {"op": "p.extend", "h": 2, "via": "few", "cns": cs[:n // 2]}, {"op": "p.clone", "h": 2, "out": 4}, {"op": "p.extend", "h": 2, "via": "many", "cns": cs[n // 2:]},
              {"op": "p.extend", "h": 3, "via": "path", "from": 1, "cns": []}, {"op": "p.parent", "h": 1, "out": 5}, {"op": "p.push", "h": 5, "cn": cs[-1]}, {"op": "p.eq", "h": 1, "g": 2}, {"op": "p.eq", "h": 1, "g": 3}, {"op": "p.eq", "h": 5, "g": 1}, {"op": "p.eq", "h": 4, "g": 2}, {"op": "p.view", "h": 2}, {"op": "p.push", "h": 1, "cn": g.cn()}, {"op": "p.eq", "h": 1, "g": 3}, {"op": "p.into", "h": 3}]
        g.add(e, "grow")

    c = g.cn()                                                                    # as much longer as a narrow counter can hold
    e = [{"op": "p.new", "out": 1}, {"op": "p.new", "out": 2}, {"op": "p.push", "h": 2, "cn": c}]
    for k in range(16):
        e += [{"op": "p.clone", "h": 2, "out": 10 + k}, {"op": "p.extend", "h": 2, "via": "path", "from": 10 + k, "cns": []}, {"op": "p.eq", "h": 1, "g": 2}, {"op": "p.eq", "h": 2, "g": 10 + k}]
        if k > 8: e.append({"op": "p.drop", "h": 10 + k})
    g.add(e + [{"op": "p.push", "h": 1, "cn": c}, {"op": "p.eq", "h": 1, "g": 2}, {"op": "p.push", "h": 2, "cn": c}, {"op": "p.eq", "h": 2, "g": 1}], "double")
    for n in (1, 3, 250):
        cs = [g.cn() for _ in range(n)]; e = [{"op": "p.new", "out": i} for i in (1, 2, 3, 4)]
        e += [{"op": "p.extend", "h": h, "via": r.choice(VIAS[:6]), "cns": cs} for h in (1, 2, 3, 4)] + [{"op": "p.extend", "h": h, "via": "vec", "cns": [g.cn() for _ in range(256)]} for h in (2, 3, 3)] + [{"op": "p.extend", "h": 4, "via": "vec", "cns": [cs[0]] * 256}]
        g.add(e + [{"op": "p.eq", "h": h, "g": k} for h in (1, 2, 3, 4) for k in (1, 2, 3, 4)], "wrap")

def faulty(e):
    """may this call be refused?"""
    op = e["op"]; me = e.get("self", {}).get("lit")
    if op == "mn.entropy": return len(e["ent"]) not in ENT
    if op == "prv.new": return "seed" in e and len(e["seed"]) not in (16, 32, 64, 128)
    if op == "ckd": return me and (me["depth"] > 253 or me["kind"] == "pub" and e["cn"][0] > 127)
    if op == "path.derive": return "seed" in e and len(e["seed"]) not in (16, 32, 64, 128) or me and (me["depth"] + len(e["path"]) > 253 or me["kind"] == "pub" and any(c[0] > 127 for c in e["path"]))
    if op == "commute": return any(c[0] > 127 for c in e["path"])
    if op == "sign": return len(e["msg"]) != 32
    if op == "len": return True
    return op in ("mn.phrase", "mn.validate", "mtype", "lang.index", "cn.parse", "cn.new", "path.parse", "import", "ek.into", "prefix.of", "sk.from", "pk.from", "sk.tweak", "pk.tweak")
def c26(g):
    r = g.r; pool = {}
    for p in ("C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14", "C18", "C20", "C22"):
        h = Gen(p, f"{r.random()}", False); ALL[p](h)
        for s in h.sessions:
            for e in s["evs"]:
                if "out" not in e and not any(isinstance(e.get(k), dict) and "h" in e[k] for k in ("self", "a", "b")) and len(e.get("path", [])) < 12 and faulty(e): pool.setdefault(e["op"], []).append(e)
    evs = []
    for op in sorted(pool): evs += r.sample(pool[op], min(len(pool[op]), g.n(130)))
    # two things wrong at once: either may be named, nothing else
    for _ in range(g.n(60)):
        x = g.pub(255); evs += [{"op": "ckd", "self": g.lit(x), "cn": g.cn()}, {"op": "ckd", "self": g.lit(g.prv(255)), "cn": g.cn()}]
        x = r.choice((g.prv, g.pub))(r.randrange(251, 256)); p = [g.cn() for _ in range(r.randrange(1, 7))]
        evs.append({"op": "path.derive", "self": g.lit(x), "path": p, "mk": r.choice(("push", "extend", "parse")), "cuts": [r.randrange(len(p) + 1)]})
        if x["kind"] == "prv": evs.append({"op": "commute", "self": g.lit(x), "path": p})
        evs.append({"op": "path.derive", "seed": list(g.rb(r.choice((0, 1, 15, 17, 31, 33, 65, 127, 129, 64, 32)))), "path": p, "mk": "push", "cuts": []})
    for _ in range(g.n(60)):
        o = r.choice((g.prv, g.pub))(r.randrange(1, 256)); s = r.randrange(8); kf = (b"\0" if o["kind"] == "prv" else b"") + bytes(o["key"])
        if r.random() < .4: kf = kf[:1] + bytes(32)
        if r.random() < .3: kf = bytes([r.choice((0, 1, 2, 3, 4, 255))]) + kf[1:]
        ver = STD[s][1] if r.random() < .7 else r.getrandbits(32); pl = payload(ver, o["depth"], bytes(o["fp"]), bytes(o["cn"]), bytes(o["chain"]), kf)
        if r.random() < .3: pl = r.choice((pl[:-1], pl + b"\0", pl[1:], pl[:4], pl + pl, b"\0" + pl, pl[:-4]))
        t = b58c(pl)
        if r.random() < .3: i = r.randrange(len(t)); t = t[:i] + r.choice("123abcXYZ0OIl+ \u00e9") + t[i + 1:]
        if r.random() < .1: t = r.choice((" " + t, t + "\n", t[:-1], "1" + t, ""))
        evs += [{"op": "import", "as": a, "text": U(t)} for a in ("prv", "pub", "ek")]
    evs += [{"op": "err.from", "via": v, "i": i} for v, n in (("decode", 5), ("encode", 1), ("slice", 9), ("length", 1), ("secp", 8), ("sign", 8)) for i in range(n) if (v, i) != ("slice", 4)]
    for l in ("en", "zh"):
        for c in list(range(0, 30)) + [36, 48, 255, 256, 257, 268, 524]:
            ws = [r.choice(WORDS[l]) for _ in range(c)]
            for t in (" ".join(ws), " ".join(ws[:c // 2] + ["qqqq"] + ws[c // 2 + 1:]), " ".join(ws + [r.choice(WORDS["zh" if l == "en" else "en"])]), "  ".join(ws), " ".join(ws) + " "):
                evs += [{"op": op, "lang": l, "text": U(t)} for op in ("mn.phrase", "mn.validate")]
    r.shuffle(evs); g.spread(evs, 50)

def order_vals(g, kind):
    """three values that are close to one another"""
    r = g.r
    def near(b):
        b = list(b)
        for _ in range(r.choice((0, 1, 1, 2))): i = r.randrange(len(b)); b[i] = r.choice((b[i] ^ (1 << r.randrange(8)), (b[i] + 1) % 256, (b[i] - 1) % 256, 0, 255, 127, 128))
        return b
    if kind == "cn": x = g.cn(); return [x, near(x), near(x) if r.random() < .7 else g.cn()]
    if kind == "prefix":
        _, v = r.choice(STD); _, w = r.choice(STD)
        return [list((y % 2**32).to_bytes(4, "big")) for y in (v, r.choice((v, v + 1, v - 1, v + 256, v + 257, w)), r.choice((v, w, v + 2, w + 1, w - 256)))]
    mk = g.prv if kind == "attrs" else g.pub
    x = mk(); out = [x]
    for _ in range(2):
        y = dict(r.choice(out)); o = mk()
        for f in r.sample(("depth", "fp", "cn", "chain"), r.choice((0, 1, 1, 2, 3))):
            y[f] = (o[f] if r.random() < .5 else (y[f] + r.choice((1, 255, 128))) % 256) if f == "depth" else near(y[f]) if r.random() < .7 else o[f]
        if kind == "pub" and r.random() < .4: y["key"] = o["key"]
        out.append(y)
    if kind == "attrs": out = [{k: v for k, v in y.items() if k not in ("kind", "key")} for y in out]
    r.shuffle(out); return out
def c27(g):
    evs = [{"op": "order", "kind": k, "vals": order_vals(g, k)} for k, n in (("cn", 250), ("prefix", 120), ("attrs", 250)) for _ in range(g.n(n))]
    cs = sorted(g.allcns()); lims = [list(v.to_bytes(4, "big")) for v in (0, 1, 255, 256, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32 - 2, 65535, 65536)]
    for i in range(0, len(cs) - 2): evs.append({"op": "order", "kind": "cn", "vals": r_shuf(g, cs[i:i + 3])})
    for a in lims:
        for b in lims: evs.append({"op": "order", "kind": "cn", "vals": [a, b, g.cn()]})
    for _ in range(g.n(12)): evs.append({"op": "order", "kind": "cn", "vals": [g.cn() for _ in range(12)]}); evs.append({"op": "order", "kind": "prefix", "vals": [list(v.to_bytes(4, "big")) for _, v in r_shuf(g, STD)]})
    g.r.shuffle(evs); g.spread(evs, 60)
def r_shuf(g, xs): xs = list(xs); g.r.shuffle(xs); return xs
def show(c): v = int.from_bytes(bytes(c), "big"); return str(v % 2**31) + ("'" if v >= 2**31 else "")

# ---------------------------------------------------------------- results of rare shapes
RAREF = os.path.join(os.path.dirname(os.path.abspath(__file__)), "rare.jsonl")
RAREV = [json.loads(l) for l in open(RAREF)]             # searched for by tools/rare
def rarely(g, prop):
    """inputs whose results begin or end with several zero or 0xff bytes"""
    of = lambda t, *w: [x for x in RAREV if x["t"] == t and (not w or x["why"].startswith(w))]
    evs = []; stdof = {v: i for i, (_, v) in enumerate(STD)}
    def parent(x): return {**g.prv(g.r.randrange(0, 250)), "key": x["key"], "chain": x["chain"]}
    def topub(o): return {**o, "kind": "pub", "key": list(pub(int.from_bytes(bytes(o["key"]), "big")))}
    def keyed(x): return {**g.prv(g.r.randrange(1, 250)), "key": x["key"]}
    children = of("child")
    if prop in ("C05", "C06", "C07", "C08"):
        for x in children:
            o = parent(x); h = x["cn"][0] > 127
            if prop == "C05": g.add([{"op": "ckd", "self": g.lit(o), "cn": x["cn"], "out": 1}, {"op": "ckd", "self": {"h": 1}, "cn": g.cn(True)}, {"op": "ckd", "self": {"h": 1}, "cn": g.cn(False)}], "rare")
            elif prop == "C06" and not h: evs += [{"op": "commute", "self": g.lit(o), "path": [x["cn"]]}, {"op": "commute", "self": g.lit(o), "path": [x["cn"], g.cn(False)], "bypath": True}]
            elif prop == "C07":
                for k in (o,) if h else (o, topub(o)):
                    q = [x["cn"], g.cn(h if k["kind"] == "prv" else False), g.cn(False)]
                    evs.append({"op": "path.derive", "self": g.lit(k), "path": q, "mk": g.r.choice(("push", "extend", "parse")), "cuts": [g.r.randrange(4)]})
            elif prop == "C08":
                evs.append({"op": "ckd", "self": g.lit(o), "cn": x["cn"]})
                if not h: evs.append({"op": "ckd", "self": g.lit(topub(o)), "cn": x["cn"]})
    if prop in ("C05", "C06", "C07", "C08", "C10", "C13", "C16"):
        for x in of("key"):
            o = keyed(x); y = topub(o)
            if prop == "C05": evs += [{"op": "ckd", "self": g.lit(o), "cn": g.cn(h)} for h in (True, False)]
            if prop == "C06": evs += [{"op": "neuter", "self": g.lit(o)}, {"op": "commute", "self": g.lit(o), "path": [g.cn(False)]}]
            if prop == "C07": evs += [{"op": "path.derive", "self": g.lit(k), "path": [g.cn(False) for _ in range(3)], "mk": "push", "cuts": [1]} for k in (o, y)]
            if prop == "C08": evs += [{"op": "ckd", "self": g.lit(o), "cn": g.cn()}, {"op": "ckd", "self": g.lit(y), "cn": g.cn(False)}, {"op": "fp", "self": g.lit(y)}]
            if prop == "C10": evs += [{"op": "export", "self": g.lit(o), "std": g.r.choice(PRVS)}, {"op": "export", "self": g.lit(y), "std": g.r.choice(PUBS)}]
            if prop == "C13": evs += [{"op": "sk.pub", "key": x["key"]}, {"op": "pk.from", "key": y["key"]}, {"op": "pk.tweak", "key": y["key"], "t": list(g.key())}]
    if prop == "C13":
        for x in of("child", "il", "k", "x"):
            k = int.from_bytes(bytes(x["key"]), "big"); h = x["cn"][0] > 127; pre = b"\0" + bytes(x["key"]) if h else pub(k); t = list(hm(bytes(x["chain"]), pre + bytes(x["cn"]))[:32])
            evs += [{"op": "sk.tweak", "key": x["key"], "t": t}, {"op": "pk.tweak", "key": list(pub(k)), "t": t}, {"op": "sk.from", "key": t}]
    if prop in ("C10", "C11"):
        for x in of("text"):
            s = stdof[x["ver"]]; kind = "prv" if s in PRVS else "pub"; o = {k: x[k] for k in ("depth", "fp", "cn", "chain", "key")}; o["kind"] = kind
            if prop == "C10": evs.append({"op": "export", "self": g.lit(o), "std": s})
            else:
                p = payload(x["ver"], o["depth"], bytes(o["fp"]), bytes(o["cn"]), bytes(o["chain"]), (b"\0" if kind == "prv" else b"") + bytes(o["key"])); c = sha(sha(p))[:4]
                for q in [p + c] + [p + bytes(b ^ (g.r.randrange(1, 256) if i == j else 0) for i, b in enumerate(c)) for j in range(4)] + [p, p + c[:2], p + c[2:], p + c[:-1], p + c[1:]]: evs.append({"op": "import", "as": kind, "text": U(b58(q))})
    if prop == "C04": evs += [{"op": "prv.new", "seed": x["seed"]} for x in of("master")]
    if prop in ("C03", "C21"):
        for x in of("seed"):
            m = {"kind": "mn", "lang": x["lang"], "ent": x["ent"]}; p = [b for b in x["pass"]]
            evs.append({"op": "seed.new", "self": {"lit": m}, "pass": p} if prop == "C03" else {"op": "seed.render", "self": {"lit": {"kind": "seed", "mn": {"lang": x["lang"], "ent": x["ent"]}, "pass": p}}})
    if prop == "C14": evs += [{"op": "sign", "key": x["key"], "msg": x["msg"]} for x in of("sign")]
    if prop == "C23": evs += [{"op": "ripemd", "msg": x["msg"]} for x in of("ripemd")]
    g.r.shuffle(evs); g.spread(evs, 40, "rare")

# ---------------------------------------------------------------- coincidences
def coincide(g, prop):
    """parts of an input that happen to be equal to, or made from, one another"""
    r = g.r; evs = []; B = lambda v: list((v % 2**256).to_bytes(32, "big"))
    def twins(prv=True):
        """extended keys with such parts"""
        out = []
        for _ in range(2 if g.thorough else 1):
            k = r.randrange(1, N); K = B(k); X = pub(k); f = list(ripe(sha(X))[:4])
            base = {"kind": "prv", "depth": r.randrange(1, 250), "fp": list(g.rb(4)), "cn": g.cn(), "chain": list(g.rb(32)), "key": K}
            alts = [{"chain": K}, {"chain": K[::-1]}, {"chain": list(X[1:])}, {"chain": [b ^ 255 for b in K]}, {"chain": B(N - k)}, {"chain": list(sha(bytes(K)))}, {"chain": K[:16] + K[:16]},
                    {"fp": base["cn"]}, {"fp": f}, {"fp": K[:4]}, {"fp": base["chain"][:4]}, {"cn": base["chain"][:4]}, {"cn": K[:4]}, {"cn": f}, {"cn": [0, 0, 0, base["depth"]]}, {"cn": [128, 0, 0, base["depth"]]},
                    {"fp": [base["depth"]] * 4, "cn": [base["depth"]] * 4, "chain": [base["depth"]] * 32}, {"fp": [0] * 4, "cn": [0] * 4}, {"fp": [0] * 4}, {"cn": [0] * 4}, {"cn": [128, 0, 0, 0]}, {"depth": 0, "fp": [0] * 4, "cn": [0] * 4, "chain": K},
                    {"depth": 1, "fp": [0] * 4}, {"chain": (K[:1] * 32)}, {"depth": K[0]}, {"depth": base["cn"][3] or 1}, {"chain": [0] * 31 + [1]}, {"chain": list(b"Bitcoin seed" + bytes(20))}]
            for a in alts:
                o = {**base, **a}
                if not prv: o = {**o, "kind": "pub", "key": list(X)}
                out.append(o)
        return out
    if prop in ("C05", "C06", "C07", "C08"):
        for o in twins():
            y = {**o, "kind": "pub", "key": list(pub(int.from_bytes(bytes(o["key"]), "big")))}; soft = [o["cn"][0] & 127] + o["cn"][1:]
            cs = [o["cn"], o["fp"], o["chain"][:4], [0, 0, 0, o["depth"]]]; c = r.choice(cs)
            if prop == "C05": evs += [{"op": "ckd", "self": g.lit(o), "cn": c} for c in r.sample(cs, 2)]
            if prop == "C06": evs += [{"op": "commute", "self": g.lit(o), "path": [soft]}, {"op": "neuter", "self": g.lit(o)}, {"op": "ckd", "self": g.lit(y), "cn": [soft[0] | 128] + soft[1:]}]
            if prop == "C07":
                for k in (o, y): evs.append({"op": "path.derive", "self": g.lit(k), "path": [soft, soft, [c[0] & 127] + c[1:], soft], "mk": r.choice(("push", "extend", "parse")), "cuts": [2]})
            if prop == "C08": evs += [{"op": "ckd", "self": g.lit(o), "cn": c}, {"op": "ckd", "self": g.lit(y), "cn": soft}, {"op": "fp", "self": g.lit(y)}]
    if prop in ("C10", "C12", "C16"):
        for o in twins():
            y = {**o, "kind": "pub", "key": list(pub(int.from_bytes(bytes(o["key"]), "big")))}
            if prop == "C10": evs += [{"op": "export", "self": g.lit(q), "std": r.choice(PRVS if q is o else PUBS)} for q in (o, y) if q["depth"] or (q["fp"] == [0] * 4 and q["cn"] == [0] * 4)]
            if prop == "C12":
                z = {**o, "chain": o["chain"][:31] + [o["chain"][31] ^ 1]}; w = {**o, "key": B(N - int.from_bytes(bytes(o["key"]), "big"))}
                for a, b in ((o, o), (y, y), (o, z), (o, w), (y, {**y, "chain": z["chain"]}), (y, {**y, "cn": [y["cn"][0] ^ 128] + y["cn"][1:]})): evs.append({"op": "eq", "a": g.lit(a), "b": g.lit(b)})
            if prop == "C16": evs += [{"op": "dbg", "a": g.lit(o), "b": g.lit({**o, "key": list(g.key())})}]
    if prop == "C14":
        for _ in range(4):
            k = r.randrange(1, N); K = B(k); X = pub(k); m = list(g.rb(32))
            evs += [{"op": "sign", "key": K, "msg": q} for q in (K, K[::-1], list(X[1:]), B(N - k), B(k + 1), list(sha(bytes(K))), list(sha(X)), m[:16] + m[:16], m[:8] * 4, m[:4] * 8, m[:16] + m[15::-1], [K[i] ^ 255 for i in range(32)], m)]
    if prop == "C13":
        for _ in range(6):
            k = r.randrange(1, N); K = B(k); X = pub(k)
            evs += [{"op": o, "key": q, "t": t} for o, q in (("sk.tweak", K), ("pk.tweak", list(X))) for t in (K, K[::-1], list(X[1:]), B(N - k), B(2 * k % N), B(N - 2 * k % N), list(sha(bytes(K))), list(sha(X)), B(pow(k, -1, N)))]
    if prop in ("C04",):
        for n in (16, 32, 64, 128):
            for w in (1, 2, 4, 8, 16, 32, 64):
                if w < n: b = g.rb(w); evs.append({"op": "prv.new", "seed": list(b * (n // w))})
            b = g.rb(n // 2); evs += [{"op": "prv.new", "seed": list(q)} for q in (b + b[::-1], b + bytes(x ^ 255 for x in b), bytes(sorted(b + b)), (b"Bitcoin seed" * 11)[:n], ("0123456789abcdef" * 8).encode()[:n], ("abandon " * 16).encode()[:n], g.rb(n).hex()[:n].encode())]
    if prop in ("C01", "C02", "C21"):
        ents = []
        for n in ENT:
            k = n * 3 // 4; half = g.rb(n // 2); ents += [half + half, half + half[::-1], bytes(sorted(g.rb(n))), bytes(sorted(g.rb(n), reverse=True)), g.rb(4) * (n // 4), g.rb(n // 4) * 4, g.rb(n).hex()[:n].encode()]
            for w in [0, 1, 2047, 2046, 1024] + r.sample(range(2048), 12 if prop != "C21" else 3):   # one word over and over, then two in turn
                for pat in ([w] * k, [w, (w * 7 + 13) % 2048] * (k // 2 + 1), sorted(r.sample(range(2048), k)), sorted(r.sample(range(2048), k), reverse=True), [w] * (k // 2) + [r.randrange(2048)] * (k - k // 2)):
                    v = 0
                    for x in pat[:k]: v = v << 11 | x
                    ents.append((v >> (11 * k - 8 * n)).to_bytes(n, "big"))
        for e in ents:
            l = g.lang(); ws = phrase(l, e)
            if prop == "C01": evs.append({"op": "mn.entropy", "lang": l, "ent": list(e)})
            if prop == "C02": evs += [{"op": o, "lang": l, "text": U(" ".join(q))} for o in ("mn.phrase", "mn.validate") for q in ((ws,) if r.random() < .6 else (ws, [x for i, x in enumerate(ws) if i == 0 or x != ws[i - 1]], sorted(ws), ws[::-1]))]
            if prop == "C21": evs.append({"op": "mn.render", "self": {"lit": {"kind": "mn", "lang": l, "ent": list(e)}}})
    if prop == "C03":
        for l in ("en", "zh"):
            e = g.rb(r.choice(ENT)); ws = phrase(l, e); p = " ".join(ws)
            for q in (p, p[::-1], p.upper(), e.hex(), e.hex().upper(), ws[0], ws[-1], " ".join(ws[::-1]), " ".join(ws[1:]), "mnemonic" + p, p + " ", " " + p, "\u3000".join(ws), "".join(ws), p + p, "mnemonicmnemonic", "Bitcoin seed", "English", "en", "zh-cn", wide(p), str(len(ws)), "null", "None", "none", "undefined", "default", "password", "true", "0", "0x", "00" * 32):
                evs.append({"op": "seed.new", "self": {"lit": {"kind": "mn", "lang": l, "ent": list(e)}}, "pass": U(q)})
    r.shuffle(evs); g.spread(evs, 40, "twin")
def ripe(b):
    try: return hashlib.new("ripemd160", b).digest()
    except ValueError: return b

ALL = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12,
       "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25, "C26": c26, "C27": c27}

def c19(g):
    """a sample of every other property's calls, each session self-contained"""
    for p, f in sorted(ALL.items()):
        if p in ("C15", "C17", "C19", "C25", "C26"): continue
        h = Gen(p, f"{g.r.random()}", False); f(h); rarely(h, p); coincide(h, p)
        ss = h.sessions; g.r.shuffle(ss)
        size = 0; pick = []
        for s in ss:
            if any(e["op"] == "mn.new" for e in s["evs"]): continue
            evs = s["evs"] if any("out" in e for e in s["evs"]) else s["evs"][:12]
            if len(evs) > 80: continue
            if any(len(e.get("path", [])) > 20 or len(e.get("text", [])) > 2000 for e in evs): continue
            if any(e["op"] == "lang.prefix" and not e["text"] for e in evs): continue
            if size < g.n(70, 400): g.add(evs, p.lower() + "_")
            else: pick.append(s["evs"])
            size += len(evs)
            if size > g.n(600, 2000): break
        for evs in pick: g.add(evs, "wide_")             # these in plain and in strange surroundings only
    # clones into objects that held something else, and what is made from them afterwards
    def mn(): return {"kind": "mn", "lang": g.lang(), "ent": list(g.rb(g.r.choice(ENT)))}
    def ek(): s = g.r.randrange(8); return {"kind": "ek", "std": s, **g.attrs(), "key": list(b"\0" + g.key()) if s in PRVS else list(g.point())}
    for _ in range(g.n(12)):
        for kind, make in (("mn", mn), ("seed", lambda: {"kind": "seed", "mn": mn(), "pass": U(g.r.choice(PASS))}), ("prv", lambda: g.prv(g.r.randrange(250))), ("pub", lambda: g.pub(g.r.randrange(250))), ("ek", ek)):
            x, y = make(), make()
            if kind in ("prv", "pub", "ek") and g.r.random() < .6:             # alike but for one part
                y = dict(x); f = g.r.choice(("depth", "fp", "cn", "chain", "key", "hard")); z = make()
                if f == "hard": y["cn"] = [x["cn"][0] ^ 128] + x["cn"][1:]
                elif f != "key" or kind != "ek": y[f] = z[f]
            first = {"op": "clone", "self": g.lit(x), "b": g.lit(y), "parts": g.r.random() < .5, "out": 1}
            then = {"mn": [{"op": "seed.new", "self": {"h": 1}, "pass": []}, {"op": "mn.render", "self": {"h": 1}}], "seed": [{"op": "prv.new", "self": {"h": 1}}, {"op": "seed.render", "self": {"h": 1}}], "prv": [{"op": "ckd", "self": {"h": 1}, "cn": g.cn()}, {"op": "export", "self": {"h": 1}, "std": 2}, {"op": "eq", "a": {"h": 1}, "b": g.lit(x)}],
                    "pub": [{"op": "ckd", "self": {"h": 1}, "cn": g.cn(False)}, {"op": "export", "self": {"h": 1}, "std": 3}, {"op": "eq", "a": {"h": 1}, "b": g.lit(x)}], "ek": [{"op": "ek.show", "self": {"h": 1}}]}[kind]
            g.add([first] + then, "assign_")
ALL["C19"] = c19

def make(prop, seed, thorough):
    g = Gen(prop, seed, thorough)
    ALL[prop](g); rarely(g, prop); coincide(g, prop)
    return g.sessions

if __name__ == "__main__":
    import sys, time
    for p in sys.argv[1:] or sorted(ALL):
        t = time.time(); s = make(p, 1, False)
        print(p, len(s), sum(len(x["evs"]) for x in s), round(time.time() - t, 2))
