#!/usr/bin/env python3
"""Writes spec/data/vectors.json: published test vectors, and samples computed by Python's own libraries,
against which SelfTest.tla checks the primitives and KMS itself.  Run once; its output is committed."""
import hashlib, hmac, json, os, random, re, unicodedata
from ref import *
from gen import PASS, SPACES
r = random.Random(7)
L = lambda b: list(b)
T = lambda s: list(s.encode())
V = []
def add(kind, **kw): V.append({"kind": kind, **kw})
# FIPS 180-4, RFC 4231, the RIPEMD-160 paper
add("sha256", m=T("abc"), d=L(bytes.fromhex("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")))
add("sha256", m=[], d=L(bytes.fromhex("e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")))
add("hmac", k=[0x0b] * 20, m=T("Hi There"), d=L(bytes.fromhex("87aa7cdea5ef619d4ff0b4241a1d6cb02379f4e2ce4ec2787ad0b30545e17cdedaa833b7d6b8a702038b274eaea3f4e4be9d914eeb61f1702e696c203a126854")))
add("hmac", k=T("Jefe"), m=T("what do ya want for nothing?"), d=L(bytes.fromhex("164b7a7bfcf819e2e395fbe73b56e0a387bd64222e831fd610270cd7ea2505549758bf75c05a994a6d034f65f8f0e6fdcaeab1a34d4a6b4b636e070a38bce737")))
for m, d in (("", "9c1185a5c5e9fc54612808977ee8f548b2258d31"), ("a", "0bdc9d2d256b3ee9daae347be6f4dc835a467ffe"), ("abc", "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"), ("message digest", "5d0689ef49d2fae572b881b123a85ffa21595f36"),
             ("abcdefghijklmnopqrstuvwxyz", "f71c27109c692c1b56bbdceb5b9d2865b3708dbc"), ("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq", "12a053384a9c0c88e405a06c27dcf49ada62eb2b"),
             ("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789", "b0e20b6e3116640286ed3a87a5713079b21f5189"), ("1234567890" * 8, "9b752e45573d4b39f4dbd3323cab82bf63326bfb")): add("ripemd", m=T(m), d=L(bytes.fromhex(d)))
# Python's own libraries
for _ in range(60):
    m = r.randbytes(r.randrange(0, 200)); k = r.randbytes(r.choice((1, 12, 32, 127, 128, 129, 200)))
    add("sha256", m=L(m), d=L(hashlib.sha256(m).digest())); add("hmac", k=L(k), m=L(m), d=L(hmac.new(k, m, hashlib.sha512).digest()))
    try: add("ripemd", m=L(m), d=L(hashlib.new("ripemd160", m).digest()))
    except ValueError: pass
for _ in range(8):
    p, s = r.randbytes(r.choice((1, 80, 150))), r.randbytes(r.randrange(8, 60)); add("pbkdf", p=L(p), s=L(s), d=L(hashlib.pbkdf2_hmac("sha512", p, s, 2048)))
# Unicode
texts = PASS + SPACES + [WORDS["zh"][i] for i in range(0, 2048, 101)] + ["".join(chr(r.choice((r.randrange(0x20, 0x250), r.randrange(0x300, 0x370), r.randrange(0xac00, 0xd7a3), r.randrange(0x3040, 0x30ff), r.randrange(0x4e00, 0x9fff), r.randrange(0x1f600, 0x1f640)))) for _ in range(8)) for _ in range(60)]
for s in texts:
    if any(unicodedata.category(c) == "Cn" for c in s): continue
    add("nfkd", u=T(s), v=T(unicodedata.normalize("NFKD", s))); add("utf8", u=T(s), c=[ord(c) for c in s])
for w in WORDS["zh"][::17]: add("gb", u=T(w), v=L(w.encode("gb18030")))
add("gb", u=T("".join(WORDS["zh"])), v=L("".join(WORDS["zh"]).encode("gb18030")))
# base58
for n in (0, 1, 2, 5, 33, 82):
    for z in (0, 1, 3): b = b"\0" * z + r.randbytes(n); add("b58", b=L(b), t=T(b58(b)))
# curve: small multiples written down in many places, and random scalars
add("point", k=L((1).to_bytes(32, "big")), p=L(bytes.fromhex("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")))
add("point", k=L((2).to_bytes(32, "big")), p=L(bytes.fromhex("02c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5")))
add("point", k=L((3).to_bytes(32, "big")), p=L(bytes.fromhex("02f9308a019258c31049344f85f89d5229b531c845836f99b08601f113bce036f9")))
add("point", k=L((N - 1).to_bytes(32, "big")), p=L(bytes.fromhex("0379be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")))
for _ in range(20): k = r.randrange(1, N); add("point", k=L(k.to_bytes(32, "big")), p=L(pub(k)))
for _ in range(40): a, b = r.randrange(1, N), r.choice((r.randrange(1, N), r.randrange(1, 2**64))); add("group", a=L(a.to_bytes(32, "big")), b=L(b.to_bytes(32, "big")), s=L(((a + b) % N).to_bytes(32, "big")), neg=L((N - a).to_bytes(32, "big")))
# ECDSA made by hand (with a nonce), so that verification, recovery and the low-S test have known answers
for i in range(30):
    d, k, z = r.randrange(1, N), r.randrange(1, N), r.getrandbits(256)
    R = mulg(k); rr = R[0] % N; s = pow(k, -1, N) * (z + rr * d) % N; rid = (R[1] & 1) | (2 if R[0] >= N else 0)
    add("sig", p=L(pub(d)), m=L(z.to_bytes(32, "big")), sig=L(rr.to_bytes(32, "big") + s.to_bytes(32, "big")), id=rid, low=s <= N // 2)
# BIP39 (Trezor) and BIP32 vectors, as published
src = open(os.path.join(REPO, "src/bip39/mod.rs")).read()
four = re.findall(r'\[\s*"([0-9a-f]+)",\s*"([a-z ]+)",\s*"([0-9a-f]{128})",\s*"(xprv\w+)"\s*\]', src); assert len(four) == 24
for e, p, s, x in four: add("bip39", lang="en", ent=L(bytes.fromhex(e)), phrase=T(p), passw=T("TREZOR"), seed=L(bytes.fromhex(s)), xprv=T(x))
tv = [("000102030405060708090a0b0c0d0e0f", re.findall(r'\(\s*"(m[^"]*)",\s*"(xprv\w+)",\s*"(xpub\w+)"\s*\)', open(os.path.join(REPO, "src/bip32/mod.rs")).read())),
      ("4b381541583be4423346c643850da4b320e46a87ae3d2a4e6da11eba819cd4acba45d239319ac14f863b8d5ab5a0d0c64d2e8a1e7d1457df2e5a3c51c73235be",   # leading zeros
       [("m", "xprv9s21ZrQH143K25QhxbucbDDuQ4naNntJRi4KUfWT7xo4EKsHt2QJDu7KXp1A3u7Bi1j8ph3EGsZ9Xvz9dGuVrtHHs7pXeTzjuxBrCmmhgC6", "xpub661MyMwAqRbcEZVB4dScxMAdx6d4nFc9nvyvH3v4gJL378CSRZiYmhRoP7mBy6gSPSCYk6SzXPTf3ND1cZAceL7SfJ1Z3GC8vBgp2epUt13"),
        ("m/0'", "xprv9uPDJpEQgRQfDcW7BkF7eTya6RPxXeJCqCJGHuCJ4GiRVLzkTXBAJMu2qaMWPrS7AANYqdq6vcBcBUdJCVVFceUvJFjaPdGZ2y9WACViL4L", "xpub68NZiKmJWnxxS6aaHmn81bvJeTESw724CRDs6HbuccFQN9Ku14VQrADWgqbhhTHBaohPX4CjNLf9fq9MYo6oDaPPLPxSb7gwQN3ih19Zm4Y")])]
assert len(tv[0][1]) == 6
for seed, rows in tv:
    for p, xprv, xpub in rows: add("bip32", seed=L(bytes.fromhex(seed)), path=T(p), xprv=T(xprv), xpub=T(xpub))
# BIP32 vector 5: invalid extended keys
bad = """xpub661MyMwAqRbcEYS8w7XLSVeEsBXy79zSzH1J8vCdxAZningWLdN3zgtU6LBpB85b3D2yc8sfvZU521AAwdZafEz7mnzBBsz4wKY5fTtTQBm
xprv9s21ZrQH143K24Mfq5zL5MhWK9hUhhGbd45hLXo2Pq2oqzMMo63oStZzFGTQQD3dC4H2D5GBj7vWvSQaaBv5cxi9gafk7NF3pnBju6dwKvH
xpub661MyMwAqRbcEYS8w7XLSVeEsBXy79zSzH1J8vCdxAZningWLdN3zgtU6Txnt3siSujt9RCVYsx4qHZGc62TG4McvMGcAUjeuwZdduYEvFn
xprv9s21ZrQH143K24Mfq5zL5MhWK9hUhhGbd45hLXo2Pq2oqzMMo63oStZzFGpWnsj83BHtEy5Zt8CcDr1UiRXuWCmTQLxEK9vbz5gPstX92JQ
xpub661MyMwAqRbcEYS8w7XLSVeEsBXy79zSzH1J8vCdxAZningWLdN3zgtU6N8ZMMXctdiCjxTNq964yKkwrkBJJwpzZS4HS2fxvyYUA4q2Xe4
xprv9s21ZrQH143K24Mfq5zL5MhWK9hUhhGbd45hLXo2Pq2oqzMMo63oStZzFAzHGBP2UuGCqWLTAPLcMtD9y5gkZ6Eq3Rjuahrv17fEQ3Qen6J
xprv9s2SPatNQ9Vc6GTbVMFPFo7jsaZySyzk7L8n2uqKXJen3KUmvQNTuLh3fhZMBoG3G4ZW1N2kZuHEPY53qmbZzCHshoQnNf4GvELZfqTUrcv
xpub661no6RGEX3uJkY4bNnPcw4URcQTrSibUZ4NqJEw5eBkv7ovTwgiT91XX27VbEXGENhYRCf7hyEbWrR3FewATdCEebj6znwMfQkhRYHRLpJ
xprv9s21ZrQH4r4TsiLvyLXqM9P7k1K3EYhA1kkD6xuquB5i39AU8KF42acDyL3qsDbU9NmZn6MsGSUYZEsuoePmjzsB3eFKSUEh3Gu1N3cqVUN
xpub661MyMwAuDcm6CRQ5N4qiHKrJ39Xe1R1NyfouMKTTWcguwVcfrZJaNvhpebzGerh7gucBvzEQWRugZDuDXjNDRmXzSZe4c7mnTK97pTvGS8
DMwo58pR1QLEFihHiXPVykYB6fJmsTeHvyTp7hRThAtCX8CvYzgPcn8XnmdfHGMQzT7ayAmfo4z3gY5KfbrZWZ6St24UVf2Qgo6oujFktLHdHY4
DMwo58pR1QLEFihHiXPVykYB6fJmsTeHvyTp7hRThAtCX8CvYzgPcn8XnmdfHPmHJiEDXkTiJTVV9rHEBUem2mwVbbNfvT2MTcAqj3nesx8uBf9
xprv9s21ZrQH143K24Mfq5zL5MhWK9hUhhGbd45hLXo2Pq2oqzMMo63oStZzF93Y5wvzdUayhgkkFoicQZcP3y52uPPxFnfoLZB21Teqt1VvEHx
xprv9s21ZrQH143K24Mfq5zL5MhWK9hUhhGbd45hLXo2Pq2oqzMMo63oStZzFAzHGBP2UuGCqWLTAPLcMtD5SDKr24z3aiUvKr9bJpdrcLg1y3G
xpub661MyMwAqRbcEYS8w7XLSVeEsBXy79zSzH1J8vCdxAZningWLdN3zgtU6Q5JXayek4PRsn35jii4veMimro1xefsM58PgBMrvdYre8QyULY
xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHL"""
for t in bad.split(): add("badkey", t=T(t))
for l, h in (("en", "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda"), ("zh", "5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726")): add("dict", lang=l, d=L(bytes.fromhex(h)))
json.dump(V, open(os.path.join(VERIF, "spec/data/vectors.json"), "w"), separators=(",", ":"))
print(len(V))
