#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
B39="src/bip39/"; B32="src/bip32/"; EK=B32+"extended_key/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[dict(name=a,meaning=b,where=c) for a,b,c in state],
        "mechanism":[dict(name=a,where=b) for a,b in mech],
        "observe_at":observe,"hook_needed":hook}})

p("C01","A mnemonic encodes its entropy exactly as BIP39 prescribes",
 "For every supported language and every entropy of 16, 20, 24, 28 or 32 bytes, building a mnemonic from entropy yields exactly the words selected by the 11-bit groups of the entropy followed by the first (bits/32) bits of its SHA-256, joined by single spaces, and the mnemonic reports that same entropy and language back. Every other entropy length is refused with an error.",
 ["inputs"],"all entropies of the five sizes (2^128..2^256 of them), both languages, and all other lengths",
 "The tests fix 24 English vectors plus one 128-bit entropy; no Chinese mnemonic, no 160/224-bit entropy and no refused length is ever tried.",
 [B39+"mnemonic.rs",B39+"util.rs",B39+"crypto.rs",B39+"mnemonic_type.rs",B39+"language.rs"],
 [("from_entropy / from_entropy_unchecked",B39+"mnemonic.rs"),("BitIter regrouping 8->11 bits",B39+"util.rs"),("sha256_first_byte",B39+"crypto.rs")],
 ["Mnemonic::from_entropy","Mnemonic::phrase","Mnemonic::entropy","Mnemonic::language"])

p("C02","Phrase import accepts exactly the valid phrases and recovers the entropy",
 "Importing a phrase succeeds if and only if, after Unicode NFKD normalisation and collapsing of white space, it consists of 12, 15, 18, 21 or 24 words of the chosen language's list whose trailing checksum bits match the entropy; it then yields exactly that entropy and the normalised single-spaced phrase, and otherwise an error, never a panic. The stand-alone validator gives the same verdict as import on every phrase that is already normalised and single-spaced, and never accepts a phrase that import refuses.",
 ["inputs"],"all strings offered as phrases, in both languages: valid ones in any spacing and Unicode form, and every kind of damaged one (wrong word, wrong count, wrong checksum, wrong language)",
 "The tests import 26 valid English phrases and not a single invalid one; a checksum that is never enforced, or enforced on too few bits, passes them all.",
 [B39+"mnemonic.rs",B39+"util.rs",B39+"mnemonic_type.rs",B39+"language.rs",B39+"crypto.rs"],
 [("from_phrase / validate / phrase_to_entropy",B39+"mnemonic.rs"),("BitWriter",B39+"util.rs"),("checksum",B39+"util.rs"),("for_word_count",B39+"mnemonic_type.rs")],
 ["Mnemonic::from_phrase","Mnemonic::validate","Mnemonic::entropy","Mnemonic::phrase"])

p("C03","The seed is the BIP39 PBKDF2 of the phrase and the normalised passphrase",
 "For every mnemonic and every passphrase the seed is the 64-byte PBKDF2-HMAC-SHA512 with 2048 rounds of the phrase's bytes, salted with \"mnemonic\" followed by the NFKD-normalised passphrase (UTF-8; a Simplified Chinese phrase is fed in as its GB18030 encoding, which is this library's documented choice). Hence the seed does not depend on the passphrase's Unicode form, on how the phrase was spaced when imported, or on whether the mnemonic came from entropy or from text, and the whole passphrase takes part.",
 ["inputs"],"all mnemonics of both languages and all passphrases (any length and any Unicode content)",
 "The tests use one ASCII passphrase throughout plus one English phrase with a Unicode passphrase; no Chinese seed, no empty-passphrase value and no long passphrase is compared with anything.",
 [B39+"seed.rs",B39+"crypto.rs",B39+"mnemonic.rs"],
 [("Seed::new",B39+"seed.rs"),("pbkdf2",B39+"crypto.rs"),("Mnemonic::as_bytes",B39+"mnemonic.rs")],
 ["Seed::new","Seed::as_bytes","Mnemonic::as_bytes"])

p("C04","Master key generation follows BIP32 and admits only proper seed lengths",
 "For every seed of 16, 32, 64 or 128 bytes the master extended private key has as private key and chain code the left and right half of HMAC-SHA512 of the seed under the key \"Bitcoin seed\", with depth zero, parent fingerprint zero and child number zero. Seeds of every other length are refused with an error.",
 ["inputs"],"all byte strings offered as seeds, of every length and content",
 "The tests build masters from a couple of dozen fixed 16- and 64-byte seeds; no refused length is ever tried.",
 [EK+"extended_private_key.rs"],
 [("ExtendedPrivateKey::new",EK+"extended_private_key.rs")],
 ["XPrv::new","XPrv::to_bytes","XPrv::attrs"])

p("C05","Private child derivation computes the BIP32 child key and chain code",
 "For every extended private key and every child number, hardened or not, the derived child has private key (left half of the HMAC + parent key) mod n and chain code equal to the right half, where the HMAC-SHA512 is keyed by the parent chain code over 0x00||parent private key||index for hardened and compressed parent public key||index for normal children. The parent is left unchanged.",
 ["inputs","histories"],"all parent keys (including extreme scalars and keys with leading zero bytes), chain codes, depths below 255 and all 2^32 child numbers",
 "The tests derive along two fixed paths from three fixed seeds; keys with leading zero bytes, scalars near the group order and almost all indices are never met.",
 [EK+"extended_private_key.rs",B32+"private_key.rs",B32+"child_number.rs"],
 [("ExtendedPrivateKey::derive_child",EK+"extended_private_key.rs"),("PrivateKey::derive_child",B32+"private_key.rs")],
 ["XPrv::derive_child","XPrv::to_bytes","XPrv::attrs().chain_code"])

p("C06","Public derivation agrees with private derivation, and hardening is a barrier",
 "For every extended private key and every normal child number, deriving the child and then taking its public key gives the same extended public key (point, chain code and all attributes) as taking the public key and then deriving the child. From an extended public key no hardened child can ever be derived: the attempt is an error.",
 ["inputs","histories"],"all extended keys, all child numbers, and all interleavings of neutering and deriving along a path",
 "One test compares one public derivation step with one constant; no test attempts a hardened child of a public key or a second public step.",
 [EK+"extended_public_key.rs",EK+"extended_private_key.rs",B32+"public_key.rs",B32+"private_key.rs"],
 [("ExtendedPublicKey::derive_child",EK+"extended_public_key.rs"),("From<&ExtendedPrivateKey>",EK+"extended_public_key.rs"),("PublicKey::derive_child",B32+"public_key.rs")],
 ["XPrv::public_key","XPub::derive_child","XPub::to_bytes","XPub::attrs"])

p("C07","Deriving along a path equals deriving step by step",
 "For every seed, extended private or public key, and every derivation path, deriving along the path gives exactly the key obtained by deriving its child numbers one after another, however the path is split into consecutive parts; the empty path gives the key itself. The path derivation fails exactly when one of the single steps fails.",
 ["inputs","histories"],"all keys and all paths (any length, any mixture of hardened and normal steps), all ways of splitting them",
 "The tests follow two fixed five-step paths from a seed; derivation along a path from an existing private or public key is never called at all.",
 [EK+"extended_private_key.rs",EK+"extended_public_key.rs",B32+"derivation_path.rs"],
 [("new_from_path / derive_from_path",EK+"extended_private_key.rs"),("derive_from_path",EK+"extended_public_key.rs")],
 ["XPrv::new_from_path","XPrv::derive_from_path","XPub::derive_from_path"])

p("C08","A derived key carries its true lineage and depth never overflows",
 "Every child derived from an extended private or public key records depth one greater than its parent's, the child number it was derived with, and as parent fingerprint the first four bytes of RIPEMD160(SHA256(compressed parent public key)). From a key of depth 255 no child can be derived: the attempt is an error and never wraps, saturates or panics.",
 ["inputs","histories"],"all parents, private and public, at every depth 0..255, and all child numbers",
 "The tests reach depth five along fixed paths and never come near the limit.",
 [EK+"extended_private_key.rs",EK+"extended_public_key.rs",B32+"public_key.rs"],
 [("checked depth increment and attrs in derive_child",EK+"extended_private_key.rs"),("the same for public keys",EK+"extended_public_key.rs"),("PublicKey::fingerprint",B32+"public_key.rs")],
 ["XPrv::derive_child","XPub::derive_child","attrs()","XPub::fingerprint"])

p("C09","Path and child-number text denotes exactly its value",
 "Every derivation path and child number prints in the canonical notation (m followed by /index, with an apostrophe exactly on hardened steps) and parses back to an equal value. Text parses only if it is such notation with every index a decimal number below 2^31 (leading zeros allowed); anything else, including numbers of 2^31 or more, empty steps, other markers and missing m, is an error and never a panic or a different path.",
 ["inputs"],"all paths and child numbers, and all strings offered as paths or child numbers (an explicit leading plus sign is left unspecified)",
 "The tests round-trip six fixed paths and try a single malformed child number; no malformed path is tried.",
 [B32+"derivation_path.rs",B32+"child_number.rs"],
 [("FromStr/Display for DerivationPath",B32+"derivation_path.rs"),("FromStr/Display/new for ChildNumber",B32+"child_number.rs")],
 ["str::parse::<DerivationPath>","DerivationPath::to_string","str::parse::<ChildNumber>","ChildNumber::to_string","ChildNumber::new","DerivationPath::parent"])

p("C10","Exported extended keys have the BIP32 layout and import back unchanged",
 "For every extended private or public key and every registered version prefix of its kind (SLIP-132: the eight constants of the library and the twelve others), the exported text is the Base58Check of the 78 bytes version, depth, parent fingerprint, child number, chain code, key (0x00||private key, or compressed public key), and starts with that prefix's four letters. Importing the text gives back an equal key: same key material, same attributes, same version.",
 ["inputs"],"all extended keys (any key, chain code, depth, fingerprint, child number) and all twenty registered prefixes",
 "The tests export a few dozen fixed keys, all under xprv/xpub; the other six prefixes and extreme field values are never exported.",
 [EK+"mod.rs",EK+"extended_private_key.rs",EK+"extended_public_key.rs",B32+"prefix.rs",B32+"child_number.rs"],
 [("ExtendedKey::write_base58 / Display",EK+"mod.rs"),("ExtendedKey::from_str",EK+"mod.rs"),("to_extended_key / TryFrom<ExtendedKey>",EK+"extended_private_key.rs")],
 ["XPrv::to_string","XPub::to_string","ExtendedKey::to_string","str::parse::<XPrv>","str::parse::<XPub>","str::parse::<ExtendedKey>"])

p("C11","Import of a malformed extended key is always refused",
 "Text is accepted as an extended private (public) key only if it is the Base58Check encoding, with correct checksum, of exactly 78 bytes whose version belongs to a private (public) prefix, whose key field is 0x00 followed by a scalar in 1..n-1 (a valid compressed curve point), and which at depth zero has zero parent fingerprint and zero child number. Everything else - damaged, truncated, extended or non-ASCII text, private material under a public version or the reverse, out-of-range scalars, points not on the curve - yields an error, never a key and never a panic.",
 ["inputs","fault_sequences"],"all strings offered as extended keys, in particular every damage to a valid one and every structurally invalid payload carrying a correct checksum",
 "No existing test offers the parser a single invalid extended key.",
 [EK+"mod.rs",EK+"extended_private_key.rs",EK+"extended_public_key.rs",B32+"prefix.rs",B32+"private_key.rs",B32+"public_key.rs"],
 [("ExtendedKey::from_str",EK+"mod.rs"),("TryFrom<ExtendedKey> for ExtendedPrivateKey",EK+"extended_private_key.rs"),("TryFrom<ExtendedKey> for ExtendedPublicKey",EK+"extended_public_key.rs"),("Prefix::validate_str",B32+"prefix.rs")],
 ["str::parse::<XPrv>","str::parse::<XPub>","str::parse::<ExtendedKey>","XPrv::try_from(ExtendedKey)","XPub::try_from(ExtendedKey)"])

p("C12","Two extended keys compare equal exactly when all their content is equal",
 "Two extended private keys compare equal, with == and with the constant-time comparison alike, if and only if their private keys, chain codes, depths, parent fingerprints and child numbers are all equal; the same holds for extended public keys and their points. Equality therefore implies identical exports and identical children, and a difference in any single field is always seen.",
 ["inputs"],"all pairs of extended keys, in particular pairs that differ in a single field or a single bit",
 "Every comparison in the tests is between keys that are expected to be equal; a comparison that always answers true passes them all.",
 [EK+"extended_private_key.rs",EK+"extended_public_key.rs",EK+"attrs.rs"],
 [("ConstantTimeEq / PartialEq",EK+"extended_private_key.rs"),("derived PartialEq",EK+"extended_public_key.rs"),("ExtendedKeyAttrs PartialEq",EK+"attrs.rs")],
 ["XPrv == XPrv","XPrv::ct_eq","XPub == XPub"])

p("C13","Key-level arithmetic is exact and rejects out-of-range values without panic",
 "A private key is created from 32 bytes if and only if they are a scalar in 1..n-1, a public key from 33 bytes if and only if they are a valid compressed curve point, and both serialise back to the same bytes. Tweaking a private key gives (key + tweak) mod n and tweaking the corresponding public key gives the matching point; a tweak that is zero or at least n, or a result that is zero or the point at infinity, is reported as an error and never panics.",
 ["inputs"],"all 32-byte and 33-byte strings as keys and all 32-byte strings as tweaks, including the boundary of the group order and additive inverses",
 "The tests only ever tweak with a handful of HMAC outputs, where the rejected values have probability below 2^-127.",
 [B32+"private_key.rs",B32+"public_key.rs"],
 [("PrivateKey::from_bytes / derive_child / public_key",B32+"private_key.rs"),("PublicKey::from_bytes / derive_child",B32+"public_key.rs")],
 ["PrivateKey::from_bytes","PrivateKey::derive_child","PrivateKey::public_key","PublicKey::from_bytes","PublicKey::derive_child"])

p("C14","Signatures verify, recover the signer, and never reuse a nonce",
 "For every secret key and every 32-byte message hash, signing yields a low-S ECDSA signature that verifies under the corresponding public key, together with the recovery id that recovers exactly that public key. Signing the same input again gives the same signature, different keys or messages (that differ modulo the group order) never share the nonce point, and a message of any other length is refused with an error.",
 ["inputs","histories"],"all secret keys, all message byte strings of every length, and all sequences of signing calls",
 "No existing test calls the signing function.",
 ["src/lib.rs","src/error.rs"],
 [("ecdsa_sign","src/lib.rs")],
 ["kms::ecdsa_sign"])

p("C15","Secret buffers are wiped before their memory is released",
 "When a seed, a mnemonic or a serialised extended key is dropped - normally, as a clone or while the original lives on, or during unwinding from a panic - the memory that held the seed bytes, the phrase, the entropy or the key bytes has been overwritten with zeros before it is released, and so is the text of an exported extended private key. Dropping a clone never disturbs the original, and moving the phrase out of a mnemonic hands over the intact phrase while its entropy is still wiped.",
 ["histories","inputs"],"all sequences of creating, cloning, moving out, dropping and unwinding such objects, for all sizes",
 "No existing test looks at memory after a drop.",
 [B39+"seed.rs",B39+"mnemonic.rs",EK+"mod.rs",EK+"extended_private_key.rs"],
 [("Drop for Seed",B39+"seed.rs"),("Zeroizing fields of Mnemonic, into_phrase",B39+"mnemonic.rs"),("Drop for ExtendedKey",EK+"mod.rs"),("Zeroizing<String> of to_string",EK+"extended_private_key.rs")],
 ["drop(Seed)","drop(Mnemonic)","drop(ExtendedKey)","Mnemonic::into_phrase","XPrv::to_string"])

p("C16","Debug output of an extended private key is independent of the private key",
 "Formatting an extended private key for debugging, in plain or pretty form and with any formatting options, reveals nothing about the private key: two extended private keys with equal attributes always produce identical output, whatever their private keys are.",
 ["inputs"],"all pairs of private keys and all attribute values",
 "One test prints the debug form and checks nothing; a leak of one byte cannot be seen by any fixed expected string that nobody wrote.",
 [EK+"extended_private_key.rs"],
 [("Debug for ExtendedPrivateKey",EK+"extended_private_key.rs")],
 ["format!(\"{:?}\", xprv)","format!(\"{:#?}\", xprv)"])

p("C17","Every generated mnemonic is valid and uses fresh entropy of full size",
 "Generating a mnemonic of a given size and language always gives a valid mnemonic of exactly that number of words in that language, whose entropy re-encodes to the same phrase. Its entropy is drawn fresh in full at every call: over any number of calls, threads and processes no entropy and no long stretch of entropy bytes repeats, and every bit of it varies. It carries all of the randomness the system gave for it: two calls that were given different randomness never give the same entropy. A system source that answers in small portions, is interrupted, or fails never leads to a mnemonic with predictable entropy.",
 ["schedules","histories","inputs"],"all sequences of generation calls over all sizes and languages, on any number of threads and in any number of processes",
 "The tests generate two mnemonics and only check that one of them round-trips; constant, stretched or short randomness passes, and the source never fails in a test.",
 [B39+"mnemonic.rs",B39+"crypto.rs",B39+"mnemonic_type.rs"],
 [("Mnemonic::new",B39+"mnemonic.rs"),("gen_random_bytes",B39+"crypto.rs")],
 ["Mnemonic::new"])

p("C18","Word lists and their lookups are exactly the official dictionaries",
 "For each supported language the word list is the official BIP39 list of 2048 distinct words; looking up an index and looking up a word are inverse to each other and every other string is refused; listing words by prefix returns exactly the words that start with it, in list order. Language codes are matched regardless of ASCII case and only the supported ones exist, and language detection on a phrase returns the language whose list holds its first word, or nothing. The default language is English.",
 ["inputs"],"all 2048 words and indices of both languages, all strings as words, prefixes, language codes and phrases",
 "The tests try three prefixes, one language code and one English phrase; the Chinese list is never read and only the count of the English one is checked.",
 [B39+"language.rs",B39+"util.rs",B39+"langs/english.txt",B39+"langs/chinese_simplified.txt"],
 [("WordList / WordMap",B39+"language.rs"),("Language::from_language_code / from_phrase",B39+"language.rs")],
 ["Language::wordlist","Language::wordmap","WordList::get_word","WordList::get_words_by_prefix","WordMap::get_bits","Language::from_language_code","Language::from_phrase"])

p("C19","Results depend on arguments only, not on history, thread or schedule",
 "Apart from generating new mnemonics, every operation is a pure function of its arguments: it gives the same result no matter which operations ran before, in which order, on which threads or concurrently with what, on an original or a clone, and also when it is the very first use in the process racing with others; nor does it depend on the environment, the clock or the name of the thread. No operation changes an object it was merely called on.",
 ["schedules","histories"],"all histories and thread interleavings of calls over shared and cloned objects, including concurrent first use of the lazily built word tables",
 "Unit tests run each call once in one order; a cache with an incomplete key or a racy first initialisation passes them.",
 [B39+"language.rs",B39+"mnemonic.rs",B39+"seed.rs",EK+"extended_private_key.rs",EK+"extended_public_key.rs",EK+"mod.rs"],
 [("lazy word tables",B39+"language.rs"),("&self receivers without interior state",EK+"extended_private_key.rs")],
 ["every public function, called repeatedly, reordered and concurrently"])

p("C20","A key prefix's version number, text and kind always agree",
 "Converting a 32-bit version (or its four big-endian bytes) to a prefix either fails or yields a prefix that reports exactly that version and whose text is the first four characters of the Base58Check of that version followed by zero bytes; it fails when those are not all ASCII letters or the byte string is not four bytes long. A prefix is private exactly if its text ends in prv and public exactly if it ends in pub, and the registered prefixes (the eight constants and the other SLIP-132 ones) carry their registered version numbers. Its debug form shows its letters and its version in hexadecimal. A prefix built from parts has exactly those letters and that version; building one from anything but four ASCII letters panics, as documented.",
 ["inputs"],"all 2^32 version numbers and all byte strings offered as versions",
 "The tests convert the eight standard versions only and never ask for kind or for a rejected version.",
 [B32+"prefix.rs",EK+"mod.rs"],
 [("Prefix::from_version / validate_str / is_public / is_private",B32+"prefix.rs")],
 ["Prefix::try_from(u32)","Prefix::from_parts_unchecked","Prefix::try_from(&[u8])","Prefix::from_bytes","Prefix::as_str","Prefix::version","Prefix::to_bytes","Prefix::is_public","Prefix::is_private"])

p("C21","Textual renderings of mnemonics and seeds are faithful",
 "For every mnemonic and seed the lower- and upper-case hexadecimal formats are exactly two digits per byte of the entropy or the seed in order, preceded by 0x exactly in the alternate form; a seed's debug form, plain or pretty, is its upper-case alternate hexadecimal. Displaying a mnemonic, borrowing it as text, converting it into a string and moving its phrase out all give exactly its phrase; its debug form, plain or pretty, is the phrase in quotation marks, and its bytes are the phrase's (UTF-8; GB18030 for Simplified Chinese).",
 ["inputs"],"all mnemonics (both languages, all sizes) and all seeds, in every format",
 "The tests print one fixed entropy and one fixed seed; bytes below 0x10 and the other mnemonic sizes are barely covered, Display only through one random English phrase, and the conversions into strings not at all.",
 [B39+"mnemonic.rs",B39+"seed.rs"],
 [("LowerHex/UpperHex/Display/Debug/AsRef/into_phrase",B39+"mnemonic.rs"),("LowerHex/UpperHex/Debug",B39+"seed.rs")],
 ["format!(\"{:x}\"), {:X}, {:#x}, {:#X}, {:?} of Mnemonic and Seed","Mnemonic::as_bytes","Mnemonic::to_string","Mnemonic::into_phrase","String::from(Mnemonic)"])

p("C22","The mnemonic size table is consistent however it is entered",
 "A mnemonic size is found for a word count, a key size in bits or a phrase exactly when these are 12, 15, 18, 21 or 24 words (128, 160, 192, 224 or 256 bits), and an error naming the offending number is returned otherwise. For each size the entropy bits are 32/3 of the word count, the checksum bits are 1/32 of the entropy bits, their sum is the total bits, the size prints as its words and entropy bits, and the three ways of entering agree. The default size is 12 words.",
 ["inputs"],"all word counts and key sizes (every machine integer) and all phrases",
 "The tests read off three columns for the five sizes; lookups by number, by phrase and all rejections are untested.",
 [B39+"mnemonic_type.rs",B39+"error.rs"],
 [("for_word_count / for_key_size / for_phrase",B39+"mnemonic_type.rs"),("entropy_bits / checksum_bits / total_bits / word_count",B39+"mnemonic_type.rs")],
 ["MnemonicType::for_word_count","MnemonicType::for_key_size","MnemonicType::for_phrase","MnemonicType::{entropy,checksum,total}_bits","MnemonicType::word_count","MnemonicType::default","Display of MnemonicType"])

p("C23","The digest helper is RIPEMD-160 in lower-case hex for every input",
 "For every byte string, of any length and content, the digest helper returns the 40 lower-case hexadecimal digits of its RIPEMD-160 digest.",
 ["inputs"],"all byte strings of every length",
 "No existing test calls the digest helper.",
 ["src/crypto.rs"],
 [("ripemd","src/crypto.rs")],
 ["kms::crypto::ripemd"])

p("C24","Key material the key type refuses is an error at every entry point",
 "Extended keys work with any key type plugged in through the PrivateKey and PublicKey traits. Wherever bytes become a key - the master key from a seed, a private or public child, a whole path, import from text, conversion from the struct - the call fails with an error if the key type refuses the material (the left half of the HMAC, the sum, or the key bytes), and otherwise yields exactly the key the key type computes from it. It never panics, retries with other material, keeps the parent's key, or reduces what was refused. Private and public derivation agree on what is refused.",
 ["inputs","histories"],"all seeds, parent keys, child numbers, paths, key bytes, and all key types, including those where refusal is common (with secp256k1 it has probability 2^-127 in derivation)",
 "With secp256k1 no test can ever reach a refused HMAC half or a vanishing sum, and no test plugs in another key type or imports a refused key.",
 [B32+"private_key.rs",B32+"public_key.rs",EK+"extended_private_key.rs",EK+"extended_public_key.rs"],
 [("new / derive_child / TryFrom<ExtendedKey>",EK+"extended_private_key.rs"),("derive_child / TryFrom<ExtendedKey>",EK+"extended_public_key.rs"),("from_bytes / derive_child",B32+"private_key.rs"),("from_bytes / derive_child",B32+"public_key.rs")],
 ["ExtendedPrivateKey<K>::new","ExtendedPrivateKey<K>::new_from_path","ExtendedPrivateKey<K>::derive_child","ExtendedPublicKey<K>::derive_child","ExtendedPrivateKey<K>: FromStr, TryFrom<ExtendedKey>","ExtendedPublicKey<K>: FromStr, TryFrom<ExtendedKey>"])

p("C25","A derivation path holds exactly the steps put into it, and paths do not mix",
 "Whatever sequence of operations built a derivation path - starting empty or from text, pushing, extending from any iterator, cloning, assigning a clone, taking the parent - it holds exactly the child numbers that went in, in order. Its text, length, emptiness, iteration (from either end, repeated, or by position), slice, equality with other paths, re-parsed text and the keys derived along it all agree with that list at every moment, also after it was viewed and then changed. Changing, consuming or dropping one path never changes another: clones and parents are independent.",
 ["histories","inputs"],"all histories of operations on any number of paths of any length",
 "The tests parse six fixed paths, print them back and take one chain of parents; no path is ever pushed to, extended, cloned and then changed, or compared with one built another way.",
 [B32+"derivation_path.rs",B32+"child_number.rs",EK+"extended_private_key.rs"],
 [("push / extend / parent / iter / into_iter / FromStr / Display / Eq",B32+"derivation_path.rs"),("new_from_path / derive_from_path",EK+"extended_private_key.rs")],
 ["DerivationPath::{push,extend,parent,iter,len,is_empty,clone,into_iter,to_string,parse,as_ref,==}","XPrv::new_from_path","XPrv::derive_from_path"])

p("C26","A refusal names a cause that is really there, with its message and number",
 "When a call is refused, the error says why: its kind is one of the faults the input actually has (a wrong length is a length error, an exhausted depth a depth error, a hardened step on a public key a child number error, a checksum mismatch a checksum error, an unknown word a word error, text that is not Base58Check a Base58 error, refused key material a cryptographic error, and so on), where several faults are present any of them may be named, and the message is the documented one for that kind. Errors about a word count or an entropy size carry and print the number that was offered. Failures of the underlying libraries convert to the kind that stands for them (Base58: a Base58 error; a wrong slice length: a decoding error; curve and MAC: a cryptographic error), a failed signature keeping its cause.",
 ["inputs"],"all refused inputs of every public operation, including inputs with several faults at once, and any size in the message",
 "The tests never look at an error value: not one kind, message or number is asserted anywhere.",
 [B32+"error.rs",B39+"error.rs","src/error.rs",EK+"mod.rs",EK+"extended_private_key.rs",EK+"extended_public_key.rs",B32+"child_number.rs",B32+"derivation_path.rs",B39+"mnemonic.rs",B39+"mnemonic_type.rs"],
 [("Error and its Display and From conversions",B32+"error.rs"),("ErrorKind",B39+"error.rs"),("phrase_to_entropy / from_entropy",B39+"mnemonic.rs"),("for_word_count / for_key_size",B39+"mnemonic_type.rs"),("FromStr for ExtendedKey",EK+"mod.rs")],
 ["bip32::Error","bip39::ErrorKind (downcast from the returned error)","error::Error","their Display"])

p("C27","Comparisons form one total order that agrees with equality",
 "For child numbers, extended key attributes, prefixes, and extended public keys of an ordered key type: comparing any values gives a total order (antisymmetric, transitive, never undefined) in which two values compare as equal exactly when they are equal, every comparison operator agrees with it, and sorting by it keeps every value. Child numbers compare numerically, so every normal index comes before every hardened one.",
 ["inputs"],"all triples of values, equal, neighbouring or far apart in any field",
 "No test compares two values with anything but ==.",
 [B32+"child_number.rs",EK+"attrs.rs",B32+"prefix.rs",EK+"extended_public_key.rs"],
 [("Ord for ChildNumber",B32+"child_number.rs"),("Ord for ExtendedKeyAttrs",EK+"attrs.rs"),("Ord for Prefix",B32+"prefix.rs"),("Ord for ExtendedPublicKey",EK+"extended_public_key.rs")],
 ["Ord, PartialOrd and Eq of ChildNumber, ExtendedKeyAttrs, Prefix, ExtendedPublicKey<K>"])

for x in P: print(json.dumps(x))
