import json
HY="hybrid-dilithium-sphincs/hybrid.c"; HH="hybrid-dilithium-sphincs/hybrid.h"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Every honestly made hybrid signature opens and verifies, in both modes",
"For every key pair the library generates, every message of 1 to 64 bytes and every value of the random bytes drawn, signing succeeds in compact and in full mode, reports the documented length, and both open and verify accept the result under the matching public key. Open returns exactly the signed message and its length.",
["inputs"],"all seeds, all messages of 1..64 bytes (any bytes, incl. leading/trailing zeros and 0xff), all 40-byte nonces and 32-byte SPHINCS+ randomisers",
"the tests sign 32-byte messages with a few random keys; rejection-sampling paths, other lengths and special byte patterns are never chosen deliberately, and the full-mode test is not part of the stable suite",
[HY,"dilithium2/sign.c","sphincs/sign.c","tweetnacl/tweetnacl.c"],
[("sign / open / verify, full and compact",HY),("Dilithium rejection loop and hints","dilithium2/sign.c, dilithium2/rounding.c"),("SPHINCS+ hypertree signing","sphincs/sign.c"),("Ed25519","tweetnacl/tweetnacl.c")],
["return codes, signature length, recovered message"])

p("C02","Any change to message, signature or public key is rejected",
"A hybrid signature (compact or full) is accepted only together with the exact message, exact signature bytes and exact public key it was made with: changing any bit, truncating, extending, swapping regions, or exchanging the key makes open and verify fail. Verify accepts a triple exactly when open accepts the signature and yields that same message.",
["inputs"],"all valid triples and all modifications of them: every single bit of the compact signature, every field and hash node of the full one, every byte of the public key, every message change incl. prefix/extension, multi-byte and region edits",
"the tests flip a few fixed bytes of a few signatures; bits that are parsed but not bound (padding, unused bits, ignored tail) show up only when each is tried",
[HY,"dilithium2/packing.c","dilithium2/sign.c","sphincs/sign.c","tweetnacl/tweetnacl.c"],
[("component verification and message comparison",HY),("Dilithium signature decoding and challenge comparison","dilithium2/packing.c unpack_sig, dilithium2/sign.c"),("SPHINCS+ root comparison","sphincs/sign.c"),("Ed25519 R comparison","tweetnacl/tweetnacl.c crypto_sign_open")],
["return codes of open and verify in both modes"])

p("C03","A hybrid signature needs every one of its component signatures to be valid",
"A full signature is accepted only if its Ed25519, Dilithium and SPHINCS+ parts each verify for the same message under the respective part of the public key; a compact signature only if its Ed25519 and Dilithium parts both verify over the hash binding nonce, message and the SPHINCS+ public key. Breaking or forging any proper subset of the components (parts made with another key, over another message, nonce or SPHINCS+ key) never yields an accepted signature.",
["inputs"],"all combinations of genuine and foreign component signatures, messages, nonces and public-key parts",
"building a signature in which exactly one component is wrong but well formed needs the component keys; the tests only corrupt bytes, which usually hits one component and says nothing about the others being consulted",
[HY],[("three (full) / two (compact) component checks, all mandatory",HY+" *_open"),("SHA3-512 binding of nonce, message and SPHINCS+ public key",HY+" compact sign/open")],
["return codes of open/verify on signatures assembled by an independent signer"])

p("C04","Signatures are canonical: nobody can re-encode a valid one into another",
"Given a valid signature, alternative encodings of the same mathematical signature are rejected: Ed25519 S plus multiples of the group order, non-canonical R encodings, Dilithium hint vectors with unsorted, repeated, excess or non-zero padding indices, or non-monotone counters, and Dilithium z vectors whose coefficients are outside the prescribed bound. This holds for the component functions and for hybrid signatures containing them.",
["inputs"],"all valid signatures and all algebraically valid but non-canonical or out-of-range re-encodings of them",
"such signatures satisfy the verification equation, so they must be built with white-box knowledge of the algorithm; random corruption never produces them",
["tweetnacl/tweetnacl.c","dilithium2/packing.c","dilithium2/sign.c","dilithium2/poly.c",HY],
[("S < L check and byte-wise R comparison","tweetnacl/tweetnacl.c crypto_sign_open"),("hint ordering/padding/count checks","dilithium2/packing.c unpack_sig"),("norm bound on z","dilithium2/sign.c verify, dilithium2/poly.c chknorm")],
["return codes of component verify and of hybrid open/verify"])

p("C05","Malformed arguments and lengths are refused with an error, without side effects",
"Every hybrid entry point returns a non-zero code for a NULL argument, a message length of 0 or above 64, a signature length that is not exactly the one implied by the signature's own header, and a wrong scheme id or length byte, for every value of those 64-bit lengths and bytes. When it refuses, it neither crashes nor writes to any output. The standalone Dilithium, SPHINCS+ and seed-expander calls refuse wrong signature and seed lengths too.",
["inputs"],"all NULL/non-NULL argument combinations, all 64-bit lengths (incl. valid length plus 2^8, 2^16, 2^31, 2^32 multiples), all 256x256 header values",
"tests try a handful of lengths around the nominal one; truncation of 64-bit lengths to narrower types and header/length mismatches need systematic enumeration",
[HY,"common/shake_prng.c","dilithium2/sign.c","sphincs/sign.c","tweetnacl/tweetnacl.c"],
[("argument checks at each entry point",HY),("siglen checks","dilithium2/sign.c, sphincs/sign.c"),("seed length checks","common/shake_prng.c")],
["return codes, canary-filled outputs, process survival"])

p("C06","No input makes the library touch memory it should not or compute on garbage",
"For all argument buffers of the documented sizes, with any contents, no public call reads or writes outside them, executes undefined behaviour, frees wrongly, or lets uninitialised memory decide control flow or reach an output. This holds for honest use and for attacker-chosen signatures, public keys, lengths, ciphertexts and chunkings alike.",
["inputs"],"all contents of all buffers of exactly the documented size for every public function of the hybrid, Dilithium, SPHINCS+, TweetNaCl, SHAKE/SHA-3, seed-expander and randombytes interfaces",
"the test suite runs without sanitizers and with over-sized stack buffers, so an off-by-one read or write, or a use of stale stack, passes silently",
[HY,"dilithium2/","sphincs/","tweetnacl/tweetnacl.c","common/fips202.c","common/shake_prng.c","random/randombytes.c"],
[("fixed-size buffers with length checks",HY),("bounds in decoding","dilithium2/packing.c"),("state allocation/release","common/fips202.c")],
["AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer reports on exact-size heap buffers"])

p("C07","Calls write exactly their outputs and nothing else",
"A call modifies only its output buffers, and of these exactly the documented number of bytes; secret keys, public keys, seeds, messages and signatures passed as inputs are unchanged afterwards. A hybrid open that fails leaves the caller's message buffer and length as they were, and a hybrid sign that fails leaves the signature buffer and length as they were.",
["inputs","fault_sequences"],"all successful and failing calls of the hybrid interface and the component sign/verify interfaces, with failures caused by bad signatures, bad lengths and failing randomness",
"tests never look at the bytes around outputs, at inputs after the call, or at outputs after a failure",
[HY,"tweetnacl/tweetnacl.c","dilithium2/sign.c","sphincs/sign.c"],
[("work on local copies, copy out only on success",HY)],
["guard regions around every buffer, byte comparison of inputs and outputs before/after"])

p("C08","Keys and signatures are byte-exact to the documented format and algorithms",
"For every seed, message and random draw, the public key, secret key, compact signature and full signature produced are byte for byte those defined by the documented layout over Ed25519 (RFC 8032), Dilithium2 and SPHINCS+-SHAKE-256f-simple, with the compact mode signing SHA3-512(nonce, message, SPHINCS+ public key). Hence an independent implementation accepts everything the library makes, and the library accepts everything an independent implementation makes.",
["inputs"],"all seeds, messages of 1..64 bytes, nonces and randomisers",
"only a few seeds are pinned by known answers and signatures are not pinned at all; a self-consistent change of layout, hash input, parameter or sampling passes every round-trip test",
[HY,"common/hybrid-common.c","dilithium2/","sphincs/","tweetnacl/tweetnacl.c"],
[("layout code",HY),("constants","common/hybrid-common.c, dilithium2/params.h, sphincs/params.h"),("primitive implementations","dilithium2/, sphincs/, tweetnacl/")],
["bytes of pk, sk, signature compared with an independent reference implementation in both directions"])

p("C09","Seeded key generation is a pure function of the seed, the same in every build",
"Generating from the same 160-byte seed always gives the same key pair, whatever was computed before, whatever the output buffers held, and whichever compiler and optimisation level built the library; every byte of the seed matters, and the Ed25519, Dilithium and SPHINCS+ parts depend only on their own 32, 32 and 96 bytes. The secret key embeds exactly the returned public key parts, and random key generation is seeded generation applied to 160 fresh random bytes.",
["inputs","histories","configurations"],"all seeds, prior call histories, buffer contents, and builds (gcc and clang, -O0 to -O3)",
"two or three fixed seeds are checked in one build; dependence on stale memory, on earlier calls or on the compiler is invisible to that",
[HY,"dilithium2/sign.c","sphincs/sign.c","tweetnacl/tweetnacl.c"],
[("seed split",HY+" keypair_seed"),("component seeded key generation","dilithium2/sign.c, sphincs/sign.c, tweetnacl/tweetnacl.c")],
["pk/sk bytes across repetitions, poisoned buffers, builds, and the reference implementation"])

p("C10","Seed expansion matches its definition and uses the whole seed",
"The 96-byte seed expander outputs 160 bytes: the Dilithium part is bytes 64..95 of the input unchanged, and the Ed25519 and SPHINCS+ parts are the SHAKE-256 expansion (with its domain byte) of the first 64 bytes, every one of which must influence the result. The general expander outputs exactly SHAKE-256(seed || 0x02) for every seed of at least 32 bytes and every longer output length.",
["inputs"],"all 96-byte seeds and all their single-byte variations; all seed lengths >= 32 and output lengths above them",
"one fixed vector is checked; that vector cannot show which input bytes are ignored, and few lengths are tried",
[HY,"common/shake_prng.c","common/domains.h"],
[("seed expander",HY+" keypair_seed_expander"),("seedexpander_wrapper","common/shake_prng.c")],
["expanded bytes against an independent SHAKE-256, and differences under single-byte changes of the seed"])

p("C11","Failure of the randomness source or of allocation never yields a success",
"If the operating system's randomness source fails at any point of an operation, key generation and signing return an error and release no signature or key made without full entropy; interrupted or partial reads are continued until every requested byte is filled. If memory allocation fails at any point, the operation ends in a controlled failure and never returns success with a wrong result.",
["fault_sequences"],"every position and kind of failure (error codes, interruptions, short reads, allocation failure) in every entropy-consuming or allocating call, for the getrandom, raw system call and /dev/urandom back ends",
"the operating system never fails during the tests",
["random/randombytes.c",HY,"sphincs/sign.c","dilithium2/sign.c","tweetnacl/tweetnacl.c","common/fips202.c"],
[("retry loops and error returns","random/randombytes.c"),("randombytes result checks",HY+", sphincs/sign.c, dilithium2/sign.c, tweetnacl/tweetnacl.c"),("exit(111) on allocation failure","common/fips202.c")],
["return codes, outputs and process status under injected faults"])

p("C12","Key seeds, nonces and randomisers are fresh, full-length OS entropy",
"Every random key pair is derived from 160 bytes, every compact signature uses a 40-byte nonce, and every SPHINCS+ signature a 32-byte randomiser, all taken in full from the operating system during that very call, with no byte constant, reused, or derived from anything else. Repeated calls with identical arguments therefore never repeat a key, nonce or randomiser unless the operating system repeats its output.",
["inputs","histories"],"all sequences of key generations and signatures, in one or several threads and across fork",
"tests cannot see where bytes come from: a nonce that is cached, partly constant or shorter than it looks still verifies",
["random/randombytes.c",HY,"sphincs/sign.c"],
[("randombytes","random/randombytes.c"),("draws for seed, nonce, optrand",HY+", sphincs/sign.c")],
["log of every byte the OS delivered versus nonces, keys and signatures produced"])

p("C13","Concurrent use from many threads is race-free and gives single-thread results",
"Any number of threads may call any mix of the library's functions at the same time on their own or shared read-only buffers without data races, and each call returns what it would have returned alone.",
["schedules"],"all interleavings of key generation, signing, verification, hashing and expansion in several threads",
"the tests are single-threaded",
[HY,"common/fips202.c","dilithium2/","sphincs/","tweetnacl/tweetnacl.c","random/randombytes.c"],
[("no mutable global state",HY+", common/hybrid-common.c, common/fips202.c")],
["ThreadSanitizer reports and per-call comparison with a sequential oracle"])

p("C14","Every call gives back all memory and descriptors it took, also when it fails",
"After any call, successful or failing, the library holds no heap memory and no file descriptor it did not hold before, so any number of signatures can be made and verified (and rejected) by a long-running process. What a hash context took is given back by its release or finalisation.",
["inputs","histories","fault_sequences"],"all call sequences incl. rejected signatures at every verification stage, failing randomness, and all randombytes back ends",
"tests end after a few calls and never count",
["common/fips202.c","dilithium2/","sphincs/","random/randombytes.c",HY],
[("allocation and release of hash contexts","common/fips202.c and its users"),("descriptor handling","random/randombytes.c")],
["malloc/free and descriptor ledger around each call"])

p("C15","Branches and addresses never depend on secrets in the constant-time parts",
"In Ed25519 and X25519 key generation, signing and scalar multiplication, SPHINCS+ key generation, seed expansion, SHAKE/SHA-3 hashing of secrets and secret-box encryption, neither a branch nor a memory address depends on secret seed, key or message bytes. Fixed-length tag comparison likewise does not branch on the compared bytes.",
["inputs"],"all secret values, in the optimised builds by gcc and clang",
"timing behaviour is invisible to functional tests",
["tweetnacl/tweetnacl.c","sphincs/","common/fips202.c","common/shake_prng.c",HY],
[("masked selection and branch-free arithmetic","tweetnacl/tweetnacl.c sel25519, modL, vn"),("hash-only key derivation","sphincs/wotsx1.c"),("Keccak permutation","common/fips202.c")],
["valgrind/memcheck with the secrets marked undefined"])

p("C16","The hash layer equals FIPS 202 / SHA-512 for every length and every chunking",
"SHA3-256/384/512 and SHAKE128/256 return the FIPS 202 values, and the SHA-512 function the FIPS 180 value, for every input length and content and every output length. Incremental use gives the same result for every way of cutting input and output into pieces, and cloned contexts continue independently.",
["inputs","histories"],"all input lengths (incl. around block boundaries), contents, output lengths, sequences of absorb/squeeze/clone calls",
"the suite has one SHAKE vector for the seed expander; block-boundary lengths and chunkings are not tried",
["common/fips202.c","common/fips202.h","tweetnacl/tweetnacl.c"],
[("Keccak sponge, one-shot and incremental","common/fips202.c"),("SHA-512","tweetnacl/tweetnacl.c crypto_hash")],
["digests compared with an independent implementation"])

p("C17","Bundled NaCl primitives conform to their definitions and reject every forgery",
"X25519, the box and secretbox authenticated encryption, Poly1305, Salsa20/XSalsa20 streams and core functions give the values of their published definitions for every key, nonce and length. Opening a box returns the plaintext if and only if ciphertext, nonce and keys are unmodified, and rejects inputs shorter than the overhead.",
["inputs"],"all keys, nonces, message lengths and contents, all single-bit ciphertext changes",
"the suite never calls these functions",
["tweetnacl/tweetnacl.c","tweetnacl/tweetnacl.h"],
[("stream, onetimeauth, scalarmult, secretbox, box","tweetnacl/tweetnacl.c")],
["outputs compared with an independent implementation; return codes on tampered boxes"])

p("C18","Standalone Ed25519, Dilithium2, SPHINCS+ calls work for any message length",
"The component interfaces sign, open and verify messages of every length including empty, give the byte-exact result of the published algorithm, and accept exactly the signatures that algorithm accepts, including when signed message and message share a buffer as documented. The Dilithium-only verification entry point accepts exactly a valid 2420-byte Dilithium signature over the given 1 to 64 byte message.",
["inputs"],"all seeds, messages of length 0 to several kilobytes, in-place and separate buffers, valid, corrupted and crafted signatures",
"tests use 32-byte messages and separate buffers and cannot judge conformity to the algorithm",
["dilithium2/sign.c","dilithium2/api.h","sphincs/sign.c","sphincs/api.h","tweetnacl/tweetnacl.c",HY],
[("crypto_sign / _open / _signature / _verify of each scheme","dilithium2/sign.c, sphincs/sign.c, tweetnacl/tweetnacl.c"),("crypto_verify_dilithium",HY)],
["bytes and return codes against the reference implementation"])

p("C19","The WebAssembly entry points behave as the native ones and wipe what they free",
"Each exported wrapper returns the same code and bytes as the native function it stands for, for all arguments, and the exported free erases the whole buffer before releasing it.",
["inputs"],"all arguments of the exported wrappers",
"the wrapper file is not compiled by the test suite at all",
["wasm/hybrid-pqc.c"],[("dp_* wrappers, mem_alloc, mem_free","wasm/hybrid-pqc.c")],
["codes and bytes of wrapper vs native call; buffer contents at the moment of release"])

p("C20","Compact and full signatures are not interchangeable",
"No compact signature is ever accepted by the full-mode functions or vice versa, whatever is done to its header, length and arrangement of parts, and a signature made in one mode for one message cannot be re-arranged into an accepted signature of the other mode for any message. The scheme id byte always identifies the mode.",
["inputs"],"all valid signatures of either mode and all re-arrangements of their parts",
"tests never pass one mode's signature to the other mode",
[HY,"common/hybrid-common.c"],
[("scheme id byte",HY),("different signed data: message versus SHA3-512 of nonce, message, SPHINCS+ key",HY)],
["return codes of open/verify of the other mode"])

p("C21","randombytes fills exactly the requested bytes with operating-system entropy",
"For every requested size, zero and sizes beyond the system call's chunk limit included, a successful call has replaced every requested byte by the operating system's output in order, each byte used once, and touched nothing beyond. This holds for each back end (getrandom, raw system call, /dev/urandom) and every pattern of short reads and interruptions.",
["inputs","fault_sequences","configurations"],"all sizes, all patterns of short reads and EINTR/EAGAIN, all back ends buildable on Linux",
"the tests look at a few sizes and one mocked fault; only the default back end is built",
["random/randombytes.c","random/randombytes.h"],
[("chunked read loops","random/randombytes.c")],
["bytes delivered by an instrumented system interface versus buffer contents"])

p("C22","Results never depend on what was called before",
"The outcome of every call is determined by its arguments and the random bytes it draws; no earlier call (another key, a failed verification, an aborted signature, an interleaved hash computation) and no previous contents of output buffers, stack or heap change it.",
["histories"],"all sequences of public calls of all kinds, with key, message and signature reuse, failures in between, and dirtied stack and heap",
"tests run each scenario once from a fresh process",
[HY,"dilithium2/","sphincs/","tweetnacl/tweetnacl.c","common/fips202.c"],
[("stateless functions",HY+" and all component sources")],
["per-call comparison with a stateless oracle along random histories"])

p("C23","Signing gives away nothing of the secret key beyond what the algorithm reveals",
"In Dilithium key generation and signing, SPHINCS+ signing and both hybrid signing modes, no branch and no memory address depends on secret key bytes, masking values or rejected candidates, except through what the published algorithms reveal by design: the rejection pattern of the secret sampler, the challenge, whether and at which coefficient a norm bound is exceeded (not the sign of that or any coefficient), the hint, and the SPHINCS+ randomiser and tree roots contained in or following from the signature.",
["inputs"],"all secret keys, messages and random draws, in the optimised builds by gcc and clang",
"branch and address behaviour is invisible to functional tests",
["dilithium2/","sphincs/",HY,"tweetnacl/tweetnacl.c","common/fips202.c"],
[("branch-free arithmetic, packing and decomposition","dilithium2/reduce.c, ntt.c, rounding.c, poly.c, packing.c"),("norm check that hides the sign","dilithium2/poly.c poly_chknorm"),("hash-only key material","sphincs/wotsx1.c, fors.c, hash_shake.c")],
["valgrind/memcheck with the secrets marked undefined and the designed revelations declassified; single-stepped instruction traces of the norm check"])

p("C24","Browser, Node.js, Windows, BSD and WASI entropy back ends fill or fail",
"randombytes as compiled for browsers and Node.js (Emscripten), Windows, the BSDs and WASI, whatever the length and whatever the platform's generator does: it returns 0 only when every requested byte was delivered by the platform's cryptographic generator and left unchanged, fails when no such generator delivers, works whenever one does, writes nothing outside the buffer, never uses a weak generator and returns every handle it acquired; key generation and signing on these platforms succeed only with delivered bytes.",
["inputs","faults"],"all lengths, all patterns of platform generators being absent, failing at once or later, all environments (browser, Node.js, both, neither)",
"the tests run on Linux only and never compile these back ends, let alone with a failing generator",
["random/randombytes.c"],
[("embedded JavaScript with its getRandomValues and Node.js branches","random/randombytes.c randombytes_js_randombytes_nodejs"),("BCryptGenRandom with CryptGenRandom as fallback","random/randombytes.c randombytes_win32_randombytes"),("arc4random_buf","random/randombytes.c randombytes_bsd_randombytes, randombytes_wasi_randombytes")],
["stand-ins for the platform calls that record each delivery and fail as planned; the embedded JavaScript executed in node"])

p("C25","The 32-bit WebAssembly build computes what the 64-bit build computes",
"Compiled for a target with 32-bit size_t, long and pointers (wasm32, as shipped; 32-bit Android alike), every public call and exported wrapper returns the same code and the same bytes as the 64-bit build for the same arguments and random bytes, so keys and signatures move freely between platforms; 64-bit lengths are never cut to 32 bits; and in that build, too, nothing outside the arguments is written, no undefined behaviour is executed and all memory is given back.",
["inputs"],"all arguments of all public calls including 64-bit lengths of 2^32 and more, all entropy outcomes, optimised and unoptimised builds",
"the tests run in a 64-bit build only, where long and size_t have 64 bits and such a mistake is invisible",
[HY,"dilithium2/","sphincs/","common/","tweetnacl/tweetnacl.c","wasm/hybrid-pqc.c"],
[("64-bit values kept in fixed-width types","sphincs/hash_shake.c, sphincs/utils.c, common/fips202.c, tweetnacl/tweetnacl.c"),("64-bit lengths checked before they become size_t",HY),("exported wrappers","wasm/hybrid-pqc.c")],
["the library compiled by clang for wasm32, executed in node; canaries, red zones, ledger, trapping UBSan"])

open(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))+"/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
