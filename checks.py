"""Registry: which driver runs in which build for which property."""
HOST = 'x86-64 Linux, gcc 13.3 / clang 18 builds of the current tree'
REFA = 'the reference model in /verif/ref is right (it agrees with OpenSSL/hashlib and with the repository on all cases seen)'


def run(variant, driver, files, **kw):
    return dict(variant=variant, driver=driver, files=files.split(), **kw)


CHECKS = {
    'C01': dict(technique='runtime monitor: round-trip oracle on the real code, reference-steered rare inputs',
                level='exploration', runs=[run('plain', 'C01', 'd_main.c')],
                rule='library key pairs x messages of every length 1..64 in 12 byte-pattern classes x random draws; of several candidate draws the one driving Dilithium/SPHINCS+ into its rarest state (hint weight 80, |z| on the bound, many rejections, edge tree indices) is used; plus the corpus of rare decisions (ref/rare_list.h), replayed in both modes. Distinct = (draw, message) or key.',
                assumptions=[HOST], require={'evaluations': 1000, 'compact_message_lengths': 64}),
    'C08': dict(technique='runtime differential monitor against an independent model, scripted entropy',
                level='exploration', runs=[run('plain', 'C08', 'd_main.c')],
                rule='differential against the independent model: keys, compact and full signatures byte for byte with scripted entropy; signatures of an independent hedged signer (random r, random rho\', extreme z) must be accepted; unusual secret keys push the signer to hundreds of rejections; the corpus of rare decisions. Distinct = seed, draw or signature.',
                assumptions=[HOST, REFA], require={'evaluations': 1000, 'compact_message_lengths': 64}),
}

CHECKS.update({
    'C02': dict(technique='runtime monitor: exhaustive/structural modification of valid signatures, rejection oracle',
                level='exploration', runs=[run('plain', 'C02', 'd_reject.c')],
                rule='valid signatures of the model; every single bit of a whole compact signature, every header/nonce/message byte for every length, every public-key byte, every byte before and every 32-byte node of the SPHINCS+ part, splices/swaps/compensating edits/truncation/extension, other messages and lengths handed to verify; oracle: only the unmodified triple is accepted, verify <=> open. Distinct = resulting signature/key/edit.',
                assumptions=[HOST, 'a random modification does not happen to be a valid signature (probability < 2^-100)'], require={'compact_bit_flips': 1000, 'sphincs_node_changes': 1000, 'compact_lengths': 64, 'full_lengths': 64}),
    'C03': dict(technique='runtime monitor: model-assembled partial forgeries and near-misses, acceptance oracle',
                level='exploration', runs=[run('plain', 'C03', 'd_reject.c')],
                rule='hybrid signatures assembled by the model from valid / other-key / other-message / other-nonce / other-SPHINCS+-key / garbage / near-miss components, all combinations, all lengths; near-miss = made with the secret key so that the final comparison differs in exactly one bit (all 256 bits of R, of the challenge, bytes of the SPHINCS+ root, digest, and hashed input). Accepted iff every component is valid. Distinct = assembled signature.',
                assumptions=[HOST, REFA], require={'compact_part_combinations': 81, 'near_miss_ed25519': 256, 'near_miss_dilithium': 256, 'near_miss_sphincs': 32, 'full_lengths': 60}),
    'C04': dict(technique='runtime monitor: model-made re-encodings, canonicality oracle',
                level='exploration', runs=[run('plain', 'C04', 'd_reject.c')],
                rule='non-canonical re-encodings made with the model: S+kL (k=1..15, small S included), top bits of S, non-canonical R = identity, Dilithium hints unsorted/repeated/padded/counter edits (indices 0 and 255 and empty hint blocks included), z out of bound at every one of the 1024 coefficients (on the bound, in the forbidden zone, at the encoding limit); offered to the component and hybrid functions. Distinct = re-encoded signature.',
                assumptions=[HOST, REFA], require={'S_plus_kL': 100, 'R_noncanonical': 20, 'hints_unsorted': 100, 'hints_repeated': 100, 'hints_padding': 100, 'z_coefficient': 900, 'signatures_without_hints': 40, 'hint_lists_with_end_index': 20}),
    'C20': dict(technique='runtime monitor: cross-mode rearrangement, separation oracle',
                level='exploration', runs=[run('plain', 'C20', 'd_reject.c')],
                rule='compact signatures rearranged into full ones and back (id, length, order of parts, filler variants), every id byte, both modes; oracle: accepted only by the mode of its id in its own arrangement. Distinct = rearranged signature.',
                assumptions=[HOST, REFA], require={'ids': 256, 'digest_preimage_cases': 4}),
})

CHECKS.update({
    'C05': dict(technique='runtime monitor: exhaustive malformed-argument sweep with guard-page buffers and output snapshots',
                level='exploration', runs=[run('plain', 'C05', 'd_args.c')],
                rule='every NULL subset of every hybrid entry point, every message length 65..330 and aliases of every length under truncation to 8..63 bits, every short and neighbouring signature length with the buffer ending at the declared length, all 65536 header byte pairs, wrong lengths of the component calls; the base is always a valid signature, so an unchecked length would be accepted. Oracle: non-zero return, outputs byte-identical, no crash. Distinct = (call, length/header/NULL set).',
                assumptions=[HOST], require={'headers': 100000, 'null_combinations': 60, 'signature_length_values': 5000, 'functions_given_null': 11}),
    'C07': dict(technique='runtime monitor: guard pages, write-protected inputs, two-prefill write-set comparison',
                level='exploration', runs=[run('plain', 'C07', 'd_args.c')],
                rule='each call runs twice with the same entropy and different previous output contents: the documented bytes must be rewritten identically, the tail and guard bytes keep their pattern; const inputs lie on read-only pages; hybrid opens failing at every stage and signs failing by entropy must leave outputs untouched. Distinct = inputs.',
                assumptions=[HOST], require={'exact_writes_checked': 1000, 'failing_opens': 500, 'failing_signs': 100, 'failing_open_codes': 8}),
})

CHECKS.update({
    'C13': dict(technique='ThreadSanitizer plus result monitor: concurrent calls compared with the same call in a fresh process',
                level='exploration', runs=[run('tsan', 'C13', 'd_seq.c', scale=1, shards=8, weight=3), run('plain', 'C13', 'd_seq.c', shards=4)],
                rule='rounds of 3..16 threads running random mixes of 36 kinds of calls on own and on shared read-only buffers, per-thread scripted entropy; each result must equal that of the same call alone in a fresh process; ThreadSanitizer watches the same workload, full-mode signing included. No lock is taken by the harness between calls (recorded by relaxed atomics), so nothing hides a race. Distinct = (round, pair of operations observed running at the same time).',
                assumptions=[HOST], require={'calls_in_threads': 2000, 'concurrent_op_pairs': 200, 'slow_rounds': 16}),
    'C14': dict(technique='runtime monitor: allocation and descriptor ledger around every call, fault injection on failing paths',
                level='exploration', runs=[run('plain', 'C14', 'd_seq.c'), run('urandom', 'C14', 'd_seq.c', scale=0.5), run('syscall', 'C14', 'd_seq.c', scale=0.2, shards=4)],
                rule='every kind of call, successful and failing (rejected signatures, entropy failing at each request, each I/O call of the /dev/urandom back end failing), with an interposed malloc/free ledger, the open-descriptor count and the allocator total before and after. Distinct = call and input.',
                assumptions=[HOST, 'the alternative back ends are compiled with headers that hide getrandom'], require={'allocations_seen': 5000, 'ops_and_outcomes': 30, 'context_types': 7, 'io_fault_points': 30, 'failing_ops': 7}),
    'C22': dict(technique='runtime monitor: random call histories compared with fresh-process baselines',
                level='exploration', runs=[run('plain', 'C22', 'd_seq.c')],
                rule='histories of 100 calls of 36 kinds drawn so that back-to-back calls often differ in one byte of key, message, signature or random stream while using the same pointers; stack, heap and output buffers are dirtied in between, hash contexts stay open across; every observable result must equal the one computed in a freshly forked process in which the library never ran; 24 kinds of calls repeated up to 140000 times in one process; 18 kinds of arguments (keys, seeds, signatures, nonces) each followed by one differing in a single bit, in both orders, against the model. Distinct = history tail.',
                assumptions=[HOST], require={'op_pairs': 300, 'one_byte_apart_back_to_back': 500, 'endurance_ops': 24, 'calls_in_a_row': 500000, 'neighbour_pairs': 1200, 'neighbour_arguments': 18}),
})

_XB = ['gcc-O0', 'gcc-O1', 'gcc-O2', 'gcc-Os', 'gcc-O3-native', 'gcc-uchar', 'clang-O0', 'clang-O2', 'clang-O3', 'clang-Os']
CHECKS.update({
    'C09': dict(technique='runtime monitor: repeated and cross-build executions compared, sub-seed sensitivity oracle',
                level='exploration', runs=[run('plain', 'C09', 'd_keys.c', weight=3)] + [run(b, 'C09', 'd_keys.c', scale=0.5, shards=4, weight=5 if 'O0' in b else 1) for b in _XB],
                rule='each seed three times (dirty stack, heap and output buffers, after other key generations), each in eleven builds (gcc/clang, -O0..-O3, -Os, -march=native, unsigned char) with all key bytes compared; every one of the 160 seed bytes modified on several base seeds; random generation on scripted draws. Distinct = seed.',
                assumptions=[HOST], require={'seed_bytes': 160, 'evaluations': 1500}),
    'C10': dict(technique='runtime differential monitor against SHAKE-256 of the model, byte-sensitivity oracle',
                level='exploration', runs=[run('plain', 'C10', 'd_keys.c', shards=4), run('clang-O2', 'C10', 'd_keys.c', scale=0.3, shards=2), run('msan', 'C10', 'd_keys.c', scale=0.1, shards=2)],
                rule='one-hot, one-cold and patterned seeds against the documented expansion; each input byte modified; the general expander for every seed length 32..431, every output length 33..1232, all residues modulo the sponge rate and 8, outputs up to 70 kB, streaming use. The finding D1 (odd bytes ignored) is recognised by its exact value; any other output is a violation. Distinct = input.',
                assumptions=[HOST, REFA], require={'input_bytes': 96, 'seed_length_mod_rate': 136, 'output_length_mod_rate': 136}),
    'C12': dict(technique='runtime monitor: entropy-source interposition, provenance of every drawn byte',
                level='exploration', runs=[run('plain', 'C12', 'd_keys.c'), run('syscall', 'C12', 'd_keys.c', scale=0.3, shards=4), run('urandom', 'C12', 'd_keys.c', scale=0.3, shards=4)],
                rule='the monitor supplies the operating system\'s bytes: sequences of calls on one continuing stream (whole and fragmented/interrupted deliveries), each result must be the one of exactly the bytes delivered during that call; each of the drawn bytes modified; forked children and concurrent threads; series of up to 9000 calls of each drawing operation in one process; 300 signatures of identical arguments. Distinct = draw.',
                assumptions=[HOST], require={'draws_checked': 1000, 'drawn_bytes': 400, 'draws_in_threads': 1000, 'forks': 24, 'interrupted_or_short': 500, 'calls_in_a_row': 20000, 'series_ops': 8}),
})

CHECKS.update({
    'C16': dict(technique='runtime differential monitor against an independent sponge and SHA-512, exhaustive cuts',
                level='exploration', runs=[run('plain', 'C16', 'd_hash.c', weight=4), run('msan', 'C16', 'd_hash.c', scale=0.15, shards=4), run('asan', 'C16', 'd_hash.c', scale=0.15, shards=4), run('clang-O2', 'C16', 'd_hash.c', scale=0.25, shards=4)],
                rule='every input length 0..1199 for the five sponges and SHA-512, every output length 0..999, all two-piece cuts of inputs and outputs around the block boundaries, random chunkings in seven styles with zero-length pieces, clones taken while absorbing and while squeezing and continued independently, block interfaces in any grouping, inputs and outputs of more than 65536 blocks and 2^24 bytes through every interface, inputs longer than 2^32 bytes. Distinct = message and chunking.',
                assumptions=[HOST, REFA], require={'lengths_0_1199': 1200, 'input_lengths_mod_rate': 600, 'sha512_lengths_mod_block': 128, 'output_lengths': 1900, 'two_piece_cuts': 20000, 'clones_absorbing': 2000, 'clones_squeezing': 500, 'chunk_styles': 35, 'large_calls': 21}),
})

CHECKS.update({
    'C17': dict(technique='runtime differential monitor against the model, forgery oracle',
                level='exploration', runs=[run('plain', 'C17', 'd_nacl.c', weight=2), run('asan', 'C17', 'd_nacl.c', scale=0.15, shards=4), run('msan', 'C17', 'd_nacl.c', scale=0.1, shards=4), run('clang-O2', 'C17', 'd_nacl.c', scale=0.3, shards=4)],
                rule='scalars and u-coordinates including 0, 1, small order, p-3..2^255-1 and set top bits; Salsa20/HSalsa20 cores with any constant; streams of every length 0..599 and beyond 256, 65536 and 2^24 blocks; stream, tag and box of more than 2^32 bytes; Poly1305 of every length 0..299 and with the accumulator around the modulus; boxes of every length 0..399 and up to 2^20 bytes with forgeries anywhere in them; every bit of tag, ciphertext, nonce and key changed, truncated and extended boxes. Distinct = key, message and length.',
                assumptions=[HOST, REFA], require={'box_lengths': 400, 'point_classes': 16, 'stream_lengths_mod_block': 64, 'streams_beyond_256_blocks': 5, 'streams_beyond_65536_blocks': 1, 'bit_forgeries': 10000, 'large_boxes': 10}),
})

CHECKS.update({
    'C18': dict(technique='runtime differential monitor against the model, acceptance-equivalence oracle',
                level='exploration', runs=[run('plain', 'C18', 'd_comp.c', weight=2), run('ubsan', 'C18', 'd_comp.c', case='huge:4', shards=1, weight=4)],
                rule='every message length 0..299 plus block-boundary and large lengths for Ed25519 and Dilithium2, 48 lengths for SPHINCS+; signatures byte for byte, separate and shared buffers; messages of 2^31+100 bytes (Ed25519) and 2^32+77 bytes (Dilithium2, SPHINCS+) against precomputed signatures of the model; unusual Dilithium keys with hundreds of rejections; the corpus of rare decisions (inputs on which an off-by-one in a norm bound, rounding, hint or sampling decision shows); hedged signatures of another signer; well-formed edits of challenge, z, hints, key and message on which library and model must give the same verdict; signatures without any hint (key with t = 0); near misses made with the secret key, whose recomputed R, challenge or root differs from the transmitted one in one bit, or only after a zero byte. Distinct = signature.',
                assumptions=[HOST, REFA, 'Ed25519 public keys are canonical points of large order'], require={'ed_lengths': 300, 'dil_lengths': 300, 'spx_lengths': 30, 'vd_lengths': 64, 'foreign_dilithium': 150, 'huge_messages': 1, 'rare_decisions': 40, 'near_miss_ed25519': 1000, 'near_miss_dilithium': 280, 'near_miss_sphincs': 60, 'near_miss_with_zero_byte': 200, 'signatures_without_hints': 50, 'size_accessors': 4}),
})

CHECKS.update({
    'C11': dict(technique='fault injection at the libc boundary with a result-provenance oracle',
                level='fault_enumeration', runs=[run('plain', 'C11', 'd_rand.c', weight=3), run('syscall', 'C11', 'd_rand.c', scale=0.4, shards=4), run('urandom', 'C11', 'd_rand.c', scale=1.0, shards=8)],
                rule='the randomness source failing for good after every number k of delivered bytes of every drawing operation (with and without fragmentation, several errnos), failing once and recovering, interrupted and short in nine styles, up to 70000 interruptions in a row; every I/O call of the /dev/urandom and raw-syscall back ends failing in turn; allocation failing once or for good at the first 16, last 12 and random points of 26 operations, in forked children. Oracle: error, controlled exit, or exactly the result of the delivered bytes; an invalid signature is never accepted. Distinct = (operation, fault point, kind).',
                assumptions=[HOST, REFA, 'a read of the random device never reports end of file'], require={'entropy_fault_points': 550, 'allocation_faults': 1500, 'interrupted_ops': 50, 'io_fault_points': 20, 'interruptions': 200, 'short_reads': 200}),
    'C21': dict(technique='runtime monitor: interposed entropy source with position-coded stream, three back ends',
                level='exploration', runs=[run('plain', 'C21', 'd_rand.c', weight=4), run('syscall', 'C21', 'd_rand.c', scale=0.6, shards=8), run('urandom', 'C21', 'd_rand.c', scale=0.6, shards=8), run('asan', 'C21', 'd_rand.c', scale=0.1, shards=2), run('urandom-asan', 'C21', 'd_rand.c', scale=0.1, shards=2)],
                rule='every size 0..1199, larger sizes, sizes around the 33554431-byte limit and beyond 2^32, ten delivery styles (whole, single bytes, short reads, interruptions, storms), low-entropy waits, bursts of up to 70000 interruptions, sequences of up to 70000 requests on one stream; every byte compared with the position-coded stream of the interposed source, buffers ending at a guard page. Distinct = (size, style, stream).',
                assumptions=[HOST, 'a read of the random device never reports end of file'], require={'sizes': 1500, 'styles': 27, 'sizes_at_the_limit': 3, 'interruptions': 3000, 'short_reads': 3000, 'waits_for_entropy': 100, 'calls_in_a_row': 300000}),
})

CHECKS.update({
    'C19': dict(technique='runtime differential monitor: wrapper against native call, free interposed to inspect the released buffer',
                level='exploration', runs=[run('wasm', 'C19', 'd_wasm.c', weight=2), run('wasm-clang', 'C19', 'd_wasm.c', scale=0.5, shards=4), run('wasm-Os', 'C19', 'd_wasm.c', scale=0.5, shards=4), run('wasm-O0', 'C19', 'd_wasm.c', scale=0.3, shards=4), run('wasm-asan', 'C19', 'd_wasm.c', scale=0.15, shards=4)],
                rule='the wrapper file is compiled natively in five builds; every wrapper and the function it stands for are called with the same arguments and the same entropy (valid, modified, NULL, short, long and 64-bit lengths, failing entropy) and must agree in code and every byte; free is interposed and the buffer inspected at the moment it is released, for every size 0..1199, powers of two, key and signature sizes, with contents that leave a single byte set at either end. Distinct = arguments.',
                assumptions=[HOST, 'the wrapper file is judged in its x86-64 compilation; the 32-bit size_t of wasm32 is not'], require={'buffers_freed': 2400, 'sizes_freed': 1200, 'wrapper_calls': 4000, 'accepted_by_both': 300, 'rejected_by_both': 1500, 'sign_lengths': 66}),
})

_SAN = '(?!)'   # only sanitizer reports and crashes count, not the drivers' own verdicts
CHECKS.update({
    'C06': dict(technique='AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer and guard pages under hostile workloads',
                level='exploration',
                runs=[run(v, 'C06', 'd_hostile.c', scale=sc, weight=3) for v, sc in (('asan', 1), ('asan-gcc', 0.5), ('msan', 0.5), ('plain', 1))]
                + [run(v, d, f, scale=sc, shards=4, only=_SAN, weight=2) for v, k in (('asan', 1), ('msan', 0.7)) for d, f, sc in (('C07', 'd_args.c', 0.25 * k), ('C16', 'd_hash.c', 0.2 * k), ('C17', 'd_nacl.c', 0.2 * k), ('C18', 'd_comp.c', 0.1 * k), ('C12', 'd_keys.c', 0.15 * k), ('C14', 'd_seq.c', 0.2 * k), ('C08', 'd_main.c', 0.04 * k))]
                + [run('urandom-asan', 'C21', 'd_rand.c', scale=0.2, shards=4, only=_SAN), run('urandom-asan', 'C14', 'd_seq.c', scale=0.2, shards=4, only=_SAN), run('wasm-asan', 'C19', 'd_wasm.c', scale=0.1, shards=2, only=_SAN)],
                rule='every public function on exact-size heap buffers (half of them misaligned) with hostile contents: crafted and mutated signatures that pass the earlier checks so that the later parsers see the hostile part, any hint block, any z, any public key, unusual secret keys, truncated and random inputs, random chunkings; plus the workloads of seven other checks; two sanitizer compilers, MemorySanitizer with outputs marked uninitialised before and checked after, guard pages in the release build. Only sanitizer reports and crashes count. Distinct = input.',
                assumptions=[HOST, 'sanitizers see the code as compiled at -O1/-O2'], require={'hostile_classes': 150, 'accepted': 3000, 'rejected': 3000}),
})

CHECKS.update({
    'C15': dict(technique='valgrind memcheck with secrets marked undefined (secret-taint monitor), gcc and clang builds',
                level='exploration',
                runs=[run(v, 'C15', 'd_ct.c', valgrind='--tool=memcheck', scale=sc, weight=3) for v, sc in (('vg-gcc', 1), ('vg-clang', 1), ('vg-gcc-Os', 0.4), ('vg-gcc-O2', 0.4), ('vg-clang-Os', 0.3), ('vg-gcc-O0', 0.2), ('vg-clang-O0', 0.2))]
                + [run(v, 'C15canary', 'd_ct.c', valgrind='--tool=memcheck', shards=1, must_report='valgrind:') for v in ('vg-gcc', 'vg-clang')],
                rule='secret keys, seeds, scalars, drawn random bytes, messages and compared tags are marked undefined, so that memcheck reports each conditional jump and each memory address computed from them; after the call the output is checked to carry the taint (the secret did flow through) and declassified. A deliberately leaky function must be reported in the same run. Distinct = secret and length.',
                assumptions=[HOST, 'timing of single instructions (multiplication, cmov) is independent of operands; memcheck propagates definedness bit-exactly through the instructions used'], require={'calls': 800, 'operations': 30, 'operations_with_secret_flow': 30, 'canary_reports': 1}),
})

CHECKS.update({
    'C23': dict(technique='valgrind memcheck secret-taint monitor with declassification at the points where the algorithm reveals by design; single-step instruction-trace equality for the norm check',
                level='exploration',
                runs=[run(v, 'C23', 'd_ct2.c', valgrind='--tool=memcheck --error-exitcode=0', scale=sc, weight=3) for v, sc in (('ct-gcc', 1), ('ct-clang', 0.6), ('ct-gcc-Os', 0.3), ('ct-gcc-O2', 0.3), ('ct-clang-Os', 0.3), ('ct-gcc-O0', 0.2), ('ct-clang-O0', 0.2))]
                + [run(v, 'C23canary', 'd_ct2.c', valgrind='--tool=memcheck', shards=1, must_report='valgrind:') for v in ('ct-gcc', 'ct-clang')]
                + [run(v, 'C23sign', 'd_ct2.c', shards=2, scale=sc) for v, sc in (('plain', 1), ('clang-O2', 0.5), ('gcc-Os', 0.3))],
                rule='secret keys, seeds and drawn optional randomness are marked undefined; challenge, place of a norm violation, hint, matrix seed, rejection pattern of the secret sampler, SPHINCS+ randomiser and layer roots are declassified where they arise; every other branch or address computed from secrets is reported by memcheck. A call is judged only if the declassification points were met as often as the model says. The norm check is single-stepped on vectors that differ only in signs: the instruction sequences must be equal. Distinct = (key, message) or vector.',
                assumptions=[HOST, 'timing of single instructions is independent of operands'], require={'calls': 100, 'operations_with_secret_flow': 8, 'canary_reports': 1, 'norm_functions': 3, 'sign_canary_seen': 3}, soft=('operations_with_secret_flow', 'norm_functions', 'sign_canary_seen')),
})

CHECKS.update({
    'C24': dict(technique='runtime monitor: stand-ins for the platform generators that record every delivery; embedded JavaScript executed in node',
                level='exploration', runs=[run('plat-em', 'C24', 'd_plat.c', shards=4, weight=3), run('plat-em-asan', 'C24', 'd_plat.c', scale=0.3, shards=2)] + [run(f'plat-{p}{v}', 'C24', 'd_plat.c', scale=s, shards=2) for p in ('win', 'bsd', 'wasi') for v, s in (('', 1), ('-asan', 0.3))],
                rule='randombytes.c is compiled as for Emscripten, Windows, the BSDs and WASI against stand-in headers with the widths of the platform; the JavaScript it embeds runs in node against twelve states of a browser or Node.js (healthy, no crypto, generator throwing at once or late, no require, 65536-byte quota); the Windows calls fail in twelve combinations; lengths 0..262144 and beyond 2^32. Every byte of a successful fill has to be one the stand-in handed out, nothing outside the buffer may change, failure of all sources has to be reported, handles have to come back; the same through key generation and signing. Distinct = (platform state, length).',
                assumptions=[HOST, 'the stand-ins behave as the platform documentation says (quota of 65536 bytes, 32-bit lengths, status codes)'], require={'evaluations': 2000, 'lengths': 200, 'platform_states': 20, 'library_states': 30, 'javascript_runs': 500}, soft=('evaluations', 'lengths', 'platform_states', 'library_states', 'javascript_runs')),
})

CHECKS.update({
    'C25': dict(technique='runtime monitor: the library compiled for wasm32 executed in node next to the 64-bit build, with canaries, heap red zones, allocation ledger and trapping UBSan',
                level='exploration', runs=[run('w32-O2', 'C25', 'd_w32.c', shards=4, weight=3), run('w32-O0', 'C25', 'd_w32.c', scale=0.3, shards=2), run('w32-Os', 'C25', 'd_w32.c', scale=0.3, shards=2), run('w32-ubsan', 'C25', 'd_w32.c', scale=0.6, shards=3, weight=2)],
                rule='each public call and exported wrapper is made in the wasm32 build (32-bit size_t, long, pointers; -O0, -O2, -Os, trapping UBSan) and in the 64-bit build with the same arguments and random bytes; return code and all outputs have to be equal; in the 32-bit build additionally no byte outside the arguments, no input, no null-page byte may change, heap blocks keep their red zones and are all given back, nothing traps. Lengths of 2^32 and more, failing entropy, NULL arguments, modified and hostile signatures, rare signing decisions included. Distinct = argument sets.',
                assumptions=[HOST, 'clang 18 wasm32 code run by node stands for the 32-bit targets (WebAssembly, 32-bit Android)'], require={'wasm_calls': 2000, 'functions': 30, 'verify_classes': 60, 'outcomes': 40}, soft=('wasm_calls', 'functions', 'verify_classes', 'outcomes')),
})

# comparison-guided steering: every check of behaviour also runs its operations with the compared values driven to equality
_ST = ' Steered runs: the library is compiled with comparison tracing, the inputs of each operation are one byte string, and every value the library compares that follows input bytes is set to what it is compared with (and its neighbours), singly, in combinations and to a depth of five decisions, likewise lengths; same oracle.'
for _p, _v, _min in (('C01', 'cmp', 200), ('C02', 'cmp', 1000), ('C03', 'cmp', 1000), ('C04', 'cmp', 500), ('C05', 'cmp', 800), ('C06', 'cmp-asan', 2000), ('C07', 'cmp', 1500), ('C08', 'cmp', 200), ('C09', 'cmp', 60), ('C10', 'cmp', 120),
                     ('C12', 'cmp', 200), ('C14', 'cmp', 2000), ('C16', 'cmp', 400), ('C17', 'cmp', 500), ('C18', 'cmp', 800), ('C19', 'cmp-wasm', 200), ('C20', 'cmp', 250), ('C21', 'cmp', 90), ('C22', 'cmp', 1000)):
    CHECKS[_p]['runs'].append(run(_v, 'S' + _p, 'd_steer.c steer.c', weight=2, **(dict(only='underrun') if _p == 'C06' else {})))
    CHECKS[_p]['rule'] += _ST
    CHECKS[_p]['technique'] += '; comparison-guided steering of the inputs'
    CHECKS[_p]['require']['steered_executions'] = _min
