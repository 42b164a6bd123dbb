#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator only for readability; the .jsonl is what counts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=hook)))

L = "lib/high/"
prop("C01", "Keccak sponge: output depends only on message, rate and requested stream",
 "For every Keccak sponge with rate a multiple of 8 bits and rate+capacity=1600, the bytes squeezed are exactly those of Keccak[r,c] on the absorbed message with its trailing delimited bits, however the message is cut into absorb calls and the output into squeeze calls, and the one-shot call gives the same bytes. Squeezing without explicit trailing bits behaves as if no trailing bits were given.",
 ["inputs", "histories"], "all rates 8..1600 step 8, all messages, all partitions of the input into absorb calls (zero-length calls included), all delimiter bytes, all partitions of the output into squeeze calls, every shipped implementation",
 "Tests use one rate series with a handful of partitions and compare only a running digest; partitions that straddle block boundaries in a particular residue, or that interact with the whole-block fast path, are not reached.",
 [L+"Keccak/KeccakSponge.inc", L+"Keccak/KeccakSponge.c"],
 [("byte position in block / fast loop for whole blocks", L+"Keccak/KeccakSponge.inc"), ("padding and phase switch", L+"Keccak/KeccakSponge.inc")],
 [("byteIOIndex", "bytes of the current block already absorbed or squeezed", L+"Keccak/KeccakSponge.h"), ("squeezing", "phase flag", L+"Keccak/KeccakSponge.h")],
 ["bytes returned by squeeze", "return codes"])
prop("C02", "FIPS 202 hashing: digests match the standard for any bit length and chunking",
 "SHA3-224/256/384/512 and SHAKE128/256, through the one-shot functions and through init/update/final/squeeze, return exactly the FIPS 202 result for the message bit string, for every bit length (last byte partial, least significant bits used) and every way of cutting the message into updates and the output into squeezes. A fixed-length hash writes exactly its digest length, and bits of the last input byte beyond the message length have no influence.",
 ["inputs", "histories"], "all message bit lengths and partitions, all six instances and general rate/capacity/suffix settings, all output lengths",
 "The known-answer files sample short lengths in one call, plus one long file; partial-byte endings combined with chunked updates and with every residue modulo the block size are not covered.",
 [L+"Keccak/FIPS202/KeccakHash.c", L+"Keccak/FIPS202/SimpleFIPS202.c"],
 [("delimited suffix concatenation with partial last byte", L+"Keccak/FIPS202/KeccakHash.c")], [("delimitedSuffix", "domain suffix and first pad bit", L+"Keccak/FIPS202/KeccakHash.h")],
 ["digest bytes", "return codes"])
prop("C03", "SP 800-185: cSHAKE, KMAC, ParallelHash, TupleHash match the standard",
 "cSHAKE, KMAC, ParallelHash and TupleHash (128 and 256, fixed-length and XOF) return the SP 800-185 value for the given message, key, name, customization, block size and tuple, for every length including partial bytes where the interface takes bits and empty strings. Neither the partition of the message into updates, nor the number of parallel lanes of the build, nor the partition of XOF output changes the result.",
 ["inputs", "histories", "configurations"], "all lengths of key/name/customization/message/tuple elements, all block sizes, all partitions, all builds",
 "The unit tests (run on three of twelve builds) hash pseudo-random choices into one digest per function; boundary combinations such as block size versus lane batch versus update boundary are not enumerated.",
 [L+"Keccak/SP800-185/SP800-185.inc", L+"Keccak/SP800-185/SP800-185.c"],
 [("left/right length encoding", L+"Keccak/SP800-185/SP800-185.inc"), ("parallel block processing x8/x4/x2", L+"Keccak/SP800-185/SP800-185.inc"), ("phases", L+"common/Phases.h")],
 [("queueAbsorbedLen", "bytes of the current ParallelHash block already absorbed", L+"Keccak/SP800-185/SP800-185.h")], ["output bytes", "return codes"])
prop("C04", "KangarooTwelve: tree hash result independent of chunking and parallelism",
 "KT128 and KT256 return the specified KangarooTwelve value of (message, customization) for every length, whether computed in one call or incrementally, however the message is cut into updates and the output into squeezes, and whichever parallel leaf engine the build uses.",
 ["inputs", "histories", "configurations"], "all message lengths (around every 8192-byte chunk and every 2/4/8-chunk batch), customization lengths, partitions and builds",
 "Tests run fixed vectors plus pseudo-random partitions of limited lengths; batch boundaries combined with a pending partial leaf are reached by luck.",
 [L+"KangarooTwelve/KangarooTwelve.c", "lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c", "lib/low/KeccakP-1600-times4/AVX2/KeccakP-1600-times4-SIMD256.c"],
 [("leaf batching and chaining values", L+"KangarooTwelve/KangarooTwelve.c"), ("right_encode", L+"KangarooTwelve/KangarooTwelve.c")],
 [("blockNumber, queueAbsorbedLen, phase", "position in the tree", L+"KangarooTwelve/KangarooTwelve.h")], ["output bytes", "return codes"])
prop("C05", "TurboSHAKE: 12-round XOF matches its definition for any chunking and domain",
 "TurboSHAKE128/256 and TurboSHAKE with any supported capacity return the specified output for every message, domain byte and output length, in one call or incrementally, independent of the partition of input and output.",
 ["inputs", "histories"], "all capacities, domain bytes, messages, partitions of input and output, all builds",
 "There is no direct unit test of TurboSHAKE's incremental interface; it is only exercised through KangarooTwelve.",
 [L+"TurboSHAKE/TurboSHAKE.c", L+"Keccak/KeccakSponge.inc"], [("12-round instantiation of the sponge", L+"TurboSHAKE/TurboSHAKE.c")], None, ["output bytes", "return codes"])
prop("C06", "Duplex object: any call sequence matches the duplex construction, any rate",
 "For every rate from 3 to 1600 bits, any sequence of duplexing, feeding, overwriting and output-fetching calls (fetching output bytes not overlaid by newly queued input) yields exactly the outputs of the duplex construction (outputs beyond the rate are masked), and never absorbs into or outputs from the capacity part. A call whose input or output would exceed what the rate allows is refused with an error and leaves the object unchanged.",
 ["inputs", "histories"], "all rates 3..1600, all call sequences, all lengths valid and invalid, all delimiter bytes",
 "Tests run one long pseudo-random sequence per rate with legal arguments only; refusal of over-long input spread over several calls, zero-length outputs after the last partial byte and rates below one byte are not exercised.",
 [L+"Keccak/KeccakDuplex.inc", "doc/KeccakDuplex-documentation.h"],
 [("length checks against rate-2", L+"Keccak/KeccakDuplex.inc"), ("masking of last partial byte", L+"Keccak/KeccakDuplex.inc")],
 [("byteInputIndex, byteOutputIndex", "progress inside the current block", L+"Keccak/KeccakDuplex.h")], ["outputs", "return codes", "later outputs after a refused call"])
prop("C07", "SpongePRG: stream depends only on the seeds, fetches and forgets requested",
 "For every supported capacity, the bytes fetched from the generator are those of SpongePRG over the duplex construction for the sequence of fed seeds, fetches and forgets; splitting a feed or a fetch into several consecutive calls changes nothing. Forget is refused when the rate is too small for it and otherwise overwrites the outer part so that earlier output cannot be recomputed.",
 ["inputs", "histories"], "all capacities, all interleavings of feed/fetch/forget with all lengths",
 "Tests follow one pseudo-random schedule for a few capacities.",
 [L+"Keccak/PRG/KeccakPRG.inc", L+"Keccak/KeccakDuplex.inc"], [("block handling on top of duplex", L+"Keccak/PRG/KeccakPRG.inc")], None, ["fetched bytes", "return codes"])
prop("C08", "Kravatte: PRF output depends only on key, message strings and stream offset",
 "Kravatte (and its short variant) returns the Farfalle value of the key and the sequence of input strings, at bit granularity, however each string is cut into compression calls and the output into expansion calls, for every number of blocks handled by the 8/4/2/1-way engines. Unused bits of the last input byte have no influence and unused bits of the last output byte are zero.",
 ["inputs", "histories", "configurations"], "all key, message and output bit lengths, all partitions, all sequences of strings, all builds",
 "Tests compare one aggregated digest over selected lengths and a few partitions per build.",
 [L+"Kravatte/Kravatte.c"], [("input/output queue", L+"Kravatte/Kravatte.c"), ("rolling masks advanced per engine", "lib/low/KeccakP-1600-times*/")],
 [("queue/queueOffset", "partial block", L+"Kravatte/Kravatte.h"), ("kRoll,yAccu", "rolling masks", L+"Kravatte/Kravatte.h")], ["output bits", "return codes"])
prop("C09", "Kravatte-SANE/SANSE: sessions round-trip, match spec, reject any tampering",
 "In every session history of wraps, the ciphertexts and tags are those of the specification, and a peer that unwraps the same messages in order recovers every plaintext and accepts every tag. If key, nonce, associated data, ciphertext, tag or message order differs in any bit, unwrap reports failure and the plaintext buffer is wiped.",
 ["inputs", "histories", "fault_sequences"], "all session histories, all bit lengths of plaintext and associated data (empty included), all single-bit corruptions of each transmitted field, replay/reorder/drop of messages",
 "Tests check selected lengths and aggregated digests; corruption is tried at few positions, and wiping and multi-message desynchronisation are not enumerated.",
 [L+"Kravatte/KravatteModes.c"], [("history update with domain bits and message parity", L+"Kravatte/KravatteModes.c"), ("tag comparison and wipe", L+"Kravatte/KravatteModes.c")],
 [("e", "message parity bit", L+"Kravatte/KravatteModes.h")], ["ciphertext, tag, plaintext buffers", "return codes"])
prop("C10", "Kravatte-WBC/WBC-AE: enciphering is invertible, spec-exact and tamper-evident",
 "For every key, tweak and data bit length, deciphering an enciphered block with the same tweak returns the original bits, and enciphering equals the specified wide block cipher. For the authenticated variant, any modification of ciphertext or metadata is rejected and the plaintext buffer is wiped.",
 ["inputs", "fault_sequences"], "all data lengths in bits (around every split boundary), tweak lengths, keys, single-bit corruptions",
 "Tests cover selected lengths with round-trip and one aggregated digest.",
 [L+"Kravatte/KravatteModes.c"], [("left/right split", L+"Kravatte/KravatteModes.c"), ("four Feistel steps with shared tweak compression", L+"Kravatte/KravatteModes.c")], None, ["enciphered/deciphered bits", "return codes"])
prop("C11", "Xoofff: PRF output depends only on key, message strings and stream offset",
 "Xoofff (and its short variant) returns the Farfalle value of the key and the sequence of input strings, at bit granularity, however each string is cut into compression calls and the output into expansion calls, for every number of blocks handled by the 16/8/4/1-way engines. Unused bits of the last input byte have no influence and unused bits of the last output byte are zero.",
 ["inputs", "histories", "configurations"], "all key, message and output bit lengths, all partitions, all sequences of strings, all builds",
 "Tests compare one aggregated digest over selected lengths and partitions per build.",
 [L+"Xoofff/Xoofff.c", "lib/low/Xoodoo-times16", "lib/low/Xoodoo-times8", "lib/low/Xoodoo-times4"], [("input/output queue", L+"Xoofff/Xoofff.c"), ("rolling functions in SIMD engines", "lib/low/Xoodoo-times*/")], None, ["output bits", "return codes"])
prop("C12", "Xoofff-SANE/SANSE: sessions round-trip, match spec, reject any tampering",
 "In every session history of wraps, the ciphertexts and tags are those of the specification, and a peer that unwraps the same messages in order recovers every plaintext and accepts every tag. If key, nonce, associated data, ciphertext, tag or message order differs in any bit, unwrap reports failure and the plaintext buffer is wiped.",
 ["inputs", "histories", "fault_sequences"], "all session histories, all bit lengths, all single-bit corruptions, replay/reorder/drop of messages",
 "As for Kravatte: selected lengths, aggregated digests, few corruptions.",
 [L+"Xoofff/XoofffModes.c"], [("history update with domain bits and message parity", L+"Xoofff/XoofffModes.c"), ("tag comparison and wipe", L+"Xoofff/XoofffModes.c")], None, ["ciphertext, tag, plaintext buffers", "return codes"])
prop("C13", "Xoofff-WBC/WBC-AE: enciphering is invertible, spec-exact and tamper-evident",
 "For every key, tweak and data bit length, deciphering an enciphered block with the same tweak returns the original bits, and enciphering equals the specified wide block cipher. For the authenticated variant, any modification of ciphertext or metadata is rejected and the plaintext buffer is wiped.",
 ["inputs", "fault_sequences"], "all data lengths in bits (around every split boundary), tweak lengths, keys, single-bit corruptions",
 "Selected lengths with round-trip and one aggregated digest.",
 [L+"Xoofff/XoofffModes.c"], [("left/right split", L+"Xoofff/XoofffModes.c")], None, ["enciphered/deciphered bits", "return codes"])
prop("C14", "Xoodyak: every hash or keyed session matches the Cyclist specification",
 "Any sequence of absorb, encrypt, decrypt, squeeze, squeeze-key and ratchet calls, in hash or keyed mode with any key/identifier/counter lengths, gives exactly the Cyclist outputs, and a decrypting peer recovers the plaintext and stays synchronised. Encrypting or decrypting in place gives the same result as with separate buffers, and whole-block fast paths never change the result.",
 ["inputs", "histories"], "all call sequences, all lengths around the 16/24/44-byte block sizes and their multiples, in-place or not, all builds",
 "Tests run pseudo-random sequences for a fixed number of iterations per key length and compare a digest; in-place use and boundary lengths in every order are not enumerated.",
 [L+"Xoodyak/Cyclist.inc", "lib/low/Xoodoo/plain/Xoodyak-full-blocks.c", "lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c", "lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c"],
 [("phase up/down and domain bytes", L+"Xoodyak/Cyclist.inc"), ("full-block fast paths", "lib/low/Xoodoo/*/Xoodyak-full-block*")],
 [("phase, mode", "Cyclist phase and mode", L+"Xoodyak/Cyclist.h")], ["outputs of every call"])
prop("C15", "Every Keccak-p[1600] implementation realises the same state-and-permutation",
 "For each shipped implementation, adding, overwriting, zeroing and extracting any byte range at any offset, in any order and interleaved with permutations of any supported round count, acts as on one plain 1600-bit state with Keccak-p[1600,n], and touches no other state bits. The absorbing fast loop equals repeated add-and-permute, consumes the whole blocks available and reports their exact length.",
 ["inputs", "histories", "configurations"], "all (offset,length) pairs, all data alignments, all operation orders to a bound, all round counts, all block sizes of the fast loop, every implementation",
 "Tests call each operation on selected ranges in one fixed order and fold the outcome into one checksum.",
 ["lib/low/KeccakP-1600/", "doc/SnP-documentation.h"], [("opaque state representations (bit interleaving, lane complementing, SIMD)", "lib/low/KeccakP-1600/*"), ("relaned byte access", "lib/low/common/SnP-Relaned.h")], None, ["extracted bytes", "reported lengths"])
prop("C16", "Parallel Keccak-p[1600] engines equal independent serial instances",
 "Each 2-, 4- and 8-way Keccak-p[1600] engine behaves as that many independent states: per-instance and all-instance add/overwrite/extract operations with any lane count and offset, permutations of each offered round count, absorbing loops, KangarooTwelve leaf processing and Kravatte compress/expand loops give per instance the serial result and report exactly the data they consumed.",
 ["inputs", "histories", "configurations"], "all instances, (offset,length) pairs, lane counts and lane offsets, operation orders to a bound, data lengths, every engine",
 "Tests use a few fixed ranges and one checksum per engine; fast loops are only reached through the modes.",
 ["lib/low/KeccakP-1600-times2", "lib/low/KeccakP-1600-times4", "lib/low/KeccakP-1600-times8", "lib/low/common/PlSnP-Fallback.inc", "doc/PlSnP-documentation.h"],
 [("interleaved lane storage", "lib/low/KeccakP-1600-times*/"), ("fallback on smaller parallelism", "lib/low/common/PlSnP-Fallback.inc")], None, ["extracted bytes of every instance", "reported lengths"])
prop("C17", "Every Xoodoo implementation, serial or parallel, realises the same permutation",
 "For each Xoodoo implementation (serial, 4-, 8- and 16-way), byte-range and lane operations on every instance and the 6- and 12-round (and n-round) permutations act as on independent plain 384-bit states with the specified Xoodoo, and the full-block and Farfalle loops equal their step-by-step definition and report exactly the data consumed.",
 ["inputs", "histories", "configurations"], "all instances, all (offset,length) pairs, operation orders to a bound, round counts, data lengths, every implementation",
 "One checksum over a fixed sequence per implementation.",
 ["lib/low/Xoodoo", "lib/low/Xoodoo-times4", "lib/low/Xoodoo-times8", "lib/low/Xoodoo-times16"], [("SIMD state layouts", "lib/low/Xoodoo*/")], None, ["extracted bytes", "reported lengths"])
prop("C18", "Misuse is refused: wrong phase or bad parameter is an error and changes nothing",
 "A call that the interface documents as invalid (unsupported rate or capacity, absorbing after squeezing, finalising twice, squeezing before finalising, zero delimiter, non-byte length before the last part, over-long key, zero-length one-shot output where refused) returns the documented error value (1, KECCAK_FAIL), never writes output, and leaves the object so that valid calls afterwards give the same results as if the call had not been made. Valid calls return success.",
 ["inputs", "histories"], "all call sequences mixing valid and invalid calls up to a bound, all invalid parameter values of the small parameter domains, for all stateful interfaces",
 "The tests hardly make invalid calls at all.",
 [L+"Keccak/KeccakSponge.inc", L+"Keccak/FIPS202/KeccakHash.c", L+"Keccak/SP800-185/SP800-185.inc", L+"KangarooTwelve/KangarooTwelve.c", L+"TurboSHAKE/TurboSHAKE.c", L+"Keccak/PRG/KeccakPRG.inc", L+"Kravatte/Kravatte.c", L+"Xoofff/Xoofff.c"],
 [("phase fields and parameter checks", L+"*")], None, ["return codes", "output buffers", "later outputs"])
prop("C19", "Memory safety: only the caller's exact buffers are touched, at any alignment",
 "No call reads outside the input ranges it was given or writes outside the output ranges it was given, input buffers are never modified (except where documented), results do not depend on the address alignment of input and output buffers or on the previous content of output buffers and of objects before initialisation.",
 ["inputs", "configurations"], "all interfaces, all lengths over several blocks and batch sizes, all buffer alignments modulo 64, buffers adjacent to inaccessible memory on either side",
 "Tests place data in large static buffers, where over-reads, over-writes of a few bytes and alignment assumptions go unnoticed.",
 [L, "lib/low/"], [("length arithmetic of every loop", L), ("unaligned loads/stores in SIMD code", "lib/low/")], None, ["guard pages", "canary bytes around buffers", "outputs"])
prop("C20", "Objects are independent: concurrent or interleaved use never interferes",
 "Distinct objects used from different threads, or interleaved in one thread at any point, each give the result they would give alone; the library keeps no hidden mutable state between calls that can affect results. A byte-wise copy of an object taken between calls continues independently of the original.",
 ["schedules", "histories"], "all preemption points (machine-instruction granularity) of one operation by another with one preemption, all interleavings of two operation scripts at permutation-call granularity, for every scheme pair sharing code",
 "Tests use one object at a time in one thread.",
 [L, "lib/low/"], [("no static mutable scratch data", L), ("static initialisation of tables", "lib/low/KeccakP-1600/ref-64bits/KeccakP-1600-reference.c")], None, ["outputs of each object under each schedule"])
prop("C21", "Other architectures: ARM, AArch64 and 32-bit builds agree with the x86-64 builds",
 "The builds for 32-bit x86, ARMv6, ARMv7-A with NEON, AArch64 and Cortex-M (assembly and generic C) produce, for every state operation, permutation and scheme, the same outputs as the specification.",
 ["inputs", "configurations"], "all (offset,length) ranges of the state operations, all round counts, boundary lengths of every scheme, every runnable cross build",
 "On these targets only a small part of the unit tests is run, each folding a few ranges into a checksum.",
 ["lib/low/KeccakP-1600/ARM", "lib/low/KeccakP-1600/ARMv7A-NEON", "lib/low/KeccakP-1600-times2/ARMv7A-NEON", "lib/low/Xoodoo/ARM", "lib/low/Xoodoo/ARMv7A-NEON", "lib/low/Xoodoo-times4/ARMv7A-NEON", "lib/low/KeccakP-1600/plain-32bits-inplace"],
 [("assembly implementations", "lib/low/*/ARM*")], None, ["bytes extracted under emulation"])
prop("C22", "Standalone implementations and the low-level model agree with the standards",
 "The standalone C, Python and Rust implementations of FIPS 202 and KangarooTwelve return the standard's result for every byte-string message and output length they accept, and the documented C++ low-level model behaves as the library's state-and-permutation interfaces do.",
 ["inputs", "programs"], "all message lengths over several blocks, all output lengths over several blocks, all instances, all rates in the generic entry points",
 "Their tests replay the short-message known answers with one output length.",
 ["Standalone/CompactFIPS202/C", "Standalone/CompactFIPS202/Python/CompactFIPS202.py", "Standalone/KangarooTwelve/Rust/k12.rs", "doc/Low level model/src"],
 [("self-contained sponge loops", "Standalone/")], None, ["output bytes"])
prop("C23", "Lengths beyond 32 bits are processed exactly",
 "Messages, outputs and bit counts larger than 2^32 (in one call or accumulated over calls) are processed as exactly as short ones: a single call with a huge length equals the same data given in small pieces, for every scheme whose interface accepts such lengths.",
 ["inputs", "histories"], "all schemes with size_t lengths; single-call input and output lengths at and around 2^32 bits and 2^32 bytes, accumulated totals at and around the same thresholds",
 "No test handles more than a few megabytes.",
 [L+"Keccak/KeccakSponge.inc", L+"KangarooTwelve/KangarooTwelve.c", L+"Keccak/SP800-185/SP800-185.inc", L+"Kravatte/Kravatte.c", L+"Xoofff/Xoofff.c", L+"Xoodyak/Cyclist.inc"],
 [("size_t arithmetic; casts to unsigned int of per-block lengths", L)], None, ["digest after huge input", "bytes at huge output offsets"])
prop("C24", "Secrets steer neither control flow nor the memory addresses accessed",
 "For inputs of equal lengths, neither the sequence of machine instructions executed by hashing, MAC, PRF, encryption, decryption and tag generation nor the addresses of the memory they access depend on the values of keys, messages or state, so execution leaks nothing beyond lengths.",
 ["inputs", "programs"], "all pairs of secrets from a bounded alphabet of structured keys/messages/states, every scheme, every build",
 "Functional tests cannot observe the executed path at all.",
 ["lib/low/", L], [("branch-free permutations and state operations", "lib/low/")], None, ["sequence of executed instruction addresses"])
prop("C25", "File checksum utility: printed digests match the hash of the file's bytes",
 "The command-line checksum utility prints, for each file and each selected algorithm, the digest of exactly the file's content, independent of its read-buffer boundaries, and reports unreadable files as errors.",
 ["inputs", "configurations"], "all file lengths around the read-buffer size, all algorithms and options",
 "There are no tests of the utility.",
 ["util/KeccakSum/KeccakSum.c", "util/KeccakSum/base64.c"], [("read loop and option parsing", "util/KeccakSum/KeccakSum.c")], None, ["standard output"])
prop("C26", "Assembly code respects the calling convention of its platform",
 "Every function written in assembly can be called by any compiler's code: it leaves the callee-saved general and vector registers, the stack pointer and the control flags as it found them, and its result does not depend on anything the procedure call standard leaves unspecified (scratch registers, flags, the unused upper bits of registers that hold narrower arguments).",
 ["inputs", "programs"], "every assembly function that can be assembled for x86-64, ARMv6, ARMv7-A and AArch64, on every path selected by its offsets, lengths, alignments and round counts",
 "A test only notices a clobbered register if the compiler happened to keep something in it across that very call, and unspecified upper bits are nearly always zero in test code.",
 ["lib/low/KeccakP-1600/AVX2", "lib/low/KeccakP-1600/AVX512", "lib/low/KeccakP-1600/x86-64", "lib/low/KeccakP-1600/ARM", "lib/low/KeccakP-1600/ARMv7A-NEON", "lib/low/KeccakP-1600/ARMv8A", "lib/low/KeccakP-1600-times2/ARMv7A-NEON", "lib/low/Xoodoo/ARM", "lib/low/Xoodoo/ARMv7A-NEON", "lib/low/Xoodoo-times4/ARMv7A-NEON"],
 [("prologues and epilogues of every function, register saving on early exits", "lib/low/")], None, ["register contents at every return of an assembly function", "results with unspecified registers filled with ones"])
prop("C27", "Custom builds: any selection of implementations builds and agrees",
 "Any combination of one low-level implementation of a permutation with any or none of the available implementations of each degree of parallelism builds, and every mode on top of it gives the specified results, wherever the caller places its objects within the alignment their types ask for.",
 ["configurations", "inputs"], "all combinations of the low-level implementations available on the processor, each with the modes that use parallelism, at message and output lengths reaching every combination of engines, all object addresses and stack positions modulo 128",
 "Tests cover the predefined targets only, a dozen of several hundred combinations, with objects wherever the compiler happened to put them.",
 ["doc/HOWTO-customize.build", "lib/LowLevel.build", L+"KangarooTwelve/KangarooTwelve.c", L+"Keccak/SP800-185/SP800-185.inc", L+"Kravatte", L+"Xoofff", "lib/low/common/PlSnP-Fallback.inc"],
 [("choice of the engine for what is left of the input", L+"KangarooTwelve/KangarooTwelve.c"), ("alignment of buffers shared with the engines", L+"Xoofff/Xoofff.h")], None, ["outputs", "build results"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
