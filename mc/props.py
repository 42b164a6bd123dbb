"""What each property's check builds and runs."""
import itertools, os, re
import abi, build

RUN = [t for t in build.X86 if build.runs_here(t)]
EXTRA = [t for t in build.EXTRA if build.runs_here(t) and not t.endswith("-32")]

def c01(tier):
    return [dict(src="c01.cpp", tool="x86", target=t, high=["KeccakSponge"], shards=4,
                 args=[] if tier == "thorough" or t in ("generic64", "generic32") else ["few"] if t.startswith("reference") else ["light"]) for t in RUN + (EXTRA if tier == "thorough" else [])]

def c05(tier):
    return [dict(src="c01.cpp", variant="turbo", hflags="-DTURBO", tool="x86", target=t, high=["TurboSHAKE"], shards=4,
                 args=[] if tier == "thorough" or t in ("generic64", "generic32") else ["few"] if t.startswith("reference") else ["light"]) for t in RUN + (EXTRA if tier == "thorough" else [])]

def c04(tier):
    return [dict(src="c04.cpp", tool="x86", target=t, high=["KangarooTwelve"], shards=6,
                 args=["slow"] if t.startswith("reference") else []) for t in RUN + EXTRA]

def c03(tier):
    return [dict(src="c03.cpp", tool="x86", target=t, high=["SP800-185"], shards=6,
                 args=["light"] if t.startswith("reference") else []) for t in RUN + EXTRA if tier == "thorough" or t != "reference32bits"]

def c06(tier):
    return [dict(src="c06.cpp", tool="x86", target=t, high=["KeccakDuplex"], shards=8,
                 args=["all"] if tier == "thorough" or t in ("generic64", "generic32") else []) for t in RUN + (EXTRA if tier == "thorough" else [])]

def c07(tier):
    return [dict(src="c07.cpp", tool="x86", target=t, high=["KeccakPRG"], shards=8,
                 args=["all"] if tier == "thorough" or t in ("generic64", "generic32") else []) for t in RUN + (EXTRA if tier == "thorough" else [])]

SLOW = ("reference", "reference32bits", "compact")
def ff(src, name, **kw):
    def f(tier):
        tg = [t for t in RUN + EXTRA if tier == "thorough" or t != "reference32bits"]
        return [dict(src=src, variant=name, hflags="-D" + name.upper(), tool="x86", target=t, high=[name], args=["light"] if t in SLOW else [], **kw) for t in tg]
    return f

def units(src, high, targets=None, slow=(), **kw):
    def f(tier):
        tg = list(targets(tier) if callable(targets) else targets or RUN)
        return [dict(src=src, tool="x86", target=t, high=high, **kw) for t in tg]
    return f

def distinct(folders, pool=None):
    """Targets of the pool that differ in the low-level sources under the given folders (one of each)."""
    seen, out = set(), []
    for t in pool or RUN + EXTRA:
        key = tuple(sorted(x for tag, x, _ in build.resolve(build.low_fragments(t)) if tag in ("c", "s", "h", "inc") and any(f"lib/low/{f}/" in x for f in folders)))
        if key and key not in seen:
            seen.add(key)
            out.append(t)
    return out

def c14(tier):
    return [dict(src="c14.cpp", tool="x86", target=t, high=["Xoodyak"], shards=16, args=["light"] if t == "reference" and tier != "thorough" else []) for t in distinct(["Xoodoo"])] \
        + [dict(src="c14.cpp", variant="sse41", tool="x86", target=t, high=["Xoodyak"], shards=8, args=["light"], extra_flags="-msse4.1") for t in ("SSSE3", "AVX512noAsm") if t in RUN]

def c15(tier):
    return [dict(src="c15.cpp", tool="x86", target=t, high=[], shards=8) for t in distinct(["KeccakP-1600"])]

def engines(src, folder, high, ps, **kw):
    def f(tier):
        return [dict(src=src, variant=f"x{p}", hflags=f"-DWAYS={p} " + kw.get("hflags", ""), tool="x86", target=t, high=high, shards=8, **{k: v for k, v in kw.items() if k != "hflags"})
                for p in ps for t in distinct([f"{folder}-times{p}"])]
    return f

def c17(tier):
    return engines("c16.cpp", "Xoodoo", ["Xoofff"], (4, 8, 16), hflags="-DXOO")(tier) + [dict(src="c17.cpp", tool="x86", target=t, high=["Xoofff", "Xoodyak"], shards=8) for t in distinct(["Xoodoo"])]

def c18(tier):
    k = dict(tool="x86", shards=12)
    tg = RUN if tier == "thorough" else ["generic64", "AVX512", "AVX2", "generic32"]
    tg = [t for t in tg if t in RUN]
    return ([dict(src="c18.cpp", variant="k", target=t, high=["KeccakSponge", "FIPS202", "SP800-185", "TurboSHAKE", "KangarooTwelve", "KeccakDuplex", "KeccakPRG"], **k) for t in tg]
        + [dict(src="c18.cpp", variant=n, hflags="-D" + n.upper(), target=t, high=[n], **k) for n in ("Kravatte", "Xoofff") for t in tg])

KECCAK_ALL = ["KeccakSponge", "FIPS202", "SP800-185", "TurboSHAKE", "KangarooTwelve", "KeccakDuplex", "KeccakPRG"]
PARTS = [("k", "", KECCAK_ALL, ["KeccakP-1600"]), ("Kravatte", "-DKRAVATTE", ["Kravatte"], ["KeccakP-1600"]), ("Xoofff", "-DXOOFFF", ["Xoofff"], ["Xoodoo"]), ("Xoodyak", "-DXOODYAK", ["Xoodyak"], ["Xoodoo"])]

def c19(tier):
    out = []
    for name, flag, high, low in PARTS:
        folders = ["KeccakP-1600", "KeccakP-1600-times2", "KeccakP-1600-times4", "KeccakP-1600-times8"] if low == ["KeccakP-1600"] else ["Xoodoo", "Xoodoo-times4", "Xoodoo-times8", "Xoodoo-times16"]
        for t in distinct(folders) if tier == "quick" else RUN + EXTRA:
            out.append(dict(src="c19.cpp", variant=name, hflags=flag, tool="x86", target=t, high=high, shards=10,
                            args=["slow"] if t in SLOW else [] if t in ("generic64", "AVX512", "AVX2noAsm") or tier == "thorough" else ["light"]))
        for t in [x for x in ("generic64", "generic32", "AVX2noAsm", "AVX512noAsm") if x in RUN]:   # with the compiler's own bounds checks (stack and static data, array indices)
            out.append(dict(src="c19.cpp", variant=name + "asan", hflags=flag + " -DASAN", tool="x86", target=t, high=high, shards=8, args=["light"],
                            extra_flags="-g1 -fsanitize=address -fsanitize=bounds -fsanitize-undefined-trap-on-error", lflags="-fsanitize=address"))
    return out

def c20(tier):
    out = []
    for name, flag, high, low in PARTS:
        folders = ["KeccakP-1600", "KeccakP-1600-times2", "KeccakP-1600-times4", "KeccakP-1600-times8"] if low == ["KeccakP-1600"] else ["Xoodoo", "Xoodoo-times4", "Xoodoo-times8", "Xoodoo-times16"]
        for t in distinct(folders) if tier == "quick" else RUN + EXTRA:
            out.append(dict(src="c20.cpp", variant=name, hflags=flag, tool="x86", target=t, high=high, shards=10, shared=True,
                            args=["insns"] if t in ("generic64", "AVX512") or tier == "thorough" else [] if t in ("generic32", "AVX2", "reference", "compact") else ["few"]))
    return out

def mixes(tier):
    """Selections of low-level implementations as doc/HOWTO-customize.build allows them: one for the permutation, and for
    every degree of parallelism one or none.  Quick takes one unrolling of every implementation, thorough all."""
    T = tier == "thorough"
    k1 = (["ref-64bits", "ref-32bits", "compact", "plain-32bits-inplace", "plain-64bits-ua", "x86-64", "AVX2", "AVX512-C", "AVX512", "XOP-ua"]
        + (["plain-64bits-u6", "plain-64bits-lcu6", "plain-64bits-lcua", "plain-64bits-lcua-shld", "x86-64-shld", "XOP-u6"] if T else []))
    ways = {"x2": ["", "SSSE3-u2", "AVX512-u12", "XOP-ua"] + (["SSSE3-ua", "AVX512-u4", "AVX512-ua", "XOP-u2"] if T else []),
            "x4": ["", "AVX2-u12", "AVX512-u12"] + (["AVX2-u6", "AVX2-ua", "AVX512-u4", "AVX512-ua"] if T else []),
            "x8": ["", "AVX512-u12"] + (["AVX512-u4", "AVX512-ua"] if T else [])}
    def pick(base, singles, ways):
        for combo in itertools.product(singles, *ways.values()):
            low = [f"{base}-{combo[0]}"] + [f"{base}{w}-{c}" for w, c in zip(ways, combo[1:]) if c]
            if all(build.runs_here(l) for l in low):
                yield low
    keccak = list(pick("K1600", k1, ways))
    if not T:
        others = ["K1600x2-SSSE3-ua", "K1600x2-AVX512-u4", "K1600x2-AVX512-ua", "K1600x2-XOP-u2", "K1600x4-AVX2-u6", "K1600x4-AVX2-ua", "K1600x4-AVX512-u4", "K1600x4-AVX512-ua", "K1600x8-AVX512-u4", "K1600x8-AVX512-ua"]
        keccak += [l for l in [[f"K1600-{k}"] for k in ("plain-64bits-u6", "plain-64bits-lcu6", "plain-64bits-lcua", "plain-64bits-lcua-shld", "x86-64-shld", "XOP-u6")] + [["K1600-plain-64bits-ua", o] for o in others] if all(map(build.runs_here, l))]
    xoodoo = list(pick("Xoodoo", ["ref", "plain-ua", "SSE2", "AVX512"], {"x4": ["", "SSSE3", "AVX512"], "x8": ["", "AVX2", "AVX512"], "x16": ["", "AVX512"]}))
    return keccak, xoodoo

def c27(tier):
    keccak, xoodoo = mixes(tier)
    out = []
    for lows, services in ((keccak, [("c03.cpp", "", "", ["SP800-185"]), ("c04.cpp", "", "", ["KangarooTwelve"]), ("c08.cpp", "Kravatte", "-DKRAVATTE", ["Kravatte"])]),
                           (xoodoo, [("c08.cpp", "Xoofff", "-DXOOFFF", ["Xoofff"]), ("c09.cpp", "Xoofff", "-DXOOFFF", ["Xoofff"]), ("c10.cpp", "Xoofff", "-DXOOFFF", ["Xoofff"])])):
        for low in lows:
            for src, variant, hflags, high in services:
                out.append(dict(src=src, variant=variant, tool="x86", target="+".join(low), high=high, shards=1, args=["mix"],
                                make=lambda nin, a=(src, variant, hflags, high, low): nin.mix(*a)))
    return out

STAND = "Standalone/CompactFIPS202/C"
def standalone_c(tool):
    """The standalone C programs, each with its own prefix on every global symbol."""
    def pre(nin):
        out = []
        for prefix, src, flags in (("rd_", "Keccak-readable-and-compact.c", ""), ("rl_", "Keccak-readable-and-compact.c", "-DLITTLE_ENDIAN"), ("mo_", "Keccak-more-compact.c", ""),
                                   ("tc_", "TweetableFIPS202.c", ""), ("tw_", "TweetableFIPS202.tweets", "-x c"), ("rs_", "TweetableFIPS202-stub.c", "-DDEBUG=1")):
            cc, _, tflags, _, _ = build.TOOLS[tool]
            o = f"{nin.dir}/standalone/{tool}/{prefix}"
            nin.edge(o + "raw.o", "cc", [f"{build.REPO}/{STAND}/{src}"], cc=cc, flags=f"-O2 -w {tflags} {flags}")
            # rename what the object defines; the dispatcher calls the tweetable version
            extra = "".join(f" --redefine-sym {s}=tc_{s}" for s in ["crypto_hash_shake128", "crypto_hash_shake256"] + [f"crypto_hash_sha3{n}" for n in (224, 256, 384, 512)]) if prefix == "rs_" else ""
            nin.edge(o + "all.o", "sh", [o + "raw.o"], cmd=f"nm -g --defined-only {o}raw.o | awk '{{print $$3\" {prefix}\"$$3}}' > {o}syms && objcopy --redefine-syms={o}syms{extra} {o}raw.o {o}all.o")
            out.append(o + "all.o")
        return out
    return pre

def k12_rust(nin):
    d = f"{nin.dir}/standalone/rust"
    os.makedirs(d, exist_ok=True)
    text = open(f"{build.VERIF}/harness/k12wrap.rs.in").read().replace("@K12@", f"{build.REPO}/Standalone/KangarooTwelve/Rust/k12.rs")
    if not os.path.exists(f"{d}/wrap.rs") or open(f"{d}/wrap.rs").read() != text:
        open(f"{d}/wrap.rs", "w").write(text)
    nin.edge(f"{d}/libk12.a", "sh", [f"{d}/wrap.rs", f"{build.REPO}/Standalone/KangarooTwelve/Rust/k12.rs"], cmd=f"rustc --edition 2018 -O -C panic=abort --cap-lints allow --crate-name k12wrap --crate-type staticlib -o {d}/libk12.a {d}/wrap.rs")
    return [f"{d}/libk12.a"]

MODEL = "doc/Low level model/src"
def model(nin):
    out = []
    for src in ("SnP", "PlSnP", "Keccak-p", "Xoodoo"):
        o = f"{nin.dir}/model/{src}.o"
        nin.edge(o, "cc", [f"{build.REPO}/{MODEL}/{src}.cpp"], cc="g++", flags="-O3 -std=c++17 -w")
        out.append(o)
    return out

def c22(tier):
    k = dict(src="c22.cpp", target="generic64", high=[], shards=8)
    return [dict(k, tool="x86", variant="c", hflags="-DPART_C", pre=standalone_c("x86")), 
            dict(k, tool="x86", variant="rust", hflags="-DPART_RUST", pre=k12_rust, lflags="-lpthread -ldl"),
            dict(k, tool="x86", variant="model", hflags=f"-DPART_MODEL '-I{build.REPO}/{MODEL}'", pre=model, shards=16)]

def c22_extra(tier):
    out = []
    for part, py, n in (("plain", "python3", 4), ("numpy", "python3-vt", 8), ("sum", "python3", 4)):
        for i in range(n):
            out.append({"unit": {"src": "c22.py", "variant": ":" + part, "tool": py, "target": "Standalone"}, "timeout": 800,
                        "cmd": [py, f"{build.VERIF}/harness/c22.py", build.REPO, part, "thorough" if tier == "thorough" else "quick", f"shard={i}/{n}"]})
    return out

PROPS = {
    "C01": dict(units=c01,
        bounds={"quick": "all 200 byte rates; every partition (as a graph over offsets) of messages and outputs up to 2r+3 bytes (whole-lane rates on 12 x86-64 builds, other rates on 2 of them, selected sizes on the others); one-shot lengths 0..2r+2; all 255 suffixes at block edges; long runs up to 26 blocks; 12 x86-64 builds",
                "thorough": "as quick with partitions up to 3r+3 bytes"}),    "C02": dict(units=units("c02.cpp", ["FIPS202"], targets=lambda tier: [t for t in RUN if tier == "thorough" or not t.startswith("reference3")] , shards=6),
        bounds={"quick": "6 standard instances and 7 other parameter sets: every partition into byte updates up to 2r+3 bytes followed by 0..7 bits (unused bits all 0 / all 1), last updates of every length up to r+2 bytes plus 1..7 bits, squeeze partitions up to 2r+3, one-shot lengths 0..4r+2, long runs up to 20 blocks; 11 builds",
                "thorough": "partitions up to 3r+3, 12 builds"}),
    "C05": dict(units=c05,
        bounds={"quick": "all 65 capacities; absorb and squeeze partitions up to 2r+3 bytes; all 255 domain bytes at block edges; one-shot lengths 0..2r+2; long runs up to 15 blocks; 12 builds",
                "thorough": "partitions up to 3r+3, runs up to 26 blocks, 20 builds"}),    "C04": dict(units=c04,
        bounds={"quick": "KT128 and KT256; one-shot totals within 5 bytes of every multiple of 8192 up to 34 leaves with customizations up to 65536 bytes; lengths 0..3r with customization 0..40; update partitions: all cuts up to 2r+3, all cuts near leaf boundaries 1..3, all cuts within 1 byte of 20 leaf boundaries; all output partitions up to 3r+1; 254..258 chaining values; 20 builds with 1-, 2-, 4- and 8-way leaf engines",
                "thorough": "as quick up to 70 leaves one-shot, 40 leaves in partitions, 65534..65538 chaining values"}),    "C03": dict(units=c03,
        bounds={"quick": "128 and 256; every message/key/customization/output bit length up to two blocks (step 7 on the reference builds), name lengths up to 2r+5, all length-encoding size changes up to 2^19 bits; every update partition up to r+6 bytes (+0..7 bits), squeeze partitions up to 2r+3 (+ partial byte); ParallelHash: 9 block sizes up to 8192, partitions at all cuts within one byte of the boundaries of up to 20 blocks, all 2^e block sizes; TupleHash: all tuples up to 4 elements and all groupings",
                "thorough": "update partitions up to 3r+6"}),
    "C08": dict(units=ff("c08.cpp", "Kravatte", shards=13),
        bounds={"quick": "all key bit lengths; all message and output bit lengths up to 3 blocks and within 9 bits of every number of blocks up to 35, two successive strings each, long and short variants; every partition of messages and outputs up to 2 blocks + 3 bytes; all partitions at points within a byte of every number of blocks up to 19; every last part after every queue fill up to 2 blocks; all sequences of 3 calls (init, last, short flags) over boundary lengths; builds with every engine",
                "thorough": "partitions up to 4 blocks, sequences of 4 calls"}),
    "C11": dict(units=ff("c08.cpp", "Xoofff", shards=13),
        bounds={"quick": "all key bit lengths; all message and output bit lengths up to 3 blocks and within 9 bits of every number of blocks up to 67, two successive strings each, long and short variants; every partition of messages and outputs up to 2 blocks + 3 bytes; all partitions at points within a byte of every number of blocks up to 35; every last part after every queue fill up to 2 blocks; all sequences of 3 calls (init, last, short flags) over boundary lengths; builds with every engine",
                "thorough": "partitions up to 4 blocks, sequences of 4 calls"}),
    "C09": dict(units=ff("c09.cpp", "Kravatte", shards=10),
        bounds={"quick": "SANE and SANSE: all key and nonce bit lengths, all AD and data bit lengths up to 2 blocks (two messages each, garbage in unused bits), all pairs up to 34 bits, lengths around every number of blocks up to 18; all sessions of 3 messages over 49 (AD, data) length pairs; for 81 length pairs after 0, 1 and 2 messages: every single-bit change of AD, ciphertext, tag, key, nonce, every one-bit lengthening or shortening, dropped, swapped, early, replayed and repeated messages; builds with every engine",
                "thorough": "sessions of 4 messages, longer messages"}),
    "C12": dict(units=ff("c09.cpp", "Xoofff", shards=10),
        bounds={"quick": "SANE and SANSE: all key and nonce bit lengths, all AD and data bit lengths up to 2 blocks (two messages each, garbage in unused bits), all pairs up to 34 bits, lengths around every number of blocks up to 34; all sessions of 3 messages over 49 (AD, data) length pairs; for 81 length pairs after 0, 1 and 2 messages: every single-bit change of AD, ciphertext, tag, key, nonce, every one-bit lengthening or shortening, dropped, swapped, early, replayed and repeated messages; builds with every engine",
                "thorough": "sessions of 4 messages, longer messages"}),
    "C10": dict(units=ff("c10.cpp", "Kravatte", shards=10),
        bounds={"quick": "all key bit lengths; all data bit lengths up to 5 blocks with 3 tweak lengths; all tweak bit lengths up to 2 blocks with 4 data lengths; data around every number of blocks up to 27 and around powers of two of blocks up to 64; AE: all data lengths up to 3 blocks, all metadata lengths up to 2 blocks; for 40 length pairs every single-bit change of ciphertext, metadata, key and redundancy and all one-bit length changes; builds with every engine",
                "thorough": "more blocks and tampered lengths"}),
    "C13": dict(units=ff("c10.cpp", "Xoofff", shards=10),
        bounds={"quick": "all key bit lengths; all data bit lengths up to 5 blocks with 3 tweak lengths; all tweak bit lengths up to 2 blocks with 4 data lengths; data around every number of blocks up to 51 and around powers of two of blocks up to 64; AE: all data lengths up to 3 blocks, all metadata lengths up to 2 blocks; for 40 length pairs every single-bit change of ciphertext, metadata, key and redundancy and all one-bit length changes; builds with every engine",
                "thorough": "more blocks and tampered lengths"}),
    "C07": dict(units=c07,
        bounds={"quick": "all capacities 0..1590 on 2 builds (about 70 on the 10 others): all sequences of 2 calls (3 for 20 to 85 capacities) of feed/fetch/forget over boundary lengths up to 3 blocks; all feed and fetch partitions up to 2 blocks + 2 bytes for 20 to 85 capacities; initialization with every capacity 0..1700",
                "thorough": "sequences of 3 (4) calls, wide arguments, 20 builds"}),
    "C06": dict(units=c06,
        bounds={"quick": "all rates 3..1600 on 2 builds (about 130 rates on the 10 others): all sequences of 2 calls (3 for about 80 rates) after 0, 1, 2 blocks over all eight call kinds with valid and invalid boundary lengths and delimiters; wide argument lists incl. 2^29 and 2^32-1; all partitions of a block into queueing and fetching calls; initialization with every (rate, capacity) around validity",
                "thorough": "as quick for all rates on 20 builds, wide sequences of 2 calls"}),
    "C14": dict(units=c14,
        bounds={"quick": "hash mode and 3 keyed configurations: all sequences of 3 calls over 17 boundary lengths, 4 calls over 5, 5 calls over 3 lengths of Absorb/Encrypt-Decrypt/Squeeze/SqueezeKey/Ratchet with four peers (encrypting, decrypting, each with separate buffers and in place); after every short history one call of every length 0..330; every (key, identifier) length with counters of 0..18 bytes; every distinct Xoodoo/Xoodyak implementation",
                "thorough": "sequences of 4, 5 and 6 calls, lengths up to 800"}),
    "C15": dict(units=c15,
        bounds={"quick": "every distinct Keccak-p[1600] implementation (all 20 builds reduced to 14 or so): all 20100 (offset, length) pairs of every range operation on 3 to 4 base states, with data at both ends of accessible memory and 14 misalignments; AddByte of all bytes at all offsets; all zero counts; 1..24 rounds on all weight-1 states, complements and neighbours of a dense state; 1 round on 1/8 of the weight-2 states; fast loops for 1..24 lanes with all lengths up to 2 blocks + 9; all sequences of 3 operations over about 95 and of 4 over about 35 operations",
                "thorough": "all weight-2 states, 6 base states, all misalignments for every length, sequences of 4 and 5 operations"}),
    "C16": dict(units=engines("c16.cpp", "KeccakP-1600", ["Kravatte"], (2, 4, 8)),
        bounds={"quick": "every distinct 2-, 4- and 8-way engine: all (offset, length) pairs of every range operation on every instance at 3 placements, all lane counts with 9 lane offsets at 4 placements; 4, 6, 12 and 24 rounds with each instance differing in each single bit from zero, all-one and dense states; absorbing fast loops for 1..24 lanes with 6 offset layouts and boundary lengths up to 4 iterations; Kravatte loops up to 3 batches plus partial blocks; KT leaves; all sequences of 3 operations over 60 to 90 operations",
                "thorough": "10 placements, 9 loop iterations, sequences of 4 operations"}),
    "C17": dict(units=c17,
        bounds={"quick": "every distinct serial, 4-, 8- and 16-way Xoodoo implementation: all (offset, length) pairs of every range operation on every instance at 3 placements, all lane counts with 9 lane offsets at 4 placements; all round counts on states of weight 0, 1 (2 for one round), complements and neighbours of a dense state, per instance; Xoofff loops up to 3 batches plus partial blocks; Xoodyak full-block loops up to 6 blocks for every rate; all sequences of 3 operations",
                "thorough": "10 placements, sequences of 4 operations"}),
    "C18": dict(units=c18,
        bounds={"quick": "sponge, TurboSHAKE, FIPS 202 object, KT128/256, cSHAKE, KMAC, ParallelHash, TupleHash (both levels), duplex, PRG, Kravatte, Xoofff and their SANE/SANSE sessions: every sequence of 5 (duplex 4, sessions 6) valid and invalid calls over 10 to 45 calls each, against an object given the valid calls only, with a completion of every state compared; initialization and one-shot calls with every rate, capacity, security level, key length, name or message bit length in and around the valid range; 4 builds",
                "thorough": "one call more, 12 builds"}),
}

PROPS["C19"] = dict(units=c19, bounds={
    "quick": "about 120 sessions covering every call of every interface; every input and output length up to 3 blocks (schemes with parallel engines: a batch and two blocks; bit lengths where allowed), each with inputs, outputs and objects at the end and at the start of accessible memory and inside it at varying alignments, different previous contents of outputs, objects, stack and surroundings; all 64 alignments of inputs and of outputs at the boundary lengths; every distinct implementation; four builds also with the compiler's address and array bounds checks",
    "thorough": "64 placements for every length, all pairs of alignments modulo 16, all 20 builds"})
PROPS["C20"] = dict(units=c20, bounds={
    "quick": "about 120 sessions covering every call of every interface at boundary lengths: all writes to the library's static memory observed (none that changes it: all interleavings equivalent), otherwise every access to it is a preemption point for a whole session of the same interface, from the initial content and from later contents; preemption after every machine instruction of one session per interface by a whole session (2 builds); all interleavings with up to 3 to 4 switches (all when 10 calls or less) of the calls of two sessions with objects moved between calls; copies at every call boundary continued with different data in 4 orders; every distinct implementation",
    "thorough": "instruction preemption of every session on 20 builds, all pairs of sessions, up to 6 switches"})

ARCH = [("i686", t) for t in ("generic32", "generic32lc", "generic64")] + [("armv6", t) for t in ("generic32", "generic32lc", "ARMv6")] \
    + [("armv7a", t) for t in ("generic32", "ARMv7A", "ARMv7M", "ARMv6M", "ARMv6M-inplace", "ARMv6M-u1")] + [("aarch64", t) for t in ("generic32", "generic64", "generic64lc", "ARMv8A", "ARMv8A-asm")]
VECTOR32 = [t for t in ("AVX2-32", "AVX512-32") if build.runs_here(t)]
NOMIS = "-DNO_MISALIGNED_ACCESSES"  # the documented setting for processors that trap on misaligned words
def c21(tier):
    out = []
    for tool, t in ARCH:
        arm = dict(extra_flags=NOMIS) if tool in ("armv6", "armv7a") else {}
        out.append(dict(arm, src="c15.cpp", tool=tool, target=t, high=[], shards=8, args=["light"]))
        if t.startswith("generic") and not arm:
            out.append(dict(src="c15.cpp", tool=tool, target=t, variant="nomis", high=[], shards=8, args=["light"], extra_flags=NOMIS))
        out.append(dict(arm, src="c17.cpp", tool=tool, target=t, high=["Xoofff", "Xoodyak"], shards=8))
    for t in VECTOR32:
        k = dict(tool="i686", target=t, shards=8)
        out.append(dict(k, src="c15.cpp", high=[], args=["light"]))
        out.append(dict(k, src="c17.cpp", high=["Xoofff", "Xoodyak"]))
        out.append(dict(k, src="c14.cpp", high=["Xoodyak"], args=["light"]))
        out.append(dict(k, src="c14.cpp", variant="sse41", high=["Xoodyak"], args=["light"], extra_flags="-msse4.1"))
        out += [dict(k, src="c16.cpp", variant=f"x{p}", hflags=f"-DWAYS={p}", high=["Kravatte"]) for p in ((2, 4, 8) if t == "AVX512-32" else (2, 4))]
        out += [dict(k, src="c16.cpp", variant=f"xoo{p}", hflags=f"-DXOO -DWAYS={p}", high=["Xoofff"]) for p in ((4, 8, 16) if t == "AVX512-32" else (4, 8))]
        out += [dict(k, src=c + ".cpp", variant=n, hflags="-D" + n.upper(), high=[n], args=["light"]) for n in ("Kravatte", "Xoofff") for c in ("c08", "c09", "c10")]
        out.append(dict(k, src="c03.cpp", high=["SP800-185"], args=["light"]))
        out.append(dict(k, src="c04.cpp", high=["KangarooTwelve"], args=["slow"]))
    for tool, t in [("armv7a", "ARMv7A"), ("armv6", "generic32"), ("i686", "generic32"), ("aarch64", "generic64")]:
        k = dict(tool=tool, target=t, shards=8)
        if tool in ("armv7a", "armv6"):
            k["extra_flags"] = NOMIS
        if t == "ARMv7A":
            out.append(dict(k, src="c16.cpp", variant="x2", hflags="-DWAYS=2", high=["Kravatte"]))
            out.append(dict(k, src="c16.cpp", variant="xoo4", hflags="-DXOO -DWAYS=4", high=["Xoofff"]))
        few = tier == "quick"   # what differs per architecture is mostly below these layers: a narrower choice on every change
        out.append(dict(k, src="c14.cpp", high=["Xoodyak"], args=["light"]))
        out.append(dict(k, src="c01.cpp", high=["KeccakSponge"], args=["few"]))
        if not few or tool == "i686":
            out.append(dict(k, src="c02.cpp", high=["FIPS202"]))
        if not few or tool in ("i686", "armv7a"):
            out.append(dict(k, src="c01.cpp", variant="turbo", hflags="-DTURBO", high=["TurboSHAKE"], args=["few"]))
            out.append(dict(k, src="c03.cpp", high=["SP800-185"], args=["light"]))
            out.append(dict(k, src="c07.cpp", high=["KeccakPRG"]))
        if not few or tool != "aarch64":
            out.append(dict(k, src="c06.cpp", high=["KeccakDuplex"]))
        out.append(dict(k, src="c04.cpp", high=["KangarooTwelve"], args=["slow"]))
        for n in ("Kravatte", "Xoofff"):
            for c in ("c08", "c09", "c10"):
                if not few or c != "c08" or n == "Xoofff" or tool == "armv7a":
                    out.append(dict(k, src=c + ".cpp", variant=n, hflags="-D" + n.upper(), high=[n], args=["light"]))
    return out
TRACE = "-fsanitize=kernel-address --param asan-instrumentation-with-call-threshold=0 --param asan-stack=0 --param asan-globals=0 -fsanitize-coverage=trace-pc"
def c24(tier):
    out = []
    for name, flag, high, low in PARTS:
        folders = ["KeccakP-1600", "KeccakP-1600-times2", "KeccakP-1600-times4", "KeccakP-1600-times8"] if low == ["KeccakP-1600"] else ["Xoodoo", "Xoodoo-times4", "Xoodoo-times8", "Xoodoo-times16"]
        for t in distinct(folders) if tier == "quick" else RUN + EXTRA:
            out.append(dict(src="c24.cpp", variant=name + "i", hflags=flag + " -DINSTR", tool="x86", target=t, high=high, shards=10, extra_flags=TRACE, args=["few"] if t.startswith("reference") else []))
        for t in [t for t in ("generic64", "AVX2", "AVX512") if t in RUN] if tier == "quick" else RUN + EXTRA:
            out.append(dict(src="c24.cpp", variant=name, hflags=flag, tool="x86", target=t, high=high, shards=10, shared=True, args=["least"]))
    return out
PROPS["C24"] = dict(units=c24, bounds={
    "quick": "about 120 sessions covering every call of every interface at boundary lengths; every basic block entered and every address accessed by the C code of every distinct implementation (compiler callbacks) compared between up to 295 assignments to the secret inputs (all inputs one of 263 symbols: zeros, ones, single bits, dense, every constant byte; each input alone one of 4), fewer for sessions of more than 20 thousand events; and every machine instruction executed with the registers that address memory (trap flag) for the generic64, AVX2 and AVX512 builds, with 3 assignments, assembly included.  Keys, messages, states and plaintexts are secret; lengths, nonces, identifiers, names, customization and associated data are public; verification is only explored with valid tags",
    "thorough": "every length up to 3 blocks (instrumented), every assignment (instructions), all 20 builds"})
PROPS["C21"] = dict(units=c21, bounds="i686 (executed natively), ARMv6, ARMv7-A and AArch64 (executed under qemu user emulation): the whole C15 state-interface exploration (light alphabet) and the C17 Xoodoo exploration on 17 pairs of architecture and low-level choice, including every assembly file for ARM, ARMv7-M, ARMv6-M and ARMv8-A that the GNU assembler accepts (the Thumb ones run through interworking), plus the byte-wise NO_MISALIGNED_ACCESSES code; the two-way Keccak-p[1600] and four-way Xoodoo NEON engines (C16, C17); the SSE2 to AVX-512 C code in 32-bit x86 builds (C03, C04, C08-C10, C14-C17, Xoodyak also with SSE4.1); and the C01, C03, C04, C06-C10 and C14 explorations of the layers above on one choice per architecture (light alphabets; C02 and the rest on all four in the thorough tier).  Not covered: AVR8 and Cortex-M peripherals, big-endian machines")
PROPS["C22"] = dict(units=c22, extra=c22_extra, bounds={
    "quick": "five standalone C programs (64- and 32-bit) and the dispatcher: six FIPS 202 instances with every message length up to 5 blocks, every output length up to 15 blocks, every pair up to 2 blocks; generic entry points with all 200 rates, all suffixes at the block edges, every length up to 2 blocks; parameters around the accepted ones; plain and numpy Python: message and output lengths up to 3 blocks, all 200 rates; KeccakSum.py: all sequences of 2 options (3 of 4 options), file lengths 0..339; Rust KangarooTwelve: lengths up to 5 blocks with customization 0..40, within 6 bytes of every number of leaves up to 34, every output length up to 6 blocks; low-level model: 7 Keccak-p widths and Xoodoo, 1..nominal rounds on all states of weight 0 and 1, their complements and neighbours of a dense state (weight 2 up to width 400), all ranges of every operation, absorbing loop for all lane counts, all sequences of 3 of 18 operations, 1 to 8 parallel instances, all refusals; Xoodoo step maps on all weight-1 states",
    "thorough": "12 and 36 blocks (C), 8 blocks (Python), 260 leaves (Rust), sequences of 4 operations"})


def c23(tier):
    out = []
    for name, flag, high, low in (("k", "-DPART_K", KECCAK_ALL, "KeccakP-1600"), ("Kravatte", "-DKRAVATTE", ["Kravatte"], "KeccakP-1600"), ("Xoofff", "-DXOOFFF", ["Xoofff"], "Xoodoo"), ("Xoodyak", "-DXOODYAK", ["Xoodyak"], "Xoodoo")):
        fast = [t for t in ("AVX512", "AVX2", "generic64") if t in RUN]
        k = dict(src="c23.cpp", variant=name, hflags=flag, tool="x86", high=high, opt="-O3")
        out.append(dict(k, target=fast[0], shards=24))
        out += [dict(k, target=t, shards=4, args=["loops"]) for t in fast[1:] if name != "Xoodyak"]
    return sorted(out, key=lambda u: "args" not in u)      # the slow ones first
PROPS["C23"] = dict(units=c23, bounds={
    "quick": "total lengths 0, 1, 2^29-1, 2^29, 2^29+1 (2^32 bits) and 2^32+1 bytes (sponge, TurboSHAKE, KangarooTwelve, ParallelHash, Kravatte and Xoofff compression also 2^32-1 and 2^32), reached in one call, from 1 byte on, or step by step, all orders explored with equal states merged; the other functions at 2^29-1..2^29+1 and one size above 2^32; every input, output, name, customization, key, tuple element and declared output length in turn; fastest build of this processor for everything, the block loops of the other two families of builds as well",
    "thorough": "all of 2^29-1..2^29+1, 2^32-1..2^32+1, 2^32+4097 in every combination for every function"})

KSUM = ["FIPS202", "SP800-185", "KangarooTwelve"]
def ksum(target, san):
    def pre(nin):
        _, flags = nin.lib_objects("x86", target, KSUM, san)
        out = []
        for src in ("KeccakSum", "base64"):
            o = f"{nin.dir}/util/{target}/{src}{'.san' if san else ''}.o"
            nin.edge(o, "cc", [f"{build.REPO}/util/KeccakSum/{src}.c"], cc="gcc", flags=f"-O2 {flags} -I{build.REPO}/util/KeccakSum -w -Dmain=keccaksum_main {san}")
            out.append(o)
        return out
    return pre

ASAN = "-g1 -fsanitize=address -fsanitize=bounds -fsanitize-undefined-trap-on-error"
def c25(tier):
    wrap = "-Wl,--wrap=fopen -Wl,--wrap=fopen64"
    return [dict(src="c25.cpp", tool="x86", target=t, high=KSUM, pre=ksum(t, san), shards=12, lflags=wrap + (" -fsanitize=address" if san else ""), variant="asan" if san else "", extra_flags=san)
            for t, san in ([("generic64", "")] if tier == "quick" else [("generic64", ""), ("AVX512", ""), ("generic64", ASAN)])]
PROPS["C25"] = dict(units=c25, bounds={
    "quick": "the KeccakSum command run in a child process on files whose reads the harness serves: 11 algorithm options (with and without --no-suffix), hexadecimal and base64: every length up to 2 blocks and within 3 bytes of 65536 and 131072 (for the tree hashes also of every multiple of 8192 up to 17), from a file and from standard input; every digest length up to 3 blocks and around 65536 bytes; 22 ParallelHash block sizes; all sequences of up to 3 of 33 options and file names (including missing and unreadable files, unknown options, missing arguments), all sequences of 4 of 12; reads delivered in 11 patterns of sizes; a read error after every number of bytes up to 40 and around multiples of the buffer",
    "thorough": "5 blocks, within 40 bytes of 5 buffers, digests up to 6 blocks, sequences of 5 of 15, read errors up to 600; also with AVX-512 and with the address sanitizer"})

def c26(tier):
    out = []
    def add(src, tool, target, high, **k):
        th = abi.thunks(tool, target, high)
        if th and re.search("Xoo" if any(h.startswith("Xoo") for h in high) else "Keccak", th[1]):
            pre, wrap = th
            if tool in ("armv6", "armv7a"):
                k["extra_flags"] = NOMIS
            out.append(dict(k, src=src, tool=tool, target=target, high=high, shards=8, hflags=k.get("hflags", "") + " -DABI", pre=pre, lflags=wrap, variant=k.get("variant", "") + "abi"))
    for tool, t in [("x86", t) for t in RUN + EXTRA] + ARCH:
        add("c15.cpp", tool, t, [], args=["light"])
        if tool != "x86":
            add("c17.cpp", tool, t, ["Xoofff", "Xoodyak"])
            add("c14.cpp", tool, t, ["Xoodyak"], args=["light"])
        add("c01.cpp", tool, t, ["KeccakSponge"], args=["few"])
    add("c16.cpp", "armv7a", "ARMv7A", ["Kravatte"], variant="x2", hflags="-DWAYS=2")
    add("c16.cpp", "armv7a", "ARMv7A", ["Xoofff"], variant="xoo4", hflags="-DXOO -DWAYS=4")
    return out
PROPS["C26"] = dict(units=c26, bounds={
    "quick": "every call that the C15 (light alphabet), C17, C14 (light) and C01 (few rates) explorations and, for the parallel engines, the C16 exploration make to a function written in assembly: AVX2, AVX-512, x86-64 and shld, ARMv6, ARMv7-M, ARMv6-M (three forms), ARMv7-A with NEON (serial, two-way, Xoodoo, Xoodyak, four-way Xoodoo) and ARMv8-A; around each call the scratch registers, vector registers and flags are filled, every argument narrower than its register has its upper bits set, callee-saved general and vector registers hold known values and are compared on return with the stack pointer, direction flag and SSE control bits; results are compared as in those checks.  Not covered: armcc, Apple and AVR8 sources",
    "thorough": "the thorough forms of these explorations"})

PROPS["C27"] = dict(units=c27, bounds={
    "quick": "every selection of one Keccak-p[1600] implementation (10, one per source) with one or none of each degree of parallelism (3 times-2 and none, 2 times-4 and none, 1 times-8 and none), and of one of 4 Xoodoo implementations with one or none of times 4 (2), 8 (2) and 16 (1), built with each of SP800-185, KangarooTwelve, Kravatte and Xoofff alone: ParallelHash (4 block sizes), KT128 and KT256 with every number of blocks and leaves up to 18 and every partition of the input at block and leaf boundaries up to 17; Kravatte and Xoofff with every number of blocks in and out up to twice the largest parallelism plus 2, and every partition at block boundaries; Xoofff sessions and wide-block ciphers over every number of blocks; in every build each interface with its object at every address modulo 128 that its type allows, 8 positions of the stack and of the data; every other unrolling of an implementation in one selection",
    "thorough": "all unrollings of every implementation (16 x 8 x 7 x 4 selections)"})

NOT_APPLICABLE = {}
