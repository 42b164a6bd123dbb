#!/usr/bin/env python3
"""C22, Python part: CompactFIPS202.py, CompactFIPS202_numpy.py and KeccakSum.py against hashlib and a transcription of FIPS 202.
usage: c22.py REPO plain|numpy|sum quick|thorough shard=i/n [scenario=N]"""
import base64, contextlib, hashlib, importlib, io, itertools, json, os, runpy, signal, sys, tempfile, traceback
sys.dont_write_bytecode = True
repo, part, tier = sys.argv[1:4]
shard, nshards, only = 0, 1, None
for a in sys.argv[4:]:
    if a.startswith("shard="):
        shard, nshards = map(int, a[6:].split("/"))
    if a.startswith("scenario="):
        only = int(a[9:])
DIR = repo + "/Standalone/CompactFIPS202/Python"
sys.path.insert(0, DIR)
st = {"states": 0, "transitions": 0, "comparisons": 0, "scenarios": 0, "capped": 0}
samples, counter, cur = [], 0, None

def begin(name):
    global counter, cur
    n = counter
    counter += 1
    if (n != only) if only is not None else (n % nshards != shard):
        return False
    st["scenarios"] += 1
    cur = (n, name)
    signal.alarm(60)
    if len(samples) < 8:
        samples.append(name)
    return True

def fail(what):
    print(f"FAIL scenario={cur[0]} " + json.dumps({"scenario": cur[1], "what": what}), flush=True)
    sys.exit(3)

def expect(got, want, what):
    st["comparisons"] += 1
    if got != want:
        fail(f"{what}: got {got!r:.80}, expected {want!r:.80}")

M = (1 << 64) - 1
rol = lambda v, n: ((v << n) | (v >> (64 - n))) & M if n else v
RC, RHO = [], [[0] * 5 for _ in range(5)]
lfsr = 1
for _ in range(24):
    c = 0
    for j in range(7):
        if lfsr & 1:
            c ^= 1 << ((1 << j) - 1)
        lfsr = (lfsr << 1) ^ 0x171 if lfsr & 0x80 else lfsr << 1
    RC.append(c)
x, y = 1, 0
for t in range(24):
    RHO[x][y] = (t + 1) * (t + 2) // 2 % 64
    x, y = y, (2 * x + 3 * y) % 5

def f1600(s):
    A = [[int.from_bytes(s[8 * (x + 5 * y):8 * (x + 5 * y) + 8], "little") for y in range(5)] for x in range(5)]
    for rc in RC:
        C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
        D = [C[x - 1] ^ rol(C[(x + 1) % 5], 1) for x in range(5)]
        B = [[0] * 5 for _ in range(5)]
        for x in range(5):
            for y in range(5):
                B[y][(2 * x + 3 * y) % 5] = rol(A[x][y] ^ D[x], RHO[x][y])
        A = [[B[x][y] ^ (~B[(x + 1) % 5][y] & B[(x + 2) % 5][y] & M) for y in range(5)] for x in range(5)]
        A[0][0] ^= rc
    return bytearray(b"".join(A[i % 5][i // 5].to_bytes(8, "little") for i in range(25)))

def sponge(rate, msg, d, m):
    s = bytearray(200)
    while len(msg) >= rate:
        for i in range(rate):
            s[i] ^= msg[i]
        s, msg = f1600(s), msg[rate:]
    for i, b in enumerate(msg):
        s[i] ^= b
    s[len(msg)] ^= d
    if d & 0x80 and len(msg) == rate - 1:
        s = f1600(s)
    s[rate - 1] ^= 0x80
    out = b""
    while True:
        s = f1600(s)
        out += bytes(s[:rate])
        if len(out) >= m:
            return out[:m]

def dat(i):
    v = (i + 1) * 0x9E3779B97F4A7C15 & M
    v ^= v >> 29
    return (v * 0xBF58476D1CE4E5B9 & M) >> 40 & 255
SRC = bytes(dat(i) for i in range(6000))
INST = [("SHAKE128", 168, hashlib.shake_128, 0), ("SHAKE256", 136, hashlib.shake_256, 0), ("SHA3_224", 144, hashlib.sha3_224, 28),
        ("SHA3_256", 136, hashlib.sha3_256, 32), ("SHA3_384", 104, hashlib.sha3_384, 48), ("SHA3_512", 72, hashlib.sha3_512, 64)]
blocks = 8 if tier == "thorough" else 3
def main():
    if part in ("plain", "numpy"):
        mod = importlib.import_module("CompactFIPS202" if part == "plain" else "CompactFIPS202_numpy")
        for name, r, h, fixed in INST:
            fn = getattr(mod, name)
            for n in range(blocks * r + 3):
                if begin(f"{name} of {n} bytes"):
                    st["states"] += 1
                    for conv in (bytes, bytearray):
                        st["transitions"] += 1
                        if fixed:
                            expect(bytes(fn(conv(SRC[:n]))), h(SRC[:n]).digest(), f"{name}({conv.__name__})")
                        else:
                            m = (n * 5 + 1) % (2 * r + 3)
                            expect(bytes(fn(conv(SRC[:n]), m)), h(SRC[:n]).digest(m), f"{name} {m} output bytes ({conv.__name__})")
            if not fixed:
                for m in range(blocks * r + 3):
                    if begin(f"{name} output of {m} bytes"):
                        for n in (0, r - 1, r):
                            st["states"] += 1
                            st["transitions"] += 1
                            expect(bytes(fn(SRC[:n], m)), h(SRC[:n]).digest(m), f"{name} of {n} bytes")
        for r in range(1, 201):
            if begin(f"Keccak with rate {8 * r}"):
                for n in sorted({0, 1, r - 1, r, r + 1, 2 * r - 1}):
                    for d in (1, 6, 0x1F, 0x80, 0x8B, 0xFF) + (tuple(range(2, 255, 9)) if tier == "thorough" else ()):
                        m = (0, 1, r - 1, r, r + 1, 2 * r)[(n + d) % 6]
                        st["states"] += 1
                        st["transitions"] += 1
                        expect(bytes(mod.Keccak(8 * r, 1600 - 8 * r, SRC[:n], d, m)), sponge(r, SRC[:n], d, m), f"{n} bytes, suffix {d:#x}, {m} output bytes")
        if begin("parameters that are not accepted"):
            for r in range(1, 1700):
                for c in {0, 256, 1599 - r, 1600 - r, 1601 - r, 1608 - r}:
                    if c >= 0 and (r + c != 1600 or r % 8):
                        st["transitions"] += 1
                        expect(mod.Keccak(r, c, SRC[:10], 0x1F, 10), None, f"Keccak({r}, {c})")
    else:
        OPT = {"--hex": None, "--base64": None, "--shake128": ("b", lambda b: hashlib.shake_128(b).digest(33)), "--shake256": ("b", lambda b: hashlib.shake_256(b).digest(66)),
               "--sha3-224": ("h", lambda b: hashlib.sha3_224(b).digest()), "--sha3-256": ("h", lambda b: hashlib.sha3_256(b).digest()),
               "--sha3-384": ("h", lambda b: hashlib.sha3_384(b).digest()), "--sha3-512": ("h", lambda b: hashlib.sha3_512(b).digest())}
        with tempfile.TemporaryDirectory() as tmp:
            def run(argv):
                out = io.StringIO()
                old = sys.argv
                sys.argv = ["KeccakSum.py", *argv]
                try:
                    with contextlib.redirect_stdout(out):
                        runpy.run_path(DIR + "/KeccakSum.py", run_name="__main__")
                finally:
                    sys.argv = old
                st["transitions"] += 1
                return out.getvalue()
            def want(argv):
                mode, fn, res = "b", OPT["--shake128"][1], ""
                for a in argv:
                    if a in OPT:
                        if a == "--hex":
                            mode = "h"
                        elif a == "--base64":
                            mode = "b"
                        else:
                            mode, fn = OPT[a]
                    elif a.startswith("--"):
                        res += f"Unrecognized option: {a}\n"
                    elif os.path.isfile(a):
                        d = fn(open(a, "rb").read())
                        res += (base64.standard_b64encode(d).decode() if mode == "b" else d.hex()) + f"  {a}\n"
                return res
            files = {}
            for n in list(range(0, 340)) + [1000, 4095, 4096, 4097]:
                files[n] = f"{tmp}/f{n}"
                with open(files[n], "wb") as f:
                    f.write(SRC[:n])
            def check(argv):
                st["states"] += 1
                expect(run(argv), want(argv), " ".join(argv))
            for n in files:
                if begin(f"file of {n} bytes"):
                    check([files[n]])
                    for o in OPT:
                        if not o.startswith("--sh") or n % 9 in (0, 8):
                            check([o, files[n]])
            for a in itertools.product(list(OPT) + ["--sha3", f"{tmp}/missing", tmp], repeat=2):
                if begin("options " + " ".join(a)):
                    check([*a, files[5]])
                    check([a[0], files[3], a[1], files[136]])
            for a in itertools.product(["--hex", "--base64", "--shake256", "--sha3-256"], repeat=3):
                if begin("options " + " ".join(a)):
                    check([*a, files[5]])
                    check([a[0], files[1], files[2], a[1], files[0], a[2], files[7]])

def hang(sig, frame):
    raise TimeoutError("did not return within 60 s")

signal.signal(signal.SIGALRM, hang)
try:
    main()
except Exception as e:   # an exception out of the program under test is a failure of the current scenario
    if cur is None:
        raise
    fail(f"{type(e).__name__}: {e} (line {traceback.extract_tb(e.__traceback__)[-1].lineno} of {os.path.basename(traceback.extract_tb(e.__traceback__)[-1].filename)})")
st["samples"] = samples
print("STATS " + json.dumps(st))
