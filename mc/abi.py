"""Thunks around every function that a target implements in assembly (C26).

The linker's --wrap option sends each call to a thunk that fills everything the procedure call standard leaves unspecified
(scratch registers, flags, upper bits of arguments narrower than their register), gives the registers that a callee
must preserve known values, and has the function return to a routine which compares them."""
import hashlib, os, re
import build

PATS = [(0x9E3779B97F4A7C15 * (i + 3)) % 2**64 | 1 for i in range(32)]

def prototypes():
    """Width in bits of every parameter of the functions declared under lib/low."""
    out = {}
    for d, _, files in os.walk(f"{build.REPO}/lib/low"):
        for f in files:
            if not f.endswith(".h"):
                continue
            text = re.sub(r"/\*.*?\*/|//[^\n]*", " ", open(os.path.join(d, f), encoding="latin-1").read(), flags=re.S)
            for name, args in re.findall(r"\b(\w+)\s*\(([^()]*)\)\s*;", text):
                w = []
                for a in ([] if args.strip() in ("", "void") else args.split(",")):
                    w.append(0 if "*" in a else 0 if re.search(r"\b(size_t|uint64_t|long)\b", a) else 8 if re.search(r"\bchar\b|uint8_t", a) else 32)
                out[name] = w
    return out

def symbols(target, tool, high):
    """Global functions of the target's assembly sources."""
    out = []
    for tag, src, _ in build.resolve(list(high) + build.low_fragments(target)):
        if tag == "s":
            text = open(f"{build.REPO}/{src}", encoding="latin-1").read()
            text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
            out += [n for n in re.findall(r"^\s*\.glob(?:a)?l\s+(\w+)", text, flags=re.M) if re.search(rf"^\s*{n}\s*:", text, flags=re.M)]
    return list(dict.fromkeys(out))

def x86(syms, protos, target):
    z = "AVX512" in target
    t = [".text"]
    def rec(s):
        w = protos.get(s, [])
        return " ".join(f"{1 if i < len(w) and w[i] else 0}," for i in range(6))[:-1]
    for s in syms:
        t += [f".globl __wrap_{s}", f".type __wrap_{s},@function", f"__wrap_{s}: lea rec_{s}(%rip), %r11", f" lea __real_{s}(%rip), %r10", " jmp abi_enter"]
    t += [".data", ".balign 8"] + [f"rec_{s}: .quad name_{s}\n .byte {rec(s)}\n .balign 8" for s in syms] + [f'name_{s}: .asciz "{s}"' for s in syms]
    saved = ["rbx", "rbp", "r12", "r13", "r14", "r15"]
    t += [".data", ".globl abi_sp, abi_calls", ".balign 16", "abi_sp: .quad abi_stack", "abi_calls: .quad 0", "garbage: .quad 0xDEADBEEF00000000", "mx: .long 0", ".bss", ".balign 16", "abi_stack: .skip 8192", ".text"]
    t += ["abi_enter: incq abi_calls(%rip)", " mov abi_sp(%rip), %rax", " pop 0(%rax)", " mov %rsp, 8(%rax)", " mov %r11, 16(%rax)", " stmxcsr 24(%rax)"]
    t += [f" mov %{r}, {32+8*i}(%rax)" for i, r in enumerate(saved)]
    t += [" add $96, %rax", " mov %rax, abi_sp(%rip)"]
    for i, r in enumerate(["rdi", "rsi", "rdx", "rcx", "r8", "r9"]):
        t += [f" testb $1, {8+i}(%r11)", " jz 1f", f" or garbage(%rip), %{r}", "1:"]
    t += [f" movabs ${PATS[i]:#x}, %{r}" for i, r in enumerate(saved)]
    if z:
        t += [f" vpternlogd $0xFF, %zmm{i}, %zmm{i}, %zmm{i}" for i in range(32)] + [f" kxnorw %k{i}, %k{i}, %k{i}" for i in range(8)]
    elif "AVX2" in target:
        t += [f" vpcmpeqd %ymm{i}, %ymm{i}, %ymm{i}" for i in range(16)]
    else:
        t += [f" pcmpeqd %xmm{i}, %xmm{i}" for i in range(16)]
    t += [" lea abi_leave(%rip), %rax", " push %rax", " lea garbage(%rip), %r11", " mov $-1, %rax", " cmp $1, %rax", " stc", " jmp *%r10"]
    t += ["abi_leave: mov abi_sp(%rip), %r10", " sub $96, %r10", " mov %r10, abi_sp(%rip)", " cmp 8(%r10), %rsp", " lea w_sp(%rip), %rsi", " jne abi_bad"]
    for i, r in enumerate(saved):
        t += [f" movabs ${PATS[i]:#x}, %r11", f" cmp %r11, %{r}", f" lea w_{r}(%rip), %rsi", " jne abi_bad"]
    t += [" pushfq", " pop %r11", " test $0x400, %r11", " lea w_df(%rip), %rsi", " jne abi_bad",
          " stmxcsr mx(%rip)", " mov mx(%rip), %r11d", " xor 24(%r10), %r11d", " test $0xFFC0, %r11d", " lea w_mx(%rip), %rsi", " jne abi_bad"]
    t += [f" mov {32+8*i}(%r10), %{r}" for i, r in enumerate(saved)] + [" push 0(%r10)", " ret"]
    t += ["abi_bad: cld", " mov 16(%r10), %rdi", " mov (%rdi), %rdi", " mov 8(%r10), %rsp", " and $-64, %rsp"] + [f" mov {32+8*i}(%r10), %{r}" for i, r in enumerate(saved)] + [" call abi_fail"]
    t += [".section .rodata"] + [f'w_{r}: .asciz "register {r}"' for r in saved] + ['w_sp: .asciz "stack pointer"', 'w_df: .asciz "direction flag"', 'w_mx: .asciz "SSE control register"']
    return t + ['.section .note.GNU-stack,"",@progbits']

def aarch64(syms, protos, target):
    t = [".text"]
    for s in syms:
        t += [f".globl __wrap_{s}", f".type __wrap_{s},%function", f"__wrap_{s}: ldr x16, =rec_{s}", f" ldr x17, =__real_{s}", " b abi_enter"]
    t += [".ltorg", ".data", ".balign 8"]
    for s in syms:
        w = protos.get(s, [])
        masks = [{0: 0, 32: 0xDEADBEEF00000000, 8: 0xDEADBEEFDEADBE00}[w[i]] if i < len(w) else 0 for i in range(8)]
        t += [f"rec_{s}: .quad name_{s}, " + ", ".join(map(hex, masks))]
    t += [f'name_{s}: .asciz "{s}"' for s in syms]
    t += [".balign 16", ".globl abi_calls", "abi_sp: .quad abi_stack", "abi_calls: .quad 0", ".bss", ".balign 16", "abi_stack: .skip 16384", ".text"]
    xs = list(range(19, 30)); ds = list(range(8, 16))
    t += ["abi_enter: ldr x9, =abi_calls", " ldr x10, [x9]", " add x10, x10, #1", " str x10, [x9]", " ldr x9, =abi_sp", " ldr x10, [x9]", " mov x11, sp", " stp x30, x11, [x10]", " str x16, [x10, #16]"]
    t += [f" str x{r}, [x10, #{24+8*i}]" for i, r in enumerate(xs)] + [f" str d{r}, [x10, #{112+8*i}]" for i, r in enumerate(ds)]
    t += [" add x10, x10, #192", " str x10, [x9]"]
    t += [x for i in range(8) for x in (f" ldr x11, [x16, #{8+8*i}]", f" orr x{i}, x{i}, x11")]
    t += [f" ldr x{r}, ={PATS[i]:#x}" for i, r in enumerate(xs)]
    t += [f" movi v{i}.16b, #0xFF" for i in list(range(8)) + list(range(16, 32))] + [f" movi v{r}.16b, #{0x40 + r}" for r in ds]
    t += [" ldr x30, =abi_leave"] + [f" ldr x{r}, ={PATS[20 + r % 7]:#x}" for r in (8, 9, 10, 11, 12, 13, 14, 15)] + [" br x17"]
    t += ["abi_leave: ldr x9, =abi_sp", " ldr x10, [x9]", " sub x10, x10, #192", " str x10, [x9]", " ldr x11, [x10, #8]", " mov x12, sp", " ldr x13, =w_sp", " cmp x11, x12", " b.ne abi_bad"]
    for i, r in enumerate(xs):
        t += [f" ldr x11, ={PATS[i]:#x}", f" ldr x13, =w_x{r}", f" cmp x{r}, x11", " b.ne abi_bad"]
    for r in ds:
        t += [f" ldr x11, ={(0x40 + r) * 0x0101010101010101:#x}", f" ldr x13, =w_d{r}", f" fmov x12, d{r}", " cmp x12, x11", " b.ne abi_bad"]
    t += [f" ldr x{r}, [x10, #{24+8*i}]" for i, r in enumerate(xs)] + [f" ldr d{r}, [x10, #{112+8*i}]" for i, r in enumerate(ds)] + [" ldr x30, [x10]", " ret"]
    t += ["abi_bad: ldr x0, [x10, #16]", " ldr x0, [x0]", " mov x1, x13", " ldr x11, [x10, #8]", " mov sp, x11"] + [f" ldr x{r}, [x10, #{24+8*i}]" for i, r in enumerate(xs)] + [" b abi_fail", ".ltorg"]
    t += [".section .rodata", 'w_sp: .asciz "stack pointer"'] + [f'w_x{r}: .asciz "register x{r}"' for r in xs] + [f'w_d{r}: .asciz "register d{r}"' for r in ds]
    return t + ['.section .note.GNU-stack,"",%progbits']

def arm(syms, protos, target, vfp):
    t = [".syntax unified", ".arm"] + ([".fpu vfpv3"] if vfp else []) + [".text", ".balign 4"]
    for s in syms:
        t += [f".globl __wrap_{s}", f".type __wrap_{s},%function", f"__wrap_{s}: ldr ip, =rec_{s}", " b abi_enter"]
    t += [".ltorg", ".data", ".balign 8"] + [f".weak __real_{s}\nrec_{s}: .word name_{s}, __real_{s}" for s in syms] + [f'name_{s}: .asciz "{s}"' for s in syms]
    t += [".balign 8", ".globl abi_calls", "abi_sp: .word abi_stack", "abi_calls: .word 0, 0", ".bss", ".balign 8", "abi_stack: .skip 16384", ".text", ".balign 4"]
    rs = list(range(4, 12)); ds = list(range(8, 16))
    # frame: lr, sp, rec, -, r4-r11, d8-d15
    t += ["abi_enter: push {r0, r1}", " ldr r0, =abi_calls", " ldr r1, [r0]", " add r1, r1, #1", " str r1, [r0]", " ldr r0, =abi_sp", " ldr r0, [r0]", " str lr, [r0]", " add r1, sp, #8", " str r1, [r0, #4]", " str ip, [r0, #8]", " add r1, r0, #16", " stmia r1!, {r4-r11}"]
    if vfp: t += [" vstmia r1!, {d8-d15}"]
    t += [" add r0, r0, #128", " ldr r1, =abi_sp", " str r0, [r1]"]
    if vfp:
        for i, r in enumerate(ds): t += [f" ldr r0, ={PATS[i] & 0xFFFFFFFF:#x}", f" ldr r1, ={PATS[i] >> 32:#x}", f" vmov d{r}, r0, r1"]
        t += [f" vmov d{r}, r0, r1" for r in list(range(0, 8)) + list(range(16, 32))]
    t += [f" ldr r{r}, ={PATS[8+i] & 0xFFFFFFFF:#x}" for i, r in enumerate(rs)] + [" ldr lr, =abi_leave", " pop {r0, r1}", " msr APSR_nzcvq, r4", " ldr pc, [ip, #4]"]
    t += ["abi_leave: ldr r2, =abi_sp", " ldr ip, [r2]", " sub ip, ip, #128", " str ip, [r2]", " ldr r2, [ip, #4]", " ldr r3, =w_sp", " cmp r2, sp", " bne abi_bad"]
    for i, r in enumerate(rs):
        t += [f" ldr r2, ={PATS[8+i] & 0xFFFFFFFF:#x}", f" ldr r3, =w_r{r}", f" cmp r{r}, r2", " bne abi_bad"]
    t += [" add r2, ip, #16", " ldmia r2!, {r4-r11}"]
    if vfp:
        t += [" push {r0, r1, r4, r5}"]
        for i, r in enumerate(ds):
            t += [f" vmov r0, r1, d{r}", f" ldr r4, ={PATS[i] & 0xFFFFFFFF:#x}", f" ldr r5, ={PATS[i] >> 32:#x}", f" ldr r3, =w_d{r}", " cmp r0, r4", " cmpeq r1, r5", " bne abi_bad"]
        t += [" vldmia r2!, {d8-d15}", " pop {r0, r1, r4, r5}"]
    t += [" ldr lr, [ip]", " bx lr"]
    t += ["abi_bad: ldr r0, [ip, #8]", " ldr r0, [r0]", " mov r1, r3", " ldr sp, [ip, #4]", " bic sp, sp, #7", " add r2, ip, #16", " ldmia r2, {r4-r11}", " b abi_fail", ".ltorg"]
    t += [".section .rodata", 'w_sp: .asciz "stack pointer"'] + [f'w_r{r}: .asciz "register r{r}"' for r in rs] + [f'w_d{r}: .asciz "register d{r}"' for r in ds]
    return t + ['.section .note.GNU-stack,"",%progbits']

def thunks(tool, target, high):
    """(pre function, link flags) for a unit; None when the target has no assembly."""
    syms = symbols(target, tool, high)
    if not syms:
        return None
    protos = prototypes()
    text = "\n".join(x86(syms, protos, target) if tool == "x86" else aarch64(syms, protos, target) if tool == "aarch64" else arm(syms, protos, target, tool == "armv7a")) + "\n"
    def pre(nin):
        d = f"{nin.dir}/abi/{tool}"
        os.makedirs(d, exist_ok=True)
        base = f"{d}/{target}.{hashlib.sha1(text.encode()).hexdigest()[:8]}"
        if not os.path.exists(base + ".s") or open(base + ".s").read() != text:
            open(base + ".s", "w").write(text)
        cc, _, tflags, _, _ = build.TOOLS[tool]
        nin.edge(base + ".o", "asm", [base + ".s"], cc=cc, flags=tflags)
        return [base + ".o"]
    return pre, " ".join(f"-Wl,--wrap={s}" for s in syms)
