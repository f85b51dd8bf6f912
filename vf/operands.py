"""Which memory each instruction of a program addresses, from its disassembly (for harness/src/steps.rs)."""
import hashlib
import os
import re
import struct
import subprocess

from . import core

GREG = dict(r8=0, r9=1, r10=2, r11=3, r12=4, r13=5, r14=6, r15=7, rdi=8, rsi=9, rbp=10, rbx=11, rdx=12, rax=13, rcx=14, rsp=15)
OPERAND = re.compile(r"(-?0x[0-9a-f]+)?\((%[a-z0-9]+)?(?:,(%[a-z0-9]+),([1248]))?\)")
LINE = re.compile(r"^ *([0-9a-f]+):\t(.*)$")


def libc(binary):
    out = subprocess.run(["ldd", binary], stdout=subprocess.PIPE, text=True).stdout
    m = re.search(r"libc\.so\.6 => (\S+)", out)
    return m.group(1) if m else None


def table(path):
    """Path of the table of a program's memory operands."""
    with open(path, "rb") as f:
        tag = hashlib.sha256(f.read() + b"operands1").hexdigest()[:16]
    d = os.path.join(core.TARGET, "operands")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, tag)
    if os.path.exists(out):
        return out
    pr = subprocess.Popen(["objdump", "-d", "--no-show-raw-insn", "-w", path], stdout=subprocess.PIPE, text=True)
    recs = []
    for line in pr.stdout:
        m = LINE.match(line)
        if not m or "(" not in line:
            continue
        text = m.group(2).split("#")[0].split("<")[0]
        words = text.split()
        # lea and nop only look as if
        if any(w.startswith(("lea", "nop", "data16", "prefetch")) for w in words[:4]):
            continue
        for o in OPERAND.finditer(text):
            disp, base, index, scale = o.groups()
            base, index = (base or "")[1:], (index or "")[1:]
            if base == "rip" or (base and base not in GREG) or (index and index not in GREG):
                continue
            recs.append(struct.pack("<QqBBB5x", int(m.group(1), 16), int(disp or "0", 16), GREG.get(base, 255), GREG.get(index, 255), int(scale or "1")))
    if pr.wait() != 0 or not recs:
        raise core.ToolError("cannot disassemble " + path)
    with open(out + f".{os.getpid()}", "wb") as f:
        f.write(b"".join(recs))
    os.rename(out + f".{os.getpid()}", out)
    return out


def argument(binary):
    """The value of --operands."""
    return ",".join(f"{table(p)}={p}" for p in [binary, libc(binary)] if p)
