"""Runs a check inside a process whose compiled extensions are built with AddressSanitizer and UndefinedBehaviorSanitizer.

The first process compiles every extension of the working tree with the sanitizers (bounds checks of Cython, of Eigen and of
the C++ library switched on) in a scratch folder and replaces itself by the same command with the sanitizer runtimes loaded.
Reports go to one file per process; `news()` returns those which appeared since it was last called.
"""
import atexit
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

from vm import native

CANARY = """
#include <stdlib.h>
#include <vector>
extern "C" int canary_heap(int n) { volatile char* p = (char*) malloc(n); int v = p[n]; free((void*) p); return v; }
extern "C" int canary_free(int n) { volatile char* p = (char*) malloc(n); p[0] = 1; free((void*) p); return p[0]; }
extern "C" int canary_shift(int n) { return 1 << n; }
extern "C" int canary_overflow(int n) { return n + 1; }
extern "C" long canary_cast(double d) { return (long) d; }
"""
SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr", "-fsanitize-recover=address,undefined",
       "-D_GLIBCXX_ASSERTIONS"]


def runtime(name):
    return subprocess.run(["g++", f"-print-file-name={name}"], stdout=subprocess.PIPE, text=True).stdout.strip()


def enter(argv):
    """Called before the library is imported; returns only in the instrumented process."""
    dest = os.environ.get("VM_SAN_DEST")
    if dest is None:
        dest = tempfile.mkdtemp(prefix="vm-san-")
        try:
            table = native.build(dest, cflags=SAN, ldflags=["-fsanitize=address,undefined"], cython=["-X", "boundscheck=True"], ndebug=False)
            plain = native.build(os.path.join(dest, "plain")) if not native.fresh() else {}
            with open(os.path.join(dest, "canary.cpp"), "w") as f:
                f.write(CANARY)
            native._run(["g++", "-shared", "-fPIC", "-w"] + SAN + [os.path.join(dest, "canary.cpp"), "-o", os.path.join(dest, "canary.so"), "-fsanitize=address,undefined"])
            with open(os.path.join(dest, "table.json"), "w") as f:
                json.dump(dict(san=table, plain=plain), f)
        except BaseException:
            shutil.rmtree(dest, ignore_errors=True)
            raise
        env = dict(os.environ, VM_SAN_DEST=dest, LD_PRELOAD=runtime("libasan.so") + ":" + runtime("libubsan.so"),
                   ASAN_OPTIONS=f"detect_leaks=0:halt_on_error=0:log_path={dest}/report:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1",
                   UBSAN_OPTIONS="print_stacktrace=1", PYTHONMALLOC="malloc")
        os.execve(sys.executable, [sys.executable, "-m", "vm.main"] + argv, env)
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(dest, ignore_errors=True))
    # the second runtime always writes to the standard error stream
    sys.stderr = os.fdopen(os.dup(2), "w", buffering=1)
    attend()
    native.install(json.load(open(os.path.join(dest, "table.json")))["san"])
    return dest


def attend():
    """From now on the standard error stream of this process is a file which `news` reads."""
    fd = os.open(f"{os.environ['VM_SAN_DEST']}/undefined.{os.getpid()}", os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(fd, 2)
    os.close(fd)


_read = {}


def news():
    """Reports of this process which are new: [(kind, place, text)]."""
    out = []
    for name in ("report", "undefined"):
        path = f"{os.environ['VM_SAN_DEST']}/{name}.{os.getpid()}"
        if not os.path.exists(path):
            continue
        with open(path, errors="replace") as f:
            f.seek(_read.get(path, 0))
            text = f.read()
            _read[path] = f.tell()
        out += parse(text)
    return out


def parse(text):
    out = []
    for m in re.finditer(r"ERROR: AddressSanitizer: ([\w-]+)(.*?)(?=\n==\d+==ERROR|\Z)", text, re.S):
        out.append((m.group(1), place(m.group(2)), m.group(0)[:3000]))
    for m in re.finditer(r"^(\S+?):(\d+):\d+: runtime error: (.*?)$(.*?)(?=^\S+?:\d+:\d+: runtime error|\Z)", text, re.S | re.M):
        kind = re.sub(r"-?\d[\d.e+]*|0x[0-9a-f]+|'.*?'", "#", m.group(3))[:60]
        out.append((kind, os.path.basename(m.group(1)) + ":" + place(m.group(4)), m.group(0)[:2000]))
    return out


def place(text):
    for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", text):
        if not f.startswith(("__interceptor", "operator", "__asan", "malloc", "free", "memcpy", "memset", "memmove", "std::", "Eigen::", "qsort")):
            f = re.sub(r"__pyx_\w*?_\d*(ylearn)?", "", f)
            return f[-80:]
    return "?"
