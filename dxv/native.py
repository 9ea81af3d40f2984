"""Runs harness wrappers natively (the real compiled code) on concrete words, in a child process."""
import ctypes
import os
import struct
import sys
import numpy as np


def run_many(so, sym, inp, nout, timeout=60):
    """inp: uint32 array [n, nin] -> (uint32 array [n, nout], alive mask, {row: signal})"""
    n, nin = inp.shape
    out = np.zeros((n, nout), dtype=np.uint32)
    alive = np.zeros(n, dtype=bool)
    died = {}
    k = 0
    while k < n:
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                dn = os.open('/dev/null', os.O_WRONLY)
                os.dup2(dn, 2)
                import resource
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_CPU, (timeout, timeout))
                lib = ctypes.CDLL(so)
                f = getattr(lib, sym)
                f.restype = None
                big = ctypes.create_string_buffer(16384 + 64)
                base = (ctypes.addressof(big) + 15) // 16 * 16 + 4        # only 4-aligned
                ia, oa = ctypes.c_void_p(base), ctypes.c_void_p(base + 8192)
                pat = b'\xa5' * (4 * nout + 32)
                blk = []
                rows = np.ascontiguousarray(inp[k:])
                addr = rows.ctypes.data
                with os.fdopen(w, 'wb', buffering=0) as o:
                    for q in range(n - k):
                        ctypes.memmove(ia, addr + q * nin * 4, 4 * nin)
                        ctypes.memmove(oa, pat, len(pat))
                        f(ia, oa)
                        o.write(ctypes.string_at(oa, len(pat)))
                os._exit(0)
            except BaseException:
                os._exit(99)
        os.close(w)
        sz = 4 * nout + 32
        with os.fdopen(r, 'rb') as g:
            data = g.read()
        _, st = os.waitpid(pid, 0)
        m = len(data) // sz
        if m:
            a = np.frombuffer(data[:m * sz], dtype=np.uint32).reshape(m, nout + 8)
            out[k:k + m] = a[:, :nout]
            alive[k:k + m] = True
            for q in np.nonzero((a[:, nout:] != 0xA5A5A5A5).any(axis=1))[0]:
                died[k + int(q)] = 'overrun'
        k += m
        if k < n:
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 99:
                raise RuntimeError('native runner failed for ' + sym)
            died[k] = os.WTERMSIG(st) if os.WIFSIGNALED(st) else -os.WEXITSTATUS(st)
            k += 1
            if len(died) > 50:
                alive[k:] = False
                break
    return out, alive, died


def run_batch(so, calls, timeout=60):
    """calls: [(symbol, [input words], nout)] -> list of list of output words, or ('signal', n) for a call that died"""
    res = []
    for sym, words, nout in calls:
        o, al, d = run_many(so, sym, np.array([words], dtype=np.uint32).reshape(1, len(words)), nout, timeout)
        res.append([int(x) for x in o[0]] if al[0] and not d else ('signal', d.get(0)))
    return res
