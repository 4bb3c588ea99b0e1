"""Child process: calls one function of a cdylib on guarded buffers.  Reads a JSON job on stdin."""
import ctypes
import json
import mmap
import resource
import sys

resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
job = json.load(sys.stdin)
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
PAGE = 4096


def alloc(data, mod):
    n = len(data)
    pages = (n + 128) // PAGE + 2
    base = libc.mmap(None, (pages + 2) * PAGE, 3, 0x22, -1, 0)
    end = base + (pages + 1) * PAGE
    libc.mprotect(base, PAGE, 0)
    libc.mprotect(end, PAGE, 0)
    a = end - n
    if mod is not None:
        a -= (a - mod) % 64
    else:
        # natural alignment of the type is its size (power of two)
        al = 1
        while al < n and al < 64:
            al *= 2
        a -= a % al
    ctypes.memset(base + PAGE, 0xC3, pages * PAGE)
    ctypes.memmove(a, bytes(data), n)
    return a, base + PAGE, pages * PAGE


cargs, bufs = [], []
for x in job['args']:
    if x['kind'] == 'val':
        cargs.append(ctypes.c_uint64(x['v']))
    else:
        d = bytes.fromhex(x['hex'])
        a, b, l = alloc(d, x.get('mod'))
        cargs.append(ctypes.c_void_p(a))
        bufs.append((x, a, d, b, l))
lib = ctypes.CDLL(job['so'])
f = getattr(lib, job['fn'])
f.restype = None
f(*cargs)
outs = {}
for x, a, d, b, l in bufs:
    cur = ctypes.string_at(b, l)
    o = a - b
    body = cur[o:o + len(d)]
    if x.get('out'):
        outs[x['out']] = body.hex()
    elif body != d:
        outs['%guard'] = 'input buffer modified'
    if any(c != 0xC3 for c in cur[:o]) or any(c != 0xC3 for c in cur[o + len(d):]):
        outs['%guard'] = 'canary overwritten'
print(json.dumps(outs))
