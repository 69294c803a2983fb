'''Driver: detection of XML, by the C extension built from the working tree

Every byte string is shown as a bytes object, and in windows onto a larger piece of memory: with other things following
its terminator, and at the very end of what may be read, where looking any further ends the process
'''
import ctypes, mmap

from .real import attempt

import amara3.uxml

PAGE = mmap.PAGESIZE
ROOM = 4 * PAGE
_libc = ctypes.CDLL(None, use_errno=True)
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
_area = mmap.mmap(-1, ROOM + PAGE)
_start = ctypes.addressof(ctypes.c_char.from_buffer(_area))
_walled = _libc.mprotect(_start + ROOM, PAGE, 0) == 0
_free = ctypes.create_string_buffer(ROOM)
FOLLOWED = [b'\xff' * 40, b'<' * 40, b' <a/>' + b'\xd8' * 40]


def isxml(b): return amara3.uxml.isxml(b)


def window(addr, b):
    ctypes.memmove(addr, b, len(b))
    return (ctypes.c_char * len(b)).from_address(addr)


def windows(b):
    if len(b) + 50 > ROOM: return
    if _walled:
        # With the terminator which every bytes object has too
        ctypes.memset(_start + ROOM - 1, 0, 1)
        yield window(_start + ROOM - 1 - len(b), b)
    for more in FOLLOWED:
        w = window(ctypes.addressof(_free), b)
        ctypes.memmove(ctypes.addressof(_free) + len(b), b'\0' + more, 1 + len(more))
        yield w


def run(case):
    out = []
    for b in case['bs']:
        o, r = attempt(isxml, bytes(b))
        out.append({'b': b, 'out': o if r in (True, False, None) else 'err', 'r': bool(r)})
        if o != 'ok' or not takes_windows(): continue
        for w in windows(bytes(b)):
            o2, r2 = attempt(isxml, w)
            # The answer goes by the bytes alone, so one more is of interest only if it differs
            if (o2, r2) != (o, r): out.append({'b': b, 'out': o2 if r2 in (True, False, None) else 'err', 'r': bool(r2)})
    return out


_takes = []


def takes_windows():
    '''Whether the function takes other objects than bytes with bytes in them at all (nothing promises that)'''
    if not _takes:
        try: _takes.append(isxml(window(ctypes.addressof(_free), b'<a/>')) is True)
        except Exception: _takes.append(False)
    return _takes[0]
