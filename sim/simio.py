"""Python side of the I/O seam (sim/simio.c, preloaded into the workers)."""
import ctypes
import errno
import mmap
import os
import struct

KINDS = ('openw', 'openr', 'read', 'write', 'fsync', 'close', 'rename', 'unlink',
         'trunc', 'mkdir', 'chmod', 'link')
BIT = {k: 1 << i for i, k in enumerate(KINDS)}
MUTATING = ('openw', 'write', 'fsync', 'rename', 'unlink', 'trunc', 'mkdir', 'chmod', 'link')
ACTIONS = {'errno': 1, 'crash': 2, 'crash_after': 3, 'short': 4, 'sigint': 5}
CRASH_STATUS = 77
LOGCAP = 4 << 20

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.sim_fault.argtypes = [ctypes.c_uint32, ctypes.c_int, ctypes.c_int64,
                                   ctypes.c_int, ctypes.c_int, ctypes.c_int]
        _lib.sim_fired.restype = ctypes.c_int64
        _lib.sim_count.restype = ctypes.c_int64
        _lib.sim_chunks.argtypes = [ctypes.c_int64, ctypes.c_int64]
        _lib.sim_log.argtypes = [ctypes.c_void_p, ctypes.c_int64]
        _lib.sim_root.argtypes = [ctypes.c_char_p]
    return _lib


class Log:
    """Shared with forked children; survives a simulated crash of the child."""

    def __init__(self, cap=LOGCAP):
        self.map = mmap.mmap(-1, cap)
        self.cap = cap
        self.buf = (ctypes.c_char * cap).from_buffer(self.map)
        self.addr = ctypes.addressof(self.buf)

    def records(self):
        end = struct.unpack_from('<q', self.map, 0)[0]
        pos, out = 8, []
        while pos < end:
            size, kind, ret, err, handle, aux = struct.unpack_from('<6i', self.map, pos)
            off, na, nb = struct.unpack_from('<qII', self.map, pos + 24)
            a = bytes(self.map[pos + 40:pos + 40 + na])
            b = bytes(self.map[pos + 40 + na:pos + 40 + na + nb])
            out.append((KINDS[kind], ret, err, handle, aux, off, a, b))
            pos += size
        return out


def arm(roots, faults=(), wchunk=0, rchunk=0, log=None, gate=None):
    """faults: list of dict(ops=[kind..], nth=int, action=str, arg=int, root=int, sticky=bool)"""
    L = lib()
    L.sim_reset()
    for r in roots:
        L.sim_root(os.fsencode(r))
    for f in faults:
        mask = 0
        for k in f['ops']:
            mask |= BIT[k]
        arg = f.get('arg', 0)
        if isinstance(arg, str):
            arg = getattr(errno, arg)
        L.sim_fault(mask, f.get('root', -1), max(0, int(f['nth'])), ACTIONS[f['action']], int(arg),
                    1 if f.get('sticky') else 0)
    L.sim_chunks(int(wchunk), int(rchunk))
    if log is not None:
        L.sim_log(log.addr, log.cap)
    if gate:
        L.sim_gate(*gate)
    L.sim_arm(1)


def disarm():
    lib().sim_arm(0)


def fired(n):
    return [lib().sim_fired(i) for i in range(n)]


def counts():
    return {k: lib().sim_count(i) for i, k in enumerate(KINDS)}


def total():
    return lib().sim_count(-1)


def open_handles():
    return lib().sim_open_handles()


# ---------------------------------------------------------------- power loss

def read_tree(root):
    """{relative path: bytes} of regular files, and set of directories"""
    files, dirs = {}, set()
    for d, subdirs, names in os.walk(root):
        rel = os.path.relpath(d, root)
        if rel != '.':
            dirs.add(rel)
        for n in names:
            p = os.path.join(d, n)
            r = os.path.normpath(os.path.join(rel, n))
            if os.path.islink(p):
                files[r] = ('link', os.readlink(p))
            else:
                with open(p, 'rb') as f:
                    files[r] = f.read()
    return files, dirs


class PowerLoss:
    """What a disk may hold after a power loss, given the log of operations.

    Namespace operations reach the disk in order; `cut` of them (counted from
    the end) are lost. Data which has not been fsync()ed may be missing: only a
    prefix (`frac`) of the bytes written after the last fsync is kept, the file
    ends there or is filled with zeros up to its length (`zeros`).
    """

    def __init__(self, initial, root):
        self.root = root
        self.initial = initial

    def materialise(self, records, cut, frac, zeros):
        root = self.root
        inode = {}        # name -> file object
        for name, data in self.initial.items():
            if isinstance(data, bytes):
                inode[name] = {'data': bytearray(data), 'synced': len(data), 'durable': bytes(data)}
        handles = {}
        names = []        # history of namespace states, applied lazily
        state = dict(inode)
        history = [dict(state)]

        def rel(b):
            return os.path.relpath(os.fsdecode(b), root)

        for kind, ret, err, h, aux, off, a, b in records:
            if ret != 0:
                continue
            if kind in ('openw', 'openr'):
                n = rel(a)
                if n not in state:
                    state[n] = {'data': bytearray(), 'durable': b''}
                    history.append(dict(state))
                handles[h] = state[n]
                if aux & os.O_TRUNC and kind == 'openw':
                    # length of the file is metadata; new length reaches the disk
                    if len(state[n]['data']):
                        state[n]['data'] = bytearray()
                        state[n]['durable'] = b''
            elif kind == 'write':
                f = handles.get(h)
                if f is None:
                    continue
                d = f['data']
                if len(d) < off:
                    d.extend(b'\0' * (off - len(d)))
                d[off:off + len(a)] = a
            elif kind == 'fsync':
                f = handles.get(h)
                if f is not None:
                    f['durable'] = bytes(f['data'])
            elif kind == 'trunc':
                f = handles.get(h) if aux else state.get(rel(a))
                if f is not None:
                    del f['data'][off:]
                    f['durable'] = f['durable'][:off]
            elif kind == 'rename':
                o, n = rel(a), rel(b)
                if o in state:
                    state[n] = state.pop(o)
                    history.append(dict(state))
            elif kind == 'unlink':
                n = rel(a)
                if n in state:
                    state.pop(n)
                    history.append(dict(state))
            elif kind == 'link':
                o, n = rel(a), rel(b)
                if o in state:
                    state[n] = state[o]
                    history.append(dict(state))
        cut = min(cut, len(history) - 1)
        final = history[len(history) - 1 - cut]
        out = {}
        for name, f in final.items():
            full, durable = bytes(f['data']), f['durable']
            if full == durable:
                out[name] = full
                continue
            # bytes that were not synced: keep a prefix of the difference
            common = 0
            while common < min(len(full), len(durable)) and full[common] == durable[common]:
                common += 1
            keep = common + int((len(full) - common) * frac)
            data = full[:keep]
            if zeros:
                data = data + b'\0' * (len(full) - len(data))
            elif len(durable) > len(data) and len(full) >= len(durable):
                data = data + durable[len(data):]
            out[name] = data
        return out
