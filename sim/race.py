"""Race of simulated processes: every I/O operation of a process waits at a gate,
the plan decides who goes on. All processes but one stand at their gate at any
time, so one plan is one exactly repeatable execution."""
import os
import pickle
import select
import signal

from . import simio


class Racer:
    def __init__(self, pid, gate_r, go_w, res_r):
        self.pid, self.gate_r, self.go_w, self.res_r = pid, gate_r, go_w, res_r
        self.at_gate = None
        self.done = False
        self.result = None
        self.ops = 0


def race(fns, roots, choices, kills=(), wchunk=0, rchunk=0, max_ops=5000):
    """fns: callables, each runs in a process. choices: list of [gap, choice].
    kills: [[racer, op]] the racer dies at its op-th operation.
    Returns list of ('ok', value) | ('raised', name, text) | ('crashed', code) and trace."""
    racers = []
    for i, fn in enumerate(fns):
        gate_r, gate_w = os.pipe()
        go_r, go_w = os.pipe()
        res_r, res_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                signal.signal(signal.SIGINT, signal.default_int_handler)
                for other in racers:
                    os.close(other.go_w)
                    os.close(other.gate_r)
                os.close(gate_r)
                os.close(go_w)
                simio.arm(roots, [{'ops': [k for k in simio.KINDS if k not in ('read', 'close')], 'nth': op,
                                   'action': 'crash'} for r, op in kills if r == i],
                          wchunk=wchunk, rchunk=rchunk, gate=(gate_w, go_r))
                try:
                    out = ('ok', fn())
                except BaseException as e:
                    out = ('raised', type(e).__name__, str(e)[:300])
                simio.disarm()
                os.close(gate_w)
                blob = pickle.dumps(out)
                while blob:
                    blob = blob[os.write(res_w, blob):]
                code = 0
            finally:
                os._exit(code)
        os.close(gate_w)
        os.close(go_r)
        os.close(res_w)
        racers.append(Racer(pid, gate_r, go_w, res_r))

    def settle():
        """Until every racer stands at its gate or is done"""
        for r in racers:
            while not r.done and r.at_gate is None:
                c = os.read(r.gate_r, 1)
                if c:
                    r.at_gate = chr(c[0])
                else:
                    r.done = True
                    data = b''
                    while True:
                        b = os.read(r.res_r, 1 << 16)
                        if not b:
                            break
                        data += b
                    _, st = os.waitpid(r.pid, 0)
                    r.result = pickle.loads(data) if data else ('crashed', os.waitstatus_to_exitcode(st))
                    for fd in (r.gate_r, r.go_w, r.res_r):
                        os.close(fd)

    trace = []
    current, pos, left = 0, 0, choices[0][0] if choices else 1 << 60
    total = 0
    settle()
    while any(not r.done for r in racers):
        total += 1
        if total > max_ops:
            for r in racers:
                if not r.done:
                    os.kill(r.pid, signal.SIGKILL)
            raise RuntimeError('race does not end')
        ready = [i for i, r in enumerate(racers) if not r.done]
        if left <= 0 or current not in ready:
            if pos < len(choices):
                others = [i for i in ready if i != current] or ready
                current = others[choices[pos][1] % len(others)]
                pos += 1
                left = choices[pos][0] if pos < len(choices) else 1 << 60
            else:
                current = ready[0]
        r = racers[current]
        trace.append((current, r.at_gate))
        r.at_gate = None
        r.ops += 1
        left -= 1
        os.write(r.go_w, b'g')
        settle()
    return [r.result for r in racers], trace
