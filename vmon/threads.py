"""Runs bodies in threads at the same time, and makes them give way to each other at random lines of the repository's code"""
import random, sys, threading, time
from . import boot


def together(bodies, seed, every=12):
    """-> (results, errors, number of switches); a body that fails leaves its exception in errors"""
    barrier = threading.Barrier(len(bodies))
    log, results, errors = [], [None] * len(bodies), [None] * len(bodies)

    def run(k):
        rng = random.Random(seed * 31 + k)
        left = [rng.randint(1, every)]

        def local(frame, event, arg):
            if event == 'line':
                left[0] -= 1
                if left[0] <= 0:
                    left[0] = rng.randint(1, 2 * every)
                    log.append(k)
                    time.sleep(0)
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(boot.REPO) else None
        barrier.wait(30)
        sys.settrace(trace)
        try:
            results[k] = bodies[k]()
        except BaseException as e:
            errors[k] = e
        finally:
            sys.settrace(None)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-4)
    try:
        ts = [threading.Thread(target=run, args=(k,), daemon=True) for k in range(len(bodies))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
            if t.is_alive():
                errors[ts.index(t)] = TimeoutError('the thread does not end')
    finally:
        sys.setswitchinterval(old)
    return results, errors, sum(a != b for a, b in zip(log, log[1:]))
