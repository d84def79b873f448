"""Time limits: an analysis that meets a tree it cannot digest gives up with
UNDECIDED obligations instead of running on."""
import contextlib
import os
import signal
import time


class OutOfTime(Exception):
    pass


STEP = float(os.environ.get("VERIF_STEP_S", "250"))       # one obligation group
SOFT = float(os.environ.get("VERIF_SOFT_S", "740"))       # the whole check, from inside
HARD = float(os.environ.get("VERIF_HARD_S", "830"))       # the whole check, from outside
start = time.time()
factor = 1.0


def left():
    """seconds until the generated structures have to do"""
    return SOFT * factor * 0.9 - (time.time() - start)


def begin(thorough):
    global start, factor
    start = time.time()
    factor = 30.0 if thorough else 1.0

    def ring(*_):
        raise OutOfTime("time limit")
    signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, SOFT * factor)


def end():
    signal.setitimer(signal.ITIMER_REAL, 0)


@contextlib.contextmanager
def limited(seconds=None):
    seconds = (seconds or STEP) * factor
    outer = signal.getitimer(signal.ITIMER_REAL)[0]
    if not outer:
        # no limits are in force (interactive use)
        yield
        return
    t = time.time()
    signal.setitimer(signal.ITIMER_REAL, min(seconds, outer))
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, max(outer - (time.time() - t), 0.05))


def supervised(run, give_up, thorough):
    """run() in a child; a child that crashes, hangs or eats all memory makes
    the check give up, not fail"""
    import sys
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            with contextlib.suppress(ValueError, OSError):
                import resource
                resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
            code = run()
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    until = time.time() + (HARD * 30 if thorough else HARD)
    nap = 0.01
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() > until:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return give_up("no result in time")
        time.sleep(nap)
        nap = min(nap * 1.5, 0.25)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) in (0, 1):
        return os.WEXITSTATUS(st)
    return give_up(f"the analysis ended with status {st}")


MEMORY = 12 << 30
