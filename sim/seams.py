"""Replaces the entry points through which Python code meets the outside world
(processes, signals, clocks, files, randomness) by versions that ask the current
simulator first.  Installed before anything of dsari is imported.  While CUR is
None everything passes straight through."""
import builtins
import io
import os
import random
import select
import signal
import threading
import time

CUR = None          # the active simulator of this process


class O:            # the originals
    pass


for _n in ("fork wait4 waitpid wait3 wait kill killpg getpid getppid setpgid setpgrp getpgid getpgrp "
           "setsid urandom _exit execve execv closerange close dup2 listdir scandir stat lstat remove "
           "unlink rename replace mkdir rmdir open access chdir pipe read write utime makedirs nice "
           "posix_spawn posix_spawnp system").split():
    setattr(O, _n, getattr(os, _n))
O.builtin_open = builtins.open
O.sleep = time.sleep
O.select = select.select
O.event_wait = threading.Event.wait
O.signal = signal.signal
O.getsignal = signal.getsignal
O.pthread_sigmask = signal.pthread_sigmask
O.setitimer = signal.setitimer
O.alarm = signal.alarm


def _via(name):
    orig = getattr(O, name)

    def wrapper(*a, **k):
        c = CUR
        if c is None or c.passive:
            return orig(*a, **k)
        return getattr(c, "sys_" + name)(*a, **k)
    wrapper.__name__ = name
    wrapper._simseam = True
    return wrapper


def _ticking(orig):
    def wrapper():
        c = CUR
        if c is not None and not c.passive:
            c.tick()
        return orig()
    return wrapper


def _select(r, w, x, timeout=None):
    """Waiting for nothing but time (or forever) is sleeping."""
    c = CUR
    if c is None or c.passive or r or w or x or timeout is None:
        return O.select(r, w, x, timeout)
    c.sys_sleep(timeout)
    return [], [], []


def _event_wait(self, timeout=None):
    c = CUR
    if c is None or c.passive or timeout is None or self.is_set():
        return O.event_wait(self, timeout)
    c.sys_sleep(max(timeout, 0))
    return self.is_set()


def install():
    for n in ("fork wait4 waitpid wait3 wait kill killpg getpid getppid setpgid setpgrp getpgid getpgrp "
              "setsid urandom _exit execve execv closerange close listdir scandir stat lstat remove unlink "
              "rename replace mkdir open access chdir posix_spawn posix_spawnp system").split():
        setattr(os, n, _via(n))
    op = _via("builtin_open")
    builtins.open = op
    io.open = op
    time.sleep = _via("sleep")
    select.select = _select
    threading.Event.wait = _event_wait
    for n in ("monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns"):
        setattr(time, n, _ticking(getattr(time, n)))
    signal.signal = _via("signal")
    signal.getsignal = _via("getsignal")
    signal.pthread_sigmask = _via("pthread_sigmask")
    signal.alarm = _via("alarm")
    signal.setitimer = _via("setitimer")

    class SysRandom(random.SystemRandom):
        def random(self):
            return int.from_bytes(os.urandom(7), "big") / (1 << 56)

        def getrandbits(self, k):
            return int.from_bytes(os.urandom((k + 7) // 8), "big") >> ((8 - k % 8) % 8)
    random.SystemRandom = SysRandom
