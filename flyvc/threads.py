"""Thread modular reasoning: one mutex, the state it protects, and what other threads may do to it between critical sections."""
import re
import z3
from .val import *
from .execu import Outcomes


def same_ptr(a, b):
    return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.off.conc() is not None and a.off.conc() == b.off.conc()


class Monitor:
    """Ghost state: held, content (what the mutex protects now), start (at the last acquisition), sections ((start, end), ...)."""

    def __init__(self, ex, mutex, havoc, capture=lambda ex, st: st.ghost['content']):
        self.ex, self.mutex, self.havoc, self.capture = ex, mutex, havoc, capture

    def install(self, st):
        st.ghost.update({'held': False, 'start': None, 'sections': ()})
        for fn in [x for m in self.ex.mods for x in m.funcs.values()]:
            c = {'pthread_mutex_lock': self.lock, 'pthread_mutex_unlock': self.unlock, 'pthread_mutex_trylock': self.trylock}.get(fn.dem)
            if c:
                self.ex.contracts[fn.dem] = c

    def acquire(self, st):
        st = st.clone()
        self.havoc(self.ex, st)
        st.ghost['held'] = True
        st.ghost['start'] = self.capture(self.ex, st)
        return st

    def lock(self, ex, st, a, fn, ins):
        if not same_ptr(a[0], self.mutex):
            raise Unsupported('another mutex')
        ex.oblige(st, not st.ghost['held'], 'the lock is not taken twice')
        return Outcomes([(self.acquire(st), 0)])

    def trylock(self, ex, st, a, fn, ins):
        if not same_ptr(a[0], self.mutex):
            raise Unsupported('another mutex')
        return Outcomes([(self.acquire(st), 0), (st.clone(), 16)])

    def unlock(self, ex, st, a, fn, ins):
        if not same_ptr(a[0], self.mutex):
            raise Unsupported('another mutex')
        ex.oblige(st, st.ghost['held'], 'only a taken lock is released')
        st = st.clone()
        st.ghost['held'] = False
        st.ghost['sections'] = st.ghost['sections'] + ((st.ghost['start'], self.capture(ex, st)),)
        return Outcomes([(st, 0)])
