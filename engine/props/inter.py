"""Steps of other threads at every point where this thread can be preempted with an effect on shared state."""
from spec import Spec
from lin import *
from sysmodel import errno_obj


SYSCALLS = {n + x for n in ('open', 'openat', 'creat', 'close', 'fcntl', 'flock', 'unlink', 'rename') for x in ('', '64')}


class Inter(Spec):
    inter = None               # client function: one operation of another thread
    inter_max = 2
    inter_at = ('lock', 'atomic')

    def points(self, s):
        g = s.ghost
        if not self.inter or not g.get('inter') or g.get('other') or g.get('nint', 0) >= self.inter_max:
            return [s]
        t = s.copy()
        h = t.ghost
        mine = h.get('locks', ())
        h['nint'] = h.get('nint', 0) + 1
        h['locks'], h['otherlocks'], h['other'] = (), mine, True
        t.note(self.where(t), 'another thread runs %s' % self.inter)
        out = [s]
        errno = errno_obj(self)
        for u, _ in self.call(t, self.p.funcs[self.inter], []):
            u = u.copy()
            if u.ghost.get('locks'):
                self.report(u, 'lock kept', 'an operation ends with a mutex still held')
            u.ghost['locks'], u.ghost['other'] = mine, False
            if errno in s.mem:
                u.mem[errno] = s.mem[errno]        # errno belongs to the thread
            else:
                u.mem.pop(errno, None)
            u.ghost.pop('otherlocks', None)
            u.note(self.where(t), 'and finishes')
            out.append(u)
        return out

    def v_interference(self, s, a, i):
        s = s.copy()
        s.ghost['inter'] = s.norm(a[0]).c != 0
        return [(s, None)]

    def before_lock(self, st, p):
        return self.points(st) if 'lock' in self.inter_at else [st]

    def on_lock(self, st, p):
        if p in st.ghost.get('otherlocks', ()):
            return None            # blocks until the holder goes on: a later point
        if p in st.ghost.get('locks', ()):
            self.report(st, 'self-deadlock', 'the mutex is locked while this thread holds it')
            return None
        return super().on_lock(st, p)

    def step(self, s, f, i):
        if 'sys' in self.inter_at and i['op'] in ('call', 'invoke') and s.ghost.get('inter') and not s.ghost.get('other'):
            ce = i['callee']
            fn = self.p.funcs.get(ce[1]) if ce[0] == 'g' else None
            if fn is not None and not fn.has_body and fn.name in SYSCALLS:
                out = []
                for t in self.points(s):
                    out += super().step(t, f, i)
                return out
        if 'atomic' in self.inter_at and (i['op'] in ('atomicrmw', 'cmpxchg') or i['op'] == 'load' and i.get('ord') not in (None, '', 'na', 'not_atomic')):
            if s.ghost.get('inter') and not s.ghost.get('other'):
                out = []
                for t in self.points(s):
                    out += super().step(t, f, i)
                return out
        return super().step(s, f, i)
