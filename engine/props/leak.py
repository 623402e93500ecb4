from spec import Spec


EXEMPT = ('clientbuf', 'chars', 'node', 'vecbuf')        # owned by the library containers of the model


class Leaks(Spec):
    """every heap object the client caused to be allocated is released when it returns"""
    leak_text = 'memory from %s is never released'

    def v_leakbase(self, s, a, i):
        """what exists now belongs to the process-wide environment"""
        s = s.copy()
        s.ghost['leakbase'] = tuple(o for o, c in s.mem.items() if o.kind == 'heap')
        return [(s, None)]

    def on_unreachable(self, st, o):
        if not any(getattr(o, k, False) for k in EXEMPT) and 'leakbase' in st.ghost:
            self.report(st, 'leak', self.leak_text % o.name, None)
        return st

    def on_end(self, st, client):
        super().on_end(st, client)
        self.oblige()
        base = st.ghost.get('leakbase', ())
        for o, c in st.mem.items():
            if o not in base and o.kind == 'heap' and c.alive and not any(getattr(o, k, False) for k in EXEMPT):
                self.report(st, 'leak', self.leak_text % o.name, None)
