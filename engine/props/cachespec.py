"""Oracle of one cache partition: what is cached in which order, what the handles refer to, what has to be deleted by the running operation."""
from leak import Leaks
from ai import *
from lin import *


class Cache(Leaks):
    assert_is_violation = True
    want = ()                  # rules this property owns
    max_groups = 400
    max_rounds = 4000
    histories = True
    nslots = 3
    deep = False

    def init_state(self, st):
        super().init_state(st)
        g = st.ghost
        g['hashes'] = ()
        g['cap'] = 0
        g['unit'] = C(1)
        g['lru'] = ()                               # cached and not held: (value, key, charge), oldest first
        g['slots'] = (None,) * self.nslots          # held: (value, key, charge, cached)
        g['exp'] = ()                               # to be deleted before the operation returns: (value, key, why)
        g['op'] = ('', None, 0)

    def bad(self, s, rule, msg):
        self.oblige()
        if rule in self.want:
            self.report(s, rule, msg)
        else:
            self.checks['paths ended by another rule'] = self.checks.get('paths ended by another rule', 0) + 1

    # ------------------------------------------------------------ hash values are inputs
    def v_hash(self, s, a, i):
        s = s.copy()
        k = bytes(self.const_bytes(s, a[0], s.norm(a[1]).c))
        s.ghost['hashes'] += ((k, s.norm(a[2])),)
        return [(s, None)]

    def on_fn(self, s, fn, args, i):
        if fn.dem.startswith('lsmdb::Hash(') and s.ghost['hashes']:
            n = s.norm(args[1])
            if n.is_const() and s.norm(args[2]).is_const() and s.norm(args[2]).c == 0:
                b = self.const_bytes(s, args[0], n.c)
                d = dict(s.ghost['hashes'])
                if b is not None and bytes(b) in d:
                    self.checks['hash'] = self.checks.get('hash', 0) + 1
                    return [(s, d[bytes(b)])]
        return super().on_fn(s, fn, args, i)

    def v_deep(self, s, a, i):
        return [(s, C(int(self.deep)))]

    # ------------------------------------------------------------ operations
    def v_cap(self, s, a, i):
        s = s.copy()
        s.ghost['cap'] = s.norm(a[0]).c
        return [(s, None)]

    def v_unit(self, s, a, i):
        s = s.copy()
        s.ghost['unit'] = s.norm(a[0])
        return [(s, None)]

    def v_op(self, s, a, i):
        s = s.copy()
        g = s.ghost
        op = self.text_of(s, a[0])
        key = bytes(self.const_bytes(s, a[1], s.norm(a[2]).c)) if op in ('insert', 'lookup', 'erase') else None
        j, charge = s.norm(a[3]).c, s.norm(a[4]).c
        lru, slots, exp = list(g['lru']), list(g['slots']), []
        self.checks[op] = self.checks.get(op, 0) + 1
        self.oblige()

        def uncache(why):
            for e in lru:
                if e[1] == key:
                    lru.remove(e)
                    exp.append((e[0], e[1], why))
                    return
            for n, e in enumerate(slots):
                if e and e[1] == key and e[3]:
                    slots[n] = e[:3] + (False,)
        found = None
        if op == 'insert':
            val = self.res(s, a[5])
            if g['cap']:
                uncache('replaced')
            slots[j] = (val, key, charge, bool(g['cap']))
            here = [e for e in lru if self.part(s, e[1]) == self.part(s, key)]
            used = self.used(here, [e for e in slots if e and self.part(s, e[1]) == self.part(s, key)])
            while here and used > g['cap']:
                e = here.pop(0)
                lru.remove(e)
                used -= e[2]
                exp.append((e[0], e[1], 'over capacity'))
            found = val
        elif op == 'lookup':
            for e in lru:
                if e[1] == key:
                    lru.remove(e)
                    slots[j] = e + (True,)
                    found = e[0]
                    break
            else:
                for e in slots:
                    if e and e[1] == key and e[3]:
                        slots[j] = e
                        found = e[0]
                        break
        elif op == 'release':
            e = slots[j]
            slots[j] = None
            if not any(x and x[0] == e[0] for x in slots):
                if e[3]:
                    lru.append(e[:3])
                else:
                    exp.append((e[0], e[1], 'released'))
        elif op == 'erase':
            uncache('erased')
        elif op in ('prune', 'destroy'):
            exp += [(e[0], e[1], 'pruned' if op == 'prune' else 'destroyed') for e in lru]
            lru = []
        else:
            raise AssertionError(op)
        g['lru'], g['slots'], g['exp'], g['op'] = tuple(lru), tuple(slots), tuple(exp), (op, found, j)
        return [(s, None)]

    def part(self, s, key):
        h = dict(s.ghost['hashes'])[key]
        return h.c >> 28 if h.is_const() else None

    @staticmethod
    def used(lru, slots):
        held = []
        for e in slots:
            if e and e[3] and e[0] not in [x[0] for x in held]:
                held.append(e)
        return sum(e[2] for e in lru) + sum(e[2] for e in held)

    def v_deleted(self, s, a, i):
        s = s.copy()
        g = s.ghost
        val, n = self.res(s, a[2]), s.norm(a[1])
        self.oblige(2)
        self.checks['deleted'] = self.checks.get('deleted', 0) + 1
        hit = [x for x in g['exp'] if x[0] == val]
        op = g['op'][0]
        if not hit:
            if any(e and e[0] == val for e in g['slots']):
                self.bad(s, 'entry', '%s deletes a value while a handle to it is held' % op)
            elif any(e[0] == val for e in g['lru']):
                self.bad(s, 'capacity' if op in ('insert', 'prune', 'release') else 'map',
                         '%s deletes an entry that %s' % (op, 'should have stayed: it is not the oldest, or the cache is within its capacity' if op != 'erase' else 'was cached under another key'))
            else:
                self.bad(s, 'entry', '%s deletes a value a second time' % op)
            return []
        k = self.const_bytes(s, a[0], n.c) if n.is_const() and n.c < 64 else None
        if k is None or bytes(k) != hit[0][1]:
            self.bad(s, 'entry', 'the deleter does not get the key of its own entry')
            return []
        g['exp'] = tuple(x for x in g['exp'] if x[0] != val)
        return [(s, None)]

    def v_done_op(self, s, a, i):
        out = []
        op, want, j = s.ghost['op']
        for t, found in self.cond(s, a[0]):
            self.oblige(2)
            g = t.ghost
            if g['exp']:
                why = g['exp'][0][2]
                if why in ('over capacity', 'pruned') and 'entry' in self.want and 'capacity' not in self.want:
                    # still cached: another property's rule; out of reach: never deleted
                    t = t.copy()
                    t.ghost['exp'], t.ghost['op'] = (), ('', None, 0)
                    self.gc(t)
                    continue
                self.bad(t, 'capacity' if why in ('over capacity', 'pruned') else 'entry', 'an entry that is %s is not deleted when %s returns' % (why, op))
                continue
            if op in ('insert', 'lookup'):
                if found != (want is not None):
                    self.bad(t, 'map', 'Lookup %s' % ('finds an entry that is not cached' if found else 'does not find a cached entry'))
                    continue
                if found and self.res(t, a[1]) != want:
                    self.bad(t, 'map', 'the handle of %s carries another entry\'s value' % op)
                    continue
            t = t.copy()
            t.ghost['op'] = ('', None, 0)
            out.append((t, None))
        return out

    def v_total(self, s, a, i):
        out = []
        want = self.used(s.ghost['lru'], s.ghost['slots'])
        self.checks['total'] = self.checks.get('total', 0) + 1
        for t, n in self.nu(s, a[0], 64):
            self.oblige()
            if not t.eq(n - t.ghost['unit'].scale(want)):
                self.bad(t, 'capacity', 'TotalCharge is not the sum of the charges of the cached entries (%d)' % want)
                continue
            out.append((t, None))
        return out
