from spec import Spec
from ai import *
from lin import *

witness = ['w_logging.cc']
TECH = 'exact integer (affine) values of digit strings; buffer bounds of every formatted write'


class S(Spec):
    assert_is_violation = True
    K = 26

    def dec(self, s, a):
        """[(state, exact value of the digits)]"""
        t = s.norm(a[1])
        out = []
        for s1, p in self.deref_ptr(s, a[0]):
            cur = [(s1, ZERO)]
            for k in range(t.c if t.is_const() else 0):
                nxt = []
                for s2, v in cur:
                    for s3, x in self.load(s2, Ptr(p.obj, p.off + k), 1, 'i8'):
                        for s4, y in self.nu(s3, x, 8):
                            nxt.append((s4, s4.norm(v.scale(10) + y - 48)))
                cur = nxt
            out += cur
        return out if t.is_const() else []

    def v_dec_is(self, s, a, i):
        rule = self.text_of(s, a[3])
        self.checks[rule] = self.checks.get(rule, 0) + 1
        self.oblige()
        out = []
        for s1, d in self.dec(s, a):
            for s2, v in self.nu(s1, a[2], 64):
                if not s2.eq(v - d):
                    for x in (s2.assume_ge(v - d - 1), s2.assume_ge(d - v - 1)):
                        if x is not None:
                            self.report(x, 'contract', rule, self.where(x))
                out.append((s2, None))
        return out

    def v_dec_over(self, s, a, i):
        rule = self.text_of(s, a[2])
        self.checks[rule] = self.checks.get(rule, 0) + 1
        self.oblige()
        out = []
        for s1, d in self.dec(s, a):
            x = s1.assume_ge(C((1 << 64) - 1) - d)
            if x is not None:
                self.report(x, 'contract', rule, self.where(x))
            out.append((s1, None))
        return out


class U(S):
    force_unroll = 26
    max_unroll = 26


class W(S):
    K = 4


clients = [('c20_parse', U, {'expect': ['the value is exact', 'exactly the leading digits are consumed', 'failure only without a digit or above 2^64-1', 'no leading digit: failure']}),
           ('c20_any', W, {'expect': ['what is left is a suffix of the input']}),
           ('c20_number', U, {'expect': ['a number has all its digits, and only them', 'AppendNumberTo appends exactly the digits']}),
           ('c20_roundtrip', U, {'expect': ['a formatted number parses back to itself']}),
           ('c20_escape', U, {'expect': ['printable bytes are copied', 'with exactly two hexadecimal digits'], 'max_paths': 60000}),
           ('c20_escape_any', W, {'expect': ['reach:EscapeString']})]
explain = ('Parsing: any bytes, up to 24 of them, so any 64-bit value, overflow at every position and leading zeros; the parsed value and the digits are compared as exact integers, beyond 2^64.  '
           'Texts of any length are checked for bounds.  Formatting: every value in each of the 20 digit classes for length and buffer, representative values for the exact digits; '
           'every byte value escaped, alone and after a printable and a non-printable one.')
assumptions = ['exactness of parsing: inputs of at most 24 bytes (longer ones: memory safety and the suffix relation only)']
