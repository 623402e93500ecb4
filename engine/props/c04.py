from posixspec import *

TECH = 'contract obligations: result pointer compared with the status on every path, uninitialised-value tracking'
witness = ['w_factory.cc']


class S(PosixSpec):
    """only the pointers handed out matter here"""
    contracts = True

    def mem_rule(self, st, what, msg):
        if what in ('uninitialised', 'null-dereference'):
            self.report(st, what, msg)


_x = ['OK with an object', 'non-OK with a null pointer']
clients = [('f_posix', S, {'expect': _x}), ('f_memenv', S, {'expect': _x}), ('f_base', S, {'expect': ['non-OK with a null pointer']})]
explain = ('Each factory of the default environment, of the in-memory environment (any earlier contents) and of the base class (an environment that overrides only the pure virtual '
           'operations), with the result pointer left uninitialised by the caller: on every path OK implies a non-null live object (it is then destroyed through its virtual destructor) and non-OK a stored null.')
