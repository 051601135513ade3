"""Term classes for registration, also by dotted name"""
from . import boot
from metatab.terms import Term


class T0(Term):
    pass


class T1(Term):
    kind = 'one'


class T2(T1):
    pass


class T3(Term):
    def describe(self):
        return 'T3 ' + str(self.value)


class T4(Term):
    pass


ALL = [T0, T1, T2, T3, T4]
