"""Module-level classes for C21 (pickle finds classes by name)."""
from pyrsistent import immutable


class Nothing(immutable()):
    pass


class One(immutable('x')):
    pass


class Two(immutable('x, id_')):
    pass


class Three(immutable(['a', 'b', 'c_'], name='Whatever')):
    __slots__ = ()


class Sub(Three):
    pass


CLASSES = [Nothing, One, Two, Three, Sub]
