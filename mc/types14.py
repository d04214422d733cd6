"""Module-level classes for C14 (pickle finds classes by name)."""
from pyrsistent import (CheckedPMap, CheckedPSet, CheckedPVector, CheckedType, PClass, PRecord, field, optional, pmap_field, pset_field,
                        pvector_field)

CALLS = []          # factory calls
SERIAL = []         # (which serializer, format)


class Box(object):
    """Mutable, compares by contents."""

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return type(o) is Box and self.x == o.x

    def __hash__(self):
        return hash(('box', self.x))

    def __repr__(self):
        return 'Box(%r)' % (self.x,)


def plus_one(x):
    CALLS.append('plus_one')
    return x + 1


def to_str(x):
    CALLS.append('to_str')
    return 's%s' % (x,)


def non_negative(x):
    return x >= 0, 'negative'


# -- checked collections ------------------------------------------------------------------
class CV(CheckedPVector):
    pass


class CVI(CheckedPVector):
    __type__ = int
    __invariant__ = non_negative


class CVISub(CVI):
    pass


class CVISubSub(CVISub):
    pass


class CVOpt(CheckedPVector):
    __type__ = optional(int)


class CVMany(CheckedPVector):
    __type__ = (int, str)


class CVNamed(CheckedPVector):
    __type__ = 'types14.Rec'


class CVV(CheckedPVector):
    __type__ = CVI


class CS(CheckedPSet):
    pass


class CSI(CheckedPSet):
    __type__ = int
    __invariant__ = non_negative


class CSISub(CSI):
    pass


class CSV(CheckedPSet):
    __type__ = CVI


class CM(CheckedPMap):
    pass


class CMI(CheckedPMap):
    __key_type__ = int
    __value_type__ = str
    __invariant__ = lambda k, v: (k >= 0 and v != '', 'bad item')


class CMISub(CMI):
    pass


# -- records and classes ------------------------------------------------------------------
class Rec(PRecord):
    n = field(type=int)
    k = field()


class Cls(PClass):
    n = field(type=int)
    k = field()


class CVRec(CheckedPVector):
    __type__ = Rec


class CVCls(CheckedPVector):
    __type__ = Cls


class CSCls(CheckedPSet):
    __type__ = Cls


class CMRec(CheckedPMap):
    __key_type__ = str
    __value_type__ = Rec


class CMVec(CheckedPMap):
    __key_type__ = str
    __value_type__ = CVI


class CMKey(CheckedPMap):
    __key_type__ = Cls
    __value_type__ = int


class Tag(CheckedType):
    """A checked type of the user's own, with a hashable serialized form."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return type(o) is Tag and self.n == o.n

    def __hash__(self):
        return hash(('tag', self.n))

    def __repr__(self):
        return 'Tag(%r)' % (self.n,)

    @classmethod
    def create(cls, source_data, _factory_fields=None, ignore_extra=False):
        return source_data if isinstance(source_data, cls) else cls(int(source_data[3:]))

    def serialize(self, format=None):
        return 'tag%d' % self.n


class CVTag(CheckedPVector):
    __type__ = Tag


class CSTag(CheckedPSet):
    __type__ = Tag


class CMTagKey(CheckedPMap):
    __key_type__ = Tag


class CMTagVal(CheckedPMap):
    __value_type__ = Tag


class CMTag(CheckedPMap):
    __key_type__ = Tag
    __value_type__ = Tag


class CMTagVec(CheckedPMap):
    __key_type__ = Tag
    __value_type__ = CVTag


class TagRec(PRecord):
    a = field(type=Tag)
    b = field(type=CMTag)
    c = pvector_field(Tag)
    d = pset_field(Tag)
    e = pmap_field(Tag, Tag)


class TagCls(PClass):
    a = field(type=Tag)
    b = field(type=CMTag)
    c = pvector_field(Tag)
    d = pset_field(Tag)
    e = pmap_field(Tag, Tag)


class FacRec(PRecord):
    a = field(type=int, factory=plus_one, invariant=lambda x: (x > 0, 'a'))
    b = field(factory=to_str, mandatory=True)
    __invariant__ = lambda r: (r.get('a') != 77, 'seventy-seven')


class FacRecSub(FacRec):
    c = field()


class FacCls(PClass):
    a = field(type=int, factory=plus_one, invariant=lambda x: (x > 0, 'a'))
    b = field(factory=to_str, mandatory=True)
    __invariant__ = lambda r: (getattr(r, 'a', 0) != 77, 'seventy-seven')


class FacClsSub(FacCls):
    c = field()


class DefRec(PRecord):
    x = field(initial=1, factory=plus_one)
    y = field(initial=lambda: 5)
    z = field(type=optional(int))


class DefCls(PClass):
    x = field(initial=1, factory=plus_one)
    y = field(initial=lambda: 5)
    z = field(type=optional(int))


class ColRec(PRecord):
    xs = pvector_field(int, invariant=lambda x: (x is None or len(x) < 5, 'long'), optional=True)
    ss = pset_field(int)
    ms = pmap_field(str, int)
    rs = pvector_field(Rec)
    one = field(type=Rec)
    cv = field(type=CVI)
    opt = field(type=optional(Cls))


class ColCls(PClass):
    xs = pvector_field(int, invariant=lambda x: (x is None or len(x) < 5, 'long'), optional=True)
    ss = pset_field(int)
    ms = pmap_field(str, int)
    rs = pvector_field(Rec)
    one = field(type=Cls)
    cv = field(type=CVI)
    opt = field(type=optional(Rec))


class Loose(PRecord):
    any = field()


class LooseCls(PClass):
    any = field()


# -- serializers --------------------------------------------------------------------------
def ser(tag):
    def f(format, value):
        SERIAL.append((tag, format))
        return (tag, format, value)
    return f


class SVec(CheckedPVector):
    def __serializer__(self, format, value):
        return ('SVec', format, value)


class SVecSub(SVec):
    pass


class SVecSubSub(SVecSub):
    __type__ = int


class SVecOver(SVecSub):
    def __serializer__(self, format, value):
        return ('SVecOver', format, value)


class SSet(CheckedPSet):
    def __serializer__(self, format, value):
        return ('SSet', format, value)


class SSetSub(SSet):
    pass


class SSetSubSub(SSetSub):
    __type__ = int


class SSetOver(SSetSub):
    def __serializer__(self, format, value):
        return ('SSetOver', format, value)


class SMap(CheckedPMap):
    def __serializer__(self, format, key, value):
        return ('SMap', format, key), value


class SMapSub(SMap):
    pass


class SMapSubSub(SMapSub):
    __key_type__ = int


class SMapOver(SMapSub):
    def __serializer__(self, format, key, value):
        return ('SMapOver', format, key), value


class SRec(PRecord):
    a = field(serializer=ser('a'))
    b = field(type=CVI, serializer=ser('b'))
    c = field()
    d = field(type=Rec)


class SRecSub(SRec):
    e = field(serializer=ser('e'))


class SRecSubSub(SRecSub):
    a = field(serializer=ser('a2'))


class SCls(PClass):
    a = field(serializer=ser('a'))
    b = field(type=CVI, serializer=ser('b'))
    c = field()
    d = field(type=Rec)


class SClsSub(SCls):
    e = field(serializer=ser('e'))


class SClsSubSub(SClsSub):
    a = field(serializer=ser('a2'))


class InnerRec(PRecord):
    q = field(type=int, serializer=lambda format, x: (format, x) if format else x)


class InnerCls(PClass):
    q = field(type=int, serializer=lambda format, x: (format, x) if format else x)


class OuterRec(PRecord):
    i = field(type=InnerRec)
    j = field(type=InnerCls)


class OuterCls(PClass):
    i = field(type=InnerRec)
    j = field(type=InnerCls)
