"""Sort descriptors used by contracts (no solver import: also loaded by the replay interpreter)."""


class Sort:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return type(self).__name__


class IntS(Sort):
    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi


class RealS(Sort):
    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi


class BoolS(Sort):
    pass


class EnumS(Sort):
    def __init__(self, *values):
        self.values = tuple(values)


class ConstS(Sort):
    def __init__(self, value):
        self.value = value


class OneOf(Sort):
    """case split: each alternative is verified separately"""

    def __init__(self, *alts):
        self.alts = alts


class ArrS(Sort):
    """numpy array; None in shape = arbitrary length >= minlen"""

    def __init__(self, shape, kind="f", lo=None, hi=None, minlen=0):
        self.shape = shape if isinstance(shape, tuple) else (shape,)
        self.kind, self.lo, self.hi, self.minlen = kind, lo, hi, minlen


class PairS(Sort):
    """a window given as a list or array of two integers"""

    def __init__(self, lo=None, hi=None, aslist=False):
        self.lo, self.hi, self.aslist = lo, hi, aslist


class AffineS(Sort):
    """np.arange(start, start + n), n >= minlen"""

    def __init__(self, minlen=0):
        self.minlen = minlen


class SliceS(Sort):
    pass


class ListS(Sort):
    def __init__(self, elt, minlen=0):
        self.elt, self.minlen = elt, minlen


class FixedListS(Sort):
    def __init__(self, *elts):
        self.elts = elts


class StrS(Sort):
    pass


class ObjS(Sort):
    """instance of a repository class with the attributes of its schema"""

    def __init__(self, cls, **over):
        self.cls = cls
        self.over = over


class ObjListS(Sort):
    """list of arbitrary length of references to instances of a repository class"""

    def __init__(self, cls, minlen=0):
        self.cls, self.minlen = cls, minlen


class OwnerS(Sort):
    """the object in whose list the element was found (an arbitrary instance of cls otherwise)"""

    def __init__(self, cls):
        self.cls = cls


class DateS(Sort):
    """datetime at midnight (days=True) or date"""

    def __init__(self, is_date=False):
        self.is_date = is_date


class DateIndexS(Sort):
    """pd.DatetimeIndex from a midnight on, step minutes apart"""

    def __init__(self, minlen=1, step=1440):
        self.minlen, self.step = minlen, step


class AnyS(Sort):
    """opaque value, never inspected"""


class NoneS(Sort):
    pass


class OptDictS(Sort):
    """keyword dictionary: each key present or absent"""

    def __init__(self, **keys):
        self.keys = keys


class TupleS(Sort):
    def __init__(self, *elts):
        self.elts = elts


class MaybeS(Sort):
    def __init__(self, elt):
        self.elt = elt


class FrameS(Sort):
    """pd.DataFrame of numbers"""

    def __init__(self, minrows=1, mincols=1, labels=None):
        self.minrows, self.mincols, self.labels = minrows, mincols, labels


class IndexS(Sort):
    """a pandas index"""


class ElemS(Sort):
    """any instance of a repository class, possibly one that lists refer to"""

    def __init__(self, cls):
        self.cls = cls


class CellsS(Sort):
    """a table of cells that may be blank; columns: name -> 'i' whole number, 'f' number, 's' text, 'p' number or text"""

    def __init__(self, columns, keys=()):
        self.columns, self.keys = columns, keys
