"""Option strings with an unknown value.

A symbolic option is a string about which only equality with constants can be asked; it is encoded as a real code, the
i-th constant of a fixed pool having code i and any other code standing for a string outside the pool.  The pool is taken
from the documented values and from every string constant of the sources under test.
"""
import ast
import os
from .core import Unsupported, S

_POOLS = {}


def constants(files):
    """String constants of the sources, sorted."""
    key = tuple(files)
    if key not in _POOLS:
        out = set()
        for f in files:
            if os.path.exists(f):
                with open(f) as h:
                    tree = ast.parse(h.read())
                out |= {n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) <= 40 and '\n' not in n.value and ' ' not in n.value}
        _POOLS[key] = sorted(out)
    return _POOLS[key]


def _unsupported(name):
    def f(self, *a, **k):
        raise Unsupported(f'str.{name} of an unknown option value')
    return f


class SymStr(str):
    """A string with an unknown value."""

    def __new__(cls, code, pool):
        s = str.__new__(cls, '<option>')
        s.code, s.pool = code, pool
        s.index = {v: i for i, v in enumerate(pool)}
        return s

    def is_(self, o):
        if o is self:
            return True
        if isinstance(o, SymStr):
            return bool(self.code == o.code)
        if not isinstance(o, str) or o not in self.index:
            return False
        return bool(self.code == float(self.index[str(o)]))

    def __eq__(self, o):
        return self.is_(o)

    def __ne__(self, o):
        return not self.is_(o)

    def __hash__(self):
        for v in self.pool:
            if self.is_(v):
                return hash(v)
        return hash(('unlisted', id(self)))

    def __bool__(self):
        return not self.is_('')

    def __str__(self):
        return '<option>'

    def __repr__(self):
        return '<option>'

    def __format__(self, spec):
        return '<option>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


for _n in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'split', 'replace', 'casefold', 'title', 'capitalize', 'find',
           'join', 'encode', 'partition', 'rpartition', 'removeprefix', 'removesuffix', '__contains__', '__len__', '__iter__', '__getitem__',
           '__lt__', '__le__', '__gt__', '__ge__'):
    setattr(SymStr, _n, _unsupported(_n))
