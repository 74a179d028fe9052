"""Small combinatorial classes and strategies used by the harnesses."""
# pylint: disable=all
from symex import env  # noqa: F401

from comb_spec_searcher import CombinatorialClass
from comb_spec_searcher.strategies.strategy import Strategy


class PlainClass(CombinatorialClass):
    """A class without structure, identified by a number."""

    def __init__(self, ident, empty=False):
        self.ident = ident
        self.empty = empty

    def is_empty(self):
        return self.empty

    def is_atom(self):
        return False

    def minimum_size_of_object(self):
        return 0

    def objects_of_size(self, n, **parameters):
        return iter(())

    def to_bytes(self):
        raise NotImplementedError

    def to_jsonable(self):
        d = super().to_jsonable()
        d["ident"] = self.ident
        d["empty"] = self.empty
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["ident"], d["empty"])

    def __eq__(self, o):
        return isinstance(o, PlainClass) and self.ident == o.ident

    def __hash__(self):
        return hash(self.ident)

    def __str__(self):
        return f"C{self.ident}"

    __repr__ = __str__


class ShiftStrategy(Strategy):
    """A strategy declaring arbitrary children and shifts (for the forest)."""

    def __init__(self, children, shifts, tag=0):
        super().__init__(possibly_empty=False)
        self.kids = children
        self.shs = shifts
        self.tag = tag

    def decomposition_function(self, comb_class):
        return self.kids

    def can_be_equivalent(self):
        return False

    def is_two_way(self, comb_class):
        return False

    def is_reversible(self, comb_class):
        return False

    def shifts(self, comb_class, children=None):
        return self.shs

    def constructor(self, comb_class, children=None):
        raise NotImplementedError

    def reverse_constructor(self, idx, comb_class, children=None):
        raise NotImplementedError

    def formal_step(self):
        return f"shift strategy {self.tag}"

    def backward_map(self, comb_class, objs, children=None):
        raise NotImplementedError

    def forward_map(self, comb_class, obj, children=None):
        raise NotImplementedError

    @classmethod
    def from_dict(cls, d):
        raise NotImplementedError


class GeneralStrategy(ShiftStrategy):
    """
    Children as given; two-way or not when it has one child, in which case it
    counts as an equivalence.
    """

    def __init__(self, children, two_way, tag=0):
        super().__init__(children, tuple(0 for _ in children), tag)
        self.two_way = two_way

    def can_be_equivalent(self):
        return True

    def is_two_way(self, comb_class):
        return self.two_way

    def is_reversible(self, comb_class):
        return self.two_way


from comb_spec_searcher.strategies.strategy import VerificationStrategy  # noqa: E402


class PlainVerification(VerificationStrategy):
    def __init__(self, tag=0):
        super().__init__(ignore_parent=True)
        self.tag = tag

    def verified(self, comb_class):
        return True

    def formal_step(self):
        return "verified"

    @classmethod
    def from_dict(cls, d):
        return cls(**d)
