"""C15: ClassDB is a stable bijection with dense labels."""
from symex.engine import SymInt
from symex.run import Harness
from symex import env  # noqa: F401

from comb_spec_searcher import CombinatorialClass
from comb_spec_searcher.class_db import ClassDB

BUDGET = {"quick": 90, "thorough": 600}

ASSUMPTIONS = [
    "classes have consistent __eq__/__hash__ and, when compressed, to_bytes/from_bytes that "
    "round-trip (equal classes give equal bytes) - the documented contract",
    "set_empty is only called with the class's own answer",
    "number of operations and of distinct classes bounded as stated",
]


class Cls(CombinatorialClass):
    """Identified by a (symbolic) number; empty when below a (symbolic) threshold."""

    THRESHOLD = 0

    def __init__(self, ident):
        self.ident = ident

    def is_empty(self):
        return bool(self.ident < Cls.THRESHOLD)

    def __eq__(self, o):
        return isinstance(o, Cls) and bool(self.ident == o.ident)

    SAME_HASH = False

    def __hash__(self):
        return 1 if Cls.SAME_HASH else hash(self.ident)

    def __repr__(self):
        return f"Cls({self.ident})"

    __str__ = __repr__

    def minimum_size_of_object(self):
        return 0

    def objects_of_size(self, n, **kw):
        return iter(())

    def is_atom(self):
        return False

    @classmethod
    def from_dict(cls, d):
        return cls(d["ident"])

    def to_bytes(self):
        raise NotImplementedError


class ByteCls(Cls):
    def to_bytes(self):
        i = int(self.ident)
        return b"%d-" % i + b"x" * i

    @classmethod
    def from_bytes(cls, b):
        n = int(b.split(b"-")[0])
        assert len(b.split(b"-")[1]) == n
        return cls(n)


class JsonCls(ByteCls):
    """Compressed by the library's default to_bytes/from_bytes hooks (if any)."""


class Junk:
    pass


OPS = ("label", "label_of_label", "class", "class_of_label", "in", "label_in",
       "junk_in", "empty", "empty_label", "set_empty", "iter")


def h_history(E, K, N, kind, ops):
    cls = {"plain": Cls, "bytes": ByteCls}[kind]
    Cls.THRESHOLD = E.int("threshold", *((0, N) if kind == "bytes" else (None, None)))
    Cls.SAME_HASH = kind == "bytes" and E.choose("all hashes equal", (True, False))
    idents = []
    for i in range(N):
        if kind == "plain":
            idents.append(E.int(f"ident{i}"))  # any integers, pairwise distinct
        else:
            idents.append(i)
    if kind == "plain":
        for i in range(N):
            for j in range(i):
                E.assume(idents[i] != idents[j])
    db = ClassDB(cls)
    order = []  # model: idents in order of first appearance

    def fresh(i):
        return cls(idents[i])  # always a new, equal instance

    used = 0

    def pick(k):
        nonlocal used
        i = int(E.int(f"c{k}", 0, min(used, N - 1)))
        used = max(used, i + 1)
        return i

    def known_label(k):
        return int(E.int(f"l{k}", 0, len(order) - 1))

    for k in range(K):
        op = E.choose(f"op{k}", ops)
        if op in ("label", "class", "in", "empty", "empty_label", "set_empty"):
            i = pick(k)
            c = fresh(i)
            if op == "label":
                lab = db.get_label(c)
                if i not in order:
                    order.append(i)
                    E.cover("new label")
                E.check(lab == order.index(i), f"label of class {i} is {lab}, order {order}")
                E.cover("label")
            elif op == "class":
                got = db.get_class(c)
                if i not in order:
                    order.append(i)
                E.check(isinstance(got, cls) and got == c, "get_class(class) differs")
            elif op == "in":
                E.check((c in db) is (i in order), f"membership of class {i} in {order}")
            elif op == "empty":
                ans = db.is_empty(c)
                E.check(bool(ans) == c.is_empty(), f"is_empty of class {i}, order {order}")
                if i not in order and c in db:
                    order.append(i)  # the query is allowed to label the class
                E.cover("emptiness")
            elif op == "empty_label":
                lab = db.get_label(c)
                if i not in order:
                    order.append(i)
                E.check(lab == order.index(i), "label")
                E.check(bool(db.is_empty(c, lab)) == c.is_empty(), "is_empty(class, label)")
            else:
                db.set_empty(c, c.is_empty())
                if i not in order:
                    order.append(i)
        elif op in ("label_of_label", "class_of_label"):
            lab = E.int(f"l{k}", -2, len(order) + 1)
            inside = bool(lab >= 0) and bool(lab < len(order))
            try:
                got = db.get_label(lab) if op == "label_of_label" else db.get_class(lab)
            except (KeyError, IndexError):
                E.check(not inside, f"label {lab} of {len(order)} classes not found")
                E.cover("unknown label")
            else:
                E.check(inside, f"[unknown-label] lookup of unknown label {lab} returned {got}")
                if op == "label_of_label":
                    E.check(got == lab, "label of a label")
                else:
                    E.check(got == fresh(order[int(lab)]), "class of a label")
                    E.cover("class of label")
        elif op == "label_in":
            lab = E.int(f"l{k}", -2, len(order) + 1)
            inside = bool(lab >= 0) and bool(lab < len(order))
            E.check((lab in db) is inside, f"[label-membership] membership of label {lab} of {len(order)}")
        elif op == "junk_in":
            junk = E.choose(f"junk{k}", ["x", None, 1.5, Junk(), (0,), b"ab"])
            E.check((junk in db) is False, f"membership of {junk!r}")
            E.cover("junk")
        elif op == "iter":
            E.check(sorted(db) == list(range(len(order))), "iteration over labels")
    # finally: everything is as recorded
    for pos, i in enumerate(order):
        E.check(db.get_label(fresh(i)) == pos, "final label")
        E.check(db.get_class(pos) == fresh(i), "final class")
        E.check(pos in db and fresh(i) in db, "final membership")
        E.check(bool(db.is_empty(fresh(i), pos)) == fresh(i).is_empty(), "final emptiness")
    E.check(len(order) not in db and -1 not in db, "membership of an unknown label")
    E.feasible()


def harnesses(tier):
    n = 0 if tier == "quick" else 1
    cov = ("new label", "emptiness", "class of label", "unknown label", "junk")
    return [
        Harness("small", h_history, "2 operations of all kinds over 2 classes with arbitrary "
                "integer identity (symbolic), labels -2..n+1",
                params=dict(K=2, N=2, kind="plain", ops=OPS), relational=True, weight=8, replay_every=3),
        Harness("small-compressed", h_history, "2 operations of all kinds over 2 byte-compressed classes",
                params=dict(K=2, N=2, kind="bytes", ops=OPS), weight=8, replay_every=3),
        Harness("plain", h_history, f"{4+n} operations of all kinds over 3 classes with arbitrary "
                "integer identity (symbolic), labels -2..n+1",
                params=dict(K=4 + n, N=3, kind="plain", ops=OPS), relational=True, weight=4,
                covers=cov, replay_every=3),
        Harness("compressed", h_history, f"{4+n} operations of all kinds over 3 byte-compressed classes",
                params=dict(K=4 + n, N=3, kind="bytes", ops=OPS), weight=4, covers=cov, replay_every=3),
        Harness("long", h_history, f"{10+n} operations of all kinds over 6 classes with arbitrary "
                "integer identity (symbolic), labels -2..n+1",
                params=dict(K=10 + n, N=6, kind="plain", ops=OPS), relational=True, weight=2,
                replay_every=3),
        Harness("long-compressed", h_history, f"{10+n} operations of all kinds over 6 byte-compressed classes",
                params=dict(K=10 + n, N=6, kind="bytes", ops=OPS), weight=2, replay_every=3),
        Harness("lookups", h_history, f"{7+n} label/class lookups and emptiness queries over 5 classes",
                params=dict(K=7 + n, N=5, kind="plain", ops=("label", "empty", "class_of_label")),
                relational=True, weight=2, replay_every=3),
        Harness("lookups-compressed", h_history,
                f"{7+n} label/class lookups and emptiness queries over 5 compressed classes",
                params=dict(K=7 + n, N=5, kind="bytes", ops=("label", "empty", "class_of_label")),
                weight=2, replay_every=3),
    ]
