"""Reference finite groups (lists of permutations) and their group algebras.

Products follow the convention of the library: (p * q)(i) = q(p(i)).
"""

from __future__ import annotations

import functools
import itertools
import math
from typing import Any, Sequence

import numpy as np
from hypothesis import strategies as st

from vlib import ff, util

Perm = tuple[int, ...]


def mul(p: Perm, q: Perm) -> Perm:
    return tuple(q[i] for i in p)


def inv(p: Perm) -> Perm:
    out = [0] * len(p)
    for i, j in enumerate(p):
        out[j] = i
    return tuple(out)


def closure(generators: Sequence[Any], product: Any = mul, limit: int = 10**5) -> list[Any]:
    """Close a set of hashable objects under products (finite groups only)."""
    found = list(dict.fromkeys(generators))
    seen = set(found)
    queue = list(found)
    while queue:
        fresh = []
        for a in queue:
            for g in generators:
                b = product(a, g)
                if b not in seen:
                    seen.add(b)
                    fresh.append(b)
                    found.append(b)
        assert len(found) <= limit
        queue = fresh
    return found


def cycle(start: int, length: int, size: int) -> Perm:
    out = list(range(size))
    for i in range(length):
        out[start + i] = start + (i + 1) % length
    return tuple(out)


def perm_of(member: Any, size: int) -> Perm:
    return tuple(int(member.apply(i)) if i < member.size else i for i in range(size))


def table_of(elements: Sequence[Any], product: Any = mul) -> list[list[int]]:
    index = {g: i for i, g in enumerate(elements)}
    return [[index[product(a, b)] for b in elements] for a in elements]


def element_order(p: Perm) -> int:
    seen: set[int] = set()
    order = 1
    for i in range(len(p)):
        length = 0
        while i not in seen:
            seen.add(i)
            i = p[i]
            length += 1
        if length:
            order = math.lcm(order, length)
    return order


####################################################################################################
# groups as generated cases: specs are JSON lists [kind, ...]


def spec_perms(spec: list) -> list[Perm]:
    """Generators of the reference group of a spec whose members are permutations."""
    kind, args = spec[0], spec[1:]
    if kind == "trivial":
        return [()]
    if kind == "cyclic":
        return [cycle(0, args[0], args[0])]
    if kind in ("abelian", "abelian_sum"):
        size = sum(args)
        starts = [sum(args[:i]) for i in range(len(args))]
        return [cycle(s, n, size) for s, n in zip(starts, args)]
    if kind == "perms":
        return [tuple(p) for p in args[0]]
    if kind == "product":
        left = spec_perms(args[0])
        right = spec_perms(args[1])
        a, b = len(left[0]), len(right[0])
        return [g + tuple(range(a, a + b)) for g in left] + [
            tuple(range(a)) + tuple(a + i for i in h) for h in right
        ]
    raise ValueError(spec)


def build(spec: list) -> Any:
    from qldpc import abstract

    kind, args = spec[0], spec[1:]
    if kind == "trivial":
        return abstract.TrivialGroup()
    if kind == "cyclic":
        return abstract.CyclicGroup(*args)
    if kind == "abelian":
        return abstract.AbelianGroup(*args)
    if kind == "abelian_sum":
        return abstract.AbelianGroup(*args, direct_sum=True)
    if kind == "dihedral":
        return abstract.DihedralGroup(*args)
    if kind == "alternating":
        return abstract.AlternatingGroup(*args)
    if kind == "symmetric":
        return abstract.SymmetricGroup(*args)
    if kind == "quaternion":
        return abstract.QuaternionGroup()
    if kind == "SL":
        return abstract.SpecialLinearGroup(*args)
    if kind == "PSL":
        return abstract.ProjectiveSpecialLinearGroup(*args)
    if kind == "perms":
        return abstract.Group(*[abstract.GroupMember(list(p)) for p in args[0]])
    if kind == "product":
        return build(args[0]) * build(args[1])
    raise ValueError(spec)


def known_order(spec: list) -> int | None:
    kind, args = spec[0], spec[1:]
    if kind == "trivial":
        return 1
    if kind == "cyclic":
        return args[0]
    if kind in ("abelian", "abelian_sum"):
        return math.prod(args)
    if kind == "dihedral":
        return 2 * args[0]
    if kind == "alternating":
        return max(1, math.factorial(args[0]) // 2)
    if kind == "symmetric":
        return math.factorial(args[0])
    if kind == "quaternion":
        return 8
    if kind in ("SL", "PSL"):
        d, q = args[0], args[1]
        order = math.prod(q**d - q**k for k in range(d)) // (q - 1)
        return order // (math.gcd(d, q - 1) if kind == "PSL" else 1)
    if kind == "product":
        orders = known_order(args[0]), known_order(args[1])
        return None if None in orders else orders[0] * orders[1]
    if kind == "perms":
        return len(closure([tuple(p) for p in args[0]]))
    return None


def lift_field(spec: list) -> int | None:
    """Order of the only field over which the lift is a representation, None if any will do."""
    return {"quaternion": 3, "SL": spec[-1]}.get(spec[0]) if spec[0] != "PSL" else psl_field(spec)


def psl_field(spec: list) -> int | None:
    d, q = spec[1], spec[2]
    return q if math.gcd(d, q - 1) == 1 else None


SMALL: list[list] = [
    ["trivial"],
    *[["cyclic", n] for n in range(1, 9)],
    *[["abelian", *o] for o in [(2, 2), (2, 3), (3, 2), (2, 4), (3, 3), (2, 2, 2), (1, 3), (1,)]],
    *[["abelian_sum", *o] for o in [(2, 2), (2, 3), (3, 3), (2, 2, 2)]],
    *[["dihedral", n] for n in range(1, 7)],
    ["symmetric", 3],
    ["symmetric", 2],
    ["alternating", 3],
    ["alternating", 4],
    ["quaternion"],
    ["SL", 2, 2],
    ["PSL", 2, 2],
    ["PSL", 2, 3],
    ["product", ["cyclic", 2], ["cyclic", 3]],
    ["product", ["symmetric", 3], ["cyclic", 2]],
]

NON_ABELIAN: list[list] = [
    ["dihedral", 3],
    ["dihedral", 4],
    ["dihedral", 5],
    ["symmetric", 3],
    ["quaternion"],
    ["alternating", 4],
    ["SL", 2, 2],
    ["product", ["symmetric", 3], ["cyclic", 2]],
]


def small_specs(max_order: int = 12) -> Any:
    fixed = [s for s in SMALL if known_order(s) <= max_order]
    random_perms = (
        st.integers(2, 4)
        .flatmap(lambda n: st.lists(st.permutations(list(range(n))), min_size=1, max_size=2))
        .map(lambda ps: ["perms", [list(p) for p in ps]])
        .filter(lambda s: known_order(s) <= max_order)
    )
    choices = [st.sampled_from(fixed), random_perms]
    if non_abelian := [s for s in fixed if s in NON_ABELIAN]:
        choices.append(st.sampled_from(non_abelian))
    return st.one_of(*choices)


####################################################################################################
# group algebras


class Algebra:
    """Reference group algebra: an element is a vector of coefficients (indices into a field)."""

    def __init__(self, elements: Sequence[Perm], q: int) -> None:
        self.elements = [tuple(e) for e in elements]
        self.index = {e: i for i, e in enumerate(self.elements)}
        self.n = len(self.elements)
        self.F = ff.get(q)
        self.q = q
        self.table = np.array(table_of(self.elements), dtype=int).reshape(self.n, self.n)
        size = len(self.elements[0])
        self.one_index = self.index[tuple(range(size))]
        self.inverse = [self.index[inv(e)] for e in self.elements]

    def one(self) -> np.ndarray:
        v = np.zeros(self.n, dtype=int)
        v[self.one_index] = 1
        return v

    def times(self, a: np.ndarray, b: np.ndarray) -> np.ndarray:
        """Convolution, by (a b)_g = sum over h k = g."""
        return self.F.matmul(self.left(a), np.asarray(b).reshape(-1, 1)).ravel()

    def left(self, a: np.ndarray) -> np.ndarray:
        """Matrix of b -> a b (on column vectors)."""
        out = np.zeros((self.n, self.n), dtype=int)
        for i, x in enumerate(a):
            out[self.table[i], np.arange(self.n)] = x
        return out

    def right(self, b: np.ndarray) -> np.ndarray:
        """Matrix of a -> a b (on column vectors)."""
        out = np.zeros((self.n, self.n), dtype=int)
        for j, x in enumerate(b):
            out[self.table[:, j], np.arange(self.n)] = x
        return out

    def transpose(self, a: np.ndarray) -> np.ndarray:
        out = np.zeros(self.n, dtype=int)
        for i, x in enumerate(a):
            out[self.inverse[i]] = x
        return out

    def matmul(self, a: np.ndarray, b: np.ndarray) -> np.ndarray:
        """Product of arrays of elements: shapes (r, m, n) and (m, c, n)."""
        r, m, _ = a.shape
        c = b.shape[1]
        out = np.zeros((r, c, self.n), dtype=int)
        for i, k, j in itertools.product(range(r), range(m), range(c)):
            out[i, j] = self.F.plus(out[i, j], self.times(a[i, k], b[k, j]))
        return out

    def array_transpose(self, a: np.ndarray) -> np.ndarray:
        out = np.zeros((a.shape[1], a.shape[0], self.n), dtype=int)
        for i, j in np.ndindex(a.shape[0], a.shape[1]):
            out[j, i] = self.transpose(a[i, j])
        return out

    def block_left(self, a: np.ndarray) -> np.ndarray:
        """Matrix of v -> a v on column vectors of elements, flattened."""
        rows, cols = a.shape[:2]
        out = np.zeros((rows * self.n, cols * self.n), dtype=int)
        for i, j in np.ndindex(rows, cols):
            out[i * self.n : (i + 1) * self.n, j * self.n : (j + 1) * self.n] = self.left(a[i, j])
        return out

    def left_span(self, rows: np.ndarray) -> np.ndarray:
        """Field vectors spanning the left module generated by rows of elements."""
        r, c, _ = rows.shape
        out = np.zeros((r * self.n, c * self.n), dtype=int)
        for i in range(r):
            for g in range(self.n):
                e = np.zeros(self.n, dtype=int)
                e[g] = 1
                out[i * self.n + g] = np.concatenate(
                    [self.times(e, rows[i, j]) for j in range(c)] or [np.zeros(0, dtype=int)]
                )
        return out

    def unit(self, a: np.ndarray) -> bool:
        return self.F.rank(self.left(a)) == self.n

    @functools.lru_cache(maxsize=None)
    def center_basis(self) -> np.ndarray:
        """Class sums."""
        rows, seen = [], set()
        for i in range(self.n):
            if i in seen:
                continue
            orbit = {self.table[self.table[h, i], self.inverse[h]] for h in range(self.n)}
            seen |= orbit
            row = np.zeros(self.n, dtype=int)
            row[list(orbit)] = 1
            rows.append(row)
        return np.array(rows)

    @functools.lru_cache(maxsize=None)
    def primitive_central_idempotents(self) -> list[tuple[int, ...]]:
        """Primitive central idempotents of a semisimple algebra, by exhaustive search."""
        center = self.center_basis()
        # elements with z^q = z form a subalgebra spanned by the primitive idempotents
        images = []
        for row in center:
            power = row
            for _ in range(self.q - 1):
                power = self.times(power, row)
            images.append(self.F.minus(power, row))
        combos = self.F.null_space(np.array(images).T)
        fixed = self.F.matmul(combos, center)
        assert self.q ** len(fixed) <= 5000, "too large"
        idempotents = []
        for coeffs in itertools.product(range(self.q), repeat=len(fixed)):
            v = self.F.matmul(np.array([coeffs]), fixed)[0]
            if v.any() and np.array_equal(self.times(v, v), v):
                idempotents.append(v)
        primitive = []
        for e in idempotents:
            parts = [f for f in idempotents if np.array_equal(self.times(e, f), f)]
            if len(parts) == 1:
                primitive.append(tuple(int(x) for x in e))
        return sorted(primitive)


def algebra(group: Any, q: int) -> Algebra:
    """Reference algebra, with members in the order in which the group enumerates them."""
    members = list(group.generate())
    size = max([m.size for m in members] + [0])
    return Algebra([perm_of(m, size) for m in members], q)


def member_of(group: Any, index: int) -> Any:
    return list(group.generate())[index]


def vec(x: Any) -> np.ndarray:
    return util.ints(x.to_vector())
