"""Reference linear algebra over small finite fields, independent of the code under test.

Field elements are integers 0..q-1 in the standard (galois) integer representation: an element of
F_{p^m} is the integer whose base-p digits are the coefficients of a polynomial over F_p, which are
multiplied modulo the Conway polynomial of F_{p^m}.
"""

from __future__ import annotations

import functools
import itertools
from typing import Any

import numpy as np

# coefficients of Conway polynomials, highest degree first
CONWAY = {
    4: (2, [1, 1, 1]),
    8: (2, [1, 0, 1, 1]),
    16: (2, [1, 0, 0, 1, 1]),
    9: (3, [1, 2, 2]),
    27: (3, [1, 0, 2, 1]),
    25: (5, [1, 4, 2]),
}
PRIMES = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31)


class Field:
    def __init__(self, q: int) -> None:
        self.q = q
        if q in PRIMES:
            self.p, self.m = q, 1
            values = np.arange(q)
            self.add = (values[:, None] + values) % q
            self.mul = (values[:, None] * values) % q
        else:
            self.p, poly = CONWAY[q]
            self.m = len(poly) - 1
            self.add = np.zeros((q, q), dtype=int)
            self.mul = np.zeros((q, q), dtype=int)
            digits = [self._digits(a) for a in range(q)]
            for a in range(q):
                for b in range(q):
                    total = [(x + y) % self.p for x, y in zip(digits[a], digits[b])]
                    self.add[a, b] = self._number(total)
                    prod = [0] * (2 * self.m - 1)
                    for i, x in enumerate(digits[a]):
                        for j, y in enumerate(digits[b]):
                            prod[i + j] = (prod[i + j] + x * y) % self.p
                    for top in range(2 * self.m - 2, self.m - 1, -1):
                        lead = prod[top]
                        for k, coeff in enumerate(reversed(poly)):
                            index = top - self.m + k
                            prod[index] = (prod[index] - lead * coeff) % self.p
                    self.mul[a, b] = self._number(prod[: self.m])
        self.neg = np.array([int(np.nonzero(self.add[a] == 0)[0][0]) for a in range(q)])
        self.inv = np.array([0] + [int(np.nonzero(self.mul[a] == 1)[0][0]) for a in range(1, q)])

    def _digits(self, number: int) -> list[int]:
        out = []
        for _ in range(self.m):
            out.append(number % self.p)
            number //= self.p
        return out

    def _number(self, digits: list[int]) -> int:
        return sum(d * self.p**i for i, d in enumerate(digits))

    # ---------------------------------------------------------------------------------------------
    # arrays

    def arr(self, x: Any) -> np.ndarray:
        return np.array(x, dtype=int)

    def plus(self, a: Any, b: Any) -> np.ndarray:
        return self.add[self.arr(a), self.arr(b)]

    def minus(self, a: Any, b: Any) -> np.ndarray:
        return self.add[self.arr(a), self.neg[self.arr(b)]]

    def times(self, a: Any, b: Any) -> np.ndarray:
        return self.mul[self.arr(a), self.arr(b)]

    def matmul(self, a: Any, b: Any) -> np.ndarray:
        a, b = self.arr(a), self.arr(b)
        if self.m == 1:
            return (a @ b) % self.p
        squeeze_a, squeeze_b = a.ndim == 1, b.ndim == 1
        a2 = a[None, :] if squeeze_a else a
        b2 = b[:, None] if squeeze_b else b
        out = np.zeros((a2.shape[0], b2.shape[1]), dtype=int)
        for k in range(a2.shape[1]):
            out = self.add[out, self.mul[a2[:, k][:, None], b2[k][None, :]]]
        if squeeze_a:
            out = out[0]
        if squeeze_b:
            out = out[..., 0]
        return out

    def rref(self, mat: Any, keep_zero: bool = False) -> np.ndarray:
        mat = self.arr(mat).copy()
        assert mat.ndim == 2
        row = 0
        for col in range(mat.shape[1]):
            if row == mat.shape[0]:
                break
            candidates = np.nonzero(mat[row:, col])[0]
            if not len(candidates):
                continue
            pivot = row + int(candidates[0])
            if pivot != row:
                mat[[row, pivot]] = mat[[pivot, row]]
            mat[row] = self.mul[self.inv[mat[row, col]], mat[row]]
            for other in np.nonzero(mat[:, col])[0]:
                if other != row:
                    mat[other] = self.add[
                        mat[other], self.mul[self.neg[mat[other, col]], mat[row]]
                    ]
            row += 1
        return mat if keep_zero else mat[:row]

    def rank(self, mat: Any) -> int:
        mat = self.arr(mat)
        if mat.size == 0:
            return 0
        return len(self.rref(mat))

    def null_space(self, mat: Any) -> np.ndarray:
        """Rows form a basis of {x : mat @ x = 0}."""
        mat = self.arr(mat)
        num_cols = mat.shape[1]
        reduced = self.rref(mat)
        pivots = [int(np.nonzero(r)[0][0]) for r in reduced]
        free = [c for c in range(num_cols) if c not in set(pivots)]
        out = np.zeros((len(free), num_cols), dtype=int)
        for i, col in enumerate(free):
            out[i, col] = 1
            for r, p in enumerate(pivots):
                out[i, p] = self.neg[reduced[r, col]]
        return out

    def inverse(self, mat: Any) -> np.ndarray:
        mat = self.arr(mat)
        n = len(mat)
        full = self.rref(np.hstack([mat, np.eye(n, dtype=int)]), keep_zero=True)
        assert np.array_equal(full[:, :n], np.eye(n, dtype=int)), "singular"
        return full[:, n:]

    def kron(self, a: Any, b: Any) -> np.ndarray:
        a, b = self.arr(a), self.arr(b)
        out = self.mul[a[:, None, :, None], b[None, :, None, :]]
        return out.reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])

    def same_span(self, a: Any, b: Any) -> bool:
        a, b = self.arr(a), self.arr(b)
        ra, rb = self.rref(a), self.rref(b)
        return ra.shape == rb.shape and np.array_equal(ra, rb)

    def in_span(self, vectors: Any, basis: Any) -> bool:
        basis = self.arr(basis)
        both = np.vstack([basis, np.atleast_2d(self.arr(vectors))])
        return self.rank(both) == self.rank(basis)

    def solve(self, mat: Any, rhs: Any) -> np.ndarray | None:
        """Some x with mat @ x = rhs, or None."""
        mat, rhs = self.arr(mat), self.arr(rhs)
        full = self.rref(np.hstack([mat, rhs[:, None]]))
        x = np.zeros(mat.shape[1], dtype=int)
        for r in full:
            pivot = int(np.nonzero(r)[0][0])
            if pivot == mat.shape[1]:
                return None
            x[pivot] = r[-1]
        return x

    def all_vectors(self, length: int) -> np.ndarray:
        """All q**length vectors, in lexicographic order."""
        if length == 0:
            return np.zeros((1, 0), dtype=int)
        index = np.arange(self.q**length)
        cols = [(index // self.q ** (length - 1 - j)) % self.q for j in range(length)]
        return np.stack(cols, axis=1)

    def span(self, basis: Any) -> np.ndarray:
        """All linear combinations of the given rows."""
        basis = self.arr(basis)
        return self.matmul(self.all_vectors(len(basis)), basis)

    # ---------------------------------------------------------------------------------------------
    # symplectic structure: vectors [x | z]

    def symp(self, a: Any, b: Any) -> np.ndarray:
        """Matrix of symplectic products <a_i, b_j> = a_x.b_z - a_z.b_x."""
        a, b = np.atleast_2d(self.arr(a)), np.atleast_2d(self.arr(b))
        n = a.shape[1] // 2
        return self.minus(self.matmul(a[:, :n], b[:, n:].T), self.matmul(a[:, n:], b[:, :n].T))

    def symp_complement(self, a: Any) -> np.ndarray:
        """Basis of all v with <a_i, v> = 0."""
        a = self.arr(a)
        n = a.shape[1] // 2
        dual = np.hstack([self.neg[a[:, n:]], a[:, :n]])
        return self.null_space(dual)

    def symp_weight(self, vecs: Any) -> np.ndarray:
        vecs = np.atleast_2d(self.arr(vecs))
        n = vecs.shape[1] // 2
        return np.count_nonzero((vecs[:, :n] != 0) | (vecs[:, n:] != 0), axis=1)

    def center(self, gauge: Any) -> np.ndarray:
        """Basis of the stabilizer group of the gauge group generated by the given rows."""
        gauge = self.rref(gauge)
        products = self.symp(gauge, gauge) if len(gauge) else np.zeros((0, 0), dtype=int)
        if not len(gauge):
            return gauge
        coeffs = self.null_space(products.T)
        return self.rref(self.matmul(coeffs, gauge))


@functools.cache
def get(q: int) -> Field:
    return Field(q)


def min_weight(words: np.ndarray) -> int | None:
    """Minimum number of nonzero entries over nonzero rows."""
    weights = np.count_nonzero(words, axis=1)
    weights = weights[weights > 0]
    return int(weights.min()) if len(weights) else None
