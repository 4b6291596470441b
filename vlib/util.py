"""Conversions between the code under test and plain reference data, with shape checks."""

from __future__ import annotations

from typing import Any

import numpy as np

from .core import Context, Violation


def ints(array: Any, shape: tuple | None, what: str, q: int | None = None) -> np.ndarray:
    """Convert an array returned by the code under test into a plain integer array."""
    try:
        out = np.array(np.asarray(array).view(np.ndarray)).astype(int)
    except Exception as error:
        raise Violation(f"{what}: not an integer array ({type(array).__name__}: {error})")
    if shape is not None:
        if out.ndim != len(shape) or any(
            want is not None and got != want for got, want in zip(out.shape, shape)
        ):
            raise Violation(f"{what}: has shape {out.shape}, expected {shape}")
    if q is not None and out.size and not (out.min() >= 0 and out.max() < q):
        raise Violation(f"{what}: has entries outside the field")
    return out


def mat(rows: list, cols: int) -> np.ndarray:
    """Plain integer matrix from JSON rows (possibly none)."""
    return np.array(rows, dtype=int).reshape(len(rows), cols)


def container(kind: int, rows: list, cols: int, q: int) -> tuple[Any, dict]:
    """Present a matrix in one of the accepted input forms.  Returns (matrix, keyword args)."""
    import galois

    array = mat(rows, cols)
    if kind == 1 and len(rows):
        return [list(map(int, row)) for row in array], {"field": q}
    if kind == 2:
        types = [np.uint8, np.int8, np.int32, np.uint16]
        return array.astype(types[int(array.sum()) % 4]), {"field": q}
    if kind == 3:
        types = [None, np.int64, np.int8, None]
        return galois.GF(q)(array, dtype=types[int(array.sum()) % 4]), {}
    if kind == 4:
        return np.asfortranarray(array), {"field": q}
    if kind == 5 and q == 2:
        return array, {}
    return array, {"field": q}


def prod(numbers: Any) -> int:
    out = 1
    for number in numbers:
        out *= int(number)
    return out


def check_conjugate_pairs(
    c: Context, field: Any, ops: np.ndarray, what: str
) -> None:
    """Rows (X_1..X_k, Z_1..Z_k) must have the canonical symplectic products."""
    k = len(ops) // 2
    expected = np.zeros((2 * k, 2 * k), dtype=int)
    for j in range(k):
        expected[j, j + k] = 1
        expected[j + k, j] = field.neg[1]
    c.equal(field.symp(ops, ops) if len(ops) else expected, expected, f"{what}: commutation")


def foreign_equality(c: Any, thing: Any, *others: Any) -> None:
    """Comparing with objects of other kinds is refused politely: unequal, and no error."""
    name = type(thing).__name__
    for other in ("something else", None, 3, (), object(), *others):
        what = f"{name} compared with {type(other).__name__}"
        c.require((thing == other) is False or (thing == other) == False, what)  # noqa: E712
        c.require((other == thing) == False, what)  # noqa: E712
        c.require(bool(thing != other), what)
    c.require(bool(thing == thing) and not bool(thing != thing), f"{name} compared with itself")
