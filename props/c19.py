"""C19: linear algebra over group algebras meets its guarantees."""

from __future__ import annotations

from typing import Any
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import gen, group as gr, util
from vlib.core import Context, Property

PROP = Property(
    "C19",
    "Random arrays (up to 4 by 4, sparse, dense, with invertible, nilpotent and idempotent-like"
    " entries, repeated and dependent rows) over group algebras of groups with up to 8 members"
    " over F_2,3,4,5, semisimple or not, compared to linear algebra over the field.  Idempotents:"
    " an exhaustive search in the centre of the algebra.  Non-trivial: at least 2 rows or columns"
    " and an algebra of dimension at least 2.",
)


def abstract() -> Any:
    from qldpc import abstract

    return abstract


@st.composite
def arrays(draw: Any) -> dict:
    spec = draw(gr.small_specs(8))
    n = gr.known_order(spec)
    q = draw(gen.field_orders((2, 3, 4, 5, 7, 9)))
    rows, cols = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    if n * max(rows, cols) > 24:
        rows, cols = min(rows, 3), min(cols, 3)

    def entry() -> list:
        kind = draw(st.integers(0, 5))
        vec = [0] * n
        if kind == 1 or kind == 2:
            vec[draw(st.integers(0, n - 1))] = draw(st.integers(1, q - 1))
        elif kind == 3:  # often a zero divisor: g - h, or the sum of all members
            vec[draw(st.integers(0, n - 1))] = 1
            i = draw(st.integers(0, n - 1))
            vec[i] = q - 1 if not vec[i] else 0
        elif kind == 4:
            vec = [1] * n
        elif kind == 5:
            vec = draw(gen.row(q, n))
        return vec

    data = [[entry() for _ in range(cols)] for _ in range(rows)]
    combine = [
        (draw(st.integers(0, rows - 1)), draw(st.integers(0, rows - 1)), entry())
        for _ in range(draw(st.integers(0, 2)))
    ]
    return dict(spec=spec, q=q, data=data, combine=combine)


def setting(case: dict) -> tuple[Any, gr.Algebra, np.ndarray]:
    group = gr.build(case["spec"])
    ring = abstract().GroupRing(group, case["q"])
    A = gr.algebra(group, case["q"])
    data = np.array(case["data"], dtype=int)
    for i, j, factor in case["combine"]:  # make some rows depend on others
        if i != j:
            for k in range(data.shape[1]):
                data[i, k] = A.times(np.array(factor), data[j, k])
    return ring, A, data


def rows_of(c: Context, got: Any, ring: Any, cols: int, what: str) -> np.ndarray:
    c.require(isinstance(got, abstract().RingArray), f"{what}: is a RingArray")
    c.require(got.ring == ring, f"{what}: base ring")
    c.equal(got.ndim, 2, f"{what}: dimensions")
    c.equal(got.shape[1], cols, f"{what}: columns")
    shape = (got.shape[0], cols, ring.group.order)
    return util.ints(got.to_field_array(), shape, what, ring.field.order)


def check_reduced(c: Context, A: gr.Algebra, rows: np.ndarray, what: str) -> None:
    """The guarantees in the documentation of RingArray.row_reduce."""
    F = A.F
    one = A.one()
    zero = np.zeros(A.n, dtype=int)
    for i, row in enumerate(rows):
        c.require(row.any(), f"{what}: row {i} is nonzero")
        pivot = any(
            np.array_equal(row[j], one)
            and all(np.array_equal(rows[k][j], zero) for k in range(len(rows)) if k != i)
            for j in range(len(row))
        )
        units = any(A.unit(row[j]) for j in range(len(row)))
        c.require(pivot or not units, f"{what}: row {i} has a pivot or only non-units", rows)
        c.label("pivot row" if pivot else "row of non-units")
    for i in range(len(rows)):
        rest = np.delete(rows, i, axis=0)
        if not len(rest):
            continue
        span = A.left_span(rest)
        c.require(
            F.rank(np.vstack([span, rows[i].reshape(1, -1)])) > F.rank(span),
            f"{what}: row {i} is in the span of the others",
            rows,
        )


@PROP.test(arrays, quick=1200, thorough=12000, shards=3)
def row_reduction(case: dict, c: Context) -> None:
    ring, A, data = setting(case)
    c.nontrivial(max(data.shape[:2]) >= 2 and A.n >= 2 and data.any())
    c.label("semisimple" if A.n % A.F.p else "not semisimple")
    c.label("Abelian" if np.array_equal(A.table, A.table.T) else "non-Abelian")
    array = abstract().RingArray.from_field_array(ring, data)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        reduced = array.row_reduce()
    cols = data.shape[1]
    rows = rows_of(c, reduced, ring, cols, "row-reduced array")
    c.require(
        A.F.same_span(A.left_span(rows), A.left_span(data)),
        "row reduction preserves the row space",
        rows,
    )
    check_reduced(c, A, rows, "row-reduced array")
    c.equal(rows_of(c, array, ring, cols, "input"), data, "the input is left alone")


@PROP.test(arrays, quick=1200, thorough=12000, shards=3)
def null_spaces(case: dict, c: Context) -> None:
    ring, A, data = setting(case)
    c.nontrivial(max(data.shape[:2]) >= 2 and A.n >= 2 and data.any())
    array = abstract().RingArray.from_field_array(ring, data)
    cols = data.shape[1]
    F = A.F
    null = array.null_space()
    rows = rows_of(c, null, ring, cols, "null space")
    product = A.matmul(data, A.array_transpose(rows)) if len(rows) else np.zeros(0)
    c.require(not product.any(), "null vectors are annihilated", rows)
    if len(rows):
        c.require(
            not np.any((array @ null.T).to_field_array()), "the array times the null space vanishes"
        )
    # the whole null space: columns v with data @ v = 0, over the field
    kernel = cols * A.n - F.rank(A.block_left(data))
    span = A.left_span(rows)
    c.equal(F.rank(span) if len(span) else 0, kernel, "dimension of the null space")
    c.label("trivial null space" if kernel == 0 else "nontrivial null space")
    check_reduced(c, A, rows, "null space")
    c.equal(rows_of(c, array, ring, cols, "input"), data, "the input is left alone")


@PROP.test(
    cases=lambda tier: [
        dict(spec=spec, q=q)
        for spec in gr.SMALL
        for q in (2, 3, 4, 5)
        if gr.known_order(spec) <= (8 if tier == "quick" else 12)
        and gr.known_order(spec) % {4: 2}.get(q, q)
    ],
    shards=2,
)
def idempotents(case: dict, c: Context) -> None:
    """Idempotents parsed from an external answer that lists them in any form."""
    from qldpc import external

    group = gr.build(case["spec"])
    q = case["q"]
    ring = abstract().GroupRing(group, q)
    A = gr.algebra(group, q)
    if q ** len(A.center_basis()) > 10**7:
        return
    try:
        expected = A.primitive_central_idempotents()
    except AssertionError:
        return
    c.nontrivial(len(expected) >= 2)

    def external_answer(name: str, field: int) -> Any:
        c.equal(field, q, "field given to the external system")
        answer = []
        for vector in expected:
            terms = []
            for value, element in zip(vector, A.elements):
                if value:
                    terms.append((value, cycles(element)))
            answer.append(tuple(terms))
        return tuple(answer)

    real = external.groups.get_primitive_central_idempotents
    external.groups.get_primitive_central_idempotents = external_answer
    try:
        got = ring.get_primitive_central_idempotents()
    finally:
        external.groups.get_primitive_central_idempotents = real
    vectors = [util.ints(e.to_vector(), (A.n,), "idempotent", q) for e in got]
    c.equal(sorted(tuple(map(int, v)) for v in vectors), expected, f"idempotents of {case}")
    total = np.zeros(A.n, dtype=int)
    for i, e in enumerate(got):
        c.require(e * e == e, "idempotent")
        total = A.F.plus(total, vectors[i])
        for f in got[:i]:
            c.require(not e * f and not f * e, "orthogonal idempotents")
        for g in group.generators:
            c.require(e * g == g * e, "central idempotents")
    c.equal(total, A.one(), "idempotents sum to one")


@PROP.test(
    cases=lambda tier: [
        dict(spec=spec, q=q)
        for spec in gr.SMALL
        for q in (2, 3, 4, 5)
        if gr.known_order(spec) % {4: 2}.get(q, q) == 0
    ],
    shards=1,
)
def not_semisimple(case: dict, c: Context) -> None:
    ring = abstract().GroupRing(gr.build(case["spec"]), case["q"])
    c.nontrivial()
    c.equal(bool(ring.is_semisimple), False, "Maschke's theorem")
    c.raises(ValueError, ring.get_primitive_central_idempotents, "idempotents of such rings")
    array = abstract().RingArray.build([[1]], ring)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        reduced = array.row_reduce(force_heuristic=False)
    c.require(caught, "a warning that row reduction is heuristic")
    c.require(np.array_equal(reduced, array), "row reduction of one")


def cycles(p: tuple) -> tuple:
    """Cycles of a permutation as the external module reports them (counted from zero)."""
    out, seen = [], set()
    for i in range(len(p)):
        if i in seen or p[i] == i:
            continue
        cyc = []
        while i not in seen:
            seen.add(i)
            cyc.append(i)
            i = p[i]
        out.append(tuple(cyc))
    return tuple(out) or ((),)
