"""C01: all views of a classical code describe the null space of its parity check matrix."""

from __future__ import annotations

import itertools
from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, gen, util
from vlib.core import Context, Property

PROP = Property(
    "C01",
    "Parity check matrices over F_2,3,4,5,7,8,9 (dense, sparse; with dependent, repeated or zero"
    " rows/columns; given as lists, integer arrays or field arrays).  Non-trivial: the code has"
    " both nonzero words and nonzero checks.",
)


def codes() -> Any:
    from qldpc import codes

    return codes


@st.composite
def code_case(draw: Any, max_rows: int = 5, max_cols: int = 8, max_words: int = 600) -> dict:
    q = draw(gen.field_orders())
    cap = max_cols
    while q**cap > 70000 and cap > 3:
        cap -= 1
    rows = draw(gen.matrix(q, 1, max_rows, 1, cap))
    return {"q": q, "rows": rows, "n": len(rows[0]), "kind": draw(st.integers(0, 5))}


def build(case: dict) -> tuple[Any, ff.Field, np.ndarray]:
    matrix, kwargs = util.container(case["kind"], case["rows"], case["n"], case["q"])
    return codes().ClassicalCode(matrix, **kwargs), ff.get(case["q"]), util.mat(case["rows"], case["n"])


def reference_words(field: ff.Field, h: np.ndarray) -> np.ndarray:
    """All vectors annihilated by h."""
    if field.q ** h.shape[1] <= 70000:
        vectors = field.all_vectors(h.shape[1])
        return vectors[~np.any(field.matmul(vectors, h.T), axis=1)]
    return field.span(field.null_space(h))


@PROP.test(code_case, quick=3600, shards=3)
def views_agree(case: dict, c: Context) -> None:
    code, field, h = build(case)
    q, n = case["q"], case["n"]
    words = reference_words(field, h)
    word_set = {tuple(w) for w in words.tolist()}
    rank = field.rank(h)
    c.nontrivial(rank and len(words) > 1)
    c.label(f"q={q}", "full-rank" if rank == len(h) else "redundant")

    c.equal(util.ints(code.matrix, h.shape, "matrix", q), h, "parity check matrix")
    c.require(code.field.order == q, "field order", code.field.order, q)
    c.equal(len(code), n, "length")
    c.equal(code.num_bits, n, "num_bits")
    c.equal(code.num_checks, len(h), "num_checks")
    c.equal(int(code.rank), rank, "rank")
    c.equal(int(code.dimension), n - rank, "dimension")
    c.equal(int(code.get_weight()), int(np.count_nonzero(h, axis=1).max()), "max check weight")

    generator = util.ints(code.generator, (None, n), "generator", q)
    c.equal(len(generator), n - rank, "number of generators")
    c.require(
        not np.any(field.matmul(generator, h.T)), "generator rows violate checks", generator
    )
    c.equal(field.rank(generator), n - rank, "generator rank")

    canonical = util.ints(code.canonicalized.matrix, (None, n), "canonicalized", q)
    c.equal(canonical, field.rref(h), "canonical parity check matrix")

    if len(words) <= 1000:
        listed = [tuple(util.ints(w, (n,), "word", q).tolist()) for w in code.iter_words()]
        c.require(len(listed) == len(word_set) and set(listed) == word_set, "iter_words", listed)
        listed = [
            tuple(util.ints(w, (n,), "word", q).tolist()) for w in code.iter_words(skip_zero=True)
        ]
        c.require(
            len(listed) == len(word_set) - 1 and set(listed) == word_set - {(0,) * n},
            "iter_words(skip_zero=True)",
            listed,
        )
    for seed in (0, 7):
        word = util.ints(code.get_random_word(seed=seed), (n,), "random word", q)
        c.require(tuple(word.tolist()) in word_set, "random word is not a code word", word)


@st.composite
def membership_case(draw: Any) -> dict:
    case = draw(code_case())
    q, n = case["q"], case["n"]
    field = ff.get(q)
    null = field.null_space(util.mat(case["rows"], n))
    vectors = []
    for _ in range(draw(st.integers(1, 3))):
        if draw(st.booleans()) and len(null):
            coeffs = draw(gen.row(q, len(null)))
            vec = field.matmul(coeffs, null).tolist()
            if draw(st.booleans()):
                pos = draw(st.integers(0, n - 1))
                vec[pos] = draw(st.integers(0, q - 1))
        else:
            vec = draw(gen.row(q, n))
        vectors.append([int(x) for x in vec])
    case["vectors"] = vectors
    case["vkind"] = draw(st.integers(0, 2))
    return case


@PROP.test(membership_case, quick=4000, shards=2)
def membership(case: dict, c: Context) -> None:
    code, field, h = build(case)
    vectors = util.mat(case["vectors"], case["n"])
    inside = ~np.any(field.matmul(vectors, h.T), axis=1)
    c.nontrivial(inside.any() and vectors.any() and h.any())
    c.label("all-in" if inside.all() else "mixed" if inside.any() else "all-out")

    def present(array: np.ndarray) -> Any:
        if case["vkind"] == 1:
            return array.tolist()
        return code.field(array) if case["vkind"] == 2 else array

    for vec, expected in zip(vectors, inside):
        c.equal(present(vec) in code, bool(expected), f"membership of {vec.tolist()}")
    c.equal(present(vectors) in code, bool(inside.all()), "membership of several words at once")
    c.equal(code.generator in code, True, "membership of the generator")


@PROP.test(code_case, quick=2400, shards=2)
def duality(case: dict, c: Context) -> None:
    code, field, h = build(case)
    q, n = case["q"], case["n"]
    rank = field.rank(h)
    c.nontrivial(0 < rank < n)
    dual = ~code if case["kind"] % 2 else code.dual()
    c.require(dual.field is code.field, "field of the dual")
    c.equal(len(dual), n, "length of the dual")
    c.equal(int(dual.dimension), rank, "dimension of the dual")
    c.equal(int(dual.rank), n - rank, "rank of the dual")
    gen_dual = util.ints(dual.generator, (rank, n), "dual generator", q)
    c.require(field.same_span(gen_dual, h), "the dual is not spanned by the checks", gen_dual)
    c.require(
        field.same_span(util.ints(dual.matrix, (None, n), "dual checks", q), field.null_space(h)),
        "the checks of the dual do not span the code",
    )
    twice = ~dual
    c.require(
        field.same_span(util.ints(twice.matrix, (None, n), "double dual", q), h),
        "double dual differs",
    )
    c.require(codes().ClassicalCode.equiv(code, twice), "double dual is not equivalent to the code")


@st.composite
def pair_case(draw: Any) -> dict:
    case = draw(code_case())
    q, n = case["q"], case["n"]
    field = ff.get(q)
    rows = field.arr(case["rows"])
    how = draw(st.integers(0, 3))
    if how <= 1:
        other = gen.mix_rows(draw, field, rows, True)
        if how == 1:
            r, col = draw(st.integers(0, len(other) - 1)), draw(st.integers(0, n - 1))
            other[r][col] = draw(st.integers(0, q - 1))
    elif how == 2:
        other = draw(gen.matrix(q, 1, 5, n, n))
    else:
        other = case["rows"]
    case["other"] = [[int(x) for x in row] for row in other]
    case["q2"] = draw(gen.field_orders()) if draw(st.integers(0, 5)) == 0 else q
    return case


@PROP.test(pair_case, quick=2400, shards=2)
def equivalence(case: dict, c: Context) -> None:
    code, field, h = build(case)
    q, n = case["q"], case["n"]
    other = util.mat(case["other"], n)
    if case["q2"] != q:
        if other.max(initial=0) >= case["q2"]:
            return
    code2 = codes().ClassicalCode(other, case["q2"])
    same = case["q2"] == q and field.same_span(h, other)
    c.nontrivial(same and not np.array_equal(h, other) or (not same and case["q2"] == q))
    c.label("same" if same else "different")
    c.equal(bool(codes().ClassicalCode.equiv(code, code2)), bool(same), "equivalence of codes")
    c.equal(bool(codes().ClassicalCode.equiv(code2, code)), bool(same), "equivalence is symmetric")
    identical = case["q2"] == q and h.shape == other.shape and np.array_equal(h, other)
    c.equal(code == code2, bool(identical), "equality of codes")
    c.equal(code == "something else", False, "equality with another type")


@PROP.test(code_case, quick=800, shards=1)
def copies_and_printing(case: dict, c: Context) -> None:
    code, field, h = build(case)
    q, n = case["q"], case["n"]
    c.nontrivial(h.any())
    code.generator, code.dimension
    copy = codes().ClassicalCode(code)
    c.require(copy == code, "a copy differs from the original")
    c.require(copy.field is code.field, "field of a copy")
    c.equal(int(copy.dimension), n - field.rank(h), "dimension of a copy")
    c.require(
        field.same_span(util.ints(copy.generator, (None, n), "generator", q), field.null_space(h)),
        "generator of a copy",
    )
    c.require(codes().ClassicalCode(code, q) == code, "copy with a consistent field")
    wrong = 3 if q != 3 else 2
    c.raises(
        ValueError, lambda: codes().ClassicalCode(code, wrong), "copy with an inconsistent field"
    )
    text = str(code)
    numbers = [int(w) for w in "".join(ch if ch.isdigit() else " " for ch in text.split("matrix")[-1].split("order")[0]).split()]
    c.require(str(n) in text and numbers[: h.size] == h.ravel().tolist(), "printed form", text)


@PROP.test(
    cases=lambda tier: [
        [q, r, n, list(flat)]
        for q, r, n in [(2, 1, 1), (2, 1, 3), (2, 2, 2), (2, 2, 3), (3, 1, 2), (3, 2, 2), (4, 1, 2)]
        for flat in itertools.product(range(q), repeat=r * n)
    ],
    shards=1,
)
def tiny_exhaustive(case: list, c: Context) -> None:
    """Every matrix of the smallest shapes."""
    q, r, n, flat = case
    rows = [flat[i * n : (i + 1) * n] for i in range(r)]
    inner = {"q": q, "rows": rows, "n": n, "kind": 0}
    views_agree(inner, c)
    duality(inner, c)


@st.composite
def large_case(draw: Any) -> dict:
    q = draw(gen.field_orders())
    rows = draw(gen.matrix(q, 1, 14, 9, 70))
    return {"q": q, "rows": rows, "n": len(rows[0]), "kind": draw(st.integers(0, 5))}


@PROP.test(large_case, quick=400, shards=1)
def views_of_long_codes(case: dict, c: Context) -> None:
    code, field, h = build(case)
    q, n = case["q"], case["n"]
    rank = field.rank(h)
    c.nontrivial(rank and rank < n)
    c.equal(int(code.dimension), n - rank, "dimension")
    c.equal(int(code.rank), rank, "rank")
    generator = util.ints(code.generator, (n - rank, n), "generator", q)
    c.require(field.same_span(generator, field.null_space(h)), "generator does not span the code")
    c.equal(
        util.ints(code.canonicalized.matrix, (rank, n), "canonicalized", q),
        field.rref(h),
        "canonical parity check matrix",
    )
    word = util.ints(code.get_random_word(), (n,), "random word", q)
    c.require(not np.any(field.matmul(h, word)), "random word is not a code word", word)
    dual = ~code
    c.equal(int(dual.dimension), rank, "dimension of the dual")
    c.require(
        field.same_span(util.ints(dual.generator, (rank, n), "dual generator", q), h),
        "the dual is not spanned by the checks",
    )
