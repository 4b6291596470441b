"""C02: transformations of classical codes match their mathematical definitions."""

from __future__ import annotations

import warnings
from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, gen, util
from vlib.core import Context, Property

PROP = Property(
    "C02",
    "Pairs/lists of codes over F_2,3,4,5,7,8,9 with degenerate matrices, and subsets of bit"
    " positions in any order.  Non-trivial: the input code(s) have nonzero words, and (for"
    " puncturing/shortening) the set of bits is not empty.",
    ["Puncturing and shortening keep at least one bit (a length-zero code is out of scope)."],
)


def codes() -> Any:
    from qldpc import codes

    return codes


def words_span(code: Any, n: int, q: int, what: str) -> np.ndarray:
    """Row space description of a code returned by the library, cross-checking both matrices."""
    from vlib.core import Violation

    field = ff.get(q)
    if code.field.order != q:
        raise Violation(f"{what}: wrong field {code.field.order}, expected {q}")
    if len(code) != n:
        raise Violation(f"{what}: wrong length {len(code)}, expected {n}")
    checks = util.ints(code.matrix, (None, n), f"{what}: checks", q)
    generator = util.ints(code.generator, (None, n), f"{what}: generator", q)
    from_checks = field.rref(field.null_space(checks))
    if not field.same_span(generator, from_checks):
        raise Violation(f"{what}: generator and checks disagree")
    if len(generator) != len(from_checks) or int(code.dimension) != len(from_checks):
        raise Violation(f"{what}: dimension {code.dimension}, expected {len(from_checks)}")
    if int(code.rank) != n - len(from_checks):
        raise Violation(f"{what}: rank {code.rank}, expected {n - len(from_checks)}")
    if q ** len(from_checks) <= 128:
        distance = get_distance(code)
        expected = ff.min_weight(field.span(from_checks)) if len(from_checks) else None
        if (None if np.isnan(distance) else int(distance)) != expected:
            raise Violation(f"{what}: distance {distance}, expected {expected}")
    return from_checks


def get_distance(code: Any) -> Any:
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return code.get_distance()


def ask(code: Any, q: int, questions: int) -> Any:
    """Query a code, such that whatever it remembers can show up in codes that are built from it."""
    if questions & 1:
        code.generator
    if questions & 2:
        code.dimension, code.rank
    if questions & 4 and q**code.dimension <= 128:
        get_distance(code)
    if questions & 8:
        code.canonicalized
    return code


@st.composite
def subset_case(draw: Any) -> dict:
    q = draw(gen.field_orders())
    rows = draw(gen.matrix(q, 1, 5, 2, 9))
    n = len(rows[0])
    order = draw(gen.permutation(n))
    bits = order[: draw(st.integers(0, n - 1))]
    if bits and draw(st.integers(0, 4)) == 0:
        bits = bits + [bits[draw(st.integers(0, len(bits) - 1))]]
    from_gen = draw(st.booleans())
    ask = draw(st.integers(0, 15))
    return {"q": q, "rows": rows, "n": n, "bits": bits, "from_gen": from_gen, "ask": ask}


def make(case: dict) -> Any:
    m = util.mat(case["rows"], case["n"])
    if case.get("from_gen"):
        code = codes().ClassicalCode.from_generator(m, case["q"])
    else:
        code = codes().ClassicalCode(m, case["q"])
    return ask(code, case["q"], case.get("ask", 0))


def reference_span(case: dict) -> np.ndarray:
    field = ff.get(case["q"])
    m = util.mat(case["rows"], case["n"])
    return field.rref(m) if case.get("from_gen") else field.rref(field.null_space(m))


@PROP.test(subset_case, quick=3000, shards=3)
def puncture_and_shorten(case: dict, c: Context) -> None:
    field, q, n = ff.get(case["q"]), case["q"], case["n"]
    code = make(case)
    span = reference_span(case)
    bits = sorted(set(case["bits"]))
    keep = [b for b in range(n) if b not in bits]
    c.nontrivial(len(span) and bits)
    c.label(f"k={min(len(span), 3)}", f"removed={min(len(bits), 3)}")
    if any(not span[:, b].any() for b in bits):
        c.label("idle-bit")

    punctured = words_span(code.puncture(*case["bits"]), len(keep), q, "punctured code")
    c.equal(punctured, field.rref(span[:, keep]), "punctured code")

    # words that vanish on the bits: coefficient vectors annihilating those columns
    coeffs = field.null_space(span[:, bits].T) if bits else np.eye(len(span), dtype=int)
    if len(span) == 0:
        coeffs = np.zeros((0, 0), dtype=int)
    expected = field.rref(field.matmul(coeffs, span)[:, keep].reshape(len(coeffs), len(keep)))
    shortened = words_span(code.shorten(*case["bits"]), len(keep), q, "shortened code")
    c.equal(shortened, expected, "shortened code")

    # puncturing and shortening are exchanged by duality
    dual_punctured = words_span((~code).puncture(*case["bits"]), len(keep), q, "punctured dual")
    c.equal(dual_punctured, field.rref(field.null_space(shortened)), "dual of the shortened code")


@PROP.test(subset_case, quick=300, shards=1)
def bits_out_of_range(case: dict, c: Context) -> None:
    code = make(case)
    c.nontrivial()
    for bit in (case["n"], -1, case["n"] + 3):
        c.raises((AssertionError, ValueError, IndexError), lambda: code.puncture(bit), "puncture")
        c.raises((AssertionError, ValueError, IndexError), lambda: code.shorten(bit), "shorten")


@st.composite
def several_codes(draw: Any, max_cols: int = 5) -> dict:
    q = draw(gen.field_orders())
    num = draw(st.integers(1, 3))
    mats = [draw(gen.matrix(q, 1, 3, 1, max_cols)) for _ in range(num)]
    ask = draw(st.lists(st.integers(0, 15), min_size=num, max_size=num))
    return {"q": q, "mats": mats, "kind": draw(st.integers(0, 3)), "ask": ask}


@PROP.test(several_codes, quick=1600, shards=2)
def stacking(case: dict, c: Context) -> None:
    q, field = case["q"], ff.get(case["q"])
    arrays = [util.mat(m, len(m[0])) for m in case["mats"]]
    inputs = [ask(codes().ClassicalCode(a, q), q, k) for a, k in zip(arrays, case["ask"])]
    spans = [field.null_space(a) for a in arrays]
    n = sum(a.shape[1] for a in arrays)
    c.nontrivial(len(arrays) > 1 and all(len(s) for s in spans))
    stacked = codes().ClassicalCode.stack(*inputs)
    got = words_span(stacked, n, q, "stacked code")
    expected = np.zeros((sum(map(len, spans)), n), dtype=int)
    r = col = 0
    for s in spans:
        expected[r : r + len(s), col : col + s.shape[1]] = s
        r, col = r + len(s), col + s.shape[1]
    c.equal(got, field.rref(expected), "stacked code")
    c.equal(stacked.num_checks, sum(map(len, arrays)), "number of checks of the stacked code")
    r = col = 0
    blocks = np.zeros((stacked.num_checks, n), dtype=int)
    for a in arrays:
        blocks[r : r + len(a), col : col + a.shape[1]] = a
        r, col = r + len(a), col + a.shape[1]
    c.equal(util.ints(stacked.matrix, blocks.shape, "checks", q), blocks, "checks of the stack")
    other = codes().ClassicalCode([[1, 1]], 3 if q != 3 else 2)
    c.raises(
        ValueError, lambda: codes().ClassicalCode.stack(*inputs, other), "stacking across fields"
    )


@PROP.test(several_codes, quick=1200, shards=2)
def tensor_products(case: dict, c: Context) -> None:
    q, field = case["q"], ff.get(case["q"])
    arrays = [util.mat(m, len(m[0])) for m in case["mats"]]
    a, b = arrays[0], arrays[-1]
    code_a = ask(codes().ClassicalCode(a, q), q, case["ask"][0])
    code_b = ask(codes().ClassicalCode(b, q), q, case["ask"][-1])
    gen_a, gen_b = field.null_space(a), field.null_space(b)
    c.nontrivial(len(gen_a) and len(gen_b))
    c.label("trivial" if not (len(gen_a) and len(gen_b)) else "proper")
    product = codes().ClassicalCode.tensor_product(code_a, code_b)
    n = a.shape[1] * b.shape[1]
    got = words_span(product, n, q, "tensor product")
    c.equal(got, field.rref(field.kron(gen_a, gen_b)), "tensor product code")
    other = codes().ClassicalCode([[1, 1]], 3 if q != 3 else 2)
    c.raises(
        ValueError,
        lambda: codes().ClassicalCode.tensor_product(code_a, other),
        "tensor product across fields",
    )


@st.composite
def generator_case(draw: Any) -> dict:
    q = draw(gen.field_orders())
    rows = draw(gen.matrix(q, 1, 5, 1, 8))
    n = len(rows[0])
    field = ff.get(q)
    null = field.null_space(util.mat(rows, n))
    mode = draw(st.integers(0, 3))
    if mode == 3:
        new = draw(gen.matrix(q, 1, 4, n, n))
    else:
        new = gen.mix_rows(draw, field, null, False)
        if mode == 1 and new:
            r, col = draw(st.integers(0, len(new) - 1)), draw(st.integers(0, n - 1))
            new[r][col] = draw(st.integers(0, q - 1))
        elif mode == 2 and new:
            new.pop(draw(st.integers(0, len(new) - 1)))
    return {"q": q, "rows": rows, "n": n, "new": new, "kind": draw(st.integers(0, 5))}


@PROP.test(generator_case, quick=2400, shards=2)
def generators(case: dict, c: Context) -> None:
    q, n, field = case["q"], case["n"], ff.get(case["q"])
    h = util.mat(case["rows"], n)
    new = util.mat(case["new"], n)
    matrix, kwargs = util.container(case["kind"], case["rows"], n, q)

    # a code from a generator: its words are the combinations of the rows of the generator
    built = codes().ClassicalCode.from_generator(matrix, **kwargs)
    c.equal(words_span(built, n, q, "code from a generator"), field.rref(h), "from_generator")

    # replacing the generator
    code = ask(codes().ClassicalCode(h, q), q, 2 * case["kind"])
    null = field.null_space(h)
    if len(new) != field.rank(new):
        return  # redundant generators: acceptance is not documented
    valid = field.same_span(new, null)
    c.nontrivial(len(null) and h.any())
    c.label("valid generator" if valid else "invalid generator")
    if valid:
        code.set_generator(new if case["kind"] % 2 or not len(new) else new.tolist())
        c.equal(util.ints(code.generator, new.shape, "generator", q), new, "generator after set")
        c.equal(words_span(code, n, q, "code"), field.rref(null), "code after set_generator")
    else:
        c.raises(ValueError, lambda: code.set_generator(new), "set_generator of invalid generator")
        c.equal(words_span(code, n, q, "code"), field.rref(null), "code after rejected generator")


@st.composite
def random_case(draw: Any) -> dict:
    checks = draw(st.integers(1, 5))
    bits = draw(st.integers(1, 6 if checks == 1 else 9))
    q = draw(st.sampled_from([None, *gen.FIELDS]))
    return {"bits": bits, "checks": checks, "q": q, "seed": draw(st.integers(0, 2**31 - 1))}


@PROP.test(random_case, quick=1000, shards=1)
def random_codes(case: dict, c: Context) -> None:
    q = case["q"] or 2
    args = (case["bits"], case["checks"]) + ((case["q"],) if case["q"] else ())
    code = codes().ClassicalCode.random(*args, seed=case["seed"])
    m = util.ints(code.matrix, (case["checks"], case["bits"]), "random checks", q)
    c.nontrivial(case["bits"] > 1)
    c.equal(code.field.order, q, "field of a random code")
    c.require(m.any(axis=1).all() and m.any(axis=0).all(), "random code has a zero row/column", m)
    again = codes().ClassicalCode.random(*args, seed=case["seed"])
    c.equal(util.ints(again.matrix, m.shape, "checks", q), m, "same seed, same code")
    unseeded = codes().ClassicalCode.random(*args)
    m = util.ints(unseeded.matrix, m.shape, "random checks", q)
    c.require(m.any(axis=1).all() and m.any(axis=0).all(), "random code has a zero row/column", m)


@PROP.test(
    cases=lambda tier: [[q, s0] for q in (2, 3, 4, 5) for s0 in (0, 1, 17, 12345, 2**30)],
    shards=1,
)
def seeds_matter(case: list, c: Context) -> None:
    """Twenty consecutive seeds cannot all give one code (chance < 2**-300)."""
    q, first = case
    c.nontrivial()
    seen = {
        codes().ClassicalCode.random(6, 4, q, seed=seed).matrix.tobytes()
        for seed in range(first, first + 20)
    }
    c.require(len(seen) > 10, "random codes do not depend on the seed", len(seen))
    code = codes().ClassicalCode(np.zeros((1, 12), dtype=int), q)
    seen = {code.get_random_word(seed=seed).tobytes() for seed in range(first, first + 20)}
    c.require(len(seen) > 10, "random words do not depend on the seed", len(seen))
