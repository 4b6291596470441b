"""C03: classical code distances are exact, and bounds never undercut them."""

from __future__ import annotations

from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, gen, heuristic, util
from vlib.core import Context, Property

PROP = Property(
    "C03",
    "Codes over F_2,3,4,5,7,8,9 small enough to list all words, plus binary generators of length 1"
    " to 900 for the packed-word kernel.  Non-trivial: dimension at least 2 and distance at least"
    " 2, or a code longer than one machine word.",
    ["Generators given directly to the distance kernel have independent rows."],
)


def codes() -> Any:
    from qldpc import codes

    return codes


@st.composite
def code_case(draw: Any, fields: tuple = gen.FIELDS, max_words: int = 1500) -> dict:
    q = draw(gen.field_orders(fields))
    max_k = 1
    while q ** (max_k + 1) <= max_words and max_k < 7:
        max_k += 1
    n = draw(st.integers(1, 12))
    k = draw(st.integers(0 if draw(st.integers(0, 9)) == 0 else 1, min(max_k, n)))
    gen_rows = gen.noise(draw, ff.get(q), [draw(gen.row(q, n)) for _ in range(k)])
    if draw(st.integers(0, 5)) == 0 and k:
        # plant a light word
        light = [0] * n
        for pos in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=2)):
            light[pos] = draw(st.integers(1, q - 1))
        gen_rows[-1] = light
    vector = draw(gen.row(q, n))
    return {
        "q": q,
        "n": n,
        "gen": gen_rows,
        "vector": vector,
        "vkind": draw(st.integers(0, 2)),
        "order": draw(gen.permutation(4)),
        "mix": draw(st.integers(0, 2**30)),
    }


def build(case: dict) -> tuple[Any, np.ndarray]:
    """The code spanned by the case's generator, via its checks; and all of its words."""
    field = ff.get(case["q"])
    generator = util.mat(case["gen"], case["n"])
    checks = field.null_space(generator)
    return codes().ClassicalCode(checks, case["q"]), field.span(field.rref(generator))


def vec(case: dict, code: Any) -> Any:
    if case["vkind"] == 0:
        return case["vector"]
    if case["vkind"] == 1:
        return np.array(case["vector"])
    return code.field(case["vector"])


@PROP.test(code_case, quick=3000, shards=3)
def exact_distance(case: dict, c: Context) -> None:
    code, words = build(case)
    field, n = ff.get(case["q"]), case["n"]
    distance = ff.min_weight(words)
    vector_distance = int(
        np.count_nonzero(field.minus(words, np.array(case["vector"])[None, :]), axis=1).min()
    )
    c.nontrivial(len(words) > case["q"] and distance and distance > 1)
    c.label(f"d={distance}", f"q={case['q']}")

    def check_distance() -> None:
        got = code.get_distance()
        if distance is None:
            c.require(np.isnan(got), "distance of a code with only the zero word", got)
        else:
            c.equal(got, distance, "exact distance")

    def check_vector() -> None:
        c.equal(int(code.get_distance(vector=vec(case, code))), vector_distance, "vector distance")

    def check_bounds() -> None:
        got = code.get_distance(bound=2)
        if distance is None:
            c.require(np.isnan(got), "bound for a code with only the zero word", got)
        else:
            c.require(distance <= got <= n, "distance bound", got, distance)

    def check_params() -> None:
        length, dimension, got = code.get_code_params()
        c.equal((length, dimension), (n, int(round(np.log(len(words)) / np.log(case["q"])))), "n, k")
        c.require(got == distance or (distance is None and np.isnan(got)), "d", got, distance)

    actions = [check_distance, check_vector, check_bounds, check_params]
    for index in case["order"]:
        actions[index]()
    check_distance()
    check_vector()


@PROP.test(code_case, quick=1000, shards=2)
def distance_is_basis_independent(case: dict, c: Context) -> None:
    """The reported distance does not depend on how checks or generators are written."""
    import random

    field, q, n = ff.get(case["q"]), case["q"], case["n"]
    rng = random.Random(case["mix"])  # a deterministic function of the case
    base = field.rref(util.mat(case["gen"], n))
    code, words = build(case)
    distance = ff.min_weight(words)
    if distance is None:
        return
    c.nontrivial(len(base) > 1)
    mixed = base.copy()
    for _ in range(2 * len(mixed)):
        i, j = rng.randrange(len(mixed)), rng.randrange(len(mixed))
        if i != j:
            mixed[i] = field.add[mixed[i], field.mul[rng.randrange(1, q), mixed[j]]]
    mixed = mixed[rng.sample(range(len(mixed)), len(mixed))]
    code.set_generator(mixed)
    c.equal(code.get_distance_exact(), distance, "distance with another generator")
    perm = rng.sample(range(n), n)
    other = codes().ClassicalCode.from_generator(mixed[:, perm], q)
    c.equal(other.get_distance_exact(), distance, "distance after permuting bits")
    copy = codes().ClassicalCode(other)
    c.equal(copy.get_distance_exact(), distance, "distance of a copy")


@st.composite
def kernel_case(draw: Any) -> dict:
    n = draw(
        st.one_of(
            st.integers(1, 70),
            st.sampled_from([63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 320]),
            st.integers(250, 900),
        )
    )
    k = draw(st.integers(1, min(n, 8 if n < 300 else 5)))
    # rows with controlled weight: dense rows have large weights
    rows = []
    for _ in range(k):
        mode = draw(st.integers(0, 3))
        if mode == 0:
            rows.append(draw(gen.row(2, n)))
        elif mode == 1:
            rows.append([1 - x for x in draw(gen.row(2, n))])
        else:
            start, stop = draw(st.integers(0, n - 1)), draw(st.integers(0, n))
            start, stop = min(start, stop), max(start, stop)
            rows.append([int(start <= i < stop) for i in range(n)])
    return {
        "n": n,
        "rows": rows,
        "block_size": draw(st.one_of(st.none(), st.integers(1, 18))),
        "kind": draw(st.integers(0, 3)),
    }


@PROP.test(kernel_case, quick=2000, shards=3)
def kernel(case: dict, c: Context) -> None:
    """The packed-word kernel, for every length, weight and block size."""
    n = case["n"]
    field = ff.get(2)
    basis = field.rref(util.mat(case["rows"], n))
    if not len(basis):
        return
    # keep the rows as generated where possible (the kernel needs independent rows)
    rows = util.mat(case["rows"], n)
    if field.rank(rows) == len(rows):
        basis = rows
    distance = ff.min_weight(field.span(basis))
    c.nontrivial(len(basis) > 1 and (distance > 1 or n > 64))
    c.label(f"words={-(-n // 64)}", "heavy" if distance > 255 else "light")
    kwargs = {} if case["block_size"] is None else {"block_size": case["block_size"]}
    generator: Any = basis
    if case["kind"] == 1:
        generator = basis.tolist()
    elif case["kind"] == 2:
        generator = basis.astype(np.uint8)
    elif case["kind"] == 3:
        import galois

        generator = galois.GF(2)(basis)
    got = codes().distance.get_distance_classical(generator, **kwargs)
    c.equal(int(got), distance, f"kernel distance (n={n}, k={len(basis)}, {kwargs})")


@PROP.test(kernel_case, quick=24, shards=2)
def kernel_with_numba(case: dict, c: Context) -> None:
    n = case["n"]
    field = ff.get(2)
    basis = field.rref(util.mat(case["rows"], n))
    if not len(basis):
        return
    distance = ff.min_weight(field.span(basis))
    c.nontrivial(len(basis) > 1)
    kwargs = {} if case["block_size"] is None else {"block_size": case["block_size"]}
    got = codes().distance.get_distance_classical(basis, use_numba=True, **kwargs)
    c.equal(int(got), distance, f"kernel distance with numba (n={n}, k={len(basis)}, {kwargs})")


@st.composite
def bound_case(draw: Any) -> dict:
    case = draw(code_case(fields=(2, 3, 4, 5), max_words=300))
    case["trials"] = draw(st.integers(1, 4))
    case["cutoff"] = draw(st.one_of(st.none(), st.integers(1, case["n"])))
    case["decoder"] = draw(st.integers(0, 5))
    case["guesses"] = draw(st.integers(0, 6))
    case["seed"] = draw(st.integers(0, 10**6))
    return case


@PROP.test(bound_case, quick=900, shards=3)
def randomised_bounds(case: dict, c: Context) -> None:
    code, words = build(case)
    field, q, n = ff.get(case["q"]), case["q"], case["n"]
    distance = ff.min_weight(words)
    vector_distance = int(
        np.count_nonzero(field.minus(words, np.array(case["vector"])[None, :]), axis=1).min()
    )
    c.nontrivial(distance and distance < n)
    kwargs: dict[str, Any] = {}
    exact_vector = False
    if case["decoder"] == 1 and q == 2:
        kwargs, exact_vector = {"with_ILP": True}, True
    elif case["decoder"] == 2 and q <= 3:
        kwargs = {"with_GUF": True}
    elif case["decoder"] == 3 and q == 2:
        kwargs = {"with_BP_OSD": True, "osd_order": 0}
    elif case["decoder"] >= 4:
        source = heuristic.Heuristic(q, case["seed"], case["guesses"], case["decoder"] == 4)
        kwargs = {"decoder_constructor": source}
    c.label(f"decoder={sorted(kwargs)}")
    got = code.get_distance_bound(case["trials"], cutoff=case["cutoff"], **kwargs)
    if distance is None:
        c.require(np.isnan(got), "bound of a code with only the zero word", got)
    else:
        c.require(distance <= got <= n, "distance bound", got, distance)
        one = code.get_one_distance_bound(**kwargs)
        c.require(distance <= one <= n, "single distance bound", one, distance)
        if case["cutoff"] is None and distance == n:
            c.equal(got, n, "bound of a code whose distance is its length")
    if case["decoder"] >= 4:
        source.guesses = case["guesses"]
    vec_bound = code.get_distance_bound(
        case["trials"], cutoff=case["cutoff"], vector=vec(case, code), **kwargs
    )
    c.require(
        vector_distance <= vec_bound <= n, "vector distance bound", vec_bound, vector_distance
    )
    if exact_vector and case["cutoff"] is None:
        c.equal(int(vec_bound), vector_distance, "vector distance with an exact decoder")
    # an exact value, once known, is what every bound returns
    if distance is not None:
        c.equal(code.get_distance(), distance, "exact distance after bounds")
        c.equal(code.get_distance(bound=3), distance, "bound after the exact distance is known")
