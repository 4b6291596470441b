"""C20: decoders return valid corrections, and minimum-weight ones when they promise to."""

from __future__ import annotations

import itertools
import warnings
from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, gen, util
from vlib.core import Context, Property, Violation

PROP = Property(
    "C20",
    "Check matrices of up to 6 checks on 9 variables over F_2,3,4,5 (dependent, zero and repeated"
    " rows and columns included) and symplectic matrices on up to 4 qudits; errors of every weight;"
    " histories of up to 6 decode calls in which returned and given arrays are overwritten between"
    " calls.  References enumerate all errors.  Non-trivial: some syndrome is non-zero and needs an"
    " error of weight at least 2, or two different syndromes are decoded.",
)


def decoders() -> Any:
    from qldpc import decoders

    return decoders


def codes() -> Any:
    from qldpc import codes

    return codes


def present(rows: np.ndarray, q: int, form: int) -> np.ndarray:
    import galois

    if q == 2 and form == 0:
        return rows.copy()
    if q == 2 and form == 1:
        return rows.astype(np.uint8)
    return galois.GF(q)(rows)


def given_syndrome(s: np.ndarray, q: int, form: int) -> np.ndarray:
    import galois

    if form == 0:
        return s.copy()
    return s.astype(np.uint8) if form == 1 else galois.GF(q)(s)


def weight_of(vectors: np.ndarray, symplectic: bool) -> np.ndarray:
    vectors = np.atleast_2d(vectors)
    if symplectic:
        n = vectors.shape[1] // 2
        return np.count_nonzero(vectors[:, :n] | vectors[:, n:], axis=1)
    return np.count_nonzero(vectors, axis=1)


def conjugate(F: Any, rows: np.ndarray) -> np.ndarray:
    """Rows whose ordinary products with an error are the symplectic products with it."""
    n = rows.shape[1] // 2
    return np.hstack([rows[:, n:], F.neg[rows[:, :n]]]) if F is not None else rows


def table(F: Any, rows: np.ndarray, symplectic: bool) -> dict:
    """Least weight of an error for each achievable syndrome."""
    vectors = F.all_vectors(rows.shape[1])
    syndromes = F.matmul(vectors, rows.T)
    weights = weight_of(vectors, symplectic)
    best: dict = {}
    for s, w in zip(map(tuple, syndromes.tolist()), weights.tolist()):
        if w < best.get(s, 10**9):
            best[s] = w
    return best


def syndrome_map(F: Any, rows: np.ndarray, symplectic: bool) -> np.ndarray:
    """The matrix that takes an error to its syndrome, with the sign convention of the library."""
    if not symplectic:
        return rows
    from qldpc.math import symplectic_conjugate
    import galois

    out = util.ints(symplectic_conjugate(galois.GF(F.q)(rows)), rows.shape, "conjugate", F.q)
    reference = conjugate(F, rows)
    if not np.array_equal(out, reference) and not np.array_equal(out, F.neg[reference]):
        raise Violation("symplectic conjugation does not give symplectic products")
    return out


@st.composite
def problems(draw: Any, orders: tuple = (2, 2, 3, 4, 5), symplectic: bool | None = None) -> dict:
    q = draw(gen.field_orders(orders))
    sympl = draw(st.booleans()) if symplectic is None else symplectic
    if sympl:
        top = {2: 4, 3: 3}.get(q, 2)
        rows = draw(gen.matrix(q, 1, 5, 1, top))
        n = len(rows[0])
        other = [
            [draw(st.integers(0, q - 1)) if draw(st.booleans()) else 0 for _ in range(n)]
            for _ in rows
        ]
        rows = [x + z for x, z in zip(rows, other)]
    else:
        top = {2: 9, 3: 6, 4: 5, 5: 4}[q]
        rows = draw(gen.matrix(q, 1, 6, 1, top))
    n = len(rows[0])
    errors = []
    for _ in range(draw(st.integers(1, 4))):
        support = draw(st.lists(st.integers(0, n - 1), max_size=min(n, 4), unique=True))
        error = [0] * n
        for site in support:
            error[site] = draw(st.integers(1, q - 1))
        errors.append(error)
    return dict(
        q=q,
        symplectic=sympl,
        rows=rows,
        errors=errors,
        form=draw(st.integers(0, 2)),
        forms=[draw(st.integers(0, 2)) for _ in errors],
        calls=draw(st.lists(st.integers(0, 9), max_size=3)),
        max_weight=draw(st.sampled_from([None, 0, 1, 1, 2, 2, 3, 4])),
        by_call=draw(st.booleans()),
    )


def run_history(c: Context, case: dict, decoder: Any, syndromes: list, call: Any = None) -> list:
    """Decode all syndromes, some of them again, while the caller overwrites what it got or gave."""
    answers: dict[int, np.ndarray] = {}
    history = list(range(len(syndromes))) + [i % len(syndromes) for i in case["calls"]]
    for step, index in enumerate(history):
        given = given_syndrome(syndromes[index], case["q"], case["forms"][index])
        kept = np.asarray(given).astype(int)
        got = call(given) if call else decoder.decode(given)
        c.equal(np.asarray(given).astype(int), kept, "the caller's syndrome is unchanged")
        answer = util.ints(got, (len(case["rows"][0]),), "correction", case["q"]).copy()
        if index in answers:
            c.equal(answer, answers[index], f"equal syndromes have equal corrections (call {step})")
        answers[index] = answer
        try:
            got.view(np.ndarray)[...] = 1
            given.view(np.ndarray)[...] = 0
        except ValueError:
            pass
    return [answers[i] for i in range(len(syndromes))]


def achievable(F: Any, H: np.ndarray, case: dict) -> list[np.ndarray]:
    return [F.matmul(H, np.array(e, dtype=int).reshape(-1, 1)).ravel() for e in case["errors"]]


@PROP.test(problems, quick=500, thorough=9000, shards=3)
def lookup(case: dict, c: Context) -> None:
    """All errors up to the weight limit are corrected with least weight, others not at all."""
    q, symplectic = case["q"], case["symplectic"]
    F = ff.get(q)
    rows = np.array(case["rows"], dtype=int)
    H = syndrome_map(F, rows, symplectic)
    best = table(F, H, symplectic)
    limit = case["max_weight"]
    matrix = present(rows, q, case["form"])
    before = np.asarray(matrix).astype(int)
    args: dict = {"symplectic": True} if symplectic else {}
    if limit is not None:
        args["max_weight"] = limit
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        if limit is None and (F.rank(rows) == rows.shape[1] or symplectic):
            limit = args["max_weight"] = 1
        if limit is None:
            # the documented default is half of the distance
            words = F.span(F.null_space(rows))
            weights = weight_of(words, False)
            limit = (int(weights[weights > 0].min()) - 1) // 2
            c.label("default limit")
            expect_warning = True
        else:
            expect_warning = False
        if case["by_call"]:
            decoder = decoders().get_decoder(matrix, with_lookup=True, **args)
        else:
            decoder = decoders().get_decoder_lookup(matrix, **args)
    if expect_warning:
        c.require(caught, "a warning about the default limit")
    syndromes = achievable(F, H, case)
    # all syndromes of errors of low weight
    c.label(f"q={q}", f"limit {limit}", "symplectic" if symplectic else "ordinary")
    c.nontrivial(
        any(best[tuple(s.tolist())] >= 2 for s in syndromes)
        or len({tuple(s) for s in map(tuple, syndromes)}) > 1
    )
    answers = run_history(c, case, decoder, syndromes)
    pairs = list(zip(syndromes, answers))
    for s in list(best)[:200]:
        got = decoder.decode(np.array(s, dtype=int))
        pairs.append((np.array(s), util.ints(got, (rows.shape[1],), "correction", q)))
    for s, got in pairs:
        least = best[tuple(s.tolist())]
        if least > limit:
            c.require(not got.any(), "no correction beyond the weight limit", s, got)
            continue
        c.equal(int(weight_of(got, symplectic)[0]), least, f"weight of the correction for {s}")
        c.equal(F.matmul(H, got.reshape(-1, 1)).ravel(), s, "syndrome of the correction")
    c.equal(np.asarray(matrix).astype(int), before, "the caller's matrix is unchanged")
    # syndromes that no error has
    absent = next((s for s in itertools.product(range(q), repeat=len(rows)) if s not in best), None)
    if absent:
        got = util.ints(decoder.decode(np.array(absent)), (rows.shape[1],), "correction", q)
        c.require(not got.any(), "no correction for impossible syndromes")


def neighbourhood(rows: np.ndarray, syndrome: np.ndarray, symplectic: bool) -> Any:
    """Successive sets of checks and interior (qu)bits grown from a syndrome."""
    n = rows.shape[1] // (2 if symplectic else 1)
    touch = rows != 0
    if symplectic:
        touch = touch[:, :n] | touch[:, n:]
    checks, bits = set(np.nonzero(syndrome)[0].tolist()), set()
    while True:
        new_bits = bits | {j for i in checks for j in np.nonzero(touch[i])[0].tolist()}
        new_checks = checks | {i for j in bits for i in np.nonzero(touch[:, j])[0].tolist()}
        if (new_bits, new_checks) == (bits, checks):
            return
        checks, bits = new_checks, new_bits
        interior = [j for j in sorted(bits) if set(np.nonzero(touch[:, j])[0].tolist()) <= checks]
        yield sorted(checks), interior


@PROP.test(problems, quick=600, thorough=10000, shards=4)
def union_find(case: dict, c: Context) -> None:
    """Generalized union-find: a valid correction inside the first set that has one."""
    q, symplectic = case["q"], case["symplectic"]
    F = ff.get(q)
    rows = np.array(case["rows"], dtype=int)
    n = rows.shape[1] // (2 if symplectic else 1)
    H = syndrome_map(F, rows, symplectic)
    limit = case["max_weight"]
    matrix = present(rows, q, case["form"])
    before = np.asarray(matrix).astype(int)
    args: dict = {"symplectic": True} if symplectic else {}
    if limit is not None and not case["by_call"]:
        args["max_weight"] = limit
    decoder = decoders().get_decoder(matrix, with_GUF=True, **args)
    syndromes = achievable(F, H, case)
    c.label(f"q={q}", f"limit {limit}", "symplectic" if symplectic else "ordinary")
    call = (lambda s: decoder.decode(s, max_weight=limit)) if case["by_call"] else None
    answers = run_history(c, case, decoder, syndromes, call)
    for s, got in zip(syndromes, answers):
        c.equal(F.matmul(H, got.reshape(-1, 1)).ravel(), s, "syndrome of the correction")
        if not s.any():
            c.require(not got.any(), "no correction for the trivial syndrome")
            continue
        for checks, bits in neighbourhood(H, s, symplectic):
            columns = bits + [n + j for j in bits] if symplectic else bits
            part = H[np.ix_(checks, columns)]
            one = F.solve(part, s[checks]) if columns else None
            if one is not None:
                break
        else:
            raise Violation("an achievable syndrome has a solution")
        outside = np.ones(rows.shape[1], dtype=bool)
        outside[columns] = False
        c.require(
            not got[outside].any(), "corrections stay in the first set with a solution", s, got
        )
        if limit is None:
            continue
        kernel = F.null_space(part)
        if q ** len(kernel) > 20000:
            continue
        everything = (
            F.plus(F.span(kernel), one.reshape(1, -1)) if len(kernel) else one.reshape(1, -1)
        )
        best = int(weight_of(everything, symplectic).min())
        weight = int(weight_of(got, symplectic)[0])
        c.nontrivial(best >= 2)
        c.label("limit decides" if weight != best else "least weight")
        c.require(weight <= limit or weight == best, "weight of the correction", s, got, best)
    c.nontrivial(limit is None and len({tuple(s.tolist()) for s in syndromes}) > 1)
    c.equal(np.asarray(matrix).astype(int), before, "the caller's matrix is unchanged")
    # impossible syndromes
    absent = F.null_space(H.T)
    if len(absent):
        bad = absent[0]
        # a vector with a non-zero product with a left null vector is no syndrome
        s = np.zeros(len(H), dtype=int)
        s[int(np.nonzero(bad)[0][0])] = 1
        got = util.ints(decoder.decode(s), (rows.shape[1],), "correction", q)
        c.require(not got.any(), "no correction for impossible syndromes", s, got)


@st.composite
def dense_problems(draw: Any) -> dict:
    """Checks that address all (qu)bits and are all violated, so that all errors are considered."""
    q = draw(st.sampled_from([2, 3, 4, 4, 4, 4, 5, 8, 9]))
    symplectic = draw(st.integers(0, 3)) == 0 if q <= 4 else False
    n = draw(st.integers(2, 3 if symplectic else {2: 8, 3: 7, 4: 6, 5: 5}.get(q, 4)))
    checks = max(1, n - draw(st.integers(1, 3)))
    width = 2 * n if symplectic else n
    # (entries are pseudo-random: drawn ones would mostly be equal)
    rng = np.random.default_rng(draw(st.integers(0, 10**9)))
    return dict(
        q=q,
        symplectic=symplectic,
        rows=rng.integers(1, q, size=(checks, width)).tolist(),
        syndrome=rng.integers(1, q, size=checks).tolist(),
        by_call=draw(st.booleans()),
    )


@PROP.test(dense_problems, quick=900, thorough=9000, shards=3)
def lightest_within_limit(case: dict, c: Context) -> None:
    """With a weight limit that is barely sufficient, union-find returns a lightest correction."""
    q, symplectic = case["q"], case["symplectic"]
    F = ff.get(q)
    rows = np.array(case["rows"], dtype=int)
    H = syndrome_map(F, rows, symplectic)
    s = np.array(case["syndrome"], dtype=int)
    one = F.solve(H, s)
    c.label(f"q={q}", "symplectic" if symplectic else "ordinary")
    if one is None:
        c.label("impossible syndrome")
        return
    kernel = F.null_space(H)
    solutions = F.plus(F.span(kernel), one.reshape(1, -1)) if len(kernel) else one.reshape(1, -1)
    least = int(weight_of(solutions, symplectic).min())
    args: dict = {"symplectic": True} if symplectic else {}
    options = {"max_weight": least}
    decoder = decoders().get_decoder(
        present(rows, q, 0), with_GUF=True, **args, **({} if case["by_call"] else options)
    )
    got = decoder.decode(given_syndrome(s, q, 0), **(options if case["by_call"] else {}))
    got = util.ints(got, (rows.shape[1],), "correction", q)
    c.equal(F.matmul(H, got.reshape(-1, 1)).ravel(), s, "syndrome of the correction")
    c.equal(int(weight_of(got, symplectic)[0]), least, "weight of the correction")
    c.nontrivial(len(solutions) > 1)


@PROP.test(lambda: problems((2, 2, 3, 5), False), quick=260, thorough=4000, shards=5)
def integer_programs(case: dict, c: Context) -> None:
    """Exact least-weight corrections over prime fields."""
    import galois

    q = case["q"]
    F = ff.get(q)
    rows = np.array(case["rows"], dtype=int)
    best = table(F, rows, False)
    if q == 2 and case["form"] == 0 and case["by_call"]:
        matrix = rows + 2 * (np.arange(rows.size).reshape(rows.shape) % 3)  # only parities matter
        c.label("entries beyond the field")
    else:
        matrix = present(rows, q, case["form"])
    before = np.asarray(matrix).astype(int)
    decoder = decoders().get_decoder(matrix, with_ILP=True)
    syndromes = achievable(F, rows, case)
    c.label(f"q={q}")
    c.nontrivial(any(best[tuple(s.tolist())] >= 2 for s in syndromes))
    answers = run_history(c, case, decoder, syndromes)
    for s, got in zip(syndromes, answers):
        c.equal(F.matmul(rows, got.reshape(-1, 1)).ravel(), s, "syndrome of the correction")
        c.equal(
            int(np.count_nonzero(got)), best[tuple(s.tolist())], f"weight of the correction for {s}"
        )
    c.equal(np.asarray(matrix).astype(int), before, "the caller's matrix is unchanged")
    absent = next((s for s in itertools.product(range(q), repeat=len(rows)) if s not in best), None)
    if absent:
        c.raises(ValueError, lambda: decoder.decode(np.array(absent)), "impossible syndrome")
    if case["calls"] == []:
        c.raises(
            ValueError,
            lambda: decoders().get_decoder(galois.GF(4)(rows % 4), with_ILP=True),
            "fields that are not prime",
        )


@st.composite
def graphs(draw: Any) -> dict:
    """Binary matrices with one or two entries per column."""
    m, n = draw(st.integers(1, 6)), draw(st.integers(1, 10))
    rows = [[0] * n for _ in range(m)]
    for j in range(n):
        for i in draw(st.lists(st.integers(0, m - 1), min_size=1, max_size=2, unique=True)):
            rows[i][j] = 1
    errors = [[draw(st.integers(0, 1)) for _ in range(n)] for _ in range(draw(st.integers(1, 4)))]
    return dict(
        q=2,
        symplectic=False,
        rows=rows,
        errors=errors,
        form=draw(st.integers(0, 2)),
        forms=[draw(st.integers(0, 2)) for _ in errors],
        calls=draw(st.lists(st.integers(0, 9), max_size=3)),
    )


@PROP.test(graphs, quick=500, thorough=8000, shards=1)
def matching(case: dict, c: Context) -> None:
    """Least-weight corrections for graph-like matrices."""
    F = ff.get(2)
    rows = np.array(case["rows"], dtype=int)
    best = table(F, rows, False)
    decoder = decoders().get_decoder(present(rows, 2, case["form"]), with_MWPM=True)
    syndromes = achievable(F, rows, case)
    c.nontrivial(any(best[tuple(s.tolist())] >= 2 for s in syndromes))
    answers = run_history(c, case, decoder, syndromes)
    for s, got in zip(syndromes, answers):
        c.equal(F.matmul(rows, got.reshape(-1, 1)).ravel(), s, "syndrome of the correction")
        c.equal(int(got.sum()), best[tuple(s.tolist())], f"weight of the correction for {s}")


@PROP.test(lambda: problems((2,), False), quick=400, thorough=6000, shards=1)
def default_binary_decoder(case: dict, c: Context) -> None:
    """The default decoder for binary matrices solves the system of equations."""
    F = ff.get(2)
    rows = np.array(case["rows"], dtype=int)
    matrix = present(rows, 2, case["form"])
    options = [{}, {"with_BP_OSD": True}, {"with_BP_LSD": True}][len(case["calls"]) % 3]
    decoder = decoders().get_decoder(matrix, **options)
    syndromes = achievable(F, rows, case)
    c.nontrivial(any(s.any() for s in syndromes) and len(syndromes) > 1)
    c.label(*options)
    answers = run_history(c, {**case, "calls": []}, decoder, syndromes)
    for s, got in zip(syndromes, answers):
        c.equal(F.matmul(rows, got.reshape(-1, 1)).ravel(), s, "syndrome of the correction")
        one_shot = util.ints(
            decoders().decode(matrix, s, **options), (rows.shape[1],), "correction", 2
        )
        c.equal(
            F.matmul(rows, one_shot.reshape(-1, 1)).ravel(), s, "syndrome of a one-shot correction"
        )


@st.composite
def library_problems(draw: Any) -> dict:
    """Binary problems with options of the decoders of other libraries."""
    kind = draw(st.sampled_from(["BP_OSD", "BP_LSD", "BF", "MWPM", "none"]))
    case = draw(graphs() if kind == "MWPM" else problems((2,), False))
    n = len(case["rows"][0])
    levels = st.sampled_from([0.01, 0.02, 0.05, 0.1, 0.2, 0.3])
    rates = draw(st.lists(levels, min_size=n, max_size=n))
    if kind == "MWPM":
        options: dict = {"weights": [round(1 + 20 * rate, 3) for rate in rates]}
    else:
        options = {"error_channel": rates} if draw(st.booleans()) else {"error_rate": draw(levels)}
        options["max_iter"] = draw(st.integers(1, 6))
        options["bp_method"] = draw(st.sampled_from(["product_sum", "minimum_sum"]))
        if kind in ("BP_OSD", "none"):
            method, order = draw(st.sampled_from([("osd_0", 0), ("osd_cs", 2), ("osd_e", 1)]))
            # (the library ends the process if the order exceeds the number of free columns)
            order = min(order, n - ff.get(2).rank(np.array(case["rows"], dtype=int)))
            options |= {"osd_method": method if order else "osd_0", "osd_order": order}
    return case | dict(kind=kind, options=options)


@PROP.test(library_problems, quick=500, thorough=8000, shards=1)
def library_options(case: dict, c: Context) -> None:
    """Options for the decoders of other libraries arrive there, and are not changed."""
    import ldpc
    import pymatching

    F = ff.get(2)
    rows, kind = np.array(case["rows"], dtype=int), case["kind"]
    syndromes = achievable(F, rows, case)
    options = dict(case["options"])
    choice = {} if kind == "none" else {f"with_{kind}": True}
    if kind == "MWPM":
        reference: Any = pymatching.Matching.from_check_matrix(rows, **options)
    else:
        constructor: Any = {
            "BP_LSD": ldpc.bplsd_decoder.BpLsdDecoder,
            "BF": ldpc.BeliefFindDecoder,
        }.get(kind, ldpc.BpOsdDecoder)
        try:
            reference = constructor(rows.astype(np.uint8), **options)
        except Exception:
            c.label("refused by the library")
            return
    c.label(kind, *sorted(options))
    decoder = decoders().get_decoder(present(rows, 2, case["form"]), **choice, **options)
    c.equal(case["options"], options, "the caller's options are unchanged")
    if kind == "MWPM":
        weights = np.array(options["weights"])
        everything = F.all_vectors(rows.shape[1])
        costs, all_syndromes = everything @ weights, F.matmul(everything, rows.T)
    for index in [*range(len(syndromes)), *(i % len(syndromes) for i in case["calls"])]:
        s = syndromes[index]
        expected = util.ints(reference.decode(s.astype(np.uint8)), (rows.shape[1],), "reference", 2)
        c.nontrivial(s.any())
        given = given_syndrome(s, 2, case["forms"][index])
        got = util.ints(decoder.decode(given), (rows.shape[1],), "correction", 2)
        if kind == "MWPM":
            c.equal(F.matmul(rows, got.reshape(-1, 1)).ravel(), s, "syndrome of the correction")
            least = costs[(all_syndromes == s).all(axis=1)].min()
            c.require(got @ weights <= least + 1e-6, "least total weight", got @ weights, least)
        else:
            c.equal(got, expected, "answer of the decoder with the given options")
            if kind != "BF":
                c.equal(F.matmul(rows, got.reshape(-1, 1)).ravel(), s, "syndrome of the correction")
        if kind != "MWPM":
            # the libraries ask for an error rate, users need not
            bare = decoders().get_decoder(present(rows, 2, case["form"]), **choice)
            got_bare = util.ints(bare.decode(s.astype(np.uint8)), (rows.shape[1],), "correction", 2)
            if kind != "BF":
                solved = F.matmul(rows, got_bare.reshape(-1, 1)).ravel()
                c.equal(solved, s, "syndrome of the correction without options")
        if index == 0:
            once = decoders().decode(present(rows, 2, case["form"]), s, **choice, **options)
            c.equal(
                util.ints(once, (rows.shape[1],), "one-shot correction", 2),
                got,
                "one-shot correction",
            )


class Recorder:
    """A decoder that answers with a function of the syndrome, and keeps what it was given."""

    def __init__(self, q: int, length: int) -> None:
        self.q, self.length = q, length
        self.seen: list[list[int]] = []

    def decode(self, syndrome: Any) -> np.ndarray:
        self.seen.append([int(x) for x in np.asarray(syndrome)])
        return answer_to(self.seen[-1], self.q, self.length)


def answer_to(syndrome: list[int], q: int, length: int) -> np.ndarray:
    total = sum((i + 1) * x for i, x in enumerate(syndrome))
    return np.array([(total + j * (1 + len(syndrome))) % q for j in range(length)], dtype=int)


@st.composite
def wrappers(draw: Any) -> dict:
    q = draw(gen.field_orders((2, 2, 3, 4, 5)))
    rows = draw(gen.matrix(q, 1, 4, 1, 6))
    n, m = len(rows[0]), len(rows)
    return dict(
        q=q,
        rows=rows,
        form=draw(st.integers(0, 2)),
        words=[
            [draw(st.integers(0, q - 1)) for _ in range(n)] for _ in range(draw(st.integers(1, 4)))
        ],
        blocks=[
            [draw(st.integers(0, q - 1)) for _ in range(m)] for _ in range(draw(st.integers(1, 5)))
        ],
        exact=draw(st.booleans()),
    )


@PROP.test(wrappers, quick=500, thorough=8000, shards=1)
def wrapped_decoders(case: dict, c: Context) -> None:
    """Block and direct decoders do what the wrapped decoder does."""
    import galois

    q = case["q"]
    F = ff.get(q)
    rows = np.array(case["rows"], dtype=int)
    m, n = rows.shape
    c.label(f"q={q}")
    c.nontrivial(rows.any() and len(case["words"]) + len(case["blocks"]) > 2)
    # blocks
    recorder = Recorder(q, n)
    block = decoders().BlockDecoder(m, recorder)
    syndrome = np.array(case["blocks"], dtype=int).ravel()
    if case["form"] == 2:
        syndrome = galois.GF(q)(syndrome)
    got = util.ints(block.decode(syndrome), (n * len(case["blocks"]),), "correction of blocks")
    c.equal(recorder.seen, case["blocks"], "syndromes of blocks, in order")
    expected = np.concatenate([answer_to(s, q, n) for s in case["blocks"]])
    c.equal(got, expected, "corrections of blocks, in order")
    c.equal(
        np.asarray(syndrome).astype(int), np.array(case["blocks"]).ravel(), "syndrome is unchanged"
    )
    # direct decoders
    matrix = present(rows, q, case["form"])
    inner: Any = Recorder(q, n)
    if case["exact"]:
        inner = decoders().get_decoder(present(rows, q, 2), with_GUF=True)
    direct = decoders().DirectDecoder.from_indirect(inner, matrix)
    for word in case["words"]:
        given: np.ndarray = np.array(word, dtype=int)
        if case["form"] == 2:
            given = galois.GF(q)(given)
        elif case["form"] == 1:
            given = given.astype(np.uint8)
        fixed = util.ints(direct.decode(given), (n,), "corrected word", q)
        c.equal(np.asarray(given).astype(int), np.array(word), "the caller's word is unchanged")
        s = F.matmul(rows, np.array(word).reshape(-1, 1)).ravel()
        if case["exact"]:
            c.require(
                not F.matmul(rows, fixed.reshape(-1, 1)).any(), "corrected words are code words"
            )
        else:
            c.equal(inner.seen[-1], s.tolist(), "syndrome given to the wrapped decoder")
            c.equal(fixed, F.minus(np.array(word), answer_to(s.tolist(), q, n)), "corrected word")
    # other ways to obtain decoders
    own = Recorder(q, n)
    c.require(
        decoders().get_decoder(matrix, static_decoder=own) is own, "static decoders are returned"
    )
    s = case["blocks"][0]
    got = decoders().decode(matrix, np.array(s), static_decoder=own)
    c.equal(util.ints(got, (n,), "correction"), answer_to(s, q, n), "static decoders are used")
    made: list = []

    def constructor(matrix: Any, **kwargs: Any) -> Any:
        made.append((np.asarray(matrix).astype(int), kwargs))
        return own

    got_decoder = decoders().get_decoder(matrix, decoder_constructor=constructor, option=7)
    c.require(got_decoder is own, "constructed decoders are returned")
    c.require(
        np.array_equal(made[0][0], rows) and made[0][1] == {"option": 7}, "constructor arguments"
    )


@PROP.test(lambda: problems((3, 4, 5), False), quick=120, thorough=2000, shards=1)
def default_decoder_of_fields(case: dict, c: Context) -> None:
    """Matrices over other fields get a decoder for that field."""
    q = case["q"]
    F = ff.get(q)
    rows = np.array(case["rows"], dtype=int)
    matrix = present(rows, q, 2)
    c.label(f"q={q}")
    options = {} if case["by_call"] else {"with_GUF": True}
    c.nontrivial(len(case["errors"]) > 1)
    for s in achievable(F, rows, case):
        got = util.ints(decoders().decode(matrix, s, **options), (rows.shape[1],), "correction", q)
        c.equal(F.matmul(rows, got.reshape(-1, 1)).ravel(), s, "syndrome of the correction")


@PROP.test(lambda: problems((2, 3, 4, 5), True), quick=150, thorough=2000, shards=1)
def symplectic_weights(case: dict, c: Context) -> None:
    for error in case["errors"]:
        vector = present(np.array(error, dtype=int), case["q"], case["form"])
        got = decoders().get_symplectic_weight(vector)
        expected = int(weight_of(np.array(error), True)[0])
        c.equal(int(got), expected, "symplectic weight")
        c.nontrivial(expected >= 2)
