"""C04: named classical code families and Tanner codes."""

from __future__ import annotations

import itertools
from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, gen, util
from vlib.core import Context, Property

PROP = Property(
    "C04",
    "Every family at every admissible parameter up to brute-forceable size (enumerated), and random"
    " half-regular directed / regular undirected graphs with optional sort labels and random"
    " subcodes.  Non-trivial: the code has dimension at least 1 and at least one check.",
    [
        "BCH codes are compared with galois.BCH; their distance is only bounded by the BCH bound.",
        "Undirected Tanner graphs are compared through permutation-invariant quantities, because"
        " the order of the bits (edges) is not documented.",
    ],
)


def codes() -> Any:
    from qldpc import codes

    return codes


def span_and_distance(h: np.ndarray, q: int) -> tuple[int, int | None]:
    """Dimension and brute-force distance of the code with the given checks."""
    field = ff.get(q)
    n = h.shape[1]
    null = field.null_space(h)
    k = len(null)
    if k == 0:
        return 0, None
    if q**k <= 70000:
        return k, ff.min_weight(field.span(null))
    # smallest number of linearly dependent columns
    for w in range(1, n + 1):
        for cols in itertools.combinations(range(n), w):
            if field.rank(h[:, cols]) < w:
                return k, w
    raise AssertionError


def compare(
    c: Context, code: Any, n: int, q: int, k: int | None = None, d: int | None = None
) -> tuple[int, int | None]:
    """Check the declared parameters against the parity check matrix, and expected ones."""
    c.equal(code.field.order, q, "field")
    c.equal(len(code), n, "length")
    h = util.ints(code.matrix, (None, n), "parity checks", q)
    true_k, true_d = span_and_distance(h, q)
    c.nontrivial(true_k and len(h))
    c.equal(int(code.dimension), true_k, "declared dimension")
    c.equal(int(code.rank), n - true_k, "declared rank")
    if k is not None:
        c.equal(true_k, k, "dimension of the family")
    declared = code.get_distance() if q**true_k < 5000 or code.get_distance_if_known() else true_d
    if true_d is None:
        c.require(np.isnan(declared), "distance of a code with only the zero word", declared)
    else:
        c.equal(int(declared), true_d, "declared distance")
        if d is not None:
            c.equal(true_d, d, "distance of the family")
    fresh = codes().ClassicalCode(code.matrix)
    c.equal(int(fresh.dimension), true_k, "dimension computed from the checks")
    generator = util.ints(code.generator, (true_k, n), "generator", q)
    c.require(not np.any(ff.get(q).matmul(h, generator.T)), "generator violates checks")
    return true_k, true_d


def family_cases(tier: str) -> list:
    big = tier == "thorough"
    out: list = []
    for q in (2, 3, 4, 5, 7, 8, 9):
        out += [["repetition", n, q] for n in range(1, 13 if big else 9)]
        out += [["ring", n, q] for n in range(1, 13 if big else 9)]
    for q, top in [(2, 5), (3, 3), (4, 3), (5, 3), (7, 2), (8, 2), (9, 2)]:
        out += [["hamming", r, q] for r in range(1, top + 1)]
    out += [["extended", r] for r in range(2, 6)]
    out += [["simplex", k] for k in range(2, 8)]
    for m in range(0, 6 if big else 5):
        out += [["reed-muller", r, m, q] for r in range(m + 1) for q in (2, 3, 4)]
    for m in range(0, 4 if big else 3):
        out += [["reed-muller", r, m, q] for r in range(m + 1) for q in (5, 7, 9)]
    out += [["reed-solomon", n, k] for n in (3, 7) for k in range(1, n + 1)]
    if big:
        out += [["reed-solomon", 15, k] for k in (1, 2, 3, 12, 13, 14, 15)]
    out += [["bch", n, k, 2] for n in (3, 7, 15) for k in range(1, n + 1)]
    out += [["bch", n, k, 3] for n in (2, 8) for k in range(1, n + 1)]
    # primitive BCH codes over larger fields
    for q in (5, 7, 11, 13) if big else (5, 7, 11):
        n = q**2 - 1
        out += [
            ["bch", n, k, q]
            for k in (1, 2, 3, n - 4, n - 3, n - 2, n - 1, n)
            if q**k < 70000 or n - k < 3 or q == 5
        ]
    out += [["bch-bad", n, q] for q in (2, 3, 4, 5) for n in range(1, 30)]
    out += [["bch-bad", n, q] for q in (11, 13) for n in (1, 2, 3, 9, q - 2, q, q + 1)]
    out += [["rejected"]]
    return out


@PROP.test(cases=family_cases, shards=6)
def families(case: list, c: Context) -> None:
    kind, *args = case
    c.label(kind)
    if kind in ("repetition", "ring"):
        n, q = args
        cls = codes().RepetitionCode if kind == "repetition" else codes().RingCode
        code = cls(n, q) if q != 2 else cls(n)
        compare(c, code, n, q, 1, n)
        word = np.ones(n, dtype=int)
        c.require(word in code, "the all-ones word is a code word")
        h = util.ints(code.matrix, (n if kind == "ring" else n - 1, n), "checks", q)
        if n > 1:
            c.require((np.count_nonzero(h, axis=1) == 2).all(), "checks of weight two", h)
    elif kind == "hamming":
        r, q = args
        n = (q**r - 1) // (q - 1)
        code = codes().HammingCode(r, q) if q != 2 else codes().HammingCode(r)
        compare(c, code, n, q, n - r, 3 if n >= 3 else None)
        c.equal(code.num_checks, r, "checks of a Hamming code")
    elif kind == "extended":
        (r,) = args
        code = codes().ExtendedHammingCode(r)
        compare(c, code, 2**r, 2, 2**r - r - 1, 4)
        other = codes().ReedMullerCode(r - 2, r)
        c.require(codes().ClassicalCode.equiv(code, other), "extended Hamming = RM(r-2, r)")
        hamming = codes().HammingCode(r)
        c.require(
            codes().ClassicalCode.equiv(code.puncture(0), hamming),
            "puncturing the extended Hamming code gives the Hamming code",
        )
    elif kind == "simplex":
        (k,) = args
        code = codes().SimplexCode(k)
        n = 2**k - 1
        compare(c, code, n, 2, k, 2 ** (k - 1))
        words = ff.get(2).span(util.ints(code.generator, (k, n), "generator", 2))
        weights = np.count_nonzero(words, axis=1)
        c.require(sorted(weights)[1:] == [2 ** (k - 1)] * n, "weights of a simplex code")
    elif kind == "reed-muller":
        r, m, q = args
        code = codes().ReedMullerCode(r, m, q) if q != 2 else codes().ReedMullerCode(r, m)
        k = sum(util.prod(range(m, m - i, -1)) // util.prod(range(1, i + 1)) for i in range(r + 1))
        compare(c, code, 2**m, q, k, 2 ** (m - r))
        # evaluations of monomials of degree at most r
        points = list(itertools.product([0, 1], repeat=m))
        monomials = [
            [int(all(p[i] for i in s)) for p in points]
            for size in range(r + 1)
            for s in itertools.combinations(range(m), size)
        ]
        if q == 2:
            generator = util.ints(code.generator, (None, 2**m), "generator", 2)
            c.require(
                ff.get(2).same_span(generator, np.array(monomials)),
                "binary Reed-Muller codes consist of polynomials of bounded degree",
            )
            dual = ~code
            if r < m:
                c.require(
                    codes().ClassicalCode.equiv(dual, codes().ReedMullerCode(m - r - 1, m)),
                    "dual of a Reed-Muller code",
                )
        static = codes().ReedMullerCode.get_generator(r, m)
        generator = util.ints(static, (k, 2**m), "static generator")
        c.require(
            ff.get(q).same_span(generator, util.ints(code.generator, (k, 2**m), "generator", q)),
            "static generator spans the code",
        )
    elif kind == "reed-solomon":
        n, k = args
        code = codes().ReedSolomonCode(n, k)
        compare(c, code, n, n + 1, k, n - k + 1)
    elif kind == "bch":
        import galois

        n, k, q = args
        try:
            reference = galois.BCH(n, k, field=galois.GF(q))
        except Exception:
            reference = None
        if reference is None:
            c.raises(Exception, lambda: codes().BCHCode(n, k, q), "BCH code that does not exist")
            return
        code = codes().BCHCode(n, k, q) if q != 2 else codes().BCHCode(n, k)
        _, true_d = compare(c, code, n, q, k)
        c.require(k == n or true_d >= reference.d, "BCH bound", true_d, reference.d)
        generator = util.ints(reference.G, (k, n), "reference generator", q)
        c.require(
            ff.get(q).same_span(generator, util.ints(code.generator, (k, n), "generator", q)),
            "words of the BCH code",
        )
    elif kind == "bch-bad":
        n, q = args
        if n + 1 in {q**m for m in range(1, 8)}:
            return
        for k in range(1, min(n, 4) + 1):
            c.raises(ValueError, lambda: codes().BCHCode(n, k, q), "BCH block length")
    else:
        for r, m in [(-1, 0), (-1, 3), (1, 0), (4, 3), (0, -1), (-2, -1)]:
            c.raises(ValueError, lambda: codes().ReedMullerCode(r, m), "Reed-Muller parameters")
            c.raises(
                ValueError,
                lambda: codes().ReedMullerCode.get_generator(r, m),
                "Reed-Muller parameters",
            )
        for k in (0, 1, 8, 9):
            c.raises(ValueError, lambda: codes().SimplexCode(k), "simplex dimension")


####################################################################################################
# Tanner codes


@st.composite
def subcode(draw: Any, q: int, n: int) -> list:
    rows = draw(st.integers(1, max(1, n - 1)))
    return draw(gen.matrix(q, rows, rows, n, n))


@st.composite
def directed_case(draw: Any) -> dict:
    q = draw(gen.field_orders((2, 3, 4, 5)))
    degree = draw(st.integers(1, 4))
    num_bits = draw(st.integers(degree, 8 if q == 2 else 5))
    num_sources = draw(st.integers(1, 4))
    # distinct labels for all nodes, in scrambled order
    labels = draw(gen.permutation(num_bits + num_sources))
    bits, sources = labels[:num_bits], labels[num_bits:]
    edges = []
    for source in sources:
        chosen = draw(gen.permutation(num_bits))[:degree]
        mode = draw(st.integers(0, 2))
        ranks = draw(gen.permutation(degree))
        for i, index in enumerate(chosen):
            edges.append([source, bits[index], ranks[i] * 3 - 4 if mode == 1 else None])
    used = {edge[1] for edge in edges}
    # every bit must be addressed: attach idle bits' number to nothing (they would be isolated)
    bits = [b for b in bits if b in used]
    order = draw(gen.permutation(len(edges)))
    return {
        "q": q,
        "degree": degree,
        "edges": [edges[i] for i in order],
        "sub": draw(subcode(q, degree)),
    }


@PROP.test(directed_case, quick=1500, shards=2)
def directed_tanner_codes(case: dict, c: Context) -> None:
    import networkx as nx

    q, field = case["q"], ff.get(case["q"])
    graph = nx.DiGraph()
    for source, bit, label in case["edges"]:
        if label is None:
            graph.add_edge(source, bit)
        else:
            graph.add_edge(source, bit, sort=label)
    before = [(a, b, dict(data)) for a, b, data in graph.edges(data=True)]
    sub = util.mat(case["sub"], case["degree"])
    code = codes().TannerCode(graph, codes().ClassicalCode(sub, q))
    sources = sorted({e[0] for e in case["edges"]})
    bits = sorted({e[1] for e in case["edges"]})
    n = len(bits)
    c.equal(len(code), n, "number of bits")
    c.equal(code.num_checks, len(sources) * len(sub), "number of checks")
    words = field.all_vectors(n)
    inside = np.ones(len(words), dtype=bool)
    for source in sources:
        local = [e for e in case["edges"] if e[0] == source]
        local.sort(key=lambda e: e[1] if e[2] is None else e[2])
        cols = [bits.index(e[1]) for e in local]
        inside &= ~np.any(field.matmul(words[:, cols], sub.T), axis=1)
    h = util.ints(code.matrix, (None, n), "checks", q)
    got = ~np.any(field.matmul(words, h.T), axis=1)
    c.nontrivial(1 < inside.sum() < len(words))
    if any(e[2] is not None for e in case["edges"]):
        c.label("sorted")
    c.equal(got, inside, "words of the Tanner code")
    # the constructor leaves the graph alone, and is repeatable
    after = [(a, b, dict(data)) for a, b, data in graph.edges(data=True)]
    c.equal(after, before, "the graph passed in was modified")
    again = codes().TannerCode(graph, codes().ClassicalCode(sub, q))
    c.equal(util.ints(again.matrix, h.shape, "checks", q), h, "building the code again")


@st.composite
def undirected_case(draw: Any) -> dict:
    # regular graphs: circulant graphs with relabelled vertices
    q = draw(gen.field_orders((2, 3, 4)))
    num = draw(st.integers(3, 6))
    half = draw(st.integers(1, 2 if num > 4 else 1))
    shifts = sorted(draw(gen.permutation((num - 1) // 2))[:half])
    shifts = [s + 1 for s in shifts]
    edges = sorted({tuple(sorted((i, (i + s) % num))) for i in range(num) for s in shifts})
    degree = 2 * len(shifts)
    labels = draw(gen.permutation(num))
    order = draw(gen.permutation(len(edges)))
    sort = draw(st.booleans())
    out = []
    for index in order:
        a, b = edges[index]
        out.append([labels[a], labels[b]])
    ranks = {}
    if sort:
        for v in range(num):
            ranks[str(v)] = draw(gen.permutation(degree))
    sub = draw(subcode(q, degree))
    return {"q": q, "degree": degree, "edges": out, "ranks": ranks, "sub": sub, "num": num}


@PROP.test(undirected_case, quick=600, shards=2)
def undirected_tanner_codes(case: dict, c: Context) -> None:
    import copy

    import networkx as nx

    q, field = case["q"], ff.get(case["q"])
    graph = nx.Graph()
    seen = {v: 0 for v in range(case["num"])}
    local: dict[int, list] = {v: [] for v in range(case["num"])}
    for index, (a, b) in enumerate(case["edges"]):
        data = {}
        if case["ranks"]:
            data = {"sort": {v: case["ranks"][str(v)][seen[v]] for v in (a, b)}}
        for v in (a, b):
            # by default, edges are sorted by the neighbor of the vertex
            rank = data["sort"][v] if data else (b if v == a else a)
            local[v].append((rank, index))
            seen[v] += 1
        graph.add_edge(a, b, **data)
    before = copy.deepcopy([(a, b, data) for a, b, data in graph.edges(data=True)])
    sub = util.mat(case["sub"], case["degree"])
    subcode_obj = codes().ClassicalCode(sub, q)
    code = codes().TannerCode(graph, subcode_obj)
    n = len(case["edges"])
    c.equal(len(code), n, "one bit per edge")
    c.equal(code.num_checks, case["num"] * len(sub), "number of checks")
    checks = []
    for v in range(case["num"]):
        cols = [index for _, index in sorted(local[v])]
        block = np.zeros((len(sub), n), dtype=int)
        block[:, cols] = sub
        checks.append(block)
    expected = np.vstack(checks)

    def profile(h: np.ndarray) -> list:
        null = field.null_space(h)
        if q ** len(null) > 10000:
            return [len(null)]
        words = field.span(null)
        return [len(null), sorted(np.count_nonzero(words, axis=1).tolist())]

    h = util.ints(code.matrix, expected.shape, "checks", q)
    c.nontrivial(field.rank(expected) < n)
    c.label("sorted" if case["ranks"] else "unsorted")
    c.equal(profile(h), profile(expected), "weight distribution of the Tanner code")
    after = [(a, b, data) for a, b, data in graph.edges(data=True)]
    c.require(after == before, "the graph passed in was modified", after, before)
    again = codes().TannerCode(graph, subcode_obj)
    c.equal(util.ints(again.matrix, h.shape, "checks", q), h, "building the code again")
