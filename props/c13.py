"""C13: product codes obey their formulas and commute, for all seed codes."""

from __future__ import annotations

import itertools
from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, gen, group as gr, quantum, util
from vlib.core import Context, Property

PROP = Property(
    "C13",
    "Hypergraph, subsystem hypergraph, lifted and subsystem lifted products of random seed matrices"
    " (dependent, zero and repeated rows and columns included) over F_2,3,4,5,9 and of random arrays"
    " over group algebras, with up to about 40 qudits (distances: up to 10^5 operators per type)."
    "  Non-trivial: both seeds have rank at least 1 and there are at least 4 qudits.",
)


def codes() -> Any:
    from qldpc import codes

    return codes


@st.composite
def seeds(draw: Any, limit: int = 26) -> dict:
    q = draw(gen.field_orders((2, 3, 4, 5, 9)))
    same = draw(st.integers(0, 3)) == 0
    cap = limit if q == 2 else limit * 2 // 3
    a = draw(gen.matrix(q, 1, 3, 1, 4 if same else 5))
    if same:
        b = a
    else:
        b = draw(gen.matrix(q, 1, 3, 1, 5))
        while len(a[0]) * len(b[0]) + len(a) * len(b) > cap and len(b[0]) > 1:
            b = [row[:-1] for row in b]
        while len(a[0]) * len(b[0]) + len(a) * len(b) > cap and len(a[0]) > 1:
            a = [row[:-1] for row in a]
    return dict(
        q=q,
        a=a,
        b=b,
        same=same,
        form=draw(st.integers(0, 4)),
        mix=draw(st.integers(0, 10**6)),
        logicals=draw(st.booleans()),
    )


def present(case: dict, rows: list) -> tuple[Any, dict]:
    """Seeds as codes, nested lists, arrays or field arrays."""
    import galois

    q, form = case["q"], case["form"]
    array = np.array(rows, dtype=int)
    if form == 0:
        return codes().ClassicalCode(array, q), {}
    if form == 1:
        return array.tolist(), {"field": q}
    if form == 2:
        return galois.GF(q)(array), {}
    if form == 4:
        # a code with a generator chosen by the user: any basis of its words
        code = codes().ClassicalCode(array, q)
        code.set_generator(any_basis(ff.get(q), ff.get(q).null_space(array), case["mix"]))
        return code, {}
    return array, {"field": q}


def any_basis(F: Any, basis: np.ndarray, seed: int) -> np.ndarray:
    """The same space spanned by other vectors."""
    rng = np.random.default_rng(seed)
    basis = np.array(basis)
    for _ in range(2 * len(basis) if len(basis) > 1 else 0):
        i, j = rng.choice(len(basis), 2, replace=False)
        basis[i] = F.plus(basis[i], F.times(int(rng.integers(1, F.q)), basis[j]))
    for i in range(len(basis)):
        basis[i] = F.times(int(rng.integers(1, F.q)), basis[i])
    return basis[rng.permutation(len(basis))] if len(basis) else basis


def classical(F: Any, h: np.ndarray) -> tuple[int, int, int | None, int | None]:
    """Dimension of a code and of its transpose, and their distances (None without codewords)."""
    out: list = []
    for matrix in (h, h.T):
        words = F.null_space(matrix)
        k = len(words)
        d = None
        if k:
            span = F.span(words)
            weights = np.count_nonzero(span, axis=1)
            d = int(weights[weights > 0].min())
        out.append((k, d))
    return out[0][0], out[1][0], out[0][1], out[1][1]


def hgp_matrices(F: Any, a: np.ndarray, b: np.ndarray) -> tuple[np.ndarray, np.ndarray]:
    """The documented parity checks."""
    (m1, n1), (m2, n2) = a.shape, b.shape
    x = np.hstack([F.kron(a, np.eye(n2, dtype=int)), F.kron(np.eye(m1, dtype=int), b.T)])
    z = np.hstack(
        [F.neg[F.kron(np.eye(n1, dtype=int), b)], F.kron(a.T, np.eye(m2, dtype=int))]
    )
    return x, z


def stack(x: np.ndarray, z: np.ndarray) -> np.ndarray:
    zero_x, zero_z = np.zeros_like(x), np.zeros_like(z)
    return np.vstack([np.hstack([x, zero_x]), np.hstack([zero_z, z])])


def check_distances(
    c: Context, F: Any, code: Any, hx: np.ndarray, hz: np.ndarray, k: int, dx: Any, dz: Any, what: str
) -> None:
    """Formulas against exact distances of the documented checks, and against reported ones."""
    from qldpc.objects import Pauli

    n, gauge = hx.shape[1], F.rank(F.matmul(hx, hz.T))
    size = max(F.q ** (n - F.rank(h) + gauge) for h in (hx, hz))
    if size > 10**5:
        return
    exact_x = quantum.css_min_distance(F, hx, hz) if k else None
    exact_z = quantum.css_min_distance(F, hz, hx) if k else None
    c.equal((exact_x, exact_z), (dx, dz), f"{what}: distances of the documented code")
    if k and size <= 3000:
        c.label("distances")
        got_x, got_z = code.get_distance(Pauli.X), code.get_distance(Pauli.Z)
        c.equal((int(got_x), int(got_z)), (dx, dz), f"{what}: reported distances")
        n = len(code)
        params = code.get_code_params()
        c.equal(tuple(map(int, params)), (n, k, min(dx, dz)), f"{what}: reported parameters")


def least(*distances: Any) -> Any:
    return min([d for d in distances if d is not None], default=None)


@PROP.test(seeds, quick=700, thorough=9000, shards=4)
def hypergraph_products(case: dict, c: Context) -> None:
    q = case["q"]
    F = ff.get(q)
    a, b = np.array(case["a"], dtype=int), np.array(case["b"], dtype=int)
    given_a, kwargs = present(case, case["a"])
    given_b, _ = present(case, case["b"])
    if case["same"]:
        c.label("one seed")
        code = codes().HGPCode(given_a, **kwargs, set_logicals=case["logicals"])
    else:
        code = codes().HGPCode(given_a, given_b, **kwargs, set_logicals=case["logicals"])
    (m1, n1), (m2, n2) = a.shape, b.shape
    n = n1 * n2 + m1 * m2
    k1, t1, d1, dt1 = classical(F, a)
    k2, t2, d2, dt2 = classical(F, b)
    k = k1 * k2 + t1 * t2
    c.nontrivial(a.any() and b.any() and n >= 4)
    c.label(f"q={q}", "logical qudits in both sectors" if k1 * k2 and t1 * t2 else "one sector or none")
    hx, hz = hgp_matrices(F, a, b)
    rows = stack(hx, hz)
    data = quantum.check_code(c, code, rows, n, q, what="HGPCode", subsystem=False)
    c.equal(data["k"], k, "HGPCode: dimension formula")
    c.equal(
        np.asarray(code.sector_size).tolist(),
        [[n1 * n2, n1 * m2], [m1 * n2, m1 * m2]],
        "HGPCode: sector sizes",
    )
    dx = least(d2 if k1 * k2 else None, dt1 if t1 * t2 else None)
    dz = least(d1 if k1 * k2 else None, dt2 if t1 * t2 else None)
    check_distances(c, F, code, hx, hz, k, dx, dz, "HGPCode")

    # the matrix product by itself
    got = codes().HGPCode.get_matrix_product(
        codes().ClassicalCode(a, q).matrix, codes().ClassicalCode(b, q).matrix
    )
    for name, matrix, expected in [("X", got[0], hx), ("Z", got[1], hz)]:
        c.equal(util.ints(matrix, expected.shape, f"{name} checks", q), expected, f"{name} checks")

    # Fourier transforms act on the (1, 1) sector by default
    image = rows.copy()
    sector = slice(n1 * n2, n)
    x, z = rows[:, :n][:, sector], rows[:, n:][:, sector]
    image[:, :n][:, sector], image[:, n:][:, sector] = F.neg[z], x
    rotated = util.ints(code.conjugated().matrix, rows.shape, "conjugated checks", q)
    c.require(F.same_span(rotated, image), "HGPCode: default conjugation", rotated)


@PROP.test(seeds, quick=300, thorough=4000, shards=2)
def graph_products(case: dict, c: Context) -> None:
    """The construction from Tanner graphs gives the documented code and layout."""
    from qldpc.objects import Node

    q = case["q"]
    F = ff.get(q)
    a, b = np.array(case["a"], dtype=int), np.array(case["b"], dtype=int)
    (m1, n1), (m2, n2) = a.shape, b.shape
    n = n1 * n2 + m1 * m2
    c.nontrivial(a.any() and b.any() and n >= 4)
    cls = codes().HGPCode
    graph_a, graph_b = (codes().ClassicalCode(h, q).graph for h in (a, b))
    graph = cls.get_graph_product(graph_a, graph_b)
    hx, hz = hgp_matrices(F, a, b)
    rows = stack(hx, hz)
    matrix = util.ints(codes().QuditCode.graph_to_matrix(graph), None, "checks of the graph", q)
    if matrix.shape == rows.shape:
        c.equal(matrix, rows, "checks of the product of Tanner graphs")
    else:
        # qudits or checks without edges cannot be absent
        c.equal(matrix.shape, rows.shape, "checks of the product of Tanner graphs")
    c.equal(getattr(graph, "order", 2), q, "field of the graph")

    # documented sectors and order of nodes
    node_map = cls.get_product_node_map(graph_a.nodes, graph_b.nodes)
    nodes_a = [(Node(i, is_data=True), 0, i) for i in range(n1)]
    nodes_a += [(Node(i, is_data=False), 1, i) for i in range(m1)]
    nodes_b = [(Node(i, is_data=True), 0, i) for i in range(n2)]
    nodes_b += [(Node(i, is_data=False), 1, i) for i in range(m2)]
    c.equal(len(node_map), len(nodes_a) * len(nodes_b), "size of the node map")
    for (na, sa, ia), (nb, sb, ib) in itertools.product(nodes_a, nodes_b):
        c.equal(tuple(cls.get_sector(na, nb)), (sa, sb), "sector of a pair of nodes")
        node = node_map[na, nb]
        index = {
            (0, 0): ia * n2 + ib,
            (1, 1): n1 * n2 + ia * m2 + ib,
            (1, 0): ia * n2 + ib,
            (0, 1): m1 * n2 + ia * m2 + ib,
        }[sa, sb]
        c.equal((node.index, bool(node.is_data)), (index, sa == sb), f"node {(na, nb)}")
        if sa != sb:
            c.require(node in graph, "check nodes are in the graph")
            neighbours = {int(x.index) for x in graph.successors(node)} if node in graph else set()
            c.equal(
                neighbours,
                set(np.nonzero(np.maximum(rows[index, :n], rows[index, n:]))[0].tolist()),
                "qudits next to a check",
            )


@PROP.test(seeds, quick=400, thorough=5000, shards=3)
def subsystem_products(case: dict, c: Context) -> None:
    q = case["q"]
    F = ff.get(q)
    a, b = np.array(case["a"], dtype=int), np.array(case["b"], dtype=int)
    given_a, kwargs = present(case, case["a"])
    given_b, _ = present(case, case["b"])
    args = [given_a] if case["same"] else [given_a, given_b]
    code = codes().SHPCode(*args, **kwargs, set_logicals=case["logicals"])
    (_, n1), (_, n2) = a.shape, b.shape
    n = n1 * n2
    hx, hz = F.kron(a, np.eye(n2, dtype=int)), F.kron(np.eye(n1, dtype=int), b)
    k1, _, d1, _ = classical(F, a)
    k2, _, d2, _ = classical(F, b)
    c.nontrivial(a.any() and b.any() and n >= 4)
    c.label(f"q={q}", "logical qudits" if k1 * k2 else "no logical qudits")
    data = quantum.check_code(c, code, stack(hx, hz), n, q, what="SHPCode", subsystem=True)
    c.equal(data["k"], k1 * k2, "SHPCode: dimension formula")
    dx, dz = (d2, d1) if k1 * k2 else (None, None)
    # dressed distances: stabilizers of one type decide errors of the other type
    stabs_x = F.kron(a, F.null_space(b)) if k2 else np.zeros((0, n), dtype=int)
    stabs_z = F.kron(F.null_space(a), b) if k1 else np.zeros((0, n), dtype=int)
    center = F.center(stack(hx, hz))
    c.require(
        F.same_span(stack(stabs_x.reshape(-1, n), stabs_z.reshape(-1, n)), center)
        if len(center)
        else not stabs_x.any() and not stabs_z.any(),
        "SHPCode: stabilizer formula",
    )
    check_distances(c, F, code, hx, hz, k1 * k2, dx, dz, "SHPCode")

    # only the classical codes matter, not their parity checks
    other = codes().SHPCode(
        codes().ClassicalCode(F.rref(a) if a.any() else a, q),
        codes().ClassicalCode(b[::-1].copy(), q),
    )
    other_rows = util.ints(other.matrix, (None, 2 * n), "SHPCode", q)
    c.require(F.same_span(other_rows, stack(hx, hz)), "SHPCode: equivalent seeds")


@st.composite
def protographs(draw: Any) -> dict:
    """Arrays over a group algebra whose products have at most about 40 qudits."""
    subsystem = draw(st.booleans())
    abelian = draw(st.integers(0, 4)) > 0
    q = draw(gen.field_orders((2, 2, 3, 4, 5, 9)))
    pool = [s for s in gr.SMALL if gr.known_order(s) <= 8]
    if abelian:
        pool = [s for s in pool if s not in gr.NON_ABELIAN]
    spec = draw(st.sampled_from(pool))
    if gr.lift_field(spec) not in (None, q):
        spec = ["dihedral", 3]
    n = gr.known_order(spec)
    dim = sum(spec[1:]) if spec[0] == "abelian_sum" else n
    cap = (40 if q == 2 else 26) // dim

    def entry() -> list:
        kind = draw(st.integers(0, 4))
        vec = [0] * n
        if kind in (1, 2):
            vec[draw(st.integers(0, n - 1))] = draw(st.integers(1, q - 1))
        elif kind > 2:
            for _ in range(3):
                vec[draw(st.integers(0, n - 1))] = draw(st.integers(1, q - 1))
        return vec

    shapes = [
        (r1, c1, r2, c2)
        for r1, c1, r2, c2 in itertools.product(range(1, 4), repeat=4)
        if c1 * c2 + (0 if subsystem else r1 * r2) <= max(cap, 2)
    ]
    r1, c1, r2, c2 = draw(st.sampled_from(shapes or [(1, 1, 1, 1)]))
    return dict(
        spec=spec,
        q=q,
        a=[[entry() for _ in range(c1)] for _ in range(r1)],
        b=[[entry() for _ in range(c2)] for _ in range(r2)],
        same=(r1, c1) == (r2, c2) and draw(st.booleans()),
        subsystem=subsystem,
    )


@PROP.test(protographs, quick=350, thorough=4000, shards=4)
def lifted_products(case: dict, c: Context) -> None:
    """Checks are the documented block matrices, or the code is refused if they do not commute."""
    from qldpc import abstract

    q = case["q"]
    F = ff.get(q)
    group = gr.build(case["spec"])
    ring = abstract.GroupRing(group, q)
    members = list(group.generate())
    dim = int(group.lift_dim)
    up = [np.asarray(group.lift(g)).astype(int) % (q if q != 4 else 2**30) for g in members]
    down = [np.asarray(group.lift(~g)).astype(int) % (q if q != 4 else 2**30) for g in members]
    a = np.array(case["a"], dtype=int)
    b = a if case["same"] else np.array(case["b"], dtype=int)
    c.label(case["spec"][0], f"q={q}", "subsystem" if case["subsystem"] else "stabilizer")

    def lift(vec: np.ndarray, matrices: list) -> np.ndarray:
        out = np.zeros((dim, dim), dtype=int)
        for value, matrix in zip(vec, matrices):
            out = F.plus(out, F.times(int(value), matrix))
        return out

    def blocks(grid: list) -> np.ndarray:
        return np.block(grid) if grid and grid[0] else np.zeros((0, 0), dtype=int)

    (r1, c1), (r2, c2) = a.shape[:2], b.shape[:2]
    zero = np.zeros((dim, dim), dtype=int)

    def kron(left: np.ndarray | int, right: np.ndarray | int, transposed: bool, sign: bool) -> np.ndarray:
        """kron(array, identity) or kron(identity, array), lifted."""
        if isinstance(right, int):
            array, size = left, right
        else:
            array, size = right, left
        shape = array.shape[:2][::-1] if transposed else array.shape[:2]
        inner = [
            [
                lift(array[j, i], down) if transposed else lift(array[i, j], up)
                for j in range(shape[1])
            ]
            for i in range(shape[0])
        ]
        if sign:
            inner = [[F.neg[x] for x in row] for row in inner]
        if isinstance(right, int):
            return blocks(
                [
                    [inner[i][j] if k == l else zero for j in range(shape[1]) for l in range(size)]
                    for i in range(shape[0])
                    for k in range(size)
                ]
            )
        return blocks(
            [
                [inner[i][j] if k == l else zero for l in range(size) for j in range(shape[1])]
                for k in range(size)
                for i in range(shape[0])
            ]
        )

    if case["subsystem"]:
        hx, hz = kron(a, c2, False, False), kron(c1, b, False, False)
        n = dim * c1 * c2
    else:
        hx = np.hstack([kron(a, c2, False, False), kron(r1, b, True, False)])
        hz = np.hstack([kron(c1, b, False, True), kron(a, r2, True, False)])
        n = dim * (c1 * c2 + r1 * r2)
    array_a = abstract.RingArray.from_field_array(ring, a)
    array_b = abstract.RingArray.from_field_array(ring, b)
    args = [array_a] if case["same"] else [array_a, array_b]
    c.nontrivial(a.any() and b.any() and n >= 4)
    if case["subsystem"]:
        code = codes().SLPCode(*args)
        what = "SLPCode"
    else:
        what = "LPCode"
        if F.matmul(hx, hz.T).any():
            c.label("not commuting")
            c.raises(ValueError, lambda: codes().LPCode(*args), "LPCode: checks do not commute")
            return
        if not group.is_abelian:
            c.label("commuting over a non-Abelian group")
        code = codes().LPCode(*args)
        c.equal(
            np.asarray(code.sector_size).tolist(),
            [[dim * c1 * c2, dim * c1 * r2], [dim * r1 * c2, dim * r1 * r2]],
            "LPCode: sector sizes",
        )
        if group.is_abelian and (not case["same"] or n <= 16):
            # X and Z parameters are exchanged by transposing (up to signs)
            c.equal(F.rank(hx) + F.rank(hz) + int(code.dimension), n, "LPCode: dimension")
    rows = stack(hx, hz)
    quantum.check_code(
        c, code, rows, n, q, what=what, subsystem=case["subsystem"], gauge=n <= 24
    )
    if not case["subsystem"]:
        image = rows.copy()
        sector = slice(dim * c1 * c2, n)
        x, z = rows[:, :n][:, sector], rows[:, n:][:, sector]
        image[:, :n][:, sector], image[:, n:][:, sector] = F.neg[z], x
        rotated = util.ints(code.conjugated().matrix, rows.shape, "conjugated checks", q)
        c.require(F.same_span(rotated, image), "LPCode: default conjugation")

    # one-by-one arrays give two-block codes
    if what == "LPCode" and a.shape[:2] == (1, 1) == b.shape[:2]:
        c.label("two-block code")
        two_block = codes().TBCode(lift(a[0, 0], up), lift(b[0, 0], down), q)
        c.require(
            F.same_span(util.ints(two_block.matrix, rows.shape, "TBCode", q), rows),
            "two-block code of a one-by-one lifted product",
        )


@PROP.test(seeds, quick=150, thorough=2000, shards=2)
def trivial_lifts(case: dict, c: Context) -> None:
    """Lifted products over the trivial group are hypergraph products."""
    import galois
    from qldpc import abstract

    q = case["q"]
    F = ff.get(q)
    a, b = np.array(case["a"], dtype=int), np.array(case["b"], dtype=int)
    c.nontrivial(a.any() and b.any())
    c.label(f"q={q}")
    arrays = [abstract.TrivialGroup.to_ring_array(galois.GF(q)(h)) for h in (a, b)]
    hx, hz = hgp_matrices(F, a, b)
    code = codes().LPCode(*arrays)
    c.equal(code.field.order, q, "field")
    c.equal(util.ints(code.matrix_x, hx.shape, "X checks", q), hx, "LPCode: X checks")
    c.equal(util.ints(code.matrix_z, hz.shape, "Z checks", q), hz, "LPCode: Z checks")
    subsystem = codes().SLPCode(*arrays)
    for x, y in [
        (subsystem.matrix_x, F.kron(a, np.eye(b.shape[1], dtype=int))),
        (subsystem.matrix_z, F.kron(np.eye(a.shape[1], dtype=int), b)),
    ]:
        c.equal(util.ints(x, y.shape, "checks", q), y, "SLPCode: checks")


@PROP.test(cases=lambda tier: [1, 2], shards=1)
def documented_examples(case: int, c: Context) -> None:
    """Code parameters in the documentation of SLPCode."""
    from qldpc import abstract

    c.nontrivial()
    group = abstract.CyclicGroup(2 if case == 1 else 3)
    ring = abstract.GroupRing(group)
    x = abstract.RingMember(ring, group.generators[0])
    if case == 1:
        matrix = abstract.RingArray([[ring.one, x, x], [x, x, ring.one]])
        expected = (18, 4, 2)
    else:
        matrix = abstract.RingArray([[ring.one + x + x**2, ring.one + x, x]])
        expected = (27, 12, 2)
    code = codes().SLPCode(matrix)
    n, k = len(code), int(code.dimension)
    c.equal((n, k), expected[:2], "documented parameters")
    F = ff.get(2)
    hx = util.ints(code.matrix_x, (None, n), "X checks", 2)
    hz = util.ints(code.matrix_z, (None, n), "Z checks", 2)
    if case == 1:
        exact = quantum.css_min_distance(F, hx, hz), quantum.css_min_distance(F, hz, hx)
        c.equal(min(exact), expected[2], "documented distance")
    c.equal(int(code.get_distance()), expected[2], "reported distance")
