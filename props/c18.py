"""C18: group-algebra elements form an algebra that the lift represents."""

from __future__ import annotations

import itertools
from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, gen, group as gr, util
from vlib.core import Context, Property

PROP = Property(
    "C18",
    "Random elements and arrays of group algebras of all small groups (order up to 12, Abelian and"
    " not, with default and custom lifts) over F_2,3,4,5,7,8,9, compared to a reference convolution"
    " algebra on coefficient vectors.  Non-trivial: at least two nonzero coefficients in two"
    " elements of an algebra of dimension at least 2.",
)


def abstract() -> Any:
    from qldpc import abstract

    return abstract


@st.composite
def elements(draw: Any, count: int = 3, max_order: int = 12) -> dict:
    spec = draw(gr.small_specs(max_order))
    n = gr.known_order(spec)
    q = draw(gen.field_orders((2, 3, 4, 5, 7, 8, 9)))
    vecs = [draw(gen.row(q, n)) for _ in range(count)]
    return dict(
        spec=spec,
        q=q,
        vecs=vecs,
        order=draw(st.permutations(list(range(n)))),
        g=draw(st.integers(0, n - 1)),
        k=draw(st.integers(-4, 5)),
        split=draw(st.booleans()),
        power=draw(st.integers(0, 4)),
    )


def setting(case: dict) -> tuple[Any, Any, gr.Algebra, list]:
    group = gr.build(case["spec"])
    ring = abstract().GroupRing(group, case["q"])
    A = gr.algebra(group, case["q"])
    return group, ring, A, list(group.generate())


def element(case: dict, ring: Any, members: list, vector: list, form: int = 0) -> Any:
    """Build an element from its terms, possibly out of order, with zeros and repeated members."""
    cls = abstract().RingMember
    if form == 1:
        return cls.from_vector(ring, np.array(vector))
    if form == 2:
        return cls.from_vector(ring, ring.field(vector))
    F = ff.get(case["q"])
    terms: list = []
    for i in case["order"]:
        value = vector[i]
        if value == 1 and not case["split"]:
            terms.append(members[i])
        elif case["split"] and value:
            # a coefficient as a sum of two coefficients
            part = case["order"][0] % case["q"]
            terms.append((part, members[i]))
            terms.append((ring.field(int(F.minus(value, part))), members[i]))
        elif value or case["split"]:
            terms.append((value, members[i]))
    return cls(ring, *terms)


def times_int(F: Any, k: int, v: np.ndarray) -> np.ndarray:
    out = np.zeros(len(v), dtype=int)
    for _ in range(abs(k)):
        out = F.plus(out, v) if k > 0 else F.minus(out, v)
    return out


def nonzeros(case: dict) -> int:
    return sum(np.count_nonzero(v) >= 2 for v in case["vecs"])


@PROP.test(elements, quick=1200, thorough=12000, shards=3)
def arithmetic(case: dict, c: Context) -> None:
    group, ring, A, members = setting(case)
    F, n, q = A.F, A.n, A.q
    c.nontrivial(nonzeros(case) >= 2 and n >= 2)
    c.label("Abelian" if np.array_equal(A.table, A.table.T) else "non-Abelian")
    c.equal(bool(ring.is_semisimple), bool(n % F.p), "semisimple")
    vx, vy, vz = (np.array(v) for v in case["vecs"])
    x = element(case, ring, members, case["vecs"][0])
    y = element(case, ring, members, case["vecs"][1], 1)
    z = element(case, ring, members, case["vecs"][2], 2)
    g = members[case["g"]]
    vg = np.zeros(n, dtype=int)
    vg[case["g"]] = 1
    one = A.one()
    k, m = case["k"], case["power"]

    def check(got: Any, expected: np.ndarray, what: str) -> None:
        c.require(isinstance(got, abstract().RingMember), f"{what}: is a group-algebra element", got)
        c.equal(util.ints(got.to_vector(), (n,), what, q), expected, what)
        c.require(got.ring == ring, f"{what}: base ring")
        c.equal(bool(got), bool(expected.any()), f"{what}: truth value")

    def plain(v: np.ndarray) -> Any:
        return abstract().RingMember.from_vector(ring, v)

    for v, e in [(vx, x), (vy, y), (vz, z)]:
        check(e, v, "coefficient vector")
    check(ring.one, one, "one")
    check(ring.zero, np.zeros(n, dtype=int), "zero")
    check(x + y, F.plus(vx, vy), "sum")
    check(x - y, F.minus(vx, vy), "difference")
    check(-x, F.minus(0, vx), "negation")
    check(x * y, A.times(vx, vy), "product")
    check((x * y) * z, A.times(vx, A.times(vy, vz)), "associated product")
    check(x * (y + z), F.plus(A.times(vx, vy), A.times(vx, vz)), "distributed product")
    check(x * g, A.times(vx, vg), "product with a group member")
    check(g * x, A.times(vg, vx), "product of a group member with an element")
    check(x + g, F.plus(vx, vg), "sum with a group member")
    check(g + x, F.plus(vx, vg), "sum of a group member with an element")
    check(x - g, F.minus(vx, vg), "difference to a group member")
    check(g - x, F.minus(vg, vx), "difference of a group member and an element")
    check(k * x, times_int(F, k, vx), f"{k} times an element")
    check(x * k, times_int(F, k, vx), f"an element times {k}")
    check(x + k, F.plus(vx, times_int(F, k, one)), f"sum with {k}")
    check(k + x, F.plus(vx, times_int(F, k, one)), f"sum of {k} and an element")
    check(x - k, F.minus(vx, times_int(F, k, one)), f"difference to {k}")
    check(k - x, F.minus(times_int(F, k, one), vx), f"difference of {k} and an element")
    expected = one
    for _ in range(m):
        expected = A.times(expected, vx)
    check(x**m, expected, f"power {m}")
    check(x.T, A.transpose(vx), "transpose")
    check((x * y).T, A.times(A.transpose(vy), A.transpose(vx)), "transpose of a product")
    copied = x.copy()
    check(copied, vx, "copy")
    for e, v in [(x, vx), (y, vy), (z, vz)]:
        check(e, v, "elements are left alone")

    # equality and iteration
    c.equal(x == plain(vx), True, "equality does not depend on how an element was built")
    c.equal(x == y, bool(np.array_equal(vx, vy)), "equality of elements")
    c.equal(x == x.copy() + 0, True, "equality after adding zero")
    other_ring = abstract().GroupRing(group, 3 if q != 3 else 2)
    util.foreign_equality(c, x, g, other_ring.zero, other_ring.one)
    util.foreign_equality(c, ring, group, other_ring, abstract().GroupRing(abstract().CyclicGroup(n + 1), q))
    seen = np.zeros(n, dtype=int)
    for value, member in x:
        i = A.index[gr.perm_of(member, len(A.elements[0]))]
        seen[i] = F.plus(seen[i], int(value))
    c.equal(seen, vx, "iterating over terms")

    # inverses
    unit = A.unit(vx)
    inverse = x.inverse()
    c.equal(inverse is not None, unit, "invertibility")
    if unit:
        c.label("invertible")
        vi = util.ints(inverse.to_vector(), (n,), "inverse", q)
        c.equal(A.times(vx, vi), one, "inverse")
        c.equal(A.times(vi, vx), one, "inverse from the left")
        check(x**-1, vi, "power -1")
        check(x**-2, A.times(vi, vi), "power -2")
    else:
        c.label("not invertible")
        c.raises(ValueError, lambda: x**-1, "negative power of a non-invertible element")


@PROP.test(elements, quick=500, thorough=6000, shards=2)
def lifts(case: dict, c: Context) -> None:
    """Lifting turns operations on elements into operations on matrices."""
    q = gr.lift_field(case["spec"]) or case["q"]
    case = dict(case, q=q, vecs=[[v % q for v in row] for row in case["vecs"]])
    group, ring, A, members = setting(case)
    F, n = A.F, A.n
    c.nontrivial(nonzeros(case) >= 2 and n >= 2)
    c.label(case["spec"][0])
    vx, vy = (np.array(v) for v in case["vecs"][:2])
    x = element(case, ring, members, case["vecs"][0])
    y = element(case, ring, members, case["vecs"][1], 1)
    for name, dim in [("lift", group.lift_dim), ("regular_lift", n)]:

        def up(e: Any) -> np.ndarray:
            lifted = getattr(e, name)()
            c.require(isinstance(lifted, ring.field), f"{name} is a matrix over the base field")
            return util.ints(lifted, (dim, dim), name, q)

        lx, ly = up(x), up(y)
        terms = np.zeros((dim, dim), dtype=int)
        for value, member in zip(vx, members):
            of_member = util.ints(getattr(group, name)(member), (dim, dim), name, q)
            terms = F.plus(terms, F.times(int(value), of_member))
        c.equal(lx, terms, f"{name} of an element is the combination of those of members")
        c.equal(up(x + y), F.plus(lx, ly), f"{name} of a sum")
        c.equal(up(x - y), F.minus(lx, ly), f"{name} of a difference")
        c.equal(up(x * y), F.matmul(lx, ly), f"{name} of a product")
        c.equal(up(ring.one), np.eye(dim, dtype=int), f"{name} of one")
        c.equal(up(ring.zero), np.zeros((dim, dim), dtype=int), f"{name} of zero")
        monomial = True
        for member in members:
            of_member = np.asarray(getattr(group, name)(member)).astype(int)
            inverse = np.asarray(getattr(group, name)(~member)).astype(int)
            monomial = monomial and np.array_equal(inverse, of_member.T)
        if monomial:
            c.equal(up(x.T), lx.T, f"{name} of a transpose")
        inverse = x.inverse()
        if inverse is not None:
            c.equal(F.matmul(lx, up(inverse)), np.eye(dim, dtype=int), f"{name} of an inverse")
        elif name == "regular_lift":
            c.require(F.rank(lx) < dim, "elements without an inverse have singular regular lifts")


@PROP.test(
    cases=lambda tier: [
        dict(spec=spec, seed=seed)
        for spec in [["SL", 2, 3], ["SL", 2, 4], ["SL", 2, 5], ["quaternion"], ["PSL", 2, 4]]
        for seed in range(3 if tier == "quick" else 20)
    ],
    shards=1,
)
def matrix_group_lifts(case: dict, c: Context) -> None:
    """Lifts of elements of algebras of matrix groups, over the field of the group."""
    group = gr.build(case["spec"])
    q = gr.lift_field(case["spec"])
    F = ff.get(q)
    ring = abstract().GroupRing(group, q)
    members = list(group.generate())
    rng = np.random.default_rng(case["seed"])
    c.nontrivial()
    pick = [
        [(int(rng.integers(1, q)), members[int(i)]) for i in rng.integers(len(members), size=3)]
        for _ in range(2)
    ]
    x, y = (abstract().RingMember(ring, *terms) for terms in pick)
    dim = group.lift_dim
    lx, ly = (util.ints(e.lift(), (dim, dim), "lift", q) for e in (x, y))
    expected = np.zeros((dim, dim), dtype=int)
    for value, member in pick[0]:
        of_member = util.ints(group.lift(member), (dim, dim), "lift of a member", q)
        expected = F.plus(expected, F.times(value, of_member))
    c.equal(lx, expected, f"{case['spec']}: lift of an element")
    c.equal(util.ints((x * y).lift(), (dim, dim), "lift", q), F.matmul(lx, ly), "lift of a product")


@st.composite
def arrays(draw: Any) -> dict:
    case = draw(elements(count=0, max_order=8))
    n, q = gr.known_order(case["spec"]), case["q"]
    shape = [draw(st.integers(1, 3)) for _ in range(3)]
    case["A"] = draw(array(q, shape[0], shape[1], n))
    case["B"] = draw(array(q, shape[1], shape[2], n))
    case["C"] = draw(array(q, shape[0], shape[1], n))
    case["x"] = draw(gen.row(q, n))
    case["shape"] = shape
    return case


@st.composite
def array(draw: Any, q: int, rows: int, cols: int, n: int) -> list:
    out = []
    for _ in range(rows):
        line = []
        for _ in range(cols):
            kind = draw(st.integers(0, 3))
            if kind == 0:
                vec = [0] * n
            elif kind == 1:
                vec = [0] * n
                vec[draw(st.integers(0, n - 1))] = draw(st.integers(1, q - 1))
            else:
                vec = draw(gen.row(q, n))
            line.append(vec)
        out.append(line)
    return out


@PROP.test(arrays, quick=400, thorough=4000, shards=2)
def ring_arrays(case: dict, c: Context) -> None:
    group, ring, A, members = setting(case)
    F, n, q = A.F, A.n, A.q
    a, b, d = (np.array(case[k], dtype=int) for k in "ABC")
    r, m, s = case["shape"]
    c.nontrivial(a.any() and b.any() and n >= 2 and max(a.shape[:2]) >= 2)
    cls = abstract().RingArray

    def check(got: Any, expected: np.ndarray, what: str) -> None:
        c.require(isinstance(got, cls), f"{what}: is a RingArray", type(got))
        c.require(got.ring == ring, f"{what}: base ring")
        c.equal(got.shape, expected.shape[:-1], f"{what}: shape")
        c.equal(util.ints(got.to_field_array(), expected.shape, what, q), expected, what)

    ra = cls.from_field_array(ring, ring.field(a))
    rb = cls.from_field_array(ring, b)
    rd = cls(
        [[element(case, ring, members, d[i, j].tolist()) for j in range(m)] for i in range(r)]
    )
    check(ra, a, "round trip through coefficients")
    check(rb, b, "round trip through coefficients")
    check(rd, d, "array of elements")
    check(ra @ rb, A.matmul(a, b), "product")
    check(ra + rd, F.plus(a, d), "sum")
    check(ra - rd, F.minus(a, d), "difference")
    check(-ra, F.minus(0, a), "negation")
    check(ra.T, A.array_transpose(a), "transpose")
    check((ra @ rb).T, A.array_transpose(A.matmul(a, b)), "transpose of a product")
    check(rb.T @ ra.T, A.array_transpose(A.matmul(a, b)), "product of transposes")
    entrywise = np.zeros_like(a)
    scaled = np.zeros_like(a)
    scaled_right = np.zeros_like(a)
    vx = np.array(case["x"])
    x = abstract().RingMember.from_vector(ring, vx)
    for i, j in np.ndindex(r, m):
        entrywise[i, j] = A.times(a[i, j], d[i, j])
        scaled[i, j] = A.times(vx, a[i, j])
        scaled_right[i, j] = A.times(a[i, j], vx)
    check(ra * rd, entrywise, "entrywise product")
    check(x * ra, scaled, "product of an element and an array")
    check(ra * x, scaled_right, "product of an array and an element")
    check(case["k"] * ra, np.array([[times_int(F, case["k"], e) for e in w] for w in a]), "multiple")
    check(ra[:, :1], a[:, :1], "slice")
    check(ra.ravel(), a.reshape(r * m, n), "flattened array")
    check(np.kron(ra, rb), kron(A, a, b), "Kronecker product")
    check(np.vstack([ra, rd]), np.vstack([a, d]), "stacked arrays")

    # vectors of coefficients
    flat = ra.ravel()
    vector = util.ints(flat.to_field_vector(), (r * m * n,), "vector", q)
    c.equal(vector, a.ravel(), "vector of coefficients")
    check(cls.from_field_vector(ring, ring.field(vector)), a.reshape(r * m, n), "array from a vector")

    # lifts
    lift_q = gr.lift_field(case["spec"])
    for name, dim in [("lift", group.lift_dim), ("regular_lift", n)]:
        if name == "lift" and lift_q not in (None, q):
            continue
        c.label(name)

        def up(array: Any) -> np.ndarray:
            lifted = getattr(array, name)()
            c.require(isinstance(lifted, ring.field), f"{name} is a matrix over the base field")
            shape = (array.shape[0] * dim, array.shape[1] * dim)
            return util.ints(lifted, shape, name, q)

        la = up(ra)
        for i, j in np.ndindex(r, m):
            block = la[i * dim : (i + 1) * dim, j * dim : (j + 1) * dim]
            c.equal(block, util.ints(getattr(ra[i, j], name)(), (dim, dim), name), f"{name}: block")
        c.equal(up(ra @ rb), F.matmul(la, up(rb)), f"{name} of a product")
        c.equal(up(ra + rd), F.plus(la, up(rd)), f"{name} of a sum")
        if name == "regular_lift":
            c.equal(up(ra.T), la.T, f"{name} of a transpose")
            c.equal(la, A.block_left(a), f"{name}: acts on coefficient vectors")
        # arrays without entries
        for rows, cols in [(0, m), (r, 0), (0, 0)]:
            empty = up(ra[:rows, :cols])
            c.equal(empty.shape, (rows * dim, cols * dim), f"{name} of an array without entries")

    # reductions and products of vectors
    member = abstract().RingMember

    def check_member(got: Any, expected: np.ndarray, what: str) -> None:
        c.require(isinstance(got, member), f"{what}: is an element", type(got))
        c.require(got.ring == ring, f"{what}: base ring")
        c.equal(util.ints(got.to_vector(), (n,), what, q), expected, what)

    def total(vectors: np.ndarray) -> np.ndarray:
        out = np.zeros(n, dtype=int)
        for vector in vectors:
            out = F.plus(out, vector)
        return out

    u, v = a.reshape(-1, n), d.reshape(-1, n)
    products = np.array([A.times(x, y) for x, y in zip(u, v)])
    check_member(ra.sum(), total(u), "sum of the entries")
    check_member(np.sum(flat), total(u), "sum of the entries of a vector")
    check_member(np.trace(ra), total(a[range(min(r, m)), range(min(r, m))]), "trace")
    check_member(flat @ rd.ravel(), total(products), "product of vectors")
    check_member(np.dot(flat, rd.ravel()), total(products), "dot product")
    check(ra.sum(axis=0), np.array([total(a[:, j]) for j in range(m)]), "sum of the rows")
    check(ra[0] @ rb, A.matmul(a[:1], b)[0], "product of a row and an array")
    check(ra @ rb[:, 0], A.matmul(a, b[:, :1])[:, 0], "product of an array and a column")
    outer = np.array([[A.times(x, y) for y in v] for x in u])
    check(np.outer(flat, rd.ravel()), outer, "outer product")
    check(np.block([[ra, rd]]), np.hstack([a, d]), "block array")
    check(np.roll(ra, 1, axis=1), np.roll(a, 1, axis=1), "rolled array")
    check(ra[::-1], a[::-1], "reversed array")
    check(ra.copy(), a, "copy")
    check(ra, a, "arrays are left alone")


def kron(A: gr.Algebra, a: np.ndarray, b: np.ndarray) -> np.ndarray:
    out = np.zeros((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1], A.n), dtype=int)
    for i, j, k, l in itertools.product(*map(range, a.shape[:2] + b.shape[:2])):
        out[i * b.shape[0] + k, j * b.shape[1] + l] = A.times(a[i, j], b[k, l])
    return out


@st.composite
def built(draw: Any) -> dict:
    case = draw(elements(count=2, max_order=8))
    n, q = gr.known_order(case["spec"]), case["q"]
    rows, cols = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    entry = st.one_of(
        st.tuples(st.just("int"), st.integers(0, q - 1)),
        st.tuples(st.just("member"), st.integers(0, n - 1)),
        st.tuples(st.just("element"), gen.row(q, n)),
    ).map(list)
    case["kind"] = draw(st.sampled_from(["mixed", "mixed", "ints", "numpy", "members"]))
    if case["kind"] in ("ints", "numpy"):
        entry = st.tuples(st.just("int"), st.integers(0, q - 1)).map(list)
    if case["kind"] == "members":
        entry = st.tuples(st.just("member"), st.integers(0, n - 1)).map(list)
    case["data"] = [[draw(entry) for _ in range(cols)] for _ in range(rows)]
    return case


@PROP.test(built, quick=300, thorough=3000, shards=1)
def building_arrays(case: dict, c: Context) -> None:
    """Arrays built from integers, group members and elements, and conflicts between rings."""
    group, ring, A, members = setting(case)
    n, q = A.n, A.q
    cls = abstract().RingArray
    data: list = []
    expected = np.zeros((len(case["data"]), len(case["data"][0]), n), dtype=int)
    for i, row in enumerate(case["data"]):
        line: list = []
        for j, (kind, value) in enumerate(row):
            if kind == "int":
                line.append(value)
                expected[i, j] = A.F.times(value, A.one())
            elif kind == "member":
                line.append(members[value])
                expected[i, j, value] = 1
            else:
                line.append(abstract().RingMember.from_vector(ring, np.array(value)))
                expected[i, j] = value
        data.append(line)
    c.nontrivial(expected.any() and n >= 2)
    c.label(case["kind"])
    given: Any = data
    if case["kind"] == "numpy":
        given = np.array(data, dtype=int)
    built_array = cls.build(given, ring)
    c.require(isinstance(built_array, cls), "build returns a RingArray")
    c.equal(
        util.ints(built_array.to_field_array(), expected.shape, "array", q), expected, "built array"
    )
    c.require(built_array.ring == ring, "base ring")
    if q == 2:
        by_group = cls.build(given, group)
        c.equal(np.asarray(by_group.to_field_array()).astype(int), expected, "built from a group")
    if case["kind"] in ("ints", "numpy", "members"):
        c.raises(ValueError, lambda: cls(given), "entries that are not ring members")

    # arrays over different rings do not mix
    other_q = 3 if q == 2 else 2
    other = cls.build([[1] * len(case["data"][0])] * len(case["data"]), abstract().GroupRing(group, other_q))
    c.raises(ValueError, lambda: built_array + other, "sum of arrays over different rings")
    c.raises(
        ValueError,
        lambda: cls([[built_array[0, 0], other[0, 0]]]),
        "entries in different rings",
    )
    c.raises(ValueError, lambda: cls([]), "an array without entries or a ring")

    # matrices over a field as arrays over the trivial group
    matrix = np.array([[int(v[0]) if v.any() else 0 for v in row] for row in expected])
    for given_matrix, order in [(ring.field(matrix), q), ((matrix != 0).astype(int).tolist(), 2)]:
        trivial = abstract().TrivialGroup.to_ring_array(given_matrix)
        want = matrix if order == q and given_matrix is not None and not isinstance(given_matrix, list) else (matrix != 0).astype(int)
        c.equal(trivial.field.order, order, "field of an array over the trivial group")
        c.equal(trivial.group.order, 1, "trivial group")
        c.equal(util.ints(trivial.lift(), want.shape, "lift", order), want, "matrix round trip")
