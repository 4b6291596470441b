"""C16: chain complexes validate, dualise and multiply correctly."""

from __future__ import annotations

from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, gen, group as gr, util
from vlib.core import Context, Property, Violation

PROP = Property(
    "C16",
    "Chain complexes with one to three links and modules of dimension 1 to 4 (0 included for fields)"
    " over F_2,3,4,5,7 and over group algebras of groups with up to 8 members; boundary operators"
    " are random combinations of the kernel of the previous one.  Products of any two of them.  The"
    " reference is a group algebra in plain integers.  Non-trivial: some boundary operators of both"
    " complexes are non-zero.",
)


def chain(*args: Any, **kwargs: Any) -> Any:
    from qldpc.objects import ChainComplex

    return ChainComplex(*args, **kwargs)


def algebra_of(spec: list | None, q: int) -> tuple[Any, Any]:
    if spec is None:
        return None, gr.Algebra([()], q)
    group = gr.build(spec)
    return group, gr.algebra(group, q)


@st.composite
def operators(draw: Any, q: int, spec: list | None, links: int, top: int, empty: bool) -> list:
    """Boundary operators as nested lists (rows, columns, coefficients) that compose to zero."""
    _, A = algebra_of(spec, q)
    F = A.F
    dims = [draw(st.integers(0 if empty and draw(st.integers(0, 5)) == 0 else 1, top))]
    ops: list = []
    for link in range(links):
        low = 0 if empty and draw(st.integers(0, 7)) == 0 else 1
        cols = draw(st.integers(low, top))
        rows = dims[-1]
        if link == 0:
            op = np.zeros((rows, cols, A.n), dtype=int)
            density = draw(st.integers(1, 3))
            for i, j in np.ndindex(rows, cols):
                for _ in range(density if A.n > 1 else 1):
                    op[i, j, draw(st.integers(0, A.n - 1))] = draw(st.integers(0, q - 1))
            if rows > 1 and draw(st.booleans()):
                op[-1] = op[0]
            if draw(st.booleans()) and A.n > 1:
                # multiples of 1 - g or of the sum of a cyclic subgroup have large kernels
                g = draw(st.integers(0, A.n - 1))
                factor = A.one()
                if draw(st.booleans()):
                    factor[g] = F.minus(factor[g], 1)
                else:
                    power = g
                    while power != A.one_index:
                        factor[power] = 1
                        power = A.table[power, g]
                for i, j in np.ndindex(rows, cols):
                    op[i, j] = A.times(op[i, j], factor)
        else:
            previous = np.array(ops[-1], dtype=int).reshape(dims[-2], rows, A.n)
            kernel = (
                F.null_space(A.block_left(previous)).reshape(-1, rows * A.n)
                if rows
                else np.zeros((0, 0), dtype=int)
            )
            op = np.zeros((rows, cols, A.n), dtype=int)
            for j in range(cols):
                column = np.zeros(rows * A.n, dtype=int)
                for _ in range(2):
                    if len(kernel):
                        word = kernel[draw(st.integers(0, len(kernel) - 1))]
                        column = F.plus(column, F.times(draw(st.integers(0, q - 1)), word))
                op[:, j] = column.reshape(rows, A.n)
        ops.append(op.tolist())
        dims.append(cols)
    return [dims, ops]


@st.composite
def complexes(draw: Any) -> dict:
    algebraic = draw(st.booleans())
    q = draw(gen.field_orders((2, 2, 3, 4, 5, 9) if algebraic else (2, 2, 3, 4, 5, 7, 9)))
    spec = None
    if algebraic:
        pool = [s for s in gr.SMALL if gr.known_order(s) <= (8 if q == 2 else 4)]
        if draw(st.integers(0, 2)):
            pool = [s for s in pool if s not in gr.NON_ABELIAN]
        else:
            q = 2
            pool = [s for s in gr.NON_ABELIAN if gr.known_order(s) <= 8]
        spec = draw(st.sampled_from(pool))
    top = 4 if not algebraic else 2
    la = draw(st.integers(1, 3))
    lb = draw(st.integers(1, 3 if la < 3 and not algebraic else 2))
    return dict(
        q=q,
        spec=spec,
        a=draw(operators(q, spec, la, top, not algebraic)),
        b=draw(operators(q, spec, lb, top if la < 3 else 2, not algebraic)),
        form=draw(st.integers(0, 2)),
        spot=draw(st.integers(0, 1000)),
    )


def arrays(data: list, A: Any) -> list[np.ndarray]:
    dims, ops = data
    return [
        np.array(op, dtype=int).reshape(rows, cols, A.n)
        for op, rows, cols in zip(ops, dims, dims[1:])
    ]


def present(ops: list, A: Any, group: Any, form: int) -> tuple[list, dict]:
    import galois
    from qldpc import abstract

    q = A.q
    if group is not None:
        ring = abstract.GroupRing(group, q)
        out = [abstract.RingArray.from_field_array(ring, op) for op in ops]
        return out, ({"field": q} if form == 0 else {})
    plain = [op[:, :, 0] for op in ops]
    if form == 0 or q != 2 and form == 1:
        return [op.copy() for op in plain], {"field": q}
    if form == 1:
        return [op.astype(np.uint8) for op in plain], {}
    return [galois.GF(q)(op) for op in plain], {}


def read(op: Any, A: Any, group: Any, what: str) -> np.ndarray:
    """Boundary operator of the code under test as an array of coefficients."""
    if group is None:
        return util.ints(op, (None, None), what, A.q)[:, :, None]
    from qldpc import abstract

    if not isinstance(op, abstract.RingArray):
        # formal operators at the ends of a complex
        plain = util.ints(op, (None, None), what)
        if plain.size:
            raise Violation(f"{what}: is not an array over the group algebra")
        return plain[:, :, None].repeat(A.n, axis=2)
    for value in op.ravel():
        if not isinstance(value, abstract.RingMember):
            raise Violation(f"{what}: has an entry that is not a member of the algebra: {value!r}")
    out = util.ints(op.to_field_array(), (*op.shape, A.n), what, A.q)
    return out


def kron(A: Any, a: np.ndarray, size: int, left: bool) -> np.ndarray:
    """a x identity (left) or identity x a."""
    rows, cols = a.shape[:2]
    out = np.zeros((rows * size, cols * size, A.n), dtype=int)
    for k in range(size):
        for i, j in np.ndindex(rows, cols):
            if left:
                out[i * size + k, j * size + k] = a[i, j]
            else:
                out[k * rows + i, k * cols + j] = a[i, j]
    return out


def product(A: Any, one: list, two: list) -> tuple[list, list]:
    """Dimensions and boundary operators of the documented tensor product."""
    da, ops_a = one[0], arrays(one, A)
    db, ops_b = two[0], arrays(two, A)
    na, nb = len(ops_a), len(ops_b)
    sectors = [
        [(i, k - i) for i in range(min(k, na), -1, -1) if 0 <= k - i <= nb]
        for k in range(na + nb + 1)
    ]
    dims = [sum(da[i] * db[j] for i, j in s) for s in sectors]
    out = []
    for k in range(1, na + nb + 1):
        op = np.zeros((dims[k - 1], dims[k], A.n), dtype=int)
        starts = {}
        for degree in (k - 1, k):
            place = 0
            for i, j in sectors[degree]:
                starts[i, j] = place
                place += da[i] * db[j]
        for i, j in sectors[k]:
            col = slice(starts[i, j], starts[i, j] + da[i] * db[j])
            if i:
                row = slice(starts[i - 1, j], starts[i - 1, j] + da[i - 1] * db[j])
                op[row, col] = kron(A, ops_a[i - 1], db[j], True)
            if j:
                row = slice(starts[i, j - 1], starts[i, j - 1] + da[i] * db[j - 1])
                block = kron(A, ops_b[j - 1], da[i], False)
                op[row, col] = A.F.neg[block] if i % 2 else block
        out.append(op)
    return dims, out


def composes(A: Any, ops: list) -> bool:
    return all(not A.matmul(x, y).any() for x, y in zip(ops, ops[1:]))


def check_complex(
    c: Context, got: Any, A: Any, group: Any, dims: list, ops: list, what: str
) -> None:
    c.equal(int(got.num_links), len(ops), f"{what}: number of links")
    c.equal(got.field.order, A.q, f"{what}: field")
    c.require(got.group == group if group is not None else got.group is None, f"{what}: group")
    c.equal(len(got.ops), len(ops), f"{what}: number of boundary operators")
    for degree, expected in enumerate(ops, 1):
        for op in (got.ops[degree - 1], got.op(degree)):
            c.equal(read(op, A, group, what), expected, f"{what}: boundary operator {degree}")
    for degree, dim in enumerate(dims):
        c.equal(int(got.dim(degree)), dim, f"{what}: dimension of module {degree}")
    c.equal(tuple(got.op(0).shape), (0, dims[0]), f"{what}: first boundary operator")
    c.equal(tuple(got.op(len(dims)).shape), (dims[-1], 0), f"{what}: last boundary operator")


@PROP.test(complexes, quick=500, thorough=9000, shards=4)
def construction_and_duality(case: dict, c: Context) -> None:
    q, spec = case["q"], case["spec"]
    group, A = algebra_of(spec, q)
    dims, ops = case["a"][0], arrays(case["a"], A)
    c.label(f"q={q}", "field" if spec is None else "group algebra", f"{len(ops)} links")
    c.nontrivial(any(op.any() for op in ops) and len(ops) > 1)
    assert composes(A, ops)
    given, kwargs = present(ops, A, group, case["form"])
    before = [np.array(op, copy=True) for op in given]
    got = chain(*given, **kwargs)
    check_complex(c, got, A, group, dims, ops, "complex")
    dual = got.T
    flipped = [A.array_transpose(op) for op in ops[::-1]]
    check_complex(c, dual, A, group, dims[::-1], flipped, "dual complex")
    check_complex(c, dual.T, A, group, dims, ops, "dual of the dual complex")
    chain(*dual.ops)  # is again a complex
    for x, y in zip(given, before):
        c.require(np.array_equal(np.asarray(x), np.asarray(y)), "arguments are unchanged")
    # lifts of boundary operators compose to zero
    if group is not None and gr.lift_field(spec) in (None, q):
        for x, y in zip(got.ops, got.ops[1:]):
            lifted = [util.ints(op.lift(), None, "lift", q) for op in (x, y)]
            c.require(not A.F.matmul(*lifted).any(), "lifts compose to zero")


@PROP.test(complexes, quick=500, thorough=9000, shards=3)
def validation(case: dict, c: Context) -> None:
    """Only complexes are accepted."""
    import galois
    from qldpc import abstract

    q, spec, spot = case["q"], case["spec"], case["spot"]
    group, A = algebra_of(spec, q)
    dims, ops = case["a"][0], arrays(case["a"], A)
    c.label(f"q={q}", "field" if spec is None else "group algebra")
    given, kwargs = present(ops, A, group, case["form"])
    # change one coefficient
    index = spot % len(ops)
    changed = [op.copy() for op in ops]
    if changed[index].size:
        flat = changed[index].reshape(-1)
        flat[spot % flat.size] = (flat[spot % flat.size] + 1) % q
        other, _ = present(changed, A, group, case["form"])
        if composes(A, changed):
            c.label("still a complex")
            got = chain(*other, **kwargs)
            check_complex(c, got, A, group, dims, changed, "changed complex")
        else:
            c.label("not a complex")
            c.nontrivial()
            c.raises(
                ValueError, lambda: chain(*other, **kwargs), "operators that do not compose to zero"
            )
    # wrong shapes
    if len(ops) > 1:
        wider = [op.copy() for op in ops]
        extra = np.zeros((1, *wider[-1].shape[1:]), dtype=int)
        wider[-1] = np.concatenate([wider[-1], extra])
        other, _ = present(wider, A, group, case["form"])
        c.raises(ValueError, lambda: chain(*other, **kwargs), "operators of incompatible shapes")
    # inconsistent types, fields and groups; skipping the validation of the compositions does not
    # make it meaningful to mix them
    p = 3 if q != 3 else 2
    shape = (dims[-1], 1)

    def refused(what: str, *ops: Any, **options: Any) -> None:
        for skip in [{}, {"skip_validation": True}]:
            c.raises(ValueError, lambda: chain(*ops, **options, **skip), f"{what} {skip}")

    def zeros(group: Any, q: int) -> Any:
        return abstract.RingArray.build(np.zeros(shape, dtype=int), abstract.GroupRing(group, q))

    if group is None:
        refused("different fields", *given, galois.GF(p).Zeros(shape), **{**kwargs, "field": q})
        if dims[-1]:
            refused("mixed types", *given, zeros(abstract.TrivialGroup(), q), **kwargs)
    elif dims[-1]:
        refused("different fields", *given, zeros(group, p), **kwargs)
        refused("different groups", *given, zeros(abstract.CyclicGroup(9), q), **kwargs)
        refused("mixed types", *given, np.zeros(shape, dtype=int), field=q)
        refused("different fields", *given, field=p)


@PROP.test(complexes, quick=700, thorough=10000, shards=7)
def products(case: dict, c: Context) -> None:
    from qldpc.objects import ChainComplex

    q, spec = case["q"], case["spec"]
    group, A = algebra_of(spec, q)
    F = A.F
    ops_a, ops_b = arrays(case["a"], A), arrays(case["b"], A)
    c.label(
        f"q={q}", "field" if spec is None else "group algebra", f"{len(ops_a)} x {len(ops_b)} links"
    )
    c.nontrivial(any(op.any() for op in ops_a) and any(op.any() for op in ops_b))
    dims, ops = product(A, case["a"], case["b"])
    given_a, kwargs = present(ops_a, A, group, case["form"])
    given_b, _ = present(ops_b, A, group, case["form"])

    def multiply() -> Any:
        if len(ops_a) == len(ops_b) == 1:
            # boundary operators stand for complexes with one link
            return ChainComplex.tensor_product(given_a[0], given_b[0], **kwargs)
        one, two = chain(*given_a, **kwargs), chain(*given_b, **kwargs)
        return ChainComplex.tensor_product(one, two)

    if not composes(A, ops):
        assert group is not None and spec in gr.NON_ABELIAN or not group.is_abelian
        c.label("not a complex (non-Abelian group)")
        c.raises(ValueError, multiply, "product that is not a complex")
        return
    got = multiply()
    check_complex(c, got, A, group, dims, ops, "product")
    chain(*got.ops)  # is again a complex
    if group is not None:
        if gr.lift_field(spec) in (None, q):
            lifted = [util.ints(op.lift(), None, "lift", q) for op in got.ops]
            c.require(
                all(not F.matmul(x, y).any() for x, y in zip(lifted, lifted[1:])),
                "lifts compose to zero",
            )
        return

    # Kuenneth formula
    def homology(sizes: list, maps: list) -> list[int]:
        ranks = [0, *(F.rank(m) if m.size else 0 for m in maps), 0]
        return [n - r - s for n, r, s in zip(sizes, ranks, ranks[1:])]

    ha = homology(case["a"][0], [op[:, :, 0] for op in ops_a])
    hb = homology(case["b"][0], [op[:, :, 0] for op in ops_b])
    maps = [read(op, A, None, "product")[:, :, 0] for op in got.ops]
    hp = homology([int(got.dim(k)) for k in range(len(dims))], maps)
    expected = [0] * len(dims)
    for i, x in enumerate(ha):
        for j, y in enumerate(hb):
            expected[i + j] += x * y
    c.equal(hp, expected, "Kuenneth formula")
    if sum(expected):
        c.label("homology")

    # incompatible fields
    p = 3 if q != 3 else 2
    c.raises(
        ValueError,
        lambda: ChainComplex.tensor_product(
            chain(*given_a, **kwargs), chain(np.zeros((2, 2), dtype=int), field=p)
        ),
        "different fields",
    )
