"""C17: groups behave as groups and their lifts represent them."""

from __future__ import annotations

import functools
import itertools
from collections import Counter
from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, group as gr, util
from vlib.core import Context, Property

PROP = Property(
    "C17",
    "All named families up to about 170 members (degenerate sizes included), random permutation"
    " groups, direct products, randomly relabelled multiplication tables, and groups generated by"
    " random matrices, checked against reference permutation or matrix groups on all pairs of"
    " members (a sample of pairs above 30 members).  Non-trivial: at least 3 members.",
)


def abstract() -> Any:
    from qldpc import abstract

    return abstract


FAMILIES: list[list] = gr.SMALL + [
    ["cyclic", 12],
    ["cyclic", 31],
    *[["abelian", *o] for o in [(3, 4), (1, 1), (2, 1, 3), (4, 5), (3, 3, 3), (8,)]],
    *[["abelian_sum", *o] for o in [(3, 4), (4, 2, 3), (1, 2)]],
    ["dihedral", 7],
    ["dihedral", 12],
    ["symmetric", 1],
    ["symmetric", 4],
    ["alternating", 2],
    ["alternating", 1],
    ["alternating", 5],
    *[["SL", 2, 3], ["SL", 2, 4], ["SL", 2, 5], ["SL", 3, 2], ["SL", 2, 3, False]],
    ["SL", 2, 2, False],
    *[["PSL", 2, 4], ["PSL", 2, 5], ["PSL", 2, 7], ["PSL", 3, 2], ["PSL", 2, 3, False]],
    ["PSL", 2, 2, False],
    ["PSL", 2, 5, False],
    ["product", ["dihedral", 3], ["dihedral", 3]],
    ["product", ["quaternion"], ["cyclic", 3]],
    ["product", ["trivial"], ["cyclic", 3]],
    ["product", ["cyclic", 3], ["trivial"]],
    ["product", ["abelian", 2, 2], ["symmetric", 3]],
]

THOROUGH: list[list] = [
    *[["cyclic", n] for n in range(9, 60)],
    *[["dihedral", n] for n in range(8, 30)],
    *[["abelian", *o] for o in itertools.product((1, 2, 3, 5), (2, 4, 6), (1, 3))],
    *[["abelian_sum", *o] for o in itertools.product((1, 2, 3, 5), (2, 4, 6), (1, 3))],
    ["symmetric", 5],
    ["alternating", 6],
    ["SL", 2, 7],
    ["SL", 2, 8],
    ["SL", 2, 9],
    ["PSL", 2, 8],
    ["PSL", 2, 9],
    ["PSL", 2, 11],
    ["SL", 2, 5, False],
    ["SL", 3, 2, False],
    ["PSL", 3, 2, False],
]


def field_of(lifted: Any) -> int | None:
    return getattr(type(lifted), "order", None)


def multiply(c: Context, a: Any, b: Any, q: int | None) -> np.ndarray:
    return ff.get(q).matmul(a, b) if q else a @ b


def member_perms(c: Context, group: Any) -> tuple[list, list[tuple]]:
    members = list(group.generate())
    size = max([m.size for m in members] + [0])
    perms = [gr.perm_of(m, size) for m in members]
    return members, perms


def check_group(
    c: Context, group: Any, spec: list | None, q: int | None, faithful: bool = True, what: str = ""
) -> tuple[list, list, list]:
    """Closure, order, table, index, and the lift of every member.  Returns members and lifts."""
    members, perms = member_perms(c, group)
    size = len(members)
    c.equal(group.order, size, f"{what}: order and number of members generated")
    c.equal(len(set(perms)), size, f"{what}: members are distinct")
    at = {p: i for i, p in enumerate(perms)}
    degree = len(perms[0])
    identity = tuple(range(degree))
    c.require(identity in at, f"{what}: the identity is generated")
    c.equal(gr.perm_of(group.identity, degree), identity, f"{what}: identity")
    generators = [gr.perm_of(g, degree) for g in group.generators]
    for g in generators:
        c.require(g in at, f"{what}: generators are members")
    closed = set(gr.closure(generators + [identity]))
    c.equal(closed, set(perms), f"{what}: the generators generate the members")

    pairs = list(itertools.product(range(size), repeat=2))
    if size > 30:
        rng = np.random.default_rng(size)
        pairs = [(int(a), int(b)) for a, b in rng.integers(size, size=(500, 2))]
    if size <= 60:
        table = np.array(gr.table_of(perms)).reshape(size, size)
        c.equal(np.asarray(group.table), table, f"{what}: multiplication table")
    abelian = all(gr.mul(a, b) == gr.mul(b, a) for a in generators for b in generators)
    c.equal(bool(group.is_abelian), abelian, f"{what}: is_abelian")

    q = q or field_of(group.lift(members[0]))
    dim = group.lift_dim
    lifts = []
    for m in members:
        lifted = util.ints(group.lift(m), (dim, dim), f"{what}: lift", q)
        lifts.append(lifted)
    eye = np.eye(dim, dtype=int)
    c.equal(lifts[at[identity]], eye, f"{what}: lift of the identity")
    monomial = all(set(np.unique(x)) <= {0, 1} for x in lifts) and all(
        (x.sum(axis=0) == 1).all() and (x.sum(axis=1) == 1).all() for x in lifts
    )
    for i, j in pairs:
        product = members[i] * members[j]
        k = at.get(gr.mul(perms[i], perms[j]))
        c.equal(gr.perm_of(product, degree), perms[k], f"{what}: product of members")
        c.equal(
            lifts[k],
            multiply(c, lifts[i], lifts[j], q),
            f"{what}: lift of the product of {perms[i]} and {perms[j]}",
        )
    for i in range(size):
        j = at[gr.inv(perms[i])]
        c.equal(gr.perm_of(~members[i], degree), perms[j], f"{what}: inverse")
        c.require(members[i] in group, f"{what}: membership")
        c.equal(group.index(members[i]), i, f"{what}: index")
        c.equal(multiply(c, lifts[i], lifts[j], q), eye, f"{what}: lift of the inverse")
        if monomial:
            c.equal(lifts[j], lifts[i].T, f"{what}: transpose of the lift")
    if faithful:
        c.equal(len({x.tobytes() for x in lifts}), size, f"{what}: lifts of members are distinct")
    if size <= 12:
        for i in range(size):
            regular = util.ints(group.regular_lift(members[i]), (size, size), f"{what}: regular")
            expected = np.zeros((size, size), dtype=int)
            for j in range(size):
                expected[at[gr.mul(perms[i], perms[j])], j] = 1
            c.equal(regular, expected, f"{what}: regular lift")
    return members, perms, lifts


def order_statistics(spec: list) -> Counter | None:
    """Orders of members, from the definition of the family."""
    kind, args = spec[0], spec[1:]
    n = args[0] if args else None
    if kind == "trivial":
        return Counter({1: 1})
    if kind == "cyclic":
        return Counter(gr.element_order(gr.cycle(0, n, n)) // int(np.gcd(n, k)) for k in range(n))
    if kind in ("abelian", "abelian_sum"):
        return Counter(
            int(np.lcm.reduce([o // int(np.gcd(o, k)) for o, k in zip(args, powers)]))
            for powers in itertools.product(*map(range, args))
        )
    if kind == "dihedral":
        return Counter(n // int(np.gcd(n, k)) for k in range(n)) + Counter({2: n})
    if kind in ("symmetric", "alternating"):
        perms = itertools.permutations(range(n))
        even = [p for p in perms if kind == "symmetric" or parity(p) == 0]
        return Counter(map(gr.element_order, even))
    if kind == "quaternion":
        return Counter({1: 1, 2: 1, 4: 6})
    if kind in ("SL", "PSL") and args[1] ** (args[0] ** 2) <= 5000:
        return matrix_orders(kind, args[0], args[1])
    if kind == "product":
        left, right = order_statistics(args[0]), order_statistics(args[1])
        if left is None or right is None:
            return None
        out: Counter = Counter()
        for (a, x), (b, y) in itertools.product(left.items(), right.items()):
            out[int(np.lcm(a, b))] += x * y
        return out
    return None


def parity(p: tuple) -> int:
    return sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p))) % 2


def determinant(F: Any, m: np.ndarray) -> int:
    if len(m) == 1:
        return int(m[0, 0])
    total = 0
    for col in range(len(m)):
        minor = np.delete(np.delete(m, 0, 0), col, 1)
        term = F.times(m[0, col], determinant(F, minor))
        total = F.plus(total, term) if col % 2 == 0 else F.minus(total, term)
    return int(total)


def matrices(d: int, q: int) -> list[np.ndarray]:
    F = ff.get(q)
    all_mats = (np.array(v).reshape(d, d) for v in itertools.product(range(q), repeat=d * d))
    return [m for m in all_mats if determinant(F, m) == 1]


def matrix_orders(kind: str, d: int, q: int) -> Counter:
    F = ff.get(q)
    eye = np.eye(d, dtype=int)
    out: Counter = Counter()
    centre = 0
    for m in matrices(d, q):
        power, order = m, 1
        while not np.array_equal(power, eye):
            if kind == "PSL" and np.array_equal(power, power[0, 0] * eye):
                break
            power, order = F.matmul(power, m), order + 1
        centre += np.array_equal(m, m[0, 0] * eye)
        out[order] += 1
    if kind == "PSL":
        out = Counter({o: x // centre for o, x in out.items()})
    return out


@PROP.test(cases=lambda tier: FAMILIES + (THOROUGH if tier == "thorough" else []), shards=3)
def families(case: list, c: Context) -> None:
    spec = case
    group = gr.build(spec)
    c.label(spec[0])
    order = gr.known_order(spec)
    c.nontrivial(order >= 3)
    c.equal(group.order, order, f"order of {spec}")
    regular = len(spec) == 4 and spec[0] in ("SL", "PSL")  # represented by acting on itself
    q = gr.lift_field(spec[:3]) if not regular else None
    if regular:
        q = spec[2]
    faithful = not (spec[0] == "product")
    _, perms, lifts = check_group(c, group, spec, q, faithful, f"{spec}")
    stats = order_statistics(spec)
    if stats is not None:
        got = Counter(map(gr.element_order, perms))
        c.equal(got, stats, f"{spec}: orders of the members")
    if spec[0] == "SL" and len(spec) == 3 and spec[2] ** (spec[1] ** 2) <= 5000:
        expected = {m.tobytes() for m in matrices(spec[1], spec[2])}
        c.equal({x.tobytes() for x in lifts}, expected, f"{spec}: matrices of the group")
    if spec[0] in ("abelian", "cyclic", "abelian_sum"):
        orders = spec[1:]
        gens = group.generators
        c.equal(len(gens), len(orders), f"{spec}: one generator for every factor")
        degree = len(perms[0])
        reference = gr.spec_perms(spec)
        for powers, p in zip(itertools.product(*map(range, orders)), perms):
            expected_perm = tuple(range(degree))
            for g, k in zip(gens, powers):
                for _ in range(k):
                    expected_perm = gr.mul(expected_perm, gr.perm_of(g, degree))
            c.equal(p, expected_perm, f"{spec}: members in order of powers of the generators")
        for g, ref, o in zip(gens, reference, orders):
            c.equal(gr.perm_of(g, degree), ref, f"{spec}: generator")
            c.equal(gr.element_order(gr.perm_of(g, degree)), o, f"{spec}: generator order")
        # lifts are Kronecker products or direct sums of cyclic shifts
        for powers, lifted in zip(itertools.product(*map(range, orders)), lifts):
            shifts = [np.roll(np.eye(o, dtype=int), k, axis=1) for o, k in zip(orders, powers)]
            want = shifts[0]
            for s in shifts[1:]:
                if spec[0] == "abelian_sum":
                    want = np.block(
                        [
                            [want, np.zeros((len(want), len(s)), dtype=int)],
                            [np.zeros((len(s), len(want)), dtype=int), s],
                        ]
                    )
                else:
                    want = np.kron(want, s)
            c.require(
                np.array_equal(lifted, want) or np.array_equal(lifted, want.T),
                f"{spec}: lift of powers {powers}",
                lifted,
            )


@PROP.test(
    cases=lambda tier: [
        [kind, d, q]
        for kind in ("SL", "PSL")
        for d, q in [(2, 2), (2, 3), (3, 2), (2, 4), (2, 5), (2, 7)] + [(2, 8), (2, 9), (3, 3)] * (tier != "quick")
    ],
    shards=2,
)
def matrix_iterators(case: list, c: Context) -> None:
    """iter_mats lists SL, or one representative per class of PSL; generating matrices generate."""
    kind, d, q = case
    F = ff.get(q)
    c.nontrivial()
    cls = getattr(abstract(), "SpecialLinearGroup" if kind == "SL" else "ProjectiveSpecialLinearGroup")
    mats = [util.ints(m, (d, d), "matrix", q) for m in cls.iter_mats(d, q)]
    order = gr.known_order(case)
    c.equal(len(mats), order, f"{case}: number of matrices")
    scalars = [1] if kind == "SL" else [x for x in range(1, q) if power(F, x, d) == 1]
    classes = {
        frozenset(np.asarray(F.times(s, m)).astype(int).tobytes() for s in scalars) for m in mats
    }
    c.equal(len(classes), order, f"{case}: matrices in distinct classes")
    for m in mats:
        c.equal(determinant(F, m), 1, f"{case}: determinant")
    gens = [util.ints(m, None, "generating matrix", q) for m in cls.get_generating_mats(d, q)]
    size = gens[0].shape[0]

    def product(a: bytes, b: bytes) -> bytes:
        x = np.frombuffer(a, dtype=np.int64).reshape(size, size)
        y = np.frombuffer(b, dtype=np.int64).reshape(size, size)
        return np.ascontiguousarray(F.matmul(x, y)).astype(np.int64).tobytes()

    generated = gr.closure([np.ascontiguousarray(g).astype(np.int64).tobytes() for g in gens], product)
    c.equal(len(generated), order, f"{case}: order of the group generated by the generating matrices")


LARGE: list[list] = [
    *[["cyclic", 97], ["cyclic", 120], ["abelian", 4, 5, 6], ["abelian_sum", 30, 7, 11]],
    *[["dihedral", 60], ["symmetric", 7], ["alternating", 8]],
    *[["SL", 2, 9], ["SL", 2, 11], ["SL", 3, 3], ["SL", 3, 4], ["SL", 4, 2], ["SL", 4, 3], ["SL", 2, 16]],
    *[["PSL", 2, 9], ["PSL", 2, 11], ["PSL", 2, 16], ["PSL", 3, 3], ["PSL", 3, 4], ["PSL", 4, 2], ["PSL", 4, 3]],
    ["product", ["PSL", 3, 4], ["dihedral", 15]],
]


@functools.cache
def large_group(index: int) -> Any:
    return gr.build(LARGE[index])


@st.composite
def large_cases(draw: Any) -> dict:
    word = st.lists(st.integers(0, 3), min_size=1, max_size=12)
    return dict(index=draw(st.integers(0, len(LARGE) - 1)), words=[draw(word), draw(word)])


@PROP.test(large_cases, quick=60, thorough=1500, shards=3)
def large_families(case: dict, c: Context) -> None:
    """Groups with too many members to list: order, products of words in the generators, lifts."""
    spec = LARGE[case["index"]]
    group = large_group(case["index"])
    c.label(spec[0])
    c.nontrivial(case["words"][0] != case["words"][1])
    c.equal(group.order, gr.known_order(spec), f"order of {spec}")
    c.equal(bool(group.is_abelian), spec[0] in ("cyclic", "abelian", "abelian_sum"), f"{spec}: Abelian")
    gens = list(group.generators)
    degree = max(g.size for g in gens)
    members = []
    for word in case["words"]:
        member = group.identity
        perm = tuple(range(degree))
        for k in word:
            member = member * gens[k % len(gens)]
            perm = gr.mul(perm, gr.perm_of(gens[k % len(gens)], degree))
        c.equal(gr.perm_of(member, degree), perm, f"{spec}: word {word}")
        c.require(member in group, f"{spec}: word {word} is not a member")
        members.append(member)
    if spec[0] in ("dihedral", "symmetric", "alternating", "product"):
        return  # regular lift
    q = gr.lift_field(spec)
    a, b = members
    lifts = [util.ints(group.lift(x), None, "lift", q or 2) for x in (a, b, a * b, ~a, group.identity)]
    eye = np.eye(group.lift_dim, dtype=int)
    c.equal(lifts[4].tolist(), eye.tolist(), f"{spec}: lift of the identity")
    c.equal(multiply(c, lifts[0], lifts[1], q).tolist(), lifts[2].tolist(), f"{spec}: lift of a product")
    c.equal(multiply(c, lifts[0], lifts[3], q).tolist(), eye.tolist(), f"{spec}: lift of an inverse")
    if q:
        c.equal(determinant(ff.get(q), lifts[0]), 1, f"{spec}: determinant of a lift")
    if a != b:
        c.require(not np.array_equal(lifts[0], lifts[1]), f"{spec}: lifts of different members are equal")


@PROP.test(
    cases=lambda tier: [["SL", 3, 3], ["PSL", 3, 3], ["PSL", 3, 4], ["SL", 2, 9], ["PSL", 2, 9]]
    + [["SL", 3, 4], ["PSL", 2, 16], ["PSL", 2, 13], ["SL", 2, 11]] * (tier != "quick"),
    shards=2,
)
def generating_matrices(case: list, c: Context) -> None:
    """The generating matrices of larger groups generate a group of the order of (P)SL."""
    kind, d, q = case
    F = ff.get(q)
    c.nontrivial()
    c.label(kind)
    cls = getattr(abstract(), "SpecialLinearGroup" if kind == "SL" else "ProjectiveSpecialLinearGroup")
    gens = [util.ints(m, None, "generating matrix", q) for m in cls.get_generating_mats(d, q)]
    order = gr.known_order(case)
    size = len(gens[0])
    eye = np.eye(size, dtype=np.uint8)
    seen = {eye.tobytes()}
    frontier = eye[None]
    while len(frontier) and len(seen) <= order:
        fresh = []
        for gen in gens:
            products = F.matmul(frontier.reshape(-1, size), gen).astype(np.uint8)
            for m in products.reshape(-1, size, size):
                if (key := m.tobytes()) not in seen:
                    seen.add(key)
                    fresh.append(m)
        frontier = np.array(fresh, dtype=np.uint8)
    found = f"more than {order}" if len(seen) > order else len(seen)
    c.equal(found, order, f"{case}: order of the group generated by the generating matrices")


def power(F: Any, x: int, k: int) -> int:
    out = 1
    for _ in range(k):
        out = int(F.times(out, x))
    return out


@st.composite
def tables(draw: Any) -> dict:
    spec = draw(gr.small_specs(12).filter(lambda s: s[0] in ("perms", "cyclic", "abelian", "product")
                                          or s[0] in ("dihedral", "symmetric")))
    perms = reference(spec)
    order = draw(st.permutations(list(range(len(perms)))))
    return dict(spec=spec, order=order, form=draw(st.integers(0, 2)), lift=draw(st.booleans()))


def reference(spec: list) -> list[tuple]:
    kind = spec[0]
    if kind == "dihedral":
        n = spec[1]
        m = max(n, 1)
        if n <= 2:
            gens = [gr.cycle(0, 2, 2)] if n == 1 else [(1, 0, 2, 3), (0, 1, 3, 2)]
        else:
            gens = [gr.cycle(0, m, m), tuple(reversed(range(m)))]
        return gr.closure(gens)
    if kind == "symmetric":
        return list(itertools.permutations(range(spec[1])))
    if kind == "product":
        left, right = reference(spec[1]), reference(spec[2])
        return [a + tuple(len(a) + i for i in b) for a in left for b in right]
    gens = gr.spec_perms(spec)
    return gr.closure(list(gens) + [tuple(range(len(gens[0])))])


@PROP.test(tables, quick=120, thorough=1500, shards=1)
def from_table(case: dict, c: Context) -> None:
    """A group built from a table multiplies as the table says."""
    perms = reference(case["spec"])
    perms = [perms[i] for i in case["order"]]
    table = np.array(gr.table_of(perms)).reshape(len(perms), len(perms))
    size = len(perms)
    identity = perms.index(tuple(range(len(perms[0]))))
    inverses = [perms.index(gr.inv(p)) for p in perms]
    c.nontrivial(size >= 3)
    if identity:
        c.label("identity is not listed first")
    given: Any = table.copy() if case["form"] == 0 else table.tolist()
    if case["form"] == 2:
        given = tuple(map(tuple, given))
    if not case["lift"]:
        group = abstract().Group.from_table(given)
        check_group(c, group, None, None, True, "table")
        # members, in the order of the table
        degree = size
        got = [gr.perm_of(m, degree) for m in group.generate()]
        c.equal(len(got), size, "order of the table")
        stats = Counter(map(gr.element_order, got))
        c.equal(stats, Counter(map(gr.element_order, perms)), "orders of members")
        return
    labels: list[int] = []

    def integer_lift(label: int) -> np.ndarray:
        labels.append(int(label))
        out = np.zeros((size, size), dtype=int)
        out[table[label], np.arange(size)] = 1
        return out

    group = abstract().Group.from_table(given, integer_lift=integer_lift)
    members, _, _ = check_group(c, group, None, None, True, "table with lift")

    def label_of(member: Any) -> int:
        labels.clear()
        lifted = np.asarray(group.lift(member))
        label = int(np.argmax(lifted[:, identity]))
        c.equal(labels, [label], "the lift uses the label of a member")
        return label

    names = [label_of(m) for m in members]
    c.equal(sorted(names), list(range(size)), "labels of members")
    for (i, a), (j, b) in itertools.product(enumerate(names), repeat=2):
        c.equal(label_of(members[i] * members[j]), int(table[a, b]), "product of labels")
    for i, a in enumerate(names):
        c.equal(label_of(~members[i]), inverses[a], "label of the inverse")


@st.composite
def generating_matrices(draw: Any) -> dict:
    q = draw(st.sampled_from([None, None, 2, 3, 4, 5]))
    d = draw(st.integers(1, 3))
    count = draw(st.integers(1, 3))
    mats = []
    for _ in range(count):
        perm = draw(st.permutations(list(range(d))))
        entries = [1, -1] if q is None else list(range(1, q))
        mat = np.zeros((d, d), dtype=int)
        for i, j in enumerate(perm):
            mat[i, j] = draw(st.sampled_from(entries))
        if q in (2, 3) and d == 2 and draw(st.booleans()):
            mat = ff.get(q).matmul(mat, np.array([[1, 1], [0, 1]]))
        mats.append(mat.tolist())
    if draw(st.booleans()):
        mats.append(mats[draw(st.integers(0, len(mats) - 1))])
    return dict(q=q, mats=mats, form=draw(st.integers(0, 2)), types=[draw(st.integers(0, 4)) for _ in mats])


def mat_closure(mats: list, q: int | None) -> list[np.ndarray]:
    d = len(mats[0])

    def product(a: tuple, b: tuple) -> tuple:
        x, y = np.array(a).reshape(d, d), np.array(b).reshape(d, d)
        return tuple(int(v) for v in multiply(None, x, y, q).ravel())

    start = [tuple(int(v) for v in np.ravel(m)) for m in mats]
    try:
        return [np.array(t).reshape(d, d) for t in gr.closure(start, product, limit=60)]
    except AssertionError:
        return []


@PROP.test(generating_matrices, quick=200, thorough=1000, shards=1)
def from_generating_mats(case: dict, c: Context) -> None:
    """The lifts of the members are the matrices generated by the given ones."""
    import galois

    q = case["q"]
    mats = [np.array(m, dtype=int) for m in case["mats"]]
    expected = mat_closure(mats, q)
    if not expected or len(expected) > 48:
        return
    given: list = mats if q is None else [galois.GF(q)(m) for m in mats]
    if case["form"] == 2:
        c.label("matrices of different types")
        types = [np.int64, np.int8, np.int32, np.int16, None]
        kinds = [types[t] for t in case["types"]]
        if q is not None:
            given = [m.astype(t or np.uint8) for m, t in zip(given, kinds)]
        else:
            given = [m.tolist() if t is None else m.astype(t) for m, t in zip(mats, kinds)]
    elif q is None and case["form"]:
        given = [m.tolist() for m in mats]
    group = abstract().Group.from_generating_mats(*given)
    c.nontrivial(len(expected) >= 3)
    if len({m.tobytes() for m in mats}) < len(mats):
        c.label("repeated matrices")
    c.equal(group.order, len(expected), "order of the matrix group")
    members, perms, lifts = check_group(c, group, None, q, True, "matrix group")
    c.equal(
        {x.tobytes() for x in lifts}, {x.tobytes() for x in expected}, "matrices of the members"
    )
    lifted = [util.ints(group.lift(g), None, "generator") for g in group.generators]
    eye = np.eye(len(mats[0]), dtype=int)
    c.require(  # SymPy discards the identity
        {x.tobytes() for x in lifted} | {eye.tobytes()} >= {m.tobytes() for m in mats},
        "the generators include the given matrices",
    )


def transposition(degree: int, a: int, b: int) -> list[int]:
    perm = list(range(degree))
    perm[a], perm[b] = b, a
    return perm


@st.composite
def random_groups(draw: Any) -> dict:
    count = draw(st.integers(1, 4))
    degree = draw(st.integers(2, 6))
    if count >= 3 and draw(st.booleans()):
        # generators that move few points: some of them commute, others do not
        swaps = st.lists(st.integers(0, degree - 1), min_size=2, max_size=2, unique=True)
        return dict(spec=["perms", [transposition(degree, *draw(swaps)) for _ in range(count)]])
    perms = [draw(st.permutations(list(range(degree)))) for _ in range(count)]
    spec = ["perms", perms]
    if draw(st.integers(0, 3)) == 0:
        spec = ["product", spec, draw(gr.small_specs(6))]
    return dict(spec=spec)


@PROP.test(random_groups, quick=200, thorough=800, shards=1)
def permutation_groups(case: dict, c: Context) -> None:
    spec = case["spec"]
    group = gr.build(spec)
    order = gr.known_order(spec)
    if order > 48:
        c.label("order above 48")
        c.equal(group.order, order, f"order of {spec}")
        return
    c.nontrivial(order >= 3)
    c.equal(group.order, order, f"order of {spec}")
    check_group(c, group, spec, None, True, f"{spec}")
    util.foreign_equality(c, group, group.to_sympy(), abstract().CyclicGroup(order + 1))
    if spec[0] == "perms":
        again = abstract().Group.from_sympy(group.to_sympy())
        c.require(again == group, "round trip through SymPy")
        c.equal(
            [gr.perm_of(g, len(spec[1][0])) for g in again.generators],
            [gr.perm_of(g, len(spec[1][0])) for g in group.generators],
            "generators after a round trip",
        )


@st.composite
def products(draw: Any) -> dict:
    count = draw(st.integers(1, 3))
    return dict(
        specs=[draw(gr.small_specs(6)) for _ in range(count)],
        repeat=draw(st.integers(1, 2)),
        how=draw(st.sampled_from(["product", "power", "mul"])),
    )


@PROP.test(products, quick=150, thorough=600, shards=1)
def direct_products(case: dict, c: Context) -> None:
    """Members of a direct product are tensor products of members of the factors."""
    groups = [gr.build(s) for s in case["specs"]]
    if case["how"] == "product":
        total = abstract().Group.product(*groups, repeat=case["repeat"])
        factors = groups * case["repeat"]
    elif case["how"] == "power":
        factors = [groups[0]] * (case["repeat"] + 1)
        total = groups[0] ** (case["repeat"] + 1)
    else:
        factors = groups
        total = groups[0]
        for g in groups[1:]:
            total = total * g
    order = util.prod(g.order for g in factors)
    c.equal(total.order, order, "order of a direct product")
    if order > 200:
        return
    c.nontrivial(order >= 3)
    expected = set()
    size = 0
    for members in itertools.product(*[list(g.generate()) for g in factors]):
        joint = members[0]
        for m in members[1:]:
            joint = joint @ m
        size = joint.size
        offset, perm = 0, []
        for m in members:
            perm += [offset + int(m.apply(i)) for i in range(m.size)]
            offset += m.size
        c.equal(gr.perm_of(joint, size), tuple(perm), "tensor product of members")
        if order <= 40:
            c.require(joint in total, "tensor products of members are members")
        expected.add(tuple(perm))
    c.equal({gr.perm_of(m, size) for m in total.generate()}, expected, "members of the product")


@st.composite
def subsets(draw: Any) -> dict:
    spec = draw(gr.small_specs(12))
    return dict(
        spec=spec,
        size=draw(st.integers(1, gr.known_order(spec))),
        exclude=draw(st.booleans()),
        seed=draw(st.integers(0, 10**6)),
    )


@PROP.test(subsets, quick=400, thorough=2000, shards=1)
def random_subsets(case: dict, c: Context) -> None:
    group = gr.build(case["spec"])
    members, perms = member_perms(c, group)
    degree = len(perms[0])
    identity = tuple(range(degree))
    size = case["size"]
    drawn = group.random(seed=case["seed"])
    c.require(gr.perm_of(drawn, degree) in perms, "a random member is a member")
    again = group.random(seed=case["seed"])
    c.equal(gr.perm_of(again, degree), gr.perm_of(drawn, degree), "random member with equal seeds")
    involutions = sum(p == gr.inv(p) for p in perms if p != identity)
    pairs = (len(perms) - 1 - involutions) // 2
    exclude = case["exclude"]
    if exclude:
        # sizes for which symmetric subsets without the identity exist
        possible = any(
            2 * i + j == size for i in range(pairs + 1) for j in range(involutions + 1)
        )
        if not possible or (size % 2 and pairs and not involutions):
            return
        # the library warns that it may not terminate otherwise; an even number of involutions
        # to be dropped never is a problem
    c.nontrivial(size >= 2)
    subset = group.random_symmetric_subset(size, exclude_identity=exclude, seed=case["seed"])
    got = {gr.perm_of(m, degree) for m in subset}
    c.equal(len(got), size, "size of the subset")
    c.equal(len(subset), size, "size of the subset")
    c.require(got <= set(perms), "the subset consists of members")
    c.equal({gr.inv(p) for p in got}, got, "the subset is symmetric")
    if exclude:
        c.require(identity not in got, "the identity is excluded")
        c.label("identity excluded")
    repeat = group.random_symmetric_subset(size, exclude_identity=exclude, seed=case["seed"])
    c.equal({gr.perm_of(m, degree) for m in repeat}, got, "subset with equal seeds")
    for bad in (0, -1, group.order + 1):
        c.raises(ValueError, lambda: group.random_symmetric_subset(bad, seed=0), f"size {bad}")


@st.composite
def member_cases(draw: Any) -> dict:
    a = draw(st.integers(1, 8))
    b = draw(st.integers(1, 6))
    return dict(
        p=draw(st.permutations(list(range(a)))),
        q=draw(st.permutations(list(range(a)))),
        r=draw(st.permutations(list(range(b)))),
    )


def parse_gap(text: str, size: int) -> tuple:
    out = list(range(size))
    body = text.replace("()", "")
    if body:
        assert body[0] == "(" and body[-1] == ")"
        for part in body[1:-1].split(")("):
            points = [int(x) - 1 for x in part.split(",")]
            for x, y in zip(points, points[1:] + points[:1]):
                assert out[x] == x
                out[x] = y
    return tuple(out)


@PROP.test(member_cases, quick=300, thorough=4000, shards=1)
def members(case: dict, c: Context) -> None:
    """Permutations: composition, matrices, tensor products, and their GAP form."""
    member = abstract().GroupMember
    p, q, r = (tuple(case[x]) for x in "pqr")
    c.nontrivial(len(p) >= 3 and p != q)
    mp, mq, mr = (member(list(x)) for x in (p, q, r))
    size = len(p)
    c.equal(gr.perm_of(mp * mq, size), gr.mul(p, q), "product")
    c.equal(gr.perm_of(~mp, size), gr.inv(p), "inverse")

    def matrix(x: tuple) -> np.ndarray:
        out = np.zeros((len(x), len(x)), dtype=int)
        out[np.arange(len(x)), x] = 1
        return out

    c.equal(util.ints(mp.to_matrix(), (size, size), "matrix"), matrix(p), "permutation matrix")
    c.equal(
        np.asarray((mp * mq).to_matrix()),
        np.asarray(mp.to_matrix()) @ np.asarray(mq.to_matrix()),
        "matrix of a product",
    )
    joint = p + tuple(size + i for i in r)
    c.equal(gr.perm_of(mp @ mr, len(joint)), joint, "tensor product")
    c.equal((mp @ mr).size, len(joint), "size of a tensor product")
    c.equal(parse_gap(mp.to_gap_cycles(), size), p, f"GAP cycles {mp.to_gap_cycles()}")
    text = abstract().Group(mp, mq).to_gap_group().replace(" ", "")
    c.require(text.startswith("Group(") and text.endswith(")"), "GAP group", text)
    parts = [x for x in text[6:-1].replace("),(", ")|(").split("|")]
    degrees = {parse_gap(x, size) for x in parts}
    c.equal(
        set(gr.closure(list(degrees))), set(gr.closure([p, q])), "group described to GAP"
    )
    if p != q:
        c.require((mp < mq) != (mq < mp), "members are totally ordered")
