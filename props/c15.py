"""C15: Cayley complexes and quantum Tanner codes are consistent, and survive saving."""

from __future__ import annotations

import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, gen, group as gr, quantum, util
from vlib.core import REPO, SCRATCH, Context, Property

PROP = Property(
    "C15",
    "Groups of at most 16 members (all library families, random permutation groups), random"
    " symmetric subsets (identity, involutions and pairs of inverses) of up to 6 members, subcodes"
    " with any number of (dependent or no) checks over F_2,3,4,5, bipartite and quadripartite"
    " complexes of up to 64 faces.  Non-trivial: the subsets have at least 3 members together, and"
    " (for codes) both kinds of checks exist.",
)


def codes() -> Any:
    from qldpc import codes

    return codes


def cayley(*args: Any, **kwargs: Any) -> Any:
    from qldpc.objects import CayleyComplex

    return CayleyComplex(*args, **kwargs)


@st.composite
def subsets(draw: Any, max_faces: int = 64) -> dict:
    """Indices of atoms {g, 1/g}; every choice gives symmetric subsets."""
    spec = draw(gr.small_specs(16).filter(lambda s: s[0] != "trivial"))
    if draw(st.booleans()):
        spec = draw(st.sampled_from([s for s in gr.SMALL if 4 <= gr.known_order(s) <= 8]))
    low = draw(st.integers(1, 2))
    atoms_a = draw(st.lists(st.integers(0, 60), min_size=low, max_size=3, unique=True))
    atoms_b = draw(st.lists(st.integers(0, 60), min_size=low, max_size=3, unique=True))
    return dict(
        spec=spec,
        avoid=draw(st.integers(0, 3)) > 0,
        a=atoms_a,
        b=atoms_a if draw(st.integers(0, 4)) == 0 else atoms_b,
        bipartite=draw(st.booleans()),
        form=draw(st.integers(0, 3)),
    )


class Reference:
    """Group, subsets and complex in terms of tuples."""

    def __init__(self, case: dict) -> None:
        self.group = gr.build(case["spec"])
        members = list(self.group.generate())
        self.size = max(m.size for m in members)
        perms = [gr.perm_of(m, self.size) for m in members]
        # an order of members that does not depend on the library
        order = sorted(range(len(perms)), key=lambda i: perms[i])
        self.members = [members[i] for i in order]
        self.perms = [perms[i] for i in order]
        self.lookup = dict(zip(self.perms, self.members))
        self.a = self.pick(case["a"], self.perms)
        pool = self.perms
        if case["avoid"]:  # no member of B is a conjugate of a member of A
            conjugates = {gr.mul(gr.mul(g, x), gr.inv(g)) for g in self.perms for x in self.a}
            pool = [g for g in self.perms if g not in conjugates] or pool
        self.b = list(self.a) if case["b"] == case["a"] else self.pick(case["b"], pool)
        self.one = tuple(range(self.size))
        self.component = gr.closure(self.a + self.b)
        self.tnc = all(
            gr.mul(x, g) != gr.mul(g, y) for g in self.component for x in self.a for y in self.b
        )
        self.bipartite = case["bipartite"]

    def pick(self, atoms: list[int], pool: list) -> list:
        found = set()
        for atom in atoms:
            g = pool[atom % len(pool)]
            found |= {g, gr.inv(g)}
        return sorted(found)

    def given(self, perms: list, form: int) -> Any:
        out = [self.lookup[p] for p in perms]
        if form == 1:
            return set(out)
        return out[::-1] if form == 2 else tuple(out) if form == 3 else out

    # vertices of the cover are (perm, bits)
    def left(self, a: Any, v: Any) -> Any:
        bits = (v[1][0] ^ 1,) + v[1][1:]
        return gr.mul(a, v[0]), bits

    def right(self, v: Any, b: Any) -> Any:
        bits = v[1][:-1] + (v[1][-1] ^ 1,)
        return gr.mul(v[0], b), bits

    @property
    def origin(self) -> Any:
        return self.one, (0,) if self.bipartite else (0, 0)

    def decode(self, member: Any) -> Any:
        """Vertex represented by a permutation of the points of the group and of its cover."""
        array = list(member.array_form)
        array += range(len(array), member.size)
        width = 2 if self.bipartite else 4
        if len(array) != self.size + width:
            raise ValueError(f"not in the cover: {member}")
        tail = array[self.size :]
        bits = tuple(int(tail[k] != self.size + k) for k in range(0, width, 2))
        return tuple(array[: self.size]), bits

    def vertices(self) -> set:
        seen, todo = {self.origin}, [self.origin]
        while todo:
            v = todo.pop()
            for w in [self.left(a, v) for a in self.a] + [self.right(v, b) for b in self.b]:
                if w not in seen:
                    seen.add(w)
                    todo.append(w)
        return seen

    def half(self) -> list:
        """Vertices reached by acting from both sides at once."""
        seen, todo = {self.origin}, [self.origin]
        while todo:
            v = todo.pop()
            for a, b in itertools.product(self.a, self.b):
                w = self.right(self.left(a, v), b)
                if w not in seen:
                    seen.add(w)
                    todo.append(w)
        return sorted(seen)

    def face(self, v: Any, a: Any, b: Any) -> frozenset:
        w = self.left(a, v)
        return frozenset([v, w, self.right(v, b), self.right(w, b)])


@PROP.test(subsets, quick=300, thorough=5000, shards=2)
def complexes(case: dict, c: Context) -> None:
    """Validation, total no-conjugacy, covers and edges of the complex."""
    ref = Reference(case)
    a, b = ref.given(ref.a, case["form"]), ref.given(ref.b, case["form"])
    c.label("bipartite" if ref.bipartite else "quadripartite", case["spec"][0])
    c.label("total no-conjugacy" if ref.tnc else "conjugate members")
    c.nontrivial(len(ref.a) + len(ref.b) >= 3)
    from qldpc.objects import CayleyComplex

    c.equal(
        bool(CayleyComplex.satisfies_total_no_conjugacy(a, b)), ref.tnc, "total no-conjugacy condition"
    )
    # subsets without some inverse
    for side, subset in enumerate((ref.a, ref.b)):
        lone = [g for g in subset if gr.inv(g) != g]
        if lone:
            broken = ref.given([g for g in subset if g != lone[-1]], case["form"])
            args = (broken, b) if side == 0 else (a, broken)
            for bipartite in (False, True):
                c.raises(
                    ValueError, lambda: cayley(*args, bipartite=bipartite), "subset is not symmetric"
                )
    same = ref.a == ref.b
    args = (a,) if same and case["form"] % 2 else (a, b)
    if ref.bipartite and not ref.tnc:
        c.raises(ValueError, lambda: cayley(*args, bipartite=True), "total no-conjugacy violated")
        return
    plex = cayley(*args, bipartite=ref.bipartite)
    c.equal(plex.subset_a, {ref.lookup[p] for p in ref.a}, "subset A")
    c.equal(plex.subset_b, {ref.lookup[p] for p in ref.b}, "subset B")
    c.equal(bool(plex.bipartite), ref.bipartite, "type of the complex")
    c.equal(
        sorted(map(ref.decode, plex.cover_subset_a)),
        sorted(ref.left(x, ref.origin) for x in ref.a),
        "subset A of the cover",
    )
    c.equal(
        sorted(map(ref.decode, plex.cover_subset_b)),
        sorted(ref.right(ref.origin, y) for y in ref.b),
        "subset B of the cover",
    )
    vertices = ref.vertices()
    c.equal({ref.decode(v) for v in plex.graph}, vertices, "vertices")
    edges: dict = {}
    for v in vertices:
        for x in ref.a:
            edges[frozenset([v, ref.left(x, v)])] = "L"
        for y in ref.b:
            edges[frozenset([v, ref.right(v, y)])] = "R"
    got = {
        frozenset([ref.decode(v), ref.decode(w)]): data.get("type")
        for v, w, data in plex.graph.edges(data=True)
    }
    c.equal(got, edges, "edges and their types")
    c.equal(
        plex.graph.number_of_edges(),
        len(vertices) * (len(ref.a) + len(ref.b)) // 2,
        "number of edges of a complex with nondegenerate faces",
    )
    # a one-sided Cayley graph
    one_sided = CayleyComplex.build_cayley_graph(a)
    reached = gr.closure(ref.a)
    c.equal({gr.perm_of(v, ref.size) for v in one_sided}, set(reached), "vertices of a Cayley graph")
    c.equal(
        {frozenset(gr.perm_of(v, ref.size) for v in e) for e in one_sided.edges},
        {frozenset([g, gr.mul(x, g)]) for g in reached for x in ref.a},
        "edges of a Cayley graph",
    )


@st.composite
def conjugate_subsets(draw: Any) -> dict:
    """Permutations, and conjugates of them by members that need not be in either subset."""
    n = draw(st.integers(3, 5))
    perms = st.permutations(list(range(n))).map(list)
    # involutions and their conjugates generate small subgroups
    cycle_types = [p for p in itertools.permutations(range(n)) if p != tuple(range(n))]
    involutions = [list(p) for p in cycle_types if gr.inv(p) == p]
    atom = st.one_of(st.sampled_from(involutions), perms)
    a = draw(st.lists(atom, min_size=1, max_size=2))
    b = []
    for _ in range(draw(st.integers(1, 2))):
        x, g = tuple(draw(st.sampled_from(a))), tuple(draw(perms))
        b.append(list(gr.mul(gr.mul(g, x), gr.inv(g))) if draw(st.integers(0, 3)) else draw(atom))
    return dict(a=a, b=b, swap=draw(st.booleans()))


@PROP.test(conjugate_subsets, quick=240, thorough=4000, shards=1)
def conjugacy(case: dict, c: Context) -> None:
    """Total no-conjugacy asks about members of the group generated by both subsets."""
    from qldpc import abstract
    from qldpc.objects import CayleyComplex

    sides = []
    for side in ("a", "b"):
        found = {tuple(p) for p in case[side]}
        sides.append(sorted(found | {gr.inv(p) for p in found}))
    if case["swap"]:
        sides.reverse()
    group = gr.closure(sides[0] + sides[1])

    def conjugate(members: list) -> bool:
        return any(
            gr.mul(x, g) == gr.mul(g, y) for g in members for x in sides[0] for y in sides[1]
        )

    expected = not conjugate(group)
    within = any(conjugate(gr.closure(side)) for side in sides)
    c.nontrivial(not expected and not within)
    c.label("allowed" if expected else "conjugate within a side" if within else "conjugate")
    a, b = ([abstract.GroupMember(list(p)) for p in side] for side in sides)
    c.equal(
        bool(CayleyComplex.satisfies_total_no_conjugacy(a, b)), expected, "total no-conjugacy condition"
    )
    if expected:
        c.require(bool(cayley(a, b, bipartite=True).bipartite), "type of the complex")
    else:
        c.raises(ValueError, lambda: cayley(a, b, bipartite=True), "total no-conjugacy violated")


@PROP.test(subsets, quick=200, thorough=4000, shards=2)
def subgraphs(case: dict, c: Context) -> None:
    """The subgraphs of the Tanner codes have the documented edges and consistent labels."""
    ref = Reference(case)
    if ref.bipartite and not ref.tnc:
        c.label("conjugate members")
        return
    c.nontrivial(len(ref.a) + len(ref.b) >= 3)
    plex = cayley(ref.given(ref.a, case["form"]), ref.given(ref.b, case["form"]), bipartite=ref.bipartite)
    graph_x, graph_z = codes().QTCode.get_subgraphs(plex)
    expected_x, expected_z = set(), set()
    for v in ref.half():
        for x, y in itertools.product(ref.a, ref.b):
            face = ref.face(v, x, y)
            c.equal(len(face), 4, "faces are nondegenerate")
            expected_x.add((v, face))
            expected_z.add((ref.left(x, v), face))

    def decoded(graph: Any) -> set:
        return {(ref.decode(v), frozenset(map(ref.decode, f))) for v, f in graph.edges}

    c.equal(decoded(graph_x), expected_x, "subgraph X")
    c.equal(decoded(graph_z), expected_z, "subgraph Z")
    # labels: faces around a vertex are ordered by (a, b), in the order of each subset
    for graph in (graph_x, graph_z):
        for v in graph:
            if graph.out_degree(v) == 0:
                continue
            ordered = sorted(graph.successors(v), key=lambda f: graph[v][f].get("sort", f))
            got = [frozenset(map(ref.decode, f)) for f in ordered]
            ups = sorted(plex.cover_subset_a)
            downs = sorted(plex.cover_subset_b)
            expected = [
                ref.face(ref.decode(v), ref.decode(x)[0], ref.decode(y)[0] if graph is graph_x else ref.decode(y)[0])
                for x in ups
                for y in downs
            ]
            if graph is graph_z:
                # f(g, a, b) has the label (1/a, b) at ag, and is f(ag, 1/a, b)
                c.label("labels of Z vertices")
            c.equal(got, expected, "order of faces around a vertex")


@st.composite
def tanner_cases(draw: Any, max_faces: int = 64) -> dict:
    case = draw(subsets())
    # sizes are only known to the reference; matrices are cut to size
    q = draw(gen.field_orders((2, 2, 3, 4, 5)))
    entries = st.integers(0, q - 1)
    for name in ("ha", "hb"):
        rows = draw(st.sampled_from([1, 2, 0, 1, 2, 3, 1, 2, 4]))
        case[name] = [[draw(entries) for _ in range(6)] for _ in range(rows)]
    case["q"] = q
    case["cut"] = draw(st.integers(0, 4)) > 0
    case["default"] = draw(st.integers(0, 3)) == 0
    case["pass_field"] = draw(st.booleans())
    case["headers"] = draw(
        st.lists(
            st.one_of(
                st.sampled_from(
                    ["", "subset_a:", "code_a.matrix:\n1 2 3", "# base field: 7", "two\nlines", "1 2 3", "a: b"]
                ),
                st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=12),
            ),
            max_size=2,
        )
    )
    return case


def prepare(case: dict, max_faces: int) -> tuple[Reference, Any, Any, Any, Any] | None:
    ref = Reference(case)
    if ref.bipartite and not ref.tnc:
        ref.bipartite = False
    while True:
        faces = len(ref.half()) * len(ref.a) * len(ref.b) // 2
        if faces <= max_faces:
            break
        longest = ref.a if len(ref.a) >= len(ref.b) else ref.b
        if len(longest) <= 1:
            return None
        g = longest[-1]
        if len(longest) == 2 and gr.inv(g) != g:
            if len(ref.a) == len(ref.b) == 2 and longest is ref.a:
                longest = ref.b
                g = longest[-1]
                if gr.inv(g) != g:
                    return None
            else:
                return None
        for x in {g, gr.inv(g)}:
            longest.remove(x)
        ref.component = gr.closure(ref.a + ref.b)
    rows_a, rows_b = case["ha"], case["hb"]
    if case["cut"]:  # fewer checks than bits
        rows_a, rows_b = rows_a[: max(1, len(ref.a) - 1)], rows_b[: max(1, len(ref.b) - 1)]
    ha = util.mat([row[: len(ref.a)] for row in rows_a], len(ref.a))
    hb = util.mat([row[: len(ref.b)] for row in rows_b], len(ref.b))
    given_a = ref.given(ref.a, case["form"])
    given_b = ref.given(ref.b, case["form"])
    return ref, given_a, given_b, ha, hb


def build_code(case: dict, ref: Reference, a: Any, b: Any, ha: Any, hb: Any) -> tuple[Any, Any]:
    q = case["q"]
    F = ff.get(q)
    kwargs: dict = {"bipartite": ref.bipartite}
    args: list = [codes().ClassicalCode(ha, q)]
    if case["pass_field"]:
        kwargs["field"] = q
        if len(ha):
            args = [ha.tolist() if case["form"] % 2 else ha]
    if case["default"] and len(ref.a) == len(ref.b):
        words = F.null_space(ha)
        hb = util.mat([list(map(int, w)) for w in words], len(ref.a))
    else:
        args.append(codes().ClassicalCode(hb, q))
    return codes().QTCode(a, b, *args, **kwargs), hb


def face_columns(ref: Reference, graph: Any) -> dict:
    """Position of each face in the Tanner codes."""
    sinks = [node for node in graph if graph.out_degree(node) == 0]
    return {frozenset(map(ref.decode, f)): i for i, f in enumerate(sorted(sinks))}


def reference_rows(
    ref: Reference, F: Any, column: dict, ha: np.ndarray, hb: np.ndarray
) -> tuple[np.ndarray, np.ndarray]:
    n = len(column)
    size_a, size_b = len(ref.a), len(ref.b)
    ga, gb = F.null_space(ha).reshape(-1, size_a), F.null_space(hb).reshape(-1, size_b)
    local_x = F.kron(ga, gb) if len(ga) and len(gb) else np.zeros((0, size_a * size_b), dtype=int)
    local_z = F.kron(ha, hb) if len(ha) and len(hb) else np.zeros((0, size_a * size_b), dtype=int)
    sort_a = [gr.perm_of(m, ref.size) for m in sorted(ref.lookup[p] for p in ref.a)]
    sort_b = [gr.perm_of(m, ref.size) for m in sorted(ref.lookup[p] for p in ref.b)]

    def spread(vertices: list, local: np.ndarray) -> np.ndarray:
        out = []
        for v in vertices:
            places = [column[ref.face(v, x, y)] for x in sort_a for y in sort_b]
            block = np.zeros((len(local), n), dtype=int)
            block[:, places] = local
            out.append(block)
        return np.vstack(out)

    even = ref.half()
    odd = sorted({ref.left(x, v) for v in even for x in ref.a})
    return spread(even, local_x), spread(odd, local_z)


@PROP.test(tanner_cases, quick=420, thorough=7000, shards=5)
def tanner_codes(case: dict, c: Context) -> None:
    ready = prepare(case, 64 if case["q"] == 2 else 36)
    if ready is None:
        c.label("too large")
        return
    ref, a, b, ha, hb = ready
    q = case["q"]
    F = ff.get(q)
    code, hb = build_code(case, ref, a, b, ha, hb)
    graph_x, graph_z = codes().QTCode.get_subgraphs(code.complex)
    column = face_columns(ref, graph_x)
    n = len(ref.half()) * len(ref.a) * len(ref.b) // 2
    c.equal(len(column), n, "number of faces")
    hx, hz = reference_rows(ref, F, column, ha, hb)
    c.label(f"q={q}", "bipartite" if ref.bipartite else "quadripartite")
    if case["default"] and len(ref.a) == len(ref.b):
        c.label("default second subcode")
    c.nontrivial(hx.any() and hz.any() and len(ref.a) + len(ref.b) >= 3)
    c.require(not F.matmul(hx, hz.T).any(), "documented checks commute")
    zero_x, zero_z = np.zeros_like(hx), np.zeros_like(hz)
    rows = np.vstack([np.hstack([hx, zero_x]), np.hstack([zero_z, hz])])
    data = quantum.check_code(
        c,
        code,
        rows,
        n,
        q,
        what="QTCode",
        subsystem=False,
        exact_rows=False,
        gauge=n <= 20,
    )
    if data["k"]:
        c.label("logical qudits")
    got_x = util.ints(code.matrix_x, (None, n), "X checks", q)
    got_z = util.ints(code.matrix_z, (None, n), "Z checks", q)
    c.require(not F.matmul(got_x, got_z.T).any(), "X and Z checks commute")
    c.require(F.same_span(got_x, hx), "X checks of the Tanner code")
    c.require(F.same_span(got_z, hz), "Z checks of the Tanner code")
    # only the codes matter, not their parity checks
    other = codes().QTCode(
        code.complex.subset_b and set(list(code.complex.subset_a)[::-1]),
        code.complex.subset_b,
        codes().ClassicalCode(F.rref(ha) if ha.any() else ha, q),
        codes().ClassicalCode(hb, q),
        bipartite=ref.bipartite,
    )
    c.require(F.same_span(util.ints(other.matrix_x, (None, n), "X checks", q), hx), "equivalent subcodes")
    c.require(F.same_span(util.ints(other.matrix_z, (None, n), "Z checks", q), hz), "equivalent subcodes")

    # subcodes of wrong lengths
    if len(ref.a) != len(ref.b):
        c.label("lengths differ")
        c.raises(
            ValueError,
            lambda: codes().QTCode(a, b, codes().ClassicalCode(ha, q), bipartite=ref.bipartite),
            "underspecified code",
        )
        c.raises(
            ValueError,
            lambda: codes().QTCode(
                a, b, codes().ClassicalCode(hb, q), codes().ClassicalCode(ha, q), bipartite=ref.bipartite
            ),
            "subcodes of the wrong lengths",
        )
    wrong = 3 if q == 2 else 2
    c.raises(
        ValueError,
        lambda: codes().QTCode(
            a, b, codes().ClassicalCode(ha, q), codes().RepetitionCode(len(ref.b), wrong)
        ),
        "subcodes over different fields",
    )


def describe(code: Any) -> dict:
    """Everything about a code that must survive saving."""
    return {
        "subset_a": sorted(list(map(int, g.array_form)) for g in code.complex.subset_a),
        "subset_b": sorted(list(map(int, g.array_form)) for g in code.complex.subset_b),
        "size": sorted({int(g.size) for g in code.complex.subset_a | code.complex.subset_b}),
        "bipartite": bool(code.complex.bipartite),
        "field": int(code.field.order),
        "fields": [int(code.code_a.field.order), int(code.code_b.field.order)],
        "code_a": np.asarray(code.code_a.matrix).astype(int).tolist(),
        "code_b": np.asarray(code.code_b.matrix).astype(int).tolist(),
        "lengths": [len(code.code_a), len(code.code_b), len(code)],
        "matrix_x": np.asarray(code.matrix_x).astype(int).tolist(),
        "matrix_z": np.asarray(code.matrix_z).astype(int).tolist(),
        "subsystem": bool(code.is_subsystem_code),
    }


@PROP.test(tanner_cases, quick=260, thorough=4000, shards=3)
def saved_codes(case: dict, c: Context) -> None:
    """Loading a saved code gives back an identical code; equality tells codes apart."""
    ready = prepare(case, 40)
    if ready is None:
        return
    ref, a, b, ha, hb = ready
    q = case["q"]
    code, hb = build_code(case, ref, a, b, ha, hb)
    c.nontrivial(ha.any() and hb.any() and len(ref.a) + len(ref.b) >= 3)
    c.label(f"q={q}", "bipartite" if ref.bipartite else "quadripartite")
    if not len(ha) or not len(hb):
        c.label("subcode without checks")
    folder = tempfile.mkdtemp(prefix="c15-", dir=SCRATCH)
    try:
        path = os.path.join(folder, "deep", "er", "code.txt")
        c.raises(ValueError, lambda: codes().QTCode.load(path), "no such file")
        code.save(path, *case["headers"])
        twin = codes().QTCode.load(path)
        c.equal(describe(twin), describe(code), "a loaded code")
        c.require(twin == code and code == twin, "a loaded code compares equal")
        with open(path) as file:
            text = file.read()
        for header in case["headers"]:
            for line in header.splitlines():
                c.require(f"# {line}" in text, "headers are written", line)
        # saving again, over the old file and without headers
        twin.save(path)
        third = codes().QTCode.load(path)
        c.equal(describe(third), describe(code), "a code loaded twice")
    finally:
        shutil.rmtree(folder)
    # different generating data
    hb = util.ints(code.code_b.matrix, (None, len(ref.b)), "second subcode", q)
    others = []
    if not ref.bipartite and ref.tnc:
        others.append((a, b, ha, hb, True))
    if ref.a != ref.b and len(ref.a) == len(ref.b):
        others.append((b, a, ha, hb, ref.bipartite))
    F = ff.get(q)
    if len(ha):
        changed = ha.copy()
        changed[0, -1] = (changed[0, -1] + 1) % q
        others.append((a, b, changed, hb, ref.bipartite))
    if len(hb):
        changed = hb.copy()
        changed[-1, 0] = (changed[-1, 0] + 1) % q
        others.append((a, b, ha, changed, ref.bipartite))
    for x, y, h1, h2, bipartite in others:
        if bipartite and not ref.tnc:
            continue
        other = codes().QTCode(
            x, y, codes().ClassicalCode(h1, q), codes().ClassicalCode(h2, q), bipartite=bipartite
        )
        c.require(other != code and code != other, "codes with different generating data differ")
    same = codes().QTCode(
        a, b, codes().ClassicalCode(ha, q), codes().ClassicalCode(hb, q), bipartite=ref.bipartite
    )
    c.require(same == code, "codes with the same generating data are equal")


CHILD = """
import json, sys
sys.path.insert(0, sys.argv[1])
sys.path.insert(1, sys.argv[2])
import vlib.core
import props.c15 as c15
from qldpc import codes
print(json.dumps([c15.describe(codes.QTCode.load(path)) for path in sys.argv[3:]]))
"""


def batches() -> Any:
    return st.lists(tanner_cases(), min_size=6, max_size=10)


@PROP.test(batches, quick=5, thorough=30, shards=5)
def other_processes(case: list, c: Context) -> None:
    """A saved code is the same code for another process (where strings have other hashes)."""
    folder = tempfile.mkdtemp(prefix="c15-", dir=SCRATCH)
    try:
        paths, expected = [], []
        for index, item in enumerate(case):
            ready = prepare(item, 40)
            if ready is None:
                continue
            ref, a, b, ha, hb = ready
            code, _ = build_code(item, ref, a, b, ha, hb)
            paths.append(os.path.join(folder, f"{index}.txt"))
            code.save(paths[-1], *item["headers"])
            expected.append(describe(code))
        c.nontrivial(len(paths) >= 2)
        for hash_seed in ("1", "2"):
            verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
            env = {**os.environ, "PYTHONHASHSEED": hash_seed, "VERIF_REPO": REPO}
            done = subprocess.run(
                [sys.executable, "-c", CHILD, verif, REPO, *paths],
                env=env,
                capture_output=True,
                text=True,
                timeout=300,
            )
            c.equal(done.returncode, 0, f"loading in another process: {done.stderr[-300:]}")
            loaded = json.loads(done.stdout.splitlines()[-1])
            for one, other in zip(expected, loaded):
                for key in one:
                    c.equal(other[key], one[key], f"{key} of a code loaded by another process")
    finally:
        shutil.rmtree(folder)


@st.composite
def random_codes(draw: Any) -> dict:
    spec = draw(gr.small_specs(12).filter(lambda s: gr.known_order(s) not in (None, 1)))
    order = gr.known_order(spec)
    q = draw(gen.field_orders((2, 2, 3)))
    na = draw(st.integers(1, min(order, 4)))
    nb = draw(st.integers(1, max(1, min(order, 4, 80 // (order * na)))))
    return dict(
        spec=spec,
        q=q,
        na=na,
        nb=nb,
        kind=draw(st.sampled_from(["both", "both", "default", "one subset"])),
        bipartite=draw(st.integers(0, 3)) == 0,
        seed=draw(st.integers(0, 2**31)),
    )


@PROP.test(random_codes, quick=150, thorough=2500, shards=2)
def random_tanner_codes(case: dict, c: Context) -> None:
    """Random codes have the requested subcodes, symmetric subsets, and repeat with their seed."""
    q = case["q"]
    F = ff.get(q)
    group = gr.build(case["spec"])
    code_a = codes().RepetitionCode(case["na"], q)
    args: list = [code_a]
    nb = case["na"] if case["kind"] != "both" else case["nb"]
    if case["kind"] == "both":
        args.append(codes().RepetitionCode(nb, q))
    kwargs = dict(bipartite=case["bipartite"], one_subset=case["kind"] == "one subset", seed=case["seed"])
    try:
        code = codes().QTCode.random(group, *args, **kwargs)
    except ValueError as error:
        c.require(case["bipartite"] and "onjugacy" in str(error), f"unexpected error: {error}")
        c.label("conjugate members")
        return
    c.nontrivial(case["na"] + nb >= 3)
    c.label(case["kind"])
    members = {tuple(g.array_form) for g in group.generate()}
    for subset, size in [(code.complex.subset_a, case["na"]), (code.complex.subset_b, nb)]:
        c.equal(len(subset), size, "size of a random subset")
        c.require(all(~g in subset for g in subset), "random subsets are symmetric")
        c.require(all(tuple(g.array_form) in members for g in subset), "members of random subsets")
    if case["kind"] == "one subset":
        c.equal(code.complex.subset_a, code.complex.subset_b, "one subset")
    c.equal(code.complex.bipartite, case["bipartite"], "kind of the complex")
    c.equal(code.code_a, code_a, "first subcode")
    if case["kind"] == "both":
        c.equal(code.code_b, args[1], "second subcode")
        listed = codes().QTCode.random(group, *[np.array(a.matrix) for a in args], q, **kwargs)
        c.equal(describe(listed), describe(code), "subcodes provided as arrays of integers")
    else:
        expected = np.ones((1, nb), dtype=int)
        got = util.ints(code.code_b.matrix, (None, nb), "second subcode", q)
        ref = F.null_space(util.ints(code_a.matrix, None, "first subcode", q))
        c.require(F.same_span(got, ref) and F.same_span(ref, expected), "default second subcode")
    x, z = (util.ints(m, None, "checks", q) for m in (code.matrix_x, code.matrix_z))
    c.require(not F.matmul(x, z.T).any(), "X and Z checks commute")
    util.foreign_equality(c, code, code.code_a, codes().CSSCode(code.matrix_x, code.matrix_z))
    again = codes().QTCode.random(group, *args, **kwargs)
    c.require(again == code, "the same seed gives the same code")
    c.equal(describe(again), describe(code), "the same seed gives the same code")


@PROP.test(cases=lambda tier: [2, 3, 4, 5, 6], quick=5, shards=2)
def toric_tanner_code(size: int, c: Context) -> None:
    """Documented in the literature: a rotated toric code."""
    from qldpc import abstract

    group = abstract.Group.product(abstract.CyclicGroup(size), repeat=2)
    if size == 2:
        return
    c.nontrivial()
    x, y = group.generators
    code = codes().QTCode([x, ~x], [y, ~y], codes().RepetitionCode(2))
    n = size**2 if size % 2 == 0 else 4 * size**2
    c.equal(len(code), n, "number of faces")
    c.equal(int(code.dimension), 2, "dimension of a toric code")
    c.equal(int(code.get_weight()), 4, "weight of a toric code")
    if size in (4,):
        c.equal(int(code.get_distance()), size, "distance of a toric code")
