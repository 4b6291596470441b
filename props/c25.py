"""C25: data read from external algebra systems is reconstructed faithfully."""

from __future__ import annotations

import itertools
import json
import os
import shutil
from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import core, fakegap, ff, gen, group, util
from vlib.core import Context, Property

PROP = Property(
    "C25",
    "A stand-in for the GAP process (and for the pages of GroupNames.org) that prints randomly"
    " generated permutation groups on up to 30 points, parity check matrices over prime fields,"
    " prime power fields, idempotents of group algebras over fields up to GF(81) (true ones of small"
    " groups, and arbitrary ones), and automorphism groups of codes of up to 6 bits in GAP's format,"
    " breaking long lines unless formatting is turned off; and every failure mode: no GAP, wrong"
    " versions, errors, missing packages, unreachable or incomplete pages.  Non-trivial: the"
    " described object has at least two generators, rows or terms, or a failure is injected.",
    ["the stand-in prints what GAP 4.12 prints; GAP itself is not installed here"],
)


def world(answer: Any = None, **kwargs: Any) -> fakegap.Fake:
    return fakegap.Fake(answer, **kwargs)


def fresh() -> Any:
    return fakegap.fresh_cache(core.SCRATCH)


def images(cycles: Any, size: int) -> tuple:
    """Images of all points under a product of disjoint cycles."""
    out = list(range(size))
    for cycle in cycles:
        for a, b in zip(cycle, [*cycle[1:], *cycle[:1]]):
            out[a] = b
    return tuple(out)


####################################################################################################
# permutation groups


@st.composite
def permutations(draw: Any, top: int = 30) -> list[int]:
    size = draw(st.one_of(st.integers(1, 7), st.integers(1, top)))
    return draw(gen.permutation(size))


@st.composite
def groups(draw: Any) -> dict:
    count = draw(st.integers(0, 4))
    perms = [draw(permutations()) for _ in range(count)]
    name = draw(
        st.sampled_from(["SmallGroup(8,3)", "X", "DihedralGroup( 8 )", " SmallGroup(12, 4)", "A*B"])
    )
    return dict(perms=perms, name=name, order=draw(st.booleans()))


@PROP.test(groups, quick=300)
def gap_groups(case: dict, c: Context) -> None:
    """Generators of groups described by GAP."""
    from qldpc import abstract, external

    perms = [tuple(p) for p in case["perms"]]
    size = max(map(len, perms), default=0)
    text = "".join(fakegap.print_permutation(p) + "\n" for p in perms)
    with fresh(), fakegap.active(world(lambda _: text)) as fake:
        raw = external.groups.get_generators(case["name"])
        expected = [p + tuple(range(len(p), size)) for p in perms]
        c.equal([images(cycles, size) for cycles in raw], expected, "generators")
        c.require(
            any(f"{case['name']}" in command for command in fake.commands), "group asked for", fake.commands
        )
        built = abstract.Group.from_name(case["name"])
        asked = [x for x in fake.commands if case["name"].replace(" ", "") in x.replace(" ", "")]
        c.require(asked, "GAP was asked for another group", fake.commands)
        gens = [group.perm_of(g, size) for g in built.generators]
        moving = {p for p in expected if p != tuple(range(size))}
        c.equal({p for p in gens if p != tuple(range(size))}, moving, "generators of the group")
        c.equal(built.name, case["name"].replace(" ", ""), "name")
        if case["order"] and size <= 5:
            truth = len(group.closure(expected)) if expected else 1
            c.equal(built.order, truth, "order of the group")
    if len(moving) > 1:
        c.nontrivial()


@st.composite
def small_groups(draw: Any) -> dict:
    spec = draw(st.sampled_from([s for s in group.SMALL if s[0] != "trivial"]))
    number = draw(st.integers(1, 12))
    return dict(spec=spec, number=number, index=draw(st.integers(-1, number + 2)))


@PROP.test(small_groups, quick=120)
def indexed_groups(case: dict, c: Context) -> None:
    """SmallGroup: known indices only, and the group that GAP describes."""
    from qldpc import abstract

    reference = group.build(case["spec"])
    size = reference.identity.size
    gens = [group.perm_of(g, size) for g in reference.generators]
    elements = group.closure([tuple(range(size)), *gens])
    order = len(elements)
    name = f"SmallGroup({order},{case['index']})"
    answers_all = case["number"] <= 4  # the same group for all indices

    def answer(text: str) -> str:
        if f"NumberSmallGroups({order})" in text:
            return f"{case['number']}"
        if f"StructureDescription({name})" in text:
            return "some : structure\n"
        if "NumberSmallGroups(1)" in text:
            return "1"
        assert f"SmallGroup({order}," in text if answers_all else name in text, text
        return "".join(fakegap.print_permutation(p) + "\n" for p in gens)

    if order == 1:
        return
    with fresh(), fakegap.active(world(answer)):
        if not 1 <= case["index"] <= case["number"]:
            c.raises(
                ValueError, lambda: abstract.SmallGroup(order, case["index"]), "index out of range"
            )
            return
        built = abstract.SmallGroup(order, case["index"])
        c.equal(built.order, order, "order")
        size = max(size, built.identity.size)
        pad = lambda p: p + tuple(range(len(p), size))  # noqa: E731
        c.equal(
            {group.perm_of(g, size) for g in built.generate()}, set(map(pad, elements)), "members"
        )
        c.equal(abstract.SmallGroup.number(order), case["number"], "number of groups")
        c.equal(built.structure, "some : structure", "structure")
        c.equal(built.name, name, "name")
        c.require(name in str(built), "name in the description", str(built))
        for seed in (None, 0, case["number"]):
            c.require(built.random(seed=seed) in built, "random member", seed)
        every = list(abstract.SmallGroup.generator(order)) if answers_all else []
        for index, other in enumerate(every):
            c.equal(other.name, f"SmallGroup({order},{index + 1})", "names of all groups")
            c.equal(other.order, order, "orders of all groups")
        if answers_all:
            c.equal(len(every), case["number"], "number of all groups")
        one = abstract.SmallGroup(1, 1) if case["number"] == 1 else abstract.Group.from_name("SmallGroup(1, 1)")
        c.equal(one.order, 1, "order of the group with one member")
        c.require(one.random(seed=case["number"]) == one.identity, "its random member")
        c.nontrivial()


@PROP.test(cases=lambda tier: [dict(index=i) for i in range(4)], shards=1)
def known_groups(case: dict, c: Context) -> None:
    """Groups stored with the library are automorphism groups of the codes in their names."""
    import ast
    import re

    from qldpc import external

    names = sorted(external.groups.KNOWN_GROUPS)
    if case["index"] >= len(names):
        return
    name = names[case["index"]]
    match = re.fullmatch(r"AutomorphismGroup\(CheckMatCode\((.*),GF\((\d+)\)\)\)", name)
    assert match, name
    rows, q = ff.get(int(match.group(2))).arr(ast.literal_eval(match.group(1))), int(match.group(2))
    F = ff.get(q)
    for attempt in range(2):
        # no external system is needed, and modifying an answer has no effect on later ones
        with fresh(), fakegap.active(world(installed=False)):
            gens = external.groups.get_generators(name)
            c.require(len(gens) > 0, "no generators")
            for cycles in gens:
                perm = images(cycles, rows.shape[1])
                c.equal(sorted(perm), list(range(rows.shape[1])), "permutation")
                c.require(F.same_span(rows[:, list(perm)], rows), "not an automorphism", cycles)
            gens.append([(0, 1)])
            gens[0].append((0,))
    c.nontrivial()


####################################################################################################
# codes


@st.composite
def code_tables(draw: Any) -> dict:
    q = draw(st.sampled_from([2, 2, 3, 5, 7, 11, 4, 8, 9]))
    p = ff.get(q).p if q != 11 else 11
    cols = draw(st.one_of(st.integers(1, 6), st.integers(1, 60)))
    rows = draw(st.integers(0, 5))
    seed = draw(st.integers(0, 2**20))
    table = np.random.RandomState(seed).randint(0, p, (rows, cols)).tolist()
    return dict(q=q, p=p, table=table, name=draw(st.sampled_from(["HammingCode(3)", "A( B , 2 )"])))


@PROP.test(code_tables, quick=250)
def gap_codes(case: dict, c: Context) -> None:
    """Parity checks and fields of codes described by GAP."""
    from qldpc import codes, external

    q, p = case["q"], case["p"]
    power = 1
    while p**power < q:
        power += 1
    text = f"GF({p})\n" if power == 1 else f"GF({p}^{power})\n"
    text += "".join("[ " + ", ".join(map(str, row)) + " ]\n" for row in case["table"])
    with fresh(), fakegap.active(world(lambda _: text)) as fake:
        if not case["table"]:
            c.raises(ValueError, lambda: external.codes.get_code(case["name"]), "code without checks")
            return
        checks, field = external.codes.get_code(case["name"])
        c.equal([list(map(int, row)) for row in checks], case["table"], "parity checks")
        c.equal(field, q, "field")
        c.require(any(case["name"] in x for x in fake.commands), "another code was asked for")
        code = codes.ClassicalCode.from_name(case["name"])
        c.equal(code.field.order, q, "field of the code")
        shape = (len(case["table"]), len(case["table"][0]))
        c.equal(util.ints(code.matrix, shape, "matrix of the code", q), util.mat(case["table"], shape[1]), "matrix")
        c.equal(code.name, case["name"], "name of the code")
        flat = case["name"].replace(" ", "")
        c.require(any(flat in x.replace(" ", "") for x in fake.commands), "another code was asked for")
    if len(case["table"]) > 1:
        c.nontrivial()
    c.label(f"q={q}")


@st.composite
def automorphism_cases(draw: Any) -> dict:
    q = draw(gen.field_orders((2, 3, 5)))
    rows = draw(gen.matrix(q, 1, 4, 2, 6 if q == 2 else 5))
    return dict(q=q, rows=rows)


@PROP.test(automorphism_cases, quick=150)
def automorphism_groups(case: dict, c: Context) -> None:
    """The automorphism group of a code is the group of bit permutations that preserve its words."""
    import galois
    from qldpc import codes

    q = case["q"]
    F = ff.get(q)
    rows = util.mat(case["rows"], len(case["rows"][0]))
    if not rows.any():
        return  # there is no such code in GAP
    n = rows.shape[1]
    code = codes.ClassicalCode(galois.GF(q)(rows))
    with fresh(), fakegap.active(world(fakegap.automorphism_answer)):
        found = code.get_automorphism_group()
        c.equal(found.identity.size, n, "number of bits that the group acts on")
        members = {group.perm_of(g, n) for g in found.generate()}
        c.equal(members, set(fakegap.automorphisms(rows.tolist(), q)), "automorphisms")
        words = F.null_space(rows)
        for member in found.generators:
            image = F.matmul(words, np.asarray(member.to_matrix()).astype(int))
            c.require(F.same_span(image, words), "code words are not preserved", member)
        # without GAP the group is an error, not a guess
    with fresh(), fakegap.active(world(installed=False)):
        c.raises(ValueError, lambda: code.get_automorphism_group(), "automorphisms without GAP")
    if len(members) > 2:
        c.nontrivial()


####################################################################################################
# idempotents


def conway_power(q: int, number: int) -> int:
    """Discrete logarithm of a field element with respect to the root of the Conway polynomial."""
    import galois

    return int(galois.GF(q)(number).log(galois.GF(q).primitive_element))


LOGS: dict = {}


def print_element(q: int, number: int) -> str:
    """A non-zero field element as GAP prints it: a power of Z of the smallest field with it."""
    import galois

    if q not in LOGS:
        field = galois.GF(q)
        LOGS[q] = (
            [None] + [int(np.log(field(i))) for i in range(1, q)],
            int(field.characteristic),
            int(field.degree),
        )
    logs, p, degree = LOGS[q]
    power = logs[number]
    for d in range(1, degree + 1):
        step = (q - 1) // (p**d - 1)
        if degree % d == 0 and power % step == 0:
            power //= step
            break
    base = f"Z({p})" if d == 1 else f"Z({p}^{d})"
    return base if power == 1 else f"{base}^{power}"


def print_members(q: int, members: list) -> str:
    """A list of elements of a group algebra as GAP prints it."""
    texts = []
    for terms in members:
        texts.append(
            "+".join(f"({print_element(q, a)})*{fakegap.print_permutation(p)}" for a, p in terms)
        )
    return "[ " + ", ".join(texts) + " ]"


@st.composite
def member_lists(draw: Any) -> dict:
    q = draw(st.sampled_from([2, 3, 4, 5, 7, 8, 9, 16, 16, 64, 81, 25, 13]))
    members = []
    for _ in range(draw(st.integers(1, 4))):
        terms = []
        for _ in range(draw(st.integers(1, 5))):
            terms.append([draw(st.integers(1, q - 1)), draw(permutations(14))])
        members.append(terms)
    return dict(q=q, members=members)


@PROP.test(member_lists, quick=300)
def printed_idempotents(case: dict, c: Context) -> None:
    """Coefficients and permutations in the order in which they are printed."""
    from qldpc import external

    text = print_members(case["q"], case["members"])
    with fresh(), fakegap.active(world(lambda _: text)):
        got = external.groups.get_primitive_central_idempotents("Group((1,2))", case["q"])
    c.equal(len(got), len(case["members"]), "number of idempotents")
    for terms, expected in zip(got, case["members"]):
        c.equal(len(terms), len(expected), "number of terms")
        for (coefficient, cycles), (number, perm) in zip(terms, expected):
            c.equal(int(coefficient), number, f"coefficient in {text}")
            c.equal(images(cycles, len(perm)), tuple(perm), f"permutation in {text}")
    if max(map(len, case["members"])) > 1:
        c.nontrivial()
    c.label(f"q={case['q']}")


IDEMPOTENT_GROUPS = [
    [["cyclic", 2], [3, 5, 9]],
    [["cyclic", 3], [2, 4, 5, 7, 16, 25, 64]],
    [["cyclic", 4], [3, 5, 9]],
    [["cyclic", 5], [2, 3, 4, 9, 16]],
    [["abelian", 2, 2], [3, 5, 9]],
    [["symmetric", 3], [5, 7, 25]],
    [["dihedral", 4], [3, 5, 9]],
    [["quaternion"], [3, 5, 9]],
    [["dihedral", 5], [3, 7, 9]],
    [["alternating", 4], [5, 7]],
]


def central_idempotents(elements: list, q: int) -> list[dict]:
    """Primitive central idempotents of a group algebra, by enumeration of its centre."""
    F = ff.get(q)
    index = {g: i for i, g in enumerate(elements)}
    classes: list[list[int]] = []
    seen: set = set()
    for g in elements:
        if g not in seen:
            orbit = {group.mul(group.mul(group.inv(h), g), h) for h in elements}
            seen |= orbit
            classes.append(sorted(index[x] for x in orbit))
    where = {i: k for k, members in enumerate(classes) for i in members}
    m = len(classes)
    # class sums: C_i C_j = sum_k a_ijk C_k
    a = np.zeros((m, m, m), dtype=int)
    for i, j in itertools.product(range(m), repeat=2):
        counts = [0] * len(elements)
        for x in classes[i]:
            for y in classes[j]:
                counts[index[group.mul(elements[x], elements[y])]] += 1
        for k, members in enumerate(classes):
            a[i, j, k] = counts[members[0]] % F.p
    assert q**m <= 2**21, (q, m)
    if q**m > 20000:
        vectors = np.array(list(itertools.product(range(q), repeat=m)))
    else:
        vectors = F.all_vectors(m)

    def product(x: np.ndarray, y: np.ndarray) -> np.ndarray:
        out = np.zeros(np.broadcast(x, y).shape, dtype=int)
        for i, j, k in itertools.product(range(m), repeat=3):
            if a[i, j, k]:
                term = F.times(F.times(x[..., i], y[..., j]), int(a[i, j, k]))
                out[..., k] = F.plus(out[..., k], term)
        return out

    idempotents = vectors[(product(vectors, vectors) == vectors).all(axis=1)]
    idempotents = idempotents[idempotents.any(axis=1)]
    out = []
    for e in idempotents:
        parts = (product(idempotents, e[None, :]) == idempotents).all(axis=1)
        if parts.sum() == 1:
            out.append({g: int(e[where[index[g]]]) for g in elements if e[where[index[g]]]})
    return out


def idempotent_cases(tier: str) -> list:
    out = []
    for spec, orders in IDEMPOTENT_GROUPS:
        for q in orders if tier == "thorough" else orders[:4]:
            if q <= 9 or spec == ["cyclic", 3] and q in (16, 25):
                out.append(dict(spec=spec, q=q))
    return out


@PROP.test(cases=idempotent_cases, shards=4)
def true_idempotents(case: dict, c: Context) -> None:
    """GroupRing.get_primitive_central_idempotents for algebras that are known completely."""
    from qldpc import abstract

    q = case["q"]
    if q > 9 and q not in FIELD_CACHE:
        FIELD_CACHE.add(q)
    reference = group.build(case["spec"])
    size = reference.identity.size
    elements = group.closure([tuple(range(size)), *(group.perm_of(g, size) for g in reference.generators)])
    truth = central_idempotents(elements, q)
    asked = []

    def answer(text: str) -> str:
        asked.append(text)
        assert f"GF({q})" in text, text
        order = sorted(truth, key=lambda e: json.dumps(sorted(map(list, e))))
        return print_members(q, [sorted(((a, g) for g, a in e.items()), key=lambda t: t[1]) for e in order])

    with fresh(), fakegap.active(world(answer)):
        ring = abstract.GroupRing(reference, q)
        got = ring.get_primitive_central_idempotents()
        described = [
            {group.perm_of(g, size): int(x) for x, g in member if int(x)} for member in got
        ]
        key = lambda e: sorted((g, a) for g, a in e.items())  # noqa: E731
        c.equal(sorted(map(key, described)), sorted(map(key, truth)), "idempotents")
        total = sum(got[1:], start=got[0])
        c.require(total == ring.one, "idempotents do not add up to one", total)
        for x, y in itertools.combinations(got, 2):
            c.require(x * y == ring.zero and y * x == ring.zero, "idempotents are not orthogonal")
        for x in got:
            c.require(x * x == x, "not idempotent", x)
        # GAP was asked about this very group
        import re

        match = re.search(r"Group\(([^;]*)\);", asked[0])
        c.require(match, "no group of permutations in the question", asked[0])
        gens = []
        for text in re.findall(r"(?:\([\d,]*\))+", match.group(1)):
            cycles = [
                tuple(int(x) - 1 for x in body.split(","))
                for body in re.findall(r"\(([\d,]+)\)", text)
            ]
            gens.append(images(cycles, size))
        c.equal(set(group.closure([tuple(range(size)), *gens])), set(elements), "group in the question")
    if len(got) > 1:
        c.nontrivial()


FIELD_CACHE: set = set()


####################################################################################################
# GroupNames.org


@st.composite
def web_pages(draw: Any) -> dict:
    rows = draw(
        st.lists(
            st.tuples(st.sampled_from([2, 6, 12, 16, 21, 61, 62, 116, 162]), st.integers(1, 23)),
            min_size=1,
            max_size=8,
            unique=True,
        )
    )
    gens = [draw(permutations(12)) for _ in range(draw(st.integers(1, 3)))]
    gens = [g for g in gens if g != sorted(g)] or [[1, 0]]
    return dict(
        rows=[list(r) for r in rows],
        ask=list(draw(st.one_of(st.sampled_from(rows), st.sampled_from(rows), st.just((2, 23))))),
        gens=gens,
        fault=draw(
            st.sampled_from(["", "", "", "", "offline", "no generators", "no link", "suffix"])
        ),
        extra=draw(st.booleans()),
    )


@PROP.test(web_pages, quick=300)
def group_names(case: dict, c: Context) -> None:
    """Without GAP, generators come from the page of the very group that was asked for."""
    from qldpc import external

    order, index = case["ask"]
    base = external.groups.GROUPNAMES_URL
    listed = [tuple(r) for r in case["rows"]]

    def line(entry: tuple, link: bool = True) -> str:
        a, b = entry
        href = f'<a href="{a % 7}/G{a}.{b}.html">' if link else "<a>"
        more = ' <a href="cyclic.html">cyclic</a>' if link else ""
        return (
            f"<tr><td id='g'>{href}C<sub>{a}</sub></a></td><td>see{more}"
            f'</td><td>{b}</td><td>{a},{b}</td></tr>'
        )

    def cycles_text(perm: list) -> str:
        return fakegap.print_permutation(perm).replace(",", " ")

    def pages(url: str) -> str | None:
        name = url[len(base) :]
        if name in ("", "index500.html"):
            rows = [r for r in listed if (r[0] > 60) == (name != "")]
            if name:
                rows = listed  # the long page lists all groups
            link = case["fault"] != "no link"
            return "<table>\n" + "\n".join(line(r, link) for r in rows) + "\n</table>\n"
        for a, b in listed:
            if name == f"{a % 7}/G{a}.{b}.html":
                gens = case["gens"] if (a, b) == (order, index) else [[1, 2, 0]]
                pre = "<br>\n".join(map(cycles_text, gens))
                if case["fault"] == "no generators":
                    return "<b>Permutation representations</b> none <button class='copytext'>"
                other = (
                    "<pre class='pre' id='textgn2'>(7 8 9)</pre>&emsp;<button class='copytext'"
                    " id='copygn2'>Copy</button><br>"
                )
                return (
                    f"<h1>G{a}.{b}</h1><pre>(1 9)</pre>\n<b><a href='x'>Permutation representations of"
                    " G</a></b><br><a id='shl1'>Regular action</a><div>Generators in S<br>"
                    f"<pre class='pre' id='textgn1'>{pre}</pre>&emsp;<button class='copytext'"
                    f" id='copygn1'>Copy</button><br>" + (other if case["extra"] else "")
                )
        return None

    fault = case["fault"]
    name = f"SmallGroup({order},{index})"
    if fault == "suffix":
        name += "^2"
    with fresh(), fakegap.active(
        world(installed=False, pages=None if fault == "offline" else pages)
    ) as fake:
        numbers = [b for a, b in listed if a == order]
        if fault == "offline" or not numbers:
            c.raises(
                ValueError, lambda: external.groups.get_small_group_number(order), "unknown number"
            )
        else:
            c.equal(external.groups.get_small_group_number(order), max(numbers), "number of groups")
        if fault or (order, index) not in listed:
            c.raises(ValueError, lambda: external.groups.get_generators(name), f"fault {fault}")
            c.nontrivial()
            c.label(f"fault {fault}" if fault else "unknown group")
            return
        size = max(map(len, case["gens"]))
        got = external.groups.get_generators(name)
        expected = [tuple(g) + tuple(range(len(g), size)) for g in case["gens"]]
        c.equal([images(cycles, size) for cycles in got], expected, "generators")
        c.require(all(url.startswith(base) for url in fake.urls), "other web sites", fake.urls)
        if len(listed) > 1:
            c.nontrivial()
        c.label("from a page")


####################################################################################################
# failures of the external system


def faults(tier: str) -> list[dict]:
    """All combinations of questions and failures."""
    versions = ["", "3.4.4", "gap: command not found", "5.0.0", "Segmentation fault"]
    replies = ["n", "no", "y", "", "Y", " N "]
    kinds = [(f, "", "n", False) for f in ("stderr", "stderr with output", "garbage", "empty")]
    kinds += [(f, "", "n", False) for f in ("no gap", "broken")]
    kinds += [("version", version, "n", False) for version in versions]
    kinds += [("package", "", reply, fails) for reply in replies for fails in (False, True)]
    return [
        dict(query=query, fault=fault, version=version, reply=reply, clone_fails=fails)
        for query in ["group", "code", "idempotents", "number", "structure", "auto"]
        for fault, version, reply, fails in kinds
    ]


@PROP.test(cases=faults, shards=1)
def failures(case: dict, c: Context) -> None:
    """No failure of the external system turns into data."""
    from qldpc import abstract, codes, external

    query, fault = case["query"], case["fault"]
    good = {
        "group": "(1,2,3)\n(1,2)\n",
        "code": "GF(2)\n[ 1, 1 ]\n",
        "idempotents": "[ (Z(2)^0)*()+(Z(2)^0)*(1,2,3)+(Z(2)^0)*(1,3,2), (Z(2)^0)*(1,2,3)+(Z(2)^0)*(1,3,2) ]",
        "number": "5",
        "structure": "S3\n",
        "auto": "(1,2)\n",
    }[query]
    run = {
        "group": lambda: external.groups.get_generators("SmallGroup(6,1)"),
        "code": lambda: external.codes.get_code("Some(1)"),
        "idempotents": lambda: external.groups.get_primitive_central_idempotents("Group((1,2,3))", 2),
        "number": lambda: external.groups.get_small_group_number(8),
        "structure": lambda: external.groups.get_small_group_structure(6, 1),
        "auto": lambda: codes.ClassicalCode([[1, 1]]).get_automorphism_group(),
    }[query]
    fake = world(lambda _: good)
    fake.reply = case["reply"]
    c.label(query, fault)
    with fresh(), fakegap.active(fake):
        if fault.startswith("stderr"):
            fake.stderr = lambda _: "Error, no method found"
            if fault == "stderr":
                fake.answer = lambda _: ""
            c.raises(ValueError, run, "errors printed by GAP")
        elif fault == "garbage":
            fake.answer = lambda _: "#I  what?\n"
            if query == "structure":
                return  # any text is a structure
            c.raises((ValueError, SyntaxError), run, "unexpected output of GAP")
        elif fault == "empty":
            fake.answer = lambda _: "\n"
            if query in ("group", "auto"):
                c.equal(len(external.groups.get_generators("SmallGroup(6,1)")), 0, "no generators")
                return
            c.raises(ValueError, run, "empty output of GAP")
        elif fault in ("no gap", "version", "broken"):
            fake.installed = fault != "no gap"
            fake.version = case["version"]
            if fault == "broken":
                fake.version = "4.12.2\n"

                def die(text: str) -> str:
                    raise OSError("the process died")

                fake.answer = die
                c.raises((ValueError, OSError), run, "GAP died")
                fake.answer = lambda _: good
                c.require(run() is not None, "the answer after a failure")
                c.nontrivial()
                return
            c.equal(bool(external.gap.is_installed()), False, "GAP is not installed")
            if query == "structure":
                c.equal(run(), "SmallGroup(6,1)", "structure without GAP")
            else:
                c.raises(ValueError, run, "no GAP")
            c.equal(len(fake.commands), 0, "questions to a missing GAP")
            # after an installation, answers come from GAP
            fake.installed, fake.version = True, "4.13.0\n"
            fakegap.forget()
            c.equal(bool(external.gap.is_installed()), True, "GAP is installed")
            c.require(run() is not None, "answer after an installation")
            if query == "structure":
                c.equal(run(), "S3", "structure after an installation")
        elif fault == "package":
            if query in ("number", "structure"):
                return
            fake.packages = False
            fake.other_stderr = "fatal: could not clone" if case["clone_fails"] else ""
            wants = case["reply"].strip().lower() in ("", "y")
            if not wants:
                c.raises(ValueError, run, "a missing package was declined")
                c.equal(fake.other, [], "nothing is installed")
            elif case["clone_fails"]:
                c.raises(ValueError, run, "a package could not be installed")
            else:
                c.require(run() is not None, "answer after installing a package")
                c.require(len(fake.other) >= 1, "the package was not installed")
            c.require(len(fake.prompts) >= 1, "no question before installing software")
    c.nontrivial()
