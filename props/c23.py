"""C23: transversal operations found for a code really are logical operations."""

from __future__ import annotations

import ast
import functools
import itertools
import math
import re
from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import core, fakegap, ff, gen, group, quantum, util
from vlib.core import Context, Property

from . import c22

PROP = Property(
    "C23",
    "Stabilizer and subsystem codes on up to 4 qubits (general and CSS; logical operators queried or"
    " set by the caller beforehand; some deformed or conjugated), the five-qubit and [[4,2,2]] codes;"
    " every subset of the permitted local gates, with and without code deformation.  Automorphisms of"
    " classical codes come from a stand-in for GAP that computes them.  The oracle lists all products"
    " of permitted local Cliffords and permutations and decides which of them preserve the code (or"
    " the logical operators).  Non-trivial: the code has a logical qubit, and a logical operation"
    " other than the identity is possible.",
    ["GAP's answers about automorphism groups are correct (a stand-in computes them here)"],
)

F = ff.get(2)
LOCAL = {
    "H": np.array([[0, 1], [1, 0]]),
    "S": np.array([[1, 1], [0, 1]]),
    "SQRT_X": np.array([[1, 0], [1, 1]]),
}  # images of X and Z, modulo signs
SUBSETS = [
    list(sub)
    for size in range(5)
    for sub in itertools.combinations(["S", "H", "SQRT_X", "SWAP"], size)
]


def circuits() -> Any:
    from qldpc import circuits

    return circuits


####################################################################################################
# all transversal operations


@functools.lru_cache(maxsize=None)
def local_group(names: tuple) -> np.ndarray:
    """All products of the given single-qubit Clifford gates, modulo Paulis."""
    found = [np.eye(2, dtype=int)]
    for element in found:
        for name in names:
            new = element @ LOCAL[name] % 2
            if not any((new == old).all() for old in found):
                found.append(new)
    return np.array(found)


def local_names(gate_set: Any) -> tuple:
    return tuple(sorted(set(gate_set) - {"SWAP"}))


def possible_actions(facts: c22.Facts, gate_set: list, deform: bool) -> tuple[set[bytes], int]:
    """Logical actions (modulo Paulis) of all transversal operations that preserve the code,
    and the number of these operations.

    With deformation, the operations instead preserve the group of logical operators.
    """
    n, k = facts.n, facts.k
    group_elements = local_group(local_names(gate_set))
    kept = facts.logicals if deform else facts.rows
    basis = F.rref(kept)
    outside = F.null_space(basis) if len(basis) else np.eye(2 * n, dtype=int)
    rows = np.vstack([basis, facts.logicals])
    duals = np.roll(facts.logicals, k, axis=0)
    duals = np.hstack([duals[:, n:], duals[:, :n]])  # coefficients of logical operators
    pairs = np.stack([rows[:, :n], rows[:, n:]], axis=-1)  # row, qubit, (x, z)
    perms = itertools.permutations(range(n)) if "SWAP" in gate_set else [tuple(range(n))]
    choices = np.array(list(itertools.product(range(len(group_elements)), repeat=n)))
    # image of each qubit's part under each local gate: element, row, qubit, (x, z)
    parts = np.einsum("rqi,eij->erqj", pairs, group_elements) % 2
    images = parts[choices, :, np.arange(n)[None, :], :]  # choice, qubit, row, (x, z)
    out: set[bytes] = set()
    count = 0
    for perm in perms:
        moved = images[:, list(perm)]
        flat = np.concatenate([moved[..., 0], moved[..., 1]], axis=1).transpose(0, 2, 1)
        good = ~np.any(flat[:, : len(basis)] @ outside.T % 2, axis=(1, 2))
        actions = flat[good, len(basis) :] @ duals.T % 2
        count += len(actions)
        out.update(action.astype(np.uint8).tobytes() for action in actions)
    return out, count


def action_of(tableau: Any) -> np.ndarray:
    x2x, x2z, z2x, z2z, *_ = tableau.to_numpy()
    return np.block([[x2x, x2z], [z2x, z2z]]).astype(np.uint8)


def check_permitted(c: Context, circuit: Any, n: int, gate_set: list) -> None:
    """A product of permitted local gates, Pauli gates and permutations."""
    import stim

    swaps = "SWAP" in gate_set
    for gate in circuit:
        targets = gate.targets_copy()
        c.require(all(t.is_qubit_target for t in targets), "unitary gates", str(gate))
        if gate.name == "SWAP":
            c.require(swaps, "SWAP gates are not permitted", str(circuit))
        else:
            c.require(
                stim.gate_data(gate.name).is_single_qubit_gate and stim.gate_data(gate.name).is_unitary,
                "transversal gates",
                str(gate),
            )
    c.require(circuit.num_qubits <= n, "the circuit stays within the qubits of the code", str(circuit))
    action = action_of(c22.tableau_of(circuit, n)).reshape(2, n, 2, n)
    allowed = local_group(local_names(gate_set))
    for qubit in range(n):
        supports = np.flatnonzero(action[:, qubit].any(axis=(0, 1)))
        c.require(len(supports) == 1, "a gate acts on one qubit at a time", str(circuit))
        c.require(swaps or supports[0] == qubit, "qubits stay in place", str(circuit))
        local = action[:, qubit, :, supports[0]]
        c.require(
            any((local == element).all() for element in allowed),
            "only permitted local gates are used",
            str(circuit),
            gate_set,
        )


####################################################################################################
# codes


@st.composite
def cases(draw: Any, max_n: int = 4, min_k: int = 0) -> dict:
    kind = draw(st.integers(0, 11))
    case: dict
    if kind == 0:
        case = {"family": draw(st.sampled_from([["c4"], ["surface", 2, 2, True], ["bacon", 2, 2]]))}
        case["seed"] = 0
    else:
        case = {"code": draw(gen.any_code(2, 2 if kind > 1 else 1, max_n, min_k=min_k))}
    case["change"] = draw(st.sampled_from(["none", "none", "none", "deform", "conjugate"]))
    if case["change"] != "none":
        case["change_seed"] = draw(st.integers(0, 2**20))
    case["gates"] = draw(st.sampled_from(SUBSETS))
    if draw(st.booleans()):
        case["gates"] = draw(st.sampled_from([["S", "H", "SWAP"], ["S", "H"], ["H", "SWAP"], ["SWAP"]]))
    case["container"] = draw(st.integers(0, 2))
    case["deform"] = draw(st.booleans())
    case["redundant"] = draw(st.booleans())
    case["gap_seed"] = draw(st.integers(0, 2**20))
    return case


def world(case: dict, sizes: list[int]) -> Any:
    """A stand-in for GAP that chooses generators of automorphism groups as the case says."""
    rng = np.random.default_rng(case["gap_seed"])

    def answer(text: str) -> str:
        match = re.search(r"AutomorphismGroup\(\s*CheckMatCode\((.*),\s*GF\((\d+)\)\s*\)\s*\)", text)
        assert match, text
        rows = ast.literal_eval(match.group(1))
        gens = fakegap.binary_automorphism_generators(rows)
        for _ in range(2 * len(gens)):
            i, j = rng.integers(len(gens)), rng.integers(len(gens))
            if i != j:
                gens[i] = group.mul(gens[i], gens[j])
        rng.shuffle(gens)
        sizes.append(len(gens))
        return "".join(
            fakegap.print_permutation([int(x) for x in gen]) + "\n" for gen in gens
        )

    return fakegap.Fake(answer)


def prepare(case: dict, c: Context) -> tuple[Any, c22.Facts] | None:
    code = c22.build(case, c)
    facts = c22.Facts(code)
    kept = facts.logicals if case["deform"] else facts.rows
    if not kept.any():
        c.label("nothing to preserve")  # GAP has no codes without checks
        return None
    # sympy is slow at intersecting large groups
    n = facts.n
    names = local_names(case["gates"])
    x, z = kept[:, :n], kept[:, n:]
    y = (x + z) % 2
    sectors = {
        (): [x, z], ("H",): [x, z], ("S",): [z, y], ("SQRT_X",): [x, y]
    }.get(names, [x, z, y])  # fmt: skip
    columns = np.hstack(sectors).T.tolist()
    repeats = [columns.count(col) for col in {tuple(col): col for col in columns}.values()]
    if math.prod(math.factorial(m) for m in repeats) > 200:
        c.label("many equal columns")
        return None
    return code, facts


def gate_container(case: dict) -> Any:
    return [list, tuple, set][case["container"]](case["gates"])


def check_circuit(
    c: Context, code: Any, facts: c22.Facts, circuit: Any, logical: Any, case: dict
) -> None:
    """Is this a permitted transversal circuit with the given logical action?"""
    n = facts.n
    check_permitted(c, circuit, n, case["gates"])
    tableau = c22.tableau_of(circuit, n)
    if case["deform"]:
        images = facts.images(tableau, facts.rows)
        c.require(
            not F.symp(images, facts.logicals).any() if facts.k and len(images) else True,
            "the original logical operators are valid for the deformed code",
            str(circuit),
        )
        new = code.deformed(circuit, preserve_logicals=True)
        after = c22.Facts(new)
        c.require(F.same_span(after.rows, images), "the deformed code has the images of the checks")
    else:
        new, after = code, facts
        c.require(facts.preserved_by(tableau), "the circuit preserves the code", str(circuit))
    encoder = circuits().get_encoding_tableau(new)
    c22.check_encoder(c, new, after, encoder, "encoder")
    decoder = encoder.inverse()
    c.require(
        c22.keeps_signs(tableau, facts, decoder),
        "stabilizers with positive sign keep it",
        str(circuit),
    )
    c22.judge(c, facts, after, decoder, tableau, logical, True)


@PROP.test(cases, quick=2800, shards=8)
def operations(case: dict, c: Context) -> None:
    prepared = prepare(case, c)
    if prepared is None:
        return
    code, facts = prepared
    n, k = facts.n, facts.k
    gate_set = gate_container(case)
    c.label("+".join(case["gates"]) or "no gates", "deform" if case["deform"] else "same code")
    with fakegap.fresh_cache(core.SCRATCH), fakegap.active(world(case, [])):
        ops = circuits().get_transversal_ops(
            code,
            gate_set,
            deform_code=case["deform"],
            remove_redundancies=not case["redundant"],
        )
    c.equal(sorted(gate_set), sorted(case["gates"]), "the caller's gates are unchanged")
    for logical, circuit in ops:
        check_circuit(c, code, facts, circuit, logical, case)
        c.equal(
            circuits().get_logical_tableau(code, circuit, deform_code=case["deform"]),
            logical,
            "the logical tableau of the circuit",
        )
    if not k:
        return
    # the operations that were found generate all that exist
    possible, _ = possible_actions(facts, case["gates"], case["deform"])
    identity = np.eye(2 * k, dtype=np.uint8)
    found = [identity]
    seen = {identity.tobytes()}
    actions = [action_of(logical) for logical, _ in ops]
    for element in found:
        for action in actions:
            new = element @ action % 2
            if new.tobytes() not in seen:
                seen.add(new.tobytes())
                found.append(new)
    c.nontrivial(len(possible) > 1)
    c.label(f"{min(len(possible), 7)} logical actions")
    c.require(seen <= possible, "only possible logical operations are found")
    c.require(
        seen == possible,
        "the operations generate all transversal logical operations",
        f"{len(seen)} of {len(possible)}",
        case["gates"],
    )
    if not case["redundant"]:
        texts = [action.tobytes() for action in actions]
        c.require(identity.tobytes() not in texts, "trivial operations are removed")
        c.require(len(set(texts)) == len(texts), "equivalent operations are removed")


@st.composite
def searches(draw: Any) -> dict:
    case = draw(cases(4, 1))
    target = st.fixed_dictionaries(
        {
            "pick": st.integers(0, 2**16),
            "possible": st.booleans(),
            "gates": c22.gates(3, 6),
            "as_circuit": st.booleans(),
        }
    )
    case["targets"] = draw(st.lists(target, min_size=1, max_size=3))
    return case


@PROP.test(searches, quick=2400, shards=8)
def searched_circuits(case: dict, c: Context) -> None:
    import stim

    prepared = prepare(case, c)
    if prepared is None:
        return
    code, facts = prepared
    k = facts.k
    if not k:
        return
    actions, count = possible_actions(facts, case["gates"], case["deform"])
    possible = sorted(actions)
    if count > 100:
        c.label("many operations to search")
        return
    targets = []
    given = []
    for spec in case["targets"]:
        gates = [gate for gate in spec["gates"] if max(gate[1:]) < k]
        if spec["possible"]:
            text = possible[spec["pick"] % len(possible)]
            action = np.frombuffer(text, dtype=np.uint8).reshape(2, k, 2, k).astype(bool)
            tableau = stim.Tableau.from_numpy(
                x2x=action[0, :, 0], x2z=action[0, :, 1], z2x=action[1, :, 0], z2z=action[1, :, 1]
            )
            # with some Paulis in front
            paulis = stim.Circuit()
            for index, gate in enumerate(spec["gates"]):
                paulis.append("XYZ"[index % 3], gate[1] % k)
            tableau = c22.tableau_of(paulis, k).then(tableau)
            circuit = tableau.to_circuit()
        else:
            circuit = c22.from_gates(gates, k)
            tableau = c22.tableau_of(circuit, k)
        targets.append(tableau)
        given.append(circuit if spec["as_circuit"] else tableau)
    args = gate_container(case)
    with fakegap.fresh_cache(core.SCRATCH), fakegap.active(world(case, [])):
        results = circuits().get_transversal_circuits(code, given, args, deform_code=case["deform"])
        single = circuits().get_transversal_circuit(
            code, given[0], args, deform_code=case["deform"]
        )
    c.equal(len(results), len(targets), "one answer for each target")
    for tableau, result in [*zip(targets, results), (targets[0], single)]:
        action = action_of(tableau)
        exists = action.tobytes() in possible
        if not exists:
            c.label("impossible")
            c.require(result is None, "an implementation is reported although none exists", str(result))
            continue
        c.label("possible")
        c.nontrivial((action != np.eye(2 * k)).any())
        c.require(result is not None, "an implementation exists but is not found", tableau)
        check_circuit(c, code, facts, result, tableau, case)


@st.composite
def wrong_gates(draw: Any) -> dict:
    case = draw(cases(3, 1))
    case["wrong"] = draw(st.sampled_from(["CX", "T", "s", "X", "", "SQRT_Y", "swap"]))
    return case


@PROP.test(wrong_gates, quick=60, shards=1)
def unsupported_gates(case: dict, c: Context) -> None:
    prepared = prepare(case, c)
    if prepared is None:
        return
    code, _ = prepared
    c.nontrivial()
    wrong = [*case["gates"], case["wrong"]]
    with fakegap.fresh_cache(core.SCRATCH), fakegap.active(world(case, [])):
        for func in (circuits().get_transversal_ops, circuits().get_transversal_automorphism_group):
            c.raises(
                ValueError,
                lambda: func(code, wrong, deform_code=case["deform"]),
                "a gate set that is not supported",
            )
