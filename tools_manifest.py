"""Writes /verif/MANIFEST.json from the property modules present."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": "runtime monitoring: online product-law oracle over generated groups, k and presentations",
 "C02": "runtime monitoring: character-theoretic completeness oracle, both methods cross-checked",
 "C03": "runtime monitoring: exact little-group oracle over reported mappings",
 "C04": "runtime monitoring: product-law/completeness oracle on crystal structures in varied cells",
 "C05": "runtime monitoring: real-representation oracle (reality, orthogonality, law, indicator, pairing)",
 "C06": "runtime monitoring: SU(2) adjoint and cocycle oracle under random lattices, orientations, noise",
 "C07": "runtime monitoring: projective product-law oracle for spinors incl. crystal structures",
 "C08": "runtime monitoring: anti-unitary product-law/commutant oracle over all magnetic groups",
 "C09": "runtime monitoring: representation oracle and chain-of-subgroups checker in random bases/orders",
 "C10": "runtime monitoring: projection oracle (multiplicity, orthonormality, transformation)",
 "C11": "runtime monitoring: invariance/rank oracle with character-counted dimensions",
 "C12": "runtime monitoring: intertwiner/decomposition/direct-product oracle in random gauges",
 "C13": "runtime monitoring: verdicts compared with reference predicates on mutated objects",
 "C14": "runtime monitoring: argument snapshots, history replay, multi-process and multi-thread schedules",
 "C15": "runtime monitoring: lattice and conjugation oracle over all 530 settings",
 "C16": "runtime monitoring: reference group tables and coset oracle",
 "C17": "runtime monitoring: metamorphic comparison of paired runs",
 "C18": "runtime monitoring: reference formulas on random and degenerate inputs",
 "C19": "runtime monitoring with fault injection: degenerate random draws and invalid requests",
 "C20": "runtime monitoring: end-to-end block-diagonalisation oracle on crystals",
 "C22": "runtime monitoring: offline reduction of the characters of several recorded requests against each other",
 "C23": "runtime monitoring: differential oracle over all entry points answering the same request",
 "C24": "runtime monitoring: metamorphic comparison of exact and perturbed requests (fault injection on inputs)",
 "C21": "runtime monitoring: completeness, law and reality oracles on abstract finite groups and factor systems",
}
NOTE = ("Held on the executions generated (counts in the evidence file); nothing is claimed for inputs not generated. Trusts numpy, "
        "the operation lists of spglib's database and the reference mathematics in vmon/oracle.py.")
LEVEL = {"C19": "fault_enumeration"}
checks = []
for p in sorted(T):
    if os.path.exists(f"{H}/vmon/props/{p.lower()}.py"):
        checks.append(dict(property=p, quick_cmd=f"./check {p} --tier quick", thorough_cmd=f"./check {p} --tier thorough",
                           evidence_file=f"evidence/{p}.json", technique=T[p], level=LEVEL.get(p, "exploration"), level_note=NOTE))
have = {c["property"] for c in checks}
na = [dict(property=p, reason="check not built yet") for p in sorted(T) if p not in have]
m = dict(version=1, setup_cmd="./check C01 --selftest", checks=checks, not_applicable=na,
         notes="No hooks in /repo: observation is from the client side (wrapped calls) and through sys.monitoring. Pure Python: checks import /repo/src directly, nothing to build.")
json.dump(m, open(f"{H}/MANIFEST.json", "w"), indent=1)
