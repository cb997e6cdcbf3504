#!/usr/bin/env python3
"""Appends the generated part of DESIGN.md (properties, findings, planted bugs) after the marker line."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
# id: (symbolic values, oracle)
D = {
"C01": ("element length, evaluation point", "formal derivative of the symbolic shape-function table, coefficient by coefficient"),
"C02": ("element length, evaluation point", "interpolation conditions at the nodes; symbolic reproduction of monomials up to the degree; drop lists against the undropped table"),
"C03": ("element length, evaluation point incl. 0", "plain table divided by r; limit from the derivative table"),
"C04": ("element boundaries (scale), points, coefficients", "function-by-function comparison across element boundaries, index map recomputed, `find_element` against the boundary list (equality flips included)"),
"C05": ("extent, exponent, centre", "grid law written in the harness, monotonicity, end points, concatenation"),
"C06": ("polynomial coefficients, interval ends", "analytic integral of a polynomial of the promised degree"),
"C07": ("element lengths, integrand coefficients", "reference Gauss rule of high order on the harness's own shape functions"),
"C08": ("element lengths", "textbook integrals in the harness's own basis, l(l+1)/r² term included"),
"C09": ("element lengths, screening exponent", "nested double integral written out with monomial stubs of the special functions"),
"C10": ("density matrix entries", "contraction of the four-index table by explicit loops"),
"C11": ("all table entries", "permuted index by definition"),
"C12": ("charge, radius, exponent, point", "closed forms of the potential of each charge distribution, region by region (boundary cases by branch flips)"),
"C13": ("radius, charge", "literature formulas and tables; knots, midpoints, limits r→0 and r→∞, list form against scalar form"),
"C14": ("scale of the grid, charges, fields, separation", "explicit Gaunt coefficients times the reference radial integrals"),
"C15": ("density matrix entries", "explicit four-index sum"),
"C16": ("symmetry choice", "enumeration of the (l,m) lists; blocks must partition the basis"),
"C17": ("overlap scale", "XᵀSX = 1, block pattern, span"),
"C18": ("radius, angle", "independent spherical harmonics and shape functions; gradient and Laplacian by definition"),
"C19": ("argument (both sides of 1)", "closed forms/recurrences for every l, m up to the bound"),
"C20": ("density-matrix coefficients, functional parameters", "polynomial stub functional: value, derivative and matrix by explicit quadrature"),
"C21": ("charges, half-distance, fields, density", "integrals in prolate spheroidal coordinates by explicit quadrature"),
"C22": ("density-matrix entries", "Neumann expansion written out with the four-index sums"),
"C23": ("μ, angle", "harmonics and shape functions of the harness; metric factors by definition"),
"C24": ("strength, exponent, shift", "∫ V(r) f g with V zero inside the shift"),
"C25": ("density-matrix coefficients", "polynomial stub functional on the prolate grid"),
"C26": ("orbital coefficients, point", "shape functions of the harness; limits at the nucleus"),
"C27": ("element lengths of both bases", "intersection of element lists with independent quadrature"),
"C28": ("off-centre position, element lengths", "multipole r<^L/r>^(L+1) with the kink inside/at/outside an element"),
"C29": ("grid scale", "factor product against the two-electron integrals"),
"C30": ("table index choice", "harness-side Gaunt coefficients by explicit sums"),
"C31": ("coefficients", "index arithmetic recomputed, XᵀSX = 1"),
"C32": ("density per shell", "averaged Coulomb/exchange by explicit sums over m"),
"C33": ("both arguments, exponent", "defining integral/series of the screened Green's function"),
"C34": ("direction", "closed definition for l up to the bound"),
"C35": ("radius, tabulated coefficients", "density, charge and potential of the tabulated orbitals by quadrature"),
"C36": ("density coefficients, functional parameters", "v = f_n − r⁻² d/dr(r² f_∇n)"),
"C37": ("density and orbital coefficients", "shape-function sums, screening charge by partial quadrature, limits at the nucleus"),
"C38": ("density coefficients per shell", "polynomial stub functional in spherical symmetry"),
"C39": ("threshold", "density/electron count just inside and outside the returned radius"),
"C40": ("trial densities, orbital coefficients", "energy and Fock matrices rebuilt from the integrals of C14/C21/C32; the saved HDF5 entries against the solver's state"),
"C41": ("charge, multiplicity, occupation rows (as branches)", "counts computed from the request"),
"C42": ("saved orbitals and densities", "occupied subspace projected between bases by explicit overlaps"),
"C43": ("identifier choice", "flag table of the library stub, periodic table"),
"C44": ("matrix scales, matrix entries, returned eigenpairs", "defining equations of the generalised eigenproblem"),
"C45": ("contraction coefficients, exponents", "explicit linear combinations and normalisation integrals"),
"C46": ("separation, exponents", "prolate quadrature written out; probe normalisation about each centre"),
"C47": ("stored values, open/close history", "in-memory model of the file behind stubbed HDF5 calls"),
"C48": ("option values, string choices", "parser model in the harness"),
"C49": ("option values", "recorded constructor arguments"),
"C50": ("orbital coefficients", "written tables recomputed from the state"),
"C51": ("density matrices, orbital coefficients", "Cartesian-to-prolate transformation and shape functions of the harness"),
"C52": ("charges, masses, well depths, returned eigenpairs", "Hamiltonian from quadrature with the harness's own potential"),
"C53": ("every energy the diagonaliser returns", "the stopping rule itself, over all convergence histories"),
}
MARK = "## Properties"
p = os.path.join(V, "DESIGN.md")
txt = open(p).read()
txt = txt[:txt.index(MARK)]
o = [MARK, "", "(Generated by `tools/design.py` from `properties.jsonl`, `props.py`, `known_findings.json` and `seeded/`.)", "",
"Every row is decided by the engine above: harness configurations (`props.py`) execute the real functions symbolically, z3",
"decides each assertion for all values of the symbolic inputs on each path and every flippable branch; thorough runs use",
"larger bounds (more nodes/elements/l), more paths and longer limits. No listed property is not-applicable; what is outside each is in",
"`MANIFEST.json` (`level_note`) and under *Not covered* below.", "",
"| id | property | harness | symbolic | oracle | configurations quick/thorough |", "|---|---|---|---|---|---|"]
for l in open(os.path.join(V, "properties.jsonl")):
    r = json.loads(l); i = r["id"]; f = props.PROPS[i]
    q, t = f("quick"), f("thorough")
    hs = sorted({j["harness"] if isinstance(j, dict) else j[0] for j in q})
    s, w = D[i]
    o.append("| %s | %s | %s | %s | %s | %d / %d |" % (i, r["title"], ", ".join("h_" + h for h in hs), s, w, len(q), len(t)))
o += ["", "## Genuine defects found", "", "All were repaired by `fix:` commits in /repo (`known_findings.json`); each is reported again if it returns.", ""]
for e in json.load(open(os.path.join(V, "known_findings.json"))):
    o.append("* " + e["what"].replace("fixed: property=", "") if e["status"] == "fixed" else "* known finding: " + e["what"])
o += ["", "## Planted bugs", "", "`seeded/<id>/` (made by `tools/mkseed.py` from `tools/seeds/*.py`, each demonstrated by a small program); all are caught by the quick",
"check of the property named. Besides these, random mutants of every source file (operators, indices, bounds, swapped names) were run against",
"the checks during development; surviving mutants that changed behaviour led to wider configurations or new assertions.", "",
"| id | property (caught by) | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); o.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
o += ["", "## False alarms met while building, and what was done", ""]
o += ["* " + x for x in open(os.path.join(V, "tools", "design_notes.txt")).read().split("\n\n")[0].split("\n")]
o += ["", "## Not covered", ""]
o += ["* " + x for x in open(os.path.join(V, "tools", "design_notes.txt")).read().strip().split("\n\n")[1].split("\n")]
open(p, "w").write(txt + "\n".join(o) + "\n")
