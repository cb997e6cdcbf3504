IN, CF = "inputs", "configurations"
LIBI, LIBS = "libhelfem/include/", "libhelfem/src/"
WHY = "The stable tests evaluate Legendre functions and one over-r regression at fixed sample points; "
prop("C01", "Derivatives of every element shape function are true derivatives",
     "For every polynomial shape-function family, number of nodes, node placement and element length, the tabulated n-th derivatives are the exact n-th derivatives, with respect to the physical coordinate, of the tabulated values. Evaluating one derivative order through the generic interface and through the dedicated one gives the same table.",
     [IN, CF], "all points of the reference element, all element lengths, all families and node counts within the bounds", WHY + "the identity must hold at every point and length, for every family and derivative order.",
     [LIBI + "PolynomialBasis.h", LIBI + "HIPBasis.h", LIBI + "LIPBasis.h", LIBI + "LegendreBasis.h", LIBS + "PolynomialBasis.cpp"], "shape functions are polynomials in (x, length); symbolic tables are differentiated formally and compared coefficient-wise")
prop("C02", "Shape functions interpolate, are complete, and honour dropped functions",
     "Each family reproduces its defining interpolation conditions at the nodes (values, and derivatives for Hermite-type families) and can represent every polynomial up to its degree exactly. Removing boundary functions removes exactly the requested value and/or derivative functions at that end and leaves the other functions unchanged.",
     [IN, CF], "all points, lengths, families, node counts and drop combinations within the bounds", WHY + "completeness and the drop bookkeeping are universally quantified over points, lengths and families.",
     [LIBI + "HIPBasis.h", LIBI + "LIPBasis.h", LIBI + "LegendreBasis.h", LIBI + "PolynomialBasis.h"], "interpolation property and partition of unity of the shape functions; drop_first/drop_last bookkeeping")
prop("C03", "Function-over-radius evaluation equals the function divided by the radius",
     "For every family, the evaluation of a shape function divided by the radius on the element that touches the origin equals the plain value (and its derivatives) divided by the radius at every point away from the origin, and takes the correct finite limit at the origin. This holds for every node count, element length and choice of removed functions at the other end.",
     [IN, CF], "all points including the origin, all element lengths, families and node counts within the bounds", WHY + "one regression test samples a few points of one element; the identity is needed at every point, in particular arbitrarily near the origin.",
     [LIBI + "HIPBasis.h", LIBI + "LIPBasis.h", LIBI + "LegendreBasis.h", LIBI + "PolynomialBasis.h"], "analytic cancellation of the radius in eval_over_r")
prop("C04", "Element basis is a conforming, correctly indexed global basis",
     "For every increasing set of element boundaries, family and boundary-condition choice, global functions and their guaranteed derivatives are continuous across element boundaries, vanish where a boundary condition was requested, and are numbered contiguously with neighbouring elements sharing exactly the matching functions. Coordinate maps between reference and physical coordinates are mutually inverse, point lookup returns the element that contains the point, and inserting a boundary splits one element and changes nothing else.",
     [IN, CF], "all element boundaries and points (symbolic), element counts, families and boundary conditions within the bounds", WHY + "no test varies the grid or boundary conditions.",
     [LIBI + "FiniteElementBasis.h", LIBS + "FiniteElementBasis.cpp"], "update_bf_list index assignment, scaling of derivative functions, find_element bisection, add_boundary")
prop("C05", "Radial grids follow their law, increase strictly and end where asked",
     "Every radial grid starts at zero, increases strictly, ends at the requested outer radius and has the requested number of elements, with boundaries on the documented law for the chosen grid type. Finite-nucleus, off-centre-nucleus and confined variants place an element boundary exactly at the nuclear radius, at the off-centre nuclei and at the confinement radius respectively.",
     [IN, CF], "all outer radii, exponents, nuclear radii, off-centre positions and shifts in the stated ranges; all grid types", WHY + "no test constructs these grids.",
     [LIBI + "grid.h", LIBS + "grid.cpp", "src/atomic/basis.cpp"], "get_grid laws and the concatenation of partial grids")
prop("C07", "Finite-element matrix and vector elements equal the defining integrals",
     "For every basis and element geometry, the matrix (or vector) elements of the basis functions, their derivatives and their over-radius forms with a weight function equal the defining integrals, whether the quadrature rule is given or chosen automatically, and the global matrix is the sum of its element contributions. Splitting at breakpoints never changes the integral of a smooth weight, breakpoints outside an element are ignored, and integrals over sub-ranges add up.",
     [IN, CF], "all element lengths or overall scales, all weight coefficients and split points; families, orders and element counts within the bounds", WHY + "no test computes a matrix element.",
     [LIBI + "FiniteElementBasis.h", LIBS + "FiniteElementBasis.cpp", LIBI + "RadialBasis.h", LIBS + "RadialBasis.cpp"], "assembly of local blocks, change of variables, adaptive rule and breakpoint splitting")
prop("C08", "One-electron radial integrals equal their analytic definitions",
     "Overlap, kinetic, centrifugal, nuclear-attraction and radial-moment matrices equal their defining integrals for every radial basis, both per element and assembled, including the element that touches the nucleus. Radial functions, their derivatives and second derivatives are the shape functions divided by the radius, identically whether evaluated afresh or served from the quadrature cache.",
     [IN, CF], "all element lengths or scales, all points; families, node counts, moments and element counts within the bounds", WHY + "no test computes a one-electron matrix.",
     [LIBI + "RadialBasis.h", LIBS + "RadialBasis.cpp"], "radial_integral, overlap, kinetic, kinetic_l, nuclear, get_bf/get_df/get_lf and the quadrature cache")
prop("C24", "Confinement potentials have the documented form and vanish inside the shift",
     "Every confinement potential's matrix equals the integral of its documented form (polynomial, exponential, barrier or Junquera) over the region beyond the shift radius only, for every radius, strength and shift, scaled and signed as documented. Invalid parameters are rejected with an error instead of producing numbers.",
     [IN, CF], "all overall scales and barrier strengths; potential types, exponents, elements and shifts within the bounds", WHY + "no test uses a confinement potential.",
     [LIBS + "RadialBasis.cpp", LIBI + "RadialBasis.h"], "confinement_potential: restriction to r > shift and parameter validation")
prop("C26", "Orbitals and densities evaluate consistently everywhere, including the nucleus",
     "Evaluating orbitals at any radius gives the expansion in the radial functions of the element containing that radius, the analytic limit at the nucleus, and zero beyond the last element. The electron density and its slope at the nucleus equal the values implied by the density matrix, and matrices of the wrong size are rejected.",
     [IN, CF], "all orbital coefficients, density matrices and element lengths/scales; families and elements within the bounds", WHY + "no test evaluates an orbital.",
     [LIBS + "RadialBasis.cpp"], "eval_orbs, nuclear_orbital, nuclear_density, nuclear_density_gradient")
prop("C27", "Integrals between two different radial bases equal the defining integrals",
     "For any two radial bases with different elements, families or outer radii, the overlap, radial-moment, derivative and weighted matrices between them equal the integrals over the region where both have support. Requests that are not defined between bases are rejected.",
     [IN, CF], "all overall scales and weight coefficients; pairs of bases within the bounds", WHY + "no test combines two bases, and the element overlaps to split depend on the geometry.",
     [LIBS + "RadialBasis.cpp"], "intersection of the element lists and mapped quadrature")
prop("C28", "Off-centre nuclear attraction has the multipole form on either side",
     "For every multipole order, the attraction to a nucleus displaced from the origin is the smaller-over-larger-radius expansion term with the right prefactor, on elements inside as well as outside the displacement. An element that contains the displacement in its interior is rejected rather than integrated wrongly.",
     [IN, CF], "all overall scales; displacement at every boundary or inside an element, orders and elements within the bounds", WHY + "no test computes off-centre attraction.",
     [LIBS + "RadialBasis.cpp"], "nuclear_offcenter")

prop("C12", "Nuclear models are the potentials of their charge distributions",
     "Every nuclear model gives the electrostatic potential of its documented charge distribution at every radius (point, uniform sphere, hollow shell, Gaussian), joins the point-charge potential outside the distribution, and is never more attractive than a point charge; the regularised nucleus keeps its documented smooth form and scaling with the charge. The points where a potential has a kink are reported exactly when they lie strictly inside the asked interval, and the matrix of the potential is exact on elements containing one.",
     [IN, CF], "all radii and nuclear sizes in the stated ranges; all models and selected charges", WHY + "no test evaluates a nuclear model.",
     ["libhelfemqc/src/", LIBS + "ModelPotential.cpp", "src/general/model_potential.cpp"], "closed forms per region, series near the centre, breakpoint reporting and splitting at the kink",
     "The Gaussian model's error function is an uninterpreted function shared with the reference; its series branch is compared with the power series on all radii below 0.003 of the size. ")
prop("C13", "Screened atomic potentials follow their tables and limits",
     "The parametrised (Green-Sellin-Zachor), Thomas-Fermi and tabulated superposition-of-atomic-potentials effective charges start at the full nuclear charge at the nucleus, tend to their documented asymptotic charge, and follow the published formula or interpolate the table continuously in between. Charges outside the supported range are rejected (or give no charge where documented), and each potential is minus its effective charge over the radius.",
     [IN, CF], "all radii in the stated windows; selected (quick) or all (thorough) elements", WHY + "no test evaluates these potentials.",
     ["src/general/gsz.cpp", "src/general/sap.cpp", "src/general/model_potential.cpp"], "table lookup by charge, interpolation between knots, formula evaluation",
     "The tabulated charges are checked for continuity, range and limits within radial windows; a wrong but smooth table entry is outside. ")
prop("C35", "Tabulated atoms reconstruct densities, charges and screening",
     "For every tabulated atom the reconstructed density, radial density, gradient and Laplacian at any radius are those of the stored orbitals and occupations, and vanish outside the tabulated range. Electron count, enclosed charge and Hartree screening are the corresponding integrals of that density, joined continuously across elements, and missing records are rejected.",
     [IN, CF], "all occupations, orbital coefficients and overall scales of the table; sample radii in every element", WHY + "the unit test of this part is not among the stable ones and samples one table.",
     ["src/general/atomdb.cpp", "src/general/model_potential.cpp"], "density matrix from occupied orbitals; partial-element integrals of the charge and its moment",
     "A small stand-in table replaces the generated one (absent from the repository). ")
prop("C36", "Exchange-correlation screening is the functional derivative",
     "For every density functional of the local or gradient-corrected type, the effective exchange-correlation charge added to an atom's potential equals the radius times the functional derivative of the energy at the reconstructed density, whatever the order in which functionals are asked for. Functionals that cannot be evaluated are rejected, and the contribution is zero where there is no density.",
     [IN, CF], "all functional coefficients, occupations and orbital coefficients; sample radii", WHY + "no test compares the screening with the functional derivative.",
     ["src/general/atomdb.cpp", "src/sadatom/basis.cpp", "src/general/dftfuncs.cpp"], "divergence of the gradient contribution in spherical symmetry; second derivatives of the functional",
     "Polynomial stand-in functionals with symbolic coefficients replace the functional library. ")
prop("C06", "Quadrature rules integrate what they promise",
     "Every quadrature rule has ascending nodes inside its interval, positive weights, and integrates exactly every polynomial up to the degree it promises (Gauss-Lobatto), or follows its documented transformed rule and converges for smooth functions (modified Chebyshev, radial). Angular and composite rules integrate all spherical polynomials up to their order, the convenience and full interfaces agree, and invalid orders are rejected.",
     [IN, CF], "all integrand coefficients; node counts within the bounds", WHY + "no test integrates with a rule; exactness is a statement about all integrands.",
     [LIBI + "lobatto.h", LIBI + "chebyshev.h", "src/general/angular.cpp"], "Newton iteration for the nodes, weights, product rules")
prop("C09", "Two-electron radial integrals equal their double integrals",
     "For every pair of elements, multipole order and kernel (Coulomb, Yukawa, short-range error-function), the primitive two-electron integrals equal the double integral of the products of basis functions with the kernel's radial Green's function, for elements that coincide as well as for disjoint ones. The Coulomb potential of a density and the factorised (Cholesky) form of the integrals agree with the integrals themselves.",
     [IN, CF], "all overall length scales and kernel strengths; families, elements and multipoles within the bounds", WHY + "no test computes a two-electron integral.",
     [LIBS + "quadrature.cpp", LIBS + "RadialBasis.cpp", LIBI + "RadialBasis.h"], "nested inner integrals over sub-intervals, disjoint products, cut at the diagonal",
     "Bessel functions and the short-range multipole are replaced by power functions with symbolic coefficients (their own values are C33). ")
prop("C10", "Coulomb and exchange matrices contract the same integrals",
     "For every density matrix, the Coulomb and exchange matrices built element by element equal the contraction of the full set of two-electron integrals with that density matrix, for every kernel, number of elements and multipole order, whether or not the density is symmetric. Memory-saving (factorised) routes give the same matrices.",
     [IN, CF], "all density matrices, overall scales and kernel strengths; elements, families and multipoles within the bounds", WHY + "no test builds a Coulomb or exchange matrix.",
     [LIBS + "RadialBasis.cpp", LIBS + "utils.cpp"], "block bookkeeping of disjoint and in-element integrals")
prop("C11", "Integral reordering for exchange is the documented permutation",
     "Reordering two-electron integrals for exchange moves the integral of functions (i,j) against (k,l) to the position of (j,k) against (i,l) for every combination of block sizes, and every input value ends up in exactly one place.",
     [IN, CF], "all integral values; block sizes within the bounds", WHY + "no test reorders integrals; square blocks hide index mistakes.",
     [LIBS + "utils.cpp"], "exchange_tei index arithmetic for unequal block sizes")
prop("C19", "Legendre functions of both kinds equal their definitions everywhere",
     "Associated Legendre functions of the first and second kind equal their defining derivatives of Legendre polynomials (with the documented sign and normalisation conventions inside and outside the unit interval) at every argument and for every degree and order. Functions whose order exceeds the degree vanish, singular points and negative orders are rejected.",
     [IN, CF], "all arguments in the stated windows; degrees and orders within the bounds", "The stable tests compare with a table of sample points; the recurrences must be right at every argument, inside and outside the cut.",
     ["src/legendre/Legendre.cpp", "src/legendre/Legendre.h"], "upward/downward recurrences, phases, Miller's algorithm",
     "Large-argument second-kind functions are compared at fixed points only. ")
prop("C33", "Screening special functions equal their definitions",
     "Modified spherical Bessel functions of both kinds equal their series and closed forms, with the right parity and value at zero, on all branches. The multipoles of the error-function-screened interaction equal their defining angular integrals in both the general and the short-range form, are symmetric in their two arguments, and have the right limit at the origin.",
     [IN, CF], "all arguments in the stated windows (one or both symbolic); multipoles within the bounds", WHY + "no test evaluates these functions.",
     [LIBS + "erfc_expn.cpp", LIBS + "utils.cpp"], "series/closed-form switch, truncation of the short-range series, binomial coefficients",
     "Bessel functions of large argument are compared at fixed points. ")
prop("C34", "Spherical harmonics equal their definition in every direction",
     "Complex spherical harmonics of every degree and order equal the normalised associated Legendre function times the azimuthal phase with the Condon-Shortley convention, in every direction including the poles, with negative orders related to positive ones by conjugation and sign.",
     [IN, CF], "all polar and azimuthal angles off the poles (symbolic) and the poles; degrees within the bounds", "The stable test checks norms on one quadrature grid and cannot see sign or phase mistakes at single directions.",
     ["src/general/spherical_harmonics.cpp", "src/general/spherical_harmonics.h"], "normalisation, sign of negative orders, limit on the axis")
prop("C14", "Atomic one-electron matrices equal their angular-times-radial integrals",
     "In the atomic basis of radial functions times spherical harmonics, overlap, kinetic energy, nuclear attraction (central nucleus, and off-centre nuclei at the two displaced positions), dipole, quadrupole, magnetic-field and confinement matrices equal the products of radial integrals with the exact angular integrals of the two spherical harmonics, for every set of angular channels in any order. The overlap between two different atomic bases equals the radial cross overlap for equal angular channels and zero otherwise.",
     [IN, CF], "all overall length scales and field strengths; channel lists, charges and element counts within the bounds", WHY + "no test builds an atomic one-electron matrix.",
     ["src/atomic/TwoDBasis.cpp", "src/atomic/TwoDBasis.h"], "block placement per angular pair, Gaunt couplings, off-centre multipole expansion",
     "Gaunt coefficients come from a stand-in for the missing Wigner library (textbook formula); the repository's own Gaunt layer is C30. ")
prop("C15", "Atomic Coulomb and exchange matrices equal the full four-index sums",
     "For every symmetric density matrix, the atomic Coulomb, exchange and range-separated (Yukawa, error-function) exchange matrices equal the contraction of that density with the full four-index integrals, formed from the multipole expansion of the interaction with exact angular couplings. Asking for a matrix before its integrals were computed is an error.",
     [IN, CF], "all symmetric density matrices, overall length scales and kernel parameters; channel lists and element counts within the bounds", WHY + "no test builds a Coulomb or exchange matrix.",
     ["src/atomic/TwoDBasis.cpp", LIBI + "CoulombExchangeFE.h"], "angular recoupling of the density, multipole sums, sign and normalisation",
     "Radial special functions are replaced by power functions with symbolic coefficients; block densities of norm below 1e-13 of the largest are treated as zero. ")
prop("C16", "Symmetry blocks and index lists partition the atomic basis correctly",
     "For every list of angular channels, the functions listed for one magnetic quantum number, for one pair of quantum numbers, or for one element are exactly those functions, in order. Symmetry blocks contain every function exactly once, never mix what the requested symmetry separates, carry matching labels, and an unknown symmetry is rejected.",
     [IN, CF], "all pairs of channels with symbolic quantum numbers in the bounds, and listed channel sets; scales", WHY + "no test enumerates a basis by symmetry.",
     ["src/atomic/TwoDBasis.cpp"], "ordering of channels in m_indices, lm_indices, get_sym_idx, bf_list")
prop("C17", "Orthonormalising transformations orthonormalise and keep symmetry",
     "The half-inverse overlap of the atomic basis, by Cholesky or by eigendecomposition and with or without symmetry blocking, turns the basis functions into exactly orthonormal combinations. With symmetry blocking no combination mixes functions of different blocks.",
     [IN, CF], "all overall length scales; families, channel lists and symmetry options within the bounds", WHY + "no test orthonormalises a basis.",
     ["src/atomic/TwoDBasis.cpp", "src/general/scf_helpers.cpp", LIBS + "utils.cpp"], "normalisation, block scatter of the local transformation")
prop("C18", "Atomic basis functions and derivatives on the grid are consistent",
     "At every radial quadrature point and in every direction off the poles, basis function values equal the radial function times the complex spherical harmonic, and the radial, polar, azimuthal derivatives and the Laplacian tabulated beside them are the true derivatives of those values.",
     [IN, CF], "all azimuthal angles and overall length scales; listed polar angles, channels and elements", WHY + "no test evaluates a basis function on the molecular grid.",
     ["src/atomic/TwoDBasis.cpp", "src/general/spherical_harmonics.cpp"], "ladder formula for the polar derivative, Laplacian from radial parts")
prop("C29", "Density-fitting factors reproduce the two-electron integrals",
     "The low-rank factors of the radial Coulomb integrals, summed as outer products, reproduce every radial two-electron integral of every multipole order to the requested threshold, inside one element and between elements.",
     [IN, CF], "all overall length scales; channel lists and families within the bounds", WHY + "no test forms or uses the factors.",
     ["src/atomic/TwoDBasis.cpp", LIBI + "CoulombExchangeFE.h", LIBS + "utils.cpp"], "pivoted Cholesky over all elements with disjoint products")
prop("C30", "Angular coupling tables equal the integrals of three harmonics",
     "Every tabulated coupling coefficient equals the integral of three spherical harmonics in the documented argument order and vanishes outside the triangle and order-sum rules, for tables of any size, including tables truncated in the magnetic quantum number. Cosine and sine couplings equal the corresponding angular integrals of powers of the cosine and sine of the polar angle between two harmonics.",
     [IN, CF], "all values of the underlying coupling table (symbolic) and all index combinations within the bounds", WHY + "no test reads a coupling coefficient.",
     ["src/general/gaunt.cpp", "src/general/gaunt.h"], "index arithmetic of the table, recoupling sums for cosine and sine powers",
     "The Wigner library is absent here; its entries are symbolic values or a textbook formula. ")
prop("C20", "Atomic exchange-correlation energy and potential match the functional",
     "For every symmetric density matrix, the exchange-correlation energy, electron count and kinetic energy on the atomic grid equal the quadrature sums of the functional's energy, the density and the kinetic energy density, and the returned matrices are the derivatives of that discrete energy with respect to the density matrix of each spin. This holds for every functional rank (density, gradient, kinetic energy density, Laplacian, or a mixture of two functionals), with restricted and spin-polarised calls agreeing and the other spin's matrix left zero when it is not requested.",
     [IN, CF], "all symmetric density matrices and functional coefficients and parameters; channel lists and element counts within the bounds", WHY + "no test evaluates a functional on a grid.",
     ["src/atomic/dftgrid.cpp", "src/general/dftgrid_common.cpp", "src/general/dftgrid_common.h", "src/general/dftfuncs.cpp", "src/general/angular.cpp"], "density, gradient, tau and Laplacian on the points; weights and scale factors; matrix assembly per functional rank",
     "libxc is replaced by polynomial functionals with symbolic coefficients (libxc itself is outside); the flag that tells tau-dependent functionals apart is taken as available, as in current libxc. ")
prop("C21", "Diatomic one-electron matrices equal their integrals in space",
     "In prolate spheroidal coordinates, the diatomic overlap, kinetic energy, attraction to the two nuclei, dipole, quadrupole and magnetic-field matrices equal the integrals of the corresponding operators over all space with the prolate volume element, for every list of angular channels, bond length and pair of charges. The overlap between two different diatomic bases equals the same integral between functions of the two bases.",
     [IN, CF], "all bond lengths and field strengths; channel lists, charges, element boundaries and families within the bounds", WHY + "no test builds a diatomic matrix.",
     ["src/diatomic/basis.cpp", "src/diatomic/basis.h", "src/general/gaunt.cpp"], "volume element, cosine couplings, boundary function dropped for nonzero m, which nucleus sits where")
prop("C22", "Diatomic Coulomb and exchange matrices equal the full four-index sums",
     "For every symmetric density matrix and bond length, the diatomic Coulomb and exchange matrices equal the contraction of that density with the four-index integrals of the Coulomb interaction in prolate spheroidal coordinates. Declaring the density symmetric in the sign of the magnetic quantum number does not change the exchange matrix of a density that is; asking for a matrix before its integrals were computed is an error.",
     [IN, CF], "all symmetric density matrices and bond lengths; channel lists, families and element counts within the bounds", WHY + "no test builds a diatomic Coulomb matrix.",
     ["src/diatomic/basis.cpp", "src/diatomic/quadrature.cpp", "src/legendre/Legendre.cpp"], "Neumann expansion: signs, prefactors, in-element double integrals, products between elements, mirrored blocks",
     "Block densities of norm below 1e-13 of the largest are treated as zero. ")
prop("C23", "Diatomic basis functions and derivatives on the grid are consistent",
     "At every quadrature point and in every direction off the axis, diatomic basis values equal the radial function times the complex spherical harmonic in the elliptic angle, and the tabulated derivatives and Laplacian are the true ones, whether evaluated for all channels with the azimuthal phase or for one magnetic quantum number without it. Evaluation at an arbitrary point uses the element containing the point.",
     [IN, CF], "all azimuthal angles, bond lengths and elliptic radii; listed polar angles, channels and elements", WHY + "no test evaluates a diatomic basis function.",
     ["src/diatomic/basis.cpp", "src/general/spherical_harmonics.cpp"], "ladder formula, Laplacian with the metric factors, tables of one element")
prop("C31", "Diatomic boundary handling, index lists and orthonormalisation",
     "Functions violating the axis condition are exactly the ones removed when a matrix is reduced and get zero rows and columns when it is expanded again. Index lists by magnetic quantum number, parity, element or symmetry block contain exactly the matching functions, blocks partition the basis, each degenerate block is paired with its mirror, and the orthonormalising transformation yields orthonormal combinations inside the blocks.",
     [IN, CF], "all matrix entries and bond lengths; channel lists and symmetry options within the bounds", WHY + "no test builds a diatomic basis.",
     ["src/diatomic/basis.cpp", "src/general/scf_helpers.cpp"], "pure_indices, expand/remove boundaries, get_sym_idx with mirror blocks, Sinvh")
prop("C25", "Diatomic exchange-correlation energy and potential match the functional",
     "For every symmetric density matrix, the exchange-correlation energy, electron count and kinetic energy on the diatomic grids equal the quadrature sums of the functional's energy, the density and the kinetic energy density, and the returned matrices are the derivatives of that discrete energy with respect to each spin's density matrix. This holds on the general grid and, for densities that do not mix magnetic quantum numbers, on the grid with the azimuthal integral done analytically; a functional kind one grid does not support is refused.",
     [IN, CF], "all symmetric density matrices, bond lengths, functional coefficients and parameters; channel lists and element counts within the bounds", WHY + "no test evaluates a functional on a diatomic grid.",
     ["src/diatomic/dftgrid.cpp", "src/diatomic/dftgrid_purem.cpp", "src/general/dftgrid_common.cpp", "src/general/dftgrid_common.h"], "scale factors, analytic azimuthal terms, mirrored blocks, Laplacian terms",
     "libxc is replaced by polynomial functionals with symbolic coefficients (libxc itself is outside). ")

prop("C32", "Spherical-atom matrices equal their radial and angular-averaged integrals",
     "For the spherically averaged atom, overlap, kinetic, nuclear, confinement, potential and radial-moment matrices equal their integrals over the radial functions, and the Coulomb, exchange and range-separated exchange matrices equal the full two-electron sums averaged over the components of each shell. The orthonormalising combinations orthonormalise the basis, Slater-Condon integrals equal the two-electron integral of the orbital, and densities of the wrong shape are rejected.",
     [IN, CF], "all densities, orbital coefficients, scales, screening parameters and potential coefficients; shells and elements within the bounds", WHY + "no test builds a spherically averaged atom.",
     ["src/sadatom/basis.cpp", "libhelfemqc/include/CoulombExchangeFE.h"], "averaging weights over magnetic components, multipole prefactors, cached two-electron factors")
prop("C37", "Spherical-atom densities, orbitals and screening match their definition",
     "For every density matrix of the spherically averaged atom, the listed radii, quadrature weights, density, radial density, gradient, Laplacian, kinetic energy density, orbitals with derivatives and Coulomb screening are those of the expansion at each listed point, including the nucleus. Precomputing basis values never changes a result, orbitals vanish beyond the last element, and exactly the requested number of lowest orbitals per shell is extracted.",
     [IN, CF], "all densities and orbital coefficients, all requested orbital counts; selected points in every element", WHY + "no test evaluates these quantities.",
     ["src/sadatom/basis.cpp", "libhelfem/src/RadialBasis.cpp"], "layout of point lists with the nucleus first; sums of inner and outer charge; cached basis values")
prop("C38", "Spherical-atom exchange-correlation energy and potential match the functional",
     "For every set of per-shell densities made of orbitals, the exchange-correlation energy and electron count of the spherically averaged atom equal the quadrature sums of the functional's energy and of the density. The returned matrices are the derivatives of that discrete energy with respect to each shell's density, including the centrifugal part of the kinetic energy density, for spin-restricted and spin-polarised densities and for every kind of functional.",
     [IN, CF], "all orbital coefficients, functional coefficients and parameters; shells and elements within the bounds", WHY + "no test evaluates a functional for a spherically averaged atom.",
     ["src/sadatom/dftgrid.cpp", "src/general/dftgrid_common.cpp", "src/general/dftgrid_common.h"], "shell-dependent kinetic term, Laplacian terms, restricted/polarised consistency",
     "libxc is replaced by polynomial functionals with symbolic coefficients (libxc itself is outside). ")
prop("C39", "Atomic radii are where the density criterion is met",
     "The van der Waals radius is the outermost radius where the electron density equals the requested threshold, and zero when the density is below it everywhere. The inclusion radius leaves exactly the requested number of electrons outside, and the reported maximum of the radial density is not exceeded anywhere.",
     [IN, CF], "all thresholds in the stated windows and overall density scales; a decaying model density on several grids", WHY + "no test computes an atomic radius.",
     ["src/sadatom/basis.cpp"], "search over elements from outside, bracketing between quadrature points, bisection")
prop("C40", "Self-consistent-field energy, Fock matrices and saved state are consistent",
     "In the atomic, diatomic and spherical-atom programs, for every set of orbitals and occupations, the reported total energy is the sum of kinetic, nuclear, field, confinement, Coulomb, exchange, exchange-correlation and nuclear-repulsion terms of that state, and each Fock matrix handed to the optimiser is the derivative of that energy with respect to the orbitals' density. This holds for restricted and unrestricted states, all symmetry settings, electric, quadrupole and magnetic fields, off-centre charges, confinement, and plain, hybrid and range-separated functionals, and the densities, orbitals and basis saved on disk are those of the final state.",
     [IN, CF], "all orbital coefficients, occupations, field strengths, functional coefficients and mixing parameters; basis, symmetry and option combinations within the bounds", WHY + "no test runs a self-consistent-field driver; the variational link must hold for every state the optimiser visits, not only at convergence.",
     ["src/atomic/main.cpp", "src/diatomic/main.cpp", "src/sadatom/scf.cpp", "src/general/scf_driver_common.h", "src/general/scf_helpers.cpp"], "Fock builder callbacks of the three programs, block expansion and transformation to the orthonormal basis, energy assembly",
     "OpenOrbitalOptimizer and HDF5 are replaced by recording stand-ins, libxc by polynomial functionals with symbolic coefficients. ")
prop("C41", "Electron counts and frozen occupations are those the user asked for",
     "For every combination of charge, multiplicity, explicit spin counts and spin-restriction setting, the electron numbers used are those implied by the input, and inputs that have no consistent solution are rejected. Occupations read from a file are given to exactly the symmetry blocks they name, blocks never hold more electrons than the file asks, and files whose totals disagree with the electron numbers are rejected.",
     [IN, CF], "all occupation numbers, quantum numbers and electron-count inputs within the stated small integer ranges", WHY + "no test parses occupation files or derives electron counts.",
     ["src/atomic/main.cpp", "src/diatomic/main.cpp", "src/general/scf_driver_common.h", "src/general/scf_helpers.cpp"], "derivation of spin counts, construction of block metadata, frozen-occupation matching and totals")
prop("C42", "Restarting from a saved state reproduces that state",
     "A calculation started from a saved checkpoint starts from the saved densities: when the new basis contains the old one, the starting orbitals and occupations represent exactly the saved electron densities, including the number of electrons of each symmetry and spin, and otherwise they represent the projection of the saved orbitals. This holds for restricted and unrestricted states, for every symmetry setting and when spin channels are empty.",
     [IN, CF], "all saved orbital coefficients and occupations; old/new basis pairs and symmetry settings within the bounds", WHY + "no test restarts a calculation.",
     ["src/atomic/main.cpp", "src/diatomic/main.cpp", "src/sadatom/scf.cpp", "src/general/checkpoint.cpp", "src/general/scf_driver_common.h"], "projection between bases, transformation of densities to the orthonormal basis, per-block eigendecomposition into orbitals and occupations",
     "HDF5 and OpenOrbitalOptimizer are replaced by in-memory recording stand-ins. ")
prop("C43", "Functional and element names resolve to the right object and requirements",
     "A functional given by name or number, alone or as an exchange-correlation pair, resolves to exactly that functional, and kinetic-energy functionals and unknown names are refused. What the programs then assume about it - density gradient, kinetic energy density or Laplacian needed, an energy available, exact-exchange fractions, range-separation kind and constants - is what the functional library declares, and every element symbol in any letter case (or a number) gives its nuclear charge while unknown symbols are refused, and the orbitals planned per axial symmetry are those of both atoms' shells.",
     [IN, CF], "all combinations of declared family, kind and flags with arbitrary mixing constants; all listed names and all elements", WHY + "no test resolves a functional or an element.",
     ["src/general/dftfuncs.cpp", "src/general/elements.cpp", "src/general/elements.h"], "family and flag switches, name parsing, symbol table",
     "libxc is replaced by a stand-in whose declared metadata are the symbolic inputs. ")
prop("C44", "Orthonormalisation and eigenvectors solve the generalised eigenproblem",
     "For every overlap matrix, the orthonormalising matrix orthonormalises the basis, whatever the normalisation of the individual functions and for both available methods. Orbitals obtained from it are orthonormal eigenvectors with ascending energies, and when symmetry blocks are given each orbital belongs to one block, each block yields as many orbitals as it has functions, and incomplete block lists are rejected.",
     [IN, CF], "all normalisations of the functions and all scales of each Fock block, hence all energy orders; sizes within the bounds", WHY + "no test orthonormalises or diagonalises anything.",
     ["src/general/scf_helpers.cpp", "src/general/scf_helpers.h", "libhelfem/src/utils.cpp"], "normalisation before decomposition, selection of block columns, sorting across blocks")
prop("C45", "Contracted, Slater and Gaussian radial bases represent their functions",
     "Matrix elements, orbital values and two-electron operators of a contracted radial basis equal those of the contracted functions, for any contraction coefficients and densities, and inconsistent bases or shapes are rejected. Slater and Gaussian bases are normalised, their grid ends exactly where the slowest function has decayed to the requested fraction of its peak, and the contractions are the projections of the requested functions on the element basis.",
     [IN, CF], "all contraction coefficients, densities, exponent scales and screening parameters; element bases and primitive powers within the bounds", WHY + "no stable test builds such a basis.",
     ["libhelfemqc/include/NAORadialBasis.h", "libhelfemqc/include/STO.h", "libhelfemqc/include/GTO.h", "libhelfemqc/include/CoulombExchangeFE.h", "src/general/lcao.cpp"], "basis transformation, radial extent search, projection, normalisation constants")
prop("C46", "Two-centre quadrature of potentials and probe functions is correct",
     "For a diatomic molecule, matrix elements of spherical potentials placed on the two nuclei, and the projections and overlaps of atom-like functions centred on either nucleus or at the bond midpoint, equal the corresponding volume integrals, with each function's distance and polar angle measured about its own centre. Projected atomic orbitals are exactly the occupied ones of neutral atoms at the two nuclei, and blocks of different angular momentum about the axis never mix.",
     [IN, CF], "all internuclear distances, potential coefficients, radial-function coefficients and atomic orbital coefficients; angular blocks and element bases within the bounds; every nuclear charge", WHY + "no test evaluates the two-centre grid.",
     ["src/diatomic/twodquadrature.cpp", "src/diatomic/twodquadrature.h"], "distance and angle about each centre, volume element, index lists per m, ground-state occupation table",
     "The Slater/Gaussian radial functions and the atomic solver are replaced by stand-ins with symbolic coefficients. ")
prop("C47", "Checkpoint files give back exactly what was last stored",
     "After any sequence of writes, overwrites with another kind or shape, removals, closings and reopenings, every entry of a checkpoint reads back exactly as last written, at its full precision, entries never written or removed do not exist, and entries of another kind or shape are refused. A file opened for reading is never changed, successful operations leave an open file open and a closed one closed, matrices keep the on-disk layout of earlier releases, and saved basis sets are restored identically, never as the other program's kind.",
     [IN, CF], "all stored values and all histories of two writes/removals, every reopening mode and every pair of kinds within the bounds", WHY + "the checkpoint test needs HDF5, is not among the stable tests, and samples a few histories.",
     ["src/general/checkpoint.cpp", "src/general/checkpoint.h"], "open/close state kept by each access routine, dataspace dimensions and type checks, replacement of existing entries",
     "HDF5 is replaced by an in-memory stand-in with its type-conversion rules. ")
prop("C48", "Command-line options and parameter strings mean what the user wrote",
     "For every sequence of command-line arguments, long and short forms, joined and separate values, grouped flags and positional arguments are read as documented; options not given have their defaults, and unknown options, missing or malformed values, values outside the declared range or choice and missing mandatory options are refused with an explanation. Values are never truncated or shifted to a neighbouring option, a quoted string splits into the same words as the shell would make, and functional parameters given as text or as a file yield exactly the listed numbers.",
     [IN, CF], "all sequences of up to two tokens of a 41-word vocabulary, longer ones from sub-vocabularies; all integer ranges and choices", WHY + "no test parses a command line; every calculation depends on its options being the ones asked for.",
     ["src/general/cmdline.h", "src/general/scf_helpers.cpp"], "option lookup, value readers, range and choice validators, string splitting, parameter parsing")
prop("C49", "Program options are honoured or refused",
     "In the atomic and diatomic programs, lengths given in ångström or in bohr describe the same system, and the starting Hamiltonian contains exactly the requested screened-nucleus potential together with all external fields, whichever guess is chosen. Quadrature that is too small, off-centre charges without a distance or radial elements, unknown guesses, integration grids that the symmetry setting does not allow, and functionals the program cannot treat are refused before the calculation starts, and nothing else is.",
     [IN, CF], "all field strengths, distances, quadrature orders, guess numbers, symmetry and grid settings within the bounds", WHY + "no test runs the programs.",
     ["src/atomic/main.cpp", "src/diatomic/main.cpp"], "unit conversion, choice of the starting potential, early consistency checks",
     "OpenOrbitalOptimizer and HDF5 are replaced by recording stand-ins. ")
prop("C50", "The spherical-atom program writes what its state says",
     "The calculation is started with exactly the options given, and occupations given per angular momentum are distributed by Hund's rule or taken as listed, and refused when they cannot be assigned. The tables written afterwards - radius, density and derivatives, screening potentials, effective charge, orbitals - are those of the final state for restricted and unrestricted atoms, the completeness and importance profiles are the projections of normalised Slater and Gaussian functions on the basis and on all occupied orbitals, and potentials the program does not have are refused.",
     [IN, CF], "all density and orbital coefficients, option values and functional coefficients; all listed occupations; basis sizes within the bounds", WHY + "no test runs the program, whose tables are the starting potentials of every other calculation.",
     ["src/sadatom/main.cpp", "src/general/lcao.cpp"], "option transfer, occupation parsing, table columns, projection onto occupied orbitals",
     "The self-consistent solver is replaced by a stand-in returning a state with symbolic coefficients. ")
prop("C51", "Diatomic density and completeness analyses show the saved state",
     "Along any line and on the product grid, the written coordinates, weights, electron densities, orbitals and kinetic-energy densities of a diatomic molecule are those of the saved orbitals or densities of each spin at the written point, in and outside the grid and on the bond axis, and each grid node occurs once. Completeness profiles are the projections of normalised Slater and Gaussian functions centred on either nucleus or the bond midpoint on the saved basis, or on the occupied orbitals.",
     [IN, CF], "all density and orbital coefficients of the saved state; angular blocks, lines, spins and grid sizes within the bounds", WHY + "no test runs the analysis programs.",
     ["src/diatomic/density_line.cpp", "src/diatomic/density_grid.cpp", "src/diatomic/completeness.cpp"], "elliptic coordinates of a Cartesian point, element lookup, occupied columns per spin, table layout",
     "Text output and HDF5 are recorded by stand-ins. ")
prop("C52", "One-electron and model-problem programs solve the stated equation",
     "The one-electron atom and diatomic programs and the Morse and soft-Coulomb oscillators form exactly the Hamiltonian their options describe - charges, lengths in either unit, masses, potential parameters, angular momentum - in an orthonormal basis, and the orbitals, energies, grids, weights and energy contributions they save or print are those of its eigenvectors. Energies are printed for existing states only, and quadrature that is too small is refused.",
     [IN, CF], "all nuclear charges, dissociation energies and masses, all eigenvectors and eigenvalues the diagonalisation may return; families, element counts and grids within the bounds", WHY + "no test runs these programs.",
     ["src/sadatom/1e.cpp", "src/diatomic/1e.cpp", "src/harmonic/morse.cpp", "src/harmonic/softcoulomb.cpp"], "assembly of the Hamiltonian from options, orthonormalisation, tables on the grid",
     "Diagonalisation and HDF5 are replaced by stand-ins; the diagonaliser returns symbolic states. ")
prop("C53", "The automatic basis choice reaches the accuracy it reports",
     "Whenever the automatic choice of a diatomic basis reports an accuracy, the reported basis is one whose energy in every symmetry is lowered by no more than that accuracy when partial waves or radial elements are added, each accuracy down to the requested one is reported in turn, and no basis is solved twice. Every trial Hamiltonian is that of the trial basis with exactly the requested potential model and external fields, and its symmetry blocks partition the basis.",
     [IN, CF], "all energies of the trial bases (up to a largest basis beyond which nothing improves), hence all convergence histories; pairs of atoms, accuracies, step sizes, fields and potential models within the bounds", WHY + "no test runs the program; a history that accepts too early is not visible in any single run.",
     ["src/diatomic/corebasis.cpp"], "coordinate descent over elements and partial waves, cache of evaluated bases, stopping rule",
     "The diagonaliser is replaced by a stand-in returning symbolic energies. ")
