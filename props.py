"""Which harness runs decide which property."""
LIB = ["libhelfem/src/%s.cpp" % f for f in ("helfem", "grid", "utils", "erfc_expn", "PolynomialBasis", "quadrature", "ModelPotential", "RadialPotential", "FiniteElementBasis", "RadialBasis")]
POLY = ["libhelfem/src/PolynomialBasis.cpp", "libhelfem/src/helfem.cpp"]
FE = POLY + ["libhelfem/src/FiniteElementBasis.cpp"]
RAD = FE + ["libhelfem/src/%s.cpp" % f for f in ("utils", "erfc_expn", "quadrature", "ModelPotential", "RadialPotential", "RadialBasis")]
NUC = ["libhelfemqc/src/%sNucleus.cpp" % f for f in ("Point", "Gaussian", "Spherical", "Hollow", "Regularized")]
DIA = ["src/diatomic/basis.cpp", "src/diatomic/quadrature.cpp", "src/legendre/Legendre.cpp"] + ["src/general/%s.cpp" % f for f in ("gaunt", "spherical_harmonics", "scf_helpers", "model_potential", "gsz", "sap", "atomdb", "dftfuncs", "timer")] + FE + ["libhelfem/src/%s.cpp" % f for f in ("utils", "quadrature", "ModelPotential", "RadialPotential", "RadialBasis", "erfc_expn")] + NUC
HARNESS = {
    "fe": dict(src=["h_fe.cpp"] + FE),
    "grid": dict(src=["h_grid.cpp", "libhelfem/src/grid.cpp", "libhelfem/src/helfem.cpp", "src/atomic/basis.cpp"]),
    "rad": dict(src=["h_rad.cpp"] + RAD),
    "pot": dict(src=["h_pot.cpp", "h_stubs.cpp"] + RAD + NUC + ["src/general/%s.cpp" % f for f in ("model_potential", "gsz", "sap", "atomdb", "dftfuncs")], libs=["-lxc"]),
    "atom": dict(src=["h_atom.cpp", "h_stubs.cpp"] + RAD + NUC + ["src/general/%s.cpp" % f for f in ("model_potential", "gsz", "sap", "atomdb", "dftfuncs")], libs=["-lxc"]),
    "tei": dict(src=["h_tei.cpp"] + FE + ["libhelfem/src/%s.cpp" % f for f in ("quadrature", "ModelPotential", "RadialPotential", "RadialBasis")]),
    "spec": dict(src=["h_spec.cpp", "src/legendre/Legendre.cpp", "src/general/spherical_harmonics.cpp", "libhelfem/src/utils.cpp", "libhelfem/src/erfc_expn.cpp", "libhelfem/src/helfem.cpp"]),
    "quad": dict(src=["h_quad.cpp", "src/general/angular.cpp"]),
    "gaunt": dict(src=["h_gaunt.cpp", "stubs/wigner.cpp", "src/general/gaunt.cpp", "libhelfem/src/utils.cpp", "libhelfem/src/helfem.cpp"]),
    "twod": dict(src=["h_twod.cpp", "h_stubs.cpp", "stubs/wigner.cpp", "src/atomic/TwoDBasis.cpp", "src/general/gaunt.cpp", "src/general/spherical_harmonics.cpp", "src/general/scf_helpers.cpp"] + FE + ["libhelfem/src/%s.cpp" % f for f in ("quadrature", "ModelPotential", "RadialPotential", "RadialBasis")] + NUC + ["src/general/%s.cpp" % f for f in ("model_potential", "gsz", "sap", "atomdb", "dftfuncs")], libs=["-lxc"]),
    "xca": dict(src=["h_xca.cpp", "h_xcstub.cpp", "h_stubs.cpp", "stubs/wigner.cpp", "src/atomic/TwoDBasis.cpp", "src/atomic/dftgrid.cpp", "src/general/gaunt.cpp", "src/general/spherical_harmonics.cpp", "src/general/scf_helpers.cpp", "src/general/dftgrid_common.cpp", "src/general/angular.cpp", "src/general/dftfuncs.cpp"] + FE + ["libhelfem/src/%s.cpp" % f for f in ("quadrature", "ModelPotential", "RadialPotential", "RadialBasis")] + NUC + ["src/general/%s.cpp" % f for f in ("model_potential", "gsz", "sap", "atomdb")], extra=["-DXC_FLAGS_NEEDS_TAU=65536"], libs=["-lxc"]),
    "dia": dict(src=["h_dia.cpp", "h_stubs.cpp", "stubs/wigner.cpp"] + DIA, libs=["-lxc", "-lquadmath"]),
    "xcd": dict(src=["h_xcd.cpp", "h_xcstub.cpp", "h_stubs.cpp", "stubs/wigner.cpp", "src/diatomic/dftgrid.cpp", "src/diatomic/dftgrid_purem.cpp", "src/general/dftgrid_common.cpp", "src/general/angular.cpp"] + DIA, extra=["-DXC_FLAGS_NEEDS_TAU=65536"], libs=["-lxc", "-lquadmath"]),
    "sad": dict(src=["h_sad.cpp", "h_xcstub.cpp", "h_stubs.cpp", "stubs/wigner.cpp", "src/sadatom/basis.cpp", "src/sadatom/dftgrid.cpp", "src/general/gaunt.cpp", "src/general/spherical_harmonics.cpp", "src/general/scf_helpers.cpp", "src/general/dftgrid_common.cpp", "src/general/dftfuncs.cpp"] + FE + ["libhelfem/src/%s.cpp" % f for f in ("quadrature", "ModelPotential", "RadialPotential", "RadialBasis")] + NUC + ["src/general/%s.cpp" % f for f in ("model_potential", "gsz", "sap", "atomdb")], extra=["-DXC_FLAGS_NEEDS_TAU=65536"], libs=["-lxc"]),
    "scfa": dict(src=["h_scfa.cpp", "h_xcstub.cpp", "h_stubs.cpp", "stubs/hdf5.cpp", "stubs/wigner.cpp", "src/atomic/TwoDBasis.cpp", "src/atomic/dftgrid.cpp", "src/atomic/basis.cpp", "libhelfem/src/grid.cpp", "src/general/angular.cpp", "src/general/dftgrid_common.cpp", "src/general/elements.cpp", "src/general/checkpoint.cpp"] + DIA, extra=["-DXC_FLAGS_NEEDS_TAU=65536"], libs=["-lxc", "-lquadmath"]),
    "scfd": dict(src=["h_scfd.cpp", "h_xcstub.cpp", "h_stubs.cpp", "stubs/hdf5.cpp", "stubs/wigner.cpp", "src/diatomic/dftgrid.cpp", "src/diatomic/dftgrid_purem.cpp", "src/diatomic/twodquadrature.cpp", "src/sadatom/basis.cpp", "src/sadatom/scf.cpp", "src/sadatom/dftgrid.cpp", "src/general/lcao.cpp", "src/atomic/basis.cpp", "src/atomic/TwoDBasis.cpp", "libhelfem/src/grid.cpp", "src/general/angular.cpp", "src/general/dftgrid_common.cpp", "src/general/elements.cpp", "src/general/checkpoint.cpp"] + DIA, extra=["-DXC_FLAGS_NEEDS_TAU=65536"], libs=["-lxc", "-lquadmath"]),
    "scfs": dict(src=["h_scfs.cpp", "h_xcstub.cpp", "h_stubs.cpp", "stubs/hdf5.cpp", "stubs/wigner.cpp", "src/sadatom/scf.cpp", "src/sadatom/basis.cpp", "src/sadatom/dftgrid.cpp", "src/atomic/basis.cpp", "src/atomic/TwoDBasis.cpp", "libhelfem/src/grid.cpp", "src/general/angular.cpp", "src/general/dftgrid_common.cpp", "src/general/elements.cpp", "src/general/checkpoint.cpp"] + DIA, extra=["-DXC_FLAGS_NEEDS_TAU=65536"], libs=["-lxc", "-lquadmath"]),
    "gensap": dict(src=["h_gensap.cpp", "h_xcstub.cpp", "h_stubs.cpp", "stubs/hdf5.cpp", "stubs/wigner.cpp", "src/sadatom/basis.cpp", "src/sadatom/dftgrid.cpp", "src/general/lcao.cpp", "src/atomic/basis.cpp", "src/atomic/TwoDBasis.cpp", "libhelfem/src/grid.cpp", "src/general/angular.cpp", "src/general/dftgrid_common.cpp", "src/general/elements.cpp", "src/general/checkpoint.cpp"] + DIA, extra=["-DXC_FLAGS_NEEDS_TAU=65536"], libs=["-lxc", "-lquadmath"]),
    "ana": dict(src=["h_ana.cpp", "h_xcstub.cpp", "h_stubs.cpp", "stubs/hdf5.cpp", "stubs/wigner.cpp", "src/diatomic/twodquadrature.cpp", "src/sadatom/basis.cpp", "src/general/lcao.cpp", "src/atomic/basis.cpp", "src/atomic/TwoDBasis.cpp", "libhelfem/src/grid.cpp", "src/general/angular.cpp", "src/general/elements.cpp", "src/general/checkpoint.cpp"] + DIA, extra=["-DXC_FLAGS_NEEDS_TAU=65536"], libs=["-lxc", "-lquadmath"]),
    "one": dict(src=["h_one.cpp", "h_xcstub.cpp", "h_stubs.cpp", "stubs/hdf5.cpp", "stubs/wigner.cpp", "src/diatomic/twodquadrature.cpp", "src/sadatom/basis.cpp", "src/sadatom/scf.cpp", "src/sadatom/dftgrid.cpp", "src/general/dftgrid_common.cpp", "src/general/lcao.cpp", "src/atomic/basis.cpp", "src/atomic/TwoDBasis.cpp", "libhelfem/src/grid.cpp", "src/general/angular.cpp", "src/general/elements.cpp", "src/general/checkpoint.cpp"] + DIA, extra=["-DXC_FLAGS_NEEDS_TAU=65536"], libs=["-lxc", "-lquadmath"]),
    "book": dict(src=["h_book.cpp", "h_stubs.cpp", "src/general/lcao.cpp", "src/general/scf_helpers.cpp", "src/general/dftfuncs.cpp", "src/general/elements.cpp", "src/general/timer.cpp", "libhelfem/src/utils.cpp", "libhelfem/src/helfem.cpp"], extra=["-DXC_FLAGS_NEEDS_TAU=65536"], libs=["-lxc"]),
    "nao": dict(src=["h_nao.cpp"] + FE + ["libhelfem/src/%s.cpp" % f for f in ("quadrature", "ModelPotential", "RadialPotential", "RadialBasis")]),
    "tq": dict(src=["h_tq.cpp", "h_stubs.cpp", "stubs/wigner.cpp", "src/diatomic/twodquadrature.cpp", "src/sadatom/basis.cpp", "src/atomic/basis.cpp", "libhelfem/src/grid.cpp"] + DIA, libs=["-lxc", "-lquadmath"]),
    "cmd": dict(src=["h_cmd.cpp", "src/general/scf_helpers.cpp", "src/general/timer.cpp", "libhelfem/src/utils.cpp", "libhelfem/src/helfem.cpp"]),
    "chk": dict(src=["h_chk.cpp", "h_stubs.cpp", "stubs/hdf5.cpp", "stubs/wigner.cpp", "src/atomic/TwoDBasis.cpp", "src/atomic/basis.cpp", "libhelfem/src/grid.cpp", "src/general/checkpoint.cpp"] + DIA, libs=["-lxc", "-lquadmath"]),
    "poly": dict(src=["h_poly.cpp"] + POLY),
}


def J(harness, **conf):
    lim = conf.pop("lim", {})
    return (harness, conf, lim)


def C01(tier):
    q = tier == "quick"
    out = []
    for nn in ([2, 3, 4, 6] if q else [2, 3, 4, 5, 6, 8, 10]):
        out.append(J("poly", what="deriv", primbas=4, nnodes=nn, n0=0, n1=min(nn, 5)))
        out.append(J("poly", what="deriv", primbas=3, nnodes=nn, n0=0, n1=2))
    for nn in ([2, 3, 4] if q else [2, 3, 4, 5, 6]):
        out.append(J("poly", what="deriv", primbas=5, nnodes=nn, n0=0, n1=6))
    for nn in ([2, 3] if q else [2, 3, 4, 5]):
        out.append(J("poly", what="deriv", primbas=8, nnodes=nn, n0=0, n1=5))
        out.append(J("poly", what="deriv", primbas=9, nnodes=nn, n0=0, n1=5))
    out.append(J("poly", what="symnodes"))
    return out


def C02(tier):
    q = tier == "quick"
    out = []
    for nn in ([2, 3, 4, 6, 8] if q else [2, 3, 4, 5, 6, 8, 10, 12, 15]):
        out.append(J("poly", what="interp", primbas=4, nnodes=nn))
        out.append(J("poly", what="interp", primbas=3, nnodes=nn))
    for pb, nns in ((5, [2, 3, 5]), (8, [2, 3]), (9, [2, 3])):
        for nn in nns if q else nns + [nns[-1] + 1, nns[-1] + 2]:
            out.append(J("poly", what="interp", primbas=pb, nnodes=nn))
    for pb, nn in ((4, 4), (5, 3), (8, 3), (9, 3)):
        for f1, d1, f2, d2 in ((1, 0, 0, 0), (1, 1, 0, 0), (0, 0, 1, 0), (0, 0, 1, 1), (1, 1, 1, 1), (1, 0, 1, 1), (0, 1, 0, 1)):
            if pb == 4 and (d1 or d2):
                continue
            out.append(J("poly", what="drop", primbas=pb, nnodes=nn, f1=f1, d1=d1, f2=f2, d2=d2))
    return out


def C03(tier):
    q = tier == "quick"
    out = []
    for nn in ([3, 4, 6] if q else [2, 3, 4, 5, 6, 8, 10]):
        out.append(J("poly", what="overr", primbas=4, nnodes=nn))
        out.append(J("poly", what="overr", primbas=4, nnodes=nn, last=1))
        out.append(J("poly", what="overr", primbas=3, nnodes=nn))
    for pb, nns in ((5, [2, 3, 4]), (8, [2, 3]), (9, [2, 3])):
        for nn in nns if q else nns + [nns[-1] + 1]:
            for last, ld in ((0, 0), (1, 0), (1, 1)):
                out.append(J("poly", what="overr", primbas=pb, nnodes=nn, last=last, lastderiv=ld))
    return out


def C04(tier):
    q = tier == "quick"
    out = []
    bcs = [(0, 0, 0, 0), (1, 0, 0, 0), (1, 0, 1, 0), (1, 0, 1, 1), (1, 1, 1, 1), (0, 0, 1, 0), (0, 1, 0, 1)]
    for pb, nn in ((4, 3), (4, 5), (3, 4), (5, 2), (5, 3), (8, 2), (9, 2)):
        for bc in bcs:
            if pb in (3, 4) and (bc[1] or bc[3]):
                continue
            if (pb == 3) and bc[0] != 1 and q:
                continue
            for nel in ([1, 3] if q else [1, 2, 3, 4, 5]):
                if q and nel == 1 and pb not in (4, 5):
                    continue
                if nel == 1 and nn == 2 and bc == (1, 1, 1, 1):
                    continue
                out.append(J("fe", what="index", primbas=pb, nnodes=nn, nel=nel, f1=bc[0], d1=bc[1], f2=bc[2], d2=bc[3]))
    for nel in ([1, 3] if q else [1, 2, 3, 5, 8]):
        out.append(J("fe", what="coord", nel=nel))
    for nel in ([1, 2, 3, 4, 5] if q else [1, 2, 3, 4, 5, 6, 7, 8, 10]):
        out.append(J("fe", what="find", nel=nel, nnodes=2, lim=dict(paths=200)))
    for pb, nn in ((4, 4), (5, 3), (8, 2)):
        for nel, k in ((1, 0), (3, 0), (3, 1), (3, 2)):
            out.append(J("fe", what="refine", primbas=pb, nnodes=nn, nel=nel, k=k, f1=1, f2=1))
    return out


def C05(tier):
    q = tier == "quick"
    out = []
    for ig in (1, 2, 3, 4, 5):
        for n in ([1, 2, 3, 5] if q else [1, 2, 3, 4, 5, 6, 8, 10]):
            out.append(J("grid", what="grid", igrid=ig, nel=n))
    for model in (0, 1, 2, 3, 4):
        for ig in (1, 4) if q else (1, 2, 3, 4, 5):
            for n0 in (0, 2) if q else (0, 1, 2, 3):
                out.append(J("grid", what="nuc", model=model, igrid=ig, nel=2, n0=n0, zsym=0))
    for Z, Zl, Zr in ((1, 1, 1), (0, 3, 1), (6, 0, 2)):
        for ig in (1, 4) if q else (1, 2, 3, 4, 5):
            out.append(J("grid", what="off", Z=Z, Zl=Zl, Zr=Zr, igrid=ig, nel=2, zsym=0))
    for ig in (1, 2, 4):
        out.append(J("grid", what="conf", igrid=ig, nel=3, zsym=0))
    return out


def C07(tier):
    q = tier == "quick"
    out = []
    for pb, nn in ((4, 3), (4, 5), (5, 3), (3, 4)) if q else ((4, 3), (4, 5), (4, 7), (5, 3), (5, 4), (3, 5), (8, 2), (8, 3), (9, 2)):
        for l, k in ((0, 0), (1, 1), (0, 1), (2, 0)):
            out.append(J("rad", what="matel", primbas=pb, nnodes=nn, nel=2, geo=0, lder=l, kder=k, f1=1, f2=1))
            out.append(J("rad", what="matel", primbas=pb, nnodes=nn, nel=3, geo=1, lder=l, kder=k, f1=l, f2=0))
    for pb, nn in ((4, 4), (5, 2)) if q else ((4, 4), (5, 2), (5, 3)):
        for iel in (0, 1):
            out.append(J("rad", what="break", primbas=pb, nnodes=nn, nel=2, geo=1, iel=iel))
        out.append(J("rad", what="kinds", primbas=pb, nnodes=nn, nel=2, geo=1, tole=8))
    return out


def C08(tier):
    q = tier == "quick"
    out = []
    for pb, nn in ((4, 3), (4, 5), (5, 3), (8, 2), (3, 4)) if q else ((4, 3), (4, 5), (4, 8), (5, 3), (5, 4), (8, 2), (8, 3), (9, 2), (3, 4), (3, 6)):
        for nel in (1, 3):
            out.append(J("rad", what="one", primbas=pb, nnodes=nn, nel=nel, geo=0))
            for beta in (0, 1, 2, 3):
                out.append(J("rad", what="one", primbas=pb, nnodes=nn, nel=nel, geo=1, beta=beta, f2=beta % 2))
        for beta in (0, 3):
            out.append(J("rad", what="rpow", primbas=pb, nnodes=nn, nel=3, geo=1, beta=beta, f2=0))
        out.append(J("rad", what="bf", primbas=pb, nnodes=nn, nel=2, geo=1))
        out.append(J("rad", what="bf", primbas=pb, nnodes=nn, nel=2, geo=1, cdf=0, clf=1, f2=0))
    return out


def C24(tier):
    q = tier == "quick"
    out = []
    for iconf, Ns in ((1, (-2, -1, 0, 1, 2, 3)), (2, (1, 2, 3)), (3, (1,)), (4, (1, 2))):
        for N in Ns:
            for iel in (0, 1):
                for mode in ({}, {"shiftin": 1}, {"shiftout": 1}):
                    if mode and N < 0:
                        continue
                    if iconf == 4 and (mode.get("shiftin") or iel == 0):
                        pass
                    for pb, nn in ((4, 4),) if q else ((4, 4), (5, 3), (4, 6)):
                        out.append(J("rad", what="conf", primbas=pb, nnodes=nn, nel=3, iel=iel, iconf=iconf, N=N, ng=40, **mode))
    out.append(J("rad", what="conf", nel=3, iel=1, iconf=1, N=2, neg=1))
    out.append(J("rad", what="conf", nel=3, iel=2, iconf=1, N=4, beta=2))
    return out


def C26(tier):
    out = []
    for pb, nn in ((4, 4), (5, 2), (5, 3), (8, 2)) + (() if tier == "quick" else ((4, 6), (9, 2))):
        for iel in (0, 1, 2):
            out.append(J("rad", what="orbs", primbas=pb, nnodes=nn, nel=3, iel=iel, f2=iel % 2, geo=1))
        out.append(J("rad", what="orbs", primbas=pb, nnodes=nn, nel=1, iel=0, geo=0))
    return out


def C27(tier):
    q = tier == "quick"
    out = []
    for rp in (100, 70, 140):
        for zp in (150, 100):
            out.append(J("rad", what="cross", primbas=4, nnodes=4, nel=2, nnodes2=3, nel2=2, rpct=rp, zpct=zp))
            out.append(J("rad", what="cross", primbas=5, nnodes=2, nel=2, nnodes2=4, nel2=3, rpct=rp, zpct=zp, g2=0))
    out.append(J("rad", what="cross", primbas=4, nnodes=4, nel=1, nnodes2=3, nel2=1))
    return out


def C28(tier):
    out = []
    for beta in (0, 2):
        for k in (0, 1, 2, 3):
            out.append(J("rad", what="offc", primbas=4, nnodes=4, nel=3, k=k, beta=beta, Lmax=4 if tier == "quick" else 8))
            if k < 3:
                out.append(J("rad", what="offc", primbas=4, nnodes=4, nel=3, k=k, beta=beta, Rin=1))
    return out


def C12(tier):
    q = tier == "quick"
    out = []
    for Z in (1, 6, 92):
        for m in (0, 2, 3):
            out.append(J("pot", what="nuc", model=m, Z=Z))
        out.append(J("pot", what="nuc", model=1, Z=Z, xlo=0, xhi=3, xi=1))
        out.append(J("pot", what="nuc", model=1, Z=Z, xlo=20, xhi=6000))
        out.append(J("pot", what="gausspts", Z=Z))
    for Z, a in ((1, 2), (6, 2), (6, 4)) + (() if q else ((92, 2), (2, 1))):
        out.append(J("pot", what="reg", Z=Z, a=a))
    out.append(J("pot", what="regalone", Z=3, a=2))
    for m in (0, 2, 3):
        for rp in (40, 75, 100, 170):
            for iel in (0, 1):
                out.append(J("pot", what="mat", model=m, Z=3, rpct=rp, iel=iel))
    return out


def C13(tier):
    q = tier == "quick"
    out = []
    for Z in (1, 2, 10, 18, 92, 103) if q else range(1, 104):
        out.append(J("pot", what="gsz", Z=Z))
    for Z in (1, 10, 80):
        out.append(J("pot", what="tf", Z=Z))
    for Z in (1, 2, 26, 118) if q else range(1, 119):
        out.append(J("pot", what="sapends", Z=Z))
        for lo in (300, 5000, 100000, 1000000, 3000000, 9000000, 36000000) if q else (100, 300, 1000, 2000, 5000, 10000, 20000, 50000, 100000, 200000, 300000, 500000, 800000, 1000000, 1500000, 2000000, 3000000, 5000000, 9000000, 15000000, 25000000, 36000000):
            out.append(J("pot", what="sap", Z=Z, lo=lo, hi=int(lo * 1.06), lim=dict(paths=200)))
    return out


def C35(tier):
    q = tier == "quick"
    out = []
    for Z in (1, 2, 3):
        for el in (0, 1):
            out.append(J("atom", what="dens", Z=Z, el=el, xpct=-40))
            out.append(J("atom", what="dens", Z=Z, el=el, xpct=85))
            for xp in (30, -70) if q else (30, -70, 0, 95):
                out.append(J("atom", what="charge", Z=Z, el=el, xpct=xp))
    return out


def C36(tier):
    q = tier == "quick"
    out = []
    for Z in (1,) if q else (1, 2, 3):
        for el in (0, 1):
            for xf, cf in ((1, 0), (2, 0), (3, 2), (1, 2), (0, 3)):
                out.append(J("atom", what="xc", Z=Z, el=el, xf=xf, cf=cf, xpct=30, csym=1))
    for x, c in ((1, 0), (2, 0), (1, 7), (2, 6), (0, 7), (2, 7)):
        for pol in (0, 1):
            out.append(J("sad", what="xcscr", geo=0, nquad=3, x=x, c=c, pol=pol, nnodes=2, nel=2 if q else 3))
    return out


def C09(tier):
    q = tier == "quick"
    out = []
    for pb, nn in ((4, 3), (5, 2)) if q else ((4, 3), (4, 5), (5, 2), (5, 3), (8, 2), (3, 4)):
        for L in ((0, 1, 2, 5) if pb == 4 else (0, 2)) if q else range(0, 9):
            for beta in (0, 2):
                out.append(J("tei", what="tei", primbas=pb, nnodes=nn, nel=3, L=L, beta=beta))
        for L in ((0, 3) if pb == 4 else (0, 2)) if q else range(0, 5):
            out.append(J("tei", what="yuk", primbas=pb, nnodes=nn, nel=2, L=L))
            out.append(J("tei", what="erfc", primbas=pb, nnodes=nn, nel=2, L=L, nquad=24, tole=6))
            out.append(J("tei", what="chol", primbas=pb, nnodes=nn, nel=2, L=L))
        out.append(J("tei", what="pot", primbas=pb, nnodes=nn, nel=2, nquad=16, stride=3))
    return out


def C10(tier):
    q = tier == "quick"
    out = []
    for pb, nn in ((4, 3), (5, 2)) if q else ((4, 3), (4, 4), (5, 2), (5, 3), (8, 2)):
        for nel in (1, 3) if q else (1, 2, 3, 4):
            for L in ((0, 2, 5) if nel == 3 else (0, 3)) if q else (0, 1, 2, 3, 5):
                for k in (0, 1, 2):
                    if q and (L == 5 and k or pb == 5 and (nel, L) not in ((3, 2), (1, 0))):
                        continue
                    out.append(J("tei", what="jk", primbas=pb, nnodes=nn, nel=min(nel, 2) if pb != 4 or k == 2 else nel, L=L, kernel=k, **(dict(nquad=24, tole=6) if k == 2 else {}), psym=1 if pb == 4 and L else 0))
        out.append(J("tei", what="jk", primbas=pb, nnodes=nn, nel=2, L=1, kernel=1, mono=1))
    return out


def C11(tier):
    out = []
    for N in ((1, 1, 1, 1), (2, 2, 2, 2), (2, 3, 1, 4), (3, 1, 2, 2), (1, 2, 4, 3), (3, 3, 2, 2)) + (() if tier == "quick" else ((4, 4, 4, 4), (5, 5, 3, 3), (2, 3, 4, 5))):
        out.append(J("tei", what="perm", Ni=N[0], Nj=N[1], Nk=N[2], Nl=N[3]))
    return out


def C06(tier):
    q = tier == "quick"
    out = [J("quad", what="bad")]
    for n in (2, 3, 4, 5, 8, 12, 20) if q else list(range(2, 33)) + [48, 64]:
        out.append(J("quad", what="lobatto", n=n))
    for n in (1, 2, 3, 7, 16, 40) if q else list(range(1, 20)) + [32, 64, 100]:
        out.append(J("quad", what="cheb", n=n))
    for n in (3, 60, 100):
        out.append(J("quad", what="radcheb", n=n))
    for n, m in ((2, 1), (3, 4), (5, 3), (6, 6)) + (() if q else ((8, 5), (10, 10), (4, 9))):
        out.append(J("quad", what="ang", n=n, m=m))
        out.append(J("quad", what="comp", n=n, m=m))
    out.append(J("quad", what="ang", n=4, one=1))
    out.append(J("quad", what="ang", n=12, m=4, cheb=1))
    out.append(J("quad", what="ang", n=12, one=1, cheb=1))
    return out


def C19(tier):
    q = tier == "quick"
    out = []
    for L, M in ((0, 0), (1, 2), (4, 4), (6, 2)) if q else ((0, 0), (0, 3), (1, 2), (4, 4), (6, 2), (8, 8), (3, 6), (12, 3)):
        for reg in (0, 1, 2):
            out.append(J("spec", what="plm", L=L, M=M, reg=reg))
        out.append(J("spec", what="qlm", L=L, M=min(M, 3), reg=0))
        out.append(J("spec", what="qlm", L=L, M=min(M, 3), reg=1, xlo=101, xhi=112))
    for L, M in ((1, 1), (5, 3), (12, 2)) if q else ((1, 1), (5, 3), (12, 2), (3, 3), (20, 4), (30, 2)):
        out.append(J("spec", what="qmiller", L=L, M=M))
    return out


def C33(tier):
    q = tier == "quick"
    out = []
    for L in (0, 1, 2, 5) if q else range(0, 13):
        out.append(J("spec", what="il", L=L))
        out.append(J("spec", what="il", L=L, xlo=50, xhi=200, xi=80, terms=30))
        out.append(J("spec", what="bessel", L=L))
    for L in (0, 1, 2, 3) if q else range(0, 7):
        if L < 3:
            out.append(J("spec", what="phi", L=L))
            out.append(J("spec", what="phi", L=L, Xi=70, xi=160))
        for xi in (50, 110, 220):
            out.append(J("spec", what="phi", L=L, Xi=130, xi=xi, xfix=1))
        for X in (41, 100, 250) if q else (41, 60, 80, 100, 150, 200, 250, 300):
            for lo, hi, xi in ((1, 6, 3), (6, 20, 12), (20, 39, 30)):
                out.append(J("spec", what="phishort", L=L, X=X, xlo=lo, xhi=hi, xi=xi))
    return out


def C34(tier):
    return [J("spec", what="ylm", L=L) for L in ((0, 1, 2, 3, 5, 8) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 8))]


def C30(tier):
    q = tier == "quick"
    out = []
    for t in ((2, 2, 2, -1), (3, 6, 3, -1), (2, 4, 3, -1), (4, 1, 4, -1), (4, 8, 4, 1), (4, 4, 4, 2), (0, 2, 3, -1)) + (() if q else ((5, 10, 5, -1), (6, 6, 6, -1), (5, 2, 3, -1), (8, 16, 8, 2), (6, 3, 6, 0))):
        out.append(J("gaunt", what="table", L=t[0], l=t[1], lp=t[2], mcap=t[3]))
    for L in (0, 1, 3, 4) if q else range(0, 8):
        out.append(J("gaunt", what="coupling", L=L, **({} if L < 4 else dict(mcap=6))))
    return out


def C14(tier):
    q = tier == "quick"
    out = []
    for am, am2 in ((0, 2), (2, 5), (3, 6), (4, 1), (6, 3)):
        for zl, zr, rb in ((0, 0, 1), (1, 2, 1), (3, 0, 2)):
            if q and zl and am in (0, 6):
                continue
            out.append(J("twod", what="one", am=am, am2=am2, Zl=zl, Zr=zr, rb=rb, nel=3 if rb == 2 else 2, primbas=4, nnodes=3))
    out.append(J("twod", what="one", am=2, primbas=5, nnodes=2, zd=1, nel=2, tole=7))
    return out


def C15(tier):
    q = tier == "quick"
    out = []
    for am in (0, 1, 2, 3, 4, 5) if not q else (1, 2, 3):
        out.append(J("twod", what="jk", am=am, nel=2, nnodes=3 if am < 2 else 2))
        out.append(J("twod", what="rs", kernel=1, am=am, nel=2, nnodes=2))
        out.append(J("twod", what="rs", kernel=2, am=am, nel=2, nnodes=2, nquad=24, geo=0))
    return out


def C16(tier):
    return [J("twod", what="index", am=am, nel=3, rb=1, Zl=1, Zr=2) for am in range(7)] + [J("twod", what="index", am=2, primbas=5, zd=1), J("twod", what="index", am=1, symam=1, geo=0, lmx=2 if tier == "quick" else 3, nel=1, lim=dict(paths=400)), J("twod", what="index", am=3, symam=1, geo=0, nel=1, lim=dict(paths=400))]


def C17(tier):
    q = tier == "quick"
    return [J("twod", what="sinvh", am=am, chol=c, sym=y, primbas=pb, nnodes=nn, nel=2) for am in (1, 2) for c in (1, 0) for y in (0, 1, 2) for pb, nn in ((4, 3), (5, 2)) if c or pb == 4]


def C18(tier):
    return [J("twod", what="eval", am=am, xpct=x) for am in (2, 3, 5) for x in (30, -80)]


def C29(tier):
    return [J("twod", what="df", am=am, nel=2, nnodes=nn) for am, nn in ((0, 3), (1, 3), (2, 2))]


def C20(tier):
    q = tier == "quick"
    out = []
    for x, c in ((1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (0, 7), (1, 7), (8, 6), (3, 7), (4, 6), (5, 8)):
        for pol in (0, 1):
            out.append(J("xca", x=x, c=c, pol=pol, am=1, nel=2, nnodes=2, xp=int(x in (1, 3)), cp=int(c == 7)))
    for x in (1, 2, 3, 4, 5):
        out.append(J("xca", x=x, c=0, pol=1, beta=0, am=1, nel=2, nnodes=2))
    for am in (0, 2, 3):
        out.append(J("xca", x=4, c=0, pol=1, am=am, nel=2, nnodes=2, mask=1 if am == 0 else 3))
    out.append(J("xca", x=2, c=0, pol=1, am=0, nel=3, nnodes=2))
    return out


def C21(tier):
    q = tier == "quick"
    out = []
    for am, pb, nn, nel in ((0, 4, 3, 2), (2, 4, 4, 2), (3, 4, 3, 3), (5, 5, 2, 2), (6, 4, 2, 2), (1, 3, 3, 1)) + (() if q else ((4, 4, 5, 3), (6, 4, 4, 3), (7, 5, 3, 2), (2, 8, 3, 2))):
        out.append(J("dia", what="one", am=am, primbas=pb, nnodes=nn, nel=nel))
    out.append(J("dia", what="one", am=5, Z1=0, Z2=2))
    out.append(J("dia", what="one", am=3, Z1=2, Z2=0, leg=0))
    for am, am2, pb, nn, nel2, sm, xm in ((2, 6, 4, 4, 3, 0, 100), (5, 3, 5, 2, 2, 0, 80), (6, 6, 4, 3, 2, 1, 100), (3, 7, 4, 3, 1, 0, 130)):
        out.append(J("dia", what="cross", am=am, am2=am2, primbas2=pb, nnodes2=nn, nel2=nel2, same=sm, xmax=xm))
    return out


def C22(tier):
    q = tier == "quick"
    out = []
    for am, pb, nn, nel, ab in ((0, 4, 2, 2, 0), (1, 4, 3, 1, 0), (1, 4, 2, 2, 0), (2, 4, 2, 1, 1), (2, 4, 3, 1, 0), (7, 4, 2, 2, 1), (3, 4, 2, 1, 0), (0, 5, 2, 2, 0)) + (() if q else ((5, 4, 2, 2, 0), (6, 4, 2, 1, 0), (4, 4, 2, 1, 0), (2, 4, 3, 2, 1), (2, 5, 2, 1, 0), (7, 4, 3, 2, 1))):
        out.append(J("dia", what="jk", am=am, primbas=pb, nnodes=nn, nel=nel, absm=ab, jtol=6))
    return out


def C23(tier):
    q = tier == "quick"
    out = []
    for am, pb, nn, x, mu in ((0, 4, 3, 30, 90), (2, 4, 3, 30, 20), (3, 5, 2, -70, 90), (5, 4, 4, 95, 40), (6, 4, 2, -10, 110)) + (() if q else ((4, 4, 5, 50, 20), (6, 5, 3, -95, 60), (7, 4, 3, 0, 100))):
        out.append(J("dia", what="eval", am=am, primbas=pb, nnodes=nn, xpct=x, mu0=mu, nel=2 if q else 3, stride=5 if q else 2))
    return out


def C31(tier):
    out = [J("dia", what="index", am=am, nel=1 + am % 3, nnodes=2 + am % 2, primbas=5 if am == 4 else 4, leg=am % 2, l0=am % 4, l1=max(am % 3, 1), l2=2 + am % 2) for am in range(8)]
    for am in (1, 2, 3, 5, 7):
        for y in (0, 1, 2, 3):
            out.append(J("dia", what="sinvh", am=am, sym=y, chol=1, nel=2))
            if y == 1:
                out.append(J("dia", what="sinvh", am=am, sym=y, chol=0, nel=2))
    return out


def C25(tier):
    q = tier == "quick"
    out = []
    X = lambda **k: out.append(J("xcd", nnodes=2, **k))
    # phi integrated analytically
    for x, c in ((1, 0), (2, 0), (3, 6), (4, 0), (5, 7), (0, 8)):
        for pol in (0, 1):
            X(pure=1, x=x, c=c, pol=pol, am=0 if x == 4 and pol else 4 if x < 3 else 5, nel=2 if x < 4 and pol == 0 else 1, mask=3 if q and pol == 0 and x in (0, 2) else 0, xp=int(x in (1, 3)), cp=int(c == 7))
    for x in (2, 4):
        X(pure=1, x=x, pol=1, beta=0, am=5, nel=1)
    for am, nel in ((2, 2), (6, 2), (7, 2), (8, 2), (9, 2)):
        for x in (2, 4):
            X(pure=1, x=x, pol=0, am=am, nel=nel, mask=3)
        X(pure=1, x=3, pol=1, am=am, nel=nel, mask=3)
    for x in (1, 2, 4):
        X(pure=1, x=x, pol=0, am=5, nel=2, absm=1, mask=3)
    # explicit phi
    for x, c in ((1, 0), (2, 0), (3, 6), (0, 8)):
        for pol in (0, 1):
            X(x=x, c=c, pol=pol, am=1, nel=2, nquad=2, mask=0 if not q or x == 1 else 4 if pol else 3, xp=int(x in (1, 3)))
    X(x=4, pol=0, am=0, nel=1)
    X(x=5, pol=1, am=0, nel=1)
    X(x=2, pol=1, beta=0, am=1, nel=1)
    X(x=3, pol=1, beta=0, am=2, nel=2, nquad=2)
    X(x=3, pol=0, am=2, nel=2, nquad=2)
    X(x=2, c=7, pol=1, am=3, nel=2, nquad=2, cp=1, mask=5 if q else 2)
    return out


def C32(tier):
    q = tier == "quick"
    out = []
    S = lambda **k: out.append(J("sad", **k))
    for pb, nn, zd, zr, nel in ((4, 3, 0, 1, 2), (5, 2, 1, 1, 2), (4, 2, 0, 0, 3)):
        S(what="one", primbas=pb, nnodes=nn, zd=zd, zr=zr, nel=nel)
    S(what="one", geo=0)
    S(what="one", geo=0, inside=0)
    for pb, nn in ((4, 3), (4, 2)):
        S(what="sinvh", primbas=pb, nnodes=nn)
    for lmax, nel, nn in ((0, 2, 3), (1, 2, 3), (2, 2, 2), (3, 2, 2)):
        S(what="jk", lmax=lmax, nel=nel, nnodes=nn)
    S(what="jk", lmax=2, zero=1, nnodes=2)
    for lmax in (0, 1, 2):
        S(what="jk", kernel=1, lmax=lmax, nnodes=2)
        S(what="jk", kernel=2, lmax=lmax, nnodes=2, nquad=24, geo=0)
    return out


def C37(tier):
    q = tier == "quick"
    out = []
    S = lambda **k: out.append(J("sad", geo=0, **k))
    for pb, nn, nel, zr, zd in ((4, 3, 2, 1, 0), (4, 2, 3, 0, 0), (5, 3, 2, 1, 1)):
        for c in (0, 1):
            S(what="dens", scr=0, primbas=pb, nnodes=nn, nel=nel, zr=zr, zd=zd, cache=c, nquad=5, lmax=2 if c else 0, stride=2)
        S(what="dens", primbas=pb, nnodes=nn, nel=nel, zr=zr, zd=zd, nquad=24, lmax=0, stride=7)
    S(what="dens", cache=1, cdf=0, clf=0, scr=0, nquad=5, lmax=1, stride=4)
    S(what="dens", cache=1, cdf=1, clf=0, scr=0, nquad=5, nel=1, lmax=1, stride=1)
    S(what="nao", lmax=1, nnodes=3)
    return out


def C38(tier):
    q = tier == "quick"
    out = []
    S = lambda **k: out.append(J("sad", geo=0, nquad=3, **k))
    for x, c in ((1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (0, 7), (1, 7), (8, 6), (3, 7), (4, 6), (5, 8)):
        for pol in (0, 1):
            S(what="xc", x=x, c=c, pol=pol, lmax=1, nnodes=2, xp=int(x in (1, 3)), cp=int(c == 7))
    for x in (2, 4):
        S(what="xc", x=x, pol=1, beta=0, lmax=1, nnodes=2)
    for x in (3, 4):
        S(what="xc", x=x, pol=1, lmax=2, nnodes=2, nel=2)
    return out


def C39(tier):
    q = tier == "quick"
    out = []
    S = lambda **k: out.append(J("sad", **dict(dict(geo=0, nel=3, primbas=4, nnodes=4, zr=1, nquad=8), **k)))
    for lo, hi in ((10, 100), (100, 300), (300, 1000), (10, 30)):
        S(what="vdw", tlo=lo, thi=hi, acce=2 if q else 3)
        S(what="vdw", tlo=lo, thi=hi, acce=2 if q else 3, nquad=4)
        S(what="count", tlo=lo, thi=hi * 10, acce=2 if q else 3)
    S(what="vdw", tlo=115, thi=121, acce=3, nquad=4)
    S(what="count", tlo=9000, thi=12000, acce=2)
    S(what="max")
    return out


def C40(tier):
    q = tier == "quick"
    out = []
    A = lambda **k: out.append(J("scfa", **k))
    A(nnodes=3, k0=1, k1=0)
    A(nnodes=3, k0=0, k1=1, spin=1, act=2)
    A(nnodes=3, symm=0, k0=0, k1=0, act=2)
    A(nnodes=3, symm=2, k0=2, k1=0, act=2, spin=1)
    A(nnodes=3, restr=1, k0=1, k1=0, act=2)
    A(nnodes=3, restr=1, na=1, nb=1, Bz=1, k0=1, k1=1, act=1)
    A(nnodes=2, Ez=1, Qzz=1, Bz=1, symm=2, k0=1, k1=0, act=2)
    A(nnodes=2, Ez=1, symm=2, k0=1, k1=0, act=2)
    A(nnodes=2, Qzz=1, symm=2, k0=1, k1=0, act=2)
    A(nnodes=2, Bz=1, symm=2, k0=1, k1=0, act=2, spin=1)
    A(nnodes=2, Bz=1, restr=1, k0=1, k1=0, act=2)
    A(nnodes=2, Zl=1, Zr=2, symm=2, k0=1, k1=0, act=2)
    A(nnodes=2, Zl=1, Zr=2, symm=2, Ez=1, Qzz=1, k0=1, k1=0, act=2)
    A(nnodes=2, iconf=1, k0=1, k1=0, act=2)
    A(nnodes=2, iconf=3, finite=1, restr=1, k0=1, k1=0, act=2)
    A(nnodes=2, x=1, c=6, method="1-6", kf=0, k0=1, k1=0, act=1)
    A(nnodes=2, x=1, c=0, method="1", kf=0, restr=1, k0=1, k1=0, act=1)
    A(nnodes=2, nela=1, nelb=0, k0=1, k1=0, act=2)
    A(nnodes=2, x=1, c=0, method="1", kf=0, nela=1, nelb=0, k0=1, k1=0, act=1)
    A(nnodes=2, x=9, c=0, method="9", hyb=1, k0=1, k1=0, act=1)
    A(nnodes=2, x=10, c=6, method="10-6", hyb=3, k0=1, k1=0, act=1, spin=1)
    A(nnodes=2, x=10, c=0, method="10", hyb=2, restr=1, k0=1, k1=0, act=1)
    A(nnodes=2, x=11, c=0, method="11", hyb=3, yuk=1, k0=1, k1=0, act=1)
    B = lambda **k: out.append(J("scfs", **k))
    B(x=-1, k0=1, k1=0, act=2)
    B(x=-1, k0=0, k1=1, spin=1, act=2)
    B(x=-1, restr=1, k0=1, k1=0, act=2)
    B(x=-1, lmax=2, k0=2, k1=1, act=2, freeze=1)
    B(x=-1, restr=1, freeze=1, iconf=1, iguess=1, k0=1, k1=0, act=1)
    B(x=0, finite=1, iguess=2, k0=1, k1=0, act=2)
    B(x=0, iguess=3, nela=2, nelb=0, k0=1, k1=0, act=2)
    B(x=-1, iguess=4, nela=2, nelb=0, k0=1, k1=0, act=2)
    B(x=1, c=6, k0=1, k1=0, act=1)
    B(x=1, c=6, restr=1, k0=1, k1=0, act=1)
    B(x=1, nela=2, nelb=0, k0=1, k1=0, act=1)
    B(x=9, hyb=1, k0=1, k1=0, act=1)
    B(x=10, hyb=3, restr=1, k0=1, k1=0, act=1)
    B(x=11, hyb=2, yuk=1, k0=1, k1=0, act=1, spin=1)
    D = lambda **k: out.append(J("scfd", **k))
    D(k0=1, k1=0, act=2)
    D(symm=3, k0=1, k1=0, act=2)
    D(symm=3, Bz=1, k0=1, k1=0, act=2)
    D(symm=1, Bz=1, k0=1, k1=0, act=2, spin=1)
    D(symm=1, Bz=1, restr=1, k0=1, k1=0, act=2)
    D(symm=2, Ez=1, Qzz=1, k0=1, k1=0, act=2)
    D(symm=0, k0=0, k1=0, act=2)
    D(symm=2, Z1=1, k0=2, k1=3, act=2)
    D(symm=3, restr=1, nela=1, nelb=1, k0=1, k1=0, act=2)
    D(symm=1, finite=1, k0=1, k1=0, act=2)
    D(symm=1, lmax="1", mmax=1, k0=1, k1=0, act=2)
    D(x=1, c=6, method="1-6", kf=0, k0=1, k1=0, act=1)
    D(x=1, c=6, method="1-6", kf=0, k0=1, k1=0, act=1, purem=0)
    D(x=1, c=0, method="1", kf=0, symm=3, restr=1, k0=1, k1=0, act=1)
    D(x=9, c=0, method="9", hyb=1, k0=1, k1=0, act=1)
    D(x=9, c=0, method="9", hyb=1, symm=3, restr=1, k0=1, k1=0, act=1)
    D(x=1, c=0, method="1", kf=0, symm=0, k0=0, k1=0, act=1)
    D(symm=2, Z1=1, Bz=1, k0=1, k1=0, act=1); D(symm=2, Z1=1, Ez=1, k0=1, k1=0, act=1); D(symm=2, Z1=1, Qzz=1, k0=1, k1=0, act=1)
    return out


def C41(tier):
    q = tier == "quick"; out = []
    A = lambda **k: out.append(J("scfa", what="occ", method="1", lim=dict(paths=400), **k))
    A(nela=2, nelb=1, symm=1)
    A(nela=1, nelb=1, symm=1, restr=1)
    A(nela=1, nelb=1, symm=2, rows=2, cap=1, mlo=-1, mhi=1)
    D = lambda **k: out.append(J("scfd", what="occ", method="1", lim=dict(paths=400), **k))
    D(nela=2, nelb=1, symm=1)
    D(nela=1, nelb=1, symm=1, restr=1)
    D(nela=1, nelb=1, Z1=1, symm=2, rows=2, cap=1, mlo=-1, mhi=1)
    B = lambda **k: out.append(J("book", lim=dict(paths=2000, time=200), **k))
    B(what="elec")
    B(what="elec", explicit=1)
    B(what="meta", nsym=3, npt=2)
    B(what="meta", nsym=2, npt=1)
    return out


def C42(tier):
    q = tier == "quick"; out = []
    D = lambda **k: out.append(J("scfd", what="load", **k))
    D(lmax="0,1", nela=1, nelb=1, symm=3)
    D(lmax="0,1", nela=1, nelb=1, symm=1)
    D(lmax="0,1", nela=1, nelb=0, symm=3)
    D(lmax="0,1", nela=2, nelb=2, restr=1, symm=3)
    D(lmax="0,1", nela=1, nelb=1, restr=0, symm=3)
    D(lmax="0,1", nela=1, nelb=1, symm=1, nb0=0)
    D(lmax="1,1", lmaxo="0,1", nela=1, nelb=0, symm=1, two=0)
    D(lmax="0,1", nnodes=4, nnodeso=3, nela=1, nelb=0, symm=1, two=0)
    D(lmax="0,1", nnodes=3, nnodeso=4, nela=1, nelb=0, symm=1, two=0, contain=0)
    B = lambda **k: out.append(J("scfs", what="load", **k))
    B()
    B(restr=1)
    B(lmax=2, lmaxo=1)
    B(lmax=1, lmaxo=2, contain=0)
    B(nnodes=3, nnodeso=2, nel=2, two=0)
    B(nnodes=2, nnodeso=3, two=0, contain=0)
    A = lambda **k: out.append(J("scfa", what="load", **k))
    A(nela=1, nelb=1, symm=1)
    A(nela=1, nelb=0, symm=2)
    A(nela=2, nelb=1, restr=1, symm=2)
    A(nela=1, nelb=1, symm=1, na0=2)
    A(nnodes=4, nnodeso=3, nela=1, nelb=0, symm=1, two=0)
    A(nnodes=3, nnodeso=4, nela=1, nelb=0, symm=2, two=0, contain=0)
    return out


def C43(tier):
    q = tier == "quick"; out = []
    B = lambda **k: out.append(J("book", lim=dict(paths=1000, time=200), **k))
    for w in ("class", "kind", "range", "parse"):
        B(what=w)
    for lo in range(1, 118, 20):
        B(what="getz", lo=lo, hi=min(lo + 19, 118)); B(what="orbs", lo=lo - (lo == 1), hi=min(lo + 19, 118))
    return out


def C44(tier):
    q = tier == "quick"; out = []
    B = lambda **k: out.append(J("book", **k))
    for n in ((1, 2, 3) if q else (1, 2, 3, 4)):
        for chol in (0, 1):
            B(what="invh", n=n, chol=chol)
    for dsc in (-3, 3):
        B(what="eig", n1=1, n2=1, n3=1, dsc=dsc); B(what="invh", n=2, chol=dsc > 0, dsc=dsc)
    B(what="eig", n1=1, n2=1, n3=1)
    B(what="eig", n1=2, n2=1, n3=1)
    B(what="eig", n1=2, n2=2, n3=0, chol=1)
    B(what="eig", sub=0, n1=2, n2=1, n3=0)
    B(what="eig", sub=0, n1=2, n2=0, n3=0, chol=1)
    return out


def C45(tier):
    q = tier == "quick"; out = []
    for l in ((0, 1, 2, 3) if q else range(7)):
        out.append(J("book", what="lcao", l=l))
    N = lambda **k: out.append(J("nao", **k))
    N(nnodes=3); N(primbas=8, nnodes=2, f2=0); N(nnodes=4, na=3)
    for k in ((0, 1, 2) if q else (0, 1, 2, 3)):
        N(one=0, two=1, k=k, nnodes=3, nel=2)
        N(one=0, two=1, yuk=1, k=k, nnodes=3, nel=2)
    N(one=0, two=1, k=1, nnodes=3, nel=3, na=1, nb=2)
    for gto in (0, 1):
        N(what="prim", gto=gto, acc=5, lim=dict(paths=8, time=20))
        N(what="prim", gto=gto, nelem=8, nnodes=7, exact=1)
        N(what="prim", gto=gto, zr=1, acc=5, lim=dict(paths=8, time=20))
    N(what="prim", gto=1, n0=1, nf=1)
    N(what="prim", gto=0, n0=2, nf=1)
    N(what="bad")
    return out


def C46(tier):
    q = tier == "quick"; out = []
    T = lambda **k: out.append(J("tq", **k))
    for am in ((1, 2, 4) if q else (0, 1, 2, 3, 4)):
        T(what="pot", am=am)
    for l, m in (((0, 0), (1, 0), (1, 1), (1, -1), (2, 0), (2, 2), (2, -1)) if q else ((0, 0), (1, 0), (1, 1), (1, -1), (2, 0), (2, 1), (2, -1), (2, 2), (2, -2), (3, 1), (3, -2))):
        T(what="proj", l=l, m=m)
    T(what="atoms", rsym=0, lang=6, nquad=5); T(what="atoms", rsym=0, lang=6, nquad=5, oc=1)
    T(what="occ", am=0, nel=1, nnodes=2, nquad=4, lim=dict(paths=130, time=200))
    return out


def C47(tier):
    q = tier == "quick"; out = []
    C = lambda **k: out.append(J("chk", lim=dict(paths=4000, time=300, maxbr=(2500 if q else 40000)), **k))
    for k1 in range(12):
        for k2 in (((k1 + 5) % 12,) if q else range(12)):
            C(what="hist", k1=k1, k2=k2)
    C(what="layout")
    C(what="basis", dia=0)
    C(what="basis", dia=1)
    return out


def C48(tier):
    q = tier == "quick"; out = []
    C = lambda **k: out.append(J("cmd", lim=dict(paths=40000, time=600, maxbr=200000), **k))
    C(what="parse", n=1); C(what="parse", n=1, need=1); C(what="parse", n=1, need=2); C(what="parse", n=0, need=1)
    for lo in range(0, 41, 6): C(what="parse", n=2, lo=lo, p0=min(6, 41 - lo))
    C(what="parse", n=2, need=1, pool=12); C(what="parse", n=2, form=1, pool=12, need=2)
    for off in ((0, 16) if q else (0, 8, 16, 24, 32)):
        C(what="parse", n=3, pool=9 if q else 16, off=off)
    C(what="words", n=1 if q else 2); C(what="api"); C(what="pars", n=2 if q else 3)
    for n in range(1, 11):
        out.append(J("cmd", what="range", n=n, lim=dict(paths=100 if q else 3000, maxbr=100000)))
    return out


def C49(tier):
    q = tier == "quick"; out = []
    A = lambda **k: out.append(J("scfa", lim=dict(paths=200), **k)); D = lambda **k: out.append(J("scfd", lim=dict(paths=200), **k))
    for ig in (1, 2, 3, 4):
        A(nnodes=2, Bz=1, symm=2, iguess=ig, k0=1, k1=0, act=1)
        D(Z1=3, Ez=1, iguess=ig, k0=1, k1=0, act=1)
    for ig in () if q else (1, 2, 3, 4):
        A(nnodes=3, Ez=1, Qzz=1, symm=2, iguess=ig, k0=1, k1=0, act=1); A(nnodes=2, restr=1, iguess=ig, iconf=1, k0=1, k1=0, act=1)
        D(Z1=3, Bz=1, symm=3, iguess=ig, k0=1, k1=0, act=1); D(Z1=2, Z2=3, restr=1, nela=2, nelb=2, iguess=ig, k0=1, k1=0, act=1)
    A(nnodes=2, Zl=1, Zr=2, angstrom=1, k0=1, k1=0, act=1); D(angstrom=1, k0=1, k1=0, act=1)
    for c in ("nquad", "iguess", "offc"):
        A(what="setup", case=c, method="HF")
    for c in ("nquad", "iguess", "purem"):
        D(what="setup", case=c)
    D(what="setup", case="rs", x=10, hyb=0, method="10"); 
    return out


def C50(tier):
    q = tier == "quick"; out = []
    G = lambda **k: out.append(J("gensap", lim=dict(paths=2000, time=300, maxbr=20000), **k))
    for g, ic, add in ((4, 0, 1), (1, 1, 1), (4, 2, 0)):
        G(what="opts", grid=g, iconf=ic, add=add)
    for R in (0, 1):
        for n in (1, 2, 3):
            G(what="occs", restr=R, n=n)
        G(what="table", restr=R, x=1, c=6); G(what="table", restr=R, x=1, c=0, lmax=0, orb=1); G(what="table", restr=R, none=1, orb=1)
        G(what="prof", restr=R)
    G(what="occs", restr=0, n=4, pool=4); G(what="refuse")
    for l in (0, 1, 2):
        G(what="occs", lmax=2, restr=0, n=3, hund=l)
    return out




def C51(tier):
    q = tier == "quick"
    out = []
    for am, xy in ((2, 0), (2, 1), (3, 2), (1, 3)) if q else [(a, x) for a in range(4) for x in range(5)]:
        out.append(J("ana", what="line", am=am, xy=xy))
    out.append(J("ana", what="line", am=2, xy=0, zr=50, zh=50, Nz=41 if q else 101, rh=105))   # on the bond axis, program defaults
    for am, na, nb in ((2, 2, 1), (1, 1, 0)) if q else ((2, 2, 1), (1, 1, 0), (3, 2, 2), (0, 1, 1)):
        out.append(J("ana", what="grid", am=am, na=na, nb=nb, **(dict(nquad=3, lang=2, step=2, maxc=4) if q and am == 2 else {})))
    for am, sto, oc in ((1, 0, 0), (2, 1, 0), (1, 0, 1)) if q else [(a, s, o) for a in (0, 1, 2) for s in (0, 1) for o in (0, 1)]:
        out.append(J("ana", what="cpl", am=am, sto=sto, oc=oc))
    return out


def C52(tier):
    q = tier == "quick"
    out = []
    for g, pb, nn in ((1, 4, 3), (4, 5, 2)) if q else [(g, pb, nn) for g in (1, 2, 4) for pb, nn in ((4, 3), (4, 5), (5, 2), (8, 2))]:
        out.append(J("one", what="atom1", grid=g, primbas=pb, nnodes=nn))
    for ang, mode, nq in ((0, 0, 0), (1, 1, 12), (0, 0, 3)):
        out.append(J("one", what="dia1", ang=ang, mode=mode, nq=nq))
    for soft, deu, ab in ((0, 0, 0), (0, 1, 0), (1, 0, 0), (1, 0, 1)):
        out.append(J("one", what="model", soft=soft, deu=deu, abs=ab))
    out.append(J("one", what="model", nel=2, nnodes=2)); out.append(J("one", what="model", soft=1, primbas=5, nnodes=3))
    return out


def C53(tier):
    q = tier == "quick"
    lim = dict(paths=400 if q else 4000, maxbr=400, time=90 if q else 900)
    def c(**k):
        return J("one", what="core", lim=lim, **k)
    out = [c(thresh=1, nl1=2), c(thresh=0, fld=1), c(thresh=0, imodel=1), c(thresh=0, imodel=2), c(thresh=0, imodel=3), c(thresh=0, imodel=6), c(thresh=0, nq=3), c(thresh=0, nq=4), c(thresh=0, Z1=5, ang=1, nn=3), c(thresh=0, Z1=5, ne1=0, nadd=1, nn=3)]
    if not q:
        out += [c(thresh=2, nl1=2, ne1=2), c(thresh=1, Z1=5, nn=3, nl1=2), c(thresh=0, Z1=21, Z2=5, nn=3), c(thresh=0, Z1=58, nn=3, ne1=0), c(thresh=1, nadd=1, nl1=2, ne1=2)] + [c(thresh=0, imodel=i, fld=1) for i in (4, 5, 7)]
    return out


PROPS = {k: v for k, v in sorted(globals().items()) if __import__("re").fullmatch(r"C\d\d", k)}
