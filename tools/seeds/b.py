PB="libhelfem/src/PolynomialBasis.cpp libhelfem/src/helfem.cpp libhelfem/src/FiniteElementBasis.cpp".split()
RB=PB+"libhelfem/src/RadialBasis.cpp libhelfem/src/quadrature.cpp libhelfem/src/erfc_expn.cpp libhelfem/src/utils.cpp libhelfem/src/RadialPotential.cpp libhelfem/src/ModelPotential.cpp".split()
HDR='''#include <RadialBasis.h>
#include <PolynomialBasis.h>
#include <FiniteElementBasis.h>
#include <cmath>
#include <cstdio>
using namespace helfem;
typedef helfem::Mat<double> M; typedef helfem::Vec<double> V;
static atomic::basis::FEMRadialBasis rad(V b,int nn=5,int pb=4){ std::shared_ptr<const polynomial_basis::PolynomialBasisT<double>> p(polynomial_basis::get_basis(pb,nn)); polynomial_basis::FiniteElementBasis fe(p,b,true,false,true,true); return atomic::basis::FEMRadialBasis(fe,40); }
'''
seeds=[
dict(id="cholpiv",prop="C29",srcs=RB,needs="a pivot order that is not increasing (always the case for three or more primitives) and a tight tolerance",breaks="residual diagonals left of the pivot are never updated, so the factor takes spurious columns and its product differs from the integrals",
 edits=[("libhelfem/src/RadialBasis.cpp","            if (!done[i]) D(i) -= col(i) * col(i);","            if (i > pivot && !done[i]) D(i) -= col(i) * col(i);")],
 demo=HDR+'''int main(){ V b(3); b<<0,1,3; auto r=rad(b); for(int L=0;L<3;L++) for(int e=0;e<2;e++){ M T=r.twoe_integral(L,e), C=r.twoe_integral_cholesky(L,e); double d=(C*C.transpose()-T).cwiseAbs().maxCoeff(); if(!(d<1e-8)){ printf("%d %d %g\\n",L,e,d); return 1; } } return 0; }
'''),
dict(id="junq-rc",prop="C24",srcs=RB,needs="the Junquera confinement on a basis with more than one element",breaks="the confining potential diverges at the end of the element rather than at the end of the grid",
 edits=[("libhelfem/src/RadialBasis.cpp","return junq_confinement(iel, N, V, get_bval().maxCoeff(), shift_pot);","return junq_confinement(iel, N, V, fem.element_end(iel), shift_pot);")],
 demo=HDR+'''int main(){ V b(4); b<<0,1,2,4; auto r=rad(b); M a=r.confinement_potential(1,2,1.0,4,1.5,0.5), c=r.junq_confinement(1,2,1.5,4.0,0.5); double d=(a-c).cwiseAbs().maxCoeff(); printf("%g\\n",d); return d<1e-10?0:1; }
'''),
dict(id="xtei-dims",prop="C11",srcs=["libhelfem/src/utils.cpp","libhelfem/src/helfem.cpp"],needs="integrals over four blocks of unequal sizes",breaks="the exchange ordering of the integrals is scrambled when the first two blocks differ in size",
 edits=[("libhelfem/src/utils.cpp","ktei(kk*Nj+jj, ll*Ni+ii) = tei(jj*Ni+ii, ll*Nk+kk);","ktei(jj*Nk+kk, ll*Ni+ii) = tei(jj*Ni+ii, ll*Nk+kk);")],
 demo='''#include <utils.h>
#include <cstdio>
using namespace helfem;
int main(){ size_t d[4]={2,3,4,2}; helfem::Mat<double> t(d[0]*d[1],d[2]*d[3]); for(size_t i=0;i<d[0];i++)for(size_t j=0;j<d[1];j++)for(size_t k=0;k<d[2];k++)for(size_t l=0;l<d[3];l++) t(j*d[0]+i,l*d[2]+k)=1000*i+100*j+10*k+l;
 auto x=utils::exchange_tei<double>(t,d[0],d[1],d[2],d[3]); for(size_t i=0;i<d[0];i++)for(size_t j=0;j<d[1];j++)for(size_t k=0;k<d[2];k++)for(size_t l=0;l<d[3];l++) if(x(k*d[1]+j,l*d[0]+i)!=1000*i+100*j+10*k+l) return 1; return 0; }
'''),
dict(id="invh-chol",prop="C44",srcs=["libhelfem/src/utils.cpp","libhelfem/src/helfem.cpp"],needs="Cholesky orthonormalization of functions that are not normalized",breaks="the normalization is applied on the wrong side, so the orthonormalized functions are neither orthogonal nor normalized",
 edits=[("libhelfem/src/utils.cpp","        Sinvh = U.inverse();\n","        Sinvh = U.inverse() * bfnormlz.asDiagonal();\n        return Sinvh;\n")],
 demo='''#include <utils.h>
#include "general/scf_helpers.h"
#include <cstdio>
using namespace helfem;
int main(){ helfem::Mat<double> S(3,3); S<<4,1,0.5,1,2,0.3,0.5,0.3,9; for(int c=0;c<2;c++){ auto X=utils::invh<double>(S,c); double d=(X.transpose()*S*X-helfem::Mat<double>::Identity(3,3)).cwiseAbs().maxCoeff(); if(!(d<1e-10)){ printf("%d %g\\n",c,d); return 1; } } return 0; }
'''),
dict(id="erfc-order",prop="C33",srcs=["libhelfem/src/erfc_expn.cpp"],needs="a moderately small second argument with the first one larger, in the general branch, at angular momentum of at least two",breaks="one term of the short-range expansion sum uses the wrong power ratio",
 edits=[("libhelfem/src/erfc_expn.cpp","sum += Fnarr[n-m]*((Xim*Xim + xim*xim)/(Xim*xim));","sum += Fnarr[n-m]*((Xim*Xim + xim*xim)/(Xim*(m>1 ? Xim : xim)));")],
 demo='''#include <erfc_expn.h>
#include <cmath>
#include <cstdio>
int main(){ // compare with numerical Legendre projection of erfc(|r-r'|)/|r-r'|
 double X=1.1,x=0.7; for(int n=0;n<5;n++){ int N=20000; double s=0; for(int i=0;i<N;i++){ double c=-1+(i+0.5)*2.0/N, d=std::sqrt(X*X+x*x-2*X*x*c); s+=std::legendre(n,c)*std::erfc(d)/d*2.0/N; } s*=(2*n+1)/2.0; double p=helfem::erfc_expn::Phi<double>(n,X,x); if(std::fabs(s-p)>1e-6*(1+std::fabs(s))){ printf("%d %g %g\\n",n,s,p); return 1; } } return 0; }
'''),
dict(id="sto-extent",prop="C45",srcs=RB,needs="a contracted function whose most diffuse primitive is not the first one",breaks="the grid ends where the first primitive of each function dies, cutting off the diffuse ones",
 edits=[("libhelfemqc/include/STO.h","""        for (const auto & c : basis)
          for (const auto & p : c.primitives)
            r_max = std::max(r_max, detail_sto::primitive_r_extent(p, tol));
""","""        for (const auto & c : basis)
          r_max = std::max(r_max, detail_sto::primitive_r_extent(c.primitives.front(), tol));
""")],
 demo='''#include <STO.h>
#include <cmath>
#include <cstdio>
using namespace helfem; using namespace helfem::atomic::basis;
int main(){ STOContracted c; c.primitives={{1,3.0},{1,0.5}}; c.contraction=helfem::Vector(2); c.contraction<<0.3,0.8; auto n=make_nao_sto({c}); double S=n.overlap()(0,0); double o=2*0.3*0.8*8*std::pow(1.5,1.5)/std::pow(3.5,3)+0.09+0.64; printf("%.12g %.12g\\n",S,o); return std::fabs(S-o)<1e-8?0:1; }
'''),
dict(id="elem-shell",prop="C43",srcs=["src/general/elements.cpp","libhelfem/src/utils.cpp","libhelfem/src/helfem.cpp"],needs="a molecule with a lanthanum-group atom",breaks="the f shell opened at Z=57 is counted as a d shell, so no phi orbitals are planned for",
 edits=[("src/general/elements.cpp","{0, 0, 1,  0,  1,  0,  2,  1,  0,  2,  1,  0,  3,  2,","{0, 0, 1,  0,  1,  0,  2,  1,  0,  2,  1,  0,  2,  3,")],
 demo='''#include "general/elements.h"
#include <cstdio>
int main(){ int s,p,d,f; num_orbs(60,0,s,p,d,f); printf("%d %d %d %d\\n",s,p,d,f); return f==1?0:1; }
'''),
dict(id="spher-in",prop="C12",srcs=["libhelfemqc/src/SphericalNucleus.cpp","libhelfem/src/ModelPotential.cpp"],needs="a radius just outside a uniformly charged nucleus of less than unit radius",breaks="the interior formula is used outside the ball",
 edits=[("libhelfemqc/src/SphericalNucleus.cpp","      if(r>=R0) {","      if(r*r>=R0) {")],
 demo='''#include <SphericalNucleus.h>
#include <cmath>
#include <cstdio>
int main(){ helfem::modelpotential::SphericalNucleusT<double> n(20,0.5); double R=n.get_R0(); for(int i=1;i<40;i++){ double r=R*i/20.0; double v=r>=R?-20/r:-20*(3*R*R-r*r)/(2*R*R*R); if(std::fabs(n.V(r)-v)>1e-9*std::fabs(v)){ printf("%g %g %g\\n",r,n.V(r),v); return 1; } } return 0; }
'''),
]
