exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("sys").argv[1]),"b.py")).read().split("seeds=[")[0])
seeds=[
dict(id="xov-partial",prop="C27",srcs=RB,needs="two bases whose elements overlap only partially (neither contains the other)",breaks="integrals between two bases lose the pairs of elements where the second one begins inside the first and ends beyond it",
 edits=[("libhelfem/src/RadialBasis.cpp","            if ((jstart >= istart && jstart < iend) ||","            if ((jstart >= istart && jend <= iend) ||")],
 demo=HDR+'''int main(){ V b(3), c(4); b<<0,1,3; c<<0,0.6,1.7,3; auto r=rad(b), s=rad(c); M x=r.overlap(s), y=s.overlap(r); if((x-y.transpose()).cwiseAbs().maxCoeff()>1e-9) return 1; M z=r.overlap(r), w=r.overlap(); return (z-w).cwiseAbs().maxCoeff()<1e-9?0:1; }
'''),
dict(id="cmd-eq",prop="C48",srcs=[],needs="a value that itself contains an equals sign, given in the --name=value form",breaks="the option name is taken up to the last equals sign, so the option is unknown and its value lost",
 edits=[("src/general/cmdline.h","const char *p=strchr(argv[i]+2, '=');","const char *p=strrchr(argv[i]+2, '=');")],
 demo='''#include <cmdline.h>
int main(){ cmdline::parser p; p.add<std::string>("save",0,"",false,"x"); const char *a[]={"prog","--save=a=b"}; if(!p.parse(2,a)) return 1; return p.get<std::string>("save")=="a=b"?0:1; }
'''),
dict(id="eig-snrm",prop="C44",srcs=["src/general/scf_helpers.cpp","libhelfem/src/utils.cpp","libhelfem/src/helfem.cpp"],needs="symmetry blocks and basis functions of large norm, so that orthonormalised functions have small coefficients",breaks="orthonormal combinations with small coefficients are dropped from their symmetry block, so eigenpairs are missing",
 edits=[("src/general/scf_helpers.cpp","if (Snrm(j) != 0.0) Sind.push_back(j);","if (Snrm(j) > 1e-2) Sind.push_back(j);")],
 demo='''#include <scf_helpers.h>
#include <cstdio>
int main(){ using namespace helfem; Matrix F(2,2), X(2,2); F<<3e6,0,0,2e6; X<<1e-3,0,0,1e-3; std::vector<std::vector<Eigen::Index>> b={{0},{1}}; Vector E; Matrix C; scf::eig_gsym_sub(E,C,F,X,b,false); printf("%g %g\\n",E(0),E(1)); return std::abs(E(0)-2)<1e-9&&std::abs(E(1)-3)<1e-9?0:1; }
'''),
dict(id="gsz-z1",prop="C13",srcs=["src/general/gsz.cpp","libhelfem/src/helfem.cpp"],needs="a tabulated list of radii with given parameters and a fractional charge",breaks="the list form truncates the nuclear charge to an integer",
 edits=[("src/general/gsz.cpp","        Zv(i)=Z_GSZ(r(i),Z,d_Z,H_Z);","        Zv(i)=Z_GSZ(r(i),(int) Z,d_Z,H_Z);")],
 demo='''#include <gsz.h>
#include <cmath>
int main(){ using namespace helfem; Vector r(2); r<<0.3,1.2; Vector v=GSZ::Z_GSZ(r,2.5,0.4,0.6); for(int i=0;i<2;i++) if(std::abs(v(i)-GSZ::Z_GSZ(r(i),2.5,0.4,0.6))>1e-12) return 1; return 0; }
'''),
]
