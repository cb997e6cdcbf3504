FE="libhelfem/src/PolynomialBasis.cpp libhelfem/src/helfem.cpp libhelfem/src/FiniteElementBasis.cpp".split()
GR="libhelfem/src/grid.cpp libhelfem/src/helfem.cpp src/atomic/basis.cpp".split()
seeds=[
dict(id="grid-conf",prop="C05",srcs=GR,needs="a confined grid whose confinement radius lies below the first interior boundary",breaks="the added confinement boundary is dropped inside the first element",
 edits=[("src/atomic/basis.cpp","	    if (bval(i) == shift_conf)\n","	    if (bval(i) == shift_conf || (i == 1 && bval(i) > shift_conf))\n")],
 demo='''#include "atomic/basis.h"
#include <cstdio>
using namespace helfem;
int main(){ auto b=atomic::basis::form_grid(modelpotential::POINT_NUCLEUS,0.0,3,30.0,1,2.0,0,1,2.0,1,0,0,0.0,true,4.0);
 for(int i=0;i<b.size();i++) if(b(i)==4.0) return 0; return 1; }
'''),
dict(id="hip-dropfirst",prop="C02",srcs=FE,needs="a Hermite basis with only the derivative removed at the left end",breaks="the value function is removed instead of the derivative function",
 edits=[("libhelfem/include/HIPBasis.h","      new_enabled(0) = this->enabled(0);","      new_enabled(0) = this->enabled(1);")],
 demo='''#include <PolynomialBasis.h>
#include <cstdio>
#include <cmath>
using namespace helfem;
int main(){ auto p=polynomial_basis::get_basis(5,3); p->drop_first(false,true); helfem::Vec<double> x(1); x<<-1.0; helfem::Mat<double> m=p->eval_dnf(x,0,2.0);
 double s=0; for(int i=0;i<m.cols();i++) s+=m(0,i); printf("%g",s); return std::fabs(s-1)<1e-8?0:1; }
'''),
dict(id="fe-insert",prop="C04",srcs=FE,needs="refining the outermost element of a basis",breaks="a boundary inserted into the last element is placed before that element's left end, so the boundaries are no longer sorted",
 edits=[("libhelfem/src/FiniteElementBasis.cpp","""      newbval.head(bval.size()) = bval;
      newbval(bval.size()) = r;
      std::sort(newbval.data(), newbval.data() + newbval.size());
""","""      Eigen::Index pos = 0;
      while (pos + 2 < bval.size() && bval(pos) < r)
        ++pos;
      newbval.head(pos) = bval.head(pos);
      newbval(pos) = r;
      newbval.tail(bval.size() - pos) = bval.tail(bval.size() - pos);
""")],
 demo='''#include <FiniteElementBasis.h>
#include <cstdio>
using namespace helfem;
int main(){ std::shared_ptr<const polynomial_basis::PolynomialBasisT<double>> p(polynomial_basis::get_basis(4,3));
 for(double r=0.5;r<4;r+=1){ helfem::Vec<double> b(5); b<<0,1,2,3,4; polynomial_basis::FiniteElementBasisT<double> fe(p,b,false,false,false,false);
  fe.add_boundary(r); auto c=fe.get_bval(); for(int i=0;i+1<c.size();i++) if(!(c(i)<c(i+1))) return 1; } return 0; }
'''),
]
