#pragma once
#include <vector>
struct XcTerm { double c; int e[5]; };  // c * na^e0 nb^e1 saa^e2 sab^e3 sbb^e4
// stand-in functionals: 1 LDA, 2 and 3 GGA, 4 meta-GGA
std::vector<XcTerm> &xc_terms(int id);
// derivative of the energy density with respect to variables a and b (-1: none)
double xc_deriv(int id, const double *v, int a, int b);
// the stand-in table (3 charges, two 3-node elements, 3 basis functions)
namespace helfem { namespace atomdb { namespace tab {
double *bval(); double *occ(); double *coef(); int norb(int Z, int l); int offset(int Z, int l);
}}}
