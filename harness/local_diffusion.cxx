// P21: Diffusion (hybridised local discontinuous Galerkin).
#include "local_ldg.hxx"
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
namespace { LOC_PARAMS(Par) }
template <unsigned d, unsigned D, unsigned p>
static void run(pbt::Gen& g)
{
  loc::ldg_case<LocalSolver::Diffusion<d, p, 2 * p + 4, Par, double>, d, D, p, false, true, false, true>(g);
}
typedef void (*fn)(pbt::Gen&);
static const fn lo[] = {run<1, 1, 1>, run<1, 2, 5>, run<1, 2, 2>, run<1, 3, 0>, run<1, 3, 3>, run<2, 2, 0>, run<2, 2, 1>, run<2, 3, 1>};
static const fn hi[] = {run<2, 3, 2>, run<3, 3, 1>, run<3, 3, 0>};
FAMILY("Diffusion", 1500, 40000, "non-zero trace, right-hand side present, at least one face that is not Dirichlet") { lo[g.index(8)](g); }
FAMILY("Diffusion_large", 60, 2000, "non-zero trace, right-hand side present, at least one face that is not Dirichlet") { hi[g.index(3)](g); }
