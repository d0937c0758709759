// P21: DiffusionPostprocess.
#include "local_ldg.hxx"
#include <HyperHDG/local_solver/diffusion_ldgh_pp.hxx>
namespace { LOC_PARAMS(Par) }
template <unsigned d, unsigned D, unsigned p>
static void run(pbt::Gen& g)
{
  loc::ldg_case<LocalSolver::DiffusionPostprocess<d, p, 2 * p + 4, Par, double>, d, D, p, false, false, true, false>(g);
}
typedef void (*fn)(pbt::Gen&);
static const fn lo[] = {run<1, 1, 1>, run<1, 2, 2>, run<1, 3, 0>, run<2, 2, 0>, run<2, 2, 1>, run<2, 3, 1>};
FAMILY("DiffusionPostprocess", 600, 20000, "non-zero trace, right-hand side present, at least one face that is not Dirichlet") { lo[g.index(6)](g); }
