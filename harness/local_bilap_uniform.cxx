// P22: BilaplacianUniform (unit hypercubes, unit coefficient), used many times without being rebuilt.
#include "local_bilap.hxx"
#include <HyperHDG/local_solver/bilaplacian_uniform_ldgh.hxx>
using namespace loc;
template <unsigned d, unsigned p>
static void run(pbt::Gen& g)
{
  typedef LocalSolver::BilaplacianUniform<d, p, 2 * p + 1, double> S;
  constexpr unsigned n1 = p + 1;
  typedef Bilap<d, d, n1> B;
  constexpr unsigned NB = B::NB, NF = B::NF;
  typedef typename B::L L;
  static_assert(S::n_glob_dofs_per_node() == 2 * NB && S::system_dimension() == d + 1 && S::hyEdge_dim() == d);
  const Geom<d, d> geo = unit_geom<d>();
  const double tau = gen_tau(g);
  const S s(tau);
  error_definition<S>(g);
  const Tab<d, d, n1> tab(geo);
  g.desc << "d=" << d << " p=" << p << " tau=" << tau;
  g.publish_desc();
  for (unsigned k = 0; k < 3; ++k)
  {
    const L lam = gen_lambda<NF, 2 * NB>(g);
    g.nontrivial(max_abs(lam) > 0);
    B m(tab, tau, one());
    m.rhs_lambda(lam, tau);
    const Vec x = m.own.solve();
    const double sc = 1 + 10 * vmax(x) + max_abs(lam) * tau;
    const auto fu = m.own.flux(x, B::Q0, B::U0, tau, B::tr(lam, 0)), fw = m.own.flux(x, B::P0, B::W0, tau, B::tr(lam, 1));
    L want, out = garbage(lam), res = garbage(lam);
    for (unsigned f = 0; f < NF; ++f)
      for (unsigned j = 0; j < NB; ++j)
        want[f][j] = fu[f][j], want[f][NB + j] = fw[f][j];
    CHECK(&s.trace_to_flux(lam, out) == &out, "the result is not the output argument");
    check_same(out, want, sc, "flux");
    s.residual_flux(lam, res);
    check_same(res, want, sc, "residual flux");
    const auto ab = abscissas<n1>();
    const auto v = s.bulk_values(ab, lam);
    std::vector<Vec> b;
    for (unsigned c = 0; c <= d; ++c)
    {
      b.push_back(interpolate<d, n1>(ab, v[c]).c);
      check_coeff(b[c], m.own.part(x, c * B::N), sc, "bulk values");
    }
    const auto ab2 = abscissas<n1 + 1>();
    check_resample<d, n1 + 1>(g, b, n1, ab2, s.bulk_values(ab2, lam), "bulk values at other abscissas");
  }
}
typedef void (*fn)(pbt::Gen&);
static const fn lo[] = {run<1, 0>, run<1, 1>, run<1, 2>, run<1, 3>, run<2, 0>, run<2, 1>, run<2, 2>, run<3, 1>};
FAMILY("BilaplacianUniform", 2000, 40000, "non-zero trace") { lo[g.index(8)](g); }
