// P21: DiffusionUniform (unit hypercubes, unit coefficient), used many times without being rebuilt.
#include "local_ldg.hxx"
#include <HyperHDG/local_solver/diffusion_uniform_ldgh.hxx>
using namespace loc;
template <unsigned d, unsigned p, typename F>
static void run(pbt::Gen& g)
{
  typedef LocalSolver::DiffusionUniform<d, p, 2 * p + 1, F> S;
  constexpr unsigned n1 = p + 1, NB = Hypercube<d - 1>::pow(n1), NF = 2 * d;
  typedef std::array<std::array<F, NB>, NF> LF;
  typedef std::array<std::array<double, NB>, NF> L;
  static_assert(S::n_glob_dofs_per_node() == NB && S::system_dimension() == d + 1 && S::node_system_dimension() == 1 && S::hyEdge_dim() == d);
  const double tol = sizeof(F) == 4 ? 2e-4 : 1.;
  Geom<d, d> geo;
  geo.R = 0.;
  for (unsigned i = 0; i < d; ++i)
  {
    geo.R(i, i) = 1.;
    for (unsigned f = 0; f < 2 * d; ++f)
    {
      geo.ln[f][i] = i == f / 2 ? (f % 2 ? 1. : -1.) : 0.;
      geo.farea[f] = 1;
    }
    for (unsigned j = 0; j < d; ++j)
      geo.Q(i, j) = i == j;
    geo.a[i] = 0;
  }
  for (unsigned k = 0; k < N_FUN; ++k)
    fun(k) = Fun();
  fun(KINV).c = {1.};
  const F tau = (F)(g.chance(1, 4) ? 1. : g.positive(0.2, 6.));
  const S s(tau);
  error_definition<S>(g);
  const Tab<d, d, n1> tab(geo);
  const std::array<unsigned, NF> types{};
  g.desc << "d=" << d << " p=" << p << " tau=" << tau << (sizeof(F) == 4 ? " float" : " double");
  g.publish_desc();
  for (unsigned k = 0; k < 3; ++k)
  {
    const L lam = gen_lambda<NF, NB>(g);
    LF lf, out, res;
    for (unsigned f = 0; f < NF; ++f)
      for (unsigned j = 0; j < NB; ++j)
        lf[f][j] = (F)lam[f][j], out[f][j] = res[f][j] = 777;
    g.nontrivial(max_abs(lam) > 0);
    const auto ab = abscissas<n1>();
    const auto v = s.bulk_values(ab, lf);
    std::vector<Vec> b;
    for (unsigned c = 0; c <= d; ++c)
      b.push_back(interpolate<d, n1>(ab, v[c]).c);
    const std::vector<Vec> q(b.begin(), b.begin() + d);
    if (sizeof(F) == 8)
    {
      check_weak<d, d, n1>(tab, geo, types, q, b[d], lam, true, (double)tau, 0., Ldg(), "bulk values");
      const auto ab2 = abscissas<n1 + 1>();
      check_resample<d, n1 + 1>(g, b, n1, ab2, s.bulk_values(ab2, lf), "bulk values at other abscissas");
    }
    CHECK(&s.trace_to_flux(lf, out) == &out, "the result is not the output argument");
    s.residual_flux(lf, res);
    const L want = exact_flux<d, d, n1>(tab, types, q, b[d], lam, (double)tau);
    const double sc = 1 + 10 * max_abs(want) + 10 * max_abs(b) + max_abs(lam) * tau;
    for (unsigned f = 0; f < NF; ++f)
      for (unsigned j = 0; j < NB; ++j)
      {
        CHECK_CLOSE((double)out[f][j], want[f][j], tol == 1. ? TOL : tol, sc, "flux, face " << f << ", function " << j << ", use " << k);
        CHECK_CLOSE((double)res[f][j], want[f][j], tol == 1. ? TOL : tol, sc, "residual, face " << f << ", function " << j << ", use " << k);
      }
  }
}
typedef void (*fn)(pbt::Gen&);
static const fn lo[] = {run<1, 0, double>, run<1, 1, double>, run<1, 2, float>, run<1, 3, double>, run<2, 0, double>, run<2, 1, double>, run<2, 1, float>, run<2, 2, double>, run<3, 1, double>};
FAMILY("DiffusionUniform", 1500, 40000, "non-zero trace") { lo[g.index(9)](g); }
