// P22: Bilaplacian.
#include "local_bilap.hxx"
#include <HyperHDG/local_solver/bilaplacian_ldgh.hxx>
namespace { LOC_PARAMS2(Par) }
using namespace loc;
template <unsigned d, unsigned D, unsigned p>
static void run(pbt::Gen& g)
{
  typedef LocalSolver::Bilaplacian<d, p, 2 * p + 4, Par, double> S;
  constexpr unsigned n1 = p + 1;
  typedef Bilap<d, D, n1> B;
  constexpr unsigned NB = B::NB, NF = B::NF;
  typedef typename B::L L;
  static_assert(S::n_glob_dofs_per_node() == 2 * NB && S::system_dimension() == d + 1 && S::hyEdge_dim() == d);
  Edge<d, D, typename S::data_type> e;
  gen_edge(g, e, e.geometry);
  gen_data(g, D);
  const auto& ty = e.node_descriptor;
  const double tau = gen_tau(g), t = gen_time(g);
  L lam = gen_lambda<NF, 2 * NB>(g);
  zero_dirichlet2<NF, 2 * NB>(lam, ty);
  const S s(tau);
  error_definition<S>(g);
  decoy(g, e, [&](auto& o) {
    L r = lam;
    s.residual_flux(lam, r, o, t);
    s.trace_to_flux(lam, r, o, t);
    s.errors(lam, o, t);
  });
  const Tab<d, D, n1> tab(e.geometry);
  unsigned n_dir = 0;
  for (unsigned y : ty)
    n_dir += y != 0;
  g.desc << "d=" << d << " D=" << D << " p=" << p << " tau=" << tau << " time=" << t << " Dirichlet faces of some kind=" << n_dir;
  g.publish_desc();
  g.nontrivial(max_abs(lam) > 0 && n_dir < NF && !fun(RHS).c.empty());
  B hom(tab, tau, at(KINV, t));
  B full = hom;
  hom.rhs_lambda(lam, tau);
  full.rhs_lambda(lam, tau);
  full.rhs_dirichlet(ty, tau, t);
  full.own.rhs(B::W0, at(RHS, t));
  const Vec xh = hom.own.solve(), xf = full.own.solve();
  const double sc = 1 + 10 * vmax(xh) + 10 * vmax(xf) + max_abs(lam) * tau;
  L flux = garbage(lam), res = garbage(lam);
  CHECK(&s.trace_to_flux(lam, flux, e, t) == &flux, "the result is not the output argument");
  check_same(flux, hom.flux(xh, lam, ty, tau), sc, "homogeneous flux");
  CHECK(&s.residual_flux(lam, res, e, t) == &res, "the result is not the output argument");
  check_same(res, full.flux(xf, lam, ty, tau), sc, "residual flux");
  const std::vector<Vec> b = bulk<d, n1>(s, lam, e, t);
  for (unsigned c = 0; c <= d; ++c)
    check_coeff(b[c], full.own.part(xf, c * B::N), sc, "bulk values");
  const auto ab2 = abscissas<n1 + 1>();
  check_resample<d, n1 + 1>(g, b, n1, ab2, s.bulk_values(ab2, lam, e, t), "bulk values at other abscissas");
  const double er = s.errors(lam, e, t)[0], w = l2_diff2<d, D, n1>(tab, b[d], t);
  CHECK_CLOSE(er, w, TOL, 1 + w, "squared error");
  // mass fluxes: the solution is the right-hand side of a problem without trace
  for (int total = 0; total < 2; ++total)
  {
    B m(tab, tau, at(KINV, t));
    m.own.rhs_poly(B::W0, m.own.part(total ? xf : xh, B::U0));
    const Vec xm = m.own.solve();
    L out = garbage(lam);
    CHECK(&(total ? s.total_numerical_flux_mass(lam, out, e, t) : s.trace_to_mass_flux(lam, out, e, t)) == &out, "the result is not the output argument");
    check_same(out, m.flux(xm, zeros<L>(), ty, tau), sc + 10 * vmax(xm), total ? "total mass flux" : "mass flux");
  }
  const auto types = s.node_types(e);
  for (unsigned f = 0; f < NF; ++f)
    CHECK(types[f] == (dirichlet(ty[f]) ? 1u : 0u), "node type of face " << f << " is " << types[f]);
  L ini = garbage(lam);
  CHECK(&s.make_initial(ini, e, t) == &ini, "the result is not the output argument");
  check_initial2(tab, ini, std::vector<unsigned>(ty.begin(), ty.end()), t);
  // error of a step in time
  const double dt = g.positive(0.1, 1.);
  L old = gen_lambda<NF, 2 * NB>(g);
  zero_dirichlet2<NF, 2 * NB>(old, ty);
  const Vec uo = bulk<d, n1>(s, old, e, t - dt)[d];
  B c = full;
  Vec diff(uo.size());
  for (unsigned i = 0; i < diff.size(); ++i)
    diff[i] = (uo[i] - b[d][i]) / dt;
  c.own.rhs_poly(B::W0, diff);
  const double wt = l2_diff2<d, D, n1>(tab, c.own.part(c.own.solve(), B::U0), t);
  CHECK_CLOSE(s.errors_temp(lam, old, e, dt, t), wt, TOL, 1 + wt, "squared error with time derivative");
}
typedef void (*fn)(pbt::Gen&);
static const fn lo[] = {run<1, 1, 1>, run<1, 2, 5>, run<1, 2, 2>, run<1, 3, 0>, run<1, 3, 3>, run<2, 2, 0>, run<2, 2, 1>, run<2, 3, 1>};
static const fn hi[] = {run<2, 3, 2>, run<3, 3, 1>, run<3, 3, 0>};
FAMILY("Bilaplacian", 4000, 80000, "non-zero trace, right-hand side present, at least one face that is not Dirichlet") { lo[g.index(8)](g); }
FAMILY("Bilaplacian_large", 100, 2000, "non-zero trace, right-hand side present, at least one face that is not Dirichlet") { hi[g.index(3)](g); }
