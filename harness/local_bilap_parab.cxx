// P23: BilaplacianParab with implicit Euler steps (theta = 1).
#include "local_bilap.hxx"
#include <HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx>
namespace { LOC_PARAMS2(Par) }
using namespace loc;
template <unsigned d, unsigned D, unsigned p>
static void run(pbt::Gen& g)
{
  typedef LocalSolver::BilaplacianParab<d, p, 2 * p + 4, Par, double> S;
  constexpr unsigned n1 = p + 1;
  typedef Bilap<d, D, n1> B;
  constexpr unsigned NB = B::NB, NF = B::NF;
  typedef typename B::L L;
  static_assert(S::n_glob_dofs_per_node() == 2 * NB && S::system_dimension() == d + 1 && S::hyEdge_dim() == d);
  Edge<d, D, typename S::data_type> e;
  gen_edge(g, e, e.geometry);
  gen_data(g, D);
  const auto& ty = e.node_descriptor;
  const double tau = gen_tau(g), dt = gen_step(g);
  double t = gen_time(g);
  const S s(std::vector<double>{tau, 1., dt});
  error_definition<S>(g);
  decoy(g, e, [&](auto& o) {
    L r = gen_lambda<NF, 2 * NB>(g), l = r;
    s.make_initial(r, o, t);
    s.residual_flux(l, r, o, t + dt);
    s.trace_to_flux(l, r, o, t + dt);
    s.set_data(l, o, t + dt);
    s.errors(l, o, t + dt);
  });
  const Tab<d, D, n1> tab(e.geometry);
  unsigned n_dir = 0;
  for (unsigned y : ty)
    n_dir += y != 0;
  const unsigned steps = 1 + (unsigned)g.index(3);
  g.desc << "d=" << d << " D=" << D << " p=" << p << " tau=" << tau << " time step=" << dt << " first time=" << t << " steps=" << steps << " Dirichlet faces of some kind=" << n_dir;
  g.publish_desc();
  g.nontrivial(n_dir < NF && !fun(RHS).c.empty() && !fun(INI).c.empty());
  L ini = garbage(L());
  CHECK(&s.make_initial(ini, e, t) == &ini, "the result is not the output argument");
  check_initial2(tab, ini, std::vector<unsigned>(ty.begin(), ty.end()), t);
  // projection of the initial state
  Own<d, D, n1> pr(tab, 1);
  pr.mass(0, 0, one());
  pr.rhs(0, at(INI, t));
  Vec u = pr.solve();
  for (unsigned k = 0; k < steps; ++k)
  {
    t += dt;
    L lam = gen_lambda<NF, 2 * NB>(g);
    zero_dirichlet2<NF, 2 * NB>(lam, ty);
    const B base(tab, tau, at(KINV, t), dt, 1.);
    B hom = base, full = base;
    hom.rhs_lambda(lam, tau, dt);
    full.rhs_lambda(lam, tau, dt);
    full.rhs_dirichlet(ty, tau, t, dt);
    full.own.rhs(B::W0, [&](const Vec& x) { return dt * fun(RHS)(x, t); });
    full.own.rhs_poly(B::W0, u);
    const Vec xh = hom.own.solve(), xf = full.own.solve();
    const double sc = 1 + 10 * vmax(xh) + 10 * vmax(xf) + max_abs(lam) * tau;
    L flux = garbage(lam), res = garbage(lam);
    CHECK(&s.trace_to_flux(lam, flux, e, t) == &flux, "the result is not the output argument");
    check_same(flux, hom.flux(xh, lam, ty, tau), sc, "homogeneous flux");
    CHECK(&s.residual_flux(lam, res, e, t) == &res, "the result is not the output argument");
    check_same(res, full.flux(xf, lam, ty, tau), sc, "residual flux");
    const std::vector<Vec> b = bulk<d, n1>(s, lam, e, t);
    for (unsigned c = 0; c <= d; ++c)
      check_coeff(b[c], full.own.part(xf, c * B::N), sc, "bulk values");
    const double er = s.errors(lam, e, t)[0], w = l2_diff2<d, D, n1>(tab, b[d], t);
    CHECK_CLOSE(er, w, TOL, 1 + w, "squared error");
    s.set_data(lam, e, t);
    u = full.own.part(xf, B::U0);
  }
}
typedef void (*fn)(pbt::Gen&);
static const fn lo[] = {run<1, 1, 1>, run<1, 2, 5>, run<1, 2, 2>, run<1, 3, 0>, run<1, 3, 3>, run<2, 2, 0>, run<2, 2, 1>, run<2, 3, 1>};
static const fn hi[] = {run<2, 3, 2>, run<3, 3, 1>, run<3, 3, 0>};
FAMILY("BilaplacianParab", 3000, 60000, "initial state and right-hand side present, at least one face that is not Dirichlet") { lo[g.index(8)](g); }
FAMILY("BilaplacianParab_large", 60, 1200, "initial state and right-hand side present, at least one face that is not Dirichlet") { hi[g.index(3)](g); }
