// P24: BilaplacianEigs.
#include "local_bilap.hxx"
#include <HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx>
namespace { LOC_PARAMS2(Par) }
using namespace loc;
template <unsigned d, unsigned D, unsigned p>
static void run(pbt::Gen& g)
{
  typedef LocalSolver::BilaplacianEigs<d, p, 2 * p + 4, Par, double> S;
  constexpr unsigned n1 = p + 1;
  typedef Bilap<d, D, n1> B;
  constexpr unsigned NB = B::NB, NF = B::NF;
  typedef typename B::L L;
  static_assert(S::n_glob_dofs_per_node() == 2 * NB && S::system_dimension() == d + 1 && S::hyEdge_dim() == d);
  Edge<d, D, typename S::data_type> e;
  gen_edge(g, e, e.geometry);
  gen_data(g, D);
  fun(KINV).ct.clear();
  const auto& ty = e.node_descriptor;
  const double tau = gen_tau(g), t = gen_time(g);
  const double mu = g.chance(1, 5) ? 0. : g.chance(1, 4) ? 0.02 * g.positive(0.1, 1.) : (g.chance(1, 3) ? 1 : -1) * g.positive(0.1, 12.), eig = g.signed_small(12) / 4.;
  L lam = gen_lambda<NF, 2 * NB>(g), in = gen_lambda<NF, 2 * NB>(g);
  zero_dirichlet2<NF, 2 * NB>(lam, ty);
  zero_dirichlet2<NF, 2 * NB>(in, ty);
  const S s(tau);
  error_definition<S>(g);
  decoy(g, e, [&](auto& o) {
    L r = lam;
    fun(KINV).ct.clear();
    s.jacobian_of_trace_to_flux(in, r, eig, lam, mu, o);
    s.trace_to_flux(lam, r, o, mu);
  });
  const Tab<d, D, n1> tab(e.geometry);
  unsigned n_dir = 0;
  for (unsigned y : ty)
    n_dir += y != 0;
  g.desc << "d=" << d << " D=" << D << " p=" << p << " tau=" << tau << " eigenvalue=" << mu << " direction=" << eig << " Dirichlet faces of some kind=" << n_dir;
  g.publish_desc();
  g.nontrivial(max_abs(lam) > 0 && max_abs(in) > 0 && mu != 0 && eig != 0 && n_dir < NF);
  const B base(tab, tau, at(KINV, 0.), 1., -mu);
  B hl = base, hi = base, der = base;
  hl.rhs_lambda(lam, tau);
  hi.rhs_lambda(in, tau);
  const Vec xl = hl.own.solve(), xi = hi.own.solve();
  der.own.rhs_poly(B::W0, der.own.part(xl, B::U0));
  const Vec xd = der.own.solve();
  const double sc = 1 + 10 * vmax(xl) + 10 * vmax(xi) + 10 * vmax(xd) + max_abs(lam) * tau + max_abs(in) * tau;
  if (sc > 1e6 || vmax(xd) > 20 * vmax(xl))  // close to resonance
    throw pbt::Discard();
  L flux = garbage(lam), jac = garbage(lam);
  CHECK(&s.trace_to_flux(lam, flux, e, mu) == &flux, "the result is not the output argument");
  check_same(flux, hl.flux(xl, lam, ty, tau), sc, "flux");
  const std::vector<Vec> b = bulk<d, n1>(s, lam, e, mu);
  for (unsigned c = 0; c <= d; ++c)
    check_coeff(b[c], hl.own.part(xl, c * B::N), sc, "bulk values");
  const auto ab2 = abscissas<n1 + 1>();
  check_resample<d, n1 + 1>(g, b, n1, ab2, s.bulk_values(ab2, lam, e, mu), "bulk values at other abscissas");
  CHECK(&s.jacobian_of_trace_to_flux(in, jac, eig, lam, mu, e) == &jac, "the result is not the output argument");
  L want = hi.flux(xi, in, ty, tau);
  const L dd = der.flux(xd, zeros<L>(), ty, tau);
  for (unsigned f = 0; f < NF; ++f)
    for (unsigned j = 0; j < 2 * NB; ++j)
      want[f][j] += eig * dd[f][j];
  check_same(jac, want, sc, "Jacobian");
  const double er = s.errors(lam, e, mu)[0], w = l2_diff2<d, D, n1>(tab, b[d], mu);
  CHECK_CLOSE(er, w, TOL, 1 + w, "squared error");
  const auto types = s.node_types(e);
  for (unsigned f = 0; f < NF; ++f)
    CHECK(types[f] == (dirichlet(ty[f]) ? 1u : 0u), "node type of face " << f << " is " << types[f]);
  L ini = garbage(lam);
  CHECK(&s.make_initial(ini, e, t) == &ini, "the result is not the output argument");
  check_initial2(tab, ini, std::vector<unsigned>(ty.begin(), ty.end()), t);
}
typedef void (*fn)(pbt::Gen&);
static const fn lo[] = {run<1, 1, 1>, run<1, 2, 5>, run<1, 2, 2>, run<1, 3, 0>, run<1, 3, 3>, run<2, 2, 0>, run<2, 2, 1>, run<2, 3, 1>};
static const fn hi[] = {run<2, 3, 2>, run<3, 3, 1>, run<3, 3, 0>};
FAMILY("BilaplacianEigs", 4000, 80000, "non-zero traces, eigenvalue and direction, at least one face that is not Dirichlet") { lo[g.index(8)](g); }
FAMILY("BilaplacianEigs_large", 100, 2000, "non-zero traces, eigenvalue and direction, at least one face that is not Dirichlet") { hi[g.index(3)](g); }
