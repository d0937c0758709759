// P24: DiffusionEigs, the local solver of the nonlinear eigenvalue problem of diffusion.
#include "local_own.hxx"
#include <HyperHDG/local_solver/diffusion_eigs_ldgh.hxx>
namespace { LOC_PARAMS(Par) }
using namespace loc;
template <unsigned d, unsigned D, unsigned p>
static void run(pbt::Gen& g)
{
  typedef LocalSolver::DiffusionEigs<d, p, 2 * p + 4, Par, double> S;
  constexpr unsigned n1 = p + 1, NB = Hypercube<d - 1>::pow(n1), NF = 2 * d, N = Hypercube<d>::pow(n1);
  typedef std::array<std::array<double, NB>, NF> L;
  static_assert(S::n_glob_dofs_per_node() == NB && S::system_dimension() == d + 1 && S::node_system_dimension() == 1 && S::hyEdge_dim() == d);
  Edge<d, D, typename S::data_type> e;
  gen_edge(g, e, e.geometry);
  gen_data(g, D);
  fun(KINV).ct.clear();
  const double tau = gen_tau(g), t = gen_time(g);
  const double mu = g.chance(1, 5) ? 0. : g.chance(1, 4) ? 0.02 * g.positive(0.1, 1.) : (g.chance(1, 3) ? 1 : -1) * g.positive(0.1, 12.), eig = g.signed_small(12) / 4.;
  L lam = gen_lambda<NF, NB>(g), in = gen_lambda<NF, NB>(g);
  zero_dirichlet<NF, NB>(lam, e.node_descriptor);
  zero_dirichlet<NF, NB>(in, e.node_descriptor);
  const S s(tau);
  error_definition<S>(g);
  decoy(g, e, [&](auto& o) {
    L r = lam;
    fun(KINV).ct.clear();
    s.jacobian_of_trace_to_flux(in, r, eig, lam, mu, o);
    s.trace_to_flux(lam, r, o, mu);
  });
  const Tab<d, D, n1> tab(e.geometry);
  unsigned n_dir = 0;
  for (unsigned ty : e.node_descriptor)
    n_dir += dirichlet(ty);
  g.desc << "d=" << d << " D=" << D << " p=" << p << " tau=" << tau << " eigenvalue=" << mu << " direction=" << eig << " dirichlet faces=" << n_dir;
  g.publish_desc();
  g.nontrivial(max_abs(lam) > 0 && max_abs(in) > 0 && mu != 0 && eig != 0 && n_dir < NF);

  const std::vector<Vec> b = bulk<d, n1>(s, lam, e, mu);
  const std::vector<Vec> q(b.begin(), b.begin() + d);
  check_weak<d, D, n1>(tab, e.geometry, e.node_descriptor, q, b[d], lam, false, tau, 0., Ldg{false, mu}, "bulk values");
  const auto ab2 = abscissas<n1 + 1>();
  check_resample<d, n1 + 1>(g, b, n1, ab2, s.bulk_values(ab2, lam, e, mu), "bulk values at other abscissas");
  L flux = garbage(lam), fin = garbage(lam), jac = garbage(lam);
  CHECK(&s.trace_to_flux(lam, flux, e, mu) == &flux, "the result is not the output argument");
  const double sc = 1 + 10 * max_abs(b) + max_abs(lam) * tau;
  check_same(flux, exact_flux<d, D, n1>(tab, e.node_descriptor, q, b[d], lam, tau), sc, "flux");

  // Jacobian: derivative of flux(lambda, mu) in direction (in, eig)
  s.trace_to_flux(in, fin, e, mu);
  CHECK(&s.jacobian_of_trace_to_flux(in, jac, eig, lam, mu, e) == &jac, "the result is not the output argument");
  Own<d, D, n1> own(tab, d + 1);
  own.ldg(0, d * N, d * N, tau, 1., at(KINV, 0.));
  own.mass(d * N, d * N, one(-mu));
  own.rhs_poly(d * N, b[d]);
  const Vec x = own.solve();
  if (vmax(x) > 20 * vmax(b[d]))  // close to resonance
    throw pbt::Discard();
  auto none = [](unsigned, const auto&) { return 0.; };
  const L der = own.flux(x, 0, d * N, tau, none);
  L want = fin;
  for (unsigned f = 0; f < NF; ++f)
    for (unsigned j = 0; j < NB; ++j)
      want[f][j] = dirichlet(e.node_descriptor[f]) ? 0. : fin[f][j] + eig * der[f][j];
  check_same(jac, want, sc + 10 * vmax(x) + max_abs(fin), "Jacobian");
  const double er = s.errors(lam, e, mu)[0];
  double w = 0;
  for (const auto& P : tab.vol)
  {
    const double v = lin(b[d], P.phi) - fun(ANA)(P.x, mu);
    w += P.w * v * v;
  }
  CHECK_CLOSE(er, w, TOL, 1 + w, "squared error");
  const auto types = s.node_types(e);
  for (unsigned f = 0; f < NF; ++f)
    CHECK(types[f] == (dirichlet(e.node_descriptor[f]) ? 1u : 0u), "node type of face " << f << " is " << types[f]);
  L ini = garbage(lam);
  CHECK(&s.make_initial(ini, e, t) == &ini, "the result is not the output argument");
  for (unsigned f = 0; f < NF; ++f)
    for (unsigned j = 0; j < NB; ++j)
    {
      const double v = dirichlet(e.node_descriptor[f]) ? 0. : face_projection(tab, f, j, INI, t);
      CHECK_CLOSE(ini[f][j], v, TOL, 1 + std::abs(v), "initial trace on face " << f << ", function " << j);
    }
}
typedef void (*fn)(pbt::Gen&);
static const fn lo[] = {run<1, 1, 1>, run<1, 2, 5>, run<1, 2, 2>, run<1, 3, 0>, run<1, 3, 3>, run<2, 2, 0>, run<2, 2, 1>, run<2, 3, 1>};
static const fn hi[] = {run<2, 3, 2>, run<3, 3, 1>, run<3, 3, 0>};
FAMILY("DiffusionEigs", 8000, 160000, "non-zero traces, eigenvalue and direction, at least one face that is not Dirichlet") { lo[g.index(8)](g); }
FAMILY("DiffusionEigs_large", 300, 6000, "non-zero traces, eigenvalue and direction, at least one face that is not Dirichlet") { hi[g.index(3)](g); }
