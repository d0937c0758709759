// P23: DiffusionParab: histories of theta steps.
#include "local_own.hxx"
#include <HyperHDG/local_solver/diffusion_parab_ldgh.hxx>
namespace { LOC_PARAMS(Par) }
using namespace loc;
template <unsigned d, unsigned D, unsigned p>
static void run(pbt::Gen& g)
{
  typedef LocalSolver::DiffusionParab<d, p, 2 * p + 4, Par, double> S;
  constexpr unsigned n1 = p + 1, NB = Hypercube<d - 1>::pow(n1), NF = 2 * d, N = Hypercube<d>::pow(n1), U0 = d * N;
  typedef Own<d, D, n1> O;
  typedef std::array<std::array<double, NB>, NF> L;
  static_assert(S::n_glob_dofs_per_node() == NB && S::system_dimension() == d + 1 && S::node_system_dimension() == 1 && S::hyEdge_dim() == d);
  Edge<d, D, typename S::data_type> e;
  gen_edge(g, e, e.geometry);
  gen_data(g, D);
  const auto& ty = e.node_descriptor;
  const double tau = gen_tau(g), dt = gen_step(g), th = g.chance(1, 3) ? 1. : g.chance(1, 3) ? 0.5 : g.positive(0.1, 1.);
  double t = gen_time(g);
  const S s(std::vector<double>{tau, th, dt});
  error_definition<S>(g);
  decoy(g, e, [&](auto& o) {
    L r = gen_lambda<NF, NB>(g), l = r;
    s.make_initial(r, o, t);
    s.residual_flux(l, r, o, t + dt);
    s.trace_to_flux(l, r, o, t + dt);
    s.set_data(l, o, t + dt);
    s.errors(l, o, t + dt);
  });
  const Tab<d, D, n1> tab(e.geometry);
  unsigned n_dir = 0;
  for (unsigned y : ty)
    n_dir += dirichlet(y);
  const unsigned steps = 1 + (unsigned)g.index(4);
  g.desc << "d=" << d << " D=" << D << " p=" << p << " tau=" << tau << " theta=" << th << " time step=" << dt << " first time=" << t << " steps=" << steps << " dirichlet faces=" << n_dir;
  g.publish_desc();
  g.nontrivial(n_dir < NF && !fun(RHS).c.empty() && !fun(INI).c.empty() && th != 1.);
  auto dir = [&](double time) {
    return [&ty, time](unsigned f, const auto& P) { return dirichlet(ty[f]) ? fun(DIR)(P.x, time) : 0.; };
  };
  auto tr = [](const L& l) {
    return [&l](unsigned f, const auto& P) { return trace(l, f, P); };
  };
  auto mask = [&](L l) {
    zero_dirichlet<NF, NB>(l, ty);
    return l;
  };
  // initial state: projections; its flux is the weak gradient of the initial function
  L ini = garbage(L());
  CHECK(&s.make_initial(ini, e, t) == &ini, "the result is not the output argument");
  for (unsigned f = 0; f < NF; ++f)
    for (unsigned j = 0; j < NB; ++j)
    {
      const double v = dirichlet(ty[f]) ? 0. : face_projection(tab, f, j, INI, t);
      CHECK_CLOSE(ini[f][j], v, TOL, 1 + std::abs(v), "initial trace on face " << f << ", function " << j);
    }
  Vec x((d + 1) * N, 0.);
  {
    O pr(tab, 1);
    pr.mass(0, 0, one());
    pr.rhs(0, at(INI, t));
    const Vec u = pr.solve();
    std::copy(u.begin(), u.end(), x.begin() + U0);
    for (unsigned c = 0; c < d; ++c)
    {
      O q(tab, 1);
      q.mass(0, 0, at(KINV, t));
      for (const auto& P : tab.vol)
        for (unsigned i = 0; i < N; ++i)
          q.b[i] += P.w * fun(INI)(P.x, t) * P.dphi[i][c];
      for (unsigned f = 0; f < NF; ++f)
        for (const auto& P : tab.face[f])
          for (unsigned i = 0; i < N; ++i)
            q.b[i] -= P.w * fun(INI)(P.x, t) * tab.nrm[f][c] * P.phi[i];
      const Vec v = q.solve();
      std::copy(v.begin(), v.end(), x.begin() + c * N);
    }
  }
  const O plain(tab, d + 1);
  L lam_old = ini;
  auto check_error = [&](double time) {
    const double er = s.errors(lam_old, e, time)[0], w = l2_diff2<d, D, n1>(tab, plain.part(x, U0), time);
    CHECK_CLOSE(er, w, TOL, 1 + w, "squared error of the stored solution");
  };
  check_error(t);
  for (unsigned k = 0; k < steps; ++k)
  {
    const double to = t;
    t += dt;
    L lam = gen_lambda<NF, NB>(g);
    zero_dirichlet<NF, NB>(lam, ty);
    O base(tab, d + 1);
    base.ldg(0, U0, U0, tau, th * dt, at(KINV, t));
    base.mass(U0, U0, one());
    O hom = base, full = base;
    hom.rhs_trace(0, U0, tau, th * dt, tr(lam));
    full.rhs_trace(0, U0, tau, th * dt, tr(lam));
    full.rhs_trace(0, U0, tau, th * dt, dir(t));
    full.rhs(U0, [&](const Vec& y) { return dt * (th * fun(RHS)(y, t) + (1 - th) * fun(RHS)(y, to)); });
    full.rhs_poly(U0, plain.part(x, U0));
    const auto od = dir(to);
    const auto ot = tr(lam_old);
    const Vec old = plain.minus_balance(x, 0, U0, tau, [&](unsigned f, const auto& P) { return od(f, P) + ot(f, P); });
    for (unsigned i = 0; i < N; ++i)
      full.b[U0 + i] += dt * (1 - th) * old[i];
    const Vec xh = hom.solve(), xf = full.solve();
    const double sc = 1 + 10 * vmax(xh) + 10 * vmax(xf) + 10 * vmax(x) + (max_abs(lam) + max_abs(lam_old)) * tau;
    L fh = mask(hom.flux(xh, 0, U0, tau, tr(lam))), fr = mask(full.flux(xf, 0, U0, tau, tr(lam)));
    const L fo = mask(plain.flux(x, 0, U0, tau, tr(lam_old)));
    for (unsigned f = 0; f < NF; ++f)
      for (unsigned j = 0; j < NB; ++j)
      {
        fh[f][j] *= th;
        fr[f][j] = th * fr[f][j] + (1 - th) * fo[f][j];
      }
    L flux = garbage(lam), res = garbage(lam);
    CHECK(&s.trace_to_flux(lam, flux, e, t) == &flux, "the result is not the output argument");
    check_same(flux, fh, sc, "homogeneous flux");
    CHECK(&s.residual_flux(lam, res, e, t) == &res, "the result is not the output argument");
    check_same(res, fr, sc, "residual flux");
    const std::vector<Vec> b = bulk<d, n1>(s, lam, e, t);
    for (unsigned c = 0; c <= d; ++c)
      check_coeff(b[c], plain.part(xf, c * N), sc, "bulk values");
    const auto ab2 = abscissas<n1 + 1>();
    check_resample<d, n1 + 1>(g, b, n1, ab2, s.bulk_values(ab2, lam, e, t), "bulk values at other abscissas");
    s.set_data(lam, e, t);
    x = xf;
    lam_old = lam;
    check_error(t);
  }
}
typedef void (*fn)(pbt::Gen&);
static const fn lo[] = {run<1, 1, 1>, run<1, 2, 5>, run<1, 2, 2>, run<1, 3, 0>, run<1, 3, 3>, run<2, 2, 0>, run<2, 2, 1>, run<2, 3, 1>};
static const fn hi[] = {run<2, 3, 2>, run<3, 3, 1>, run<3, 3, 0>};
FAMILY("DiffusionParab", 4000, 80000, "initial state and right-hand side present, theta below one, at least one face that is not Dirichlet") { lo[g.index(8)](g); }
FAMILY("DiffusionParab_large", 100, 2000, "initial state and right-hand side present, theta below one, at least one face that is not Dirichlet") { hi[g.index(3)](g); }
