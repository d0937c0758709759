// P23: AdvectionParab: histories of theta steps of the upwind scheme, compared to an own
// discretisation of the same numerical flux, plus facts that do not depend on the flux at all.
#include "local_own.hxx"
#include <HyperHDG/local_solver/advection_parab_ldgh.hxx>
namespace
{
template <unsigned int D, typename F = double>
struct Par
{
  static constexpr std::array<unsigned int, 2U> dirichlet_nodes{1, 3};
  static constexpr std::array<unsigned int, 1U> outflow_nodes{2};
  static constexpr std::array<unsigned int, 1U> boundary_nodes{4};
  LOC_ALL_FUNS
};
}
using namespace loc;
template <unsigned d, unsigned D, unsigned p>
static void run(pbt::Gen& g)
{
  typedef LocalSolver::AdvectionParab<d, p, 2 * p + 4, Par, double> S;
  constexpr unsigned n1 = p + 1, NB = Hypercube<d - 1>::pow(n1), NF = 2 * d, N = Hypercube<d>::pow(n1);
  typedef Own<d, D, n1> O;
  typedef std::array<std::array<double, NB>, NF> L;
  static_assert(S::n_glob_dofs_per_node() == NB && S::system_dimension() == 1 && S::node_system_dimension() == 1 && S::hyEdge_dim() == d);
  Edge<d, D, typename S::data_type> e;
  e.geometry = gen_geom<d, D>(g);
  const bool interior = g.chance(1, 4);
  for (auto& y : e.node_descriptor)
    y = interior || g.chance(1, 3) ? 0 : (unsigned)g.index(5);
  fun(RHS) = gen_fun(g, D);
  fun(DIR) = gen_fun(g, D);
  fun(INI) = gen_fun(g, D);
  fun(ANA) = gen_fun(g, D);
  for (unsigned i = 0; i < D; ++i)
  {
    Fun f;
    f.c.push_back(g.signed_small(12) / 4.);
    if (g.chance(1, 2))
      for (unsigned k = 0; k < D; ++k)
        f.c.push_back(g.signed_small(8) / 64.);
    if (g.chance(1, 2))
      f.ct.push_back(g.signed_small(12) / 16.);
    fun(VEL0 + i) = f;
  }
  const auto& ty = e.node_descriptor;
  const auto& geo = e.geometry;
  const double tau = g.chance(1, 4) ? 0. : g.positive(0.1, 3.), dt = g.positive(0.02, 0.5) * gen_factor(g, 5, 6);
  const double th = g.chance(1, 3) ? 1. : g.chance(1, 4) ? 0. : g.chance(1, 3) ? 0.5 : g.positive(0.1, 1.);
  double t = gen_time(g);
  const S s(std::vector<double>{tau, th, dt});
  error_definition<S>(g);
  decoy(g, e, [&](auto& o) {
    L r = gen_lambda<NF, NB>(g), l = r;
    s.make_initial(r, o, t);
    s.residual_flux(l, r, o, t + dt);
    s.trace_to_flux(l, r, o, t + dt);
    s.set_data(l, o, t + dt);
    s.errors(l, o, t + dt);
  });
  const Tab<d, D, n1> tab(geo);
  const unsigned steps = 1 + (unsigned)g.index(4);
  auto vel = [&](const Vec& x, double time) {
    Vec b(d, 0.);
    for (unsigned k = 0; k < d; ++k)
      for (unsigned i = 0; i < D; ++i)
        b[k] += fun(VEL0 + i)(x, time) * geo.Q(i, k);
    return b;
  };
  auto vn = [&](unsigned f, const Vec& x, double time) {
    const Vec b = vel(x, time);
    double r = 0;
    for (unsigned k = 0; k < d; ++k)
      r += b[k] * tab.nrm[f][k];
    return r;
  };
  // The kind of flow must not change within a face, where quadrature rules of different order disagree.
  for (unsigned k = 0; k <= steps; ++k)
    for (unsigned f = 0; f < NF; ++f)
    {
      double lo = 1e9, hi = -1e9;
      for (unsigned c = 0; c < (1u << (d - 1)); ++c)
      {
        Vec xi(d);
        for (unsigned i = 0, m = c; i < d; ++i)
          if (i == f / 2)
            xi[i] = f % 2;
          else
            xi[i] = m & 1, m >>= 1;
        const double v = vn(f, geo.phys(xi), t + k * dt);
        lo = std::min(lo, v);
        hi = std::max(hi, v);
      }
      if (lo < 1e-3 && hi > -1e-3)
        throw pbt::Discard();
    }
  auto mid = [&](unsigned f, double time) {
    Vec xi(d, 0.5);
    xi[f / 2] = f % 2;
    return vn(f, geo.phys(xi), time);
  };
  auto isdir = [&](unsigned f, double time) { return ty[f] == 1 || ty[f] == 3 || (ty[f] == 4 && mid(f, time) <= 0.); };
  auto isout = [&](unsigned f, double time) { return ty[f] == 2 || (ty[f] == 4 && mid(f, time) > 0.); };
  unsigned n_dir = 0, n_out = 0;
  for (unsigned f = 0; f < NF; ++f)
    n_dir += isdir(f, t), n_out += isout(f, t);
  g.desc << "d=" << d << " D=" << D << " p=" << p << " tau=" << tau << " theta=" << th << " time step=" << dt << " first time=" << t << " steps=" << steps << " dirichlet faces=" << n_dir
         << " outflow faces=" << n_out;
  g.publish_desc();
  g.nontrivial(n_dir < NF && !fun(INI).c.empty() && th != 1.);
  auto mask = [&](L l, double time) {
    for (unsigned f = 0; f < NF; ++f)
      if (isdir(f, time))
        l[f].fill(0.);
    return l;
  };
  // numerical flux; data: Dirichlet values are the state outside
  auto outside = [&](const L& l, unsigned f, const auto& P, double time, bool data) { return isdir(f, time) ? (data ? fun(DIR)(P.x, time) : 0.) : trace(l, f, P); };
  /// (u, b.grad v) - <upwind flux, v> + (f, v)
  auto rate = [&](const Vec& u, const L& l, double time, bool data) {
    Vec r(N, 0.);
    for (const auto& P : tab.vol)
    {
      const Vec b = vel(P.x, time);
      const double uv = lin(u, P.phi), f = data ? fun(RHS)(P.x, time) : 0.;
      for (unsigned i = 0; i < N; ++i)
      {
        r[i] += P.w * f * P.phi[i];
        for (unsigned k = 0; k < d; ++k)
          r[i] += P.w * uv * b[k] * P.dphi[i][k];
      }
    }
    for (unsigned f = 0; f < NF; ++f)
      for (const auto& P : tab.face[f])
      {
        const double bn = vn(f, P.x, time), uv = lin(u, P.phi);
        const double v = bn > 0 ? bn * uv + tau * (uv - (isdir(f, time) ? 0. : trace(l, f, P))) : bn * outside(l, f, P, time, data);
        for (unsigned i = 0; i < N; ++i)
          r[i] -= P.w * v * P.phi[i];
      }
    return r;
  };
  auto flux = [&](const Vec& u, const L& l, double time) {
    L r;
    for (unsigned f = 0; f < NF; ++f)
    {
      r[f].fill(0.);
      for (const auto& P : tab.face[f])
      {
        const double bn = vn(f, P.x, time), uv = lin(u, P.phi), lv = trace(l, f, P);
        double v = bn > 0 ? tau * (uv - lv) : 0.;
        if (!isout(f, time))
          v += bn > 0 ? bn * uv : bn * lv;
        for (unsigned j = 0; j < NB; ++j)
          r[f][j] += P.w * v * P.psi[j];
      }
    }
    return r;
  };
  const Vec zero(N, 0.);
  L ini = garbage(L());
  CHECK(&s.make_initial(ini, e, t) == &ini, "the result is not the output argument");
  for (unsigned f = 0; f < NF; ++f)
    for (unsigned j = 0; j < NB; ++j)
    {
      const double v = isdir(f, t) ? 0. : face_projection(tab, f, j, INI, t);
      CHECK_CLOSE(ini[f][j], v, TOL, 1 + std::abs(v), "initial trace on face " << f << ", function " << j);
    }
  Vec x;
  {
    O pr(tab, 1);
    pr.mass(0, 0, one());
    pr.rhs(0, at(INI, t));
    x = pr.solve();
  }
  L lam_old = ini;
  auto stored = [&](double time, const char* what) {
    const L any = gen_lambda<NF, NB>(g);
    const std::vector<Vec> b = bulk<d, n1>(s, any, e, time);
    check_coeff(b[0], x, 1 + vmax(x), what);
    const auto ab2 = abscissas<n1 + 1>();
    check_resample<d, n1 + 1>(g, b, n1, ab2, s.bulk_values(ab2, any, e, time), "bulk values at other abscissas");
    const double er = s.errors(any, e, time)[0], w = l2_diff2<d, D, n1>(tab, x, time);
    CHECK_CLOSE(er, w, TOL, 1 + w, "squared error of the stored solution");
  };
  stored(t, "initial values");
  for (unsigned k = 0; k < steps; ++k)
  {
    const double to = t;
    t += dt;
    L lam = gen_lambda<NF, NB>(g);
    lam = mask(lam, t);
    // matrix by applying the rate to the unit vectors
    O base(tab, 1);
    base.mass(0, 0, one());
    for (unsigned j = 0; j < N; ++j)
    {
      Vec ej = zero;
      ej[j] = 1;
      const Vec c = rate(ej, L{}, t, false);
      for (unsigned i = 0; i < N; ++i)
        base.A[i][j] -= th * dt * c[i];
    }
    O hom = base, full = base;
    const Vec rl = rate(zero, lam, t, false), ra = rate(zero, lam, t, true), ro = rate(x, lam_old, to, true);
    full.rhs_poly(0, x);
    for (unsigned i = 0; i < N; ++i)
    {
      hom.b[i] += th * dt * rl[i];
      full.b[i] += dt * (th * ra[i] + (1 - th) * ro[i]);
    }
    const Vec xh = hom.solve(), xf = full.solve();
    if (vmax(xh) > 1e3 * (1 + max_abs(lam)) || vmax(xf) > 1e4 * (1 + vmax(x)))
      throw pbt::Discard();
    const double sc = 1 + 10 * vmax(xh) + 10 * vmax(xf) + 10 * vmax(x) + (max_abs(lam) + max_abs(lam_old)) * (3 + tau);
    L fh = flux(xh, lam, t), fr = flux(xf, lam, t);
    const L fo = flux(x, lam_old, to);
    for (unsigned f = 0; f < NF; ++f)
      for (unsigned j = 0; j < NB; ++j)
      {
        fh[f][j] *= th;
        fr[f][j] = th * fr[f][j] + (1 - th) * fo[f][j];
      }
    L lf = garbage(lam), lr = garbage(lam);
    CHECK(&s.trace_to_flux(lam, lf, e, t) == &lf, "the result is not the output argument");
    check_same(lf, mask(fh, t), sc, "homogeneous flux");
    CHECK(&s.residual_flux(lam, lr, e, t) == &lr, "the result is not the output argument");
    check_same(lr, mask(fr, t), sc, "residual flux");
    stored(t, "values before the step");
    s.set_data(lam, e, t);
    // conservation: what is lost by the hyperedge leaves through its faces
    if (interior)
    {
      double lost = 0, through = 0, source = 0;
      for (const auto& P : tab.vol)
      {
        lost += P.w * (lin(x, P.phi) - lin(xf, P.phi));
        source += P.w * (th * fun(RHS)(P.x, t) + (1 - th) * fun(RHS)(P.x, to));
      }
      for (unsigned f = 0; f < NF; ++f)
        through += lr[f][0];
      CHECK_CLOSE(lost, dt * (through - source), TOL, sc * 10, "content of the hyperedge changes by other than source and fluxes");
    }
    x = xf;
    lam_old = lam;
    stored(t, "values after the step");
  }
}
typedef void (*fn)(pbt::Gen&);
static const fn lo[] = {run<1, 1, 1>, run<1, 2, 5>, run<1, 2, 2>, run<1, 3, 0>, run<1, 3, 3>, run<2, 2, 0>, run<2, 2, 1>, run<2, 3, 1>};
static const fn hi[] = {run<2, 3, 2>, run<3, 3, 1>, run<3, 3, 0>};
FAMILY("AdvectionParab", 4000, 80000, "initial state present, theta below one, at least one face that is not Dirichlet") { lo[g.index(8)](g); }
FAMILY("AdvectionParab_large", 100, 2000, "initial state present, theta below one, at least one face that is not Dirichlet") { hi[g.index(3)](g); }
