// The oracle for the local solvers of the diffusion family: what they return must satisfy the weak
// form of the local problem, evaluated with our own polynomials and quadrature.
#pragma once
#include "local_common.hxx"
namespace loc
{
template <unsigned d, unsigned D, typename Data>
struct Edge
{
  Geom<d, D> geometry;
  std::array<unsigned int, 2 * d> node_descriptor;
  Data data;
};
inline bool dirichlet(unsigned type) { return type == 1 || type == 3; }
/// Whether the solution of a case depends on all ingredients.
template <typename E, typename G>
void gen_edge(pbt::Gen& g, E& e, const G&)
{
  e.geometry = gen_geom<G::hyEdge_dim(), G::space_dim()>(g);
  for (auto& t : e.node_descriptor)
    t = g.chance(1, 2) ? 0 : (unsigned)g.index(4);
}
template <unsigned NF, unsigned NB>
void zero_dirichlet(std::array<std::array<double, NB>, NF>& l, const std::array<unsigned, NF>& types)
{
  for (unsigned f = 0; f < NF; ++f)
    if (dirichlet(types[f]))
      l[f].fill(0.);
}
template <typename L>
L garbage(const L& like)
{
  L r = like;
  for (auto& a : r)
    for (auto& v : a)
      v = 1234.5;
  return r;
}
/// A trace function on face f: sum of lambda_j psi_j.
template <typename L, typename P>
double trace(const L& l, unsigned f, const P& pt)
{
  double s = 0;
  for (unsigned j = 0; j < pt.psi.size(); ++j)
    s += l[f][j] * pt.psi[j];
  return s;
}
constexpr double TOL = 1e-8;

/// Terms of the first-order system kinv q = -grad u + b u, div q + rate u = f.
struct Ldg
{
  bool advection = false;
  double eig = 0;  // subtracts eig * (u, v)
};
/// Residuals of the weak form for the polynomials q, u with trace lam (+ Dirichlet data) and penalty tau.
template <unsigned d, unsigned D, unsigned n1, typename L>
void check_weak(const Tab<d, D, n1>& tab, const Geom<d, D>& geo, const std::array<unsigned, 2 * d>& types, const std::vector<Vec>& q,
                const Vec& u, const L& lam, bool data, double tau, double t, const Ldg& form, const char* what)
{
  constexpr unsigned N = Tab<d, D, n1>::N;
  std::vector<std::vector<Acc> > r1(d, std::vector<Acc>(N));
  std::vector<Acc> r2(N);
  for (const auto& p : tab.vol)
  {
    const double uv = lin(u, p.phi), ki = fun(KINV)(p.x, t), f = data ? fun(RHS)(p.x, t) : 0.;
    const double rate = form.advection ? fun(RATE)(p.x, t) : 0.;
    double qv[d], b[d] = {};
    for (unsigned k = 0; k < d; ++k)
    {
      qv[k] = lin(q[k], p.phi);
      if (form.advection)
        for (unsigned i = 0; i < D; ++i)
          b[k] += fun(VEL0 + i)(p.x, t) * geo.Q(i, k);
    }
    for (unsigned i = 0; i < N; ++i)
    {
      for (unsigned k = 0; k < d; ++k)
      {
        r1[k][i].add(p.w * ki * qv[k] * p.phi[i]);
        r1[k][i].add(-p.w * uv * p.dphi[i][k]);
        if (form.advection)
          r1[k][i].add(-p.w * b[k] * uv * p.phi[i]);
        r2[i].add(-p.w * qv[k] * p.dphi[i][k]);
      }
      if (form.advection)
        r2[i].add(p.w * rate * uv * p.phi[i]);
      r2[i].add(-p.w * form.eig * uv * p.phi[i]);
      r2[i].add(-p.w * f * p.phi[i]);
    }
  }
  for (unsigned f = 0; f < 2 * d; ++f)
    for (const auto& p : tab.face[f])
    {
      double tr = trace(lam, f, p);
      if (data && dirichlet(types[f]))
        tr += fun(DIR)(p.x, t);
      double qn = 0;
      for (unsigned k = 0; k < d; ++k)
        qn += lin(q[k], p.phi) * tab.nrm[f][k];
      const double uv = lin(u, p.phi);
      for (unsigned i = 0; i < N; ++i)
      {
        for (unsigned k = 0; k < d; ++k)
          r1[k][i].add(p.w * tr * tab.nrm[f][k] * p.phi[i]);
        r2[i].add(p.w * (qn + tau * (uv - tr)) * p.phi[i]);
      }
    }
  double scale = 1;
  for (unsigned i = 0; i < N; ++i)
  {
    scale = std::max(scale, r2[i].m);
    for (unsigned k = 0; k < d; ++k)
      scale = std::max(scale, r1[k][i].m);
  }
  for (unsigned i = 0; i < N; ++i)
  {
    for (unsigned k = 0; k < d; ++k)
      CHECK_CLOSE(r1[k][i].s, 0., TOL, scale, what << ": constitutive equation, component " << k << ", test function " << i);
    CHECK_CLOSE(r2[i].s, 0., TOL, scale, what << ": balance equation, test function " << i);
  }
}
/// integral of (q.n + tau (u - lam)) psi_j over every face, zero on Dirichlet faces
template <unsigned d, unsigned D, unsigned n1, typename L>
L exact_flux(const Tab<d, D, n1>& tab, const std::array<unsigned, 2 * d>& types, const std::vector<Vec>& q, const Vec& u, const L& lam, double tau)
{
  L r = lam;
  for (unsigned f = 0; f < 2 * d; ++f)
  {
    r[f].fill(0.);
    if (dirichlet(types[f]))
      continue;
    for (const auto& p : tab.face[f])
    {
      double v = tau * (lin(u, p.phi) - trace(lam, f, p));
      for (unsigned k = 0; k < d; ++k)
        v += lin(q[k], p.phi) * tab.nrm[f][k];
      for (unsigned j = 0; j < p.psi.size(); ++j)
        r[f][j] += p.w * v * p.psi[j];
    }
  }
  return r;
}
template <typename L>
double max_abs(const L& l)
{
  double m = 0;
  for (const auto& r : l)
    for (double v : r)
      m = std::max(m, std::abs(v));
  return m;
}
template <typename L>
void check_same(const L& a, const L& b, double scale, const char* what)
{
  for (unsigned f = 0; f < a.size(); ++f)
    for (unsigned j = 0; j < a[f].size(); ++j)
      CHECK_CLOSE(a[f][j], b[f][j], TOL, scale, what << ": face " << f << ", function " << j);
}
template <typename L>
L minus(const L& a, const L& b)
{
  L r = a;
  for (unsigned f = 0; f < a.size(); ++f)
    for (unsigned j = 0; j < a[f].size(); ++j)
      r[f][j] -= b[f][j];
  return r;
}
template <unsigned d, unsigned D, unsigned n1>
double l2_diff2(const Tab<d, D, n1>& tab, const Vec& u, double t)
{
  double s = 0;
  for (const auto& p : tab.vol)
  {
    const double v = lin(u, p.phi) - fun(ANA)(p.x, t);
    s += p.w * v * v;
  }
  return s;
}
/// Values at other abscissas are those of the same polynomial, in lexicographic order.
template <unsigned d, unsigned n, typename A>
void check_resample(pbt::Gen& g, const std::vector<Vec>& coeff, unsigned n1, const std::array<double, n>& ab, const A& vals, const char* what)
{
  (void)g;
  for (unsigned c = 0; c < coeff.size(); ++c)
  {
    Poly P{d, n1, coeff[c]};
    double m = 1;
    for (double v : coeff[c])
      m = std::max(m, std::abs(v));
    CHECK(vals[c].size() == ipow(n, d), what << ": " << vals[c].size() << " values");
    for (unsigned k = 0; k < vals[c].size(); ++k)
    {
      Vec x(d);
      for (unsigned i = 0, r = k; i < d; ++i, r /= n)
        x[i] = ab[r % n];
      CHECK_CLOSE((double)vals[c][k], P.val(x), TOL, 10 * m, what << ": component " << c << " at point " << k);
    }
  }
}
inline void gen_data(pbt::Gen& g, unsigned D)
{
  for (unsigned k = 0; k < N_FUN; ++k)
    fun(k) = k == KINV || k == KAPPA ? gen_pos(g, D) : gen_fun(g, D, k >= VEL0 && k <= VEL2 ? 1 : 2);
  fun(RATE) = gen_pos(g, D);
}
/// Now and then uses the solver on a hyperedge that resembles the one of the case (same time, penalty,
/// area, types ...), but has another shape, position or data: nothing of that may be remembered.
template <typename E, typename Use>
void decoy(pbt::Gen& g, const E& e, const Use& use)
{
  if (!g.chance(1, 3))
    return;
  constexpr unsigned d = decltype(E::geometry)::hyEdge_dim(), D = decltype(E::geometry)::space_dim();
  E o(e);
  const unsigned kind = 1 + (unsigned)g.index(3);
  std::vector<Fun> keep;
  for (unsigned k = 0; k < N_FUN; ++k)
    keep.push_back(fun(k));
  if (kind & 1)
    gen_data(g, D);
  if (kind & 2)
  {
    auto& m = o.geometry;
    for (unsigned i = 0; i < D; ++i)
      m.a[i] += g.signed_small(8) / 8.;
    if (D > 1 && g.chance(1, 2))  // a quarter turn
      for (unsigned r = 0; r < D; ++r)
      {
        const auto v = m.Q(r, 0);
        m.Q(r, 0) = m.Q(r, D - 1);
        m.Q(r, D - 1) = -v;
      }
    if (d > 1)
    {
      std::swap(m.R(0, 0), m.R(d - 1, d - 1));
      m.R(0, d - 1) += m.R(0, 0) * 0.375;
      finish_geom(m);
    }
  }
  use(o);
  for (unsigned k = 0; k < N_FUN; ++k)
    fun(k) = keep[k];
}
struct Saved  // switches the data of the problem off and on again
{
  Fun f = fun(RHS), h = fun(DIR);
  Saved() { fun(RHS) = fun(DIR) = Fun(); }
  ~Saved()
  {
    fun(RHS) = f;
    fun(DIR) = h;
  }
};
template <typename T>
std::vector<Vec> coefficients(const std::vector<T>& v)
{
  std::vector<Vec> r;
  for (const auto& p : v)
    r.push_back(p.c);
  return r;
}
/// bulk_values as polynomials, first n of them
template <unsigned d, unsigned n1, typename S, typename L, typename E>
std::vector<Vec> bulk(const S& s, const L& lam, E& e, double t)
{
  const auto ab = abscissas<n1>();
  const auto v = s.bulk_values(ab, lam, e, t);
  std::vector<Vec> r;
  for (unsigned c = 0; c < v.size(); ++c)
    r.push_back(interpolate<d, n1>(ab, v[c]).c);
  return r;
}
/// One case for a solver with unknowns (q, u). MASS: mass fluxes and initial traces exist.
template <typename S, unsigned d, unsigned D, unsigned p, bool ADV, bool MASS, bool PP, bool TEMP>
void ldg_case(pbt::Gen& g)
{
  constexpr unsigned n1 = p + 1, NB = Hypercube<d - 1>::pow(n1), NF = 2 * d;
  typedef std::array<std::array<double, NB>, NF> L;
  static_assert(S::n_glob_dofs_per_node() == NB && S::system_dimension() == d + 1 && S::node_system_dimension() == 1 && S::hyEdge_dim() == d);
  Edge<d, D, typename S::data_type> e;
  gen_edge(g, e, e.geometry);
  gen_data(g, D);
  const double tau = gen_tau(g), t = gen_time(g);
  L lam = gen_lambda<NF, NB>(g);
  zero_dirichlet<NF, NB>(lam, e.node_descriptor);
  const S s(tau);
  error_definition<S>(g);
  decoy(g, e, [&](auto& o) {
    L r = lam;
    s.residual_flux(lam, r, o, t);
    s.trace_to_flux(lam, r, o, t);
    s.errors(lam, o, t);
  });
  const Tab<d, D, n1> tab(e.geometry);
  const Ldg form{ADV, 0.};
  unsigned n_dir = 0;
  for (unsigned ty : e.node_descriptor)
    n_dir += dirichlet(ty);
  g.desc << "d=" << d << " D=" << D << " p=" << p << " tau=" << tau << " time=" << t << " dirichlet faces=" << n_dir;
  g.publish_desc();
  g.nontrivial(max_abs(lam) > 0 && n_dir < NF && !fun(RHS).c.empty());

  const std::vector<Vec> b = bulk<d, n1>(s, lam, e, t);
  const std::vector<Vec> q(b.begin(), b.begin() + d);
  const Vec& u = b[d];
  check_weak<d, D, n1>(tab, e.geometry, e.node_descriptor, q, u, lam, true, tau, t, form, "bulk values");
  const auto ab2 = abscissas<n1 + 1>();
  check_resample<d, n1 + 1>(g, b, n1, ab2, s.bulk_values(ab2, lam, e, t), "bulk values at other abscissas");

  const L zero{};
  L res = garbage(lam), res0 = garbage(lam), flux = garbage(lam);
  CHECK(&s.residual_flux(lam, res, e, t) == &res, "the result is not the output argument");
  s.residual_flux(zero, res0, e, t);
  CHECK(&s.trace_to_flux(lam, flux, e, t) == &flux, "the result is not the output argument");
  const L want = exact_flux<d, D, n1>(tab, e.node_descriptor, q, u, lam, tau);
  const double sc = 1 + 10 * max_abs(want) + 10 * max_abs(b) + max_abs(lam) * tau;
  check_same(res, want, sc, "residual flux");
  check_same(minus(res, res0), flux, sc + max_abs(res0), "residual(lambda) - residual(0) against the homogeneous flux");
  {
    Saved off;
    const std::vector<Vec> h = bulk<d, n1>(s, lam, e, t);
    const std::vector<Vec> qh(h.begin(), h.begin() + d);
    check_same(flux, exact_flux<d, D, n1>(tab, e.node_descriptor, qh, h[d], lam, tau), sc + 10 * max_abs(h), "homogeneous flux");
  }
  const auto types = s.node_types(e);
  for (unsigned f = 0; f < NF; ++f)
    CHECK(types[f] == (dirichlet(e.node_descriptor[f]) ? 1u : 0u), "node type of face " << f << " is " << types[f]);

  if constexpr (!PP)
  {
    const double er = s.errors(lam, e, t)[0], w = l2_diff2<d, D, n1>(tab, u, t);
    CHECK_CLOSE(er, w, TOL, 1 + w, "squared error");
  }
  else
  {
    // post-processed solution of degree p + 1
    const Tab<d, D, n1 + 1> tp(e.geometry);
    constexpr unsigned M = Tab<d, D, n1 + 1>::N;
    std::vector<std::vector<double> > A(M, std::vector<double>(M + 1, 0.));
    for (unsigned k = 0; k < tp.vol.size(); ++k)
    {
      const auto& P = tp.vol[k];
      const double ka = fun(KAPPA)(P.x, t);
      for (unsigned i = 0; i < M; ++i)
      {
        for (unsigned j = 0; j < M; ++j)
          for (unsigned c = 0; c < d; ++c)
            A[i][j] += P.w * ka * P.dphi[i][c] * P.dphi[j][c];
        for (unsigned c = 0; c < d; ++c)
          A[i][M] -= P.w * lin(q[c], tab.vol[k].phi) * P.dphi[i][c];
      }
    }
    for (unsigned j = 0; j <= M; ++j)
      A[0][j] = j == 0 ? 1. : 0.;
    A[0][M] = u[0];  // the mean value
    for (unsigned i = 0; i < M; ++i)
    {
      unsigned pv = i;
      for (unsigned k = i; k < M; ++k)
        if (std::abs(A[k][i]) > std::abs(A[pv][i]))
          pv = k;
      std::swap(A[i], A[pv]);
      for (unsigned k = 0; k < M; ++k)
        if (k != i)
        {
          const double fc = A[k][i] / A[i][i];
          for (unsigned j = i; j <= M; ++j)
            A[k][j] -= fc * A[i][j];
        }
    }
    Vec us(M);
    for (unsigned i = 0; i < M; ++i)
      us[i] = A[i][M] / A[i][i];
    const double er = s.errors(lam, e, t)[0], w = l2_diff2<d, D, n1 + 1>(tp, us, t);
    CHECK_CLOSE(er, w, TOL * 10, 1 + w, "squared error of the post-processed solution");
  }
  if constexpr (MASS)
  {
    // The mass flux is the flux of the problem without trace whose right-hand side is the solution.
    auto as_rhs = [&](const Vec& c) {
      const Geom<d, D> geo = e.geometry;
      Fun r;
      r.other = [=](const Vec& x, double) { return Poly{d, n1, c}.val(geo.ref(x)); };
      return r;
    };
    L m = garbage(lam), mt = garbage(lam), w = garbage(lam), wt = garbage(lam);
    CHECK(&s.trace_to_mass_flux(lam, m, e, t) == &m, "the result is not the output argument");
    s.total_numerical_flux_mass(lam, mt, e, t);
    {
      Saved off;
      const std::vector<Vec> h = bulk<d, n1>(s, lam, e, t);
      fun(RHS) = as_rhs(h[d]);
      s.residual_flux(zero, w, e, t);
      fun(RHS) = as_rhs(u);
      s.residual_flux(zero, wt, e, t);
    }
    check_same(m, w, 1 + 10 * max_abs(w) + 10 * max_abs(b), "mass flux");
    check_same(mt, wt, 1 + 10 * max_abs(wt) + 10 * max_abs(b), "total mass flux");
    L ini = garbage(lam);
    CHECK(&s.make_initial(ini, e, t) == &ini, "the result is not the output argument");
    for (unsigned f = 0; f < NF; ++f)
      for (unsigned j = 0; j < NB; ++j)
      {
        double v = 0;
        if (!dirichlet(e.node_descriptor[f]))
          for (const auto& P : tab.face[f])
            v += P.w / (double)e.geometry.face_area(f) * P.psi[j] * fun(INI)(P.x, t);
        CHECK_CLOSE(ini[f][j], v, TOL, 1 + std::abs(v), "initial trace on face " << f << ", function " << j);
      }
  }
  if constexpr (TEMP)
  {
    const double dt = g.positive(0.1, 1.);
    L old = gen_lambda<NF, NB>(g);
    zero_dirichlet<NF, NB>(old, e.node_descriptor);
    const double er = s.errors_temp(lam, old, e, dt, t);
    const std::vector<Vec> bo = bulk<d, n1>(s, old, e, t - dt);
    const Fun keep = fun(RHS);
    Vec c(u.size());
    for (unsigned i = 0; i < c.size(); ++i)
      c[i] = (bo[d][i] - u[i]) / dt;
    const Geom<d, D> geo = e.geometry;
    fun(RHS).other = [=](const Vec& x, double tt) { return keep(x, tt) + Poly{d, n1, c}.val(geo.ref(x)); };
    const double w = s.errors(lam, e, t)[0];
    fun(RHS) = keep;
    CHECK_CLOSE(er, w, TOL, 1 + w, "squared error with time derivative");
  }
}
}  // namespace loc
#define LOC_PARAMS(NAME)                                                    \
  template <unsigned int D, typename F = double>                            \
  struct NAME                                                               \
  {                                                                         \
    static constexpr std::array<unsigned int, 2U> dirichlet_nodes{1, 3};    \
    static constexpr std::array<unsigned int, 1U> neumann_nodes{2};         \
    LOC_ALL_FUNS                                                            \
  };
