// The oracle for the local solvers of the bilaplacian family (mixed form, unknowns q, u, p, w):
//   q = -grad u, div q = k w, p = -grad w, div p = f.
#pragma once
#include "local_own.hxx"
namespace loc
{
inline bool dirichlet_lap(unsigned type) { return type == 2 || type == 3; }
template <unsigned d, unsigned D, unsigned n1>
struct Bilap
{
  typedef Own<d, D, n1> O;
  static constexpr unsigned N = O::N, NB = O::NB, NF = O::NF, Q0 = 0, U0 = d * N, P0 = (d + 1) * N, W0 = (2 * d + 1) * N;
  typedef std::array<std::array<double, 2 * NB>, NF> L;
  typedef std::array<unsigned, NF> Types;
  const Tab<d, D, n1>& tab;
  O own;
  /// s scales the balance of p (time step), uu multiplies (u, v) there
  Bilap(const Tab<d, D, n1>& t, double tau, const XF& k, double s = 1., double uu = 0.) : tab(t), own(t, 2 * d + 2)
  {
    own.ldg(Q0, U0, U0, tau, 1., one());
    own.mass(U0, W0, [&](const Vec& x) { return -k(x); });
    own.ldg(P0, W0, W0, tau, s, one());
    if (uu != 0)
      own.mass(W0, U0, one(uu));
  }
  typedef typename O::FaceF FaceF;
  static FaceF tr(const L& l, unsigned half)
  {
    return [&l, half](unsigned f, const auto& p) {
      double s = 0;
      for (unsigned j = 0; j < NB; ++j)
        s += l[f][half * NB + j] * p.psi[j];
      return s;
    };
  }
  static FaceF dir(const Types& ty, unsigned half, double t)
  {
    return [=](unsigned f, const auto& p) {
      return half == 0 ? (dirichlet(ty[f]) ? fun(DIR)(p.x, t) : 0.) : (dirichlet_lap(ty[f]) ? fun(DIRL)(p.x, t) : 0.);
    };
  }
  void rhs_lambda(const L& l, double tau, double s = 1.)
  {
    own.rhs_trace(Q0, U0, tau, 1., tr(l, 0));
    own.rhs_trace(P0, W0, tau, s, tr(l, 1));
  }
  void rhs_dirichlet(const Types& ty, double tau, double t, double s = 1.)
  {
    own.rhs_trace(Q0, U0, tau, 1., dir(ty, 0, t));
    own.rhs_trace(P0, W0, tau, s, dir(ty, 1, t));
  }
  /// first half: flux of w; second half: flux of u
  L flux(const Vec& x, const L& l, const Types& ty, double tau) const
  {
    const auto fu = own.flux(x, Q0, U0, tau, tr(l, 0)), fw = own.flux(x, P0, W0, tau, tr(l, 1));
    L r;
    for (unsigned f = 0; f < NF; ++f)
      for (unsigned j = 0; j < NB; ++j)
      {
        r[f][j] = dirichlet(ty[f]) ? 0. : fw[f][j];
        r[f][NB + j] = dirichlet_lap(ty[f]) ? 0. : fu[f][j];
      }
    return r;
  }
};
template <unsigned NF, unsigned NB2>
void zero_dirichlet2(std::array<std::array<double, NB2>, NF>& l, const std::array<unsigned, NF>& types)
{
  for (unsigned f = 0; f < NF; ++f)
    for (unsigned j = 0; j < NB2; ++j)
      if (j < NB2 / 2 ? dirichlet(types[f]) : dirichlet_lap(types[f]))
        l[f][j] = 0;
}
template <typename L>
L zeros()
{
  L r;
  for (auto& a : r)
    a.fill(0.);
  return r;
}
/// initial traces: projections, zero on Dirichlet faces
template <typename T, typename L>
void check_initial2(const T& tab, const L& ini, const std::vector<unsigned>& ty, double t)
{
  const unsigned NB = (unsigned)ini[0].size() / 2;
  for (unsigned f = 0; f < ini.size(); ++f)
    for (unsigned j = 0; j < 2 * NB; ++j)
    {
      if (dirichlet(ty[f]) && j < NB)
        CHECK(ini[f][j] == 0., "initial trace on Dirichlet face " << f << " is " << ini[f][j]);
      if (dirichlet(ty[f]) || dirichlet_lap(ty[f]))
        continue;
      const double v = face_projection(tab, f, j % NB, j < NB ? INI : INIL, t);
      CHECK_CLOSE(ini[f][j], v, TOL, 1 + std::abs(v), "initial trace on face " << f << ", entry " << j);
    }
}
}  // namespace loc
#define LOC_PARAMS2(NAME)                                                        \
  template <unsigned int D, typename F = double>                                 \
  struct NAME                                                                    \
  {                                                                              \
    static constexpr std::array<unsigned int, 2U> dirichlet_nodes{1, 3};         \
    static constexpr std::array<unsigned int, 2U> dirichlet_laplacian_nodes{2, 3}; \
    static constexpr std::array<unsigned int, 0U> neumann_nodes{};               \
    static constexpr std::array<unsigned int, 0U> neumann_laplacian_nodes{};     \
    LOC_ALL_FUNS                                                                 \
  };
