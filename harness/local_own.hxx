// An independent discretisation of the local problems: matrices from our own polynomials and
// quadrature, solved by our own elimination. Results of the solvers under test are compared to it.
#pragma once
#include "local_ldg.hxx"
namespace loc
{
typedef std::function<double(const Vec&)> XF;
template <unsigned d, unsigned D, unsigned n1>
struct Own
{
  typedef Tab<d, D, n1> T;
  static constexpr unsigned N = T::N, NB = T::NB, NF = 2 * d;
  typedef std::array<std::array<double, NB>, NF> L;
  typedef std::function<double(unsigned, const typename T::Pt&)> FaceF;
  const T& tab;
  unsigned n;
  std::vector<Vec> A;
  Vec b;
  Own(const T& t, unsigned n_blocks) : tab(t), n(n_blocks * N), A(n, Vec(n, 0.)), b(n, 0.) {}
  /// k q = -grad u, s * (div q + penalty) as functionals; q starts at q0, u at u0, tests of the
  /// balance equation at row r0
  void ldg(unsigned q0, unsigned u0, unsigned r0, double tau, double s, const XF& kinv)
  {
    for (const auto& p : tab.vol)
    {
      const double k = kinv(p.x);
      for (unsigned i = 0; i < N; ++i)
        for (unsigned j = 0; j < N; ++j)
          for (unsigned c = 0; c < d; ++c)
          {
            A[q0 + c * N + i][q0 + c * N + j] += p.w * k * p.phi[i] * p.phi[j];
            A[q0 + c * N + i][u0 + j] -= p.w * p.phi[j] * p.dphi[i][c];
            A[r0 + i][q0 + c * N + j] -= s * p.w * p.phi[j] * p.dphi[i][c];
          }
    }
    for (unsigned f = 0; f < NF; ++f)
      for (const auto& p : tab.face[f])
        for (unsigned i = 0; i < N; ++i)
          for (unsigned j = 0; j < N; ++j)
          {
            for (unsigned c = 0; c < d; ++c)
              A[r0 + i][q0 + c * N + j] += s * p.w * tab.nrm[f][c] * p.phi[i] * p.phi[j];
            A[r0 + i][u0 + j] += s * p.w * tau * p.phi[i] * p.phi[j];
          }
  }
  void mass(unsigned r0, unsigned c0, const XF& k)
  {
    for (const auto& p : tab.vol)
    {
      const double v = k(p.x) * p.w;
      for (unsigned i = 0; i < N; ++i)
        for (unsigned j = 0; j < N; ++j)
          A[r0 + i][c0 + j] += v * p.phi[i] * p.phi[j];
    }
  }
  void rhs(unsigned r0, const XF& f)
  {
    for (const auto& p : tab.vol)
    {
      const double v = f(p.x) * p.w;
      for (unsigned i = 0; i < N; ++i)
        b[r0 + i] += v * p.phi[i];
    }
  }
  void rhs_poly(unsigned r0, const Vec& c)
  {
    for (const auto& p : tab.vol)
    {
      const double v = lin(c, p.phi) * p.w;
      for (unsigned i = 0; i < N; ++i)
        b[r0 + i] += v * p.phi[i];
    }
  }
  /// the given trace enters both equations (q0 = -1: only the balance equation)
  void rhs_trace(int q0, unsigned r0, double tau, double s, const FaceF& tr)
  {
    for (unsigned f = 0; f < NF; ++f)
      for (const auto& p : tab.face[f])
      {
        const double v = tr(f, p) * p.w;
        for (unsigned i = 0; i < N; ++i)
        {
          b[r0 + i] += s * tau * v * p.phi[i];
          if (q0 >= 0)
            for (unsigned c = 0; c < d; ++c)
              b[q0 + c * N + i] -= v * tab.nrm[f][c] * p.phi[i];
        }
      }
  }
  Vec solve() const
  {
    std::vector<Vec> M = A;
    for (unsigned i = 0; i < n; ++i)
      M[i].push_back(b[i]);
    for (unsigned i = 0; i < n; ++i)
    {
      unsigned pv = i;
      for (unsigned k = i; k < n; ++k)
        if (std::abs(M[k][i]) > std::abs(M[pv][i]))
          pv = k;
      std::swap(M[i], M[pv]);
      for (unsigned k = i + 1; k < n; ++k)
      {
        const double fc = M[k][i] / M[i][i];
        if (fc != 0)
          for (unsigned j = i; j <= n; ++j)
            M[k][j] -= fc * M[i][j];
      }
    }
    Vec x(n);
    for (unsigned i = n; i-- > 0;)
    {
      double s = M[i][n];
      for (unsigned j = i + 1; j < n; ++j)
        s -= M[i][j] * x[j];
      x[i] = s / M[i][i];
    }
    return x;
  }
  Vec part(const Vec& x, unsigned o) const { return Vec(x.begin() + o, x.begin() + o + N); }
  /// integral of (q.n + tau (u - trace)) psi_j over every face
  L flux(const Vec& x, unsigned q0, unsigned u0, double tau, const FaceF& tr) const
  {
    L r;
    for (unsigned f = 0; f < NF; ++f)
    {
      r[f].fill(0.);
      for (const auto& p : tab.face[f])
      {
        double v = -tau * tr(f, p);
        for (unsigned i = 0; i < N; ++i)
        {
          v += tau * x[u0 + i] * p.phi[i];
          for (unsigned c = 0; c < d; ++c)
            v += x[q0 + c * N + i] * tab.nrm[f][c] * p.phi[i];
        }
        for (unsigned j = 0; j < NB; ++j)
          r[f][j] += p.w * v * p.psi[j];
      }
    }
    return r;
  }
  /// applies the functional of the balance equation to known q, u, trace: (q, grad v) - <q.n + tau (u - tr), v>
  Vec minus_balance(const Vec& x, unsigned q0, unsigned u0, double tau, const FaceF& tr) const
  {
    Vec r(N, 0.);
    for (const auto& p : tab.vol)
      for (unsigned c = 0; c < d; ++c)
      {
        const double v = p.w * lin(part(x, q0 + c * N), p.phi);
        for (unsigned i = 0; i < N; ++i)
          r[i] += v * p.dphi[i][c];
      }
    for (unsigned f = 0; f < NF; ++f)
      for (const auto& p : tab.face[f])
      {
        double v = tau * (lin(part(x, u0), p.phi) - tr(f, p));
        for (unsigned c = 0; c < d; ++c)
          v += lin(part(x, q0 + c * N), p.phi) * tab.nrm[f][c];
        for (unsigned i = 0; i < N; ++i)
          r[i] -= p.w * v * p.phi[i];
      }
    return r;
  }
};
inline double vmax(const Vec& v)
{
  double m = 0;
  for (double x : v)
    m = std::max(m, std::abs(x));
  return m;
}
inline XF at(unsigned k, double t)
{
  return [=](const Vec& x) { return fun(k)(x, t); };
}
inline XF one(double v = 1.)
{
  return [=](const Vec&) { return v; };
}
inline void check_coeff(const Vec& a, const Vec& b, double scale, const char* what)
{
  for (unsigned i = 0; i < a.size(); ++i)
    CHECK_CLOSE(a[i], b[i], TOL, scale, what << ", coefficient " << i);
}
/// projection of initial data on a face
template <typename T>
double face_projection(const T& tab, unsigned f, unsigned j, unsigned k, double t)
{
  double v = 0, m = 0;
  for (const auto& P : tab.face[f])
  {
    v += P.w * P.psi[j] * fun(k)(P.x, t);
    m += P.w;
  }
  return v / m;
}
}  // namespace loc
