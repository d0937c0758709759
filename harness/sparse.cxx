// P19: sparse linear algebra and the conjugate gradient method.
#include <pbt.hxx>
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/sparse_la.hxx>
#include <deque>
template <typename V>
static V gen(pbt::Gen& g, size_t n)
{
  V v(n, 0);
  for (size_t i = 0; i < n; ++i)
    v[i] = (typename V::value_type)g.real();
  return v;
}
template <typename V>
static void vec_case(pbt::Gen& g)
{
  typedef typename V::value_type F;
  const double eps = std::numeric_limits<F>::epsilon();
  const size_t n = g.raw(12);
  const V a = gen<V>(g, n), b = gen<V>(g, n);
  V res = gen<V>(g, n);
  const F p = (F)g.real(), q = (F)g.real();
  g.desc << "vectors of length " << n;
  g.nontrivial(n > 1);
  long double ip = 0, ipa = 0, nn = 0;
  for (size_t i = 0; i < n; ++i)
  {
    ip += (long double)a[i] * b[i];
    ipa += std::abs((long double)a[i] * b[i]);
    nn += (long double)a[i] * a[i];
  }
  CHECK_CLOSE((double)SparseLA::inner_product(a, b), (double)ip, 20 * eps, (double)ipa, "inner_product");
  CHECK_CLOSE((double)SparseLA::norm_2(a), (double)std::sqrt(nn), 20 * eps, (double)std::sqrt(nn), "norm_2");
  const V c = SparseLA::linear_combination(p, a, q, b);
  CHECK(c.size() == n, "size of the linear combination");
  V alias_a = a, alias_b = b;
  SparseLA::linear_combination(p, a, q, b, res);
  SparseLA::linear_combination(p, alias_a, q, b, alias_a);
  SparseLA::linear_combination(p, a, q, alias_b, alias_b);
  for (size_t i = 0; i < n; ++i)
  {
    const long double e = (long double)p * a[i] + (long double)q * b[i];
    const double s = (double)(std::abs((long double)p * a[i]) + std::abs((long double)q * b[i]));
    CHECK_CLOSE((double)c[i], (double)e, 4 * eps, s, "linear_combination entry " << i);
    CHECK(res[i] == c[i] && alias_a[i] == c[i] && alias_b[i] == c[i], "in-place linear_combination entry " << i);
  }
  if (g.chance(1, 40))
  {
    const int k = (int)g.raw(3);
    const V d = gen<V>(g, n + 1 + g.raw(2));
    auto r = pbt::run_child(
      [&]
      {
        if (k == 0)
          (void)SparseLA::inner_product(a, d);
        else if (k == 1)
          (void)SparseLA::linear_combination(p, a, q, d);
        else if (k == 2)
          SparseLA::linear_combination(p, a, q, b, const_cast<V&>(d));
        else
          SparseLA::linear_combination(p, d, q, b, res);
      });
    CHECK(r.kind == pbt::ChildResult::aborted, "vectors of different size accepted by operation " << k);
  }
}
FAMILY("vector_operations", 20000, 400000, "length > 1")
{
  switch (g.raw(2))
  {
    case 0: return vec_case<std::vector<double>>(g);
    case 1: return vec_case<std::vector<float>>(g);
    default: return vec_case<std::deque<double>>(g);
  }
}
template <typename F>
struct Op
{
  size_t n;
  std::vector<double> a;
  unsigned calls = 0;
  double moved = 0;  // bound for the sum of the lengths of all updates of the residual
  std::vector<F> trace_to_flux(const std::vector<F>& x)
  {
    ++calls;
    std::vector<F> y(n, 0);
    for (size_t i = 0; i < n; ++i)
    {
      double s = 0;
      for (size_t j = 0; j < n; ++j)
        s += a[i * n + j] * (double)x[j];
      y[i] = (F)s;
    }
    double dd = 0, dz = 0, zz = 0;
    for (size_t i = 0; i < n; ++i)
      dd += (double)x[i] * (double)x[i], dz += (double)x[i] * (double)y[i], zz += (double)y[i] * (double)y[i];
    moved += dd == 0 ? 0. : std::max(dd * std::sqrt(zz) / std::abs(dz), std::sqrt(dd));
    return y;
  }
};
template <typename F>
static void cg_case(pbt::Gen& g)
{
  const size_t n = 1 + g.raw(11);
  Op<F> op{n, std::vector<double>(n * n, 0.)};
  // symmetric positive definite, with a zero block for "Dirichlet" dofs in some cases
  std::vector<double> l(n * n);
  for (auto& x : l)
    x = g.real() / 8;
  std::vector<bool> dead(n, false);
  if (n > 1 && g.raw(2) == 0)
    for (size_t i = 0; i < n; ++i)
      dead[i] = g.raw(3) == 0;
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j)
      if (!dead[i] && !dead[j])
      {
        for (size_t k = 0; k < n; ++k)
          op.a[i * n + j] += l[i * n + k] * l[j * n + k];
        if (i == j)
          op.a[i * n + j] += 1.;
      }
  std::vector<F> b = gen<std::vector<F>>(g, n);
  for (size_t i = 0; i < n; ++i)
    if (dead[i] || g.raw(6) == 0)
      b[i] = 0;
  const std::vector<F> b0 = b;
  double bn = 0;
  for (auto x : b)
    bn += (double)x * (double)x;
  bn = std::sqrt(bn);
  const bool ok = sizeof(F) == 8;
  const double tol = ok ? g.oneof<double>({1e-9, 1e-6, 1e-3}) : g.oneof<double>({1e-2, 1e-1});
  const unsigned iters = g.raw(2) == 0 ? 0 : 1 + (unsigned)g.raw(3 * n + 30);
  g.desc << "CG: " << n << " unknowns, tolerance " << tol << ", iterations " << iters << ", |b| " << bn;
  g.nontrivial(n > 1 && bn > tol);
  bool threw = false;
  std::vector<F> x;
  try
  {
    x = (iters == 0 && tol == 1e-9 && g.raw(1)) ? SparseLA::conjugate_gradient(b, op) : SparseLA::conjugate_gradient(b, op, iters, (F)tol);
  }
  catch (const SparseLA::SolveException&)
  {
    threw = true;
  }
  CHECK(b == b0, "right-hand side changed");
  const unsigned limit = iters ? iters : (unsigned)n;
  CHECK(op.calls <= limit, "used " << op.calls << " applications of the operator, allowed are " << limit);
  if (bn < tol * 0.999)
  {
    CHECK(!threw, "small right-hand side: exception");
    for (auto v : x)
      CHECK(v == 0, "small right-hand side: solution not zero");
    return;
  }
  if (threw)
  {
    // only admissible if the iteration limit was exhausted, and not with generous limits
    CHECK(op.calls == limit, "gave up after " << op.calls << " of " << limit << " iterations");
    CHECK(limit < 3 * n + 20, "no convergence within " << limit << " iterations for a well-conditioned SPD system of size " << n);
    g.label("gave up within the iteration limit");
    return;
  }
  CHECK(x.size() == n, "size of the solution");
  auto ax = op.trace_to_flux(x);
  double r = 0, xn = 0;
  for (size_t i = 0; i < n; ++i)
  {
    r += ((double)ax[i] - (double)b[i]) * ((double)ax[i] - (double)b[i]);
    xn += (double)x[i] * (double)x[i];
  }
  double an = 0;
  for (auto v : op.a)
    an += v * v;
  const double slack = 1000. * std::numeric_limits<F>::epsilon() * (std::sqrt(an * xn) + bn);
  CHECK(std::sqrt(r) <= tol + slack, "residual " << std::sqrt(r) << " exceeds the tolerance " << tol);
  for (size_t i = 0; i < n; ++i)
    if (dead[i])
      CHECK(x[i] == 0, "dof " << i << " without equation got the value " << x[i]);
}
FAMILY("conjugate_gradient", 20000, 400000, "more than one unknown and a right-hand side above the tolerance")
{
  if (g.raw(3) == 0)
    cg_case<float>(g);
  else
    cg_case<double>(g);
}
/// Operators that are not positive definite or hide failures must never give an unconverged result.
FAMILY("cg_never_lies", 10000, 200000, "indefinite or singular symmetric system with a right-hand side above the tolerance")
{
  const size_t n = 1 + g.raw(7);
  Op<double> op{n, std::vector<double>(n * n, 0.)};
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j <= i; ++j)
      op.a[i * n + j] = op.a[j * n + i] = g.raw(2) == 0 ? 0. : g.real() / 4;
  const auto b = gen<std::vector<double>>(g, n);
  const unsigned iters = (unsigned)g.raw(2 * n);
  g.desc << "CG on an indefinite system of size " << n << " with " << iters << " iterations";
  g.nontrivial(n > 1);
  std::vector<double> x;
  try
  {
    x = SparseLA::conjugate_gradient(b, op, iters, 1e-6);
  }
  catch (const SparseLA::SolveException&)
  {
    g.label("refused");
    return;
  }
  // The recursively updated residual drifts by rounding, in proportion to the length of all of its updates.
  const double slack = 1e-13 * op.moved;
  if (!(slack < 1e-3))
  {
    g.label("drift");
    return;
  }
  auto ax = op.trace_to_flux(x);
  double r = 0, xn = 0, an = 0, bn = 0;
  for (size_t i = 0; i < n; ++i)
  {
    r += (ax[i] - b[i]) * (ax[i] - b[i]);
    xn += x[i] * x[i];
    bn += b[i] * b[i];
  }
  for (auto v : op.a)
    an += v * v;
  g.label("solved");
  CHECK(std::sqrt(r) <= 1.001e-6 + slack + 1e-13 * (std::sqrt(an * xn) + std::sqrt(bn)), "returned a vector with residual " << std::sqrt(r));
}
