// P02 (solves) and P03 (QR, determinant): LAPACK-backed dense operations.
#include "dense_common.hxx"
using namespace dl;
#ifndef ELEM_T
#define ELEM_T double
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
typedef ELEM_T T;
typedef void (*fun)(pbt::Gen&);

#if defined(DO_SOLVE)
template <unsigned N, unsigned C>
static void solve_case(pbt::Gen& g)
{
  SmallSquareMat<N, T> A = gen_mat<N, N, T>(g);
  const SmallMat<N, C, T> b = gen_mat<N, C, T>(g, true);
  unsigned kind = (unsigned)g.raw(9);
  if (kind == 1)  // dominant diagonal
    for (unsigned i = 0; i < N; ++i)
      A.data()[i * N + i] += (T)(A.data()[i * N + i] < 0 ? -20. : 20.);
  else if (kind == 2)  // zero diagonal: needs row exchanges
    for (unsigned i = 0; i < N; ++i)
      A.data()[i * N + i] = 0;
  else if (kind == 3)  // badly scaled rows
    for (unsigned i = 0; i < N; ++i)
    {
      T f = (T)std::pow(10., (double)g.signed_small(3));
      for (unsigned j = 0; j < N; ++j)
        A.data()[j * N + i] *= f;
    }
  else if (kind == 4)  // permutation-like
    for (unsigned i = 0; i < N; ++i)
      for (unsigned j = 0; j < N; ++j)
        A.data()[j * N + i] = (T)((i + 1) % N == j ? 1 + (int)i : 0);
  bool singular = false;
  if (kind == 5 || kind == 6)
  {
    unsigned k = (unsigned)g.index(N);
    for (unsigned i = 0; i < N; ++i)
      A.data()[kind == 5 ? k * N + i : i * N + k] = 0;
    singular = true;
  }
  const SmallSquareMat<N, T> A0(A);
  const SmallMat<N, C, T> b0(b);
  g.desc << "N=" << N << " rhs=" << C << " " STR(ELEM_T) " A=" << show(A) << " b=" << show(b);
  g.publish_desc();
  const Ref a = ref(A);
  long double growth;
  det(a, &growth);
  const bool well = growth > (sizeof(T) == 8 ? 1e-7L : 1e-3L);
  SmallMat<N, C, T> x;
  bool thrown = false;
  try
  {
    x = b0 / A0;
  }
  catch (const Wrapper::LAPACKexception&)
  {
    thrown = true;
  }
  g.label(singular ? "singular" : well ? "well conditioned" : "ill conditioned");
  if (singular)
  {
    CHECK(thrown, "a matrix with a zero row or column is accepted");
    g.nontrivial(any_nonzero(A0));
    return;
  }
  CHECK(!thrown || !well, "solve of a well-conditioned system throws");
  if (thrown)
    return;
  same_bits(A0, A, "const matrix changed");
  same_bits(b, b0, "const right-hand side changed");
  g.nontrivial(well && any_nonzero(b));
  auto residual = [&](const SmallMat<N, C, T>& y, const char* what)
  {
    const Ref yr = ref(y), ax = mul(a, yr);
    for (unsigned j = 0; j < C; ++j)
    {
      long double na = 0, nx = 0, nb = 0, nr = 0;
      for (unsigned i = 0; i < N; ++i)
      {
        long double row = 0;
        for (unsigned k = 0; k < N; ++k)
          row += std::abs(a.at(i, k));
        na = std::max(na, row);
        nx = std::max(nx, std::abs(yr.at(i, j)));
        nb = std::max(nb, std::abs((long double)b.data()[j * N + i]));
        nr = std::max(nr, std::abs(ax.at(i, j) - (long double)b.data()[j * N + i]));
      }
      CHECK(nr <= 64. * N * eps<T>() * (na * nx + nb),
            what << ": residual " << (double)nr << " of column " << j << " too large; x=" << show(y));
    }
  };
  if (well)
  {
    residual(x, "b / A");
    // non-const overload and raw arrays
    SmallSquareMat<N, T> A1(A0);
    SmallMat<N, C, T> b1(b0);
    residual(b1 / A1, "b / A (in place)");
    std::array<T, N * N> aa = A0.data();
    std::array<T, N * C> bb = b0.data();
    auto y = Wrapper::lapack_solve<N, C, T>(aa, bb);
    residual(SmallMat<N, C, T>(y), "lapack_solve");
    CHECK(y == bb, "lapack_solve returns the solution in the right-hand side as well");
  }
}
static const fun solves[] = {solve_case<1, 1>, solve_case<2, 1>, solve_case<3, 1>, solve_case<4, 1>,
                             solve_case<6, 1>, solve_case<9, 1>, solve_case<1, 3>, solve_case<2, 2>,
                             solve_case<2, 4>, solve_case<3, 3>, solve_case<4, 2>, solve_case<5, 7>};
FAMILY("dense_solve_" STR(ELEM_T), 24000, 400000,
       "12 shapes (1..9 unknowns, 1..7 right-hand sides), dominant / zero-diagonal / badly scaled / singular matrices; "
       "well-conditioned with non-zero right-hand side, or singular and non-zero")
{
  solves[g.index(12)](g);
}
#endif

#if defined(DO_QR)
static double colnorm(const Ref& m, unsigned j)
{
  long double s = 0;
  for (unsigned i = 0; i < m.r; ++i)
    s += m.at(i, j) * m.at(i, j);
  return (double)std::sqrt(s);
}
template <unsigned N>
static void check_orthogonal(const SmallSquareMat<N, T>& Q, const char* what)
{
  const Ref q = ref(Q), p = mul(tr(q), q);
  for (unsigned i = 0; i < N; ++i)
    for (unsigned j = 0; j < N; ++j)
      CHECK_CLOSE((double)p.at(i, j), i == j ? 1. : 0., 40 * N * eps<T>(), 1.,
                  what << ": Q^T Q at (" << i << "," << j << "), Q=" << show(Q));
}
template <unsigned R, unsigned C>
static void qr_case(pbt::Gen& g)
{
  SmallMat<R, C, T> A = gen_mat<R, C, T>(g);
  unsigned kind = (unsigned)g.raw(9);
  if (kind == 1)  // axis-aligned columns (what orthotopic geometries produce)
    for (unsigned i = 0; i < R; ++i)
      for (unsigned j = 0; j < C; ++j)
        A.data()[j * R + i] = (T)((i + 1) % R == j ? (g.raw(1) ? -1. : 1.) * (1 + (int)g.raw(3)) : 0.);
  else if (kind == 2)  // diagonal, any signs
    for (unsigned i = 0; i < R; ++i)
      for (unsigned j = 0; j < C; ++j)
        A.data()[j * R + i] = (T)(i == j ? g.real() : 0.);
  else if (kind == 3)
    for (unsigned i = 0; i < R; ++i)
      A.data()[i] = 0;
  const SmallMat<R, C, T> A0(A);
  const Ref a = ref(A0);
  g.desc << R << "x" << C << " " STR(ELEM_T) " A=" << show(A0);
  g.publish_desc();
  g.nontrivial(any_nonzero(A0) && R > 1);
  double scale = 0;
  for (unsigned j = 0; j < C; ++j)
    scale = std::max(scale, colnorm(a, j));
  const double tol = 60. * R * eps<T>();

  // Q alone, any shape: orthogonal and Q^T A upper trapezoidal
  {
    SmallSquareMat<R, T> Q = qr_decomp_q(A0);
    same_bits(A0, A, "qr_decomp_q(const) changed its argument");
    check_orthogonal<R>(Q, "qr_decomp_q");
    const Ref r = mul(tr(ref(Q)), a);
    for (unsigned j = 0; j < C; ++j)
      for (unsigned i = j + 1; i < R; ++i)
        CHECK_CLOSE((double)r.at(i, j), 0., tol, scale, "Q^T A is not upper triangular at (" << i << "," << j << ")");
    std::array<T, R * C> raw = A0.data();
    SmallSquareMat<R, T> Q2(Wrapper::lapack_qr_decomp_q<R, C, T>(raw));
    check_orthogonal<R>(Q2, "lapack_qr_decomp_q");
    // Q and R as a pair of arrays
    std::array<T, R * C> rm = A0.data();
    std::array<T, R * R> qm;
    qm.fill((T)3);
    Wrapper::lapack_qr_decomp<R, C, T>(rm, qm);
    const Ref prod = mul(ref(SmallSquareMat<R, T>(qm)), ref(SmallMat<R, C, T>(rm)));
    for (unsigned j = 0; j < C; ++j)
      for (unsigned i = 0; i < R; ++i)
      {
        CHECK_CLOSE((double)prod.at(i, j), (double)a.at(i, j), tol, scale, "lapack_qr_decomp: Q R differs from A");
        if (i > j)
          CHECK(rm[j * R + i] == 0, "lapack_qr_decomp: R not upper triangular");
      }
    check_orthogonal<R>(SmallSquareMat<R, T>(qm), "lapack_qr_decomp");
    std::array<T, R * C> ro = A0.data();
    const std::array<T, R * C> rr = Wrapper::lapack_qr_decomp_r<R, C, T>(ro);
    for (unsigned k = 0; k < R * C; ++k)
      CHECK_CLOSE(rr[k], rm[k], tol, scale, "lapack_qr_decomp_r differs from R of lapack_qr_decomp");
  }
  if constexpr (R >= C)
  {
    SmallSquareMat<R, T> Q((T)g.real());  // garbage on entry must not matter
    SmallSquareMat<C, T> Rm((T)g.real());
    qr_decomp(A0, Q, Rm);
    same_bits(A0, A, "qr_decomp(const) changed its argument");
    check_orthogonal<R>(Q, "qr_decomp");
    CHECK_CLOSE((double)det(ref(Q)), 1., 100 * R * eps<T>(), 1., "det(Q) is not +1, Q=" << show(Q));
    for (unsigned j = 0; j < C; ++j)
    {
      for (unsigned i = j + 1; i < C; ++i)
        CHECK(Rm.data()[j * C + i] == 0, "R is not upper triangular: " << show(Rm));
      if (j > 0)
        CHECK(Rm.data()[j * C + j] >= 0, "negative diagonal entry " << j << " of R: " << show(Rm));
      for (unsigned i = 0; i < R; ++i)
      {
        long double v = 0;
        for (unsigned k = 0; k < C; ++k)
          v += (long double)Q.data()[k * R + i] * Rm.data()[j * C + k];
        CHECK_CLOSE((double)v, (double)a.at(i, j), tol, scale, "Q R differs from A at (" << i << "," << j << ")");
      }
    }
    SmallMat<R, C, T> B(A0);
    SmallSquareMat<R, T> Q2;
    SmallSquareMat<C, T> R2;
    qr_decomp(B, Q2, R2);
    const Ref prod = mul(ref(Q2), ref(B));
    for (unsigned j = 0; j < C; ++j)
      for (unsigned i = 0; i < R; ++i)
      {
        CHECK_CLOSE((double)prod.at(i, j), (double)a.at(i, j), tol, scale, "in-place qr_decomp: Q * mat differs from A");
        CHECK_CLOSE(B.data()[j * R + i], i < C ? R2.data()[j * C + i] : T(0), tol, scale,
                    "in-place qr_decomp: returned R and reduced R differ");
      }
    // determinant
    double had = 1;
    for (unsigned j = 0; j < C; ++j)
      had *= colnorm(a, j);
    const T d = determinant(A0);
    same_bits(A0, A, "determinant(const) changed its argument");
    SmallMat<R, C, T> D(A0);
    CHECK_CLOSE(determinant(D), d, 1e-30, 1., "const and in-place determinant differ");
    std::array<T, R * C> da = A0.data();
    const double ld = Wrapper::lapack_det<R, C, T>(da);
    CHECK_CLOSE(ld, d, 1e-30, 1., "lapack_det and determinant differ");
    if constexpr (R == C)
      CHECK_CLOSE(d, (double)det(a), 60. * R * eps<T>(), had, "determinant");
    else
    {
      const long double gram = det(mul(tr(a), a));
      CHECK_CLOSE(std::abs((double)d), (double)std::sqrt(std::max(0.L, gram)), sizeof(T) == 8 ? 1e-8 : 2e-3, had,
                  "generalized determinant");
    }
  }
}
static const fun qrs[] = {qr_case<1, 1>, qr_case<2, 1>, qr_case<2, 2>, qr_case<3, 1>, qr_case<3, 2>, qr_case<3, 3>,
                          qr_case<4, 1>, qr_case<4, 2>, qr_case<4, 3>, qr_case<4, 4>, qr_case<5, 2>, qr_case<5, 3>,
                          qr_case<5, 5>, qr_case<9, 4>, qr_case<8, 3>, qr_case<1, 2>, qr_case<2, 4>, qr_case<3, 5>};
FAMILY("dense_qr_" STR(ELEM_T), 24000, 400000,
       "18 shapes from 1x1 to 9x4 incl. wide ones; generic, axis-aligned, diagonal, zero-column and rank-deficient "
       "matrices; more than one row and non-zero")
{
  qrs[g.index(18)](g);
}
#endif
