// P01: entrywise operations, constructors, comparisons, norms, structural operations.
#include "dense_common.hxx"
using namespace dl;
#ifndef ELEM_T
#define ELEM_T double
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
typedef ELEM_T T;

template <unsigned R, unsigned C>
static void shape_case(pbt::Gen& g)
{
  typedef SmallMat<R, C, T> M;
  const bool wide = g.raw(3) == 3;
  const M A = gen_mat<R, C, T>(g, wide), B = gen_mat<R, C, T>(g, wide);
  const SmallMat<R, 1, T> v = gen_mat<R, 1, T>(g, wide);
  const T s = (T)g.real();
  g.desc << R << "x" << C << " " STR(ELEM_T) " A=" << show(A) << " B=" << show(B) << " v=" << show(v)
         << " s=" << s;
  g.publish_desc();
  g.nontrivial(any_nonzero(A) && any_nonzero(B) && s != 0);
  auto a = [&](unsigned i, unsigned j) { return A.data()[j * R + i]; };
  auto b = [&](unsigned i, unsigned j) { return B.data()[j * R + i]; };

  // sizes, access, constructors
  CHECK(M::n_rows() == R && M::n_cols() == C && M::size() == R * C, "sizes");
  CHECK(M::dimensions()[0] == R && M::dimensions()[1] == C, "dimensions");
  elementwise(M(), [&](unsigned, unsigned) { return 0.; }, "default constructor");
  elementwise(M(s), [&](unsigned, unsigned) { return s; }, "constant constructor");
  same_bits(M(A.data()), A, "array constructor");
  {
    std::array<T, R * C> arr = A.data();
    same_bits(M(std::move(arr)), A, "array move constructor");
    std::vector<T> vec(A.data().begin(), A.data().end());
    same_bits(M(vec), A, "vector constructor");
    M copy(A), moved(std::move(copy)), assigned, massigned;
    same_bits(moved, A, "move constructor");
    assigned = A;
    same_bits(assigned, A, "copy assignment");
    M tmp(A);
    massigned = std::move(tmp);
    same_bits(massigned, A, "move assignment");
    assigned.data()[0] += (T)1;
    CHECK(assigned.data()[0] != A.data()[0] || std::abs((double)a(0, 0)) > 1e6, "copies are independent");
    M self(A);
    M& selfr = self;
    self = selfr;
    same_bits(self, A, "self assignment");
    SmallMat<R, C, double> d(A);
    SmallMat<R, C, float> f(A);
    for (unsigned i = 0; i < R * C; ++i)
      CHECK(d.data()[i] == (double)A.data()[i] && f.data()[i] == (float)A.data()[i],
            "converting constructor at " << i);
    // from other entry types: the value is converted once, from all of its digits
    SmallMat<R, C, long double> l;
    SmallMat<R, C, int> n;
    for (unsigned i = 0; i < R * C; ++i)
    {
      l.data()[i] = (long double)a(i % R, i / R) / 3.L;
      n.data()[i] = (int)g.signed_small(2000000000);
    }
    const M fl(l);
    const SmallMat<R, C, double> fn(n);
    for (unsigned i = 0; i < R * C; ++i)
    {
      CHECK(fl.data()[i] == (T)l.data()[i], "conversion from long double at " << i);
      CHECK(fn.data()[i] == (double)n.data()[i], "conversion from int at " << i);
    }
  }
  {
    unsigned k = 0;
    for (auto x : A)
      CHECK(x == A.data()[k++], "iteration order");
    CHECK(k == R * C, "iteration length");
    M w(A);
    for (unsigned i = 0; i < R; ++i)
      for (unsigned j = 0; j < C; ++j)
      {
        CHECK(A(i, j) == a(i, j), "read access (" << i << "," << j << ")");
        CHECK(A[j * R + i] == a(i, j), "linear index");
        w(i, j) = b(i, j);
        CHECK(w.data()[j * R + i] == b(i, j), "write access (" << i << "," << j << ")");
      }
    same_bits(w, B, "written matrix");
    for (unsigned i = 0; i < R * C; ++i)
      w[i] = A.data()[i];
    same_bits(w, A, "linearly written matrix");
  }
  // columns
  {
    unsigned col = (unsigned)g.index(C);
    auto c = A.get_column(col);
    for (unsigned i = 0; i < R; ++i)
      CHECK(c.data()[i] == a(i, col), "get_column");
    M w(A);
    w.set_column(col, v);
    elementwise(w, [&](unsigned i, unsigned j) { return j == col ? v.data()[i] : a(i, j); }, "set_column");
  }
  // comparisons
  {
    M D(A);
    unsigned how = (unsigned)g.raw(2), pos = (unsigned)g.index(R * C);
    if (how == 1)
      D.data()[pos] = (T)g.real();
    else if (how == 2)
      D = B;
    bool eq = std::equal(A.data().begin(), A.data().end(), D.data().begin());
    bool lt = std::lexicographical_compare(A.data().begin(), A.data().end(), D.data().begin(), D.data().end());
    bool gt = std::lexicographical_compare(D.data().begin(), D.data().end(), A.data().begin(), A.data().end());
    CHECK((A == D) == eq, "==");
    CHECK((A != D) == !eq, "!=");
    CHECK((A < D) == lt, "< " << show(A) << " vs " << show(D));
    CHECK((D < A) == gt, "> " << show(A) << " vs " << show(D));
  }
  // scalar operations
  {
    M w(A);
    M& r1 = (w += s);
    CHECK(&r1 == &w, "+= returns *this");
    elementwise(w, [&](unsigned i, unsigned j) { return a(i, j) + s; }, "+= scalar");
    w = A;
    w -= s;
    elementwise(w, [&](unsigned i, unsigned j) { return a(i, j) - s; }, "-= scalar");
    w = A;
    w *= s;
    elementwise(w, [&](unsigned i, unsigned j) { return a(i, j) * s; }, "*= scalar");
    w = A;
    bool thrown = false;
    try
    {
      w /= s;
    }
    catch (const SmallMatDivByZeroException&)
    {
      thrown = true;
    }
    CHECK(thrown == (s == 0), "division by a scalar throws exactly for zero");
    if (!thrown)
      elementwise(w, [&](unsigned i, unsigned j) { return a(i, j) / s; }, "/= scalar");
    // the scalar may be an entry of the matrix itself
    const unsigned pos = (unsigned)g.index(R * C);
    const T e = A.data()[pos];
    w = A;
    w += w[pos];
    elementwise(w, [&](unsigned i, unsigned j) { return a(i, j) + e; }, "+= own entry");
    w = A;
    w -= w[pos];
    elementwise(w, [&](unsigned i, unsigned j) { return a(i, j) - e; }, "-= own entry");
    w = A;
    w *= w(pos % R, pos / R);
    elementwise(w, [&](unsigned i, unsigned j) { return a(i, j) * e; }, "*= own entry");
    if (e != 0)
    {
      w = A;
      w /= w[pos];
      elementwise(w, [&](unsigned i, unsigned j) { return a(i, j) / e; }, "/= own entry");
    }
    elementwise(A + s, [&](unsigned i, unsigned j) { return a(i, j) + s; }, "mat + scalar");
    elementwise(s + A, [&](unsigned i, unsigned j) { return s + a(i, j); }, "scalar + mat");
    elementwise(A - s, [&](unsigned i, unsigned j) { return a(i, j) - s; }, "mat - scalar");
    elementwise(s - A, [&](unsigned i, unsigned j) { return s - a(i, j); }, "scalar - mat");
    elementwise(A * s, [&](unsigned i, unsigned j) { return a(i, j) * s; }, "mat * scalar");
    elementwise(s * A, [&](unsigned i, unsigned j) { return s * a(i, j); }, "scalar * mat");
    if (s != 0)
      elementwise(A / s, [&](unsigned i, unsigned j) { return a(i, j) / s; }, "mat / scalar");
    bool zero = false;
    for (auto x : A.data())
      zero = zero || x == 0;
    thrown = false;
    try
    {
      auto q = s / A;
      elementwise(q, [&](unsigned i, unsigned j) { return s / a(i, j); }, "scalar / mat");
    }
    catch (const SmallMatDivByZeroException&)
    {
      thrown = true;
    }
    CHECK(thrown == zero, "scalar / matrix throws exactly if an entry is zero");
    g.label(zero ? "matrix has a zero entry" : "matrix has no zero entry");
  }
  // matrix operations
  {
    elementwise(A + B, [&](unsigned i, unsigned j) { return a(i, j) + b(i, j); }, "A + B");
    elementwise(A - B, [&](unsigned i, unsigned j) { return a(i, j) - b(i, j); }, "A - B");
    elementwise(hada_prod(A, B), [&](unsigned i, unsigned j) { return a(i, j) * b(i, j); }, "hada_prod");
    M w(A);
    w += B;
    elementwise(w, [&](unsigned i, unsigned j) { return a(i, j) + b(i, j); }, "+=");
    w = A;
    w -= B;
    elementwise(w, [&](unsigned i, unsigned j) { return a(i, j) - b(i, j); }, "-=");
    w = A;
    w *= B;
    elementwise(w, [&](unsigned i, unsigned j) { return a(i, j) * b(i, j); }, "*= matrix");
    w = A;
    w += w;
    elementwise(w, [&](unsigned i, unsigned j) { return a(i, j) + a(i, j); }, "w += w");
    w = A;
    w -= w;
    elementwise(w, [&](unsigned, unsigned) { return 0.; }, "w -= w");
    w = A;
    w *= w;
    elementwise(w, [&](unsigned i, unsigned j) { return a(i, j) * a(i, j); }, "w *= w");
    bool zero = false;
    for (auto x : B.data())
      zero = zero || x == 0;
    int thrown = 0;
    try
    {
      elementwise(hada_divi(A, B), [&](unsigned i, unsigned j) { return a(i, j) / b(i, j); }, "hada_divi");
    }
    catch (const SmallMatDivByZeroException&)
    {
      ++thrown;
    }
    try
    {
      w = A;
      w /= B;
      elementwise(w, [&](unsigned i, unsigned j) { return a(i, j) / b(i, j); }, "/= matrix");
    }
    catch (const SmallMatDivByZeroException&)
    {
      ++thrown;
    }
    CHECK(thrown == (zero ? 2 : 0), "entrywise division throws exactly if a divisor entry is zero");
    // column broadcasting
    elementwise(A + v, [&](unsigned i, unsigned j) { return a(i, j) + v.data()[i]; }, "mat + column");
    elementwise(v + A, [&](unsigned i, unsigned j) { return v.data()[i] + a(i, j); }, "column + mat");
    elementwise(A - v, [&](unsigned i, unsigned j) { return a(i, j) - v.data()[i]; }, "mat - column");
    elementwise(v - A, [&](unsigned i, unsigned j) { return v.data()[i] - a(i, j); }, "column - mat");
    w = A;
    w += v;
    elementwise(w, [&](unsigned i, unsigned j) { return a(i, j) + v.data()[i]; }, "+= column");
    w = A;
    w -= v;
    elementwise(w, [&](unsigned i, unsigned j) { return a(i, j) - v.data()[i]; }, "-= column");
    elementwise(rep_mat<R, C, T>(v), [&](unsigned i, unsigned) { return v.data()[i]; }, "rep_mat");
    elementwise(transposed(A), [&](unsigned i, unsigned j) { return a(j, i); }, "transposed");
  }
  // diagonal matrices
  {
    constexpr unsigned K = R < C ? R : C;
    elementwise(diagonal<R, C, T>(s), [&](unsigned i, unsigned j) { return i == j ? s : T(0); }, "diagonal(s)");
    SmallMat<K, 1, T> dv = gen_mat<K, 1, T>(g);
    elementwise(diagonal<R, C, T>(dv), [&](unsigned i, unsigned j) { return i == j ? dv.data()[i] : T(0); },
                "diagonal(vector)");
    if constexpr (K > 1)
    {
      SmallMat<K - 1, 1, T> dw = gen_mat<K - 1, 1, T>(g);
      elementwise(diagonal<R, C, T>(dw),
                  [&](unsigned i, unsigned j) { return i == j && i < K - 1 ? dw.data()[i] : T(0); },
                  "diagonal(short vector)");
    }
  }
  // reductions
  {
    long double sp = 0, spa = 0, mx1 = 0, mxi = 0, prod = 1;
    for (unsigned i = 0; i < R; ++i)
      for (unsigned j = 0; j < C; ++j)
      {
        sp += (long double)a(i, j) * b(i, j);
        spa += std::abs((long double)a(i, j) * b(i, j));
        prod *= a(i, j);
      }
    CHECK_CLOSE(scalar_product(A, B), (double)sp, (2. * R * C + 4) * eps<T>(), (double)spa, "scalar product");
    for (unsigned j = 0; j < C; ++j)
    {
      long double q = 0;
      for (unsigned i = 0; i < R; ++i)
        q += std::abs((long double)a(i, j));
      mx1 = std::max(mx1, q);
    }
    for (unsigned i = 0; i < R; ++i)
    {
      long double q = 0;
      for (unsigned j = 0; j < C; ++j)
        q += std::abs((long double)a(i, j));
      mxi = std::max(mxi, q);
    }
    CHECK_CLOSE(norm_1(A), (double)mx1, (2. * R + 4) * eps<T>(), (double)mx1, "norm_1 of " << show(A));
    CHECK_CLOSE(norm_infty(A), (double)mxi, (2. * C + 4) * eps<T>(), (double)mxi, "norm_infty of " << show(A));
    if (!wide && R * C <= 12)
      CHECK_CLOSE(entries_product(A), (double)prod, (2. * R * C + 4) * eps<T>(), (double)std::abs(prod),
                  "entries_product");
    if constexpr (C == 1)
    {
      long double q = 0;
      for (auto x : A.data())
        q += (long double)x * x;
      q = std::sqrt(q);
      CHECK_CLOSE(norm_2(A), (double)q, (2. * R + 4) * eps<T>(), (double)q, "norm_2");
      T p = (T)(1. + g.raw(16) / 4.);
      long double np = 0;
      for (auto x : A.data())
        np += std::pow(std::abs((long double)x), (long double)p);
      np = std::pow(np, 1.L / p);
      if (!wide)
        CHECK_CLOSE(norm_p(A, p), (double)np, 200 * eps<T>(), (double)np, "norm_p, p=" << p);
    }
  }
  // printing: rows in order, all entries, readable back
  if (!wide)
  {
    std::ostringstream o;
    o << std::setprecision(std::numeric_limits<T>::max_digits10) << A;
    std::istringstream in(o.str());
    for (unsigned i = 0; i < R; ++i)
      for (unsigned j = 0; j < C; ++j)
      {
        T x;
        CHECK((bool)(in >> x), "printed matrix has too few entries: " << o.str());
        CHECK(x == a(i, j), "printed entry (" << i << "," << j << ") is " << x << " in " << o.str());
      }
    T x;
    CHECK(!(in >> x), "printed matrix has too many entries: " << o.str());
  }
}

typedef void (*fun)(pbt::Gen&);
static const fun shapes[] = {shape_case<1, 1>, shape_case<2, 1>, shape_case<3, 1>, shape_case<4, 1>,
                             shape_case<7, 1>, shape_case<1, 2>, shape_case<1, 5>, shape_case<2, 2>,
                             shape_case<3, 3>, shape_case<2, 3>, shape_case<3, 2>, shape_case<4, 3>,
                             shape_case<3, 5>, shape_case<5, 4>, shape_case<4, 4>, shape_case<10, 2>};
FAMILY("dense_entrywise_" STR(ELEM_T), 12000, 200000,
       "random shape out of 16 (1x1..10x2); both matrices and the scalar non-zero")
{
  shapes[g.index(16)](g);
}

FAMILY("dense_cross_" STR(ELEM_T), 2000, 40000, "two non-parallel 3-vectors")
{
  auto u = gen_mat<3, 1, T>(g), v = gen_mat<3, 1, T>(g);
  g.desc << "u=" << show(u) << " v=" << show(v);
  g.publish_desc();
  auto c = cross_product(u, v);
  const auto& x = u.data();
  const auto& y = v.data();
  long double e[3] = {(long double)x[1] * y[2] - (long double)x[2] * y[1],
                      (long double)x[2] * y[0] - (long double)x[0] * y[2],
                      (long double)x[0] * y[1] - (long double)x[1] * y[0]};
  double sc = (std::abs(x[0]) + std::abs(x[1]) + std::abs(x[2])) * (std::abs(y[0]) + std::abs(y[1]) + std::abs(y[2]));
  for (int i = 0; i < 3; ++i)
    CHECK_CLOSE(c.data()[i], (double)e[i], 8 * eps<T>(), sc, "cross product entry " << i);
  g.nontrivial(e[0] != 0 || e[1] != 0 || e[2] != 0);
}
