// P01: products of matrices of all compatible shapes, against a long-double reference.
#include "dense_common.hxx"
using namespace dl;
#ifndef ELEM_T
#define ELEM_T double
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
typedef ELEM_T T;

template <unsigned R, unsigned K, unsigned C>
static void prod_case(pbt::Gen& g)
{
  const SmallMat<R, K, T> A = gen_mat<R, K, T>(g);
  const SmallMat<K, C, T> B = gen_mat<K, C, T>(g);
  const auto A0 = A;
  const auto B0 = B;
  g.desc << R << "x" << K << " * " << K << "x" << C << " " STR(ELEM_T) " A=" << show(A) << " B=" << show(B);
  g.publish_desc();
  g.nontrivial(any_nonzero(A) && any_nonzero(B) && R * K * C > 1);
  const Ref a = ref(A), b = ref(B), e = mul(a, b), ea = mul(absr(a), absr(b));
  approx(A * B, e, ea, K, "A*B");
  approx(mat_times_mat_unfit(A, B), e, ea, K, "mat_times_mat_unfit (fitting)");
  approx(transposed_mat_times_mat(transposed(A), B), e, ea, K, "transposed_mat_times_mat");
  approx(mat_times_transposed_mat(A, transposed(B)), e, ea, K, "mat_times_transposed_mat");
  // non-fitting sizes: the product of the common part
  {
    const SmallMat<K + 1, C, T> B2 = gen_mat<K + 1, C, T>(g);
    const Ref b2 = ref(B2);
    approx(mat_times_mat_unfit(A, B2), mul(a, b2), mul(absr(a), absr(b2)), K, "mat_times_mat_unfit (more rows)");
    const SmallMat<R, K + 2, T> A2 = gen_mat<R, K + 2, T>(g);
    const Ref a2 = ref(A2);
    approx(mat_times_mat_unfit(A2, B), mul(a2, b), mul(absr(a2), absr(b)), K, "mat_times_mat_unfit (more columns)");
  }
  // dyadic product
  {
    auto x = gen_mat<R, 1, T>(g);
    auto y = gen_mat<C, 1, T>(g);
    elementwise(dyadic_product(x, y), [&](unsigned i, unsigned j) { return x.data()[i] * y.data()[j]; },
                "dyadic_product");
  }
  same_bits(A, A0, "left operand changed");
  same_bits(B, B0, "right operand changed");
}
typedef void (*fun)(pbt::Gen&);
#define ROW(r, k) prod_case<r, k, 1>, prod_case<r, k, 2>, prod_case<r, k, 3>, prod_case<r, k, 5>
#define BLK(r) ROW(r, 1), ROW(r, 2), ROW(r, 3), ROW(r, 4)
static const fun shapes[] = {BLK(1), BLK(2), BLK(3), BLK(5)};
FAMILY("dense_products_" STR(ELEM_T), 16000, 300000,
       "random shape triple (r,k,c) out of 64; both factors non-zero and more than one product term")
{
  shapes[g.index(64)](g);
}
