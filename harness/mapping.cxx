// P04: affine mapping of the reference hypercube.
#include "dense_common.hxx"
#include <HyperHDG/mapping/linear.hxx>
using namespace dl;
#ifndef ELEM_T
#define ELEM_T double
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
typedef ELEM_T T;

template <unsigned d, unsigned D>
static void map_case(pbt::Gen& g)
{
  SmallMat<D, d, T> M = gen_mat<D, d, T>(g);
  unsigned kind = (unsigned)g.raw(5);
  if (kind == 1)  // orthotope, any orientation
    for (unsigned i = 0; i < D; ++i)
      for (unsigned j = 0; j < d; ++j)
        M.data()[j * D + i] = (T)((i + (D - d)) % D == j ? (g.raw(1) ? -1. : 1.) * (1 + (int)g.raw(7)) / 4. : 0.);
  long double growth;
  det(mul(tr(ref(M)), ref(M)), &growth);
  if (!(growth > (sizeof(T) == 8 ? 1e-6L : 1e-3L)))
    throw pbt::Discard();
  SmallVec<D, T> t = gen_mat<D, 1, T>(g);
  // other units of length; a power of two changes nothing but exponents
  const double unit = g.chance(1, 4) ? std::pow(2., (double)g.index(sizeof(T) == 8 ? 81 : 21) - (sizeof(T) == 8 ? 40 : 10)) : 1.;
  for (auto& v : t.data())
    v *= (T)unit;
  for (auto& v : M.data())
    v *= (T)unit;
  const Ref m = ref(M), gram = mul(tr(m), m);
  g.desc << "dim " << d << " in " << D << " " STR(ELEM_T) " matrix=" << show(M) << " translation=" << show(t);
  g.publish_desc();
  g.nontrivial(D > 1);
  Mapping::Linear<d, D, T> map(t, M);
  if (g.raw(1))
  {  // assigned over a default-constructed object
    Mapping::Linear<d, D, T> other;
    other = map;
    map = other;
  }
  double scale = 0;
  for (unsigned j = 0; j < d; ++j)
    scale = std::max(scale, (double)std::sqrt(gram.at(j, j)));
  const double tol = 100 * D * eps<T>(), ntol = sizeof(T) == 8 ? 1e-9 : 3e-3;

  CHECK((Mapping::Linear<d, D, T>::hyEdge_dim() == d && Mapping::Linear<d, D, T>::space_dim() == D), "dimensions");
  same_bits(map.matrix(), M, "matrix()");
  same_bits(map.translation(), t, "translation()");
  for (unsigned j = 0; j < d; ++j)
    for (unsigned i = 0; i < D; ++i)
      CHECK(map.matrix_column(j).data()[i] == M.data()[j * D + i], "matrix_column");

  // the map itself, several points at once
  constexpr unsigned P = 3;
  SmallMat<d, P, T> pts;
  for (unsigned k = 0; k < d * P; ++k)
    pts.data()[k] = (T)g.unit();
  const SmallMat<D, P, T> img = map.map_reference_to_physical(pts);
  for (unsigned p = 0; p < P; ++p)
    for (unsigned i = 0; i < D; ++i)
    {
      long double v = t.data()[i], va = std::abs(v);
      for (unsigned k = 0; k < d; ++k)
      {
        v += m.at(i, k) * pts.data()[p * d + k];
        va += std::abs(m.at(i, k) * pts.data()[p * d + k]);
      }
      CHECK_CLOSE(img.data()[p * D + i], (double)v, 8. * D * eps<T>(), (double)va, "image of point " << p);
    }
  if constexpr (d == D)
  {
    const SmallMat<d, P, T> back = map.map_physical_to_reference(img);
    for (unsigned k = 0; k < d * P; ++k)
      CHECK_CLOSE(back.data()[k], pts.data()[k], sizeof(T) == 8 ? 1e-8 : 2e-2, 1. + 0.1 * norm_infty(t) / unit, "inverse map");
  }
  // frame
  const Ref q = ref(map.mat_q()), r = ref(map.mat_r()), qq = mul(tr(q), q);
  for (unsigned i = 0; i < D; ++i)
    for (unsigned j = 0; j < D; ++j)
      CHECK_CLOSE((double)qq.at(i, j), i == j ? 1. : 0., tol, 1., "Q is not orthogonal");
  CHECK_CLOSE((double)det(q), 1., 2 * tol, 1., "det(Q) is not +1");
  for (unsigned j = 0; j < d; ++j)
  {
    for (unsigned i = 0; i < D; ++i)
    {
      long double v = 0;
      for (unsigned k = 0; k < d; ++k)
        v += q.at(i, k) * r.at(k, j);
      CHECK_CLOSE((double)v, (double)m.at(i, j), tol, scale, "Q R differs from the matrix");
    }
    for (unsigned i = j + 1; i < d; ++i)
      CHECK(r.at(i, j) == 0, "R not upper triangular");
    if (j > 0)
      CHECK(r.at(j, j) >= 0, "R has a negative diagonal entry after the first");
  }
  // measures
  const double vol = (double)std::sqrt(det(gram));
  CHECK_CLOSE(std::abs((double)map.functional_determinant_hyEdge()), vol, ntol, std::pow(scale, (double)d), "volume factor");
  if constexpr (d == D)
    CHECK_CLOSE((double)map.functional_determinant_hyEdge(), (double)det(m), ntol, std::pow(scale, (double)d),
                "signed volume factor");
  for (unsigned n = 0; n < d; ++n)
  {
    Ref f(D, d - 1 > 0 ? d - 1 : 1);
    if constexpr (d > 1)
      for (unsigned j = 0, c = 0; j < d; ++j)
        if (j != n)
        {
          for (unsigned i = 0; i < D; ++i)
            f.at(i, c) = m.at(i, j);
          ++c;
        }
    const double e = d == 1 ? 1. : (double)std::sqrt(det(mul(tr(f), f)));
    CHECK_CLOSE(std::abs((double)map.functional_determinant_hyNode(n)), e, ntol, std::pow(scale, d - 1.),
                "face measure factor " << n);
    // local normal, expressed in physical space through the frame: unit, orthogonal to the face, outward
    auto phys = [&](const SmallVec<d, T>& ln)
    {
      std::vector<long double> v(D, 0);
      for (unsigned i = 0; i < D; ++i)
        for (unsigned k = 0; k < d; ++k)
          v[i] += q.at(i, k) * ln.data()[k];
      return v;
    };
    auto outward = [&](const std::vector<long double>& v, const char* what)
    {
      long double nn = 0;
      for (auto x : v)
        nn += x * x;
      CHECK_CLOSE((double)nn, 1., ntol, 1., what << " " << n << " is not of unit length");
      for (unsigned j = 0; j < d; ++j)
      {
        long double s = 0;
        for (unsigned i = 0; i < D; ++i)
          s += v[i] * m.at(i, j);
        if (j != n)
          CHECK_CLOSE((double)s, 0., ntol, scale, what << " " << n << " is not orthogonal to spanning vector " << j);
        else
          CHECK(s < 0, what << " " << n << " does not point outward");
      }
    };
    outward(phys(map.local_normal(n)), "local normal");
    const auto in = map.inner_normal(n);
    std::vector<long double> iv(in.data().begin(), in.data().end());
    outward(iv, "inner normal");
    if constexpr (D > d)
      for (unsigned o = 0; o < D - d; ++o)
      {
        long double s = 0;
        for (unsigned i = 0; i < D; ++i)
          s += iv[i] * map.outer_normal(o).data()[i];
        CHECK_CLOSE((double)s, 0., ntol, 1., "inner normal leaves the span of the hyperedge");
      }
  }
  if constexpr (D > d)
    for (unsigned o = 0; o < D - d; ++o)
    {
      const SmallVec<D, T> nv = map.outer_normal(o);
      for (unsigned j = 0; j < d; ++j)
      {
        long double s = 0;
        for (unsigned i = 0; i < D; ++i)
          s += (long double)nv.data()[i] * m.at(i, j);
        CHECK_CLOSE((double)s, 0., ntol, scale, "outer normal " << o << " is not orthogonal to spanning vector " << j);
      }
      for (unsigned k = 0; k <= o; ++k)
      {
        long double s = 0;
        for (unsigned i = 0; i < D; ++i)
          s += (long double)nv.data()[i] * map.outer_normal(k).data()[i];
        CHECK_CLOSE((double)s, k == o ? 1. : 0., ntol, 1., "outer normals are not orthonormal");
      }
    }
}
typedef void (*fun)(pbt::Gen&);
static const fun maps[] = {map_case<1, 1>, map_case<1, 2>, map_case<2, 2>, map_case<1, 3>, map_case<2, 3>, map_case<3, 3>,
                           map_case<1, 4>, map_case<2, 4>, map_case<3, 4>, map_case<4, 4>, map_case<3, 5>, map_case<3, 8>};
FAMILY("mapping_linear_" STR(ELEM_T), 20000, 400000,
       "12 (hyperedge, space) dimension pairs up to (3,8); generic and axis-aligned full-rank matrices; space dimension > 1")
{
  maps[g.index(12)](g);
}
