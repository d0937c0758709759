// P05: lexicographic numbering of tensor-product points and hypercube counts.
#include <pbt.hxx>
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/hypercube.hxx>

static unsigned long ipow(unsigned long b, unsigned e)
{
  unsigned long r = 1;
  while (e--)
    r *= b;
  return r;
}
template <unsigned d, unsigned n, typename F>
static void tensor_case(pbt::Gen& g)
{
  SmallVec<n, F> pts;
  for (unsigned i = 0; i < n; ++i)
    pts[i] = (F)((double)i + g.unit() * 0.9);  // distinct
  const unsigned long total = ipow(n, d);
  g.desc << "tensorial points: dimension " << d << ", " << n << " points per direction";
  g.nontrivial(d > 1 && n > 1);
  CHECK(Hypercube<d>::pow(n) == total, "pow(" << n << ") = " << Hypercube<d>::pow(n));
  std::set<std::vector<F>> seen;
  for (unsigned long idx = 0; idx < total; ++idx)
  {
    const auto pt = Hypercube<d>::template tensorial_pt<SmallVec<d, F>>((unsigned)idx, pts);
    unsigned long r = idx;
    std::vector<F> v;
    for (unsigned k = 0; k < d; ++k)
    {
      CHECK(pt[k] == pts[r % n], "coordinate " << k << " of tensorial point " << idx);
      r /= n;
      v.push_back(pt[k]);
    }
    CHECK(seen.insert(v).second, "tensorial point " << idx << " is repeated");
  }
}
template <unsigned d>
static void decompose_case(pbt::Gen& g)
{
  unsigned range = 1 + (unsigned)g.raw(d <= 2 ? 400 : d == 3 ? 60 : 12);
  while (ipow(range, d) >= (1ul << 32))
    --range;
  const unsigned long total = ipow(range, d);
  const unsigned idx = (unsigned)(g.chance(1, 3) ? total - 1 : g.raw(total - 1));
  g.desc << "index_decompose: dimension " << d << " range " << range << " index " << idx;
  g.nontrivial(d > 1 && range > 1 && idx > 0);
  const auto dec = Hypercube<d>::index_decompose(idx, range);
  CHECK(dec.size() == d, "size");
  unsigned long back = 0;
  for (unsigned k = d; k-- > 0;)
  {
    CHECK(dec[k] < range, "digit " << k << " is " << dec[k]);
    back = back * range + dec[k];
  }
  CHECK(back == idx, "digits recombine to " << back);
  static_assert(Hypercube<d>::n_faces() == 2 * d);
  CHECK((Hypercube<d>::n_vertices() == ipow(2, d)), "n_vertices");
  CHECK(Hypercube<d>::pow(range) == (unsigned)total, "pow");
  if (g.chance(1, 40) && total < (1ul << 31))
  {
    const unsigned bad = (unsigned)(total + g.raw(3 * total < (1ul << 32) ? 2 * total : 0));
    auto r = pbt::run_child([&] { volatile auto s = Hypercube<d>::index_decompose(bad, range)[0]; (void)s; });
    CHECK(r.kind == pbt::ChildResult::aborted, "index " << bad << " >= " << range << "^" << d << " was accepted");
    g.label("out-of-range refused");
  }
}
typedef void (*fun)(pbt::Gen&);
static const fun dec[] = {decompose_case<1>, decompose_case<2>, decompose_case<3>, decompose_case<4>, decompose_case<5>, decompose_case<6>};
static const fun ten[] = {tensor_case<1, 1, double>, tensor_case<1, 5, float>, tensor_case<2, 1, float>, tensor_case<2, 2, double>,
                          tensor_case<2, 7, double>, tensor_case<3, 2, double>, tensor_case<3, 4, float>, tensor_case<4, 3, double>,
                          tensor_case<5, 2, double>, tensor_case<0, 3, double>, tensor_case<2, 3, double>, tensor_case<3, 3, double>};
FAMILY("index_decompose", 20000, 400000, "dimension > 1, range > 1, index > 0") { dec[g.index(6)](g); }
FAMILY("tensorial_pt", 4000, 60000, "dimension > 1 and more than one point per direction") { ten[g.index(12)](g); }
