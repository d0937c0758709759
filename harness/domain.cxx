// P08: what a .geo file says is what the domain contains.
#include "domain_common.hxx"
using namespace dom;
template <unsigned d, unsigned D, template <typename...> typename V, typename F, typename I, typename J, typename K>
static void read_case(pbt::Gen& g)
{
  constexpr bool fl = sizeof(F) == 4;
  const Model m = gen_model(g, d, D, fl);
  const Text t = text_of(m, &g, fl);
  const std::string f = write(t, &g, g.scratch + "/a.geo");
  g.desc << "dim " << d << " in " << D << ", " << m.nodes.size() << " hyperedges, " << m.points.size() << " points, " << m.n_props
         << " properties";
  g.publish_desc();
  g.nontrivial(m.nodes.size() > 1);
  const auto a = read_domain_geo<d, D, V, Point<D, F>, I, J, K>(f);
  compare(a, m, "read_domain_geo");
  const std::string before = slurp(f);
  auto b = read_domain<d, D, V, Point<D, F>, I, J, K>(f);
  compare(b, m, "read_domain");
  CHECK(b.check_consistency(), "a consistent domain is called inconsistent");
  compare(b, m, "after check_consistency");
  CHECK(slurp(f) == before, "reading changed the file");
  std::filesystem::remove(f);
}
typedef void (*fun)(pbt::Gen&);
static const fun rd[] = {
  read_case<1, 1, std::vector, double, unsigned, unsigned, unsigned>, read_case<1, 2, std::vector, double, unsigned, unsigned, unsigned>,
  read_case<1, 3, std::vector, float, unsigned, size_t, unsigned>,    read_case<2, 2, std::vector, double, size_t, unsigned, unsigned>,
  read_case<2, 3, std::deque, double, unsigned, unsigned, size_t>,    read_case<3, 3, std::vector, double, int, int, int>,
  read_case<3, 4, std::vector, float, unsigned, unsigned, unsigned>};
FAMILY("geo_files", 8000, 160000, "more than one hyperedge") { rd[g.index(7)](g); }

/// Several files in one process: nothing of an earlier file shows up in a later one.
FAMILY("geo_file_sequences", 1500, 30000, "at least two different files read alternately")
{
  std::vector<Model> ms;
  const unsigned n = 2 + (unsigned)g.raw(2);
  for (unsigned i = 0; i < n; ++i)
  {
    ms.push_back(gen_model(g, 1, 2, false));
    write(text_of(ms[i], &g, false), &g, g.scratch + "/s" + std::to_string(i) + ".geo");
  }
  g.nontrivial();
  g.desc << n << " files";
  for (unsigned k = 0; k < 5; ++k)
  {
    const unsigned i = (unsigned)g.index(n);
    g.desc << " " << i;
    compare(read_domain<1, 2>(g.scratch + "/s" + std::to_string(i) + ".geo"), ms[i], "sequence");
  }
}
