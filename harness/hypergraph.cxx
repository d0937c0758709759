// P07: the hypergraph as a container of hyperedges; histories of refinements, iterations and data accesses.
#include <pbt.hxx>
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/hdg_hypergraph.hxx>
struct Cfg
{
  unsigned edges, nodes;
};
static unsigned cnt(unsigned base, unsigned ref) { return base * ref + (ref - 1); }
struct Topo
{
  struct value_type
  {
    unsigned index, level, id;
  };
  typedef Cfg constructor_value_type;
  Cfg c;
  unsigned ref = 1, id = 0;
  Topo(const Cfg& c_) : c(c_) {}
  static constexpr unsigned hyEdge_dim() { return 2; }
  static constexpr unsigned space_dim() { return 3; }
  unsigned n_hyEdges() const { return cnt(c.edges, ref); }
  unsigned n_hyNodes() const { return cnt(c.nodes, ref); }
  value_type operator[](unsigned i) const { return {i, ref, id}; }
  unsigned get_refinement() const { return ref; }
  void set_refinement(unsigned r) { ref = r; }
};
template <int tag>
struct Side
{
  struct value_type
  {
    unsigned index, level, edges, id;
  };
  typedef Cfg constructor_value_type;
  unsigned ref = 1, edges = 0, id = 0;
  Side(const Topo& t) : edges(t.c.edges) {}
  Side(const Cfg& c) : edges(c.edges) {}
  static constexpr unsigned hyEdge_dim() { return 2; }
  static constexpr unsigned space_dim() { return 3; }
  value_type operator[](unsigned i) const { return {i, ref, edges, id}; }
  void set_refinement(unsigned r) { ref = r; }
};
struct Data
{
  long x = -17;
};
template <unsigned n_dofs, typename idx_t>
static void graph_history(pbt::Gen& g)
{
  typedef HDGHyperGraph<n_dofs, Topo, Side<0>, Side<1>, Data, idx_t> Graph;
  const Cfg c{1 + (unsigned)g.raw(9), 2 + (unsigned)g.raw(9)};
  auto topo = std::make_shared<Topo>(c);
  topo->id = 7;
  auto geom = std::make_shared<Side<0>>(c);
  geom->id = 8;
  auto node = std::make_shared<Side<1>>(c);
  node->id = 9;
  const unsigned kind = (unsigned)g.raw(2);
  const Cfg geo{c.edges + 5, c.nodes};
  Graph gr = kind == 0 ? Graph(c) : kind == 1 ? Graph(c, geo) : Graph(topo, geom, node);
  const unsigned gedges = kind == 1 ? geo.edges : c.edges;
  const unsigned ops = 1 + (unsigned)g.raw(12);
  unsigned ref = 1;
  std::vector<long> data(c.edges, -17);
  g.desc << "constructor " << kind << ", " << c.edges << " edges, " << c.nodes << " nodes, " << n_dofs << " dofs:";
  auto check_edge = [&](auto&& e, unsigned i, const char* how)
  {
    CHECK(e.topology.index == i && e.topology.level == ref && e.topology.id == (kind == 2 ? 7u : 0u), how << ": topology of edge " << i);
    CHECK(e.geometry.index == i && e.geometry.level == ref && e.geometry.edges == gedges && e.geometry.id == (kind == 2 ? 8u : 0u),
          how << ": geometry of edge " << i << " has index " << e.geometry.index << " level " << e.geometry.level);
    CHECK(e.node_descriptor.index == i && e.node_descriptor.level == ref && e.node_descriptor.id == (kind == 2 ? 9u : 0u),
          how << ": node descriptor of edge " << i);
    CHECK(e.data.x == data[i], how << ": data of edge " << i << " is " << e.data.x << " instead of " << data[i]);
  };
  for (unsigned o = 0; o < ops; ++o)
  {
    const unsigned n = cnt(c.edges, ref);
    CHECK(gr.n_hyEdges() == n && gr.n_hyNodes() == cnt(c.nodes, ref), "numbers of edges and nodes");
    CHECK(gr.n_global_dofs() == (idx_t)cnt(c.nodes, ref) * n_dofs, "n_global_dofs() = " << gr.n_global_dofs());
    CHECK(gr.hyNode_factory().n_hyNodes() == cnt(c.nodes, ref) && gr.hyNode_factory().n_global_dofs() == cnt(c.nodes, ref) * n_dofs, "factory");
    CHECK(gr.get_refinement() == ref, "get_refinement");
    CHECK((Graph::hyEdge_dim() == 2 && Graph::space_dim() == 3 && Graph::n_dofs_per_node() == n_dofs), "dimensions");
    switch (g.raw(5))
    {
      case 0:
      {
        const unsigned i = (unsigned)g.index(n);
        g.desc << " []" << i;
        check_edge(gr[(idx_t)i], i, "operator[]");
        break;
      }
      case 1:
      {
        const unsigned i = (unsigned)g.index(n);
        g.desc << " write" << i;
        const long v = (long)g.raw(1000);
        if (g.raw(1))
          gr[(idx_t)i].data.x = v;
        else
          gr.hyEdge_data((idx_t)i).x = v;
        data[i] = v;
        break;
      }
      case 2:
      {
        g.desc << " for";
        unsigned i = 0;
        std::for_each(gr.begin(), gr.end(),
                      [&](auto e)
                      {
                        CHECK(i < n, "iteration visits too many edges");
                        check_edge(e, i, "for_each");
                        e.data.x += 1;
                        data[i] += 1;
                        ++i;
                      });
        CHECK(i == n, "iteration visited " << i << " of " << n << " edges");
        break;
      }
      case 3:
      {
        g.desc << " back";
        auto it = gr.end();
        for (unsigned i = n; i-- > 0;)
        {
          if (g.raw(1))
            --it;
          else
          {
            auto old = it--;
            CHECK(!(old == it), "post-decrement");
          }
          check_edge(*it, i, "reverse iteration");
        }
        CHECK(it == gr.begin(), "reverse iteration does not end at begin()");
        auto old = it++;
        CHECK(old == gr.begin() && !(it == gr.begin()), "post-increment");
        Graph twin(c);
        twin.set_refinement(ref);
        CHECK(!(twin.begin() == gr.begin()) && !(gr.end() == twin.end()) && twin.begin() != gr.begin(), "iterators of different graphs are equal");
        auto first = gr.begin();
        CHECK(first == gr.begin() && !(first != gr.begin()), "iterators of the same hyperedge differ");
        break;
      }
      case 4:
      {
        const unsigned i = (unsigned)g.index(n);
        CHECK(gr.hyEdge_topology((idx_t)i).index == i && gr.hyEdge_geometry((idx_t)i).index == i && gr.hyNode_descriptor((idx_t)i).index == i,
              "component accessors of edge " << i);
        break;
      }
      default:
        ref = 1 + (unsigned)g.raw(3);
        g.desc << " refine" << ref;
        gr.set_refinement(ref);
        data.assign(cnt(c.edges, ref), -17);
        g.nontrivial(ref > 1 && o + 1 < ops);
    }
  }
  if (g.chance(1, 40))
  {
    const idx_t bad = (idx_t)(cnt(c.edges, ref) + g.raw(3));
    auto r = pbt::run_child([&] { gr.hyEdge_data(bad).x = 1; });
    CHECK(r.kind == pbt::ChildResult::aborted, "data of edge " << bad << " was accepted");
    const Cfg degenerate = g.raw(1) ? Cfg{0, 4} : Cfg{3, (unsigned)g.raw(1)};
    auto r2 = pbt::run_child(
      [&]
      {
        Graph q(degenerate);
        (void)q;
      });
    CHECK(r2.kind == pbt::ChildResult::aborted,
          "graph with " << degenerate.edges << " edges and " << degenerate.nodes << " nodes was accepted");
    g.label("degenerate graph and out-of-range refused");
  }
}
typedef void (*fun)(pbt::Gen&);
static const fun hist[] = {graph_history<1, unsigned>, graph_history<3, unsigned>, graph_history<4, size_t>};
FAMILY("hypergraph_histories", 30000, 500000, "at least one refinement above 1 followed by another operation") { hist[g.index(3)](g); }
