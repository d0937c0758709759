// P06: degrees of freedom of hypernodes; histories against a per-node model.
#include <pbt.hxx>
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/hypernodefactory.hxx>
#include <cstdint>
template <unsigned n, typename idx_t, typename F, bool small>
static void history(pbt::Gen& g)
{
  const size_t nodes = 1 + g.raw(g.chance(1, 50) ? 600 : 12);
  typedef HyperNodeFactory<n, idx_t> Fac;
  Fac f((idx_t)nodes);
  typedef std::conditional_t<small, SmallVec<n, F>, std::array<F, n>> Loc;
  std::vector<std::vector<F>> model(nodes, std::vector<F>(n));
  std::vector<F> vec(nodes * n);
  auto val = [&] { return (F)g.signed_small(64) / 4; };
  for (size_t i = 0; i < nodes; ++i)
    for (unsigned k = 0; k < n; ++k)
      vec[i * n + k] = model[i][k] = val();
  g.desc << nodes << " nodes with " << n << " dofs:";
  CHECK(f.n_hyNodes() == (idx_t)nodes && f.n_dofs_per_node() == n, "counts");
  CHECK((size_t)f.n_global_dofs() == nodes * n, "n_global_dofs() = " << f.n_global_dofs());
  CHECK(f.template n_global_dofs<size_t>() == nodes * n, "n_global_dofs<size_t>()");
  // indices partition [0, n_global)
  std::set<size_t> used;
  for (size_t i = 0; i < nodes; ++i)
  {
    std::array<uint64_t, n> ind;
    f.get_dof_indices((idx_t)i, ind);
    for (unsigned k = 0; k < n; ++k)
    {
      CHECK(ind[k] == i * n + k, "dof index " << k << " of node " << i << " is " << ind[k]);
      used.insert(ind[k]);
      CHECK((size_t)f.get_hyNode_from_dof_index((idx_t)ind[k]) == i, "owner of dof " << ind[k]);
    }
  }
  CHECK(used.size() == nodes * n, "dof indices do not partition the dofs");
  const unsigned ops = 1 + (unsigned)g.raw(30);
  g.nontrivial(nodes > 1 && n > 1 && ops > 2);
  for (unsigned o = 0; o < ops; ++o)
  {
    const size_t node = g.index(nodes);
    Loc loc;
    for (unsigned k = 0; k < n; ++k)
      loc[k] = val();
    switch (g.raw(4))
    {
      case 0:
      {
        g.desc << " get" << node;
        auto& r = f.get_dof_values((idx_t)node, vec, loc);
        CHECK(&r == &loc, "get returns its argument");
        for (unsigned k = 0; k < n; ++k)
          CHECK(loc[k] == model[node][k], "value " << k << " of node " << node);
        break;
      }
      case 1:
      {
        g.desc << " add" << node;
        auto& r = f.add_to_dof_values((idx_t)node, vec, loc);
        CHECK(&r == &vec, "add returns its argument");
        for (unsigned k = 0; k < n; ++k)
          model[node][k] += loc[k];
        break;
      }
      case 2:
        g.desc << " set" << node;
        f.set_dof_values((idx_t)node, vec, loc);
        for (unsigned k = 0; k < n; ++k)
          model[node][k] = loc[k];
        break;
      case 3:
      {
        const F v = val();
        g.desc << " fill" << node;
        f.set_dof_values((idx_t)node, vec, {v});
        for (unsigned k = 0; k < n; ++k)
          model[node][k] = v;
        break;
      }
      default:
      {  // assignment from a factory of another size
        Fac other((idx_t)(nodes + 3));
        other = f;
        CHECK(other.n_hyNodes() == (idx_t)nodes, "assignment");
        Fac copy(other);
        CHECK(copy.n_hyNodes() == (idx_t)nodes, "copy");
        f = std::move(copy);
        CHECK(f.n_hyNodes() == (idx_t)nodes, "move assignment");
      }
    }
    for (size_t i = 0; i < nodes; ++i)
      for (unsigned k = 0; k < n; ++k)
        CHECK(vec[i * n + k] == model[i][k], "dof " << k << " of node " << i << " after operation " << o);
  }
  if (g.chance(1, 40))
  {
    const int what = (int)g.raw(3);
    const size_t bad = nodes + g.raw(4);
    auto r = pbt::run_child(
      [&]
      {
        Loc loc;
        for (unsigned k = 0; k < n; ++k)
          loc[k] = 1;
        if (what == 0)
          f.get_dof_values((idx_t)bad, vec, loc);
        else if (what == 1)
          f.add_to_dof_values((idx_t)bad, vec, loc);
        else if (what == 2)
          f.set_dof_values((idx_t)bad, vec, loc);
        else
          f.set_dof_values((idx_t)bad, vec, {(F)1});
      });
    CHECK(r.kind == pbt::ChildResult::aborted, "access " << what << " to node " << bad << " of " << nodes << " was accepted");
    auto r2 = pbt::run_child(
      [&]
      {
        volatile auto x = f.get_hyNode_from_dof_index((idx_t)(nodes * n + g.raw(3)));
        (void)x;
      });
    CHECK(r2.kind == pbt::ChildResult::aborted, "owner of a dof beyond the last one");
    g.label("out-of-range refused");
  }
}
typedef void (*fun)(pbt::Gen&);
static const fun hist[] = {history<1, unsigned, double, true>, history<2, unsigned, double, true>, history<3, unsigned, float, true>,
                           history<4, unsigned, double, false>, history<7, unsigned, double, true>, history<6, unsigned, float, false>,
                           history<9, unsigned, double, true>, history<12, unsigned, double, false>, history<33, unsigned, double, true>, history<18, unsigned, float, true>};
FAMILY("dof_histories", 30000, 600000, "at least 2 nodes with 2 dofs each and at least 3 operations") { hist[g.index(10)](g); }

/// Numbers of nodes that no vector could be allocated for: index arithmetic only.
template <unsigned n>
static void big(pbt::Gen& g)
{
  const uint64_t nodes = 1 + g.raw((1ull << 40));
  HyperNodeFactory<n, uint64_t> f(nodes);
  const uint64_t node = g.raw(nodes - 1);
  g.desc << n << " dofs per node, " << nodes << " nodes, node " << node;
  g.nontrivial(nodes > (1ull << 32));
  CHECK(f.n_hyNodes() == nodes && f.n_global_dofs() == nodes * n && f.template n_global_dofs<uint64_t>() == nodes * n, "counts");
  std::array<uint64_t, n> ind;
  f.get_dof_indices(node, ind);
  for (unsigned k = 0; k < n; ++k)
  {
    CHECK(ind[k] == node * n + k, "index " << k << " is " << ind[k]);
    CHECK(f.get_hyNode_from_dof_index(ind[k]) == node, "owner");
  }
}
FAMILY("dof_indices_64bit", 5000, 100000, "more than 2^32 nodes")
{
  switch (g.raw(3))
  {
    case 3: return big<27>(g);
    case 0: return big<1>(g);
    case 1: return big<3>(g);
    default: return big<8>(g);
  }
}
