// P11 (cubic graphs), P12 (graphs from files), P13 (geometry of hyperedges), P14 (node types); selected by GRAPH.
// All oracles work on positions of faces; none of them knows how cells are numbered.
#include "domain_common.hxx"
#include <HyperHDG/geometry/file.hxx>
#include <HyperHDG/geometry/unit_cube.hxx>
#include <HyperHDG/hdg_hypergraph.hxx>
#include <HyperHDG/node_descriptor/cubic.hxx>
#include <HyperHDG/node_descriptor/file.hxx>
#include <HyperHDG/topology/cubic.hxx>
#include <HyperHDG/topology/file.hxx>
#include <map>
using namespace dom;
typedef std::vector<long> Key;
static std::string show_key(const Key& k)
{
  std::string s = "(";
  for (auto x : k)
    s += std::to_string(x) + " ";
  return s + ")";
}
template <unsigned n>
static unsigned long ipow(unsigned long b)
{
  unsigned long r = 1;
  for (unsigned i = 0; i < n; ++i)
    r *= b;
  return r;
}
/// A bijection between indices 0..n-1 and keys, built up from observations.
struct Bijection
{
  std::map<Key, unsigned long> to;
  std::map<unsigned long, Key> from;
  void observe(const Key& k, unsigned long i, unsigned long n, const std::string& where)
  {
    CHECK(i < n, where << " has hypernode " << i << " of " << n);
    auto a = to.emplace(k, i);
    CHECK(a.first->second == i, where << " at " << show_key(k) << " has hypernode " << i << ", but the same face elsewhere has hypernode " << a.first->second);
    auto b = from.emplace(i, k);
    CHECK(b.first->second == k, where << " at " << show_key(k) << " shares hypernode " << i << " with the different face at " << show_key(b.first->second));
  }
};
/// Position on the grid with 2 * n_k * r points in direction k; must be a grid point.
template <typename P, typename N>
static Key grid_key(const P& p, const N& n, unsigned r, const char* what)
{
  Key k;
  for (unsigned i = 0; i < p.size(); ++i)
  {
    const double x = (double)p[i] * 2. * n[i] * r, y = std::round(x);
    CHECK(std::abs(x - y) < 1e-3, what << " is not a point of the grid: coordinate " << i << " is " << (double)p[i]);
    k.push_back((long)y);
  }
  return k;
}
static unsigned gen_level(pbt::Gen& g, unsigned d)
{
  const unsigned top = d == 1 ? 6 : d == 2 ? 4 : 3;
  return 1 + (unsigned)g.raw(top - 1);
}

/// A copy, which may have been refined by itself in between.
template <typename T>
static T copied(pbt::Gen& g, const T& t, unsigned r)
{
  T c(t);
  CHECK(c.get_refinement() == r, "a copy has refinement " << c.get_refinement() << " instead of " << r);
  if (g.raw(2) == 0)
  {
    c.set_refinement(1 + (unsigned)g.raw(2));
    c.set_refinement(r);
  }
  return c;
}
/* ------------------------------------------------------------------ cubic ---------------------------------------- */
template <unsigned d, unsigned D, typename I>
static void cubic_case(pbt::Gen& g)
{
  typedef SmallVec<D, unsigned int> C;
  typedef Topology::Cubic<d, D, SmallVec<2 * d, I>, C, I> Topo;
  typedef Topology::Cubic<d, D> Topo0;
  typedef Geometry::UnitCube<d, D> Geom;
  typedef NodeDescriptor::Cubic<d, D> Node;
  C n;
  unsigned long cells = 1;
  for (unsigned k = 0; k < D; ++k)
  {
    const unsigned top = D <= 2 ? 5 : D == 3 ? 4 : 2;
    n[k] = 1 + (unsigned)g.raw(top - 1);
    cells *= n[k] + 1;
  }
  g.desc << "dim " << d << " in " << D << ", elements";
  for (unsigned k = 0; k < D; ++k)
    g.desc << " " << n[k];
  typedef decltype(std::declval<const Geom>()[0]) GeomE;
  CHECK(Topo::hyEdge_dim() == d && Topo::space_dim() == D, "dimensions of the topology");
  CHECK(Geom::hyEdge_dim() == d && Geom::space_dim() == D && GeomE::hyEdge_dim() == d && GeomE::space_dim() == D,
        "dimensions of the geometry");
  CHECK(Node::hyEdge_dim() == d && Node::space_dim() == D, "dimensions of the node descriptor");
  Topo topo(n);
  Topo0 topo0(n);
  const unsigned late = (unsigned)g.raw(2);  // geometry and node types from a topology that is refined already
  std::vector<unsigned> levels;
  for (unsigned i = 0, m = (unsigned)g.raw(2); i <= m; ++i)
    levels.push_back(i == 0 && g.raw(1) ? 1 : gen_level(g, d));
  if (late)
  {
    topo.set_refinement(levels[0]);
    topo0.set_refinement(levels[0]);
  }
  Geom geom = late != 2 ? Geom(topo0) : Geom(n);
  Node node = late != 2 ? Node(topo0) : Node(n);
  for (size_t i = 0; i < levels.size(); ++i)
  {
    const unsigned r = levels[i];
    g.desc << " level " << r;
    if (!(i == 0 && late == 1))
    {
      if (!(i == 0 && r == 1) || g.raw(1))
        topo.set_refinement(r), topo0.set_refinement(r), geom.set_refinement(r), node.set_refinement(r);
    }
    g.publish_desc();
    CHECK(topo.get_refinement() == r && geom.get_refinement() == r && node.get_refinement() == r, "get_refinement");
    // expected numbers: cells of dimension d of the grid, subdivided
    unsigned long ncell = 0, nface = 0;
    for (unsigned mask = 0; mask < (1u << D); ++mask)
    {
      unsigned long c = 1;
      for (unsigned k = 0; k < D; ++k)
        c *= (mask >> k & 1) ? n[k] : n[k] + 1;
      if ((unsigned)__builtin_popcount(mask) == d)
        ncell += c;
      if ((unsigned)__builtin_popcount(mask) == d - 1)
        nface += c;
    }
    const unsigned long edges = ncell * ipow<d>(r), nodes = nface * ipow<d - 1>(r) + ncell * d * (r - 1) * ipow<d - 1>(r);
    CHECK(topo.n_hyEdges() == edges, "n_hyEdges is " << topo.n_hyEdges() << " instead of " << edges);
    CHECK(topo.n_hyNodes() == nodes, "n_hyNodes is " << topo.n_hyNodes() << " instead of " << nodes);
    CHECK(node.n_hyEdges() == edges, "n_hyEdges of the node descriptor is " << node.n_hyEdges() << " instead of " << edges);
    g.nontrivial(edges > 1 && r > 1);
    Bijection b;
    std::set<Key> centers;
    const Topo copy = copied(g, topo, r);
    CHECK(copy.n_hyEdges() == edges && copy.n_hyNodes() == nodes, "a copy has " << copy.n_hyEdges() << " hyperedges and " << copy.n_hyNodes() << " hypernodes");
    const Geom gcopy = copied(g, geom, r);
    const Node ncopy = copied(g, node, r);
    const Topo& t = g.raw(3) == 0 ? copy : topo;
    const Geom& gg = g.raw(3) == 0 ? gcopy : geom;
    const Node& nn = g.raw(3) == 0 ? ncopy : node;
    for (unsigned long e = 0; e < edges; ++e)
    {
      const auto te = t[(I)e];
      const auto ge = gg[(unsigned)e];
      const auto ne = nn[(unsigned)e];
      const Key c = grid_key(ge.map_ref_to_phys(SmallVec<d, double>(0.5)), n, r, "the barycenter of a hyperedge");
      unsigned odd = 0, coarse_odd = 0;
      for (unsigned k = 0; k < D; ++k)
      {
        odd += c[k] & 1;
        CHECK(c[k] >= 0 && c[k] <= 2 * (long)n[k] * r, "hyperedge " << e << " outside of the unit cube");
        coarse_odd += (c[k] % (2 * (long)r)) != 0;
      }
      CHECK(odd == d && coarse_odd == d, "hyperedge " << e << " at " << show_key(c) << " is no cell of dimension " << d);
      CHECK(centers.insert(c).second, "two hyperedges at " << show_key(c));
      std::set<Key> own;
      for (unsigned f = 0; f < 2 * d; ++f)
      {
        const Key k = grid_key(ge.face_barycenter(f), n, r, "the barycenter of a face");
        own.insert(k);
        const unsigned long ix = te.get_hyNode_indices()[f];
        std::ostringstream w;
        w << "face " << f << " of hyperedge " << e << " (" << topo.n_hyEdges() << " hyperedges, level " << r << ")";
#if GRAPH != 13
        b.observe(k, ix, nodes, w.str());
#endif
        // type of the face
        bool inner = false;
        unsigned type = 0, p3 = 1;
        unsigned dir = 0;
        for (unsigned kk = 0; kk < D; ++kk)
          if (k[kk] != c[kk])
            dir = kk;
        inner = k[dir] % (2 * (long)r) != 0;
        for (unsigned kk = 0; kk < D; ++kk, p3 *= 3)
          if (!inner && k[kk] == 0)
            type += p3;
          else if (!inner && k[kk] == 2 * (long)n[kk] * r)
            type += 2 * p3;
#if GRAPH == 14
        CHECK(ne[f] == type && ne.get_hyFace_types()[f] == type, w.str() << ": type " << ne[f] << " instead of " << type);
#else
        (void)ne;
        (void)type;
#endif
      }
      CHECK(own.size() == 2 * d, "hyperedge " << e << " does not have " << 2 * d << " faces");
    }
#if GRAPH != 13
    CHECK(b.from.size() == nodes, "only " << b.from.size() << " of " << nodes << " hypernodes belong to a hyperedge");
#endif
  }
}
/* ------------------------------------------------------------------ file ----------------------------------------- */
/// Independent inversion of the affine map of coarse hyperedge e (least squares by Gauss on the normal equations).
struct Affine
{
  unsigned d, D;
  std::vector<long double> o;
  std::vector<std::vector<long double>> a;  // columns
  bool coordinates(const std::vector<long double>& p, std::vector<long double>& x) const
  {
    std::vector<std::vector<long double>> m(d, std::vector<long double>(d + 1, 0));
    for (unsigned i = 0; i < d; ++i)
      for (unsigned k = 0; k < D; ++k)
      {
        for (unsigned j = 0; j < d; ++j)
          m[i][j] += a[i][k] * a[j][k];
        m[i][d] += a[i][k] * (p[k] - o[k]);
      }
    for (unsigned i = 0; i < d; ++i)
    {
      unsigned q = i;
      for (unsigned j = i; j < d; ++j)
        if (std::abs(m[j][i]) > std::abs(m[q][i]))
          q = j;
      std::swap(m[i], m[q]);
      if (m[i][i] == 0)
        return false;
      for (unsigned j = 0; j < d; ++j)
        if (j != i)
        {
          const long double f = m[j][i] / m[i][i];
          for (unsigned k = i; k <= d; ++k)
            m[j][k] -= f * m[i][k];
        }
    }
    x.resize(d);
    for (unsigned i = 0; i < d; ++i)
      x[i] = m[i][d] / m[i][i];
    return true;
  }
};
static Affine affine_of(const Model& m, size_t e)
{
  Affine a;
  a.d = m.d;
  a.D = m.D;
  a.o.assign(m.points[m.pts[e][0]].begin(), m.points[m.pts[e][0]].end());
  for (unsigned i = 0; i < m.d; ++i)
  {
    a.a.emplace_back();
    for (unsigned k = 0; k < m.D; ++k)
      a.a.back().push_back((long double)m.points[m.pts[e][1u << i]][k] - a.o[k]);
  }
  return a;
}
/// Consistent file with hyperedges that are well-shaped parallelotopes in moderate position.
static Model gen_geometric(pbt::Gen& g, unsigned d, unsigned D, unsigned max_edges = 5)
{
  Model m = gen_model(g, d, D, false, max_edges);
  // replace the points: every hyperedge gets its own parallelotope
  m.points.clear();
  for (size_t e = 0; e < m.pts.size(); ++e)
  {
    std::vector<double> o(D);
    std::vector<std::vector<double>> s(d, std::vector<double>(D));
    for (auto& x : o)
      x = g.real() / 2;
    const bool axis = g.raw(2) == 0;
    unsigned off = (unsigned)g.raw(D - 1);
    for (unsigned i = 0; i < d; ++i)
    {
      for (unsigned k = 0; k < D; ++k)
        s[i][k] = axis ? 0. : (double)g.signed_small(15) / 10.;
      const unsigned k = (i + off) % D;
      double len = (1. + (double)g.raw(30) / 10.) * (axis ? 1. : 1.5 * D);
      s[i][k] = g.raw(1) ? -len : len;
    }
    for (unsigned v = 0; v < (1u << d); ++v)
    {
      std::vector<double> p = o;
      for (unsigned i = 0; i < d; ++i)
        if (v >> i & 1)
          for (unsigned k = 0; k < D; ++k)
            p[k] += s[i][k];
      m.pts[e][v] = m.points.size();
      m.points.push_back(p);
    }
  }
  std::set<std::vector<double>> seen(m.points.begin(), m.points.end());
  if (seen.size() != m.points.size())
    throw pbt::Discard();
  return m;
}
template <unsigned d, unsigned D>
static void file_case(pbt::Gen& g)
{
  const Model m = gen_geometric(g, d, D);
  const std::string f = write(text_of(m, nullptr, false), nullptr, g.scratch + "/t.geo");
  typedef Topology::File<d, D> Topo;
  typedef Geometry::File<d, D> Geom;
  typedef NodeDescriptor::File<d, D> Node;
  g.desc << "dim " << d << " in " << D << ", " << m.nodes.size() << " hyperedges, " << m.n_nodes << " hypernodes";
  g.publish_desc();
  Topo topo(f);
  std::filesystem::remove(f);
  compare(topo.domain_info(), m, "domain_info");
  typedef decltype(std::declval<const Topo>()[0]) TopoE;
  typedef decltype(std::declval<const Geom>()[0]) GeomE;
  typedef decltype(std::declval<const Node>()[0]) NodeE;
  CHECK(Topo::hyEdge_dim() == d && Topo::space_dim() == D && TopoE::n_hyNodes() == 2 * d, "dimensions of the topology");
  CHECK(Geom::hyEdge_dim() == d && Geom::space_dim() == D && GeomE::hyEdge_dim() == d && GeomE::space_dim() == D,
        "dimensions of the geometry");
  CHECK(Node::hyEdge_dim() == d && Node::space_dim() == D && NodeE::hyEdge_dim() == d && NodeE::space_dim() == D &&
          NodeE::n_hyNodes() == 2 * d,
        "dimensions of the node descriptor");
  std::vector<unsigned> levels;
  for (unsigned i = 0, mm = (unsigned)g.raw(2); i <= mm; ++i)
    levels.push_back(i == 0 && g.raw(1) ? 1 : gen_level(g, d));
  const bool late = g.raw(1);
  if (late)
    topo.set_refinement(levels[0]);
  Geom geom(topo);
  Node node(topo);
  for (size_t i = 0; i < levels.size(); ++i)
  {
    const unsigned r = levels[i];
    g.desc << " level " << r;
    g.publish_desc();
    if (!(i == 0 && late) && (!(i == 0 && r == 1) || g.raw(1)))
      topo.set_refinement(r), geom.set_refinement(r), node.set_refinement(r);
    CHECK(topo.get_refinement() == r && geom.get_refinement() == r && node.get_refinement() == r, "get_refinement");
    const unsigned long per = ipow<d>(r), edges = m.nodes.size() * per,
                        nodes = m.n_nodes * ipow<d - 1>(r) + m.nodes.size() * d * (r - 1) * ipow<d - 1>(r);
    CHECK(topo.n_hyEdges() == edges, "n_hyEdges is " << topo.n_hyEdges() << " instead of " << edges);
    CHECK(topo.n_hyNodes() == nodes, "n_hyNodes is " << topo.n_hyNodes() << " instead of " << nodes);
    g.nontrivial(m.nodes.size() > 1 && r > 1);
    Bijection b;
    std::set<Key> cells;
    const Topo tcopy = copied(g, topo, r);
    CHECK(tcopy.n_hyEdges() == edges && tcopy.n_hyNodes() == nodes, "a copy has " << tcopy.n_hyEdges() << " hyperedges and " << tcopy.n_hyNodes() << " hypernodes");
    const Geom gcopy = copied(g, geom, r);
    const Node ncopy = copied(g, node, r);
    const bool c1 = g.raw(3) == 0, c2 = g.raw(3) == 0, c3 = g.raw(3) == 0;
    for (unsigned long e = 0; e < edges; ++e)
    {
      const size_t coarse = e / per;
      const Affine a = affine_of(m, coarse);
      const auto te = (c1 ? tcopy : topo)[(unsigned)e];
      auto ge = (c3 ? gcopy : geom)[(unsigned)e];
      const auto ne = (c2 ? ncopy : node)[(unsigned)e];
      auto locate = [&](const auto& p)
      {
        std::vector<long double> q(p.begin(), p.end()), x;
        CHECK(a.coordinates(q, x), "degenerate");
        Key k;
        for (unsigned t = 0; t < d; ++t)
        {
          const long double y = x[t] * 2 * r, z = std::round(y);
          CHECK(std::abs(y - z) < 1e-6, "hyperedge " << e << " is no part of hyperedge " << coarse << " of the file");
          k.push_back((long)z);
        }
        // really on the coarse hyperedge?
        for (unsigned kk = 0; kk < D; ++kk)
        {
          long double y = a.o[kk];
          for (unsigned t = 0; t < d; ++t)
            y += a.a[t][kk] * x[t];
          CHECK(std::abs(y - q[kk]) < 1e-8, "hyperedge " << e << " leaves hyperedge " << coarse << " of the file");
        }
        return k;
      };
      const Key c = locate(ge.map_ref_to_phys(SmallVec<d, double>(0.5)));
      Key cc = c;
      cc.push_back((long)coarse);
      for (unsigned t = 0; t < d; ++t)
        CHECK(c[t] > 0 && c[t] < 2 * (long)r && (c[t] & 1), "hyperedge " << e << " is no subcube");
      CHECK(cells.insert(cc).second, "two hyperedges at the same place");
#if GRAPH == 13
      CHECK(ge.has_extra_data() == m.has_props, "has_extra_data");
      if (m.has_props)
        for (unsigned k = 0; k < m.n_props; ++k)
          CHECK((double)ge.extra_data()[k] == m.props[coarse][k], "property " << k << " of hyperedge " << e);
#endif
      for (unsigned ff = 0; ff < 2 * d; ++ff)
      {
        const Key k = locate(ge.face_barycenter(ff));
        const unsigned dir = ff / 2;
        CHECK(k[dir] == c[dir] + (ff % 2 ? 1 : -1), "face " << ff << " of hyperedge " << e << " is not at its place");
        const bool inner = k[dir] != 0 && k[dir] != 2 * (long)r;
        Key id;
        if (inner)
        {
          id = k;
          id.push_back((long)coarse);
          id.push_back(-1);
        }
        else
        {
          for (unsigned t = 0; t < d; ++t)
            if (t != dir)
              id.push_back(k[t]);
          id.push_back((long)m.nodes[coarse][2 * dir + (k[dir] != 0)]);
        }
        std::ostringstream w;
        w << "face " << ff << " of hyperedge " << e;
#if GRAPH != 13
        b.observe(id, te.get_hyNode_indices()[ff], nodes, w.str());
#endif
#if GRAPH == 14
        const unsigned type = inner ? 0 : (unsigned)m.types[coarse][2 * dir + (k[dir] != 0)];
        CHECK(ne[ff] == type && ne.get_hyFaces_types()[ff] == type, w.str() << ": type " << ne[ff] << " instead of " << type);
#else
        (void)ne;
#endif
      }
    }
    CHECK(cells.size() == edges, "missing subcubes");
    // hypernodes of the file that no hyperedge uses exist nevertheless
    std::set<unsigned long> used;
    for (auto& v : m.nodes)
      used.insert(v.begin(), v.end());
#if GRAPH != 13
    CHECK(b.from.size() == nodes - (m.n_nodes - used.size()) * ipow<d - 1>(r), "number of hypernodes in use is " << b.from.size());
#endif
  }
}
/* ------------------------------------------------------------------ geometry ------------------------------------- */
template <unsigned d, unsigned D, bool q_is_frame, typename E>
static void geometry_of(pbt::Gen& g, E& e, const std::vector<double>& o, const std::vector<std::vector<double>>& s, double scale)
{
  // o + sum_i x_i s_i with spanning vectors s
  const double tol = 1e-10;
  auto map = [&](const std::vector<double>& x)
  {
    std::vector<double> p = o;
    for (unsigned i = 0; i < d; ++i)
      for (unsigned k = 0; k < D; ++k)
        p[k] += x[i] * s[i][k];
    return p;
  };
  auto same = [&](const auto& p, const std::vector<double>& q, const char* what)
  {
    for (unsigned k = 0; k < D; ++k)
      CHECK_CLOSE((double)p[k], q[k], tol, scale, what << ", coordinate " << k);
  };
  auto dot = [](const auto& a, const auto& b, unsigned n)
  {
    double r = 0;
    for (unsigned k = 0; k < n; ++k)
      r += (double)a[k] * (double)b[k];
    return r;
  };
  auto volume = [&](const std::vector<std::vector<double>>& v)
  {
    // product of lengths after Gram-Schmidt
    std::vector<std::vector<double>> w = v;
    double vol = 1;
    for (size_t i = 0; i < w.size(); ++i)
    {
      for (int twice = 0; twice < 2; ++twice)
        for (size_t j = 0; j < i; ++j)
        {
          const double c = dot(w[i], w[j], D);
          for (unsigned k = 0; k < D; ++k)
            w[i][k] -= c * w[j][k];
        }
      const double l = std::sqrt(dot(w[i], w[i], D));
      vol *= l;
      for (auto& x : w[i])
        x /= l;
    }
    return vol;
  };
  // points
  SmallMat<d, 3, double> x;
  std::vector<std::vector<double>> xs(3, std::vector<double>(d));
  for (unsigned j = 0; j < 3; ++j)
    for (unsigned i = 0; i < d; ++i)
      x(i, j) = xs[j][i] = g.raw(2) ? (double)g.raw(8) / 8. : g.unit();
  const auto x0 = x;
  const auto y = e.map_ref_to_phys(x0);
  for (unsigned j = 0; j < 3; ++j)
    same(y.get_column(j), map(xs[j]), "map_ref_to_phys");
#ifndef TPCC_DESCENDING
  if constexpr (d == D)
  {
    SmallMat<D, 3, double> z = x;
    auto& zz = e.map_ref_to_phys(z);
    CHECK(&zz == &z, "in-place map_ref_to_phys returns something else");
    for (unsigned j = 0; j < 3; ++j)
      same(z.get_column(j), map(xs[j]), "in-place map_ref_to_phys");
  }
#endif
  for (unsigned i = 0; i < d; ++i)
    same(e.span_vec(i), s[i], "span_vec");
  // frame: Q R = matrix, Q orthogonal
  const auto q = e.mat_q();
  const auto r = e.mat_r();
  for (unsigned i = 0; i < D; ++i)
    for (unsigned j = 0; j < D; ++j)
      CHECK_CLOSE(dot(q.get_column(i), q.get_column(j), D), i == j ? 1. : 0., tol, 1., "mat_q is not orthogonal");
  for (unsigned j = 0; j < d; ++j)
  {
    std::vector<double> c(D, 0.);
    for (unsigned i = 0; i < d; ++i)
      for (unsigned k = 0; k < D; ++k)
        c[k] += (double)r(i, j) * (double)q(k, i);
    same(c, s[j], "mat_q * mat_r");
    for (unsigned i = j + 1; i < d; ++i)
      CHECK_CLOSE((double)r(i, j), 0., tol, scale, "mat_r is not upper triangular");
  }
  // areas
  double sd = 1, sf = 1;
  for (unsigned i = 0; i < d; ++i)
    sd *= scale;
  for (unsigned i = 0; i + 1 < d; ++i)
    sf *= scale;
  CHECK_CLOSE((double)e.area(), volume(s), tol, sd, "area");
  for (unsigned f = 0; f < 2 * d; ++f)
  {
    std::vector<std::vector<double>> face;
    for (unsigned i = 0; i < d; ++i)
      if (i != f / 2)
        face.push_back(s[i]);
    CHECK_CLOSE((double)e.face_area(f), volume(face), tol, sf, "face_area of face " << f);
    std::vector<double> c(d, 0.5);
    c[f / 2] = f % 2;
    same(e.face_barycenter(f), map(c), "face_barycenter");
    const auto n = e.inner_normal(f);
    CHECK_CLOSE(dot(n, n, D), 1., tol, 1., "length of inner normal " << f);
    for (unsigned i = 0; i < d; ++i)
      if (i != f / 2)
        CHECK_CLOSE(dot(n, s[i], D), 0., tol, scale, "inner normal " << f << " is not orthogonal to its face");
    CHECK((f % 2 ? 1 : -1) * dot(n, s[f / 2], D) > 0, "inner normal " << f << " does not point outwards");
    const auto l = e.local_normal(f);
    for (unsigned k = 0; k < D; ++k)
    {
      double v = 0;
      for (unsigned i = 0; i < d; ++i)
        v += (double)q(k, i) * (double)l[i];
      CHECK_CLOSE(v, (double)n[k], tol, 1., "local and inner normal " << f << " differ");
    }
  }
  for (unsigned i = 0; i < D - d; ++i)
  {
    const auto n = e.outer_normal(i);
    for (unsigned j = 0; j < d; ++j)
      CHECK_CLOSE(dot(n, s[j], D), 0., tol, scale, "outer normal " << i << " is not orthogonal to the hyperedge");
    for (unsigned j = 0; j <= i; ++j)
      CHECK_CLOSE(dot(n, e.outer_normal(j), D), i == j ? 1. : 0., tol, 1., "outer normals are not orthonormal");
    if (q_is_frame)
      for (unsigned k = 0; k < D; ++k)
        CHECK_CLOSE((double)n[k], (double)q(k, i + d), tol, 1., "outer normal " << i << " is not the column of mat_q");
  }
  // tensor product points
  SmallVec<3, float> p1;
  for (unsigned i = 0; i < 3; ++i)
    p1[i] = (float)g.raw(16) / 16;
  const unsigned ix = (unsigned)g.index(ipow<d>(3));
  std::vector<double> c(d);
  for (unsigned i = 0, t = ix; i < d; ++i, t /= 3)
    c[i] = p1[t % 3];
  same(e.template lexicographic<3>(ix, p1), map(c), "lexicographic");
  const unsigned per = (unsigned)ipow<d - 1>(3), bn = (unsigned)g.index(2 * d), bi = (unsigned)g.index(per);
  const float sc = (float)(1 + g.raw(15)) / 16;
  for (unsigned i = 0, t = bi; i < d; ++i)
    if (i == bn / 2)
      c[i] = 0.5 + sc * (bn % 2 ? 0.5 : -0.5);
    else
      c[i] = p1[t % 3], t /= 3;
  same(e.template boundary_lexicographic<3>(bn * per + bi, bn, sc, p1), map(c), "boundary_lexicographic");
}
template <unsigned d, unsigned D>
static void file_geometry(pbt::Gen& g)
{
  const Model m = gen_geometric(g, d, D, 3);
  const std::string f = write(text_of(m, nullptr, false), nullptr, g.scratch + "/t.geo");
  Topology::File<d, D> topo(f);
  std::filesystem::remove(f);
  Geometry::File<d, D> geom(topo);
  const unsigned r = gen_level(g, d);
  topo.set_refinement(r);
  geom.set_refinement(r);
  g.desc << "file, dim " << d << " in " << D << ", level " << r;
  g.nontrivial(D > 1);
  const unsigned long per = ipow<d>(r), ix = g.index(m.nodes.size() * per);
  const Affine a = affine_of(m, ix / per);
  auto e = geom[(unsigned)ix];
  // position of the subcube from its center
  const auto c = e.map_ref_to_phys(SmallVec<d, double>(0.5));
  std::vector<long double> q(c.begin(), c.end()), x;
  CHECK(a.coordinates(q, x), "degenerate");
  std::vector<double> o(D);
  std::vector<std::vector<double>> s(d, std::vector<double>(D));
  for (unsigned k = 0; k < D; ++k)
  {
    long double y = a.o[k];
    for (unsigned t = 0; t < d; ++t)
    {
      const long double cell = std::floor(x[t] * r);
      CHECK(cell >= 0 && cell < r, "hyperedge " << ix << " at level " << r << " is no part of hyperedge " << ix / per << " of the file");
      y += a.a[t][k] * cell / r;
      s[t][k] = (double)(a.a[t][k] / r);
    }
    o[k] = (double)y;
  }
  geometry_of<d, D, true>(g, e, o, s, 40.);
  // extra data
  CHECK(e.has_extra_data() == m.has_props, "has_extra_data");
  if (m.has_props)
    for (unsigned k = 0; k < m.n_props; ++k)
      CHECK((double)e.extra_data()[k] == m.props[ix / per][k], "property " << k);
}
template <unsigned d, unsigned D>
static void cube_geometry(pbt::Gen& g)
{
  SmallVec<D, unsigned int> n;
  for (unsigned k = 0; k < D; ++k)
    n[k] = 1 + (unsigned)g.raw(D < 4 ? 6 : 2);
  Topology::Cubic<d, D> topo(n);
  Geometry::UnitCube<d, D> geom(topo);
  const unsigned r = gen_level(g, d);
  topo.set_refinement(r);
  geom.set_refinement(r);
  g.desc << "unit cube, dim " << d << " in " << D << ", level " << r;
  g.nontrivial(D > 1);
  const unsigned ix = (unsigned)g.index(topo.n_hyEdges());
  auto e = geom[ix];
  const auto lo = e.map_ref_to_phys(SmallVec<d, double>(0.));
  std::vector<double> o(D);
  for (unsigned k = 0; k < D; ++k)
  {
    o[k] = std::round((double)lo[k] * n[k] * r) / (n[k] * r);
    CHECK_CLOSE((double)lo[k], o[k], 1e-12, 1., "the corner of a hyperedge is no grid point");
  }
  std::vector<std::vector<double>> s(d, std::vector<double>(D, 0.));
  std::set<unsigned> dirs;
  for (unsigned i = 0; i < d; ++i)
  {
    SmallVec<d, double> u(0.);
    u[i] = 1.;
    const auto p = e.map_ref_to_phys(u);
    unsigned dir = D;
    for (unsigned k = 0; k < D; ++k)
      if (std::abs((double)p[k] - (double)lo[k]) > 1e-9)
      {
        CHECK(dir == D, "hyperedge is not aligned with the axes");
        dir = k;
      }
    CHECK(dir < D && dirs.insert(dir).second, "degenerate hyperedge");
    s[i][dir] = 1. / (n[dir] * r);
  }
  for (unsigned k = 0; k < D; ++k)
  {
    double hi = o[k];
    for (unsigned i = 0; i < d; ++i)
      hi += s[i][k];
    CHECK(o[k] > -1e-9 && hi < 1 + 1e-9, "hyperedge " << ix << " leaves the unit cube");
  }
  geometry_of<d, D, false>(g, e, o, s, 1.);
}
typedef void (*fun)(pbt::Gen&);
#ifdef TPCC_DESCENDING
// The overload of UnitCube's map_ref_to_phys that works in place (hyperedges of full dimension only) relies on ascending directions.
#define FULL(x)
#else
#define FULL(x) x,
#endif
static const fun cubic[] = {FULL((cubic_case<1, 1, unsigned>)) cubic_case<1, 2, unsigned>, FULL((cubic_case<2, 2, unsigned>)) cubic_case<1, 3, unsigned>,
                            cubic_case<2, 3, unsigned>, FULL((cubic_case<3, 3, unsigned>)) cubic_case<2, 4, unsigned>};
static const fun file[] = {file_case<1, 1>, file_case<1, 2>, file_case<2, 2>, file_case<1, 3>, file_case<2, 3>, file_case<3, 3>};
#if GRAPH == 11
FAMILY("cubic_graphs", 1500, 20000, "several hyperedges and a refinement") { cubic[g.index(std::size(cubic))](g); }
#elif GRAPH == 12
FAMILY("file_graphs", 4000, 60000, "several hyperedges and a refinement") { file[g.index(6)](g); }
#elif GRAPH == 14
FAMILY("cubic_node_types", 1500, 20000, "several hyperedges and a refinement") { cubic[g.index(std::size(cubic))](g); }
FAMILY("file_node_types", 4000, 60000, "several hyperedges and a refinement") { file[g.index(6)](g); }
#else
static const fun geo[] = {FULL((cube_geometry<1, 1>)) cube_geometry<1, 2>, FULL((cube_geometry<2, 2>)) cube_geometry<1, 3>, cube_geometry<2, 3>, FULL((cube_geometry<3, 3>)) cube_geometry<2, 4>,
                          file_geometry<1, 1>, file_geometry<1, 2>, file_geometry<2, 2>, file_geometry<1, 3>, file_geometry<2, 3>, file_geometry<3, 3>, file_geometry<2, 4>};
FAMILY("hyperedge_geometry", 20000, 300000, "space dimension > 1") { geo[g.index(std::size(geo))](g); }
FAMILY("cubic_cells", 400, 8000, "several hyperedges and a refinement") { cubic[g.index(std::size(cubic))](g); }
FAMILY("file_cells", 1500, 25000, "several hyperedges and a refinement") { file[g.index(6)](g); }
#endif
