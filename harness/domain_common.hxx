// Generator and writer of .geo descriptions, with a plain model of what they say.
#pragma once
#include <pbt.hxx>
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/read_domain.hxx>
#include <filesystem>
#include <deque>
namespace dom
{
struct Model
{
  unsigned d, D;
  size_t n_nodes;
  std::vector<std::vector<double>> points;
  std::vector<std::vector<unsigned long>> nodes, types, pts;
  bool has_props = false;
  unsigned n_props = 0;
  std::vector<std::vector<double>> props;
};
/// Random consistent description (indices valid, rows duplicate free).
inline Model gen_model(pbt::Gen& g, unsigned d, unsigned D, bool as_float, unsigned max_edges = 8)
{
  Model m;
  m.d = d;
  m.D = D;
  const unsigned nv = 1u << d, nf = 2 * d;
  const bool large = g.chance(1, 12);
  const int expo = g.raw(3) == 0 ? 30 : 4;
  const size_t np = nv + g.raw(large ? 300 : 10);
  std::set<std::vector<double>> seen;
  for (size_t i = 0; i < np; ++i)
  {
    std::vector<double> p(D);
    for (auto& x : p)
    {
      x = g.raw(2) ? g.real() : g.real_wide(expo);
      if (as_float)
        x = (double)(float)x;
      if (x == 0)
        x = 0.;
    }
    if (!seen.insert(p).second)
    {
      p[0] += 100. + (double)i;
      if (as_float)
        p[0] = (double)(float)p[0];
      if (!seen.insert(p).second)
        throw pbt::Discard();
    }
    m.points.push_back(p);
  }
  m.n_nodes = nf + g.raw(large ? 300 : 10);
  const unsigned ne = 1 + (unsigned)g.raw(large && max_edges >= 8 ? 150 : max_edges - 1);
  auto distinct = [&](size_t k, size_t n)
  {
    std::vector<unsigned long> pool(n), r;
    for (size_t i = 0; i < n; ++i)
      pool[i] = i;
    for (size_t i = 0; i < k; ++i)
    {
      const size_t j = g.index(pool.size());
      r.push_back(pool[j]);
      pool.erase(pool.begin() + (long)j);
    }
    return r;
  };
  std::set<std::vector<unsigned long>> sn, sp;
  for (unsigned e = 0; e < ne; ++e)
  {
    auto n = distinct(nf, m.n_nodes), p = distinct(nv, np);
    if (sn.count(n) || sp.count(p))
      continue;
    sn.insert(n);
    sp.insert(p);
    m.nodes.push_back(n);
    m.pts.push_back(p);
    std::vector<unsigned long> t(nf);
    for (auto& x : t)
      x = g.raw(3);
    m.types.push_back(t);
  }
  m.has_props = g.raw(1);
  if (m.has_props)
  {
    m.n_props = 1 + (unsigned)g.raw(g.raw(4) == 0 ? 24 : 4);
    for (size_t e = 0; e < m.nodes.size(); ++e)
    {
      m.props.emplace_back();
      for (unsigned k = 0; k < m.n_props; ++k)
        m.props.back().push_back(as_float ? (double)(float)g.real_wide(expo) : g.real_wide(expo));
    }
  }
  return m;
}
/// The text, in sections that a test can tamper with.
struct Text
{
  std::vector<std::string> header;                       // five "keyword = value" lines
  std::vector<std::string> points, nodes, types, pts, props;
  std::string key[5] = {"POINTS:", "HYPERNODES_OF_HYPEREDGES:", "TYPES_OF_HYPERFACES:", "POINTS_OF_HYPEREDGES:", "HYPEREDGE_PROPERTIES:"};
  bool has_props = false;
  unsigned n_props = 0;
};
inline std::string num(pbt::Gen* g, double x, bool as_float)
{
  char b[64];
  const int kind = g ? (int)g->raw(3) : 0;
  if (kind == 1)
    snprintf(b, sizeof b, as_float ? "%.12e" : "%.20e", x);
  else if (kind == 2)
    snprintf(b, sizeof b, as_float ? "%+.9g" : "%+.17g", x);
  else if (kind == 3 && x == std::floor(x) && std::abs(x) < 1e6)
    snprintf(b, sizeof b, "%ld%s", (long)x, g->raw(1) ? "." : "");
  else
    snprintf(b, sizeof b, as_float ? "%.9g" : "%.17g", x);
  return b;
}
inline Text text_of(const Model& m, pbt::Gen* g, bool as_float)
{
  auto ws = [&]() -> std::string
  {
    static const char* const w[] = {" ", "  ", "\t", "   \t "};
    return g ? w[g->index(4)] : " ";
  };
  auto maybe = [&] { return g && g->raw(2) == 0; };
  Text t;
  const std::pair<const char*, size_t> h[] = {{"Space_Dim", m.D}, {"HyperEdge_Dim", m.d}, {"N_Points", m.points.size()},
                                              {"N_HyperNodes", m.n_nodes}, {"N_HyperEdges", m.nodes.size()}};
  for (auto& x : h)
    t.header.push_back((maybe() ? ws() : "") + x.first + ws() + "=" + ws() + std::to_string(x.second) + (maybe() ? "" : ";") +
                       (maybe() ? ws() + "# comment = 17;" : ""));
  auto row = [&](auto& v, auto conv)
  {
    std::string s = maybe() ? ws() : "";
    for (size_t i = 0; i < v.size(); ++i)
      s += (i ? ws() : "") + conv(v[i]);
    return s + (maybe() ? ws() : "");
  };
  auto fl = [&](double x) { return num(g, x, as_float); };
  auto in = [&](unsigned long x) { return std::to_string(x); };
  for (auto& p : m.points)
    t.points.push_back(row(p, fl));
  for (auto& p : m.nodes)
    t.nodes.push_back(row(p, in));
  for (auto& p : m.types)
    t.types.push_back(row(p, in));
  for (auto& p : m.pts)
    t.pts.push_back(row(p, in));
  t.has_props = m.has_props;
  t.n_props = m.n_props;
  for (auto& p : m.props)
    t.props.push_back(row(p, fl));
  return t;
}
inline std::string write(const Text& t, pbt::Gen* g, const std::string& file, bool separators = true)
{
  std::ofstream o(file);
  auto filler = [&]
  {
    if (!g)
    {
      if (separators)
        o << "\n";
      return;
    }
    for (unsigned k = (unsigned)g->raw(3); k > 0; --k)
    {
      static const char* const c[] = {"", "# a comment", "   ", "# POINTS: follow after the keyword \"POINTS:\"",
                                      "After HYPERNODES_OF_HYPEREDGES: there are numbers", "12 13 14"};
      o << c[g->index(6)] << "\n";
    }
  };
  for (auto& h : t.header)
  {
    filler();
    o << h << "\n";
  }
  const std::vector<std::string>* sec[] = {&t.points, &t.nodes, &t.types, &t.pts, &t.props};
  for (int s = 0; s < (t.has_props ? 5 : 4); ++s)
  {
    filler();
    o << t.key[s];
    if (s == 4)
      o << " " << t.n_props;
    o << "\n";
    for (size_t i = 0; i < sec[s]->size(); ++i)
      o << (*sec[s])[i] << "\n";
  }
  if (g && g->raw(1))
    filler();
  o.close();
  return file;
}
template <typename Info>
void compare(const Info& info, const Model& m, const char* how)
{
  CHECK(info.n_hyEdges == m.nodes.size() && info.n_hyNodes == m.n_nodes && info.n_points == m.points.size(),
        how << ": counts " << info.n_hyEdges << " " << info.n_hyNodes << " " << info.n_points);
  CHECK(info.points.size() == m.points.size() && info.hyNodes_hyEdge.size() == m.nodes.size() &&
          info.hyFaces_hyEdge.size() == m.nodes.size() && info.points_hyEdge.size() == m.nodes.size(),
        how << ": table sizes");
  for (size_t i = 0; i < m.points.size(); ++i)
    for (unsigned k = 0; k < m.D; ++k)
      CHECK((double)info.points[i][k] == m.points[i][k], how << ": coordinate " << k << " of point " << i << " is " << info.points[i][k]
                                                             << " instead of " << m.points[i][k]);
  for (size_t e = 0; e < m.nodes.size(); ++e)
  {
    for (unsigned k = 0; k < 2 * m.d; ++k)
    {
      CHECK((unsigned long)info.hyNodes_hyEdge[e][k] == m.nodes[e][k], how << ": hypernode " << k << " of hyperedge " << e);
      CHECK((unsigned long)info.hyFaces_hyEdge[e][k] == m.types[e][k], how << ": face type " << k << " of hyperedge " << e);
    }
    for (unsigned k = 0; k < (1u << m.d); ++k)
      CHECK((unsigned long)info.points_hyEdge[e][k] == m.pts[e][k], how << ": point " << k << " of hyperedge " << e);
  }
  CHECK(info.n_properties == m.n_props, how << ": number of properties " << info.n_properties);
  CHECK(info.hyEdge_properties.size() == (m.has_props ? m.nodes.size() : 0), how << ": property table size");
  for (size_t e = 0; e < info.hyEdge_properties.size(); ++e)
  {
    CHECK(info.hyEdge_properties[e].size() == m.n_props, how << ": properties of hyperedge " << e);
    for (unsigned k = 0; k < m.n_props; ++k)
      CHECK((double)info.hyEdge_properties[e][k] == m.props[e][k], how << ": property " << k << " of hyperedge " << e << " is "
                                                                        << info.hyEdge_properties[e][k]);
  }
}
inline std::string slurp(const std::string& f)
{
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
}  // namespace dom
