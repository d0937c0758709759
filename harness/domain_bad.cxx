// P09: inconsistent domain files are refused; check_consistency never calls an inconsistent domain consistent.
#include "domain_common.hxx"
using namespace dom;
template <unsigned d, unsigned D>
static void bad_case(pbt::Gen& g)
{
  Model m = gen_model(g, d, D, false);
  Text t = text_of(m, nullptr, false);
  const size_t ne = m.nodes.size(), e = g.index(ne);
  std::string what, name = "b.geo";
  auto in = [](unsigned long x) { return std::to_string(x); };
  auto row = [&](const auto& v)
  {
    std::string s;
    for (auto x : v)
      s += in(x) + " ";
    return s;
  };
  static const char* const kw[] = {"Space_Dim", "HyperEdge_Dim", "N_Points", "N_HyperNodes", "N_HyperEdges"};
  bool missing_file = false, separators = true;
  switch (g.raw(16))
  {
    case 0: what = "file does not exist"; missing_file = true; break;
    case 1: what = "extension"; name = g.oneof<std::string>({"b.txt", "b.ge0", "bgeo_", "b.geo.bak"}); break;
    case 2:
    {
      const unsigned k = (unsigned)g.raw(1);
      const unsigned right = k ? d : D, wrong = right + 1 + (unsigned)g.raw(2);
      t.header[k] = std::string(kw[k]) + " = " + in(g.raw(1) && right > 1 ? right - 1 : wrong) + ";";
      what = std::string("wrong ") + kw[k];
      break;
    }
    case 3:
    {
      const unsigned k = (unsigned)g.raw(4);
      t.header[k] = g.raw(1) ? "" : "X" + t.header[k];
      what = std::string("no keyword ") + kw[k];
      break;
    }
    case 4:
    {
      const unsigned k = (unsigned)g.raw(4);
      t.header[k] = std::string(kw[k]) + g.oneof<std::string>({" : 3;", " == 3;", " is 3"});
      what = std::string("no equal sign after ") + kw[k];
      break;
    }
    case 5:
    {
      const unsigned k = 2 + (unsigned)g.raw(2);
      t.header[k] = std::string(kw[k]) + g.oneof<std::string>({" = 0;", " = ;", " = ", " = many;"});
      what = std::string("no positive ") + kw[k];
      break;
    }
    case 6:
    {
      const unsigned k = (unsigned)g.raw(1);
      t.header[k] = std::string(kw[k]) + g.oneof<std::string>({" = ", " = ;", " = two", " ="});
      what = std::string("no value of ") + kw[k];
      break;
    }
    case 7:
    {
      const unsigned k = (unsigned)g.raw(3);
      t.key[k] = g.raw(1) ? "" : t.key[k].substr(0, t.key[k].size() - 1);
      what = "no section keyword";
      break;
    }
    case 8:
    {
      // the last rows of the file are missing
      if (m.has_props)
        t.props.resize(g.raw(ne - 1));
      else
        t.pts.resize(g.raw(ne - 1));
      what = "too few rows in last section";
      break;
    }
    case 9:
    {
      auto r = m.nodes[e];
      r[g.index(r.size())] = m.n_nodes + (g.raw(1) ? g.raw(3) : 0);
      t.nodes[e] = row(r);
      what = "hypernode index too large, hyperedge " + in(e) + " of " + in(ne);
      break;
    }
    case 10:
    {
      auto r = m.pts[e];
      r[g.index(r.size())] = m.points.size() + (g.raw(1) ? g.raw(3) : 0);
      t.pts[e] = row(r);
      what = "point index too large, hyperedge " + in(e) + " of " + in(ne);
      break;
    }
    case 11:
    {
      auto r = m.nodes[e];
      const size_t i = g.index(r.size()), j = (i + 1 + g.index(r.size() - 1)) % r.size();
      r[i] = r[j];
      t.nodes[e] = row(r);
      what = "hypernode repeated within hyperedge " + in(e) + " of " + in(ne);
      break;
    }
    case 12:
    {
      auto r = m.pts[e];
      const size_t i = g.index(r.size()), j = (i + 1 + g.index(r.size() - 1)) % r.size();
      r[i] = r[j];
      t.pts[e] = row(r);
      what = "point repeated within hyperedge " + in(e) + " of " + in(ne);
      break;
    }
    case 13:
    {
      const size_t n = m.points.size(), i = g.index(n), j = (i + 1 + g.index(n - 1)) % n;
      t.points[i] = t.points[j];
      what = "points " + in(i) + " and " + in(j) + " coincide";
      break;
    }
    case 14:
    {
      if (ne < 2)
        throw pbt::Discard();
      const size_t j = (e + 1 + g.index(ne - 1)) % ne;
      if (g.raw(1))
        t.nodes[e] = t.nodes[j], what = "hypernodes";
      else
        t.pts[e] = t.pts[j], what = "points";
      what += " of hyperedges " + in(e) + " and " + in(j) + " coincide";
      break;
    }
    case 15:
    {
      auto& s = g.raw(1) ? t.nodes[e] : t.pts[e];
      const size_t p = s.find(' ');
      s = "-" + in(1 + g.raw(3)) + s.substr(p);
      what = "negative index";
      break;
    }
    default:
    {
      if (ne < 2)
        throw pbt::Discard();
      // a whole section ends too early (the next keyword is swallowed)
      auto& s = *std::array<std::vector<std::string>*, 4>{&t.points, &t.nodes, &t.types, &t.pts}[g.index(4)];
      s.pop_back();
      what = "section with one row too few";
      separators = false;  // otherwise the reader takes the empty line for the missing row, which it tolerates
    }
  }
  const std::string f = g.scratch + "/" + name;
  std::filesystem::remove(f);
  if (!missing_file)
    write(t, nullptr, f, separators);
  g.desc << "dim " << d << " in " << D << ": " << what;
  g.label(what.substr(0, what.find(',')).substr(0, 22));
  g.publish_desc();
  g.nontrivial();
  auto r = pbt::run_child([&] { (void)read_domain<d, D>(f); });
  std::filesystem::remove(f);
  CHECK(r.kind == pbt::ChildResult::aborted || r.kind == pbt::ChildResult::threw, "accepted (or crashed on): " << what);
}
typedef void (*fun)(pbt::Gen&);
static const fun bad[] = {bad_case<1, 1>, bad_case<1, 2>, bad_case<1, 3>, bad_case<2, 2>, bad_case<2, 3>, bad_case<3, 3>};
#ifndef NDEBUG
FAMILY("inconsistent_files", 6000, 120000, "every case (one inconsistency in an otherwise consistent file)") { bad[g.index(6)](g); }
#endif

/// Direct use of DomainInfo.
template <unsigned d, unsigned D>
static void info_case(pbt::Gen& g)
{
  const Model m = gen_model(g, d, D, false);
  DomainInfo<d, D, std::vector, Point<D, double>> info(m.points.size(), m.nodes.size(), m.n_nodes, m.points.size());
  for (size_t i = 0; i < m.points.size(); ++i)
    for (unsigned k = 0; k < D; ++k)
      info.points[i][k] = m.points[i][k];
  for (size_t e = 0; e < m.nodes.size(); ++e)
  {
    for (unsigned k = 0; k < 2 * d; ++k)
      info.hyNodes_hyEdge[e][k] = (unsigned)m.nodes[e][k], info.hyFaces_hyEdge[e][k] = (unsigned)m.types[e][k];
    for (unsigned k = 0; k < (1u << d); ++k)
      info.points_hyEdge[e][k] = (unsigned)m.pts[e][k];
  }
  CHECK(info.check_consistency(), "consistent domain called inconsistent");
  const size_t ne = m.nodes.size(), e = g.index(ne);
  std::string what;
  switch (g.raw(6))
  {
    case 0: info.hyNodes_hyEdge[e][g.index(2 * d)] = (unsigned)(m.n_nodes + g.raw(2)), what = "hypernode index"; break;
    case 1: info.points_hyEdge[e][g.index(1u << d)] = (unsigned)(m.points.size() + g.raw(2)), what = "point index"; break;
    case 2:
    {
      const size_t i = g.index(2 * d), j = (i + 1 + g.index(2 * d - 1)) % (2 * d);
      info.hyNodes_hyEdge[e][i] = info.hyNodes_hyEdge[e][j], what = "repeated hypernode";
      break;
    }
    case 3:
    {
      const size_t n = 1u << d, i = g.index(n), j = (i + 1 + g.index(n - 1)) % n;
      info.points_hyEdge[e][i] = info.points_hyEdge[e][j], what = "repeated point";
      break;
    }
    case 4:
    {
      const size_t n = m.points.size(), i = g.index(n), j = (i + 1 + g.index(n - 1)) % n;
      info.points[i] = info.points[j], what = "coinciding points";
      break;
    }
    default:
    {
      if (ne < 2)
        throw pbt::Discard();
      const size_t j = (e + 1 + g.index(ne - 1)) % ne;
      if (g.raw(1))
        info.hyNodes_hyEdge[e] = info.hyNodes_hyEdge[j];
      else
        info.points_hyEdge[e] = info.points_hyEdge[j];
      what = "coinciding hyperedges";
    }
  }
  g.desc << "dim " << d << " in " << D << ", hyperedge " << e << " of " << ne << ": " << what;
  g.label(what);
  g.nontrivial();
#ifdef NDEBUG
  CHECK(!info.check_consistency(), "called consistent in spite of: " << what);
#else
  if (!g.chance(1, 8))
    return;
  auto r = pbt::run_child(
    [&]
    {
      if (!info.check_consistency())
        throw std::runtime_error("inconsistent");
    });
  CHECK(r.kind == pbt::ChildResult::aborted || r.kind == pbt::ChildResult::threw, "called consistent in spite of: " << what);
#endif
}
static const fun infos[] = {info_case<1, 1>, info_case<1, 2>, info_case<1, 3>, info_case<2, 2>, info_case<2, 3>, info_case<3, 3>};
FAMILY("check_consistency", 8000, 160000, "every case (one inconsistency planted in a consistent domain)") { infos[g.index(6)](g); }
