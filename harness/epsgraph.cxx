// P10: epsilon neighbourhood graph of a point cloud.
#include "domain_common.hxx"
using namespace dom;
template <unsigned D, typename F>
static void eps_case(pbt::Gen& g)
{
  // connected or (sometimes) disconnected cloud
  const size_t n = 2 + g.raw(g.thorough ? 60 : 25);
  const double eps0 = g.oneof<double>({1., 0.25, 3.5, 0.01, 40.});
  const F eps = (F)eps0;
  std::vector<std::vector<double>> pts;
  std::set<std::vector<double>> seen;
  const bool grid = g.raw(2) == 0;
  const double reach = g.raw(3) == 0 ? 0.9 : 0.95 / std::sqrt((double)D);
  for (size_t i = 0; i < n; ++i)
  {
    std::vector<double> p(D);
    const std::vector<double>* base = pts.empty() ? nullptr : &pts[g.index(pts.size())];
    for (auto& x : p)
    {
      const double off = grid ? eps0 * (double)g.signed_small(reach == 0.9 ? 2 : 1) * (reach == 0.9 || D < 4 ? 0.5 : 0.25) : eps0 * (g.unit() * 2 - 1) * reach;
      x = (double)(F)((base ? (*base)[(size_t)(&x - p.data())] : g.raw(2) == 0 ? 1000. * g.real() : g.real()) + off);
      if (x == 0)
        x = 0.;
    }
    if (g.chance(1, 60))
      p[g.index(D)] += 5 * eps0;
    if (base && g.raw(3) == 3)
    {
      // along an axis, at a distance of (nearly) epsilon
      p = *base;
      const bool out = g.raw(15) == 0;
      const double gap = out && g.raw(1) ? 0. : std::pow(10., -1. - (double)g.raw(sizeof(F) == 4 ? 3 : 11));
      const unsigned axis = g.raw(1) ? (unsigned)g.index(D) : 0;
      p[axis] += (g.raw(1) ? 1. : -1.) * eps0 * (out ? 1. + gap : 1. - gap);
    }
    for (auto& x : p)
      x = (double)(F)x;
    if (seen.insert(p).second)
      pts.push_back(p);
  }
  // expected edges; points at (nearly) exactly distance epsilon may go either way
  auto dist = [&](size_t i, size_t j)
  {
    long double s = 0;
    for (unsigned k = 0; k < D; ++k)
      s += ((long double)pts[i][k] - pts[j][k]) * ((long double)pts[i][k] - pts[j][k]);
    return std::sqrt(s);
  };
  const size_t np = pts.size();
  if (np < 2)
    throw pbt::Discard();
  std::vector<std::vector<double>> sorted = pts;
  std::sort(sorted.begin(), sorted.end());
  pts.swap(sorted);  // model in sorted order, file in generated order
  std::set<std::pair<size_t, size_t>> must, may;
  const long double band = (sizeof(F) == 4 ? 1e-5L : 1e-13L);
  for (size_t i = 0; i < np; ++i)
    for (size_t j = i + 1; j < np; ++j)
    {
      const long double r = dist(i, j) / (long double)eps;
      const long double b = band;
      if (r < 1 - b)
        must.insert({i, j});
      else if (r <= 1 + b)
      {
        // a difference along an axis of exactly epsilon is not "below epsilon" in any rounding
        unsigned moved = 0, exact = 0;
        for (unsigned k = 0; k < D; ++k)
        {
          const long double d = std::abs((long double)pts[i][k] - (long double)pts[j][k]);
          moved += d != 0;
          exact += d == (long double)eps;
        }
        if (moved == 1 && exact == 1)
          g.label("exactly epsilon");
        else
          may.insert({i, j});
      }
    }
  auto connected = [&](const std::set<std::pair<size_t, size_t>>& e)
  {
    std::vector<size_t> c(np);
    for (size_t i = 0; i < np; ++i)
      c[i] = i;
    std::function<size_t(size_t)> root = [&](size_t i) { return c[i] == i ? i : c[i] = root(c[i]); };
    for (auto& x : e)
      c[root(x.first)] = root(x.second);
    for (size_t i = 0; i < np; ++i)
      if (root(i) != root(0))
        return false;
    return true;
  };
  auto all = must;
  all.insert(may.begin(), may.end());
  const bool surely = connected(must), possibly = connected(all);
  std::string f = g.scratch + "/c.pts";
  {
    std::ofstream o(f);
    o << "# comment\n\nSpace_Dim = " << D << "; # c\n\nEpsilon = " << num(nullptr, (double)eps, sizeof(F) == 4) << ";\n# x\nPOINTS:\n";
    for (size_t i = 0; i < np; ++i)
    {
      for (unsigned k = 0; k < D; ++k)
        o << (k ? " " : "") << num(nullptr, sorted[i][k], sizeof(F) == 4);
      o << "\n";
    }
  }
  g.desc << np << " points in dimension " << D << ", epsilon " << eps0 << ", " << must.size() << " edges, "
         << (surely ? "connected" : "not surely connected");
  g.publish_desc();
  g.nontrivial(np > 3 && must.size() > np);
  if (!possibly)
  {
    g.label("disconnected refused");
    auto r = pbt::run_child([&] { std::string s = f; make_epsilon_neighborhood_graph<D, std::vector, Point<D, F>, unsigned>(s); });
    CHECK(r.kind == pbt::ChildResult::aborted || r.kind == pbt::ChildResult::threw, "disconnected cloud accepted");
    return;
  }
  if (!surely)
    throw pbt::Discard();
  std::string name = f;
  const unsigned how = (unsigned)g.raw(2);
  std::filesystem::remove(f + ".geo");
  auto check = [&](const auto& info)
  {
    CHECK(info.n_points == np && info.n_hyNodes == np, "counts: " << info.n_points << " " << info.n_hyNodes);
    std::vector<size_t> pos(np);
    for (size_t i = 0; i < np; ++i)
    {
      std::vector<double> p(D);
      for (unsigned k = 0; k < D; ++k)
        p[k] = (double)info.points[i][k];
      auto it = std::lower_bound(pts.begin(), pts.end(), p);
      CHECK(it != pts.end() && *it == p, "point " << i << " is not a point of the cloud: first coordinate " << p[0]);
      pos[i] = (size_t)(it - pts.begin());
    }
    CHECK(std::set<size_t>(pos.begin(), pos.end()).size() == np, "a point of the cloud is missing");
    std::set<std::pair<size_t, size_t>> got;
    for (size_t e = 0; e < info.n_hyEdges; ++e)
    {
      const size_t a = info.points_hyEdge[e][0], b = info.points_hyEdge[e][1];
      CHECK(a < np && b < np && a != b, "edge " << e << " joins " << a << " and " << b);
      CHECK(info.hyNodes_hyEdge[e][0] == a && info.hyNodes_hyEdge[e][1] == b, "hypernodes and points of edge " << e << " differ");
      const std::pair<size_t, size_t> k{std::min(pos[a], pos[b]), std::max(pos[a], pos[b])};
      CHECK(got.insert(k).second, "edge between points " << a << " and " << b << " is listed twice");
      CHECK(all.count(k), "edge between points at distance " << (double)(dist(k.first, k.second) / (long double)eps) << " epsilon");
    }
    for (auto& k : must)
      CHECK(got.count(k), "no edge between points at distance " << (double)(dist(k.first, k.second) / (long double)eps) << " epsilon");
  };
  if (how == 0)
  {
    make_epsilon_neighborhood_graph<D, std::vector, Point<D, F>, unsigned>(name);
    CHECK(name == f + ".geo", "name of the generated file: " << name);
    check(read_domain_geo<1, D, std::vector, Point<D, F>>(name));
  }
  else
    check(read_domain<1, D, std::vector, Point<D, F>>(f));
  CHECK(std::filesystem::exists(f) && std::filesystem::exists(f + ".geo"), "files");
  std::filesystem::remove(f);
  std::filesystem::remove(f + ".geo");
}
typedef void (*fun)(pbt::Gen&);
static const fun ep[] = {eps_case<1, double>, eps_case<2, double>, eps_case<3, double>, eps_case<2, float>, eps_case<3, float>, eps_case<4, double>};
FAMILY("neighborhood_graphs", 5000, 60000, "more than 3 points and more edges than points") { ep[g.index(6)](g); }

/// Tampered .pts files.
FAMILY("bad_point_files", 800, 12000, "every case")
{
  const std::string f = g.scratch + "/d.pts";
  std::string dimk = "Space_Dim = 2;", epsk = "Epsilon = 2.0;", key = "POINTS:", p = "0 0\n1 0\n0 1\n", what;
  const unsigned kind = (unsigned)g.raw(5);
  if (kind < 3 && g.chance(1, 2))
    p = "0 0\n0.001 0\n0 0.001\n";  // connected for every reasonable epsilon
  switch (kind)
  {
    case 0: dimk = g.oneof<std::string>({"Space_Dim = 3;", "Space_Dim = 1;", "Space_Dim =", "Space_Dim : 2", ""}), what = dimk; break;
    case 1: epsk = g.oneof<std::string>({"Epsilon = 0", "Epsilon = -1.", "Epsilon =", "Epsilon 2", "", "Epsilon = x"}), what = epsk; break;
    case 2: key = g.oneof<std::string>({"", "POINTS", "HYPERNODES:"}), what = "keyword " + key; break;
    case 3: p += g.oneof<std::string>({"0 0\n", "1 0\n", "0 1\n1 1\n"}), what = "repeated point"; break;
    case 4: p += g.oneof<std::string>({"9 9\n", "-5 0\n1 1\n", "0 3.5\n"}), what = "isolated point"; break;
    default: what = "dimension of hyperedges"; break;
  }
  std::ofstream(f) << dimk << "\n" << epsk << "\n" << key << "\n" << p;
  g.desc << what;
  g.label(what.substr(0, 14));
  g.nontrivial();
  auto r = pbt::run_child(
    [&]
    {
      if (what == "dimension of hyperedges")
        (void)read_domain<2, 2>(f);
      else
        (void)read_domain<1, 2>(f);
    });
  CHECK(r.kind == pbt::ChildResult::aborted || r.kind == pbt::ChildResult::threw, "accepted: " << what);
  std::filesystem::remove(f);
  std::filesystem::remove(f + ".geo");
}
