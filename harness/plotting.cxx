// P20: files written for visualisation.
#include "mock_problem.hxx"
#include <filesystem>
using namespace mock;
struct Xml
{
  std::map<std::string, std::string> attr;
  std::string tag, text;
  std::vector<Xml> kids;
  const Xml* find(const std::string& t, const std::string& name = "") const
  {
    for (auto& k : kids)
      if (k.tag == t && (name.empty() || (k.attr.count("Name") && k.attr.at("Name") == name)))
        return &k;
    return nullptr;
  }
};
static void skip(const std::string& s, size_t& p)
{
  while (p < s.size() && isspace((unsigned char)s[p]))
    ++p;
}
/// Minimal XML parser; any deviation from well-formedness fails the case.
static Xml parse(const std::string& s, size_t& p)
{
  skip(s, p);
  CHECK(p < s.size() && s[p] == '<', "expected a tag at byte " << p);
  ++p;
  Xml x;
  auto name = [&]
  {
    std::string n;
    while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_'))
      n += s[p++];
    CHECK(!n.empty(), "expected a name at byte " << p);
    return n;
  };
  x.tag = name();
  for (;;)
  {
    skip(s, p);
    CHECK(p < s.size(), "file ends within a tag");
    if (s[p] == '/')
    {
      CHECK(s.compare(p, 2, "/>") == 0, "malformed tag");
      p += 2;
      return x;
    }
    if (s[p] == '>')
    {
      ++p;
      break;
    }
    const std::string a = name();
    skip(s, p);
    CHECK(p < s.size() && s[p] == '=', "attribute without value");
    ++p;
    skip(s, p);
    CHECK(p < s.size() && s[p] == '"', "attribute value without quotes");
    const size_t q = s.find('"', p + 1);
    CHECK(q != std::string::npos, "unterminated attribute");
    CHECK(!x.attr.count(a), "attribute " << a << " twice");
    x.attr[a] = s.substr(p + 1, q - p - 1);
    p = q + 1;
  }
  for (;;)
  {
    const size_t q = s.find('<', p);
    CHECK(q != std::string::npos, "element " << x.tag << " is not closed");
    x.text += s.substr(p, q - p);
    p = q;
    if (s.compare(p, 2, "</") == 0)
    {
      p += 2;
      const std::string n = name();
      CHECK(n == x.tag, "element " << x.tag << " is closed as " << n);
      skip(s, p);
      CHECK(p < s.size() && s[p] == '>', "malformed end tag");
      ++p;
      return x;
    }
    x.kids.push_back(parse(s, p));
  }
}
static std::vector<double> numbers(const Xml* x, const char* what)
{
  CHECK(x, what << " is missing");
  CHECK(x->kids.empty(), what << " has children");
  std::vector<double> r;
  std::istringstream i(x->text);
  std::string w;
  while (i >> w)
  {
    char* e = nullptr;
    r.push_back(strtod(w.c_str(), &e));
    CHECK(e && !*e, what << " contains '" << w << "'");
  }
  return r;
}
static std::string slurp(const std::string& f)
{
  std::ifstream i(f, std::ios::binary);
  CHECK(i.is_open(), "no file " << f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
static size_t ipow(size_t b, unsigned e)
{
  size_t r = 1;
  while (e--)
    r *= b;
  return r;
}
struct Opt
{
  std::string dir, file = "example";
  unsigned number = 0;
  bool print = true, inc = true, bdr = false, edges = true, numbers = false;
  float scale = 1, bscale = 1;
};
template <unsigned d, unsigned D, unsigned n, typename F, bool we, unsigned sys, unsigned nodesys, unsigned sub>
static void check_file(const std::string& f, const Desc& de, const Coef& co, unsigned level, double shift, const std::vector<F>& lambda, double time, const Opt& o)
{
  const std::string s = slurp(f);
  size_t p = 0;
  CHECK(s.compare(0, 5, "<?xml") == 0, "no XML declaration");
  p = s.find("?>");
  CHECK(p != std::string::npos, "no XML declaration");
  p += 2;
  const Xml root = parse(s, p);
  skip(s, p);
  CHECK(p == s.size(), "text after the root element");
  CHECK(root.tag == "VTKFile" && root.attr.count("type") && root.attr.at("type") == "UnstructuredGrid", "root element");
  const Xml* ug = root.find("UnstructuredGrid");
  CHECK(ug, "no UnstructuredGrid");
  const Xml* pc = ug->find("Piece");
  CHECK(pc && pc->attr.count("NumberOfPoints") && pc->attr.count("NumberOfCells"), "no Piece with counts");
  const auto& ed = de.nodes[level - 1];
  const size_t ne = ed.size(), np = sub + 1;
  const size_t ppe = ipow(np, d), ppb = ipow(np, d - 1), cpe = ipow(sub, d), cpb = ipow(sub, d - 1);
  const size_t points = (o.edges ? ne * ppe : 0) + (o.bdr ? ne * 2 * d * ppb : 0);
  const size_t cells = (o.edges ? ne * cpe : 0) + (o.bdr ? ne * 2 * d * cpb : 0);
  CHECK(pc->attr.at("NumberOfPoints") == std::to_string(points), "NumberOfPoints is " << pc->attr.at("NumberOfPoints") << " instead of " << points);
  CHECK(pc->attr.at("NumberOfCells") == std::to_string(cells), "NumberOfCells is " << pc->attr.at("NumberOfCells") << " instead of " << cells);
  // points
  const Xml* pts = pc->find("Points");
  CHECK(pts, "no Points");
  const auto xyz = numbers(pts->find("DataArray"), "array of points");
  CHECK(xyz.size() == 3 * points, "array of points has " << xyz.size() << " entries for " << points << " points");
  Geom<d, D> geom(shift);
  geom.level = level;
  std::array<double, sub + 1> ab, bab;
  for (unsigned i = 0; i <= sub; ++i)
  {
    ab[i] = (double)o.scale * (1. * i / sub - 0.5) + 0.5;
    bab[i] = (double)o.scale * (double)o.bscale * (1. * i / sub - 0.5) + 0.5;
  }
  size_t q = 0;
  auto expect = [&](const Point<D, double>& e, const char* what)
  {
    for (unsigned k = 0; k < 3; ++k)
      CHECK_CLOSE(xyz[3 * q + k], k < D ? e[k] : 0., 1.1e-3, std::max(1e-3, k < D ? std::abs(e[k]) : 0.), what << ", point " << q << " coordinate " << k);
    ++q;
  };
  if (o.edges)
    for (unsigned e = 0; e < ne; ++e)
      for (size_t i = 0; i < ppe; ++i)
      {
        std::array<double, d> x;
        size_t r = i;
        for (unsigned k = 0; k < d; ++k, r /= np)
          x[k] = ab[r % np];
        expect(geom[e].map(x), "hyperedge");
      }
  if (o.bdr)
    for (unsigned e = 0; e < ne; ++e)
      for (unsigned b = 0; b < 2 * d; ++b)
        for (size_t i = 0; i < ppb; ++i)
        {
          std::array<double, d> x;
          size_t r = i;
          for (unsigned k = 0; k < d; ++k)
            if (k == b / 2)
              x[k] = (b % 2) * (double)o.bscale + (1 - (double)o.bscale) * 0.5;
            else
            {
              x[k] = bab[r % np];
              r /= np;
            }
          expect(geom[e].map(x), "boundary");
        }
  // cells
  const Xml* cl = pc->find("Cells");
  CHECK(cl, "no Cells");
  const auto conn = numbers(cl->find("DataArray", "connectivity"), "connectivity"), offs = numbers(cl->find("DataArray", "offsets"), "offsets"),
             types = numbers(cl->find("DataArray", "types"), "types");
  CHECK(offs.size() == cells && types.size() == cells, "offsets " << offs.size() << ", types " << types.size() << " for " << cells << " cells");
  size_t pos = 0, cell = 0, base = 0;
  auto cube_cells = [&](unsigned dim, size_t n_pts)
  {
    static const unsigned vtk[] = {1, 3, 8, 11};
    const size_t nc = ipow(sub, dim), nv = (size_t)1 << dim;
    std::set<std::vector<size_t>> seen, want;
    for (size_t c = 0; c < nc; ++c)
    {
      CHECK((unsigned)types[cell] == vtk[dim], "cell " << cell << " has type " << types[cell]);
      CHECK((size_t)offs[cell] == pos + nv, "offset of cell " << cell << " is " << offs[cell] << " instead of " << pos + nv);
      CHECK(pos + nv <= conn.size(), "connectivity is too short");
      std::vector<size_t> v;
      for (size_t k = 0; k < nv; ++k)
      {
        const double ix = conn[pos + k];
        CHECK(ix >= (double)base && ix < (double)(base + n_pts), "cell " << cell << " uses point " << ix << " outside of its hyperedge");
        v.push_back((size_t)ix - base);
      }
      seen.insert(v);
      pos += nv;
      ++cell;
      // expected: subcube c, vertices in lexicographic order
      std::vector<size_t> w;
      for (size_t k = 0; k < nv; ++k)
      {
        size_t idx = 0, mul = 1, r = c;
        for (unsigned m = 0; m < dim; ++m, mul *= np)
        {
          idx += (r % sub + ((k >> m) & 1)) * mul;
          r /= sub;
        }
        w.push_back(idx);
      }
      want.insert(w);
    }
    CHECK(seen == want, "cells of a hyperedge are not its subcubes");
    base += n_pts;
  };
  if (o.edges)
    for (unsigned e = 0; e < ne; ++e)
      cube_cells(d, ppe);
  if (o.bdr)
    for (size_t b = 0; b < ne * 2 * d; ++b)
      cube_cells(d - 1, ppb);
  CHECK(pos == conn.size(), "connectivity has " << conn.size() << " entries instead of " << pos);
  // cell data
  const Xml* cd = pc->find("CellData");
  CHECK(cd, "no CellData");
  if (o.numbers)
  {
    const auto ix = numbers(cd->find("DataArray", "index"), "index");
    CHECK(ix.size() == cells, "array of indices has " << ix.size() << " entries for " << cells << " cells");
    if (o.edges)
      for (size_t c = 0; c < ne * cpe; ++c)
        CHECK((size_t)ix[c] == c / cpe, "index of cell " << c << " is " << ix[c]);
    if (o.bdr)
      for (size_t c = 0, first = o.edges ? ne * cpe : 0; c < ne * 2 * d * cpb; ++c)
        CHECK((size_t)ix[first + c] == c / cpb + 1, "index of boundary cell " << c << " is " << ix[first + c]);
  }
  else
    CHECK(!cd->find("DataArray", "index"), "indices although not requested");
  // point data
  const Xml* pd = pc->find("PointData");
  CHECK(pd, "no PointData");
  if (sys == 0)
    return;
  constexpr unsigned comp = std::max(sys, nodesys);
  const Xml* va = pd->find("DataArray", "values");
  CHECK(va && va->attr.count("NumberOfComponents") && va->attr.at("NumberOfComponents") == std::to_string(comp), "number of components");
  const auto v = numbers(va, "values");
  CHECK(v.size() == points * comp, "there are " << v.size() << " values for " << points << " points with " << comp << " components");
  if (o.edges)
    for (unsigned e = 0; e < ne; ++e)
    {
      typename Solver<d, n, F, we, sys, nodesys>::L loc;
      for (unsigned i = 0; i < 2 * d; ++i)
        for (unsigned k = 0; k < n; ++k)
          loc[i][k] = lambda[ed[e][i] * n + k];
      for (size_t pt = 0; pt < ppe; ++pt)
        for (unsigned c = 0; c < comp; ++c)
        {
          const double ex = c < sys ? Solver<d, n, F, we, sys, nodesys>::bulk(co, c, (unsigned)pt, loc, ab[pt % np], time, we ? e : 0) : 0.;
          CHECK_CLOSE(v[(e * ppe + pt) * comp + c], ex, 1.1e-3, std::max(1e-3 * co.mul, std::abs(ex)), "component " << c << " at point " << pt << " of hyperedge " << e);
        }
    }
}
static void set(pbt::Gen& g, PlotOptions& po, Opt& o, std::function<std::string(const std::string&, std::string)> fn)
{
  (void)po;
  auto b = [&](bool v) -> std::string { return g.raw(1) ? (v ? "true" : "false") : (v ? "1" : "0"); };
  auto truth = [](const std::string& s) { return s == "1" || s == "true"; };
  switch (g.raw(9))
  {
    case 0: o.file = g.oneof<std::string>({"a", "some_name", "x.y", "with space"}); CHECK(fn("fileName", o.file) == o.file, "fileName"); break;
    case 1: o.number = (unsigned)g.raw(500); CHECK(fn("fileNumber", std::to_string(o.number)) == std::to_string(o.number), "fileNumber"); break;
    case 2: o.print = g.raw(1); CHECK(truth(fn("printFileNumber", b(o.print))) == o.print, "printFileNumber"); break;
    case 3: o.inc = g.raw(1); CHECK(truth(fn("incrementFileNumber", b(o.inc))) == o.inc, "incrementFileNumber"); break;
    case 4: o.edges = g.raw(2); CHECK(truth(fn("plotEdges", b(o.edges))) == o.edges, "plotEdges"); break;
    case 5: o.bdr = g.raw(2); CHECK(truth(fn("plotEdgeBoundaries", b(o.bdr))) == o.bdr, "plotEdgeBoundaries"); break;
    case 6: o.scale = (float)(1 + g.raw(31)) / 16; CHECK(std::stof(fn("scale", std::to_string(o.scale))) == o.scale, "scale"); break;
    case 7: o.bscale = (float)(1 + g.raw(31)) / 16; CHECK(std::stof(fn("boundaryScale", std::to_string(o.bscale))) == o.bscale, "boundaryScale"); break;
    case 8: o.dir = g.scratch + "/plots" + std::to_string(g.raw(2)); CHECK(fn("outputDir", o.dir) == o.dir, "outputDir"); break;
    default: CHECK(fn("fileEnding", "vtu") == "vtu", "fileEnding"); break;
  }
  // queries do not change anything
  CHECK(fn("fileName", "") == o.file && fn("outputDir", "") == o.dir && fn("fileNumber", "") == std::to_string(o.number), "query of names");
  CHECK(truth(fn("printFileNumber", "")) == o.print && truth(fn("incrementFileNumber", "")) == o.inc, "query of numbering");
  CHECK(truth(fn("plotEdges", "")) == o.edges && truth(fn("plotEdgeBoundaries", "")) == o.bdr, "query of plotted parts");
  CHECK(std::stof(fn("scale", "")) == o.scale && std::stof(fn("boundaryScale", "")) == o.bscale, "query of scales");
}
static std::string path(const Opt& o) { return o.dir + "/" + o.file + (o.print ? "." + std::to_string(o.number) : "") + ".vtu"; }
struct Quiet
{
  std::streambuf* old;
  std::ostringstream sink;
  Quiet() : old(std::cout.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(old); }
};
static size_t count_files(const std::string& dir)
{
  size_t c = 0;
  for (int i = 0; i < 3; ++i)
    if (std::filesystem::exists(dir + "/plots" + std::to_string(i)))
      for (auto& e : std::filesystem::recursive_directory_iterator(dir + "/plots" + std::to_string(i)))
        c += e.is_regular_file();
  return c;
}
static void clean(pbt::Gen& g)
{
  for (int i = 0; i < 3; ++i)
    std::filesystem::remove_all(g.scratch + "/plots" + std::to_string(i));
}
/// Histories through a global loop.
template <unsigned d, unsigned D, unsigned n, typename F, bool we, unsigned sys, unsigned nodesys, template <class, class, class, class, typename, typename> class LoopT>
static void plot_history(pbt::Gen& g)
{
  Quiet quiet;
  clean(g);
  typedef LoopT<Topo<d, D>, Geom<d, D>, Nodes<d, D>, Solver<d, n, F, we, sys, nodesys>, std::vector<F>, unsigned> Loop;
  const Desc de = gen_desc(g, d, 3, false);
  Coef co = gen_coef(g);
  if (g.raw(3) == 0)
    co.mul = std::pow(10., (double)g.signed_small(24));
  const Desc* pd = &de;
  Loop loop(pd, 0.5, co);
  Opt o;
  o.dir = g.scratch + "/plots0";
  PlotOptions dummy;
  CHECK(loop.plot_option("outputDir", o.dir) == o.dir, "outputDir");
  unsigned level = 1;
  std::set<std::string> files;
  g.desc << "dim " << d << " in " << D << ", " << sys << "/" << nodesys << " components:";
  const unsigned ops = 2 + (unsigned)g.raw(8);
  for (unsigned op = 0; op < ops; ++op)
    switch (g.raw(3))
    {
      case 0:
      case 1: set(g, dummy, o, [&](const std::string& a, std::string b) { return loop.plot_option(a, b); }); break;
      case 2:
        level = 1 + (unsigned)g.raw(2);
        g.desc << " refine" << level;
        loop.set_refinement(level);
        break;
      default:
      {
        const auto lambda = gen_vec<F>(g, loop.size_of_system());
        const double t = g.raw(3) ? (double)g.signed_small(16) / 4 : 0.;
        g.desc << " plot" << (o.edges ? "E" : "") << (o.bdr ? "B" : "");
        g.publish_desc();
        g.nontrivial(o.edges && de.nodes[level - 1].size() > 1);
        if (t == 0 && g.raw(1))
          loop.plot_solution(lambda);
        else
          loop.plot_solution(lambda, (F)t);
        const std::string f = path(o);
        files.insert(f);
        check_file<d, D, n, F, we, sys, nodesys, 1>(f, de, co, level, 0.5, lambda, t, o);
        CHECK(count_files(g.scratch) == files.size(), "number of files is " << count_files(g.scratch) << " instead of " << files.size());
        if (o.inc)
          ++o.number;
        CHECK(loop.plot_option("fileNumber") == std::to_string(o.number), "file number after plotting");
      }
    }
  if (g.chance(1, 30))
  {
    const int k = (int)g.raw(2);
    auto r = pbt::run_child([&] { loop.plot_option(k == 0 ? "noSuchOption" : k == 1 ? "fileEnding" : "plotedges", k == 1 ? "vtk" : "1"); });
    CHECK(r.kind == pbt::ChildResult::aborted, "invalid plot option accepted");
  }
  clean(g);
}
/// plot_vtu directly: subdivided hyperedges, numbered cells.
template <unsigned d, unsigned D, unsigned n, bool we, unsigned sys, unsigned nodesys, unsigned sub>
static void plot_direct(pbt::Gen& g)
{
  Quiet quiet;
  clean(g);
  const Desc de = gen_desc(g, d, 1, false);
  Coef co = gen_coef(g);
  if (g.raw(3) == 0)
    co.mul = std::pow(10., (double)g.signed_small(24));
  const Desc* pd = &de;
  typedef HDGHyperGraph<n, Topo<d, D>, Geom<d, D>, Nodes<d, D>, Data> Graph;
  typedef Solver<d, n, double, we, sys, nodesys> S;
  Graph gr(pd, 0.25);
  const S sol(co);
  Opt o;
  PlotOptions po;
  po.outputDir = o.dir = g.scratch + "/plots0";
  po.fileName = o.file = "direct";
  po.numbers = o.numbers = g.raw(1);
  po.plot_edges = o.edges = g.raw(2);
  po.plot_edge_boundaries = o.bdr = g.raw(2);
  po.scale = o.scale = (float)(1 + g.raw(15)) / 16;
  po.boundary_scale = o.bscale = (float)(1 + g.raw(15)) / 16;
  const auto lambda = gen_vec<double>(g, de.n_nodes[0] * n);
  const double t = (double)g.signed_small(16) / 4;
  g.desc << "plot_vtu, dim " << d << " in " << D << ", " << sub << " subdivisions" << (o.edges ? " edges" : "") << (o.bdr ? " boundaries" : "")
         << (o.numbers ? " numbers" : "");
  g.publish_desc();
  g.nontrivial(o.edges && o.bdr);
  if (sub == 1 && g.raw(1))
  {
    plot(gr, sol, lambda, po, t);
    CHECK(po.fileNumber == 1, "file number");
  }
  else
  {
    plot_vtu<Graph, S, std::vector<double>, double, sub>(gr, sol, lambda, po, t);
    CHECK(po.fileNumber == 0, "file number");
  }
  check_file<d, D, n, double, we, sys, nodesys, sub>(path(o), de, co, 1, 0.25, lambda, t, o);
  clean(g);
}
typedef void (*fun)(pbt::Gen&);
static const fun hist[] = {plot_history<1, 1, 1, double, true, 2, 1, GlobalLoop::Elliptic>,  plot_history<1, 2, 2, double, false, 3, 1, GlobalLoop::Parabolic>,
                           plot_history<2, 2, 1, double, true, 3, 1, GlobalLoop::Elliptic>,  plot_history<2, 3, 1, double, true, 1, 2, GlobalLoop::MassApproxEigenvalue>,
                           plot_history<3, 3, 1, double, false, 4, 1, GlobalLoop::Elliptic>, plot_history<1, 3, 2, float, true, 1, 1, GlobalLoop::NonlinearEigenvalue>,
                           plot_history<2, 2, 2, float, false, 2, 2, GlobalLoop::ShiftedInverseEigenvalue>};
FAMILY("plot_histories", 3000, 60000, "hyperedges of a graph with more than one of them are plotted") { hist[g.index(7)](g); }
static const fun direct[] = {plot_direct<1, 2, 1, true, 2, 1, 1>, plot_direct<1, 2, 1, true, 2, 1, 3>, plot_direct<2, 3, 1, true, 3, 1, 1>, plot_direct<2, 2, 1, false, 3, 1, 2>,
                             plot_direct<2, 2, 2, true, 1, 5, 3>, plot_direct<3, 3, 1, true, 4, 1, 1>, plot_direct<3, 3, 1, false, 2, 3, 2>};
FAMILY("plot_vtu", 2500, 50000, "hyperedges and their boundaries are plotted") { direct[g.index(7)](g); }
