// P30: eigenvalue problems on whole graphs; included by pipeline.cxx within its anonymous namespace.
// Networks: the operator at a shift is the map from node values to node fluxes of u'' = -shift u, known in
// closed form. Boxes: the eigenvalues are known.
constexpr bool PLATE = PIPE == 11 || PIPE == 13;
// Constants of the error bounds by polynomial degree: ten to twenty times the worst that was ever observed.
constexpr double EIG_C[] = {1., 0.4, 0.06, 1e-4, 1e-4}, EIG_BOX[] = {1., 1., 0.012, 1e-4}, EIG_MASS = 0.5;
constexpr unsigned COMP = PLATE ? 2 : 1;
/// Solution on [0, l] of the differential equation at shift mu for given end values: outward fluxes.
struct Line
{
  double l, kinv, mu;
  // second order: v'' = -s v
  /// outward derivative at the end with value a
  static double der(double s, double l, double a, double b)
  {
    const double k = std::sqrt(std::abs(s));
    if (k * l < 1e-9)
      return (a - b) / l;
    return s > 0 ? k * (a * std::cos(k * l) - b) / std::sin(k * l) : k * (a * std::cosh(k * l) - b) / std::sinh(k * l);
  }
  /// outward flux that the operator reports for component c at the given end
  double flux(unsigned c, const std::array<Vec, 2>& e, unsigned end) const
  {
    const Vec &a = e[end], &b = e[1 - end];
    if (!PLATE)
      return -der(mu * kinv, l, a[0], b[0]) / kinv;
    const double s = std::sqrt(kinv / mu), q = std::sqrt(kinv * mu);
    const double vp = der(q, l, a[0] + s * a[1], b[0] + s * b[1]), vm = der(-q, l, a[0] - s * a[1], b[0] - s * b[1]);
    return c == 1 ? -(vp + vm) / 2 : -(vp - vm) / (2 * s);  // first dof: flux of w, second: flux of u
  }
};
double dot(const Vec& a, const Vec& b)
{
  CHECK(a.size() == b.size(), "lengths " << a.size() << " and " << b.size());
  double s = 0;
  for (size_t i = 0; i < a.size(); ++i)
    s += a[i] * b[i];
  return s;
}
double amax(const Vec& v)
{
  double r = 0;
  for (double x : v)
    r = std::max(r, std::abs(x));
  return r;
}
Mat columns(const std::function<Vec(const Vec&)>& A, size_t n)
{
  if (n > 200)
    throw pbt::Discard();
  Mat M;
  for (size_t j = 0; j < n; ++j)
  {
    Vec e(n, 0.);
    e[j] = 1;
    M.push_back(A(e));
    CHECK(M.back().size() == n, "the operator returns a vector of length " << M.back().size());
    for (double v : M.back())
      CHECK(std::isfinite(v), "the operator returns " << v);
  }
  return M;  // M[column][row]
}
/// The eigenvalue of A v = delta B v that is closest to zero, on the given unknowns.
double smallest(const Mat& A, const Mat& B, const std::vector<size_t>& ix)
{
  const size_t n = ix.size();
  Mat L(n, Vec(n));
  double big = 0;
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j)
      big = std::max(big, std::abs(L[i][j] = A[ix[j]][ix[i]]));
  std::vector<size_t> perm(n);
  for (size_t i = 0; i < n; ++i)
  {
    size_t pv = i;
    for (size_t k = i; k < n; ++k)
      if (std::abs(L[k][i]) > std::abs(L[pv][i]))
        pv = k;
    perm[i] = pv;
    std::swap(L[i], L[pv]);
    if (std::abs(L[i][i]) < 1e-15 * big)
      L[i][i] = 1e-15 * big;
    for (size_t k = i + 1; k < n; ++k)
    {
      L[k][i] /= L[i][i];
      for (size_t j = i + 1; j < n; ++j)
        L[k][j] -= L[k][i] * L[i][j];
    }
  }
  auto apply = [&](const Mat& M, const Vec& v) {
    Vec r(n, 0.);
    for (size_t j = 0; j < n; ++j)
      for (size_t i = 0; i < n; ++i)
        r[i] += M[ix[j]][ix[i]] * v[j];
    return r;
  };
  // Several starting vectors: one of them may happen to have no part in the wanted direction.
  double best = 1e300;
  unsigned state = 12345;
  for (unsigned start = 0; start < 4; ++start)
  {
    Vec v(n);
    for (double& x : v)
      x = (double)((state = state * 1664525u + 1013904223u) >> 8) / (1 << 23) - 1.;
    for (unsigned it = 0; it < 25; ++it)
    {
      Vec r = apply(B, v);
      for (size_t i = 0; i < n; ++i)
        std::swap(r[i], r[perm[i]]);
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j)
          r[i] -= L[i][j] * r[j];
      for (size_t i = n; i-- > 0;)
      {
        for (size_t j = i + 1; j < n; ++j)
          r[i] -= L[i][j] * r[j];
        r[i] /= L[i][i];
      }
      const double nr = amax(r);
      CHECK(nr > 0 && std::isfinite(nr), "inverse iteration breaks down");
      for (double& x : r)
        x /= nr;
      v = r;
    }
    const double den = dot(v, apply(B, v)), num = dot(v, apply(A, v));
    CHECK(den != 0, "the eigenvector has no mass");
    if (std::abs(num / den) < std::abs(best))
      best = num / den;
  }
  return best;
}
/// Everything the boxes know about their eigenvalues: kappa * pi^2 * sum (m_i / L_i)^2, squared for plates.
double box_eigenvalue(const Vec& side, const std::vector<unsigned>& mode, double kinv, double& kmax)
{
  double s = 0;
  for (size_t i = 0; i < side.size(); ++i)
    s += std::pow(mode[i] * std::acos(-1.) / side[i], 2);
  kmax = std::sqrt(s);
  return PLATE ? s * s / kinv : s / kinv;
}
/// Below this stabilisation the problem of a single hyperedge may be close to resonance.
double stable_tau(double k, double h, double kinv) { return 4 * k * k * h * std::max(1., 1. / kinv); }
#ifdef RATIO  // calibration of the bounds
template <typename... A>
void ratio(const char* f, A... a)
{
  FILE* o = fopen(getenv("RATIO_FILE"), "a");
  fprintf(o, f, a...);
  fclose(o);
}
#define ACCURATE(err, bound, what) ratio("RATIO %s;%.3e;%.3e;%.3e;%s\n", what, (err) / (bound), (double)(err), (double)(bound), g.desc.str().c_str())
#else
#define ACCURATE(err, bound, what) \
  CHECK((err) <= (bound), what << " is wrong by " << (err) << ", more than the discretisation explains (" << (bound) << ")")
#endif

/// The lines of a refined network with their end points, as the library numbers them.
template <unsigned D>
struct Mesh
{
  std::vector<std::array<size_t, 2>> nodes;
  Vec h;
  std::vector<Vec> pos;
  std::vector<char> fixed;
  double hmax = 0, hmin = 1e9;
  Mesh(const std::string& file, const dom::Model& m, const std::vector<char>& base, unsigned r)
  {
    Topology::File<1, D> topo(file);
    topo.set_refinement(r);
    Geometry::File<1, D> geo(topo);
    NodeDescriptor::File<1, D> types(topo);
    pos.assign(topo.n_hyNodes(), Vec());
    fixed.assign(topo.n_hyNodes(), 0);
    CHECK(topo.n_hyEdges() == r * m.nodes.size(), "number of lines");
    for (unsigned e = 0; e < topo.n_hyEdges(); ++e)
    {
      const auto ix = topo[e].get_hyNode_indices();
      auto ge = geo[e];
      Vec x[2];
      for (unsigned k = 0; k < 2; ++k)
      {
        const auto q = ge.map_ref_to_phys(SmallVec<1, double>((double)k));
        for (unsigned i = 0; i < D; ++i)
          x[k].push_back(q[i]);
        pos.at(ix[k]) = x[k];
        if (types[e][k])
          fixed[ix[k]] = 1;
      }
      double s = 0;
      for (unsigned i = 0; i < D; ++i)
        s += (x[0][i] - x[1][i]) * (x[0][i] - x[1][i]);
      nodes.push_back({ix[0], ix[1]});
      h.push_back(std::sqrt(s));
      hmax = std::max(hmax, h.back());
      hmin = std::min(hmin, h.back());
    }
    size_t prescribed = 0;
    for (char c : fixed)
      prescribed += c != 0;
    std::set<unsigned long> ends;
    for (const auto& e : m.nodes)
      for (auto k : e)
        if (base[k])
          ends.insert(k);
    CHECK(prescribed == ends.size(), "there are " << prescribed << " prescribed nodes instead of " << ends.size());
  }
  size_t size() const { return pos.size() * COMP; }
  Vec random(pbt::Gen& g) const
  {
    Vec x(size(), 0.);
    for (size_t i = 0; i < pos.size(); ++i)
      for (unsigned c = 0; c < COMP; ++c)
      {
        const double v = g.signed_small(16) / 8.;
        if (!fixed[i] && !pos[i].empty())
          x[i * COMP + c] = v;
      }
    return x;
  }
  /// el(line, end values, component, end)
  template <typename E>
  Vec assemble(const Vec& x, E el) const
  {
    Vec y(size(), 0.);
    for (size_t e = 0; e < nodes.size(); ++e)
    {
      std::array<Vec, 2> v;
      for (unsigned k = 0; k < 2; ++k)
        for (unsigned c = 0; c < COMP; ++c)
          v[k].push_back(x[nodes[e][k] * COMP + c]);
      for (unsigned k = 0; k < 2; ++k)
        for (unsigned c = 0; c < COMP; ++c)
          if (!fixed[nodes[e][k]])
            y[nodes[e][k] * COMP + c] += el(e, v, c, k);
    }
    return y;
  }
};
template <typename G>
auto make_loop(const std::string& file, double tau)
{
  return G(file, tau);
}
void no_more_than(pbt::Gen& g, const Vec& a, const Vec& b, double bound, const char* what)
{
  CHECK(a.size() == b.size(), what << ": length " << a.size() << " instead of " << b.size());
  double err = 0;
  for (size_t i = 0; i < a.size(); ++i)
    err = std::max(err, std::isfinite(a[i]) ? std::abs(a[i] - b[i]) : 1e300);
  ACCURATE(err, bound, what);
}
template <unsigned D, unsigned p>
void network(pbt::Gen& g)
{
  std::vector<char> fixed;
  const dom::Model m = gen_network<D>(g, fixed);
  const double kinv = g.positive(0.4, 3.);
  double tau = g.positive(0.3, 3.);
  set(loc::KINV, kinv);
  const unsigned r = g.chance(1, 2) ? 1 : gen_refinement(g, 1);
  const std::string file = to_file(g, m);
  const Mesh<D> mesh(file, m, fixed, r);
  const double q = g.positive(0.1, 1.), k = q / mesh.hmax;
  const bool neg = !PLATE && g.chance(1, 4);
  tau = std::max(tau, stable_tau(k, mesh.hmax, kinv));
  const double mu = PLATE ? k * k * k * k / kinv : (neg ? -1 : 1) * k * k / kinv;
  std::vector<unsigned> deg(m.n_nodes, 0);
  for (const auto& e : m.nodes)
    ++deg[e[0]], ++deg[e[1]];
  unsigned branch = 0;
  for (unsigned i = 0; i < m.n_nodes; ++i)
    branch += !fixed[i] && deg[i] > 2;
  g.nontrivial(branch > 0);
  const Vec x = mesh.random(g), dir = mesh.random(g);
  g.desc << "network in " << D << " p=" << p << " tau=" << tau << " lines=" << m.nodes.size() << " nodes=" << m.n_nodes << " refinement " << r << " shift=" << mu
         << " wave number times length=" << q;
  g.publish_desc();
  auto at = [&](double s) {
    return [&, s](size_t e, const std::array<Vec, 2>& v, unsigned c, unsigned end) { return Line{mesh.h[e], kinv, s}.flux(c, v, end); };
  };
  unsigned dmax = 0;
  for (unsigned i : deg)
    dmax = std::max(dmax, i);
  const double kk = std::max(1., PLATE ? std::max(kinv, k * k) : 1. / kinv);
  const double base = dmax * 2. * kk / mesh.hmin;
  const double round = 1e-9 * base * std::max({1., tau * mesh.hmax, 1 / (tau * mesh.hmin)});
  (void)round;
#if PIPE <= 11
  const double disc = base * std::pow(q, 2. * p + 1) * EIG_C[p];
  {
    typedef GlobalLoop::NonlinearEigenvalue<Topology::File<1, D>, Geometry::File<1, D>, NodeDescriptor::File<1, D>, Solver<1, p>> G;
    G loop = make_loop<G>(file, tau);
    loop.set_refinement(r);
    CHECK(loop.size_of_system() == mesh.size(), "size of the system");
    no_more_than(g, loop.trace_to_flux(x, mu), mesh.assemble(x, at(mu)), disc + round, "operator of a network");
    const double eig = g.signed_small(8) / 4. * std::abs(mu), ep = 1e-4 * mu;
    Vec want = mesh.assemble(dir, at(mu));
    const Vec a1 = mesh.assemble(x, at(mu + ep)), a0 = mesh.assemble(x, at(mu - ep));
    for (size_t i = 0; i < want.size(); ++i)
      want[i] += eig * (a1[i] - a0[i]) / (2 * ep);
    no_more_than(g, loop.jacobian_of_trace_to_flux(dir, eig, x, mu), want, (disc * (2 * p + 2) + 1e-6 * base + round) * 4, "Jacobian of a network");
    const MPoly u0 = gen_poly(g, D, 2), w0 = gen_poly(g, D, 2);
    set(loc::INI, u0);
    set(loc::INIL, w0);
    const Vec ini = loop.make_initial(Vec(mesh.size(), 0.));
    for (size_t i = 0; i < mesh.pos.size(); ++i)
      for (unsigned c = 0; c < COMP; ++c)
        if (!mesh.pos[i].empty())
        {
          const double v = mesh.fixed[i] ? 0. : (c == 0 ? u0 : w0)(mesh.pos[i], 0.);
          CHECK_CLOSE(ini[i * COMP + c], v, 1e-9, 1 + std::abs(v), "initial value of node " << i);
        }
  }
  {
    typedef GlobalLoop::ShiftedInverseEigenvalue<Topology::File<1, D>, Geometry::File<1, D>, NodeDescriptor::File<1, D>, Solver<1, p>> G;
    G loop = make_loop<G>(file, tau);
    loop.set_refinement(r);
    no_more_than(g, loop.trace_to_flux(x, mu), mesh.assemble(x, at(mu)), disc + round, "shifted operator of a network");
    std::vector<unsigned> want;
    for (size_t i = 0; i < mesh.fixed.size(); ++i)
      for (unsigned c = 0; c < COMP && mesh.fixed[i]; ++c)
        want.push_back((unsigned)(i * COMP + c));
    CHECK(loop.dirichlet_indices() == want, "prescribed degrees of freedom");
  }
#else
  {
    typedef GlobalLoop::MassApproxEigenvalue<Topology::File<1, D>, Geometry::File<1, D>, NodeDescriptor::File<1, D>, Solver<1, p>> G;
    G loop = make_loop<G>(file, tau);
    loop.set_refinement(r);
    CHECK(loop.size_of_system() == mesh.size(), "size of the system");
    static const double gx[] = {-0.9061798459386640, -0.5384693101056831, 0, 0.5384693101056831, 0.9061798459386640},
                        gw[] = {0.2369268850561891, 0.4786286704993665, 0.5688888888888889, 0.4786286704993665, 0.2369268850561891};
    auto cub = [](double s) { return (s - s * s * s) / 6; };
    // the solution at shift zero: linear, or cubic with linear second derivative
    auto bulk = [&](double l, const std::array<Vec, 2>& v, double s) {
      double u = (1 - s) * v[0][0] + s * v[1][0];
      if (PLATE)
        u += kinv * l * l * (v[0][1] * cub(1 - s) + v[1][1] * cub(s));
      return u;
    };
    auto stiff = [&](size_t e, const std::array<Vec, 2>& v, unsigned c, unsigned end) {
      const double l = mesh.h[e];
      if (!PLATE)
        return (v[1 - end][0] - v[end][0]) / (l * kinv);
      // w is linear; the slope of u at the end
      return c == 0 ? (v[1 - end][1] - v[end][1]) / l : (v[1 - end][0] - v[end][0]) / l + kinv * l * (2 * v[end][1] + v[1 - end][1]) / 6;
    };
    auto mass = [&](size_t e, const std::array<Vec, 2>& v, unsigned c, unsigned end) {
      const double l = mesh.h[e];
      double sum = 0;
      for (unsigned i = 0; i < 5; ++i)
      {
        const double s = (1 + gx[i]) / 2, t = end ? s : 1 - s;
        sum += gw[i] / 2 * l * bulk(l, v, s) * (c == 0 ? t : kinv * l * l * cub(t));
      }
      return sum;
    };
    const double sc = base * 10 * std::max(1., kinv * mesh.hmax * mesh.hmax);
    no_more_than(g, loop.trace_to_flux(x), mesh.assemble(x, stiff), 1e-9 * sc + round, "stiffness of a network");
    no_more_than(g, loop.trace_to_mass_flux(x), mesh.assemble(x, mass), (1e-9 * sc + round) * std::max(1., std::pow(mesh.hmax, PLATE ? 5. : 2.) * kinv * kinv), "mass of a network");
    std::vector<unsigned> want;
    for (size_t i = 0; i < mesh.fixed.size(); ++i)
      for (unsigned c = 0; c < COMP && mesh.fixed[i]; ++c)
        want.push_back((unsigned)(i * COMP + c));
    CHECK(loop.dirichlet_indices() == want, "prescribed degrees of freedom");
  }
#endif
}
/// An eigenvalue that the box really has must be one of the discrete problem.
template <unsigned d, typename G, typename M>
void eigen_box(pbt::Gen& g, M make, unsigned r, const Vec& side, const std::vector<unsigned>& cells, unsigned p, double kinv, double tau)
{
  std::vector<unsigned> mode(d);
  double h = 0;
  for (unsigned k = 0; k < d; ++k)
    h = std::max(h, side[k] / cells[k]);
  for (unsigned k = 0; k < d; ++k)
    mode[k] = 1 + (unsigned)g.index(2);
  double km;
  double ev = box_eigenvalue(side, mode, kinv, km);
  const double limit = PIPE >= 12 || p == 1 ? (d == 1 ? 1.2 : 1.6) : 2.4;
  if (km * h > limit)
  {
    mode.assign(d, 1);
    ev = box_eigenvalue(side, mode, kinv, km);
  }
  unsigned inner = 0;
  for (unsigned c : cells)
    inner += c - 1;
  if (inner == 0 || km * h > limit)
    throw pbt::Discard();
  const auto ptr = make(std::max(tau, stable_tau(km, h, kinv)));
  G& loop = *ptr;
  loop.set_refinement(r);
  const size_t n = loop.size_of_system();
  if (n > 150)
    throw pbt::Discard();
  g.desc << " eigenvalue " << ev << " wave number times size " << km * h << " unknowns " << loop.size_of_system();
  g.publish_desc();
  std::vector<size_t> free;
#if PIPE <= 11
  const Mat A = columns([&](const Vec& v) { return loop.trace_to_flux(v, ev); }, n),
            B = columns([&](const Vec& v) { return loop.jacobian_of_trace_to_flux(Vec(n, 0.), 1., v, ev); }, n);
  for (size_t i = 0; i < n; ++i)
    if (std::any_of(A.begin(), A.end(), [&](const Vec& c) { return c[i] != 0; }))
      free.push_back(i);
#else
  const Mat S = columns([&](const Vec& v) { return loop.trace_to_flux(v); }, n), B = columns([&](const Vec& v) { return loop.trace_to_mass_flux(v); }, n);
  Mat A = S;
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j)
      A[i][j] += ev * B[i][j];
  const auto dir = loop.dirichlet_indices();
  for (size_t i = 0; i < n; ++i)
    if (!std::binary_search(dir.begin(), dir.end(), (unsigned)i))
      free.push_back(i);
#endif
  CHECK(!free.empty() && free.size() < n, "free degrees of freedom: " << free.size() << " of " << n);
  const double del = smallest(A, B, free);
  ACCURATE(std::abs(del) / ev, (PIPE <= 11 ? (p == 1 && d > 1 ? 0.4 : EIG_BOX[p]) * std::pow(km * h, 2. * p + 1) : EIG_MASS * std::pow(km * h, 2.)) + 1e-8, "eigenvalue of a box");
}
#if PIPE <= 11
template <class T, class Ge, class N, class S>
using EigenLoop = GlobalLoop::NonlinearEigenvalue<T, Ge, N, S>;
#else
template <class T, class Ge, class N, class S>
using EigenLoop = GlobalLoop::MassApproxEigenvalue<T, Ge, N, S>;
#endif
template <unsigned d, unsigned p>
void cube(pbt::Gen& g)
{
  typedef EigenLoop<Topology::Cubic<d, d>, Geometry::UnitCube<d, d>, NodeDescriptor::Cubic<d, d>, Solver<d, p>> G;
  const double kinv = g.positive(0.4, 3.), tau = g.positive(0.5, 3.);
  set(loc::KINV, kinv);
  SmallVec<d, unsigned int> n;
  std::vector<unsigned> cells;
  unsigned total = 1;
  const unsigned r = g.chance(1, 2) ? 1 : gen_refinement(g, d);
  for (unsigned k = 0; k < d; ++k)
  {
    n[k] = 1 + (unsigned)g.index(d == 1 ? 8 : d == 2 ? (r > 1 ? 2 : 4) : 2);
    cells.push_back(n[k] * r);
    total *= n[k] * r;
  }
  g.desc << "cube " << d << " p=" << p << " tau=" << tau << " coefficient " << kinv << " hyperedges " << total;
  g.publish_desc();
  g.nontrivial(total > 1);
  eigen_box<d, G>(g, [&](double ta) { return std::make_unique<G>(n, ta); }, r, Vec(d, 1.), cells, p, kinv, tau);
}
template <unsigned d, unsigned D, unsigned p>
void box(pbt::Gen& g)
{
  typedef EigenLoop<Topology::File<d, D>, Geometry::File<d, D>, NodeDescriptor::File<d, D>, Solver<d, p>> G;
  const auto pt = gen_patch<d, D>(g, true, PLATE);
  const double kinv = g.positive(0.4, 3.), tau = g.positive(0.5, 3.);
  set(loc::KINV, kinv);
  const unsigned r = g.chance(1, 2) ? 1 : gen_refinement(g, d);
  std::vector<unsigned> cells = pt.n;
  for (unsigned& c : cells)
    c *= r;
  g.desc << "box " << d << " in " << D << " p=" << p << " tau=" << tau << " coefficient " << kinv << " hyperedges " << pt.m.nodes.size() << " refinement " << r;
  g.publish_desc();
  g.nontrivial(pt.m.nodes.size() > 1);
  const std::string file = to_file(g, pt.m);
  eigen_box<d, G>(g, [&](double ta) { return std::make_unique<G>(file, ta); }, r, pt.side, cells, p, kinv, tau);
}
typedef void (*fn)(pbt::Gen&);
#if PIPE == 13
static const fn net[] = {network<1, 3>, network<2, 3>, network<3, 4>};
#else
static const fn net[] = {network<1, 2>, network<2, 1>, network<2, 3>, network<3, 2>, network<3, 4>};
#endif
static const fn cub[] = {cube<1, 1>, cube<1, 3>, cube<2, 1>, cube<2, 2>}, bx[] = {box<1, 1, 2>, box<1, 3, 3>, box<2, 2, 1>, box<2, 2, 2>, box<2, 3, 2>};
FAMILY("networks", 600, 20000, "a branching point that is not prescribed") { net[g.index(std::size(net))](g); }
FAMILY("cubes", 200, 4000, "several hyperedges") { cub[g.index(std::size(cub))](g); }
FAMILY("boxes", 200, 4000, "several hyperedges") { bx[g.index(std::size(bx))](g); }
