// A random hypergraph with random local solvers: everything the global loops and the plotting need,
// with a transparent meaning, so that a few lines of reference code say what the loops must compute.
#pragma once
#include <pbt.hxx>
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>
#include <HyperHDG/sparse_la.hxx>
#include <deque>
namespace mock
{
/// Incidence lists of a graph and of its refinements (unrelated graphs: the loops must not care).
struct Desc
{
  unsigned d;
  std::vector<unsigned> n_nodes;                                  // per level - 1
  std::vector<std::vector<std::vector<unsigned>>> nodes, types;   // level, edge, local face
};
inline Desc gen_desc(pbt::Gen& g, unsigned d, unsigned levels, bool repeated_nodes)
{
  Desc r;
  r.d = d;
  const bool large = g.chance(1, 60);
  for (unsigned l = 0; l < levels; ++l)
  {
    const unsigned nn = (repeated_nodes ? 2 : 2 * d) + (unsigned)g.raw(large ? 60 : 7), ne = 1 + (unsigned)g.raw(large ? 150 : 6);
    r.n_nodes.push_back(nn);
    r.nodes.emplace_back();
    r.types.emplace_back();
    for (unsigned e = 0; e < ne; ++e)
    {
      std::vector<unsigned> v, t;
      for (unsigned k = 0; k < 2 * d; ++k)
      {
        unsigned x = (unsigned)g.index(nn);
        if (!repeated_nodes)
          while (std::find(v.begin(), v.end(), x) != v.end())
            x = (x + 1) % nn;
        v.push_back(x);
        t.push_back((unsigned)g.raw(2));
      }
      r.nodes.back().push_back(v);
      r.types.back().push_back(t);
    }
  }
  return r;
}
template <unsigned d, unsigned D>
struct Topo
{
  typedef const Desc* constructor_value_type;
  const Desc* desc;
  unsigned level = 1;
  struct value_type
  {
    const std::vector<unsigned>* nodes;
    unsigned index, level;
    SmallVec<2 * d, unsigned> get_hyNode_indices() const
    {
      SmallVec<2 * d, unsigned> r;
      for (unsigned k = 0; k < 2 * d; ++k)
        r[k] = (*nodes)[k];
      return r;
    }
  };
  Topo(const Desc* const& c) : desc(c) {}
  static constexpr unsigned hyEdge_dim() { return d; }
  static constexpr unsigned space_dim() { return D; }
  unsigned n_hyEdges() const { return (unsigned)desc->nodes[level - 1].size(); }
  unsigned n_hyNodes() const { return desc->n_nodes[level - 1]; }
  value_type operator[](unsigned i) const { return {&desc->nodes[level - 1].at(i), i, level}; }
  unsigned get_refinement() const { return level; }
  void set_refinement(unsigned l) { level = l; }
};
/// Geometry: edge e is the image of the reference cube under a shear/translation depending on e.
template <unsigned d, unsigned D>
struct Geom
{
  typedef double constructor_value_type;
  double shift = 0;
  unsigned level = 1;
  struct value_type
  {
    unsigned index, level;
    double shift;
    Point<D, double> map(const std::array<double, d>& x) const
    {
      Point<D, double> p;
      for (unsigned i = 0; i < D; ++i)
      {
        p[i] = shift + 0.25 * index + 0.5 * i + 0.125 * level;
        for (unsigned k = 0; k < d; ++k)
          p[i] += (i == k ? 1. + 0.5 * k : 0.25 * ((index + i + k) % 3)) * x[k];
      }
      return p;
    }
    template <unsigned n, typename F>
    Point<D, double> lexicographic(unsigned idx, const SmallVec<n, F>& pts) const
    {
      std::array<double, d> x;
      for (unsigned k = 0; k < d; ++k, idx /= n)
        x[k] = (double)pts[idx % n];
      return map(x);
    }
    template <unsigned n, typename F>
    Point<D, double> boundary_lexicographic(unsigned idx, unsigned bdr, float scale, const SmallVec<n, F>& pts) const
    {
      std::array<double, d> x;
      for (unsigned k = 0; k < d; ++k)
        if (k == bdr / 2)
          x[k] = (double)((bdr % 2) * scale + (1 - scale) * 0.5);
        else
        {
          x[k] = (double)pts[idx % n];
          idx /= n;
        }
      return map(x);
    }
  };
  Geom(double s) : shift(s) {}
  Geom(const Topo<d, D>& t) : level(t.level) {}
  static constexpr unsigned hyEdge_dim() { return d; }
  static constexpr unsigned space_dim() { return D; }
  value_type operator[](unsigned i) const { return {i, level, shift}; }
  void set_refinement(unsigned l) { level = l; }
};
template <unsigned d, unsigned D>
struct Nodes
{
  typedef int constructor_value_type;
  const Desc* desc;
  unsigned level;
  struct value_type
  {
    const std::vector<unsigned>* types;
    unsigned operator[](unsigned i) const { return types->at(i); }
  };
  Nodes(const Topo<d, D>& t) : desc(t.desc), level(t.level) {}
  value_type operator[](unsigned i) const { return {&desc->types[level - 1].at(i)}; }
  void set_refinement(unsigned l) { level = l; }
};
struct Data
{
  double acc = 0;
};
/// Coefficients of the local solver.
struct Coef
{
  double a = 0, b = 0, c = 0;
  double mul = 1;  // of plotted values
};
/// Entry ((i,k),(j,l)) of the local matrix "which" of edge e on level lev at time t.
inline double entry(const Coef& co, unsigned which, unsigned e, unsigned lev, unsigned i, unsigned k, unsigned j, unsigned l, double t, bool edge)
{
  const unsigned h = (which * 131 + (edge ? e * 17 + lev * 5 : 0) + i * 7 + k * 13 + j * 29 + l * 37) % 101;
  return co.a * (h % 11 - 5.) + co.b * (h % 7 - 3.) * t + co.c * (h % 3 - 1.);
}
enum
{
  A_TRACE = 1,
  A_RES = 2,
  R_RES = 3,
  A_MASS = 4,
  A_JAC = 5,
  A_INIT = 6,
  A_DATA = 7
};
/// with_edge: the local solver's functions get the hyperedge as an argument. variant: 0 = documented signature.
template <unsigned d, unsigned n, typename F, bool with_edge, unsigned sysdim = 2, unsigned nodesys = 1>
struct Solver
{
  typedef std::array<std::array<F, n>, 2 * d> L;
  typedef Data data_type;
  typedef Coef constructor_value_type;
  Coef co{1, 2, 3};
  Solver() {}
  Solver(const Coef& c) : co(c) {}
  static constexpr unsigned hyEdge_dim() { return d; }
  static constexpr unsigned n_glob_dofs_per_node() { return n; }
  static constexpr unsigned system_dimension() { return sysdim; }
  static constexpr unsigned node_system_dimension() { return nodesys; }
  void lin(const L& in, L& out, unsigned which, unsigned e, unsigned lev, double t, double data) const
  {
    for (unsigned i = 0; i < 2 * d; ++i)
      for (unsigned k = 0; k < n; ++k)
        for (unsigned j = 0; j < 2 * d; ++j)
          for (unsigned l = 0; l < n; ++l)
            out[i][k] = (F)(out[i][k] + (entry(co, which, e, lev, i, k, j, l, t, with_edge) + data) * in[j][l]);
  }
  double rhs(unsigned which, unsigned e, unsigned lev, unsigned i, unsigned k, double t) const
  {
    return entry(co, which, e, lev, i, k, 3, 1, t, with_edge);
  }
#define MOCK_FLUX(name, which)                                                     \
  L& name(const L& in, L& out, const F time = 0.) const                            \
    requires(!with_edge)                                                           \
  {                                                                                \
    lin(in, out, which, 0, 0, (double)time, 0);                                    \
    return out;                                                                    \
  }                                                                                \
  template <typename E>                                                            \
  L& name(const L& in, L& out, E& e, const F time = 0.) const                      \
    requires(with_edge)                                                            \
  {                                                                                \
    lin(in, out, which, e.topology.index, e.geometry.level, (double)time, e.data.acc); \
    return out;                                                                    \
  }
  MOCK_FLUX(trace_to_flux, A_TRACE)
  MOCK_FLUX(trace_to_mass_flux, A_MASS)
#undef MOCK_FLUX
  L& residual_flux(const L& in, L& out, const F time = 0.) const
    requires(!with_edge)
  {
    lin(in, out, A_RES, 0, 0, (double)time, 0);
    for (unsigned i = 0; i < 2 * d; ++i)
      for (unsigned k = 0; k < n; ++k)
        out[i][k] = (F)(out[i][k] + rhs(R_RES, 0, 0, i, k, (double)time));
    return out;
  }
  template <typename E>
  L& residual_flux(const L& in, L& out, E& e, const F time = 0.) const
    requires(with_edge)
  {
    lin(in, out, A_RES, e.topology.index, e.geometry.level, (double)time, e.data.acc);
    for (unsigned i = 0; i < 2 * d; ++i)
      for (unsigned k = 0; k < n; ++k)
        out[i][k] = (F)(out[i][k] + rhs(R_RES, e.topology.index, e.geometry.level, i, k, (double)time) + (double)e.node_descriptor[i]);
    return out;
  }
  L& jacobian_of_trace_to_flux(const L& in, L& out, const F eig, const L& val, const F eig_val) const
    requires(!with_edge)
  {
    lin(in, out, A_JAC, 0, 0, (double)eig, 0);
    lin(val, out, A_JAC + 20, 0, 0, (double)eig_val, 0);
    return out;
  }
  template <typename E>
  L& jacobian_of_trace_to_flux(const L& in, L& out, const F eig, const L& val, const F eig_val, E& e) const
    requires(with_edge)
  {
    lin(in, out, A_JAC, e.topology.index, e.geometry.level, (double)eig, 0);
    lin(val, out, A_JAC + 20, e.topology.index, e.geometry.level, (double)eig_val, 0);
    return out;
  }
  /// value depends on the node only (as an initial value must): no edge information apart from the node number
  L& make_initial(L& io, const F time = 0.) const
    requires(!with_edge)
  {
    for (unsigned i = 0; i < 2 * d; ++i)
      for (unsigned k = 0; k < n; ++k)
        io[i][k] = (F)(3 * io[i][k] + rhs(A_INIT, 0, 0, 0, k, (double)time));
    return io;
  }
  template <typename E>
  L& make_initial(L& io, E& e, const F time = 0.) const
    requires(with_edge)
  {
    const auto nd = e.topology.get_hyNode_indices();
    for (unsigned i = 0; i < 2 * d; ++i)
      for (unsigned k = 0; k < n; ++k)
        io[i][k] = (F)(3 * io[i][k] + rhs(A_INIT, nd[i], 0, 0, k, (double)time));
    return io;
  }
  template <typename E>
  void set_data(const L& in, E& e, const F time = 0.) const
  {
    for (unsigned i = 0; i < 2 * d; ++i)
      for (unsigned k = 0; k < n; ++k)
        e.data.acc += 0.0625 * ((double)in[i][k] + (double)time) * (1 + i + k);
  }
  template <typename E>
  std::array<unsigned, 2 * d> node_types(E& e) const
  {
    std::array<unsigned, 2 * d> r;
    for (unsigned i = 0; i < 2 * d; ++i)
      r[i] = e.node_descriptor[i];
    return r;
  }
  struct error_def
  {
    typedef std::array<F, 2> error_t;
    static error_t initial_error() { return {(F)0, (F)1000}; }
    static error_t sum_error(error_t& a, const error_t& b) { return {a[0] + b[0], std::min(a[1], b[1])}; }
    static error_t postprocess_error(error_t& a) { return {(F)2 * a[0], a[1]}; }
  };
  typename error_def::error_t errors(const L& in, const F time = 0.) const
    requires(!with_edge)
  {
    F s = 0, m = 900;
    for (unsigned i = 0; i < 2 * d; ++i)
      for (unsigned k = 0; k < n; ++k)
      {
        const F v = (F)(in[i][k] * in[i][k] + rhs(R_RES, 0, 0, i, k, (double)time));
        s += v;
        m = std::min(m, v);
      }
    return {s, m};
  }
  template <typename E>
  typename error_def::error_t errors(const L& in, E& e, const F time = 0.) const
    requires(with_edge)
  {
    F s = 0, m = 900;
    for (unsigned i = 0; i < 2 * d; ++i)
      for (unsigned k = 0; k < n; ++k)
      {
        const F v = (F)(in[i][k] * in[i][k] + rhs(R_RES, e.topology.index, e.geometry.level, i, k, (double)time));
        s += v;
        m = std::min(m, v);
      }
    return {s, m};
  }
  // plotting
  static double bulk(const Coef& co, unsigned comp, unsigned pt, const L& in, double x0, double time, unsigned e)
  {
    double s = 0.5 * comp + 0.25 * pt + x0 + time + e + co.a;
    for (unsigned i = 0; i < 2 * d; ++i)
      for (unsigned k = 0; k < n; ++k)
        s += (1 + i + 2 * k) * (double)in[i][k];
    return s * co.mul;
  }
  template <typename abs_t, size_t P, typename E>
  std::array<std::array<F, Hypercube<d>::pow(P)>, sysdim> bulk_values(const std::array<abs_t, P>& ab, const L& in, E& e, const F time = 0.) const
    requires(with_edge)
  {
    std::array<std::array<F, Hypercube<d>::pow(P)>, sysdim> r;
    for (unsigned c = 0; c < sysdim; ++c)
      for (unsigned p = 0; p < r[c].size(); ++p)
        r[c][p] = (F)bulk(co, c, p, in, (double)ab[p % P], (double)time, e.topology.index);
    return r;
  }
  template <typename abs_t, size_t P>
  std::array<std::array<F, Hypercube<d>::pow(P)>, sysdim> bulk_values(const std::array<abs_t, P>& ab, const L& in, const F time = 0.) const
    requires(!with_edge)
  {
    std::array<std::array<F, Hypercube<d>::pow(P)>, sysdim> r;
    for (unsigned c = 0; c < sysdim; ++c)
      for (unsigned p = 0; p < r[c].size(); ++p)
        r[c][p] = (F)bulk(co, c, p, in, (double)ab[p % P], (double)time, 0);
    return r;
  }
};
/// Reference: sum over the edges of the local contributions.
template <unsigned d, unsigned n, typename F, bool with_edge>
struct Reference
{
  const Desc& desc;
  Solver<d, n, F, with_edge> sol;
  unsigned level = 1;
  std::vector<double> data;
  Reference(const Desc& de, const Coef& c) : desc(de), sol(c), data(de.nodes[0].size(), 0.) {}
  size_t size() const { return (size_t)desc.n_nodes[level - 1] * n; }
  std::vector<double> apply(unsigned which, const std::vector<F>& x, double t, bool use_data) const
  {
    std::vector<double> y(size(), 0.);
    const auto& ed = desc.nodes[level - 1];
    for (unsigned e = 0; e < ed.size(); ++e)
      for (unsigned i = 0; i < 2 * d; ++i)
        for (unsigned k = 0; k < n; ++k)
          for (unsigned j = 0; j < 2 * d; ++j)
            for (unsigned l = 0; l < n; ++l)
              y[ed[e][i] * n + k] += (entry(sol.co, which, with_edge ? e : 0, with_edge ? level : 0, i, k, j, l, t, with_edge) +
                                      (use_data && with_edge ? data[e] : 0.)) *
                                     (double)x[ed[e][j] * n + l];
    return y;
  }
  void add_rhs(std::vector<double>& y, double t) const
  {
    const auto& ed = desc.nodes[level - 1];
    for (unsigned e = 0; e < ed.size(); ++e)
      for (unsigned i = 0; i < 2 * d; ++i)
        for (unsigned k = 0; k < n; ++k)
          y[ed[e][i] * n + k] += sol.rhs(R_RES, with_edge ? e : 0, with_edge ? level : 0, i, k, t) +
                                 (with_edge ? (double)desc.types[level - 1][e][i] : 0.);
  }
  void set_level(unsigned l)
  {
    level = l;
    data.assign(desc.nodes[l - 1].size(), 0.);
  }
};
template <typename F>
std::vector<F> gen_vec(pbt::Gen& g, size_t n)
{
  std::vector<F> v(n);
  for (auto& x : v)
    x = (F)(g.raw(3) == 0 ? 0. : (double)g.signed_small(64) / 8);
  return v;
}
template <typename V, typename W>
void close(const V& a, const W& b, double scale, const std::string& what)
{
  CHECK(a.size() == b.size(), what << ": size " << a.size() << " instead of " << b.size());
  for (size_t i = 0; i < b.size(); ++i)
    CHECK_CLOSE((double)a[i], (double)b[i], sizeof(a[0]) == 4 ? 2e-5 : 1e-12, scale, what << ": entry " << i);
}
/// A power of two: scaling by it commutes with rounding.
inline double gen_mag(pbt::Gen& g) { return g.raw(4) ? 1. : std::ldexp(1., (int)g.signed_small(36)); }
template <typename F>
void scale_by(std::vector<F>& v, double m)
{
  for (auto& x : v)
    x = (F)((double)x * m);
}
inline Coef gen_coef(pbt::Gen& g) { return Coef{(double)g.signed_small(16) / 4, (double)g.signed_small(16) / 4, (double)g.signed_small(16) / 4}; }
}  // namespace mock
