// A local solver for the Python bindings (P29): transparent linear maps that depend on the place of the
// hyperedge, the time and the constructor argument. Copied into the scratch tree of the check.
#pragma once
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/hypercube.hxx>
#include <algorithm>
#include <array>
#include <vector>
namespace LocalSolver
{
template <unsigned int d, unsigned int n, typename ctorT>
class BindingSolver
{
  typedef double F;
  typedef std::array<std::array<F, n>, 2 * d> L;
  static double number(double c) { return c; }
  static double number(const std::vector<double>& c)
  {
    double s = 0.5;
    for (unsigned int i = 0; i < c.size(); ++i)
      s += (i + 1) * c[i];
    return s;
  }

 public:
  typedef ctorT constructor_value_type;
  struct data_type
  {
    double acc = 0;
  };
  struct node_element
  {
  };
  double co = 0.75;
  BindingSolver() {}
  BindingSolver(const ctorT& c) : co(number(c)) {}
  static constexpr unsigned int hyEdge_dim() { return d; }
  static constexpr unsigned int n_glob_dofs_per_node() { return n; }
  static constexpr unsigned int system_dimension() { return 2; }
  static constexpr unsigned int node_system_dimension() { return n; }
  struct error_def
  {
    typedef std::array<F, 2> error_t;
    static error_t initial_error() { return {0., 1000.}; }
    static error_t sum_error(error_t& a, const error_t& b) { return {a[0] + b[0], std::min(a[1], b[1])}; }
    static error_t postprocess_error(error_t& a) { return {2. * a[0], a[1]}; }
  };
  template <typename E>
  static double place(E& e)
  {
    const auto b = e.geometry.face_barycenter(0);
    double s = 0;
    for (unsigned int i = 0; i < b.size(); ++i)
      s += (i + 1) * b[i];
    return s;
  }
  template <typename E>
  L& lin(unsigned int which, const L& in, L& out, E& e, double t) const
  {
    for (unsigned int i = 0; i < 2 * d; ++i)
      for (unsigned int k = 0; k < n; ++k)
        for (unsigned int j = 0; j < 2 * d; ++j)
          for (unsigned int l = 0; l < n; ++l)
            out[i][k] += (co * ((which * 5 + i * 7 + k * 3 + j * 11 + l * 13) % 17 - 8.) + place(e) * t + which + e.data.acc) * in[j][l];
    return out;
  }
  template <typename E>
  L& trace_to_flux(const L& in, L& out, E& e, const F time = 0.) const
  {
    return lin(1, in, out, e, time);
  }
  template <typename E>
  L& trace_to_mass_flux(const L& in, L& out, E& e, const F time = 0.) const
  {
    return lin(2, in, out, e, time);
  }
  template <typename E>
  L& residual_flux(const L& in, L& out, E& e, const F time = 0.) const
  {
    lin(3, in, out, e, time);
    for (unsigned int i = 0; i < 2 * d; ++i)
      for (unsigned int k = 0; k < n; ++k)
        out[i][k] += 1. + i + 2. * k + time + place(e) + e.node_descriptor[i];
    return out;
  }
  template <typename E>
  L& jacobian_of_trace_to_flux(const L& in, L& out, const F eig, const L& val, const F eig_val, E& e) const
  {
    lin(4, in, out, e, eig);
    return lin(5, val, out, e, eig_val);
  }
  template <typename E>
  L& make_initial(L& io, E& e, const F time = 0.) const
  {
    for (unsigned int i = 0; i < 2 * d; ++i)
      for (unsigned int k = 0; k < n; ++k)
        io[i][k] = 3. * io[i][k] + k + time;
    e.data.acc += 0.25 * time;
    return io;
  }
  template <typename E>
  void set_data(const L& in, E& e, const F time = 0.) const
  {
    for (unsigned int i = 0; i < 2 * d; ++i)
      for (unsigned int k = 0; k < n; ++k)
        e.data.acc += 0.0625 * (in[i][k] + time) * (1 + i + k);
  }
  template <typename E>
  std::array<unsigned int, 2 * d> node_types(E& e) const
  {
    std::array<unsigned int, 2 * d> r;
    for (unsigned int i = 0; i < 2 * d; ++i)
      r[i] = e.node_descriptor[i];
    return r;
  }
  template <typename E>
  typename error_def::error_t errors(const L& in, E& e, const F time = 0.) const
  {
    F s = time + place(e), m = 900;
    for (unsigned int i = 0; i < 2 * d; ++i)
      for (unsigned int k = 0; k < n; ++k)
      {
        s += (1 + k) * in[i][k] * in[i][k];
        m = std::min(m, in[i][k] + time);
      }
    return {s, m};
  }
  template <typename abs_t, std::size_t P, typename E>
  std::array<std::array<F, Hypercube<d>::pow(P)>, 2> bulk_values(const std::array<abs_t, P>& ab, const L& in, E& e, const F time = 0.) const
  {
    std::array<std::array<F, Hypercube<d>::pow(P)>, 2> r;
    for (unsigned int c = 0; c < 2; ++c)
      for (unsigned int p = 0; p < r[c].size(); ++p)
        r[c][p] = c + 0.5 * ab[p % P] + in[p % (2 * d)][0] + time + place(e) + e.data.acc;
    return r;
  }
};
}  // namespace LocalSolver
