// Reference for P29: executes the same calls in C++ and prints the results exactly.
#include <HyperHDG/geometry/file.hxx>
#include <HyperHDG/geometry/unit_cube.hxx>
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>
#include <HyperHDG/local_solver/binding_solver.hxx>
#include <HyperHDG/node_descriptor/cubic.hxx>
#include <HyperHDG/node_descriptor/file.hxx>
#include <HyperHDG/topology/cubic.hxx>
#include <HyperHDG/topology/file.hxx>
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
typedef std::vector<double> Vec;
static std::istream* in;
static FILE* res;  // results; the library itself prints to stdout
template <typename T>
T get()
{
  T t;
  *in >> t;
  return t;
}
template <>
double get<double>()
{
  std::string s;
  *in >> s;
  return std::strtod(s.c_str(), nullptr);
}
template <typename T>
std::vector<T> get_vec()
{
  std::vector<T> v(get<size_t>());
  for (T& x : v)
    x = get<T>();
  return v;
}
template <>
Vec get<Vec>()
{
  return get_vec<double>();
}
template <>
std::vector<unsigned int> get<std::vector<unsigned int>>()
{
  return get_vec<unsigned int>();
}
static void put(const Vec& v)
{
  fprintf(res, "v");
  for (double x : v)
    fprintf(res, " %a", x);
  fprintf(res, "\n");
}
template <typename I>
static void put_int(const std::vector<I>& v)
{
  fprintf(res, "i");
  for (auto x : v)
    fprintf(res, " %llu", (unsigned long long)x);
  fprintf(res, "\n");
}
template <typename G, typename T, typename C>
void history()
{
  std::unique_ptr<G> g;
  const std::string k = get<std::string>();
  const T topo = get<T>();
  if (k == "t")
    g.reset(new G(topo));
  else if (k == "tl")
    g.reset(new G(topo, get<C>()));
  else
  {
    const T geom = get<T>();
    g.reset(new G(topo, geom, get<C>()));
  }
  for (std::string op = get<std::string>(); op != "end"; op = get<std::string>())
  {
    if constexpr (requires(G & x) { x.zero_vector(); })
      if (op == "zero")
        put(g->zero_vector());
    if (op == "size")
      put_int(std::vector<size_t>{(size_t)g->size_of_system()});
    if (op == "getref")
      put_int(std::vector<size_t>{(size_t)g->get_refinement()});
    if (op == "refine")
      g->set_refinement(get<unsigned int>()), fprintf(res, "ok\n");
    if (op == "popt")
    {
      const std::string o = get<std::string>(), v = get<std::string>();
      fprintf(res, "s %s\n", g->plot_option(o, v == "-" ? "" : v).c_str());
    }
#define CALL(name, fun)                                   \
  if constexpr (requires(G & x, Vec v) { x.fun(v, 0.); }) \
    if (op == name)                                       \
    {                                                     \
      const double t = get<double>();                     \
      put(g->fun(get<Vec>(), t));                         \
    }
    CALL("flux", trace_to_flux)
    CALL("mass", trace_to_mass_flux)
    CALL("res", residual_flux)
    if constexpr (requires(G & x, Vec v) { x.make_initial(v, 0.); })
      if (op == "init")
      {
        const double t = get<double>();
        put(g->make_initial(get<Vec>(), t));
      }
    if constexpr (requires(G & x, Vec v) { x.errors(v, 0.); })
      if (op == "err")
      {
        const double t = get<double>();
        const auto r = g->errors(get<Vec>(), t);
        put(Vec(r.begin(), r.end()));
      }
    if constexpr (requires(G & x, Vec v) { x.set_data(v, 0.); })
      if (op == "data")
      {
        const double t = get<double>();
        g->set_data(get<Vec>(), t);
        fprintf(res, "ok\n");
      }
    if (op == "plot")
    {
      const double t = get<double>();
      g->plot_solution(get<Vec>(), t);
      fprintf(res, "ok\n");
    }
    if constexpr (requires(G & x, Vec v) { x.jacobian_of_trace_to_flux(v, 0., v, 0.); })
      if (op == "jac")
      {
        const Vec a = get<Vec>();
        const double e = get<double>();
        const Vec b = get<Vec>();
        const double f = get<double>();
        put(g->jacobian_of_trace_to_flux(a, e, b, f));
      }
    if constexpr (requires(G & x) { x.dirichlet_indices(); })
      if (op == "dir")
        put_int(g->dirichlet_indices());
    if constexpr (requires(G & x, std::vector<unsigned int> v) { x.read_dirichlet_indices(v); })
      if (op == "rdir")
        g->read_dirichlet_indices(get_vec<unsigned int>()), fprintf(res, "ok\n");
    if constexpr (requires(G & x) { x.trace_to_flux_mat(); })
      if (op == "mat")
      {
        auto m = g->trace_to_flux_mat();
        put_int(m.get_cols());
        put_int(m.get_rows());
        put(m.get_values());
      }
  }
}
using namespace LocalSolver;
typedef std::vector<unsigned int> U;
template <unsigned d, unsigned D, unsigned n, typename C, template <typename...> typename G>
using Cub = G<Topology::Cubic<d, D>, Geometry::UnitCube<d, D, double>, NodeDescriptor::Cubic<d, D>, BindingSolver<d, n, C>>;
int main(int argc, char** argv)
{
  // argv: file with histories, folder for their output, file for the results
  std::ifstream f(argv[1]);
  in = &f;
  const std::string base = argv[2];
  res = fopen(argv[3], "w");
  unsigned module, k = 0;
  while (f >> module)
  {
    const std::string dir = base + "/" + std::to_string(k++);
    std::filesystem::create_directories(dir + "/output");
    std::filesystem::current_path(dir);
    using namespace GlobalLoop;
    typedef Topology::File<1, 2> FT;
    typedef Geometry::File<1, 2> FG;
    typedef NodeDescriptor::File<1, 2> FN;
    if (module == 0)
      history<Elliptic<Topology::Cubic<2, 2>, Geometry::UnitCube<2, 2, double>, NodeDescriptor::Cubic<2, 2>, BindingSolver<2, 2, double>>, U, double>();
    else if (module == 1)
      history<Elliptic<FT, FG, FN, BindingSolver<1, 3, std::vector<double>>>, std::string, Vec>();
    else if (module == 2)
      history<Parabolic<Topology::Cubic<1, 2>, Geometry::UnitCube<1, 2, double>, NodeDescriptor::Cubic<1, 2>, BindingSolver<1, 2, std::vector<double>>>, U, Vec>();
    else if (module == 3)
      history<NonlinearEigenvalue<Topology::Cubic<2, 2>, Geometry::UnitCube<2, 2, double>, NodeDescriptor::Cubic<2, 2>, BindingSolver<2, 1, double>>, U, double>();
    else if (module == 4)
      history<MassApproxEigenvalue<Topology::Cubic<1, 2>, Geometry::UnitCube<1, 2, double>, NodeDescriptor::Cubic<1, 2>, BindingSolver<1, 2, double>>, U, double>();
    else
      history<ShiftedInverseEigenvalue<Topology::Cubic<1, 1>, Geometry::UnitCube<1, 1, double>, NodeDescriptor::Cubic<1, 1>, BindingSolver<1, 2, double>>, U, double>();
    fprintf(res, "done\n");
    fflush(res);
  }
}
