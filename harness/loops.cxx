// Global loops against the sum of local contributions. Families are selected by LOOP.
#include "mock_problem.hxx"
using namespace mock;
#define SCALE 3000.
template <unsigned d, unsigned n, typename F, bool we>
struct Setup
{
  typedef Topo<d, 3> T;
  typedef Geom<d, 3> G;
  typedef Nodes<d, 3> N;
  typedef Solver<d, n, F, we> S;
  typedef std::vector<F> V;
  static std::string name()
  {
    return "dim " + std::to_string(d) + ", " + std::to_string(n) + " dofs, " + (sizeof(F) == 4 ? "float" : "double") + (we ? ", with edge" : ", without edge");
  }
};
template <typename Loop, typename T0>
static Loop make(pbt::Gen& g, const Desc& de, Coef& co, T0*)
{
  const unsigned k = (unsigned)g.raw(2);
  const Desc* p = &de;
  if (k == 0)
  {
    co = Coef{1, 2, 3};
    return Loop(p);
  }
  if (k == 1)
    return Loop(p, co);
  return Loop(p, 0.5, co);
}
static double time_value(pbt::Gen& g) { return g.raw(2) == 0 ? 0. : (double)g.signed_small(40) / 16; }

template <unsigned d, unsigned n, typename F, bool we>
static void elliptic(pbt::Gen& g)
{
  typedef Setup<d, n, F, we> X;
  typedef GlobalLoop::Elliptic<typename X::T, typename X::G, typename X::N, typename X::S, typename X::V> Loop;
  const Desc de = gen_desc(g, d, 3, g.raw(3) == 0);
  Coef co = gen_coef(g);
  const double wide = (double)std::max({de.nodes[0].size(), de.nodes[1].size(), de.nodes[2].size(), (size_t)7}) / 7;
  Loop loop = make<Loop>(g, de, co, (typename X::T*)0);
  Reference<d, n, F, we> ref(de, co);
  std::vector<unsigned> diri;
  g.desc << "Elliptic, " << X::name() << ":";
  const unsigned ops = 2 + (unsigned)g.raw(6);
  auto zero = [&](std::vector<double>& y)
  {
    for (unsigned i : diri)
      y[i] = 0;
  };
  for (unsigned o = 0; o < ops; ++o)
  {
    CHECK(loop.size_of_system() == ref.size(), "size_of_system");
    const auto z = loop.zero_vector();
    CHECK(z.size() == ref.size(), "zero_vector");
    for (auto x : z)
      CHECK(x == 0, "zero_vector");
    auto x = gen_vec<F>(g, ref.size());
    const double mag = gen_mag(g), amag = std::max(1., mag) * wide, qmag = std::max(1., mag * mag) * wide;
    scale_by(x, mag);
    const auto x0 = x;
    const double t = time_value(g);
    g.nontrivial(ref.desc.nodes[ref.level - 1].size() > 1);
#if LOOP == 4
    static const unsigned op_table[] = {5, 5, 5, 4, 3};
#else
    static const unsigned op_table[] = {0, 1, 2, 3, 4};
#endif
    switch (op_table[g.raw(4)])
    {
      case 0:
      {
        g.desc << " flux(t=" << t << ")";
        auto y = ref.apply(A_TRACE, x, t, true);
        zero(y);
        close(t == 0 && g.raw(1) ? loop.trace_to_flux(x) : loop.trace_to_flux(x, (F)t), y, SCALE * mag * wide, "trace_to_flux");
        break;
      }
      case 1:
      {
        g.desc << " residual(t=" << t << ")";
        auto y = ref.apply(A_RES, x, t, true);
        ref.add_rhs(y, t);
        zero(y);
        close(t == 0 && g.raw(1) ? loop.residual_flux(x) : loop.residual_flux(x, (F)t), y, SCALE * amag, "residual_flux");
        break;
      }
      case 2:
      {
        g.desc << " errors(t=" << t << ")";
        double s = 0, m = 1000;
        const auto& ed = de.nodes[ref.level - 1];
        for (unsigned e = 0; e < ed.size(); ++e)
        {
          double me = 900;
          for (unsigned i = 0; i < 2 * d; ++i)
            for (unsigned k = 0; k < n; ++k)
            {
              const double xv = (double)x[ed[e][i] * n + k];
              const double v = xv * xv + ref.sol.rhs(R_RES, we ? e : 0, we ? ref.level : 0, i, k, t);
              s += v;
              me = std::min(me, v);
            }
          m = std::min(m, me);
        }
        const auto r = t == 0 && g.raw(1) ? loop.errors(x) : loop.errors(x, (F)t);
        CHECK(r.size() == 2, "errors: size");
        CHECK_CLOSE((double)r[0], 2 * s, sizeof(F) == 4 ? 2e-5 : 1e-12, SCALE * qmag, "summed error");
        CHECK_CLOSE((double)r[1], m, sizeof(F) == 4 ? 2e-5 : 1e-12, SCALE * qmag, "combined error");
        break;
      }
      case 3:
      {
        diri.clear();
        for (unsigned k = (unsigned)g.raw(5); k > 0; --k)
          diri.push_back((unsigned)g.index(ref.size()));
        g.desc << " dirichlet(" << diri.size() << ")";
        loop.read_dirichlet_indices(diri);
        break;
      }
      case 4:
      {
        const unsigned l = 1 + (unsigned)g.raw(2);
        g.desc << " refine" << l;
        loop.set_refinement(l);
        ref.set_level(l);
        loop.read_dirichlet_indices({});
        diri.clear();
        CHECK(loop.get_refinement() == l, "get_refinement");
        break;
      }
      default:
      {
        g.desc << " matrix(t=" << t << ")";
        auto m = t == 0 && g.raw(1) ? loop.trace_to_flux_mat() : loop.trace_to_flux_mat((F)t);
        auto& val = m.get_values();
        auto& col = m.get_cols();
        auto& row = m.get_rows();
        CHECK(val.size() == col.size() && val.size() == row.size(), "triplet arrays differ in length");
        std::vector<double> y(ref.size(), 0.);
        for (size_t q = 0; q < val.size(); ++q)
        {
          CHECK(row[q] < ref.size() && col[q] < ref.size(), "triplet " << q << " is out of range: " << row[q] << " " << col[q]);
          y[row[q]] += (double)val[q] * (double)x[col[q]];
        }
        zero(y);  // the matrix need not know about Dirichlet rows
        auto e = ref.apply(A_TRACE, x, t, true);
        zero(e);
        close(y, e, mag * wide * (sizeof(F) == 4 ? SCALE * 1e7 : SCALE), "matrix-vector product");
        auto f = loop.trace_to_flux(x, (F)t);
        close(f, y, SCALE * mag * wide, "matrix-free product and matrix-vector product");
      }
    }
    CHECK(x == x0, "argument was changed");
  }
  if (g.chance(1, 40))
  {
    auto r = pbt::run_child([&] { loop.read_dirichlet_indices({(unsigned)ref.size() + 1}); });
    CHECK(r.kind == pbt::ChildResult::aborted, "Dirichlet index out of range accepted");
  }
}
template <unsigned d, unsigned n, typename F, bool we>
static void parabolic(pbt::Gen& g)
{
  typedef Setup<d, n, F, we> X;
  typedef GlobalLoop::Parabolic<typename X::T, typename X::G, typename X::N, typename X::S, typename X::V> Loop;
  const Desc de = gen_desc(g, d, 3, g.raw(3) == 0);
  Coef co = gen_coef(g);
  const double wide = (double)std::max({de.nodes[0].size(), de.nodes[1].size(), de.nodes[2].size(), (size_t)7}) / 7;
  Loop loop = make<Loop>(g, de, co, (typename X::T*)0);
  Reference<d, n, F, we> ref(de, co);
  g.desc << "Parabolic, " << X::name() << ":";
  const unsigned ops = 2 + (unsigned)g.raw(8);
  bool stored = false;
  double scale = SCALE;
  for (unsigned o = 0; o < ops; ++o)
  {
    CHECK(loop.size_of_system() == ref.size() && loop.zero_vector() == std::vector<F>(ref.size(), 0), "size_of_system / zero_vector");
    auto x = gen_vec<F>(g, ref.size());
    const double mag = gen_mag(g), amag = std::max(1., mag) * wide, qmag = std::max(1., mag * mag) * wide;
    scale_by(x, mag);
    const auto x0 = x;
    const double t = time_value(g);
    switch (g.raw(5))
    {
      case 0:
        g.desc << " flux(t=" << t << ")";
        close(t == 0 && g.raw(1) ? loop.trace_to_flux(x) : loop.trace_to_flux(x, (F)t), ref.apply(A_TRACE, x, t, true), scale * mag * wide, "trace_to_flux");
        g.nontrivial(stored);
        break;
      case 1:
      {
        g.desc << " residual(t=" << t << ")";
        auto y = ref.apply(A_RES, x, t, true);
        ref.add_rhs(y, t);
        close(t == 0 && g.raw(1) ? loop.residual_flux(x) : loop.residual_flux(x, (F)t), y, scale * amag, "residual_flux");
        g.nontrivial(stored);
        break;
      }
      case 2:
      {
        g.desc << " set_data(t=" << t << ")";
        scale_by(x, 1 / mag);
        if (t == 0 && g.raw(1))
          loop.set_data(x);
        else
          loop.set_data(x, (F)t);
        const auto& ed = de.nodes[ref.level - 1];
        for (unsigned e = 0; e < ed.size(); ++e)
          for (unsigned i = 0; i < 2 * d; ++i)
            for (unsigned k = 0; k < n; ++k)
              ref.data[e] += 0.0625 * ((double)x[ed[e][i] * n + k] + t) * (1 + i + k);
        stored = true;
        scale += 2 * SCALE;
        break;
      }
      case 3:
      {
        g.desc << " initial(t=" << t << ")";
        const auto r = t == 0 && g.raw(1) ? loop.make_initial(x) : loop.make_initial(x, (F)t);
        std::vector<double> y(ref.size(), 0.);
        for (auto& e : de.nodes[ref.level - 1])
          for (unsigned nd : e)
            for (unsigned k = 0; k < n; ++k)
              y[nd * n + k] = ref.sol.rhs(A_INIT, we ? nd : 0, 0, 0, k, t);
        close(r, y, SCALE, "make_initial");
        g.nontrivial(t != std::floor(t));
        break;
      }
      case 4:
      {
        g.desc << " errors(t=" << t << ")";
        const auto r = t == 0 && g.raw(1) ? loop.errors(x) : loop.errors(x, (F)t);
        double s = 0;
        const auto& ed = de.nodes[ref.level - 1];
        for (unsigned e = 0; e < ed.size(); ++e)
          for (unsigned i = 0; i < 2 * d; ++i)
            for (unsigned k = 0; k < n; ++k)
              s += (double)x[ed[e][i] * n + k] * (double)x[ed[e][i] * n + k] + ref.sol.rhs(R_RES, we ? e : 0, we ? ref.level : 0, i, k, t);
        CHECK_CLOSE((double)r.at(0), 2 * s, sizeof(F) == 4 ? 2e-5 : 1e-12, SCALE * qmag, "summed error");
        break;
      }
      default:
      {
        const unsigned l = 1 + (unsigned)g.raw(2);
        g.desc << " refine" << l;
        loop.set_refinement(l);
        ref.set_level(l);
        stored = false;
        CHECK(loop.get_refinement() == l, "get_refinement");
      }
    }
    CHECK(x == x0 || mag != 1, "argument was changed");
  }
}
template <unsigned d, unsigned n, typename F, bool we>
static void eigen(pbt::Gen& g)
{
  typedef Setup<d, n, F, we> X;
  typedef GlobalLoop::NonlinearEigenvalue<typename X::T, typename X::G, typename X::N, typename X::S, typename X::V> NE;
  typedef GlobalLoop::MassApproxEigenvalue<typename X::T, typename X::G, typename X::N, typename X::S, typename X::V> MA;
  typedef GlobalLoop::ShiftedInverseEigenvalue<typename X::T, typename X::G, typename X::N, typename X::S, typename X::V> SI;
  const Desc de = gen_desc(g, d, 3, g.raw(3) == 0);
  Coef co = gen_coef(g);
  const double wide = (double)std::max({de.nodes[0].size(), de.nodes[1].size(), de.nodes[2].size(), (size_t)7}) / 7;
  auto diri = [&](unsigned level)
  {
    std::set<unsigned> s;
    for (size_t e = 0; e < de.nodes[level - 1].size(); ++e)
      for (unsigned i = 0; i < 2 * d; ++i)
        if (de.types[level - 1][e][i] == 1)
          for (unsigned k = 0; k < n; ++k)
            s.insert(de.nodes[level - 1][e][i] * n + k);
    return std::vector<unsigned>(s.begin(), s.end());
  };
  // Newton's method for eigenvalues appends the eigenvalue to the vectors; it belongs to no node.
  auto longer = [](std::vector<double> y, const auto& x)
  {
    if (x.size() > y.size())
      y.push_back(0.);
    return y;
  };
  auto drive = [&](auto& loop, auto&& special, bool newton = false)
  {
    Reference<d, n, F, we> ref(de, co);
    const unsigned ops = 2 + (unsigned)g.raw(6);
    for (unsigned o = 0; o < ops; ++o)
    {
      CHECK(loop.size_of_system() == ref.size(), "size_of_system");
      auto x = gen_vec<F>(g, ref.size());
      const double mag = gen_mag(g);
      scale_by(x, mag);
      if (newton && g.chance(1, 4))
        x.push_back((F)(g.signed_small(8) / 2. + 5.));
      const auto x0 = x;
      const double t = time_value(g);
      const unsigned what = (unsigned)g.raw(4);
      if (what == 0)
      {
        g.desc << " refine";
        const unsigned l = 1 + (unsigned)g.raw(2);
        loop.set_refinement(l);
        ref.set_level(l);
        CHECK(loop.get_refinement() == l, "get_refinement");
        g.nontrivial(o + 1 < ops);
      }
      else if (what == 1)
      {
        g.desc << " flux(" << t << ")";
        close(t == 0 && g.raw(1) ? loop.trace_to_flux(x) : loop.trace_to_flux(x, (F)t), longer(ref.apply(A_TRACE, x, t, false), x), SCALE * mag * wide, "trace_to_flux");
      }
      else
        special(loop, ref, x, t, mag);
      CHECK(x == x0, "argument was changed");
    }
  };
  switch (g.raw(2))
  {
    case 0:
    {
      NE loop = make<NE>(g, de, co, (typename X::T*)0);
      g.desc << "NonlinearEigenvalue, " << X::name() << ":";
      drive(loop,
            [&](auto& lp, auto& ref, auto& x, double t, double mag)
            {
              if (g.raw(1))
              {
                g.desc << " jacobian";
                auto v = gen_vec<F>(g, ref.size());
                if (x.size() > v.size())
                  v.push_back((F)3);
                const double t2 = time_value(g);
                auto y = ref.apply(A_JAC, x, t, false);
                const auto y2 = ref.apply(A_JAC + 20, v, t2, false);
                for (size_t i = 0; i < y.size(); ++i)
                  y[i] += y2[i];
                close(lp.jacobian_of_trace_to_flux(x, (F)t, v, (F)t2), longer(y, x), 2 * SCALE * std::max(1., mag) * wide, "jacobian_of_trace_to_flux");
              }
              else
              {
                g.desc << " initial";
                const auto r = lp.make_initial(x, (F)t);
                std::vector<double> y(ref.size(), 0.);
                for (auto& e : de.nodes[ref.level - 1])
                  for (unsigned nd : e)
                    for (unsigned k = 0; k < n; ++k)
                      y[nd * n + k] = 3 * (double)x[nd * n + k] + ref.sol.rhs(A_INIT, we ? nd : 0, 0, 0, k, t);
                close(r, longer(y, x), SCALE * std::max(1., mag), "make_initial");
              }
            },
            true);
      break;
    }
    case 1:
    {
      MA loop = make<MA>(g, de, co, (typename X::T*)0);
      g.desc << "MassApproxEigenvalue, " << X::name() << ":";
      drive(loop,
            [&](auto& lp, auto& ref, auto& x, double t, double mag)
            {
              if (g.raw(1))
              {
                g.desc << " mass";
                close(t == 0 && g.raw(1) ? lp.trace_to_mass_flux(x) : lp.trace_to_mass_flux(x, (F)t), ref.apply(A_MASS, x, t, false), SCALE * mag * wide, "trace_to_mass_flux");
              }
              else
              {
                g.desc << " dirichlet";
                CHECK(lp.dirichlet_indices() == diri(ref.level), "dirichlet_indices");
              }
            });
      break;
    }
    default:
    {
      SI loop = make<SI>(g, de, co, (typename X::T*)0);
      g.desc << "ShiftedInverseEigenvalue, " << X::name() << ":";
      drive(loop,
            [&](auto& lp, auto& ref, auto&, double, double)
            {
              g.desc << " dirichlet";
              CHECK(lp.dirichlet_indices() == diri(ref.level), "dirichlet_indices");
            });
    }
  }
}
typedef void (*fun)(pbt::Gen&);
#define TABLE(f) \
  {f<1, 1, double, true>, f<1, 3, double, false>, f<2, 2, double, true>, f<2, 1, float, true>, f<3, 1, double, false>, f<3, 2, double, true>, f<1, 2, float, false>}
static const fun ell[] = TABLE(elliptic), par[] = TABLE(parabolic), eig[] = TABLE(eigen);
#if LOOP == 1
FAMILY("elliptic_histories", 20000, 300000, "an operation on a graph with more than one hyperedge") { ell[g.index(7)](g); }
#elif LOOP == 4
FAMILY("assembled_matrices", 20000, 300000, "an operation on a graph with more than one hyperedge") { ell[g.index(7)](g); }
#elif LOOP == 2
FAMILY("parabolic_histories", 20000, 300000, "an operator is evaluated after data has been stored, or initial values at a fractional time") { par[g.index(7)](g); }
#else
FAMILY("eigenvalue_histories", 20000, 300000, "a refinement followed by another operation") { eig[g.index(7)](g); }
#endif
