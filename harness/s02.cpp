// S02: built-in operators compute the operator they are named after.
#include "sam_fv.hpp"
#include <samurai/schemes/fv.hpp>
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;

using Mesh = samurai::MRMesh<samurai::MRConfig<D, 3, 0, 1>>;
using S    = samurai::SchemeType;
using Vec  = std::vector<double>;

// Jiang & Shu reconstruction at the right end of the third cell
double weno(const std::array<double, 5>& f)
{
    double q[3] = {(2. * f[0] - 7. * f[1] + 11. * f[2]) / 6., (-f[1] + 5. * f[2] + 2. * f[3]) / 6., (2. * f[2] + 5. * f[3] - f[4]) / 6.};
    auto sq     = [](double x)
    {
        return x * x;
    };
    double b[3] = {13. / 12 * sq(f[0] - 2 * f[1] + f[2]) + sq(f[0] - 4 * f[1] + 3 * f[2]) / 4,
                   13. / 12 * sq(f[1] - 2 * f[2] + f[3]) + sq(f[1] - f[3]) / 4,
                   13. / 12 * sq(f[2] - 2 * f[3] + f[4]) + sq(3 * f[2] - 4 * f[3] + f[4]) / 4};
    double g[3] = {0.1, 0.6, 0.3}, n = 0, s = 0;
    for (int k = 0; k < 3; ++k)
    {
        double a = g[k] / sq(1e-6 + b[k]);
        n += a * q[k];
        s += a;
    }
    return n / s;
}

struct World
{
    mc::Case& c;
    const Dom<D>& dom;
    const std::vector<Face<D>>& fs;
    std::string tag;

    // out against the sum of the fluxes given by fn
    template <class F>
    void flux(F&& out, std::size_t nout, const std::vector<int>& offs, const std::string& who, const std::function<double(std::size_t, double, const std::vector<LCell<D>>&, std::size_t)>& fn,
              const std::string& sig) const
    {
        Result<D> want;
        add_flux<D>(want, dom, fs, offs, nout,
                    [&](std::size_t d, double h, const std::vector<LCell<D>>& cells)
                    {
                        Vec a, b;
                        for (std::size_t e = 0; e < nout; ++e)
                        {
                            a.push_back(fn(d, h, cells, e));
                            b.push_back(-a.back());
                        }
                        return std::make_pair(a, b);
                    },
                    true);
        compare_result<D>(c, out, want, sig, who + tag, 1e-9);
    }

    template <class F>
    void cellwise(F&& out, std::size_t nout, const std::string& who, const std::function<double(const LCell<D>&, std::size_t)>& fn, const std::string& sig) const
    {
        Result<D> want;
        for (auto& l : dom.lm->leaf)
        {
            for (std::size_t e = 0; e < nout; ++e)
            {
                want[l].push_back(fn(l, e));
            }
        }
        compare_result<D>(c, out, want, sig, who + tag, 1e-9);
    }
};

double sgn(u64 code, std::size_t d) // all sign patterns of a velocity
{
    static const double v[3] = {1.5, -0.75, 0.};
    for (std::size_t e = 0; e < d; ++e)
    {
        code /= 3;
    }
    return v[code % 3] * (1. + static_cast<double>(d));
}

template <class F>
void operators(const World& w, F& u, const Values<D>& val, u64 vcode)
{
    static constexpr std::size_t n = F::size;
    auto at                        = [&](const LCell<D>& c, std::size_t e)
    {
        return val.at(c)[e];
    };
    const std::vector<int> two{0, 1}, six{-2, -1, 0, 1, 2, 3};
    const double K0[3] = {1.5, -2., 0.25};
    if (vcode == 0)
    {
        w.flux(samurai::make_diffusion_order2<F>()(u), n, two, "diffusion",
               [&](std::size_t, double h, auto& s, std::size_t e)
               {
                   return (at(s[0], e) - at(s[1], e)) / h;
               },
               "diffusion");
        w.flux(samurai::make_diffusion_order2<F>(2.5)(u), n, two, "diffusion with a scalar coefficient",
               [&](std::size_t, double h, auto& s, std::size_t e)
               {
                   return 2.5 * (at(s[0], e) - at(s[1], e)) / h;
               },
               "diffusion");
        w.flux(samurai::make_laplacian_order2<F>()(u), n, two, "laplacian",
               [&](std::size_t, double h, auto& s, std::size_t e)
               {
                   return (at(s[1], e) - at(s[0], e)) / h;
               },
               "diffusion");
        samurai::DiffCoeff<D> K;
        for (std::size_t d = 0; d < D; ++d)
        {
            K(d) = K0[d];
        }
        auto aniso = samurai::make_diffusion_order2<F>(K);
        K.fill(77.); // the operator keeps the coefficients it was built with
        w.flux(aniso(u), n, two, "anisotropic diffusion",
               [&](std::size_t d, double h, auto& s, std::size_t e)
               {
                   return K0[d] * (at(s[0], e) - at(s[1], e)) / h;
               },
               "diffusion");
        samurai::DiffCoeff<n> Kc;
        for (std::size_t e = 0; e < n; ++e)
        {
            Kc(e) = K0[2 - e];
        }
        auto multi = samurai::make_multi_diffusion_order2<F>(Kc);
        Kc.fill(77.);
        w.flux(multi(u), n, two, "component-wise diffusion",
               [&](std::size_t, double h, auto& s, std::size_t e)
               {
                   return K0[2 - e] * (at(s[0], e) - at(s[1], e)) / h;
               },
               "diffusion");
        auto kf = samurai::make_field<samurai::DiffCoeff<D>, 1>("K", u.mesh());
        for (auto& [c, v] : val)
        {
            for (std::size_t d = 0; d < D; ++d)
            {
                kf.array()[cidx<D>(u.mesh(), c)](d) = 1. + generic<D>(c, 40 + d);
            }
        }
        auto het = samurai::make_diffusion_order2<F>(kf);
        w.flux(het(u), n, two, "diffusion with a coefficient field",
               [&](std::size_t d, double h, auto& s, std::size_t e)
               {
                   return (1. + generic<D>(s[0], 40 + d)) * (at(s[0], e) - at(s[1], e)) / h;
               },
               "diffusion-field");
        w.cellwise(samurai::make_identity<F>()(u), n, "identity",
                   [&](const LCell<D>& l, std::size_t e)
                   {
                       return at(l, e);
                   },
                   "identity");
        w.cellwise(samurai::make_zero_operator<F>()(u), n, "zero",
                   [&](const LCell<D>&, std::size_t)
                   {
                       return 0.;
                   },
                   "zero");
        w.cellwise(samurai::make_zero_operator<2, F>()(u), 2, "zero onto two components",
                   [&](const LCell<D>&, std::size_t)
                   {
                       return 0.;
                   },
                   "zero");
        if constexpr (n == 1)
        {
            w.flux(samurai::make_gradient_order2<F>()(u), D, two, "gradient",
                   [&](std::size_t d, double, auto& s, std::size_t e)
                   {
                       return e == d ? (at(s[0], 0) + at(s[1], 0)) / 2 : 0.;
                   },
                   "gradient");
        }
        if constexpr (n == D)
        {
            w.flux(samurai::make_divergence_order2<F>()(u), 1, two, "divergence",
                   [&](std::size_t d, double, auto& s, std::size_t)
                   {
                       return (at(s[0], d) + at(s[1], d)) / 2;
                   },
                   "divergence");
        }
        if constexpr (n == 1 || n == D)
        {
            auto f = [&](const LCell<D>& c, std::size_t d, std::size_t e)
            {
                return at(c, n == 1 ? 0 : d) * at(c, e);
            };
            w.flux(samurai::make_convection_upwind<F>()(u), n, two, "nonlinear upwind convection",
                   [&](std::size_t d, double, auto& s, std::size_t e)
                   {
                       return at(s[0], n == 1 ? 0 : d) >= 0 ? f(s[0], d, e) : f(s[1], d, e);
                   },
                   "upwind-nonlinear");
            w.flux(samurai::make_convection_weno5<F>()(u), n, six, "nonlinear WENO5 convection",
                   [&](std::size_t d, double, auto& s, std::size_t e)
                   {
                       std::array<double, 5> a;
                       for (std::size_t k = 0; k < 5; ++k)
                       {
                           a[k] = f(at(s[2], n == 1 ? 0 : d) >= 0 ? s[k] : s[5 - k], d, e);
                       }
                       return weno(a);
                   },
                   "weno-nonlinear");
        }
        // velocity field
        auto vf = samurai::make_field<D>("v", u.mesh());
        for (auto& [c, v] : val)
        {
            for (std::size_t d = 0; d < D; ++d)
            {
                fat(vf, cidx<D>(u.mesh(), c), d) = generic<D>(c, 80 + d);
            }
        }
        w.flux(samurai::make_convection_upwind<F>(vf)(u), n, two, "upwind convection by a velocity field",
               [&](std::size_t d, double, auto& s, std::size_t e)
               {
                   double a = generic<D>(s[0], 80 + d);
                   return a * at(a >= 0 ? s[0] : s[1], e);
               },
               "upwind-field");
        w.flux(samurai::make_convection_weno5<F>(vf)(u), n, six, "WENO5 convection by a velocity field",
               [&](std::size_t d, double, auto& s, std::size_t e)
               {
                   double a = generic<D>(s[2], 80 + d);
                   std::array<double, 5> x;
                   for (std::size_t k = 0; k < 5; ++k)
                   {
                       x[k] = a * at(a >= 0 ? s[k] : s[5 - k], e);
                   }
                   return weno(x);
               },
               "weno-field");
    }
    // constant velocity, every sign pattern
    samurai::VelocityVector<D> vel;
    for (std::size_t d = 0; d < D; ++d)
    {
        vel(d) = sgn(vcode, d);
    }
    auto up = samurai::make_convection_upwind<F>(vel);
    auto wn = samurai::make_convection_weno5<F>(vel);
    for (std::size_t d = 0; d < D; ++d)
    {
        vel(d) = -3. * vel(d) + 1.; // the operators keep the velocity they were built with
    }
    w.flux(up(u), n, two, "upwind convection",
           [&](std::size_t d, double, auto& s, std::size_t e)
           {
               double a = sgn(vcode, d);
               return a * at(a >= 0 ? s[0] : s[1], e);
           },
           "upwind");
    w.flux(wn(u), n, six, "WENO5 convection",
           [&](std::size_t d, double, auto& s, std::size_t e)
           {
               double a = sgn(vcode, d);
               std::array<double, 5> x;
               for (std::size_t k = 0; k < 5; ++k)
               {
                   x[k] = a * at(a >= 0 ? s[k] : s[5 - k], e);
               }
               return weno(x);
           },
           "weno");
}

// user-defined cell-based schemes
double ccoef(u64 salt, const Pos<D>& o, std::size_t i, std::size_t j, double h)
{
    u64 x = mc::mix(mc::mix(salt, i), j);
    for (auto k : o)
    {
        x = mc::mix(x, static_cast<u64>(k + 50));
    }
    return static_cast<double>(x % 11) - 5. + (x % 2 ? 1. / h : h);
}

template <class Sc>
std::vector<Pos<D>> rows(const Sc& sc)
{
    std::vector<Pos<D>> r;
    for (std::size_t k = 0; k < Sc::cfg_t::stencil_size; ++k)
    {
        Pos<D> p;
        for (std::size_t d = 0; d < D; ++d)
        {
            p[d] = sc.stencil()(k, d);
        }
        r.push_back(p);
    }
    return r;
}

template <class M>
void put(M& m, std::size_t i, std::size_t j, double v)
{
    if constexpr (std::is_floating_point_v<M>)
    {
        m = v;
    }
    else
    {
        m(i, j) = v;
    }
}

template <class V>
double comp(const V& v, std::size_t j)
{
    if constexpr (std::is_floating_point_v<std::decay_t<V>>)
    {
        return v;
    }
    else
    {
        return v(j);
    }
}

template <class F>
void cell_schemes(const World& w, F& u, const Values<D>& val)
{
    static constexpr std::size_t n = F::size;
    auto lin                       = [&](auto widthc, auto outc)
    {
        constexpr std::size_t width = decltype(widthc)::value;
        constexpr std::size_t nout  = decltype(outc)::value;
        using cfg                   = samurai::StarStencilSchemeConfig<S::LinearHomogeneous, nout, width, F>;
        auto sc                     = samurai::make_cell_based_scheme<cfg>("lin");
        auto rs                     = rows(sc);
        sc.coefficients_func()      = [rs](double h)
        {
            samurai::StencilCoeffs<cfg> m;
            for (std::size_t k = 0; k < cfg::stencil_size; ++k)
            {
                for (std::size_t i = 0; i < nout; ++i)
                {
                    for (std::size_t j = 0; j < n; ++j)
                    {
                        put(m[k], i, j, ccoef(3 + width, rs[k], i, j, h));
                    }
                }
            }
            return m;
        };
        w.cellwise(sc(u), nout, "linear cell scheme of width " + std::to_string(width) + " onto " + std::to_string(nout),
                   [&](const LCell<D>& l, std::size_t e)
                   {
                       double s = 0;
                       for (auto& o : rs)
                       {
                           LCell<D> y = l;
                           for (std::size_t d = 0; d < D; ++d)
                           {
                               y.p[d] += o[d];
                           }
                           for (std::size_t j = 0; j < n; ++j)
                           {
                               s += ccoef(3 + width, o, e, j, w.dom.h(l.level)) * val.at(y)[j];
                           }
                       }
                       return s;
                   },
                   "cell-linear");
    };
    auto non = [&](auto widthc, auto outc)
    {
        constexpr std::size_t width = decltype(widthc)::value;
        constexpr std::size_t nout  = decltype(outc)::value;
        using cfg                   = samurai::StarStencilSchemeConfig<S::NonLinear, nout, width, F>;
        auto sc                     = samurai::make_cell_based_scheme<cfg>("nonlin");
        auto rs                     = rows(sc);
        auto one                    = [](double x, std::size_t k, std::size_t e)
        {
            return (1. + static_cast<double>(k) - 2. * static_cast<double>(e)) * x * x - 0.5 * x;
        };
        sc.scheme_function() = [=](auto& cells, const F& f)
        {
            samurai::SchemeValue<cfg> r;
            for (std::size_t e = 0; e < nout; ++e)
            {
                double s = 0;
                if constexpr (cfg::stencil_size == 1)
                {
                    s = one(comp(f[cells], e % n), 0, e);
                }
                else
                {
                    for (std::size_t k = 0; k < cfg::stencil_size; ++k)
                    {
                        s += one(comp(f[cells[k]], (e + k) % n), k, e);
                    }
                }
                if constexpr (nout == 1)
                {
                    r = s;
                }
                else
                {
                    r(e) = s;
                }
            }
            return r;
        };
        w.cellwise(sc(u), nout, "nonlinear cell scheme of width " + std::to_string(width) + " onto " + std::to_string(nout),
                   [&](const LCell<D>& l, std::size_t e)
                   {
                       double s = 0;
                       for (std::size_t k = 0; k < rs.size(); ++k)
                       {
                           LCell<D> y = l;
                           for (std::size_t d = 0; d < D; ++d)
                           {
                               y.p[d] += rs[k][d];
                           }
                           s += one(val.at(y)[(e + k) % n], k, e);
                       }
                       return s;
                   },
                   "cell-nonlinear");
    };
    std::integral_constant<std::size_t, 0> i0;
    std::integral_constant<std::size_t, 1> i1;
    std::integral_constant<std::size_t, 2> i2;
    lin(i0, i2);
    lin(i1, i1);
    lin(i2, i2);
    non(i0, i1);
    non(i1, i2);
    non(i2, i1);
}

void family(mc::Run& run, const std::string& nm, const Forest<D>& fo)
{
    std::array<bool, D> none{};
    Space<D, Mesh> sp(fo, none, 2., aligned<D>(fo) ? -0.5 : 0.25);
    const u64 nv = mc::cpow(3, D);
    run.family(nm, sp.rule() + ", generic values on all cells and ghosts, all sign patterns of the velocity, scalar and vector fields, every built-in operator and six user-defined cell schemes", sp.ids.size() * nv,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   u64 vcode = dec.take(nv);
                   auto lv   = fo.leaves(sp.ids[dec.take(sp.ids.size())]);
                   DESC(c) << "velocity code " << vcode << ", leaves " << str<D>(lv);
                   auto mesh = make_mesh<Mesh, D>(sp.ref, lv);
                   LeafMap<D> lm(lv);
                   auto dom = sp.dom(lm);
                   auto fs  = faces<D>(dom);
                   auto ref = cells_of<D>(mesh[Mesh::mesh_id_t::reference]);
                   auto go  = [&](auto&& u)
                   {
                       using F = std::decay_t<decltype(u)>;
                       set_all<D>(u, ref,
                                  [&](const LCell<D>& x, std::size_t e)
                                  {
                                      return generic<D>(x, e);
                                  });
                       auto val = values<D>(u);
                       World w{c, dom, fs, F::size == 1 ? " of a scalar field" : " of a vector field"};
                       operators(w, u, val, vcode);
                       if (vcode == 0)
                       {
                           cell_schemes(w, u, val);
                       }
                   };
                   go(samurai::make_field<1>("u", mesh));
                   go(samurai::make_field<2>("u", mesh));
#if DIM == 3
                   go(samurai::make_field<3>("u", mesh));
#endif
               });
}

// exactness: cell means of monomials, against the mean of the exact derivative
double mean1(int a, double lo, double hi)
{
    return (std::pow(hi, a + 1) - std::pow(lo, a + 1)) / ((a + 1) * (hi - lo));
}

// mean over the cell of the derivative of order (k in direction d) of the monomial
double mean(const Dom<D>& dom, const LCell<D>& c, const std::array<int, D>& pw, std::size_t d = 0, int k = 0)
{
    double r = 1;
    for (std::size_t e = 0; e < D; ++e)
    {
        double lo = dom.center(c, e) - dom.h(c.level) / 2, hi = lo + dom.h(c.level);
        int a = pw[e];
        double f = 1;
        for (int q = 0; e == d && q < k; ++q)
        {
            f *= a;
            a -= 1;
        }
        r *= f == 0 ? 0. : f * mean1(a, lo, hi);
    }
    return r;
}

void poly_family(mc::Run& run, const std::string& nm, const Forest<D>& fo)
{
    std::array<bool, D> none{};
    Space<D, Mesh> sp(fo, none, 2., aligned<D>(fo) ? -0.5 : 0.25);
    const u64 np = mc::cpow(4, D), nv = mc::cpow(3, D);
    run.family(nm, sp.rule() + ", cell means of every monomial up to degree 3, operators exact up to their degree", sp.ids.size() * np * nv,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   u64 vcode = dec.take(nv);
                   std::array<int, D> pw;
                   int deg = 0;
                   for (auto& x : pw)
                   {
                       x = static_cast<int>(dec.take(4));
                       deg += x;
                   }
                   auto lv = fo.leaves(sp.ids[dec.take(sp.ids.size())]);
                   if (deg > 3)
                   {
                       return;
                   }
                   DESC(c) << "monomial " << str<D>(LCell<D>{0, pw}) << " velocity code " << vcode << ", leaves " << str<D>(lv);
                   auto mesh = make_mesh<Mesh, D>(sp.ref, lv);
                   LeafMap<D> lm(lv);
                   auto dom = sp.dom(lm);
                   auto fs  = faces<D>(dom);
                   auto ref = cells_of<D>(mesh[Mesh::mesh_id_t::reference]);
                   bool uni = lm.lmin == lm.lmax;
                   auto u   = samurai::make_field<1>("u", mesh);
                   set_all<D>(u, ref,
                              [&](const LCell<D>& x, std::size_t)
                              {
                                  return mean(dom, x, pw);
                              });
                   using F = decltype(u);
                   World w{c, dom, fs, " of a polynomial"};
                   if (vcode == 0 && deg <= (uni ? 3 : 2))
                   {
                       w.cellwise(samurai::make_diffusion_order2<F>(3.)(u), 1, "diffusion",
                                  [&](const LCell<D>& l, std::size_t)
                                  {
                                      double s = 0;
                                      for (std::size_t d = 0; d < D; ++d)
                                      {
                                          s -= 3. * mean(dom, l, pw, d, 2);
                                      }
                                      return s;
                                  },
                                  "exact");
                   }
                   if (vcode == 0 && deg <= (uni ? 2 : 1))
                   {
                       w.cellwise(samurai::make_gradient_order2<F>()(u), D, "gradient",
                                  [&](const LCell<D>& l, std::size_t e)
                                  {
                                      return mean(dom, l, pw, e, 1);
                                  },
                                  "exact");
                   }
                   auto transport = [&](const LCell<D>& l, std::size_t)
                   {
                       double s = 0;
                       for (std::size_t d = 0; d < D; ++d)
                       {
                           s += sgn(vcode, d) * mean(dom, l, pw, d, 1);
                       }
                       return s;
                   };
                   samurai::VelocityVector<D> vel;
                   for (std::size_t d = 0; d < D; ++d)
                   {
                       vel(d) = sgn(vcode, d);
                   }
                   if (deg <= (uni ? 1 : 0))
                   {
                       w.cellwise(samurai::make_convection_upwind<F>(vel)(u), 1, "upwind convection", transport, "exact");
                   }
                   if (deg <= 2)
                   {
                       w.cellwise(samurai::make_convection_weno5<F>(vel)(u), 1, "WENO5 convection", transport, "exact");
                   }
               });
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();
#if DIM == 1
    family(run, "r3d2", {{0}, {3}, 0, 2});
    family(run, "r2d3", {{0}, {2}, 0, 3});
    family(run, "r4d2L1", {{-1}, {4}, 1, 2});
    family(run, "r3d3", {{0}, {3}, 0, 3});
    poly_family(run, "poly-r3d2", {{0}, {3}, 0, 2});
    poly_family(run, "poly-r4d1L1", {{-1}, {4}, 1, 1});
    if (T)
    {
        family(run, "r4d3", {{0}, {4}, 0, 3});
        poly_family(run, "poly-r2d3", {{0}, {2}, 0, 3});
    }
#elif DIM == 2
    family(run, "r22d1", {{0, 0}, {2, 2}, 0, 1});
    family(run, "r32d1", {{-1, 1}, {3, 2}, 1, 1});
    family(run, "r11d2", {{0, 0}, {1, 1}, 0, 2});
    family(run, "r21d2", {{0, 0}, {2, 1}, 0, 2});
    poly_family(run, "poly-r22d1", {{0, 0}, {2, 2}, 0, 1});
    poly_family(run, "poly-r11d2", {{0, 0}, {1, 1}, 0, 2});
    family(run, "r33d1", {{0, 0}, {3, 3}, 0, 1});
    if (T)
    {
        family(run, "r22d2", {{0, 0}, {2, 2}, 0, 2});
        poly_family(run, "poly-r21d2", {{0, 0}, {2, 1}, 0, 2});
    }
#else
    family(run, "r211d1", {{0, 0, 0}, {2, 1, 1}, 0, 1});
    family(run, "r121d1", {{0, 0, 0}, {1, 2, 1}, 1, 1});
    family(run, "r112d1", {{-1, 0, 1}, {1, 1, 2}, 0, 1});
    poly_family(run, "poly-r211d1", {{0, 0, 0}, {2, 1, 1}, 0, 1});
    family(run, "r222d1", {{0, 0, 0}, {2, 2, 2}, 0, 1});
    if (T)
    {
        family(run, "r111d2", {{0, 0, 0}, {1, 1, 1}, 0, 2});
        poly_family(run, "poly-r121d1L1", {{0, 0, 1}, {1, 2, 1}, 1, 1});
    }
#endif
    return run.finish();
}
