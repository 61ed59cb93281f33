// S01: flux-based schemes conserve and are assembled face by face.
#include "sam_fv.hpp"
#include <samurai/algorithm/update.hpp>
#include <samurai/schemes/fv.hpp>
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;

using Mesh = samurai::MRMesh<samurai::MRConfig<D, 3, 0, 1>>;
using S    = samurai::SchemeType;

// generic coefficient of the linear fluxes: direction, mesh size, stencil cell, output component, input component
double coef(u64 salt, std::size_t d, double h, std::size_t k, std::size_t i, std::size_t j)
{
    u64 x = mc::mix(mc::mix(mc::mix(mc::mix(salt + 11, d), k), i), j);
    return (static_cast<double>(x % 13) - 6.) * (x % 2 ? 1. / h : 1.) + (x % 3 ? 0.5 : h);
}

// space dependence of heterogeneous coefficients
template <class C>
double hetero(const C& cell, std::size_t d)
{
    double s = 1.;
    for (std::size_t e = 0; e < D; ++e)
    {
        s += (e == d ? 0.75 : -0.5) * cell.center(e);
    }
    return s;
}

double hetero_m(const Dom<D>& dom, const LCell<D>& c, std::size_t d)
{
    double s = 1.;
    for (std::size_t e = 0; e < D; ++e)
    {
        s += (e == d ? 0.75 : -0.5) * dom.center(c, e);
    }
    return s;
}

template <class M>
void put(M& m, std::size_t i, std::size_t j, double v)
{
    if constexpr (std::is_floating_point_v<M>)
    {
        m = v;
    }
    else
    {
        m(i, j) = v;
    }
}

template <std::size_t N>
std::vector<int> offsets()
{
    std::vector<int> o;
    for (std::size_t k = 0; k < N; ++k)
    {
        o.push_back(static_cast<int>(k) - static_cast<int>(N) / 2 + 1);
    }
    return o;
}

template <class V>
double comp(const V& v, std::size_t j)
{
    if constexpr (std::is_floating_point_v<std::decay_t<V>>)
    {
        return v;
    }
    else
    {
        return v(j);
    }
}

// nonlinear numerical flux, generic in the accessor
template <class U>
double nl(std::size_t d, std::size_t n, std::size_t nin, std::size_t i, U&& u) // u(k, j)
{
    double a = 0;
    for (std::size_t k = 0; k < n; ++k)
    {
        double w = static_cast<double>(k * 3 + d + 1) * (k % 2 ? -0.5 : 0.25);
        a += w * u(k, i % nin) * u((k + 1) % n, (i + d) % nin);
    }
    return a + std::abs(u(n / 2, i % nin)) * 0.5;
}

template <class F>
void apply_all(mc::Case& c, const Dom<D>& dom, const std::vector<Face<D>>& fs, F& u, const Values<D>& val, bool uniform_value, bool closed = false)
{
    static constexpr std::size_t nin = F::size;
    auto run_kind             = [&](auto kind, auto ncst, auto outc)
    {
        constexpr S type            = decltype(kind)::value;
        constexpr std::size_t n     = decltype(ncst)::value;
        constexpr std::size_t nout  = decltype(outc)::value;
        using cfg                   = samurai::FluxConfig<type, nout, n, F>;
        const u64 salt              = n * 5 + nout * 3 + nin;
        samurai::FluxDefinition<cfg> def;
        FluxFn<D> model;
        std::string who = std::string(type == S::NonLinear ? "nonlinear" : type == S::LinearHomogeneous ? "constant-coefficient" : "variable-coefficient") + " scheme, stencil of " + std::to_string(n)
                        + ", " + std::to_string(nin) + " -> " + std::to_string(nout) + " components";
        for (std::size_t d = 0; d < D; ++d)
        {
            if constexpr (type == S::LinearHomogeneous)
            {
                def[d].cons_flux_function = [salt, d](double h)
                {
                    samurai::FluxStencilCoeffs<cfg> m;
                    for (std::size_t k = 0; k < n; ++k)
                    {
                        for (std::size_t i = 0; i < nout; ++i)
                        {
                            for (std::size_t j = 0; j < nin; ++j)
                            {
                                put(m[k], i, j, coef(salt, d, h, k, i, j));
                            }
                        }
                    }
                    return m;
                };
            }
            else if constexpr (type == S::LinearHeterogeneous)
            {
                def[d].cons_flux_function = [salt, d](auto& cells)
                {
                    samurai::FluxStencilCoeffs<cfg> m;
                    for (std::size_t k = 0; k < n; ++k)
                    {
                        for (std::size_t i = 0; i < nout; ++i)
                        {
                            for (std::size_t j = 0; j < nin; ++j)
                            {
                                put(m[k], i, j, coef(salt, d, cells[0].length, k, i, j) * hetero(cells[k], d));
                            }
                        }
                    }
                    return m;
                };
            }
            else
            {
                def[d].cons_flux_function = [d](auto& cells, const F& f)
                {
                    samurai::FluxValue<cfg> v;
                    for (std::size_t i = 0; i < nout; ++i)
                    {
                        double x = nl(d, n, nin, i,
                                      [&](std::size_t k, std::size_t j)
                                      {
                                          return comp(f[cells[k]], j);
                                      });
                        if constexpr (nout == 1)
                        {
                            v = x;
                        }
                        else
                        {
                            v(i) = x;
                        }
                    }
                    return v;
                };
            }
        }
        model = [&](std::size_t d, double h, const std::vector<LCell<D>>& cells)
        {
            std::vector<double> v(nout, 0.), w;
            for (std::size_t i = 0; i < nout; ++i)
            {
                if (type == S::NonLinear)
                {
                    v[i] = nl(d, n, nin, i,
                              [&](std::size_t k, std::size_t j)
                              {
                                  return val.at(cells[k])[j];
                              });
                    continue;
                }
                for (std::size_t k = 0; k < n; ++k)
                {
                    for (std::size_t j = 0; j < nin; ++j)
                    {
                        v[i] += coef(salt, d, h, k, i, j) * val.at(cells[k])[j] * (type == S::LinearHeterogeneous ? hetero_m(dom, cells[k], d) : 1.);
                    }
                }
            }
            for (auto x : v)
            {
                w.push_back(-x);
            }
            return std::make_pair(v, w);
        };
        auto scheme = samurai::make_flux_based_scheme(def);
        auto offs   = offsets<n>();
        double vol  = std::pow(dom.h(0), static_cast<double>(D));
        for (bool bd : {true, false})
        {
            scheme.include_boundary_fluxes(bd);
            Result<D> want;
            std::vector<double> net(nout, 0.);
            add_flux<D>(want, dom, fs, offs, nout, model, bd, -1, &net);
            auto out = scheme(u);
            compare_result<D>(c, out, want, "flux", who + (bd ? "" : ", no boundary fluxes"));
            // conservation, on the result itself
            double m = scale_of<D>(want);
            for (std::size_t e = 0; e < nout; ++e)
            {
                double sum = 0, mag = 0;
                for (auto& l : dom.lm->leaf)
                {
                    double x = fat(out, cidx<D>(u.mesh(), l), e) * vol / std::pow(2., static_cast<double>(D) * l.level);
                    sum += x;
                    mag += std::abs(x);
                }
                double expect = bd && !(closed && type != S::LinearHeterogeneous) ? net[e] : 0.;
                CHK(c, std::abs(sum - expect) <= 1e-10 * (1. + mag + std::abs(expect)), "conservation", who + ": the volume-weighted sum is " + std::to_string(sum) + ", the net boundary flux " + std::to_string(expect));
            }
            // consistency: where the field and the coefficients are constant, nothing accumulates
            if (uniform_value && bd && type != S::LinearHeterogeneous)
            {
                bool one_level = dom.lm->lmin == dom.lm->lmax || type == S::NonLinear;
                for (auto& l : dom.lm->leaf)
                {
                    for (std::size_t e = 0; one_level && e < nout; ++e)
                    {
                        double x = fat(out, cidx<D>(u.mesh(), l), e);
                        CHK(c, std::abs(x) <= 1e-9 * (m + 100. / dom.h(l.level) / dom.h(l.level)), "constant", who + ": a constant field has divergence " + std::to_string(x) + " in " + str<D>(l));
                    }
                }
            }
            // applied direction by direction, and added onto an existing result
            auto acc = samurai::Field<Mesh, double, nout, F::is_soa>("acc", u.mesh());
            acc.fill(0.);
            auto once = samurai::Field<Mesh, double, nout, F::is_soa>("once", u.mesh());
            once.fill(3.);
            for (std::size_t d = 0; d < D; ++d)
            {
                Result<D> wd;
                add_flux<D>(wd, dom, fs, offs, nout, model, bd, static_cast<int>(d));
                auto od = scheme(d, u);
                compare_result<D>(c, od, wd, "direction", who + ", direction " + std::to_string(d) + " alone");
                for (auto& l : dom.lm->leaf)
                {
                    auto i = cidx<D>(u.mesh(), l);
                    for (std::size_t e = 0; e < nout; ++e)
                    {
                        fat(acc, i, e) += fat(od, i, e);
                    }
                }
            }
            compare_result<D>(c, acc, want, "direction", who + ", sum over the directions");
            scheme.apply(once, u);
            Result<D> w3 = want;
            for (auto& [l, v] : w3)
            {
                for (auto& x : v)
                {
                    x += 3.;
                }
            }
            compare_result<D>(c, once, w3, "accumulate", who + ", added to an existing field");
        }
        // the input field is not modified
        for (auto& [l, v] : val)
        {
            auto i = cidx<D>(u.mesh(), l);
            for (std::size_t e = 0; e < nin; ++e)
            {
                CHK(c, fat(u, i, e) == v[e], "input", who + ": applying the scheme changed the input field in " + str<D>(l));
            }
        }
    };
    auto hom = std::integral_constant<S, S::LinearHomogeneous>{};
    auto het = std::integral_constant<S, S::LinearHeterogeneous>{};
    auto non = std::integral_constant<S, S::NonLinear>{};
    std::integral_constant<std::size_t, 1> o1;
    std::integral_constant<std::size_t, 2> n2;
    std::integral_constant<std::size_t, 4> n4;
    std::integral_constant<std::size_t, 6> n6;
    if constexpr (nin == 1)
    {
        run_kind(hom, n2, o1);
        run_kind(hom, n4, n2);
        run_kind(het, n2, o1);
        run_kind(het, n4, n2);
        run_kind(non, n2, o1);
        run_kind(non, n6, o1);
    }
    else
    {
        run_kind(hom, n2, n2);
        run_kind(hom, n4, o1);
        run_kind(het, n2, n2);
        run_kind(non, n4, n2);
    }
}

// non-conservative nonlinear fluxes: each side gets its own value
template <class F>
void pair_case(mc::Case& c, const Dom<D>& dom, const std::vector<Face<D>>& fs, F& u, const Values<D>& val)
{
    using cfg = samurai::FluxConfig<S::NonLinear, 1, 2, F>;
    samurai::FluxDefinition<cfg> def;
    for (std::size_t d = 0; d < D; ++d)
    {
        def[d].flux_function = [d](auto& cells, const F& f)
        {
            samurai::FluxValuePair<cfg> r;
            r[0] = (1. + static_cast<double>(d)) * f[cells[0]] * f[cells[1]];
            r[1] = f[cells[1]] * f[cells[1]] - 0.5 * f[cells[0]];
            return r;
        };
    }
    auto scheme = samurai::make_flux_based_scheme(def);
    Result<D> want;
    add_flux<D>(
        want, dom, fs, {0, 1}, 1,
        [&](std::size_t d, double, const std::vector<LCell<D>>& cells)
        {
            double a = val.at(cells[0])[0], b = val.at(cells[1])[0];
            return std::make_pair(std::vector<double>{(1. + static_cast<double>(d)) * a * b}, std::vector<double>{b * b - 0.5 * a});
        },
        true);
    auto out = scheme(u);
    compare_result<D>(c, out, want, "flux-pair", "non-conservative flux");
}

// fully periodic domains with updated ghosts: nothing enters or leaves where the levels match across the seam
void periodic_family(mc::Run& run, const std::string& nm, const Forest<D>& fo)
{
    std::array<bool, D> all;
    all.fill(true);
    Space<D, Mesh> sp(fo, all, 2., 0.25);
    run.family(nm, sp.rule() + ", periodic in every direction, ghosts updated, scalar and vector fields, 11 schemes", sp.ids.size(),
               [&](u64 id, mc::Case& c)
               {
                   auto lv = fo.leaves(sp.ids[id]);
                   DESC(c) << "periodic, leaves " << str<D>(lv);
                   auto mesh = make_mesh<Mesh, D>(sp.ref, lv);
                   LeafMap<D> lm(lv);
                   auto dom   = sp.dom(lm);
                   auto fs    = faces<D>(dom);
                   bool match = true;
                   for (auto& f : fs)
                   {
                       if (f.left.level < 0 || f.right.level < 0)
                       {
                           LCell<D> y = f.left.level < 0 ? f.right : f.left;
                           y.p[f.d] += f.left.level < 0 ? -1 : 1;
                           int n0 = fo.width(f.d, y.level), o0 = fo.start(f.d, y.level);
                           y.p[f.d] = o0 + ((y.p[f.d] - o0) % n0 + n0) % n0;
                           match    = match && lm.leaf.count(y) && n0 >= 3; // narrower domains do not fill the widest stencils
                       }
                   }
                   auto go = [&](auto&& u)
                   {
                       u.fill(0.);
                       set_all<D>(u, lm.leaf,
                                  [&](const LCell<D>& x, std::size_t e)
                                  {
                                      return generic<D>(x, e);
                                  });
                       samurai::update_ghost_mr(u);
                       auto val = values<D>(u);
                       apply_all(c, dom, fs, u, val, false, match);
                   };
                   go(samurai::make_field<1>("u", mesh));
                   go(samurai::make_field<2>("u", mesh));
               });
}

void family(mc::Run& run, const std::string& nm, const Forest<D>& fo)
{
    std::array<bool, D> none{};
    Space<D, Mesh> sp(fo, none, 2., aligned<D>(fo) ? -0.5 : 0.25);
    run.family(nm, sp.rule() + ", 2 value patterns on all cells and ghosts, scalar and vector fields, 11 schemes with and without boundary fluxes", sp.ids.size() * 2,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   u64 pat = dec.take(2);
                   auto lv = fo.leaves(sp.ids[dec.take(sp.ids.size())]);
                   DESC(c) << (pat ? "constant" : "generic") << " values, leaves " << str<D>(lv);
                   auto mesh = make_mesh<Mesh, D>(sp.ref, lv);
                   LeafMap<D> lm(lv);
                   auto dom = sp.dom(lm);
                   auto fs  = faces<D>(dom);
                   auto ref = cells_of<D>(mesh[Mesh::mesh_id_t::reference]);
                   auto go  = [&](auto&& u)
                   {
                       set_all<D>(u, ref,
                                  [&](const LCell<D>& x, std::size_t e)
                                  {
                                      return pat ? 1.5 + static_cast<double>(e) : generic<D>(x, e);
                                  });
                       auto val = values<D>(u);
                       apply_all(c, dom, fs, u, val, pat);
                       if constexpr (std::decay_t<decltype(u)>::size == 1)
                       {
                           pair_case(c, dom, fs, u, val);
                       }
                   };
                   go(samurai::make_field<1>("u", mesh));
                   go(samurai::make_field<2>("u", mesh));
               });
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();
#if DIM == 1
    family(run, "r3d2", {{0}, {3}, 0, 2});
    family(run, "r2d3", {{0}, {2}, 0, 3});
    family(run, "r4d2L1", {{-1}, {4}, 1, 2});
    periodic_family(run, "per2d2", {{0}, {2}, 0, 2});
    periodic_family(run, "per2d3", {{0}, {2}, 0, 3});
    periodic_family(run, "per4d2L1", {{0}, {4}, 1, 2});
    family(run, "r3d3", {{0}, {3}, 0, 3});
    if (T)
    {
        family(run, "r2d4", {{0}, {2}, 0, 4});
        family(run, "r4d3", {{0}, {4}, 0, 3});
        periodic_family(run, "per4d3", {{0}, {4}, 0, 3});
    }
#elif DIM == 2
    family(run, "r22d1", {{0, 0}, {2, 2}, 0, 1});
    family(run, "r32d1", {{-1, 1}, {3, 2}, 1, 1});
    family(run, "r11d2", {{0, 0}, {1, 1}, 0, 2});
    family(run, "r21d2", {{0, 0}, {2, 1}, 0, 2});
    periodic_family(run, "per22d1", {{0, 0}, {2, 2}, 0, 1});
    periodic_family(run, "per11d2", {{0, 0}, {1, 1}, 0, 2});
    periodic_family(run, "per21d2", {{0, 0}, {2, 1}, 0, 2});
    family(run, "r33d1", {{0, 0}, {3, 3}, 0, 1});
    if (T)
    {
        family(run, "r22d2", {{0, 0}, {2, 2}, 0, 2});
    }
#else
    family(run, "r211d1", {{0, 0, 0}, {2, 1, 1}, 0, 1});
    family(run, "r121d1", {{0, 0, 0}, {1, 2, 1}, 1, 1});
    family(run, "r112d1", {{-1, 0, 1}, {1, 1, 2}, 0, 1});
    family(run, "r222d1", {{0, 0, 0}, {2, 2, 2}, 0, 1});
    periodic_family(run, "per222d1", {{0, 0, 0}, {2, 2, 2}, 1, 1});
    if (T)
    {
        periodic_family(run, "per111d2", {{0, 0, 0}, {1, 1, 1}, 0, 2});
        family(run, "r111d2", {{0, 0, 0}, {1, 1, 1}, 0, 2});
    }
#endif
    return run.finish();
}
