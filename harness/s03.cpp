// S03: scheme algebra acts term by term, does not alter its terms, and does not depend on what was applied before.
#include "sam_fv.hpp"
#include <samurai/schemes/fv.hpp>
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;

using Mesh = samurai::MRMesh<samurai::MRConfig<D, 2, 0, 1>>;
using S    = samurai::SchemeType;
using Res  = std::vector<double>;

double coef(u64 salt, std::size_t d, double h, std::size_t k, std::size_t i, std::size_t j)
{
    u64 x = mc::mix(mc::mix(mc::mix(mc::mix(salt + 3, d), k), i), j);
    return (static_cast<double>(x % 13) - 6.) * (x % 2 ? 1. / h : 1.) + (x % 3 ? 0.5 : h);
}

template <class M>
void put(M& m, std::size_t i, std::size_t j, double v)
{
    if constexpr (std::is_floating_point_v<M>)
    {
        m = v;
    }
    else
    {
        m(i, j) = v;
    }
}

template <class V>
double comp(const V& v, std::size_t j)
{
    if constexpr (std::is_floating_point_v<std::decay_t<V>>)
    {
        return v;
    }
    else
    {
        return v(j);
    }
}

template <class V>
void setc(V& v, std::size_t i, double x)
{
    if constexpr (std::is_floating_point_v<V>)
    {
        v = x;
    }
    else
    {
        v(i) = x;
    }
}

template <class M>
auto coeffs(u64 salt, std::size_t ns, std::size_t n, std::size_t d, double h)
{
    M m;
    for (std::size_t k = 0; k < ns; ++k)
    {
        for (std::size_t i = 0; i < n; ++i)
        {
            for (std::size_t j = 0; j < n; ++j)
            {
                put(m[k], i, j, coef(salt, d, h, k, i, j));
            }
        }
    }
    return m;
}

template <class F, std::size_t ns>
auto flux_hom(u64 salt)
{
    using cfg = samurai::FluxConfig<S::LinearHomogeneous, F::size, ns, F>;
    samurai::FluxDefinition<cfg> def;
    for (std::size_t d = 0; d < D; ++d)
    {
        def[d].cons_flux_function = [=](double h)
        {
            return coeffs<samurai::FluxStencilCoeffs<cfg>>(salt, ns, F::size, d, h);
        };
    }
    return samurai::make_flux_based_scheme(def);
}

// bit 0 of opt: space dependent
template <class F, std::size_t ns>
auto flux_het(u64 salt, bool vary)
{
    using cfg = samurai::FluxConfig<S::LinearHeterogeneous, F::size, ns, F>;
    samurai::FluxDefinition<cfg> def;
    for (std::size_t d = 0; d < D; ++d)
    {
        def[d].cons_flux_function = [=](auto& cells)
        {
            double s = vary ? 1. + 0.5 * cells[0].center(0) : 1.;
            samurai::FluxStencilCoeffs<cfg> m;
            for (std::size_t k = 0; k < ns; ++k)
            {
                for (std::size_t i = 0; i < F::size; ++i)
                {
                    for (std::size_t j = 0; j < F::size; ++j)
                    {
                        put(m[k], i, j, s * coef(salt, d, cells[0].length, k, i, j));
                    }
                }
            }
            return m;
        };
    }
    return samurai::make_flux_based_scheme(def);
}

enum NonKind
{
    CONS,
    PAIR,
    LINEAR
};

template <class F, std::size_t ns>
auto flux_non(u64 salt, NonKind kind)
{
    using cfg = samurai::FluxConfig<S::NonLinear, F::size, ns, F>;
    samurai::FluxDefinition<cfg> def;
    for (std::size_t d = 0; d < D; ++d)
    {
        auto value = [=](auto& cells, const F& f, std::size_t i)
        {
            double x = 0;
            for (std::size_t k = 0; k < ns; ++k)
            {
                for (std::size_t j = 0; j < F::size; ++j)
                {
                    double v = comp(f[cells[k]], j);
                    x += coef(salt, d, cells[0].length, k, i, j) * (kind == LINEAR ? v : v * v * 0.25);
                }
            }
            return x;
        };
        if (kind == PAIR)
        {
            def[d].flux_function = [=](auto& cells, const F& f)
            {
                samurai::FluxValuePair<cfg> r;
                for (std::size_t i = 0; i < F::size; ++i)
                {
                    double x = value(cells, f, i);
                    setc(r[0], i, x);
                    setc(r[1], i, 2. - 0.5 * x);
                }
                return r;
            };
        }
        else
        {
            def[d].cons_flux_function = [=](auto& cells, const F& f)
            {
                samurai::FluxValue<cfg> r;
                for (std::size_t i = 0; i < F::size; ++i)
                {
                    setc(r, i, value(cells, f, i));
                }
                return r;
            };
        }
    }
    return samurai::make_flux_based_scheme(def);
}

template <class F, std::size_t width>
auto cell_lin(u64 salt)
{
    using cfg              = samurai::StarStencilSchemeConfig<S::LinearHomogeneous, F::size, width, F>;
    auto sc                = samurai::make_cell_based_scheme<cfg>("lin");
    sc.coefficients_func() = [=](double h)
    {
        return coeffs<samurai::StencilCoeffs<cfg>>(salt, cfg::stencil_size, F::size, 5, h);
    };
    return sc;
}

template <class F, std::size_t width>
auto cell_non(u64 salt, bool linear = false)
{
    using cfg = samurai::StarStencilSchemeConfig<S::NonLinear, F::size, width, F>;
    auto sc   = samurai::make_cell_based_scheme<cfg>("non");
    sc.set_scheme_function(
        [=](auto& cells, const auto& f)
        {
            samurai::SchemeValue<cfg> r;
            for (std::size_t i = 0; i < F::size; ++i)
            {
                double x = 0;
                for (std::size_t k = 0; k < cfg::stencil_size; ++k)
                {
                    for (std::size_t j = 0; j < F::size; ++j)
                    {
                        double v, h;
                        if constexpr (cfg::stencil_size == 1)
                        {
                            v = comp(f[cells], j);
                            h = cells.length;
                        }
                        else
                        {
                            v = comp(f[cells[k]], j);
                            h = cells[0].length;
                        }
                        x += coef(salt, 5, h, k, i, j) * (linear ? v : v * v * 0.25);
                    }
                }
                setc(r, i, x);
            }
            return r;
        });
    return sc;
}

template <class F>
Res take(const LSet<D>& leaf, F&& out)
{
    Res r;
    for (auto& l : leaf)
    {
        auto i = cidx<D>(out.mesh(), l);
        for (std::size_t e = 0; e < std::decay_t<F>::size; ++e)
        {
            r.push_back(fat(out, i, e));
        }
    }
    return r;
}

struct Bench
{
    mc::Case& c;
    const LSet<D>& leaf;

    bool near(const Res& got, const std::vector<Res>& terms, const std::vector<double>& cf) const
    {
        double m = 1;
        for (auto& t : terms)
        {
            for (auto x : t)
            {
                m = std::max(m, std::abs(x) * 10.);
            }
        }
        for (std::size_t p = 0; p < got.size(); ++p)
        {
            double s = 0;
            for (std::size_t k = 0; k < cf.size(); ++k)
            {
                s += cf[k] * terms[k][p];
            }
            if (!(std::abs(got[p] - s) <= 1e-10 * m))
            {
                return false;
            }
        }
        return true;
    }
};

// --- run-time expression trees over schemes of one type ---------------------
template <class Sc>
struct Tree
{
    Sc sc;
    std::array<double, 3> cf;
    std::string txt;
};

template <class Sc>
constexpr bool has_minus = samurai::is_CellBasedScheme_v<Sc>;

template <class Sc>
Tree<Sc> prefixed(Tree<Sc> t, u64 p)
{
    auto scale = [&](double a, const std::string& s)
    {
        for (auto& x : t.cf)
        {
            x *= a;
        }
        t.txt = s + "(" + t.txt + ")";
    };
    switch (p)
    {
        case 0:
            return t;
        case 1:
            scale(-1, "-");
            return {-t.sc, t.cf, t.txt};
        case 2:
            scale(2.5, "2.5*");
            return {2.5 * t.sc, t.cf, t.txt};
        case 3:
            scale(0, "0*");
            return {0. * t.sc, t.cf, t.txt};
        default:
            scale(1, "1*");
            return {1. * t.sc, t.cf, t.txt};
    }
}

template <class Sc>
Tree<Sc> build(mc::Dec& dec, const std::array<Sc, 3>& pool, std::size_t n, u64 lp)
{
    if (n == 1)
    {
        u64 k = dec.take(3), p = dec.take(lp);
        Tree<Sc> t{pool[k], {}, std::string(1, static_cast<char>('a' + k))};
        t.cf[k] = 1;
        return prefixed<Sc>(t, p);
    }
    u64 cut = dec.take(n - 1) + 1, minus = dec.take(has_minus<Sc> ? 2 : 1), p = dec.take(3);
    auto l = build<Sc>(dec, pool, cut, lp);
    auto r = build<Sc>(dec, pool, n - cut, lp);
    std::array<double, 3> cf;
    for (std::size_t k = 0; k < 3; ++k)
    {
        cf[k] = l.cf[k] + (minus ? -1. : 1.) * r.cf[k];
    }
    auto txt = l.txt + (minus ? " - " : " + ") + r.txt;
    if constexpr (has_minus<Sc>)
    {
        if (minus)
        {
            return prefixed<Sc>({l.sc - r.sc, cf, txt}, p);
        }
    }
    return prefixed<Sc>({l.sc + r.sc, cf, txt}, p);
}

u64 trees(std::size_t n, u64 lp, bool minus)
{
    if (n == 1)
    {
        return 3 * lp;
    }
    u64 b = minus ? 2 : 1;
    return n == 2 ? b * 3 * mc::cpow(3 * lp, 2) : 2 * b * b * 9 * mc::cpow(3 * lp, 3);
}

template <class F, class Sc>
void tree_family(mc::Run& run, const std::string& nm, const Forest<D>& fo, std::size_t n, u64 lp, const std::array<Sc, 3>& pool, u64 only_mesh)
{
    std::array<bool, D> none{};
    Space<D, Mesh> sp(fo, none, 2., aligned<D>(fo) ? -0.5 : 0.25);
    const u64 nt = trees(n, lp, has_minus<Sc>), nm_ = only_mesh ? only_mesh : sp.ids.size();
    run.family(nm, sp.rule() + (only_mesh ? " (the last " + std::to_string(only_mesh) + ")" : "") + ", all expressions of " + std::to_string(n) + " terms over three schemes of one kind with +, -, scalars; generic values",
               nt * nm_,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   u64 t   = dec.take(nt);
                   auto lv = fo.leaves(sp.ids[sp.ids.size() - 1 - dec.take(nm_)]);
                   // terms on their own and fields, once per mesh
                   static std::map<std::string, std::shared_ptr<std::tuple<Mesh, F, std::vector<Res>, LSet<D>>>> memo;
                   auto& slot = memo[str<D>(lv)];
                   if (!slot)
                   {
                       auto mesh = make_mesh<Mesh, D>(sp.ref, lv);
                       slot      = std::make_shared<std::tuple<Mesh, F, std::vector<Res>, LSet<D>>>(mesh, F{}, std::vector<Res>{}, LeafMap<D>(lv).leaf);
                       std::get<1>(*slot) = F("u", std::get<0>(*slot));
                       set_all<D>(std::get<1>(*slot), cells_of<D>(mesh[Mesh::mesh_id_t::reference]),
                                  [&](const LCell<D>& x, std::size_t e)
                                  {
                                      return generic<D>(x, e);
                                  });
                       for (auto& s : pool)
                       {
                           std::get<2>(*slot).push_back(take(std::get<3>(*slot), s(std::get<1>(*slot))));
                       }
                   }
                   auto& u     = std::get<1>(*slot);
                   auto& terms = std::get<2>(*slot);
                   auto& leaf  = std::get<3>(*slot);
                   Bench b{c, leaf};
                   mc::Dec td(t);
                   auto tr = build<Sc>(td, pool, n, lp);
                   DESC(c) << tr.txt << ", leaves " << str<D>(lv);
                   auto got = take(leaf, tr.sc(u));
                   CHK(c, b.near(got, terms, {tr.cf[0], tr.cf[1], tr.cf[2]}), "term-by-term", "the combination differs from the combination of its terms");
                   if (id % 16 == 0)
                   {
                       for (std::size_t k = 0; k < 3; ++k)
                       {
                           CHK(c, take(leaf, pool[k](u)) == terms[k], "altered", "a term gives a different result after being used in an expression");
                       }
                   }
                   c.outcome(mc::hash_str(tr.txt));
                   c.transitions(got.size());
               });
}

// --- combinations of schemes of different types -----------------------------
template <class F>
void mixed(mc::Case& c, F& u, const LSet<D>& leaf)
{
    auto f  = flux_hom<F, 2>(1);
    auto f2 = flux_hom<F, 2>(2);
    auto w  = flux_hom<F, 4>(3);
    auto h  = flux_het<F, 2>(4, true);
    auto q  = flux_non<F, 2>(5, CONS);
    auto p  = flux_non<F, 2>(6, PAIR);
    auto a  = cell_lin<F, 1>(7);
    auto a2 = cell_lin<F, 1>(8);
    auto e  = cell_lin<F, 0>(9);
    auto m  = cell_non<F, 0>(10);
    auto m2 = cell_non<F, 0>(11);
    auto z  = cell_non<F, 1>(12);
    auto I  = samurai::make_identity<F>();
    auto df = samurai::make_diffusion_order2<F>(1.5);
    enum
    {
        _f,
        _f2,
        _w,
        _h,
        _q,
        _p,
        _a,
        _a2,
        _e,
        _m,
        _m2,
        _z,
        _I,
        _df,
        COUNT
    };
    auto all = [&]
    {
        return std::vector<Res>{take(leaf, f(u)), take(leaf, f2(u)), take(leaf, w(u)), take(leaf, h(u)), take(leaf, q(u)), take(leaf, p(u)), take(leaf, a(u)),
                                take(leaf, a2(u)), take(leaf, e(u)), take(leaf, m(u)), take(leaf, m2(u)), take(leaf, z(u)), take(leaf, I(u)), take(leaf, df(u))};
    };
    const auto terms = all();
    Bench b{c, leaf};
    using Cf   = std::vector<std::pair<int, double>>;
    auto check = [&](const auto& ex, const std::string& txt, const Cf& cf, bool reapply = true)
    {
        std::vector<double> v(COUNT, 0.);
        for (auto& [k, x] : cf)
        {
            v[static_cast<std::size_t>(k)] += x;
        }
        auto got = take(leaf, ex(u));
        CHK(c, b.near(got, terms, v), "mixed", txt + " differs from the combination of its terms");
        if (reapply)
        {
            CHK(c, all() == terms, "altered", "building " + txt + " altered one of its terms");
        }
        // copies and multiples of the combination
        auto cp = ex;
        CHK(c, take(leaf, cp(u)) == got, "copy", "a copy of " + txt + " gives a different result");
        auto mul = -0.5 * ex;
        for (auto& x : v)
        {
            x *= -0.5;
        }
        CHK(c, b.near(take(leaf, mul(u)), terms, v), "mixed", "-0.5 * (" + txt + ") differs from the combination of its terms");
        CHK(c, take(leaf, ex(u)) == got, "altered", "scaling " + txt + " altered it");
        // onto an existing field
        typename std::decay_t<decltype(ex)>::output_field_t acc("acc", u.mesh());
        acc.fill(1.);
        ex.apply(acc, u);
        auto r = take(leaf, acc);
        for (auto& x : r)
        {
            x -= 1.;
        }
        for (auto& x : v)
        {
            x *= -2.;
        }
        CHK(c, b.near(r, terms, v), "accumulate", txt + " added to an existing field");
        c.outcome(mc::hash_str(txt));
        c.transitions(got.size());
    };
#define MIX(ex, ...) check(ex, #ex, __VA_ARGS__)
    MIX(f + w, Cf{{_f, 1}, {_w, 1}});
    MIX(w + f, Cf{{_f, 1}, {_w, 1}});
    MIX(f + h, Cf{{_f, 1}, {_h, 1}});
    MIX(h + f, Cf{{_f, 1}, {_h, 1}});
    MIX(f + q, Cf{{_f, 1}, {_q, 1}});
    MIX(q + f, Cf{{_f, 1}, {_q, 1}});
    MIX(q + h, Cf{{_h, 1}, {_q, 1}});
    MIX(q + p, Cf{{_p, 1}, {_q, 1}});
    MIX(p + q, Cf{{_p, 1}, {_q, 1}});
    MIX(p + p, Cf{{_p, 2}});
    MIX(q + q, Cf{{_q, 2}});
    MIX((p + q) + p, Cf{{_p, 2}, {_q, 1}});
    MIX(2. * q + (-p), Cf{{_p, -1}, {_q, 2}});
    MIX(df + f, Cf{{_f, 1}, {_df, 1}});
    MIX(df + h, Cf{{_h, 1}, {_df, 1}});
    MIX(df + q, Cf{{_q, 1}, {_df, 1}});
    MIX(f + a, Cf{{_f, 1}, {_a, 1}});
    MIX(a + f, Cf{{_f, 1}, {_a, 1}});
    MIX(f - a, Cf{{_f, 1}, {_a, -1}});
    MIX(a - f, Cf{{_f, -1}, {_a, 1}});
    MIX(h + m, Cf{{_h, 1}, {_m, 1}});
    MIX(m - h, Cf{{_h, -1}, {_m, 1}});
    MIX(q - z, Cf{{_q, 1}, {_z, -1}});
    MIX(z + p, Cf{{_p, 1}, {_z, 1}});
    MIX(I + 0.25 * df, Cf{{_I, 1}, {_df, 0.25}});
    MIX(I - 0.25 * df, Cf{{_I, 1}, {_df, -0.25}});
    MIX(a + e, Cf{{_a, 1}, {_e, 1}});
    MIX(e - a, Cf{{_a, -1}, {_e, 1}});
    MIX(a + z, Cf{{_a, 1}, {_z, 1}});
    MIX(z - a, Cf{{_a, -1}, {_z, 1}});
    MIX(e + m, Cf{{_e, 1}, {_m, 1}});
    MIX(m + e, Cf{{_e, 1}, {_m, 1}});
    MIX(e - m, Cf{{_e, 1}, {_m, -1}});
    MIX(m - e, Cf{{_e, -1}, {_m, 1}});
    MIX(I + m, Cf{{_I, 1}, {_m, 1}});
    MIX(m + m2, Cf{{_m, 1}, {_m2, 1}});
    MIX(m - m2, Cf{{_m, 1}, {_m2, -1}});
    MIX(I + e, Cf{{_e, 1}, {_I, 1}});
    MIX(e + m + m2, Cf{{_e, 1}, {_m, 1}, {_m2, 1}});
    MIX(m + m2 + z, Cf{{_m, 1}, {_m2, 1}, {_z, 1}});
    // with sums as operands
    MIX((f + a) + e, Cf{{_f, 1}, {_a, 1}, {_e, 1}});
    MIX(e + (f + a), Cf{{_f, 1}, {_a, 1}, {_e, 1}});
    MIX((f + a) + a2, Cf{{_f, 1}, {_a, 1}, {_a2, 1}});
    MIX(a2 + (f + a), Cf{{_f, 1}, {_a, 1}, {_a2, 1}});
    MIX((f + a) - a2, Cf{{_f, 1}, {_a, 1}, {_a2, -1}});
    MIX(a2 - (f + a), Cf{{_f, -1}, {_a, -1}, {_a2, 1}});
    MIX((f + a) - e, Cf{{_f, 1}, {_a, 1}, {_e, -1}});
    MIX(e - (f + a), Cf{{_f, -1}, {_a, -1}, {_e, 1}});
    MIX((f + a) + f2, Cf{{_f, 1}, {_a, 1}, {_f2, 1}});
    MIX((f + a) - f2, Cf{{_f, 1}, {_a, 1}, {_f2, -1}});
    MIX(f2 - (f + a), Cf{{_f, -1}, {_a, -1}, {_f2, 1}});
    MIX((a + f) + (q + p), Cf{{_f, 1}, {_a, 1}, {_q, 1}, {_p, 1}});
    MIX(2. * (f + a) + e, Cf{{_f, 2}, {_a, 2}, {_e, 1}});
    MIX(2. * ((f + m) + m2), Cf{{_f, 2}, {_m, 2}, {_m2, 2}});
    MIX((-1.) * (2. * (h + e)), Cf{{_h, -2}, {_e, -2}});
    MIX((q + z) - z, Cf{{_q, 1}});
    MIX(I - (0.5 * (df + e)), Cf{{_I, 1}, {_df, -0.5}, {_e, -0.5}});
    MIX(samurai::make_operator_sum(f, a, a2) + a2, Cf{{_f, 1}, {_a, 1}, {_a2, 2}});
    // named sums used several times, as lvalues and constants
    auto s        = f + a;
    const auto s0 = h + m;
    MIX(s + a2, Cf{{_f, 1}, {_a, 1}, {_a2, 1}});
    MIX(s, Cf{{_f, 1}, {_a, 1}});
    MIX(a2 + s, Cf{{_f, 1}, {_a, 1}, {_a2, 1}});
    MIX(s - a2, Cf{{_f, 1}, {_a, 1}, {_a2, -1}});
    MIX(s + e, Cf{{_f, 1}, {_a, 1}, {_e, 1}});
    MIX(3. * s, Cf{{_f, 3}, {_a, 3}});
    MIX(s, Cf{{_f, 1}, {_a, 1}});
    MIX(s0 + m2, Cf{{_h, 1}, {_m, 1}, {_m2, 1}});
    MIX(m2 - s0, Cf{{_h, -1}, {_m, -1}, {_m2, 1}});
    MIX(s0, Cf{{_h, 1}, {_m, 1}});
#undef MIX
    // by direction, for sums of flux schemes
    for (std::size_t d = 0; d < D; ++d)
    {
        std::vector<Res> td{take(leaf, f(d, u)), take(leaf, h(d, u)), take(leaf, q(d, u)), take(leaf, f2(d, u))};
        CHK(c, b.near(take(leaf, (f + h)(d, u)), td, {1, 1, 0, 0}), "direction", "f + h in direction " + std::to_string(d));
        CHK(c, b.near(take(leaf, (2. * (f + q))(d, u)), td, {2, 0, 2, 0}), "direction", "2 (f + q) in direction " + std::to_string(d));
        CHK(c, b.near(take(leaf, (f + (-f2))(d, u)), td, {1, 0, 0, -1}), "direction", "f - f2 in direction " + std::to_string(d));
    }
    // the three forms of one operator
    auto lh = take(leaf, f(u)), lx = take(leaf, flux_het<F, 2>(1, false)(u)), ln = take(leaf, flux_non<F, 2>(1, LINEAR)(u));
    CHK(c, b.near(lx, {lh}, {1}), "forms", "constant- and variable-coefficient form of one operator differ");
    CHK(c, b.near(ln, {lh}, {1}), "forms", "linear and nonlinear form of one flux operator differ");
    CHK(c, b.near(take(leaf, cell_non<F, 1>(7, true)(u)), {take(leaf, a(u))}, {1}), "forms", "linear and nonlinear form of one cell operator differ");
    CHK(c, b.near(take(leaf, cell_non<F, 0>(9, true)(u)), {take(leaf, e(u))}, {1}), "forms", "linear and nonlinear form of one local operator differ");
    // terms of one kind that differ in their stencil or in their boundary fluxes
    {
        auto g = flux_hom<F, 2>(2);
        g.include_boundary_fluxes(false);
        auto fo_ = flux_hom<F, 2>(1);
        fo_.include_boundary_fluxes(false);
        auto k = flux_hom<F, 2>(2), kf = flux_hom<F, 2>(1);
        for (std::size_t d = 0; d < D; ++d)
        {
            for (std::size_t x = 0; x < 2; ++x)
            {
                k.flux_definition()[d].stencil(x, d)  = static_cast<int>(1 - x);
                kf.flux_definition()[d].stencil(x, d) = static_cast<int>(1 - x);
            }
        }
        // right = sum of the terms; left operand's setting used for both = the listed finding; anything else = violation
        auto judge = [&](const auto& sum, const Res& t1, const Res& t2, const Res& alt1, const Res& alt2, const std::string& sig, const std::string& msg)
        {
            auto got = take(leaf, sum(u));
            if (!b.near(got, {t1, t2}, {1, 1}))
            {
                CHK(c, b.near(got, {alt1, alt2}, {1, 1}), "unlike-terms", msg + " (and from the sum taken with the setting of the left operand)");
                c.finding(sig, msg);
            }
        };
        auto g0 = take(leaf, g(u)), fo0 = take(leaf, fo_(u)), k0 = take(leaf, k(u)), kf0 = take(leaf, kf(u));
        judge(f + g, terms[_f], g0, terms[_f], terms[_f2], "unlike-boundary", "the sum of two schemes of one kind, one with and one without boundary fluxes, differs from the sum of its terms");
        judge(g + f, terms[_f], g0, fo0, g0, "unlike-boundary", "the sum of two schemes of one kind, one with and one without boundary fluxes, differs from the sum of its terms");
        judge(f + k, terms[_f], k0, terms[_f], terms[_f2], "unlike-stencil", "the sum of two schemes of one kind with different stencils differs from the sum of its terms");
        judge(k + f, terms[_f], k0, kf0, k0, "unlike-stencil", "the sum of two schemes of one kind with different stencils differs from the sum of its terms");
    }
}

void mixed_family(mc::Run& run, const std::string& nm, const Forest<D>& fo)
{
    std::array<bool, D> none{};
    Space<D, Mesh> sp(fo, none, 2., aligned<D>(fo) ? -0.5 : 0.25);
    run.family(nm, sp.rule() + ", scalar and vector fields, 70 combinations of schemes of different kinds, in every grouping the library offers", sp.ids.size() * 2,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   u64 vec = dec.take(2);
                   auto lv = fo.leaves(sp.ids[dec.take(sp.ids.size())]);
                   DESC(c) << (vec ? "vector" : "scalar") << " field, leaves " << str<D>(lv);
                   auto mesh = make_mesh<Mesh, D>(sp.ref, lv);
                   LeafMap<D> lm(lv);
                   auto ref = cells_of<D>(mesh[Mesh::mesh_id_t::reference]);
                   auto go  = [&](auto&& u)
                   {
                       set_all<D>(u, ref,
                                  [&](const LCell<D>& x, std::size_t e)
                                  {
                                      return generic<D>(x, e);
                                  });
                       mixed(c, u, lm.leaf);
                   };
                   if (vec)
                   {
                       go(samurai::make_field<2>("u", mesh));
                   }
                   else
                   {
                       go(samurai::make_field<1>("u", mesh));
                   }
               });
}

// --- histories of applications ----------------------------------------------
void history_family(mc::Run& run, const std::string& nm, const Forest<D>& fo, std::size_t len)
{
    std::array<bool, D> none{};
    Space<D, Mesh> sp(fo, none, 2., aligned<D>(fo) ? -0.5 : 0.25);
    const u64 ns = 8, nmesh = std::min<u64>(3, sp.ids.size());
    run.family(nm, "all sequences of " + std::to_string(len) + " applications of 8 schemes on 3 meshes of " + sp.rule(), mc::cpow(ns * nmesh, len),
               [&](u64 id, mc::Case& c)
               {
                   using F = samurai::Field<Mesh, double, 1>;
                   auto f  = flux_hom<F, 2>(1);
                   auto w  = flux_hom<F, 4>(3);
                   auto h  = flux_het<F, 2>(4, true);
                   auto q  = flux_non<F, 2>(5, CONS);
                   auto a  = cell_lin<F, 1>(7);
                   auto m  = cell_non<F, 0>(10);
                   auto s  = f + a;
                   auto t  = 2. * h;
                   struct Ctx
                   {
                       Mesh mesh;
                       F u;
                       LSet<D> leaf;
                       std::array<Res, 8> first;
                   };
                   auto one = [&](std::size_t k, Ctx& x)
                   {
                       switch (k)
                       {
                           case 0:
                               return take(x.leaf, f(x.u));
                           case 1:
                               return take(x.leaf, w(x.u));
                           case 2:
                               return take(x.leaf, h(x.u));
                           case 3:
                               return take(x.leaf, q(x.u));
                           case 4:
                               return take(x.leaf, a(x.u));
                           case 5:
                               return take(x.leaf, m(x.u));
                           case 6:
                               return take(x.leaf, s(x.u));
                           default:
                               return take(x.leaf, t(x.u));
                       }
                   };
                   static std::vector<std::shared_ptr<Ctx>> memo;
                   if (memo.empty())
                   {
                       for (u64 k = 0; k < nmesh; ++k)
                       {
                           auto lv = fo.leaves(sp.ids[k * (sp.ids.size() - 1) / std::max<u64>(1, nmesh - 1)]);
                           auto x  = std::make_shared<Ctx>();
                           x->mesh = make_mesh<Mesh, D>(sp.ref, lv);
                           x->leaf = LeafMap<D>(lv).leaf;
                           x->u    = F("u", x->mesh);
                           set_all<D>(x->u, cells_of<D>(x->mesh[Mesh::mesh_id_t::reference]),
                                      [&](const LCell<D>& y, std::size_t e)
                                      {
                                          return generic<D>(y, e + k);
                                      });
                           for (std::size_t i = 0; i < ns; ++i)
                           {
                               // fresh schemes: the model of an isolated application
                               switch (i)
                               {
                                   case 0: x->first[i] = take(x->leaf, flux_hom<F, 2>(1)(x->u)); break;
                                   case 1: x->first[i] = take(x->leaf, flux_hom<F, 4>(3)(x->u)); break;
                                   case 2: x->first[i] = take(x->leaf, flux_het<F, 2>(4, true)(x->u)); break;
                                   case 3: x->first[i] = take(x->leaf, flux_non<F, 2>(5, CONS)(x->u)); break;
                                   case 4: x->first[i] = take(x->leaf, cell_lin<F, 1>(7)(x->u)); break;
                                   case 5: x->first[i] = take(x->leaf, cell_non<F, 0>(10)(x->u)); break;
                                   case 6: x->first[i] = take(x->leaf, (flux_hom<F, 2>(1) + cell_lin<F, 1>(7))(x->u)); break;
                                   default: x->first[i] = take(x->leaf, (2. * flux_het<F, 2>(4, true))(x->u)); break;
                               }
                           }
                           memo.push_back(x);
                       }
                   }
                   mc::Dec dec(id);
                   std::string hist;
                   for (std::size_t k = 0; k < len; ++k)
                   {
                       u64 i = dec.take(ns), x = dec.take(nmesh);
                       hist += " " + std::to_string(i) + "@" + std::to_string(x);
                       auto r = one(i, *memo[x]);
                       DESC(c) << "applications scheme@mesh:" << hist;
                       CHK(c, r == memo[x]->first[i], "history", "the last application gives a different result than on its own");
                       c.transitions(r.size());
                   }
                   c.outcome(mc::hash_str(hist));
               });
}

template <class F>
void tree_families(mc::Run& run, const std::string& tag, const Forest<D>& fo, std::size_t n, u64 lp, u64 only)
{
    tree_family<F>(run, "tree-" + tag + "-hom", fo, n, lp, std::array{flux_hom<F, 2>(1), flux_hom<F, 2>(2), flux_hom<F, 2>(3)}, only);
    tree_family<F>(run, "tree-" + tag + "-hom4", fo, n, lp, std::array{flux_hom<F, 4>(1), flux_hom<F, 4>(2), flux_hom<F, 4>(3)}, only);
    tree_family<F>(run, "tree-" + tag + "-het", fo, n, lp, std::array{flux_het<F, 2>(1, true), flux_het<F, 2>(2, false), flux_het<F, 2>(3, true)}, only);
    tree_family<F>(run, "tree-" + tag + "-non", fo, n, lp, std::array{flux_non<F, 2>(1, CONS), flux_non<F, 2>(2, PAIR), flux_non<F, 2>(3, LINEAR)}, only);
    tree_family<F>(run, "tree-" + tag + "-cell", fo, n, lp, std::array{cell_lin<F, 1>(1), cell_lin<F, 1>(2), cell_lin<F, 1>(3)}, only);
    tree_family<F>(run, "tree-" + tag + "-local", fo, n, lp, std::array{cell_lin<F, 0>(1), cell_lin<F, 0>(2), cell_lin<F, 0>(3)}, only);
    tree_family<F>(run, "tree-" + tag + "-nlocal", fo, n, lp, std::array{cell_non<F, 0>(1), cell_non<F, 0>(2), cell_non<F, 0>(3)}, only);
    tree_family<F>(run, "tree-" + tag + "-ncell", fo, n, lp, std::array{cell_non<F, 1>(1), cell_non<F, 1>(2), cell_non<F, 1>(3)}, only);
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();
    using F1     = samurai::Field<Mesh, double, 1>;
    using F2     = samurai::Field<Mesh, double, 2>;
#if DIM == 1
    mixed_family(run, "mixed-r3d2", {{0}, {3}, 0, 2});
    tree_families<F1>(run, "s2", {{0}, {2}, 0, 2}, 2, 5, 0);
    tree_families<F2>(run, "v2", {{0}, {2}, 0, 2}, 2, 5, 2);
    tree_families<F1>(run, "s3", {{0}, {2}, 0, 1}, 3, T ? 5 : 3, 1);
    history_family(run, "history", {{0}, {3}, 0, 2}, T ? 4 : 3);
    if (T)
    {
        mixed_family(run, "mixed-r3d3", {{0}, {3}, 0, 3});
    }
#elif DIM == 2
    mixed_family(run, "mixed-r22d1", {{0, 0}, {2, 2}, 0, 1});
    mixed_family(run, "mixed-r11d2", {{0, 0}, {1, 1}, 0, 2});
    tree_families<F1>(run, "s2", {{0, 0}, {2, 1}, 0, 1}, 2, 3, 0);
    if (T)
    {
        tree_families<F2>(run, "v2", {{0, 0}, {2, 1}, 0, 1}, 2, 3, 2);
        history_family(run, "history", {{0, 0}, {2, 1}, 0, 1}, 3);
    }
#else
    mixed_family(run, "mixed-r211d1", {{0, 0, 0}, {2, 1, 1}, 0, 1});
    if (T)
    {
        mixed_family(run, "mixed-r221d1", {{0, 0, 0}, {2, 2, 1}, 0, 1});
    }
#endif
    return run.finish();
}
