// Q01: quadratures over cells, cell means and error norms.
#include "sam_fv.hpp"
#include <samurai/mr/mesh.hpp>
#include <samurai/numeric/error.hpp>
#include <samurai/numeric/gauss_legendre.hpp>
#include <samurai/uniform_mesh.hpp>
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;
using Mesh = samurai::MRMesh<samurai::MRConfig<D>>;
using Expo = std::array<int, D>;

template <class P>
double mono(const P& x, const Expo& e)
{
    double r = 1;
    for (std::size_t d = 0; d < D; ++d)
    {
        for (int k = 0; k < e[d]; ++k)
        {
            r *= x[d];
        }
    }
    return r;
}

// integral of the monomial over the box lo + [0, h]^D, and a bound of its size
std::pair<long double, long double> exact(const std::array<double, D>& lo, double h, const Expo& e)
{
    long double r = 1, b = 1;
    for (std::size_t d = 0; d < D; ++d)
    {
        long double a0 = lo[d], a1 = a0 + static_cast<long double>(h), p0 = a0, p1 = a1, m = 1;
        for (int k = 0; k < e[d]; ++k)
        {
            p0 *= a0;
            p1 *= a1;
            m *= std::max(std::abs(a0), std::abs(a1));
        }
        r *= (p1 - p0) / (e[d] + 1);
        b *= m * h;
    }
    return {r, b};
}

// every exponent vector whose components are at most deg (in three dimensions and for high degrees: the two smallest and the two largest)
std::vector<Expo> exponents(int deg)
{
    std::vector<int> one;
    for (int k = 0; k <= deg; ++k)
    {
        if (D == 1 || (D == 2 && deg <= 15) || deg <= 5 || k < 2 || k > deg - 2)
        {
            one.push_back(k);
        }
    }
    std::vector<Expo> out;
    for (u64 i = 0; i < mc::cpow(one.size(), D); ++i)
    {
        mc::Dec dec(i);
        Expo e;
        for (auto& x : e)
        {
            x = one[dec.take(one.size())];
        }
        out.push_back(e);
    }
    return out;
}

template <class E>
std::string estr(const E& e)
{
    std::string s;
    for (auto k : e)
    {
        s += (s.empty() ? "" : ",") + std::to_string(k);
    }
    return "(" + s + ")";
}

template <std::size_t P>
void quad_case(mc::Case& c, const samurai::Cell<D, samurai::default_config::interval_t>& cell, const std::array<double, D>& lo, double h, const std::vector<Expo>& ex)
{
    samurai::GaussLegendre<P> gl;
    for (std::size_t k = 0; k < ex.size(); ++k)
    {
        auto& e = ex[k];
        auto [w, b] = exact(lo, h, e);
        double got  = gl.template quadrature<1>(cell,
                                               [&](const auto& x)
                                               {
                                                   return mono(x, e);
                                               });
        CHK(c, std::abs(got - static_cast<double>(w)) <= 1e-12 * static_cast<double>(b) + 1e-300, "quadrature", "degree " + std::to_string(P) + ", monomial " + estr(e) + ": " + std::to_string(got) + " instead of " + std::to_string(static_cast<double>(w)));
        auto& e2       = ex[(k + ex.size() / 2) % ex.size()];
        auto [w2, b2]  = exact(lo, h, e2);
        auto v         = gl.template quadrature<2>(cell,
                                          [&](const auto& x)
                                          {
                                              return xt::xtensor_fixed<double, xt::xshape<2>>{mono(x, e), mono(x, e2)};
                                          });
        CHK(c, std::abs(v[0] - static_cast<double>(w)) <= 1e-12 * static_cast<double>(b) + 1e-300 && std::abs(v[1] - static_cast<double>(w2)) <= 1e-12 * static_cast<double>(b2) + 1e-300, "quadrature-vector",
            "degree " + std::to_string(P) + ", monomials " + estr(e) + " and " + estr(e2));
        c.transitions(2);
    }
}

template <std::size_t P>
void quad_family(mc::Run& run, int lmax, int w)
{
    if constexpr (P < 40)
    {
        auto ex   = exponents(static_cast<int>(P));
        if (D == 3 && P >= 10 && !run.thorough())
        {
            w = 0;
        }
        u64 cells = mc::cpow(static_cast<u64>(2 * w + 1), D);
        run.family("quad_" + std::to_string(P), "rule of degree " + std::to_string(P) + ": " + std::to_string(ex.size()) + " monomials, levels 0-" + std::to_string(lmax) + ", all cells within " + std::to_string(w) + " of the origin, two frames",
                   cells * static_cast<u64>(lmax + 1) * 2,
                   [&](u64 id, mc::Case& c)
                   {
                       mc::Dec dec(id);
                       typename samurai::Cell<D, samurai::default_config::interval_t>::coords_t org;
                       typename samurai::Cell<D, samurai::default_config::interval_t>::indices_t idx;
                       bool fr    = dec.take(2);
                       double sc  = fr ? 0.75 : 1.;
                       int level  = static_cast<int>(dec.take(static_cast<u64>(lmax + 1)));
                       double h   = sc / (1 << level);
                       std::array<double, D> lo;
                       for (std::size_t d = 0; d < D; ++d)
                       {
                           org[d] = fr ? 0.5 - static_cast<double>(d) : 0.;
                           idx[d] = static_cast<int>(dec.take(static_cast<u64>(2 * w + 1))) - w;
                           lo[d]  = org[d] + h * idx[d];
                       }
                       DESC(c) << "level " << level << " cell " << idx << " origin " << org;
                       samurai::Cell<D, samurai::default_config::interval_t> cell(org, sc, static_cast<std::size_t>(level), idx, 0);
                       quad_case<P>(c, cell, lo, h, ex);
                       c.outcome(mc::mix(mc::hash_str(estr(idx)), static_cast<u64>(level * 2 + fr)));
                   });
        quad_family<P + 1>(run, lmax, w);
    }
}

double func(const std::array<double, 3>& x, std::size_t e)
{
    return 0.3 + x[0] * (1.5 - x[0]) + 0.7 * x[1] - 0.25 * x[2] * x[0] + static_cast<double>(e) * (x[0] - x[1] + 0.125);
}

template <class P>
std::array<double, 3> pt(const P& x)
{
    std::array<double, 3> r{};
    for (std::size_t d = 0; d < D; ++d)
    {
        r[d] = x[d];
    }
    return r;
}

template <std::size_t n, class P>
auto vec(const P& x)
{
    if constexpr (n == 1)
    {
        return func(pt(x), 0);
    }
    else
    {
        xt::xtensor_fixed<double, xt::xshape<n>> v;
        for (std::size_t e = 0; e < n; ++e)
        {
            v[e] = func(pt(x), e);
        }
        return v;
    }
}

template <class F, class M>
void norm_case(mc::Case& c, M& mesh, const LeafMap<D>& lm, const Dom<D>& dom, int pat)
{
    constexpr std::size_t n = F::size;
    F u("u", mesh);
    std::string who = std::string(n == 1 ? "scalar" : F::is_soa ? "vector (soa)" : "vector") + " field";
    set_all<D>(u, cells_of<D>(mesh[M::mesh_id_t::reference]),
               [&](const LCell<D>&, std::size_t e)
               {
                   return 1e3 + static_cast<double>(e); // ghosts do not count
               });
    long double err = 0, sol = 0;
    std::size_t at  = 0;
    for (auto& x : lm.leaf)
    {
        double h = dom.h(x.level);
        std::array<double, 3> ce{};
        long double vol = 1;
        for (std::size_t d = 0; d < D; ++d)
        {
            ce[d] = dom.org[d] + h * (x.p[d] + 0.5);
            vol *= h;
        }
        for (std::size_t e = 0; e < n; ++e)
        {
            double f = func(ce, e);
            // the error lies in every leaf, or in one leaf only
            double d = pat == 0 ? 0.1 * generic<D>(x, e) : (at == static_cast<std::size_t>(pat - 1) ? 1. + static_cast<double>(e) : 0.);
            fat(u, cidx<D>(mesh, x), e) = f + d;
            err += vol * d * d;
            sol += vol * static_cast<long double>(f) * f;
        }
        ++at;
    }
    auto before = values<D>(u);
    auto fn     = [](const auto& x)
    {
        return vec<n>(x);
    };
    double wa = static_cast<double>(std::sqrt(err)), wr = static_cast<double>(std::sqrt(err) / std::sqrt(sol));
    double a = samurai::L2_error(u, fn), a2 = samurai::L2_error<false>(u, fn), r = samurai::L2_error<true>(u, fn);
    CHK(c, std::abs(a - wa) <= 1e-10 * wa && a2 == a, "norm", who + ": error norm " + std::to_string(a) + " instead of " + std::to_string(wa));
    CHK(c, std::abs(r - wr) <= 1e-10 * wr, "relative", who + ": relative error norm " + std::to_string(r) + " instead of " + std::to_string(wr));
    CHK(c, values<D>(u) == before, "input", who + ": the field was modified");
    c.transitions(lm.leaf.size());
}

template <std::size_t n, bool soa, std::size_t P, class M>
void means_case(mc::Case& c, M& mesh, const LeafMap<D>& lm, const Dom<D>& dom)
{
    auto ex         = exponents(static_cast<int>(P));
    std::string who = std::string(n == 1 ? "scalar" : soa ? "vector (soa)" : "vector") + " field, rule of degree " + std::to_string(P);
    for (std::size_t k = 0; k < ex.size(); ++k)
    {
        auto fn = [&](const auto& x)
        {
            if constexpr (n == 1)
            {
                return mono(x, ex[k]);
            }
            else
            {
                xt::xtensor_fixed<double, xt::xshape<n>> v;
                for (std::size_t e = 0; e < n; ++e)
                {
                    v[e] = mono(x, ex[(k + e) % ex.size()]);
                }
                return v;
            }
        };
        samurai::GaussLegendre<P> gl;
        auto u = samurai::make_field<n, soa>("u", mesh, fn, gl);
        for (auto& x : lm.leaf)
        {
            double h = dom.h(x.level), vol = 1;
            std::array<double, D> lo;
            for (std::size_t d = 0; d < D; ++d)
            {
                lo[d] = dom.org[d] + h * x.p[d];
                vol *= h;
            }
            for (std::size_t e = 0; e < n; ++e)
            {
                auto [w, b] = exact(lo, h, ex[(k + e) % ex.size()]);
                double got  = fat(u, cidx<D>(mesh, x), e);
                CHK(c, std::abs(got - static_cast<double>(w) / vol) <= 1e-12 * static_cast<double>(b) / vol, "mean",
                    who + ": mean of monomial " + estr(ex[(k + e) % ex.size()]) + " over leaf " + str<D>(x) + " is " + std::to_string(got) + " instead of " + std::to_string(static_cast<double>(w) / vol));
                c.transitions(1);
            }
        }
    }
}

void mesh_family(mc::Run& run, const std::string& nm, const Forest<D>& fo, int npat)
{
    std::array<bool, D> none{};
    Space<D, Mesh> sp(fo, none, 2., aligned<D>(fo) ? -0.5 : 0.25);
    const u64 np = static_cast<u64>(npat) + 1;
    run.family(nm, sp.rule() + ", error in all leaves or in one of the first " + std::to_string(npat - 1) + " (error norms), all monomials up to degree 3 per direction (cell means), scalar and vector fields in both layouts", sp.ids.size() * np,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   int pat = static_cast<int>(dec.take(np));
                   auto lv = fo.leaves(sp.ids[dec.take(sp.ids.size())]);
                   DESC(c) << "pattern " << pat << ", leaves " << str<D>(lv);
                   auto mesh = make_mesh<Mesh, D>(sp.ref, lv);
                   LeafMap<D> lm(lv);
                   auto dom = sp.dom(lm);
                   if (pat == npat)
                   {
                       means_case<1, false, 0>(c, mesh, lm, dom);
                       means_case<1, false, 3>(c, mesh, lm, dom);
                       means_case<2, false, 2>(c, mesh, lm, dom);
                       means_case<3, true, 1>(c, mesh, lm, dom);
                   }
                   else
                   {
                       norm_case<samurai::Field<Mesh, double, 1>>(c, mesh, lm, dom, pat);
                       norm_case<samurai::Field<Mesh, double, 2>>(c, mesh, lm, dom, pat);
                       norm_case<samurai::Field<Mesh, double, 3, true>>(c, mesh, lm, dom, pat);
                   }
                   c.outcome(mc::hash_str(str<D>(lv) + std::to_string(pat)));
               });
}

template <std::size_t o>
void order_case(mc::Case& c, double C, double h1, double h2)
{
    double e1 = samurai::theoretical_error_bound<o>(C, h1), e2 = samurai::theoretical_error_bound<o>(C, h2);
    double w1 = C, w2 = C;
    for (std::size_t k = 0; k < o; ++k)
    {
        w1 *= h1;
        w2 *= h2;
    }
    CHK(c, std::abs(e1 - w1) <= 1e-12 * w1 && std::abs(e2 - w2) <= 1e-12 * w2, "bound", "bound of order " + std::to_string(o));
    CHK(c, std::abs(samurai::compute_error_bound_hidden_constant<o>(h1, e1) - C) <= 1e-12 * C, "constant", "hidden constant of order " + std::to_string(o));
    double p = samurai::convergence_order(h1, e1, h2, e2);
    CHK(c, std::abs(p - static_cast<double>(o)) <= 1e-9, "order", "convergence order " + std::to_string(p) + " instead of " + std::to_string(o));
    c.transitions(3);
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();
    quad_family<0>(run, D == 1 ? 4 : (D == 2 ? 2 : (T ? 2 : 1)), D == 1 ? 4 : (D == 2 ? (T ? 4 : 2) : 1));
    run.family("order", "orders 0-5, all pairs of eight mesh sizes, three constants", 8 * 8 * 3,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   double hs[] = {1., 0.5, 0.25, 0.125, 0.1, 0.01, 2., 0.375}, cs[] = {1., 0.3, 40.};
                   double h1 = hs[dec.take(8)], h2 = hs[dec.take(8)], C = cs[dec.take(3)];
                   DESC(c) << "sizes " << h1 << " " << h2 << " constant " << C;
                   if (h1 == h2)
                   {
                       c.outcome(0);
                       return;
                   }
                   order_case<0>(c, C, h1, h2);
                   order_case<1>(c, C, h1, h2);
                   order_case<2>(c, C, h1, h2);
                   order_case<3>(c, C, h1, h2);
                   order_case<5>(c, C, h1, h2);
                   c.outcome(mc::mix(static_cast<u64>(1e6 * h1), static_cast<u64>(1e6 * h2)));
               });
#if DIM == 1
    mesh_family(run, "r3d2", {{0}, {3}, 0, 2}, 8);
    mesh_family(run, "r2d3", {{-1}, {2}, 0, 3}, 8);
#elif DIM == 2
    mesh_family(run, "r1d2", {{0, 0}, {1, 1}, 0, 2}, 6);
    mesh_family(run, "r2d1", {{-1, 1}, {2, 2}, 1, 1}, 6);
    mesh_family(run, "r2d2", {{-1, 0}, {2, 1}, 0, 2}, 6);
    if (T)
    {
        mesh_family(run, "r1d3", {{0, 0}, {1, 1}, 0, 3}, 4);
        mesh_family(run, "r4d2", {{-1, 0}, {2, 2}, 0, 2}, 2);
    }
#else
    mesh_family(run, "r1d1", {{0, 0, 0}, {1, 1, 1}, 1, 1}, 4);
    mesh_family(run, "r2d1", {{-1, 0, 1}, {2, 1, 1}, 0, 1}, 4);
    mesh_family(run, "r4d1", {{0, -1, 0}, {2, 2, 1}, 0, 1}, 4);
    if (T)
    {
        mesh_family(run, "r8d1", {{0, 0, 0}, {2, 2, 2}, 0, 1}, 4);
        mesh_family(run, "r1d2", {{0, 0, 0}, {1, 1, 1}, 0, 2}, 3);
    }
#endif
    return run.finish();
}
