// N04: periodic directions behave as if the domain were wrapped.
#include <algorithm>
#include <functional>
#include <limits>
#include <map>

#include "sam_field.hpp"
#include <samurai/bc.hpp>
#include <samurai/mr/adapt.hpp>
#include <samurai/schemes/fv.hpp>
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;

// position in the domain of which p is the periodic image
LCell<D> wrap(const Forest<D>& fo, const std::array<bool, D>& per, LCell<D> c)
{
    for (std::size_t d = 0; d < D; ++d)
    {
        if (per[d])
        {
            int n = fo.width(d, c.level), l = fo.start(d, c.level);
            c.p[d] = ((c.p[d] - l) % n + n) % n + l;
        }
    }
    return c;
}

LCell<D> shifted(const Forest<D>& fo, const std::array<bool, D>& per, LCell<D> c, const Pos<D>& by)
{
    for (std::size_t d = 0; d < D; ++d)
    {
        c.p[d] += c.level >= fo.L0 ? by[d] * (1 << (c.level - fo.L0)) : by[d] / (1 << (fo.L0 - c.level));
    }
    return wrap(fo, per, c);
}

template <class F>
void bcs(F& f)
{
    if constexpr (F::size == 1)
    {
        samurai::make_bc<samurai::Dirichlet<1>>(f, 0.75);
    }
    else
    {
        samurai::make_bc<samurai::Neumann<1>>(f, 0.5, -0.25);
    }
}

enum What
{
    GHOSTS,
    ADAPT,
    SCHEME
};

template <class F>
void image_check(mc::Case& c, const Forest<D>& fo, const std::array<bool, D>& per, F& f, const LSet<D>& ref, const std::string& who)
{
    auto& mesh = f.mesh();
    for (auto& x : ref)
    {
        if (x.level < fo.L0)
        {
            continue;
        }
        auto y = wrap(fo, per, x);
        if (y == x)
        {
            continue;
        }
        bool far = false; // beyond the ghost width: reserved storage, not part of the guarantee
        for (std::size_t d = 0; d < D; ++d)
        {
            int l = fo.start(d, x.level), n = fo.width(d, x.level), w = static_cast<int>(F::mesh_t::config::ghost_width);
            far = far || x.p[d] < l - w || x.p[d] >= l + n + w;
        }
        if (far)
        {
            continue;
        }
        bool in = fo.inside(y.level, y.p); // otherwise it is also outside in a non-periodic direction
        bool has = ref.count(y) > 0;
        CHK(c, has || !in, "image", who + ": ghost " + str<D>(x) + " is the image of " + str<D>(y) + ", which has no storage");
        if (!has || !in)
        {
            continue;
        }
        for (std::size_t e = 0; e < F::size; ++e)
        {
            double a = fat(f, cidx<D>(mesh, x), e), b = fat(f, cidx<D>(mesh, y), e);
            CHK(c, a == b, "ghost", who + ": periodic ghost " + str<D>(x) + " component " + std::to_string(e) + " holds " + std::to_string(a) + ", the cell " + str<D>(y) + " it stands for holds " + std::to_string(b));
        }
    }
}

// leaves next to a change of level across a periodic face of the domain
LSet<D> seam(const Forest<D>& fo, const std::array<bool, D>& per, const LeafMap<D>& lm)
{
    LSet<D> s;
    for (auto& x : lm.leaf)
    {
        for (std::size_t d = 0; d < D; ++d)
        {
            for (int sg : {-1, 1})
            {
                LCell<D> y = x;
                y.p[d] += sg;
                if (!per[d] || fo.inside(y.level, y.p))
                {
                    continue;
                }
                y = wrap(fo, per, y);
                if (!lm.leaf.count(y))
                {
                    s.insert(x);
                }
            }
        }
    }
    return s;
}

template <class Mesh>
void family(mc::Run& run, const std::string& nm, const Forest<D>& fo, int what, const std::vector<std::pair<double, double>>& par, u64 masks = 0)
{
    if (!aligned<D>(fo))
    {
        std::fprintf(stderr, "periodic forests need whole level-0 cells\n");
        std::exit(3);
    }
    std::vector<u64> ms;
    for (u64 m = 1; m < (1u << D); ++m)
    {
        if (masks == 0 || (masks >> m & 1))
        {
            ms.push_back(m);
        }
    }
    std::vector<Mesh> refs;
    for (u64 m : ms)
    {
        refs.push_back(ref_mesh<Mesh, D>(fo, per_mask<D>(m), 2., -0.5));
    }
    struct Unit
    {
        u64 f, mi;
        Pos<D> by;
    };
    std::vector<Unit> units;
    for (u64 mi = 0; mi < ms.size(); ++mi)
    {
        auto per = per_mask<D>(ms[mi]);
        for (u64 f = 0; f < fo.count(); ++f)
        {
            if (!graded<D>(fo, LeafMap<D>(fo.leaves(f)), per))
            {
                continue;
            }
            Pos<D> lo{}, hi;
            for (std::size_t d = 0; d < D; ++d)
            {
                hi[d] = per[d] ? fo.ext[d] : 1;
            }
            bool any = false;
            for_box<D>(lo, hi,
                       [&](const Pos<D>& by)
                       {
                           bool odd = false; // details of the coarsest leaves are computed on pairs of them
                           for (auto b : by)
                           {
                               odd = odd || (b % 2 && fo.L0 > 0 && what == ADAPT);
                           }
                           if (by == lo || odd)
                           {
                               return;
                           }
                           any = true;
                           units.push_back({f, mi, by});
                       });
            if (!any && what == GHOSTS)
            {
                units.push_back({f, mi, lo});
            }
        }
    }
    run.family(nm,
               "all graded forests of " + std::to_string(volume<D>(fo.ext)) + " roots of depth " + std::to_string(fo.depth) + " from level " + std::to_string(fo.L0) + ", " + std::to_string(ms.size())
                   + " periodicity masks, all shifts by whole coarsest cells, " + (what == GHOSTS ? "ghost update" : what == ADAPT ? "adaptation" : "explicit schemes") + " with "
                   + std::to_string(par.size()) + " parameter sets",
               units.size() * par.size(),
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   auto& un   = units[dec.take(units.size())];
                   auto [p, q] = par[dec.take(par.size())];
                   auto per   = per_mask<D>(ms[un.mi]);
                   auto lv    = fo.leaves(un.f);
                   std::vector<LCell<D>> lw;
                   std::map<LCell<D>, LCell<D>> back;
                   for (auto& x : lv)
                   {
                       auto y = shifted(fo, per, x, un.by);
                       lw.push_back(y);
                       back[y] = x;
                   }
                   std::sort(lw.begin(), lw.end());
                   DESC(c) << "leaves " << str<D>(lv) << "periodic mask " << ms[un.mi] << " shift " << str<D>(LCell<D>{0, un.by}) << " parameters " << p << " " << q;
                   Mesh ma = make_mesh<Mesh, D>(refs[un.mi], lv);
                   Mesh mb = make_mesh<Mesh, D>(refs[un.mi], lw);
                   LSet<D> ra = cells_of<D>(ma[Mesh::mesh_id_t::reference]), rb = cells_of<D>(mb[Mesh::mesh_id_t::reference]);
                   LeafMap<D> la(lv), lb(lw);
                   auto data = [&](const LCell<D>& x, std::size_t e)
                   {
                       if (what == ADAPT && p == 0.5) // localised
                       {
                           return x == lv[static_cast<std::size_t>(q) % lv.size()] ? 1. : 0.;
                       }
                       return generic<D>(x, e) + 0.5;
                   };
                   auto go = [&](auto tag)
                   {
                       constexpr std::size_t N = decltype(tag)::value;
                       auto a                  = samurai::make_field<double, N>("a", ma);
                       auto b                  = samurai::make_field<double, N>("b", mb);
                       bcs(a);
                       bcs(b);
                       set_all<D>(a, ra, [&](const LCell<D>& x, std::size_t e) { return la.leaf.count(x) ? data(x, e) : 1e3; });
                       set_all<D>(b, rb, [&](const LCell<D>& x, std::size_t e) { return lb.leaf.count(x) ? data(back.at(x), e) : -3e4; });
                       const double tol = 1e-11;
                       if (what == ADAPT)
                       {
                           auto A = samurai::make_MRAdapt(a);
                           auto B = samurai::make_MRAdapt(b);
                           A(p == 0.5 ? 1e-3 : p, p == 0.5 ? 1. : q);
                           B(p == 0.5 ? 1e-3 : p, p == 0.5 ? 1. : q);
                           auto ca = cells_of<D>(ma[Mesh::mesh_id_t::cells]), cb = cells_of<D>(mb[Mesh::mesh_id_t::cells]);
                           LSet<D> want;
                           for (auto& x : ca)
                           {
                               want.insert(shifted(fo, per, x, un.by));
                           }
                           CHK(c, want == cb, "adapt-mesh", "adapted meshes differ by more than the shift: " + diff<D>(cb, want));
                           c.outcome(hash<D>(ca));
                           if (want == cb)
                           {
                               for (auto& x : ca)
                               {
                                   auto y = shifted(fo, per, x, un.by);
                                   for (std::size_t e = 0; e < N; ++e)
                                   {
                                       double u = fat(a, cidx<D>(ma, x), e), v = fat(b, cidx<D>(mb, y), e);
                                       CHK(c, mc::close(u, v, tol), "adapt-value", "after adaptation cell " + str<D>(x) + " holds " + std::to_string(u) + ", its shift " + str<D>(y) + " holds " + std::to_string(v));
                                   }
                               }
                           }
                           c.transitions(ca.size());
                           return;
                       }
                       samurai::update_ghost_mr(a);
                       samurai::update_ghost_mr(b);
                       image_check(c, fo, per, a, ra, "field");
                       image_check(c, fo, per, b, rb, "shifted field");
                       u64 h = 5;
                       if (what == GHOSTS)
                       {
                           for (auto& x : ra)
                           {
                               if (x.level < fo.L0 || !fo.inside(x.level, x.p))
                               {
                                   continue;
                               }
                               auto y = shifted(fo, per, x, un.by);
                               if (!rb.count(y))
                               {
                                   continue;
                               }
                               for (std::size_t e = 0; e < N; ++e)
                               {
                                   double u = fat(a, cidx<D>(ma, x), e), v = fat(b, cidx<D>(mb, y), e);
                                   CHK(c, mc::close(u, v, tol), "shift", "cell " + str<D>(x) + " holds " + std::to_string(u) + ", its shift " + str<D>(y) + " holds " + std::to_string(v));
                                   h = mc::mix(h, static_cast<u64>(std::llround(u * 4096)));
                               }
                           }
                       }
                       else
                       {
                           samurai::VelocityVector<D> vel;
                           for (std::size_t d = 0; d < D; ++d)
                           {
                               vel[d] = d == 0 ? p : q + 0.25 * static_cast<double>(d);
                           }
                           auto up  = samurai::make_convection_upwind<decltype(a)>(vel);
                           auto dif = samurai::make_diffusion_order2<decltype(a)>(1.);
                           auto sa = seam(fo, per, la), sb = seam(fo, per, lb);
                           int k  = 0;
                           auto cmp = [&](auto&& r, auto&& s, const char* name)
                           {
                               for (auto& x : lv)
                               {
                                   auto y = shifted(fo, per, x, un.by);
                                   for (std::size_t e = 0; e < N; ++e)
                                   {
                                       double u = fat(r, cidx<D>(ma, x), e), v = fat(s, cidx<D>(mb, y), e);
                                       if (mc::close(u, v, 1e-10))
                                       {
                                           h = mc::mix(h, static_cast<u64>(std::llround(u * 4096)));
                                           continue;
                                       }
                                       std::string m = std::string(name) + " at cell " + str<D>(x) + " gives " + std::to_string(u) + ", at its shift " + str<D>(y) + " " + std::to_string(v);
                                       if (sa.count(x) || sb.count(y))
                                       {
                                           c.finding("seam-jump", m);
                                       }
                                       else
                                       {
                                           c.fail("scheme", m);
                                       }
                                   }
                               }
                               ++k;
                           };
                           cmp(up(a), up(b), "upwind convection");
                           cmp(dif(a), dif(b), "diffusion");
                       }
                       c.outcome(h);
                       c.transitions(ra.size());
                   };
                   go(std::integral_constant<std::size_t, 1>{});
                   if (what == GHOSTS)
                   {
                       go(std::integral_constant<std::size_t, 2>{});
                   }
               });
}

template <std::size_t W, std::size_t P = 1>
using MRm = samurai::MRMesh<samurai::MRConfig<D, W, 1, P>>;

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();
    using V      = std::vector<std::pair<double, double>>;
    V one{{1., 0.5}}, vel{{1., 0.5}, {-1., -0.75}, {1., -0.75}, {-1, 0.5}}, ad{{0.1, 1.}, {3.97, 0.}, {0.5, 0}, {0.5, 1}};
    if constexpr (D == 1)
    {
        V vel1{{1., 0.}, {-1., 0.}};
        V ad1{{0.1, 1.}, {1.03, 0.}, {3.97, 0.}, {8.03, 1.}, {0.5, 0}, {0.5, 1}, {0.5, 2}, {0.5, 3}, {0.5, 4}};
        family<MRm<1>>(run, "ghosts_r4d2", {ext3<D>(0), ext3<D>(4), 2, 2}, GHOSTS, one);
        family<MRm<1>>(run, "ghosts_r2d3", {ext3<D>(0), ext3<D>(2), 1, T ? 4 : 3}, GHOSTS, one);
        family<MRm<1>>(run, "ghosts_r1d4", {ext3<D>(0), ext3<D>(1), 0, T ? 5 : 4}, GHOSTS, one);
        family<MRm<2>>(run, "ghosts_w2", {ext3<D>(0), ext3<D>(4), 2, 2}, GHOSTS, one);
        family<MRm<2, 2>>(run, "ghosts_p2", {ext3<D>(0), ext3<D>(4), 2, 2}, GHOSTS, one);
        family<MRm<1>>(run, "adapt_r4d2", {ext3<D>(0), ext3<D>(4), 2, 2}, ADAPT, ad1);
        family<MRm<1>>(run, "adapt_r2d3", {ext3<D>(0), ext3<D>(2), 0, 3}, ADAPT, ad1);
        family<MRm<2, 2>>(run, "adapt_p2", {ext3<D>(0), ext3<D>(4), 2, 2}, ADAPT, ad1);
        family<MRm<1>>(run, "scheme_r4d2", {ext3<D>(0), ext3<D>(4), 2, 2}, SCHEME, vel1);
        family<MRm<1>>(run, "scheme_r2d3", {ext3<D>(0), ext3<D>(2), 1, 3}, SCHEME, vel1);
    }
    if constexpr (D == 2)
    {
        family<MRm<1>>(run, "ghosts_r4d1", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 1}, GHOSTS, one);
        family<MRm<1>>(run, "ghosts_r2d2", {ext3<D>(0, 0), ext3<D>(2, 1), 0, 2}, GHOSTS, one);
        family<MRm<1>>(run, "ghosts_r6d1", {ext3<D>(0, 0), ext3<D>(2, 3), 0, 1}, GHOSTS, one);
        family<MRm<2>>(run, "ghosts_w2", {ext3<D>(0, 0), ext3<D>(4, 2), 1, 1}, GHOSTS, one, T ? 0 : 8);
        family<MRm<1>>(run, "adapt_r4d1", {ext3<D>(0, 0), ext3<D>(2, 2), 0, 1}, ADAPT, ad);
        family<MRm<1>>(run, "adapt_r2d2", {ext3<D>(0, 0), ext3<D>(1, 2), 0, 2}, ADAPT, ad, T ? 0 : 8);
        family<MRm<1>>(run, "scheme_r4d1", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 1}, SCHEME, vel);
        family<MRm<1>>(run, "scheme_r4d1L2", {ext3<D>(0, 0), ext3<D>(4, 2), 1, 1}, SCHEME, one, T ? 0 : 8);
        family<MRm<1>>(run, "scheme_r2d2", {ext3<D>(0, 0), ext3<D>(2, 1), 0, 2}, SCHEME, one);
        family<MRm<1>>(run, "adapt_r6d1", {ext3<D>(0, 0), ext3<D>(3, 2), 0, 1}, ADAPT, ad);
        family<MRm<1>>(run, "adapt_r8d1", {ext3<D>(0, 0), ext3<D>(4, 2), 1, 1}, ADAPT, ad, T ? 0 : 2 | 8);
        if (T)
        {
            family<MRm<1>>(run, "adapt_r4d2", {ext3<D>(0, 0), ext3<D>(2, 2), 0, 2}, ADAPT, one, 8);
            family<MRm<1>>(run, "ghosts_r4d2", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 2}, GHOSTS, one, 8);
        }
    }
    if constexpr (D == 3)
    {
        family<MRm<1>>(run, "ghosts_r2d1", {ext3<D>(0, 0, 0), ext3<D>(2, 1, 1), 0, 1}, GHOSTS, one);
        family<MRm<1>>(run, "ghosts_r4d1", {ext3<D>(0, 0, 0), ext3<D>(1, 2, 2), 0, 1}, GHOSTS, one, T ? 0 : 1 << 7 | 1 << 3 | 1 << 5);
        family<MRm<1>>(run, "adapt_r4d1", {ext3<D>(0, 0, 0), ext3<D>(2, 1, 2), 0, 1}, ADAPT, one, T ? 0 : 1 << 7);
        family<MRm<1>>(run, "scheme_r4d1", {ext3<D>(0, 0, 0), ext3<D>(2, 2, 1), 0, 1}, SCHEME, one, T ? 0 : 1 << 7 | 1 << 1);
        family<MRm<1>>(run, "ghosts_r8d1", {ext3<D>(0, 0, 0), ext3<D>(2, 2, 2), 1, 1}, GHOSTS, one, T ? 0 : 1 << 7 | 1 << 2);
        family<MRm<1>>(run, "adapt_r8d1", {ext3<D>(0, 0, 0), ext3<D>(2, 2, 2), 0, 1}, ADAPT, V{{3.97, 0.}}, T ? 0 : 1 << 7);
    }
    return run.finish();
}
