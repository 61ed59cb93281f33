// N02: the ghost update fills every ghost inside the domain from the leaves (and boundary conditions) only.
#include <algorithm>
#include <functional>
#include <limits>
#include <map>

#include "sam_field.hpp"
#include <samurai/amr/mesh.hpp>
#include <samurai/bc.hpp>
#include <samurai/mr/adapt.hpp>
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;

// cell wholly inside the domain, at least at the level below the coarsest leaves
bool whole_inside(const Forest<D>& fo, const LCell<D>& c)
{
    if (c.level < fo.L0 - 1)
    {
        return false;
    }
    for (std::size_t d = 0; d < D; ++d)
    {
        if (c.level >= fo.L0)
        {
            if (!fo.inside(c.level, c.p))
            {
                return false;
            }
        }
        else
        {
            int f = 1 << (fo.L0 - c.level);
            if (c.p[d] * f < fo.lo[d] || (c.p[d] + 1) * f > fo.lo[d] + fo.ext[d])
            {
                return false;
            }
        }
    }
    return true;
}

// how far outside the domain a cell lies in direction d (0: inside)
int outside(const Forest<D>& fo, const LCell<D>& c, std::size_t d)
{
    int sh = c.level - fo.L0;
    int lo = sh >= 0 ? fo.lo[d] * (1 << sh) : (fo.lo[d] >> -sh);
    int hi = sh >= 0 ? (fo.lo[d] + fo.ext[d]) * (1 << sh) : -((-(fo.lo[d] + fo.ext[d])) >> -sh);
    return c.p[d] < lo ? lo - c.p[d] : c.p[d] >= hi ? c.p[d] - hi + 1 : 0;
}

// Known finding: around a corner, only the ghosts of the diagonals are ever filled. With a prediction stencil of two cells or more,
// ghosts inside the domain are predicted from the others. This is the set of the cells that depend on them.
LSet<D> tainted(const Forest<D>& fo, const std::array<bool, D>& per, const LSet<D>& ref, const LeafMap<D>& lm, int order)
{
    LSet<D> bad;
    if (order < 2 || D == 1)
    {
        return bad;
    }
    std::map<int, std::vector<LCell<D>>> lev;
    for (auto& x : ref)
    {
        lev[x.level].push_back(x);
    }
    auto image = [&](LCell<D> y) // inside in the periodic directions
    {
        for (std::size_t d = 0; d < D; ++d)
        {
            if (per[d] && y.level >= fo.L0)
            {
                int n = fo.ext[d] << (y.level - fo.L0), l = fo.lo[d] * (1 << (y.level - fo.L0));
                y.p[d] = ((y.p[d] - l) % n + n) % n + l;
            }
        }
        return y;
    };
    auto corner = [&](const LCell<D>& y)
    {
        int nb = 0, mn = 1 << 30, mx = 0;
        for (std::size_t d = 0; d < D; ++d)
        {
            int o = per[d] ? 0 : outside(fo, y, d);
            if (o)
            {
                ++nb;
                mn = std::min(mn, o);
                mx = std::max(mx, o);
            }
        }
        return nb >= 2 && mn != mx;
    };
    for (auto& [l, v] : lev)
    {
        for (auto& x : v)
        {
            if (!whole_inside(fo, x) || lm.leaf.count(x) || lm.finer_below(x))
            {
                continue;
            }
            for_nb<D>(order,
                      [&](const Pos<D>& o)
                      {
                          LCell<D> y{l - 1, {}};
                          for (std::size_t d = 0; d < D; ++d)
                          {
                              y.p[d] = (x.p[d] >> 1) + o[d];
                          }
                          bool t = corner(y);
                          y      = image(y);
                          for (std::size_t d = 0; d < D; ++d) // an outer ghost takes its value from the inner cells next to it
                          {
                              int k = outside(fo, y, d);
                              y.p[d] += k == 0 ? 0 : (outside(fo, LCell<D>{y.level, [&] { auto q = y.p; q[d] += k; return q; }()}, d) == 0 ? k : -k);
                          }
                          if (t || bad.count(y))
                          {
                              bad.insert(x);
                          }
                      });
        }
    }
    return bad;
}

enum BcKind
{
    NEUMANN,
    DIRICHLET,
    NBC
};

template <class F>
void attach(F& f, u64 kind, double v)
{
    if constexpr (F::size == 1)
    {
        kind == NEUMANN ? (void)samurai::make_bc<samurai::Neumann<1>>(f, 0.) : (void)samurai::make_bc<samurai::Dirichlet<1>>(f, v);
    }
    else
    {
        kind == NEUMANN ? (void)samurai::make_bc<samurai::Neumann<1>>(f, 0., 0.) : (void)samurai::make_bc<samurai::Dirichlet<1>>(f, v, v);
    }
}

// mean over the leaves of the subtree below c
double mean_of(const LSet<D>& leaf, const std::function<double(const LCell<D>&)>& val, const LCell<D>& c, int lmax)
{
    if (leaf.count(c))
    {
        return val(c);
    }
    if (c.level > lmax)
    {
        return std::nan("");
    }
    double s = 0;
    for (auto& k : children<D>(c))
    {
        s += mean_of(leaf, val, k, lmax);
    }
    return s / (1 << D);
}

struct Filling
{
    u64 k;
    std::vector<LCell<D>> lv;

    double operator()(const LCell<D>& c, std::size_t e) const
    {
        if (k == 0)
        {
            return generic<D>(c, e);
        }
        if (k == 1)
        {
            return 3.;
        }
        return (lv[static_cast<std::size_t>(k - 2)] == c) ? 1. + static_cast<double>(e) : 0.;
    }
};

template <bool MR, class F, class... R>
void update(F& f, R&... r)
{
    if constexpr (MR)
    {
        samurai::update_ghost_mr(f, r...);
    }
    else
    {
        samurai::update_ghost(f, r...);
    }
}

template <bool MR, class F>
void check_field(mc::Case& c, const Forest<D>& fo, F& f, const LeafMap<D>& lm, const Filling& fill, const LSet<D>& ref, const LSet<D>& bad, const std::string& who, bool cst)
{
    constexpr int order = static_cast<int>(F::mesh_t::config::prediction_order);
    auto& mesh          = f.mesh();
    for (std::size_t e = 0; e < F::size; ++e)
    {
        auto leafval = [&](const LCell<D>& x)
        {
            return fill(x, e);
        };
        for (auto& x : ref)
        {
            if (!whole_inside(fo, x))
            {
                continue;
            }
            const double got = fat(f, cidx<D>(mesh, x), e);
            auto at          = [&]
            {
                return who + ": cell " + str<D>(x) + " component " + std::to_string(e) + " holds " + std::to_string(got);
            };
            if (lm.leaf.count(x))
            {
                CHK(c, got == fill(x, e), "leaf-changed", at() + ", leaf value changed from " + std::to_string(fill(x, e)));
                continue;
            }
            if (cst && bad.count(x))
            {
                if (!mc::close(got, 3., 1e-12))
                {
                    c.finding("corner-ghosts", at() + " for a constant field 3");
                }
            }
            else if (cst)
            {
                CHK(c, mc::close(got, 3., 1e-12), "constant", at() + " for a constant field 3");
            }
            if (lm.finer_below(x))
            {
                double want = mean_of(lm.leaf, leafval, x, lm.lmax);
                CHK(c, mc::close(got, want, 1e-11), "projection", at() + " expected the mean of the leaves it covers " + std::to_string(want));
            }
            else if (x.level > 0)
            {
                bool known = true;
                auto get   = [&](const Pos<D>& q)
                {
                    LCell<D> y{x.level - 1, q};
                    if (!ref.count(y))
                    {
                        known = false;
                        return 0.;
                    }
                    return static_cast<double>(fat(f, cidx<D>(mesh, y), e));
                };
                double a = predict<D>(order, x.p, get);
                double b = predict<D>(order, x.p, get, true);
                CHK(c, known, "missing", at() + ": the coarse neighbourhood it is predicted from has no storage");
                CHK(c, !known || mc::close(got, a, 1e-10) || mc::close(got, b, 1e-10) || (bad.count(x) && std::isnan(got) && std::isnan(a)), "prediction",
                    at() + " expected the prediction " + std::to_string(a) + " from the coarser level");
            }
        }
    }
}

template <class Mesh, bool MR>
void family(mc::Run& run, const std::string& nm, const Forest<D>& fo, bool perio, u64 nbasis, u64 nkind)
{
    const u64 np = perio && aligned<D>(fo) ? 1u << D : 1u;
    std::vector<Mesh> refs;
    for (u64 m = 0; m < np; ++m)
    {
        if constexpr (MR)
        {
            refs.push_back(ref_mesh<Mesh, D>(fo, per_mask<D>(m), 2., -0.5));
        }
        else
        {
            refs.push_back(ref_mesh_cl<Mesh, D>(fo, 2., -0.5));
        }
    }
    std::vector<u64> start, fid;
    u64 tot = 0;
    for (u64 f = 0; f < fo.count() * np; ++f)
    {
        auto lv = fo.leaves(f / np);
        if (graded<D>(fo, LeafMap<D>(lv), per_mask<D>(f % np)))
        {
            start.push_back(tot);
            fid.push_back(f);
            tot += (2 + std::min<u64>(nbasis, lv.size())) * nkind;
        }
    }
    run.family(nm,
               "all graded forests of " + std::to_string(volume<D>(fo.ext)) + " roots of depth " + std::to_string(fo.depth) + " from level " + std::to_string(fo.L0) + ", " + std::to_string(np)
                   + " periodicity masks; generic, constant and up to " + std::to_string(nbasis) + " basis fields; " + std::to_string(nkind)
                   + " boundary conditions; scalar, AOS and SOA fields updated together and alone, twice, from three stale ghost contents",
               tot,
               [&](u64 id, mc::Case& c)
               {
                   auto it  = std::upper_bound(start.begin(), start.end(), id) - 1;
                   u64 f    = fid[static_cast<std::size_t>(it - start.begin())];
                   auto lv  = fo.leaves(f / np);
                   mc::Dec dec(id - *it);
                   u64 kind = dec.take(nkind);
                   Filling fill{dec.v, lv};
                   LeafMap<D> lm(lv);
                   DESC(c) << "leaves " << str<D>(lv) << "periodic mask " << f % np << " bc " << kind << " filling " << fill.k;
                   Mesh mesh  = make_mesh<Mesh, D>(refs[f % np], lv);
                   LSet<D> ref = cells_of<D>(mesh[Mesh::mesh_id_t::reference]);
                   auto u  = samurai::make_field<double, 1>("u", mesh);
                   auto u2 = samurai::make_field<double, 1>("u2", mesh);
                   auto v  = samurai::make_field<double, 2>("v", mesh);
                   auto w  = samurai::make_field<double, 2, true>("w", mesh);
                   attach(u, kind, 3.);
                   attach(u2, kind, 3.);
                   attach(v, kind, 3.);
                   attach(w, kind, 3.);
                   auto load = [&](auto& fld, double stale)
                   {
                       set_all<D>(fld, ref,
                                  [&](const LCell<D>& x, std::size_t e)
                                  {
                                      return lm.leaf.count(x) ? fill(x, e) : stale + (stale == 0 ? 0. : generic<D>(x, 5));
                                  });
                   };
                   load(u, 0.);
                   load(v, 1e4);
                   load(w, std::nan(""));
                   load(u2, -2e5);
                   update<MR>(u, v, w);
                   update<MR>(u2);
                   const LSet<D> bad = tainted(fo, per_mask<D>(f % np), ref, lm, static_cast<int>(Mesh::config::prediction_order));
                   const bool cst = fill.k == 1;
                   check_field<MR>(c, fo, u, lm, fill, ref, bad, "scalar field updated with others", cst);
                   check_field<MR>(c, fo, v, lm, fill, ref, bad, "AOS field updated with others", cst);
                   check_field<MR>(c, fo, w, lm, fill, ref, bad, "SOA field updated with others", cst);
                   check_field<MR>(c, fo, u2, lm, fill, ref, bad, "scalar field updated alone", cst);
                   u64 h    = 11;
                   auto all = values<D>(u);
                   for (auto& x : ref)
                   {
                       if (!whole_inside(fo, x))
                       {
                           continue;
                       }
                       auto i = cidx<D>(mesh, x);
                       if (bad.count(x))
                       {
                           if (!mc::close(fat(u, i, 0), fat(u2, i, 0), 1e-9))
                           {
                               c.finding("corner-ghosts", "cell " + str<D>(x) + " depends on what the ghosts held before");
                           }
                           continue;
                       }
                       CHK(c, mc::close(fat(u, i, 0), fat(u2, i, 0), 1e-9), "stale",
                           "cell " + str<D>(x) + " depends on what the ghosts held before: " + std::to_string(fat(u, i, 0)) + " / " + std::to_string(fat(u2, i, 0)));
                       CHK(c, mc::close(fat(u, i, 0), fat(v, i, 0), 1e-9) && mc::close(fat(v, i, 1), fat(w, i, 1), 1e-9) && mc::close(fat(v, i, 0), fat(w, i, 0), 1e-9), "layout",
                           "cell " + str<D>(x) + " differs between layouts or depends on stale ghosts");
                       h = mc::mix(h, static_cast<u64>(std::llround(std::isnan(fat(u, i, 0)) ? 0. : fat(u, i, 0) * 4096)));
                   }
                   update<MR>(u, v, w);
                   for (auto& [x, val] : all)
                   {
                       if (whole_inside(fo, x) && !bad.count(x))
                       {
                           CHK(c, mc::close(fat(u, cidx<D>(mesh, x), 0), val[0], 1e-12), "idempotent", "a second update changes cell " + str<D>(x));
                       }
                   }
                   c.outcome(h);
                   c.transitions(ref.size());
               });
}

template <std::size_t W, std::size_t P>
using MRm = samurai::MRMesh<samurai::MRConfig<D, W, 1, P>>;
using AM  = samurai::amr::Mesh<samurai::amr::Config<D>>;

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();
    if constexpr (D == 1)
    {
        family<MRm<1, 1>, true>(run, "mr_r2d3", {ext3<D>(0), ext3<D>(2), 1, 3}, true, 99, NBC);
        family<MRm<1, 1>, true>(run, "mr_r3d2", {ext3<D>(-2), ext3<D>(3), 2, 2}, true, 99, NBC);
        family<MRm<1, 1>, true>(run, "mr_L0", {ext3<D>(0), ext3<D>(2), 0, 3}, true, 99, NBC);
        family<MRm<2, 1>, true>(run, "mr_w2", {ext3<D>(0), ext3<D>(T ? 4 : 2), 1, T ? 3 : 2}, true, 99, NBC);
        family<MRm<2, 2>, true>(run, "mr_p2", {ext3<D>(0), ext3<D>(4), 2, 2}, true, T ? 99 : 4, NBC);
        family<AM, false>(run, "amr_r3d3", {ext3<D>(-1), ext3<D>(3), 1, T ? 3 : 2}, false, 99, NBC);
        if (T)
        {
            family<MRm<1, 1>, true>(run, "mr_r2d4", {ext3<D>(0), ext3<D>(2), 1, 4}, true, 2, 1);
        }
    }
    if constexpr (D == 2)
    {
        family<MRm<1, 1>, true>(run, "mr_r4d1", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 1}, true, 99, NBC);
        family<MRm<1, 1>, true>(run, "mr_r2d2", {ext3<D>(-1, -1), ext3<D>(2, 1), 2, 2}, true, 99, NBC);
        family<MRm<1, 1>, true>(run, "mr_p_r2d2", {ext3<D>(0, 0), ext3<D>(2, 1), 0, 2}, true, T ? 99 : 4, 1);
        family<MRm<2, 1>, true>(run, "mr_w2", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 1}, true, T ? 99 : 2, NBC);
        family<MRm<2, 2>, true>(run, "mr_p2", {ext3<D>(0, 0), ext3<D>(4, 2), 1, 1}, true, T ? 4 : 0, 1);
        family<AM, false>(run, "amr_r1d2", {ext3<D>(-1, 0), ext3<D>(1, 1), 1, 2}, false, 99, NBC);
        family<AM, false>(run, "amr_r2d2", {ext3<D>(-1, 0), ext3<D>(2, 1), 1, 2}, false, 99, NBC);
        family<MRm<1, 1>, true>(run, "mr_r4d2", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 2}, T, T ? 2 : 0, 1);
    }
    if constexpr (D == 3)
    {
        family<MRm<1, 1>, true>(run, "mr_r2d1", {ext3<D>(0, 0, 0), ext3<D>(2, 1, 1), 1, 1}, false, 99, NBC);
        family<MRm<1, 1>, true>(run, "mr_r1d2", {ext3<D>(-1, 0, 0), ext3<D>(1, 1, 1), 1, 2}, false, T ? 4 : 0, 1);
        family<MRm<1, 1>, true>(run, "mr_r8d1", {ext3<D>(0, 0, 0), ext3<D>(2, 2, 2), 1, 1}, T, T ? 4 : 0, T ? NBC : 1);
        family<AM, false>(run, "amr_r2d1", {ext3<D>(0, -1, 0), ext3<D>(1, 2, 1), 1, 1}, false, 99, NBC);
    }
    return run.finish();
}
