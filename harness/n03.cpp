// N03: boundary conditions set exactly the ghosts behind the faces they are attached to.
#include <algorithm>
#include <functional>
#include <limits>
#include <map>

#include "sam_field.hpp"
#include <samurai/amr/mesh.hpp>
#include <samurai/bc.hpp>
#include <samurai/mr/adapt.hpp>
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;

constexpr double SC  = 2.;
constexpr double ORG = -0.5;

enum Type
{
    DIR1,
    NEU1,
    DIR2,
    DIR3,
    DIR4
};

int order_of(int t)
{
    return t == DIR1 || t == NEU1 ? 1 : t == DIR2 ? 2 : t == DIR3 ? 3 : 4;
}

struct Face // a face of the boundary at the root level
{
    Pos<D> p;
    std::size_t d;
    int s;
    bool operator<(const Face& o) const
    {
        return std::tie(p, d, s) < std::tie(o.p, o.d, o.s);
    }
};

struct Region
{
    enum Kind
    {
        EVERYWHERE,
        DIRECTIONS,
        COORDS
    } kind;
    std::vector<std::pair<std::size_t, int>> dirs;
    std::set<Face> faces;

    bool covers(const Face& f) const
    {
        if (kind == EVERYWHERE)
        {
            return true;
        }
        if (kind == DIRECTIONS)
        {
            return std::find(dirs.begin(), dirs.end(), std::make_pair(f.d, f.s)) != dirs.end();
        }
        return faces.count(f) > 0;
    }

    std::string str() const
    {
        std::string r = kind == EVERYWHERE ? "everywhere" : kind == DIRECTIONS ? "directions" : "faces";
        for (auto& [d, s] : dirs)
        {
            r += (s > 0 ? " +" : " -") + std::to_string(d);
        }
        for (auto& f : faces)
        {
            r += " " + sam::str<D>(LCell<D>{0, f.p}) + (f.s > 0 ? "+" : "-") + std::to_string(f.d);
        }
        return r;
    }
};

struct Spec
{
    int type;
    const Region* region;
    bool func;
    double v;
};

std::vector<Face> boundary_faces(const Forest<D>& fo)
{
    std::vector<Face> out;
    Pos<D> hi;
    for (std::size_t d = 0; d < D; ++d)
    {
        hi[d] = fo.lo[d] + fo.ext[d];
    }
    for_box<D>(fo.lo, hi,
               [&](const Pos<D>& p)
               {
                   for (std::size_t d = 0; d < D; ++d)
                   {
                       if (p[d] == fo.lo[d])
                       {
                           out.push_back({p, d, -1});
                       }
                       if (p[d] == hi[d] - 1)
                       {
                           out.push_back({p, d, 1});
                       }
                   }
               });
    return out;
}

std::vector<Region> regions(const Forest<D>& fo, int axis, bool pairs, u64 nfaces)
{
    std::vector<Region> r;
    std::vector<std::pair<std::size_t, int>> ds;
    for (std::size_t d = 0; d < D; ++d)
    {
        if (axis < 0 || axis == static_cast<int>(d))
        {
            ds.push_back({d, -1});
            ds.push_back({d, 1});
        }
    }
    if (axis < 0)
    {
        r.push_back({Region::EVERYWHERE, {}, {}});
    }
    for (auto& a : ds)
    {
        r.push_back({Region::DIRECTIONS, {a}, {}});
    }
    if (pairs)
    {
        for (std::size_t i = 0; i < ds.size(); ++i)
        {
            for (std::size_t j = 0; j < ds.size(); ++j)
            {
                if (i != j)
                {
                    r.push_back({Region::DIRECTIONS, {ds[i], ds[j]}, {}});
                }
            }
        }
        if (D > 1 && axis < 0)
        {
            r.push_back({Region::DIRECTIONS, {ds[0], ds[3], ds[1]}, {}});
        }
    }
    auto fs = boundary_faces(fo);
    fs.erase(std::remove_if(fs.begin(), fs.end(), [&](auto& f) { return axis >= 0 && static_cast<int>(f.d) != axis; }), fs.end());
    if (fs.size() <= nfaces) // all sets of root faces
    {
        for (u64 m = 1; m < (1u << fs.size()); ++m)
        {
            Region g{Region::COORDS, {}, {}};
            for (std::size_t i = 0; i < fs.size(); ++i)
            {
                if (m >> i & 1)
                {
                    g.faces.insert(fs[i]);
                }
            }
            r.push_back(g);
        }
    }
    else if (nfaces > 0) // single faces, and all but one
    {
        for (auto& f : fs)
        {
            r.push_back({Region::COORDS, {}, {f}});
            std::set<Face> rest(fs.begin(), fs.end());
            rest.erase(f);
            r.push_back({Region::COORDS, {}, rest});
        }
    }
    return r;
}

samurai::DirectionVector<D> dirvec(std::size_t d, int s)
{
    samurai::DirectionVector<D> v;
    v.fill(0);
    v[d] = s;
    return v;
}

// the value prescribed on the face of cell x in direction (d, s), component e
double prescribed(const Spec& sp, const LCell<D>& x, std::size_t d, int s, std::size_t e, const std::array<double, D>& fc)
{
    if (!sp.func)
    {
        return sp.v + 0.25 * static_cast<double>(e);
    }
    double r = sp.v + 0.25 * static_cast<double>(e) + s * (3. + static_cast<double>(d)) + 0.01 * x.level;
    for (std::size_t i = 0; i < D; ++i)
    {
        r += (0.7 + 0.9 * static_cast<double>(i)) * fc[i] + 0.001 * x.p[i];
    }
    return r;
}

template <class BC, class F>
void attach(F& f, const Spec& sp, const Forest<D>& fo)
{
    using IV = typename F::interval_t;
    auto go  = [&](auto* bc)
    {
        auto& rg = *sp.region;
        if (rg.kind == Region::DIRECTIONS)
        {
            if (rg.dirs.size() == 1)
            {
                bc->on(dirvec(rg.dirs[0].first, rg.dirs[0].second));
            }
            else if (rg.dirs.size() == 2)
            {
                bc->on(dirvec(rg.dirs[0].first, rg.dirs[0].second), dirvec(rg.dirs[1].first, rg.dirs[1].second));
            }
            else
            {
                bc->on(dirvec(rg.dirs[0].first, rg.dirs[0].second), dirvec(rg.dirs[1].first, rg.dirs[1].second), dirvec(rg.dirs[2].first, rg.dirs[2].second));
            }
        }
        else if (rg.kind == Region::COORDS)
        {
            const double h = SC / (1 << fo.L0);
            auto inside    = [&rg, fo, h](const xt::xtensor_fixed<double, xt::xshape<D>>& x)
            {
                for (auto& f : rg.faces)
                {
                    bool in = true;
                    for (std::size_t i = 0; i < D; ++i)
                    {
                        double y = (x[i] - ORG) / h; // in root cells
                        in       = in && (i == f.d ? std::abs(y - (f.p[i] + (f.s > 0 ? 1 : 0))) < 1e-6 : (y > f.p[i] && y < f.p[i] + 1));
                    }
                    if (in)
                    {
                        return true;
                    }
                }
                return false;
            };
            bc->on(samurai::CoordsRegion<D, IV>(inside));
        }
    };
    if (sp.func)
    {
        go(samurai::make_bc<BC>(f,
                                typename samurai::FunctionBc<F>::function_t(
                                    [sp](const auto& dir, const auto& cell, const auto& coords)
                                    {
                                        std::size_t d = 0;
                                        while (dir[d] == 0)
                                        {
                                            ++d;
                                        }
                                        LCell<D> x{static_cast<int>(cell.level), {}};
                                        std::array<double, D> fc;
                                        for (std::size_t i = 0; i < D; ++i)
                                        {
                                            x.p[i] = cell.indices[i];
                                            fc[i]  = coords[i];
                                        }
                                        if constexpr (F::size == 1)
                                        {
                                            return prescribed(sp, x, d, dir[d], 0, fc);
                                        }
                                        else
                                        {
                                            xt::xtensor_fixed<double, xt::xshape<F::size>> v;
                                            for (std::size_t e = 0; e < F::size; ++e)
                                            {
                                                v[e] = prescribed(sp, x, d, dir[d], e, fc);
                                            }
                                            return v;
                                        }
                                    })));
    }
    else if constexpr (F::size == 1)
    {
        go(samurai::make_bc<BC>(f, sp.v));
    }
    else
    {
        go(samurai::make_bc<BC>(f, sp.v, sp.v + 0.25));
    }
}

// value at abscissa x of the polynomial through (-p+1/2 ... -1/2, u) and (0, v), the boundary being at 0, cells of width 1
double lagrange(const std::vector<double>& in, double v, double x) // in[0]: cell next to the boundary
{
    std::vector<double> xs{0.}, ys{v};
    for (std::size_t i = 0; i < in.size(); ++i)
    {
        xs.push_back(-0.5 - static_cast<double>(i));
        ys.push_back(in[i]);
    }
    double r = 0;
    for (std::size_t i = 0; i < xs.size(); ++i)
    {
        double w = ys[i];
        for (std::size_t j = 0; j < xs.size(); ++j)
        {
            if (j != i)
            {
                w *= (x - xs[j]) / (xs[i] - xs[j]);
            }
        }
        r += w;
    }
    return r;
}

template <bool MR, int MAXO, class F>
void set_bcs(F& f, const std::vector<Spec>& bcs, const Forest<D>& fo)
{
    for (auto& b : bcs)
    {
        switch (b.type)
        {
            case DIR1:
                attach<samurai::Dirichlet<1>>(f, b, fo);
                break;
            case NEU1:
                attach<samurai::Neumann<1>>(f, b, fo);
                break;
            default:
                if constexpr (MAXO >= 2)
                {
                    if (b.type == DIR2)
                    {
                        attach<samurai::Dirichlet<2>>(f, b, fo);
                    }
                }
                if constexpr (MAXO >= 4)
                {
                    if (b.type == DIR3)
                    {
                        attach<samurai::Dirichlet<3>>(f, b, fo);
                    }
                    if (b.type == DIR4)
                    {
                        attach<samurai::Dirichlet<4>>(f, b, fo);
                    }
                }
        }
    }
}

template <class F>
void check(mc::Case& c, const Forest<D>& fo, const std::array<bool, D>& per, F& f, const LeafMap<D>& lm, const LSet<D>& ref, const std::vector<Spec>& bcs,
           const std::function<double(const LCell<D>&, std::size_t)>& fill, const std::function<double(const LCell<D>&, std::size_t)>& stale, const std::string& who, bool updated = true)
{
    auto& mesh = f.mesh();
    auto val   = [&](const LCell<D>& x, std::size_t e)
    {
        return static_cast<double>(fat(f, cidx<D>(mesh, x), e));
    };
    u64 h = 3;
    for (auto& x : ref)
    {
        if (x.level < fo.L0 || !fo.inside(x.level, x.p))
        {
            continue;
        }
        const bool leaf = lm.leaf.count(x) > 0;
        if (leaf)
        {
            for (std::size_t e = 0; e < F::size; ++e)
            {
                CHK(c, val(x, e) == fill(x, e), "interior", who + ": leaf " + str<D>(x) + " changed from " + std::to_string(fill(x, e)) + " to " + std::to_string(val(x, e)));
            }
        }
        for (std::size_t d = 0; d < D; ++d)
        {
            for (int s : {-1, 1})
            {
                const int lim = fo.start(d, x.level) + (s > 0 ? fo.width(d, x.level) - 1 : 0);
                if (per[d] || x.p[d] != lim)
                {
                    continue;
                }
                Face face{shr<D>(x.p, x.level - fo.L0), d, s};
                const Spec* b = nullptr;
                for (auto& q : bcs)
                {
                    if (q.region->covers(face))
                    {
                        b = &q; // the last one wins
                    }
                }
                auto at = [&](int k)
                {
                    LCell<D> y = x;
                    y.p[d] += s * k;
                    return y;
                };
                auto where = [&](const LCell<D>& y, std::size_t e)
                {
                    return who + ": ghost " + str<D>(y) + " component " + std::to_string(e) + " behind " + (leaf ? "leaf " : "ghost ") + str<D>(x);
                };
                if (!b)
                {
                    if (leaf && updated)
                    {
                        for (std::size_t e = 0; e < F::size; ++e)
                        {
                            double got = val(at(1), e);
                            CHK(c, got == stale(at(1), e) || mc::close(got, fill(x, e), 1e-12), "only",
                                where(at(1), e) + " has no boundary condition but became " + std::to_string(got) + " (was " + std::to_string(stale(at(1), e)) + ", cell "
                                    + std::to_string(fill(x, e)) + ")");
                        }
                    }
                    continue;
                }
                const int p  = order_of(b->type);
                bool all     = true;
                for (int k = 1; k <= p; ++k)
                {
                    all = all && ref.count(at(k)) && ref.count(at(1 - k));
                }
                CHK(c, all || !leaf, "storage", where(at(p), 0) + ": no storage for the stencil of the condition");
                if (!all)
                {
                    continue;
                }
                std::array<double, D> fc;
                const double dx = SC / (1 << x.level);
                for (std::size_t i = 0; i < D; ++i)
                {
                    fc[i] = ORG + dx * (x.p[i] + (i == d ? (s > 0 ? 1. : 0.) : 0.5));
                }
                for (std::size_t e = 0; e < F::size; ++e)
                {
                    const double v = prescribed(*b, x, d, s, e, fc);
                    if (b->type == NEU1)
                    {
                        double got = val(at(1), e), want = val(x, e) + dx * v;
                        CHK(c, mc::close(got, want, 1e-11), leaf ? "neumann" : "neumann-ghost", where(at(1), e) + " is " + std::to_string(got) + " expected " + std::to_string(want));
                        continue;
                    }
                    std::vector<double> in;
                    for (int k = 0; k < p; ++k)
                    {
                        in.push_back(val(at(-k), e));
                    }
                    for (int k = 1; k <= p; ++k)
                    {
                        double got = val(at(k), e), want = lagrange(in, v, k - 0.5);
                        CHK(c, mc::close(got, want, 1e-10), (leaf ? "dirichlet" : "dirichlet-ghost") + std::to_string(p),
                            where(at(k), e) + " layer " + std::to_string(k) + " is " + std::to_string(got) + " expected " + std::to_string(want));
                    }
                }
                h = mc::mix(h, static_cast<u64>(std::llround(val(at(1), 0) * 4096)));
            }
        }
    }
    c.outcome(h);
    c.transitions(ref.size());
}

template <bool MR, class F>
void update(F& f)
{
    if constexpr (MR)
    {
        samurai::update_ghost_mr(f);
    }
    else
    {
        samurai::update_ghost(f);
    }
}

struct Opt
{
    int axis       = -1;    // conditions in this axis only
    bool pairs     = true;  // regions of two directions
    u64 nfaces     = 4;     // coordinate regions
    int seq        = 1;     // number of conditions attached
    bool func      = true;  // also values from a function
    u64 kinds      = 3;     // field kinds
    bool perio     = true;
};

template <class Mesh, bool MR, int MAXO>
void family(mc::Run& run, const std::string& nm, const Forest<D>& fo, const std::vector<int>& types, Opt o)
{
    const u64 np = o.perio && MR && aligned<D>(fo) ? (1u << D) - 1 : 1u; // all directions periodic: nothing to check
    std::vector<Mesh> refs;
    for (u64 m = 0; m < np; ++m)
    {
        if constexpr (MR)
        {
            refs.push_back(ref_mesh<Mesh, D>(fo, per_mask<D>(m), SC, ORG));
        }
        else
        {
            refs.push_back(ref_mesh_cl<Mesh, D>(fo, SC, ORG));
        }
    }
    const auto regs = regions(fo, o.axis, o.pairs, o.nfaces);
    const u64 nv    = o.func ? 2 : 1;
    const u64 ns    = regs.size() * types.size() * nv;
    u64 nseq        = 1;
    for (int i = 0; i < o.seq; ++i)
    {
        nseq *= ns;
    }
    std::vector<u64> fid;
    for (u64 f = 0; f < fo.count() * np; ++f)
    {
        if (graded<D>(fo, LeafMap<D>(fo.leaves(f / np)), per_mask<D>(f % np)))
        {
            fid.push_back(f);
        }
    }
    run.family(nm,
               "all graded forests of " + std::to_string(volume<D>(fo.ext)) + " roots of depth " + std::to_string(fo.depth) + " from level " + std::to_string(fo.L0) + ", " + std::to_string(np)
                   + " periodicity masks, all sequences of " + std::to_string(o.seq) + " conditions out of " + std::to_string(ns) + " (" + std::to_string(regs.size()) + " regions, "
                   + std::to_string(types.size()) + " types, " + std::to_string(nv) + " kinds of value), " + std::to_string(o.kinds) + " field layouts; the field and its copies",
               fid.size() * nseq * o.kinds,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   u64 f    = fid[dec.take(fid.size())];
                   u64 kind = dec.take(o.kinds);
                   std::vector<Spec> bcs;
                   for (int i = 0; i < o.seq; ++i)
                   {
                       bool fn  = dec.take(nv);
                       int t    = types[dec.take(types.size())];
                       auto& rg = regs[dec.take(regs.size())];
                       bcs.push_back({t, &rg, fn, 1.375 + 2.0625 * i});
                   }
                   auto per = per_mask<D>(f % np);
                   auto lv  = fo.leaves(f / np);
                   LeafMap<D> lm(lv);
                   auto spec = [&]
                   {
                       std::string t;
                       for (auto& b : bcs)
                       {
                           t += "; type " + std::to_string(b.type) + (b.func ? " function" : " constant") + " on " + b.region->str();
                       }
                       return t;
                   };
                   DESC(c) << "leaves " << str<D>(lv) << "periodic mask " << f % np << " field kind " << kind << spec();
                   Mesh mesh  = make_mesh<Mesh, D>(refs[f % np], lv);
                   LSet<D> rs = cells_of<D>(mesh[Mesh::mesh_id_t::reference]);
                   auto fill  = [](const LCell<D>& x, std::size_t e)
                   {
                       return generic<D>(x, e) + 0.125;
                   };
                   auto stale = [](const LCell<D>& x, std::size_t e)
                   {
                       return 500. + generic<D>(x, e + 9);
                   };
                   auto go = [&](auto u)
                   {
                       auto load = [&](auto& w)
                       {
                           set_all<D>(w, rs,
                                      [&](const LCell<D>& x, std::size_t e)
                                      {
                                          return lm.leaf.count(x) ? fill(x, e) : stale(x, e);
                                      });
                       };
                       load(u);
                       set_bcs<MR, MAXO>(u, bcs, fo);
                       auto a = u; // copies made before the update
                       auto b = u;
                       set_bcs<MR, MAXO>(b, bcs, fo);
                       update<MR>(u);
                       check(c, fo, per, u, lm, rs, bcs, fill, stale, "field");
                       update<MR>(a);
                       check(c, fo, per, a, lm, rs, bcs, fill, stale, "copy");
                       b = a; // assignment replaces the conditions
                       load(b);
                       update<MR>(b);
                       check(c, fo, per, b, lm, rs, bcs, fill, stale, "assigned field");
                       CHK(c, b.get_bc().size() == bcs.size(), "assign", "assignment leaves " + std::to_string(b.get_bc().size()) + " conditions");
                       // changing the copy's conditions leaves the original alone
                       if constexpr (decltype(u)::size == 1)
                       {
                           samurai::make_bc<samurai::Dirichlet<1>>(b, 77.);
                       }
                       load(u);
                       update<MR>(u);
                       check(c, fo, per, u, lm, rs, bcs, fill, stale, "field after its copy got more conditions");
                   };
                   if (kind == 0)
                   {
                       go(samurai::make_field<double, 1>("u", mesh));
                   }
                   else if (kind == 1)
                   {
                       go(samurai::make_field<double, 2>("v", mesh));
                   }
                   else
                   {
                       go(samurai::make_field<double, 2, true>("w", mesh));
                   }
               });
}

template <std::size_t W>
using MRm = samurai::MRMesh<samurai::MRConfig<D, W>>;
using AM  = samurai::amr::Mesh<samurai::amr::Config<D>>;

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();
    Opt o;
    if constexpr (D == 1)
    {
        family<MRm<1>, true, 1>(run, "w1", {ext3<D>(0), ext3<D>(2), 1, 3}, {DIR1, NEU1}, o);
        Opt o2 = o;
        o2.seq = 2;
        family<MRm<1>, true, 1>(run, "w1_seq2", {ext3<D>(0), ext3<D>(2), 1, 2}, {DIR1, NEU1}, o2);
        o2.kinds = T ? 3 : 1;
        family<MRm<2>, true, 2>(run, "w2_seq2", {ext3<D>(-2), ext3<D>(3), 1, T ? 3 : 2}, {DIR1, NEU1, DIR2}, o2);
        family<MRm<4>, true, 4>(run, "w4_seq2", {ext3<D>(0), ext3<D>(4), 2, T ? 2 : 1}, {DIR1, NEU1, DIR2, DIR3, DIR4}, o2);
        family<MRm<4>, true, 4>(run, "w4", {ext3<D>(0), ext3<D>(4), 2, 2}, {DIR1, NEU1, DIR2, DIR3, DIR4}, o);
        family<AM, false, 1>(run, "amr", {ext3<D>(-1), ext3<D>(3), 1, 2}, {DIR1, NEU1}, o);
        if (T)
        {
            o2.seq = 3;
            family<MRm<2>, true, 2>(run, "w2_seq3", {ext3<D>(0), ext3<D>(2), 1, 2}, {DIR1, NEU1, DIR2}, o2);
        }
    }
    if constexpr (D == 2)
    {
        Opt o8    = o;
        o8.nfaces = 8;
        o8.kinds  = T ? 3 : 1;
        family<MRm<1>, true, 1>(run, "w1_r4d1", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 1}, {DIR1, NEU1}, T ? o8 : o);
        family<MRm<1>, true, 1>(run, "w1_r2d2", {ext3<D>(-1, 1), ext3<D>(1, 2), 1, T ? 2 : 1}, {DIR1, NEU1}, o);
        family<MRm<1>, true, 1>(run, "w1_r1d2", {ext3<D>(0, 0), ext3<D>(1, 1), 0, 2}, {DIR1, NEU1}, o);
        Opt o2   = o;
        o2.seq   = 2;
        o2.kinds = 1;
        o2.pairs = T;
        o2.func  = T;
        family<MRm<1>, true, 1>(run, "w1_seq2", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 1}, {DIR1, NEU1}, o2);
        Opt od    = o;
        od.nfaces = 0;
        od.pairs  = T;
        od.kinds  = T ? 3 : 2;
        family<MRm<2>, true, 2>(run, "w2_r4d1", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 1}, {DIR1, NEU1, DIR2}, od);
        Opt ox  = o;
        ox.axis = 0;
        family<MRm<4>, true, 4>(run, "w4_x", {ext3<D>(0, 0), ext3<D>(4, 1), 2, 1}, {DIR3, DIR4}, ox);
        ox.axis = 1;
        family<MRm<4>, true, 4>(run, "w4_y", {ext3<D>(0, 0), ext3<D>(1, 4), 2, 1}, {DIR3, DIR4}, ox);
        family<AM, false, 1>(run, "amr", {ext3<D>(-1, 0), ext3<D>(2, 1), 1, T ? 2 : 1}, {DIR1, NEU1}, o);
    }
    if constexpr (D == 3)
    {
        Opt od    = o;
        od.kinds  = T ? 3 : 1;
        od.nfaces = 1;
        family<MRm<1>, true, 1>(run, "w1_r2d1", {ext3<D>(0, 0, 0), ext3<D>(2, 1, 1), 0, 1}, {DIR1, NEU1}, od);
        od.perio = false;
        family<MRm<1>, true, 1>(run, "w1_r4d1", {ext3<D>(-1, 0, 0), ext3<D>(1, 2, 2), 1, 1}, {DIR1, NEU1}, od);
        Opt ow    = od;
        ow.nfaces = 0;
        ow.pairs  = false;
        family<MRm<2>, true, 2>(run, "w2_r8", {ext3<D>(0, 0, 0), ext3<D>(2, 2, 2), 1, T ? 1 : 0}, {DIR2}, ow);
        family<AM, false, 1>(run, "amr", {ext3<D>(0, -1, 0), ext3<D>(1, 2, 1), 1, 1}, {DIR1, NEU1}, od);
    }
    return run.finish();
}
