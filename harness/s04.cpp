// S04: interface and stencil traversals.
#include <algorithm>
#include <functional>
#include <map>

#include "sam_field.hpp"
#include <samurai/interface.hpp>
#include <samurai/stencil.hpp>
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;

using Dir = samurai::DirectionVector<D>;

template <class C>
LCell<D> lcell(const C& c)
{
    LCell<D> r{static_cast<int>(c.level), {}};
    for (std::size_t d = 0; d < D; ++d)
    {
        r.p[d] = c.indices[d];
    }
    return r;
}

struct Ctx
{
    mc::Case& c;
    const LSet<D>& ref;
    std::map<LCell<D>, long> index; // storage index, by model lookup of the storage intervals
    double L0len;
    double org;
};

// a handed-out cell is a stored cell with its own storage, level and geometry
template <class C>
bool sound(Ctx& x, const C& cell, const std::string& who)
{
    auto l  = lcell(cell);
    auto it = x.index.find(l);
    if (it == x.index.end())
    {
        x.c.fail("storage", who + ": handed-out cell " + str<D>(l) + " has no storage");
        return false;
    }
    if (static_cast<long>(cell.index) != it->second)
    {
        x.c.fail("index", who + ": cell " + str<D>(l) + " handed out with storage " + std::to_string(cell.index) + ", its own is " + std::to_string(it->second));
        return false;
    }
    double h = x.L0len / (1 << l.level);
    bool ok  = mc::close(cell.length, h, 1e-12);
    auto ctr = cell.center();
    for (std::size_t d = 0; d < D; ++d)
    {
        ok = ok && mc::close(ctr[d], x.org + h * (l.p[d] + 0.5), 1e-12);
    }
    return CHK(x.c, ok, "geometry", who + ": cell " + str<D>(l) + " handed out with wrong length or centre");
}

using Rec = std::vector<LCell<D>>; // interface cells then computational cells
using Bag = std::map<Rec, int>;

std::string rstr(const Rec& r)
{
    return str<D>(std::vector<LCell<D>>(r));
}

void compare(Ctx& x, const Bag& got, const Bag& want, const std::string& sig, const std::string& who)
{
    for (auto& [r, n] : got)
    {
        auto it = want.find(r);
        CHK(x.c, it != want.end(), sig, who + ": unexpected " + rstr(r));
        CHK(x.c, it == want.end() || it->second == n, sig, who + ": handed out " + std::to_string(n) + " times: " + rstr(r));
    }
    for (auto& [r, n] : want)
    {
        CHK(x.c, got.count(r), sig, who + ": missing " + rstr(r));
        (void)n;
    }
    u64 h = 3;
    for (auto& [r, n] : got)
    {
        h = mc::mix(h, static_cast<u64>(n));
        for (auto& l : r)
        {
            h = mc::mix(h, static_cast<u64>(l.level));
            for (auto p : l.p)
            {
                h = mc::mix(h, static_cast<u64>(p + 100000));
            }
        }
    }
    x.c.outcome(h);
    x.c.transitions(got.size() + 1);
}

template <std::size_t N>
using St = samurai::Stencil<N, D>;

// a stencil given by integer combinations: offsets along dir, and along other
template <std::size_t N>
St<N> along(const Dir& dir, const std::array<int, N>& k)
{
    St<N> s;
    for (std::size_t i = 0; i < N; ++i)
    {
        for (std::size_t d = 0; d < D; ++d)
        {
            s(i, d) = k[i] * dir[d];
        }
    }
    return s;
}

template <std::size_t N>
void interior_want(Bag& bag, const LeafMap<D>& lm, const Dir& dir, const St<N>& st, int level = -1)
{
    auto rec = [&](const LCell<D>& a, const LCell<D>& b, const LCell<D>& in)
    {
        Rec r{a, b};
        for (std::size_t i = 0; i < N; ++i)
        {
            LCell<D> q = in;
            for (std::size_t d = 0; d < D; ++d)
            {
                q.p[d] += st(i, d);
            }
            r.push_back(q);
        }
        bag[r]++;
    };
    for (auto& a : lm.leaf)
    {
        LCell<D> b = a;
        for (std::size_t d = 0; d < D; ++d)
        {
            b.p[d] += dir[d];
        }
        if (lm.leaf.count(b))
        {
            if (level < 0 || level == a.level)
            {
                rec(a, b, a);
            }
            continue;
        }
        auto k = lm.cover(b);
        if (k.level >= 0 && k.level == a.level - 1 && (level < 0 || level == k.level)) // fine a, coarse b
        {
            rec(a, k, a);
        }
        else if (lm.finer_below(b) && (level < 0 || level == a.level)) // coarse a, fine b
        {
            for (auto& f : children<D>(b))
            {
                LCell<D> g = f; // the ghost inside a
                bool face  = true;
                for (std::size_t d = 0; d < D; ++d)
                {
                    g.p[d] -= dir[d];
                }
                face = parent<D>(g) == a;
                if (face && lm.leaf.count(f))
                {
                    rec(a, f, g);
                }
            }
        }
    }
}

template <std::size_t N>
void boundary_want(Bag& bag, const LeafMap<D>& lm, const Dir& dir, const St<N>& st, const std::function<bool(const LCell<D>&)>& inside, int level = -1)
{
    for (auto& a : lm.leaf)
    {
        LCell<D> b = a;
        for (std::size_t d = 0; d < D; ++d)
        {
            b.p[d] += dir[d];
        }
        if (inside(b) || (level >= 0 && level != a.level))
        {
            continue;
        }
        Rec r{a};
        for (std::size_t i = 0; i < N; ++i)
        {
            LCell<D> q = a;
            for (std::size_t d = 0; d < D; ++d)
            {
                q.p[d] += st(i, d);
            }
            r.push_back(q);
        }
        bag[r]++;
    }
}

template <class Mesh, std::size_t N>
void with_stencil(Ctx& x, const Mesh& mesh, const LeafMap<D>& lm, const Dir& dir, const St<N>& st, const std::function<bool(const LCell<D>&)>& inside, const std::string& who)
{
    auto take2 = [&](Bag& bag)
    {
        return [&x, &bag, who](auto& ic, auto& cc)
        {
            bool ok = sound(x, ic[0], who + " interface[0]") && sound(x, ic[1], who + " interface[1]");
            Rec r{lcell(ic[0]), lcell(ic[1])};
            for (auto& k : cc)
            {
                ok = ok && sound(x, k, who + " stencil cell");
                r.push_back(lcell(k));
            }
            if (ok)
            {
                bag[r]++;
            }
        };
    };
    auto take1 = [&](Bag& bag)
    {
        return [&x, &bag, who](auto& cell, auto& cc)
        {
            bool ok = sound(x, cell, who + " boundary cell");
            Rec r{lcell(cell)};
            for (auto& k : cc)
            {
                ok = ok && sound(x, k, who + " boundary stencil cell");
                r.push_back(lcell(k));
            }
            if (ok)
            {
                bag[r]++;
            }
        };
    };
    bool positive = true;
    for (std::size_t d = 0; d < D; ++d)
    {
        positive = positive && dir[d] >= 0;
    }
    if (positive)
    {
        Bag want, got;
        interior_want<N>(want, lm, dir, st);
        samurai::for_each_interior_interface(mesh, dir, st, take2(got));
        compare(x, got, want, "interior", who + " for_each_interior_interface");
        Bag iv;
        auto t = take2(iv);
        samurai::for_each_interior_interface<samurai::Run::Sequential, samurai::Get::Intervals>(mesh, dir, st,
                                                                                                 [&](auto& iit, auto& cit)
                                                                                                 {
                                                                                                     auto n = iit.interval().size();
                                                                                                     auto m = cit.interval().size();
                                                                                                     CHK(x.c, n == m, "interior-interval", "interval sizes differ");
                                                                                                     for (std::size_t k = 0; k < n; ++k)
                                                                                                     {
                                                                                                         t(iit.cells(), cit.cells());
                                                                                                         iit.move_next();
                                                                                                         cit.move_next();
                                                                                                     }
                                                                                                 });
        compare(x, iv, want, "interior-interval", who + " for_each_interior_interface<Intervals>");
        Bag par;
        samurai::for_each_interior_interface<samurai::Run::Parallel>(mesh, dir, st, take2(par));
        compare(x, par, want, "interior-parallel-form", who + " for_each_interior_interface<Parallel>");
        for (int l = lm.lmin; l <= lm.lmax; ++l)
        {
            Bag w2, g2;
            interior_want<N>(w2, lm, dir, st, l);
            samurai::for_each_interior_interface(mesh, static_cast<std::size_t>(l), dir, st, take2(g2));
            compare(x, g2, w2, "interior-level", who + " for_each_interior_interface(level)");
        }
    }
    {
        Bag want, got, iv;
        boundary_want<N>(want, lm, dir, st, inside);
        samurai::for_each_boundary_interface__direction(mesh, dir, st, take1(got));
        compare(x, got, want, "boundary", who + " for_each_boundary_interface__direction");
        auto t = take1(iv);
        samurai::for_each_boundary_interface__direction<samurai::Run::Sequential, samurai::Get::Intervals>(mesh, dir, st,
                                                                                                            [&](auto& cell, auto& cit)
                                                                                                            {
                                                                                                                auto own = cell;
                                                                                                                auto n   = cit.interval().size();
                                                                                                                for (std::size_t k = 0; k < n; ++k)
                                                                                                                {
                                                                                                                    t(own, cit.cells());
                                                                                                                    own.index++;
                                                                                                                    own.indices[0]++;
                                                                                                                    cit.move_next();
                                                                                                                }
                                                                                                            });
        compare(x, iv, want, "boundary-interval", who + " for_each_boundary_interface__direction<Intervals>");
    }
    if (positive)
    {
        Bag want, got;
        boundary_want<N>(want, lm, dir, st, inside);
        Dir opp = -dir;
        St<N> os = st;
        for (std::size_t i = 0; i < N; ++i)
        {
            for (std::size_t d = 0; d < D; ++d)
            {
                os(i, d) -= dir[d];
            }
        }
        boundary_want<N>(want, lm, opp, os, inside);
        samurai::for_each_boundary_interface__both_directions(mesh, dir, st, take1(got));
        compare(x, got, want, "boundary-both", who + " for_each_boundary_interface__both_directions");
    }
}

template <class Mesh, std::size_t N>
void stencil_walk(Ctx& x, const Mesh& mesh, const LeafMap<D>& lm, const St<N>& st, const std::string& who)
{
    using id_t = typename Mesh::mesh_id_t;
    auto take  = [&](Bag& bag)
    {
        return [&x, &bag, who](auto& cells)
        {
            Rec r;
            bool ok = true;
            for (auto& k : cells)
            {
                ok = ok && sound(x, k, who);
                r.push_back(lcell(k));
            }
            if (ok)
            {
                bag[r]++;
            }
        };
    };
    auto want_of = [&](const LSet<D>& s)
    {
        Bag w;
        for (auto& a : s)
        {
            Rec r;
            for (std::size_t i = 0; i < N; ++i)
            {
                LCell<D> q = a;
                for (std::size_t d = 0; d < D; ++d)
                {
                    q.p[d] += st(i, d);
                }
                r.push_back(q);
            }
            w[r]++;
        }
        return w;
    };
    Bag got;
    samurai::for_each_stencil(mesh, st, take(got));
    compare(x, got, want_of(lm.leaf), "stencil", who + " for_each_stencil(mesh)");
    auto it = samurai::make_stencil_iterator(mesh, st); // one iterator reused over levels and sets
    for (int l = lm.lmax; l >= lm.lmin; --l)
    {
        LSet<D> at;
        for (auto& a : lm.leaf)
        {
            if (a.level == l)
            {
                at.insert(a);
            }
        }
        Bag g1;
        samurai::for_each_stencil(mesh, static_cast<std::size_t>(l), it, take(g1));
        compare(x, g1, want_of(at), "stencil-level", who + " for_each_stencil(level)");
        // subsets of the leaves: leaves of this level next to the boundary, and leaves displaced onto themselves
        for (std::size_t d = 0; d < D; ++d)
        {
            Dir dir;
            dir.fill(0);
            dir[d]    = 1;
            auto& lca = mesh[id_t::cells][static_cast<std::size_t>(l)];
            auto set  = samurai::intersection(lca, samurai::translate(lca, dir));
            LSet<D> sub;
            for (auto& a : at)
            {
                LCell<D> b = a;
                b.p[d] -= 1;
                if (at.count(b))
                {
                    sub.insert(a);
                }
            }
            Bag g2, g3;
            samurai::for_each_stencil(set, it, take(g2));
            compare(x, g2, want_of(sub), "stencil-set", who + " for_each_stencil(set)");
            samurai::for_each_stencil(mesh, set, st, take(g3));
            compare(x, g3, want_of(sub), "stencil-set", who + " for_each_stencil(mesh, set)");
        }
    }
}

template <std::size_t W>
St<mc::cpow(2 * W + 1, D)> box_stencil()
{
    St<mc::cpow(2 * W + 1, D)> s;
    std::size_t i = 0;
    for_nb<D>(static_cast<int>(W),
              [&](const Pos<D>& o)
              {
                  for (std::size_t d = 0; d < D; ++d)
                  {
                      s(i, d) = o[d];
                  }
                  ++i;
              });
    return s;
}

template <std::size_t W>
using MeshW = samurai::MRMesh<samurai::MRConfig<D, static_cast<int>(W), 0, 1>>;

template <std::size_t W>
void check_mesh(mc::Case& c, MeshW<W>& mesh, const LeafMap<D>& lm, const std::function<bool(const LCell<D>&)>& inside, double sc, double org)
{
    using Mesh = MeshW<W>;
    using id_t = typename Mesh::mesh_id_t;
    auto ref   = cells_of<D>(mesh[id_t::reference]);
    Ctx x{c, ref, {}, sc, org};
    for (std::size_t l = 0; l <= mesh.max_level() + 1; ++l)
    {
        auto& lca = mesh[id_t::reference][l];
        if (lca.empty())
        {
            continue;
        }
        for (auto it = lca.cbegin(); it != lca.cend(); ++it)
        {
            for (int i = it->start; i < it->end; ++i)
            {
                LCell<D> k{static_cast<int>(l), {}};
                k.p[0] = i;
                for (std::size_t d = 1; d < D; ++d)
                {
                    k.p[d] = it.index()[d - 1];
                }
                x.index[k] = static_cast<long>(it->index + i);
            }
        }
    }
    // all cells, all faces
    Bag allw, allg, bw, bg;
    for (std::size_t d = 0; d < D; ++d)
    {
        Dir dir;
        dir.fill(0);
        dir[d]    = 1;
        St<2> io  = along<2>(dir, {0, 1});
        Dir opp   = -dir;
        St<2> io2 = along<2>(dir, {-1, 0});
        interior_want<2>(allw, lm, dir, io);
        boundary_want<2>(bw, lm, dir, io, inside);
        boundary_want<2>(bw, lm, opp, io2, inside);
        with_stencil<Mesh, 2>(x, mesh, lm, dir, io, inside, "dir " + std::to_string(d) + " stencil {0,1}");
        with_stencil<Mesh, 2>(x, mesh, lm, dir, along<2>(dir, {1, 0}), inside, "dir " + std::to_string(d) + " stencil {1,0}");
        St<2> oo = along<2>(opp, {0, 1});
        with_stencil<Mesh, 2>(x, mesh, lm, opp, oo, inside, "dir -" + std::to_string(d) + " stencil {0,1}");
        if constexpr (W >= 2)
        {
            with_stencil<Mesh, 4>(x, mesh, lm, dir, along<4>(dir, {-1, 0, 1, 2}), inside, "dir " + std::to_string(d) + " stencil {-1,0,1,2}");
            with_stencil<Mesh, 4>(x, mesh, lm, dir, along<4>(dir, {2, 1, 0, -1}), inside, "dir " + std::to_string(d) + " stencil {2,1,0,-1}");
        }
    }
    auto take2 = [&](auto& ic, auto& cc)
    {
        if (sound(x, ic[0], "interface") && sound(x, ic[1], "interface") && sound(x, cc[0], "interface") && sound(x, cc[1], "interface"))
        {
            allg[{lcell(ic[0]), lcell(ic[1]), lcell(cc[0]), lcell(cc[1])}]++;
        }
    };
    samurai::for_each_interior_interface(mesh, take2);
    compare(x, allg, allw, "interior-all", "for_each_interior_interface(mesh)");
    samurai::for_each_boundary_interface(mesh,
                                         [&](auto& cell, auto& cc)
                                         {
                                             if (sound(x, cell, "boundary") && sound(x, cc[0], "boundary") && sound(x, cc[1], "boundary"))
                                             {
                                                 bg[{lcell(cell), lcell(cc[0]), lcell(cc[1])}]++;
                                             }
                                         });
    compare(x, bg, bw, "boundary-all", "for_each_boundary_interface(mesh)");
    // stencils
    stencil_walk<Mesh, 1>(x, mesh, lm, samurai::center_only_stencil<D>(), "centre");
    stencil_walk<Mesh, 1 + 2 * D>(x, mesh, lm, samurai::star_stencil<D>(), "star");
    stencil_walk<Mesh, mc::cpow(3, D)>(x, mesh, lm, box_stencil<1>(), "3^D box");
    if constexpr (W >= 2)
    {
        stencil_walk<Mesh, 1 + 4 * D>(x, mesh, lm, samurai::star_stencil<D, 2>(), "wide star");
        for (auto& ds : samurai::directional_stencils<D, 2>())
        {
            stencil_walk<Mesh, 5>(x, mesh, lm, ds.stencil, "directional");
        }
    }
}

template <std::size_t W>
void family(mc::Run& run, const std::string& nm, const Forest<D>& fo, bool holes, u64 stride = 1, u64 off = 0)
{
    u64 nr = static_cast<u64>(volume<D>(fo.ext));
    std::vector<std::pair<u64, u64>> units; // forest, mask of roots present
    std::vector<u64> masks;
    if (holes)
    {
        for (u64 m = 1; m + 1 < (u64(1) << nr); ++m)
        {
            masks.push_back(m);
        }
    }
    else
    {
        masks.push_back((u64(1) << nr) - 1);
    }
    auto root_of = [&](const LCell<D>& c, u64& bit)
    {
        u64 k = 0, mul = 1;
        for (std::size_t d = 0; d < D; ++d)
        {
            int r = (c.level >= fo.L0 ? (c.p[d] >> (c.level - fo.L0)) : c.p[d] * (1 << (fo.L0 - c.level))) - fo.lo[d];
            if (r < 0 || r >= fo.ext[d])
            {
                return false;
            }
            k += mul * static_cast<u64>(r);
            mul *= static_cast<u64>(fo.ext[d]);
        }
        bit = k;
        return true;
    };
    u64 nt = ntrees<D>(fo.depth);
    for (u64 m : masks)
    {
        for (u64 f = 0; f < fo.count(); ++f)
        {
            bool canon = true; // trees of absent roots are leaves
            u64 v      = f;
            for (u64 r = 0; r < nr; ++r)
            {
                canon = canon && ((m >> r & 1) || v % nt == 0);
                v /= nt;
            }
            if (!canon)
            {
                continue;
            }
            auto lv = fo.leaves(f);
            std::vector<LCell<D>> in;
            for (auto& l : lv)
            {
                u64 b = 0;
                root_of(l, b);
                if (m >> b & 1)
                {
                    in.push_back(l);
                }
            }
            if (graded<D>(fo, LeafMap<D>(in), {}))
            {
                units.push_back({f, m});
            }
        }
    }
    (void)stride;
    (void)off;
    std::array<bool, D> none{};
    const double sc = 2., org = holes || !aligned<D>(fo) ? 0.5 : -0.5;
    std::vector<MeshW<W>> refs;
    if (!holes)
    {
        refs.push_back(ref_mesh<MeshW<W>, D>(fo, none, sc, org));
    }
    run.family(nm,
               "all graded forests of " + std::to_string(nr) + " roots of depth " + std::to_string(fo.depth) + " from level " + std::to_string(fo.L0)
                   + (holes ? ", all non-empty proper sub-domains of whole roots" : "") + ", stencil width " + std::to_string(W),
               units.size(),
               [&](u64 id, mc::Case& c)
               {
                   auto [f, m] = units[id];
                   std::vector<LCell<D>> lv;
                   for (auto& l : fo.leaves(f))
                   {
                       u64 b = 0;
                       root_of(l, b);
                       if (m >> b & 1)
                       {
                           lv.push_back(l);
                       }
                   }
                   DESC(c) << "leaves: " << str<D>(lv);
                   LeafMap<D> lm(lv);
                   u64 mm = m;
                   std::function<bool(const LCell<D>&)> inside = [&, mm](const LCell<D>& k)
                   {
                       u64 b = 0;
                       return root_of(k, b) && (mm >> b & 1);
                   };
                   if (holes)
                   {
                       typename MeshW<W>::cl_type cl(xt::xtensor_fixed<double, xt::xshape<D>>(xt::ones<double>({D}) * org), sc);
                       for (auto& l : lv)
                       {
                           cl[static_cast<std::size_t>(l.level)][yz<D>(l.p)].add_point(l.p[0]);
                       }
                       MeshW<W> mesh(cl, static_cast<std::size_t>(fo.L0), static_cast<std::size_t>(fo.ML()));
                       check_mesh<W>(c, mesh, lm, inside, sc, org);
                   }
                   else
                   {
                       auto mesh = make_mesh<MeshW<W>, D>(refs[0], lv);
                       check_mesh<W>(c, mesh, lm, inside, sc, org);
                   }
               });
}

// the stencil makers, for all parameters
void makers(mc::Run& run)
{
    run.family("makers", "all directions and stencil makers", 1,
               [&](u64, mc::Case& c)
               {
                   auto as_set = [](const auto& st)
                   {
                       std::multiset<Pos<D>> s;
                       for (std::size_t i = 0; i < st.shape()[0]; ++i)
                       {
                           Pos<D> p;
                           for (std::size_t d = 0; d < D; ++d)
                           {
                               p[d] = st(i, d);
                           }
                           s.insert(p);
                       }
                       return s;
                   };
                   auto star = [](int w)
                   {
                       std::multiset<Pos<D>> s;
                       s.insert(Pos<D>{});
                       for (std::size_t d = 0; d < D; ++d)
                       {
                           for (int k = 1; k <= w; ++k)
                           {
                               Pos<D> p{};
                               p[d] = k;
                               s.insert(p);
                               p[d] = -k;
                               s.insert(p);
                           }
                       }
                       return s;
                   };
                   CHK(c, as_set(samurai::star_stencil<D, 0>()) == star(0), "maker", "star_stencil<0>");
                   CHK(c, as_set(samurai::star_stencil<D, 1>()) == star(1), "maker", "star_stencil<1>");
                   CHK(c, as_set(samurai::star_stencil<D, 2>()) == star(2), "maker", "star_stencil<2>");
                   auto cart = star(1);
                   cart.erase(Pos<D>{});
                   CHK(c, as_set(samurai::cartesian_directions<D>()) == cart, "maker", "cartesian_directions");
                   std::multiset<Pos<D>> pos, got;
                   for (auto& p : cart)
                   {
                       if (*std::min_element(p.begin(), p.end()) >= 0)
                       {
                           pos.insert(p);
                       }
                   }
                   CHK(c, as_set(samurai::positive_cartesian_directions<D>()) == pos, "maker", "positive_cartesian_directions");
                   auto dir_check = [&](const auto& all, int w)
                   {
                       std::multiset<Pos<D>> dirs;
                       for (auto& ds : all)
                       {
                           Pos<D> p;
                           for (std::size_t d = 0; d < D; ++d)
                           {
                               p[d] = ds.direction[d];
                           }
                           dirs.insert(p);
                           // centre, then inwards, then outwards
                           for (int i = 0; i <= 2 * w; ++i)
                           {
                               int k = i <= w ? -i : i - w;
                               for (std::size_t d = 0; d < D; ++d)
                               {
                                   CHK(c, ds.stencil(static_cast<std::size_t>(i), d) == k * p[d], "maker", "directional_stencils<" + std::to_string(w) + ">");
                               }
                           }
                       }
                       CHK(c, dirs == cart, "maker", "directional_stencils directions");
                   };
                   dir_check(samurai::directional_stencils<D, 1>(), 1);
                   dir_check(samurai::directional_stencils<D, 2>(), 2);
                   auto line = [&](auto dc)
                   {
                       constexpr std::size_t d = decltype(dc)::value;
                       auto chk                = [&](const auto& st, std::vector<int> k, const std::string& who)
                       {
                           CHK(c, st.shape()[0] == k.size(), "maker", who);
                           for (std::size_t i = 0; i < k.size(); ++i)
                           {
                               for (std::size_t e = 0; e < D; ++e)
                               {
                                   CHK(c, st(i, e) == (e == d ? k[i] : 0), "maker", who);
                               }
                           }
                           auto cp = st;
                           CHK(c, samurai::is_line_stencil(cp), "maker", who + " is a line stencil");
                       };
                       chk(samurai::line_stencil<D, d>(0, 1), {0, 1}, "line_stencil(0,1)");
                       chk(samurai::line_stencil<D, d>(2, -1, 0), {2, -1, 0}, "line_stencil(2,-1,0)");
                       chk(samurai::line_stencil<D, d, 2>(), {0, 1}, "line_stencil<2>");
                       chk(samurai::line_stencil<D, d, 4>(), {-1, 0, 1, 2}, "line_stencil<4>");
                       chk(samurai::line_stencil<D, d, 6>(), {-2, -1, 0, 1, 2, 3}, "line_stencil<6>");
                       chk(samurai::line_stencil_from<D, d, 3>(-1), {-1, 0, 1}, "line_stencil_from");
                       chk(samurai::line_stencil_from<D, d, 6>(-2), {-2, -1, 0, 1, 2, 3}, "line_stencil_from");
                       // a stencil written for the x direction, turned into direction +-d
                       for (int sg : {1, -1})
                       {
                           Dir dir;
                           dir.fill(0);
                           dir[d]  = sg;
                           auto sx = samurai::line_stencil<D, 0>(-2, 0, 1, 3);
                           auto sd = samurai::convert_for_direction(sx, dir);
                           for (std::size_t i = 0; i < 4; ++i)
                           {
                               for (std::size_t e = 0; e < D; ++e)
                               {
                                   CHK(c, sd(i, e) == (e == d ? sg * sx(i, 0) : 0), "maker", "convert_for_direction along the direction");
                               }
                           }
                           // general stencils: an orthogonal transformation (offsets keep their mutual products)
                           auto b  = box_stencil<1>();
                           auto bd = samurai::convert_for_direction(b, dir);
                           for (std::size_t i = 0; i < b.shape()[0]; ++i)
                           {
                               int proj = 0;
                               for (std::size_t e = 0; e < D; ++e)
                               {
                                   proj += bd(i, e) * dir[e];
                               }
                               CHK(c, proj == b(i, 0), "maker", "convert_for_direction: component along the direction");
                               for (std::size_t j = 0; j < b.shape()[0]; ++j)
                               {
                                   int p = 0, q = 0;
                                   for (std::size_t e = 0; e < D; ++e)
                                   {
                                       p += b(i, e) * b(j, e);
                                       q += bd(i, e) * bd(j, e);
                                   }
                                   CHK(c, p == q, "maker", "convert_for_direction is not a rotation");
                               }
                           }
                           CHK(c, samurai::find_direction_index(dir) == d, "maker", "find_direction_index");
                           CHK(c, samurai::is_cartesian(dir), "maker", "is_cartesian");
                           auto io = samurai::in_out_stencil<D>(dir);
                           for (std::size_t e = 0; e < D; ++e)
                           {
                               CHK(c, io(0, e) == 0 && io(1, e) == dir[e], "maker", "in_out_stencil");
                           }
                       }
                   };
                   line(std::integral_constant<std::size_t, 0>{});
                   if constexpr (D > 1)
                   {
                       line(std::integral_constant<std::size_t, 1>{});
                   }
                   if constexpr (D > 2)
                   {
                       line(std::integral_constant<std::size_t, 2>{});
                   }
                   // find: position of each offset
                   auto b = box_stencil<1>();
                   for (std::size_t i = 0; i < b.shape()[0]; ++i)
                   {
                       Dir v;
                       bool zero = true;
                       int nz    = 0;
                       for (std::size_t e = 0; e < D; ++e)
                       {
                           v[e] = b(i, e);
                           zero = zero && v[e] == 0;
                           nz += v[e] != 0;
                       }
                       CHK(c, samurai::find(b, v) == static_cast<int>(i), "maker", "find");
                       CHK(c, samurai::is_cartesian(v) == (nz == 1), "maker", "is_cartesian");
                       if (zero)
                       {
                           CHK(c, samurai::find_stencil_origin(b) == static_cast<int>(i), "maker", "find_stencil_origin");
                       }
                   }
                   if constexpr (D > 1)
                   {
                       CHK(c, !samurai::is_line_stencil(b), "maker", "a box is no line stencil");
                   }
                   Dir far;
                   far.fill(2);
                   CHK(c, samurai::find(b, far) == -1, "maker", "find of an absent offset");
                   c.outcome(1);
                   c.transitions(1);
               });
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    makers(run);
#if DIM == 1
        family<1>(run, "r3d2", {{0}, {3}, 0, 2}, false);
        family<2>(run, "r3d2w2", {{0}, {3}, 0, 2}, false);
        family<2>(run, "r4d2L1", {{0}, {4}, 1, 2}, false);
        family<1>(run, "r2d3", {{0}, {2}, 0, 3}, false);
        family<1>(run, "neg", {{-2}, {4}, 0, 2}, false);
        family<2>(run, "holes", {{-1}, {4}, 0, 1}, true);
        family<1>(run, "holes2", {{0}, {5}, 1, 1}, true);
        family<2>(run, "holes3", {{-1}, {4}, 0, 2}, true);
        if (run.thorough())
        {
            family<2>(run, "r2d4w2", {{0}, {2}, 0, 4}, false);
            family<2>(run, "r5d2w2", {{-1}, {5}, 0, 2}, false);
        }
#elif DIM == 2
        family<1>(run, "r22d1", {{0, 0}, {2, 2}, 0, 1}, false);
        family<2>(run, "r23d1w2", {{0, 0}, {2, 3}, 0, 1}, false);
        family<1>(run, "r32d1", {{-1, 1}, {3, 2}, 0, 1}, false);
        family<1>(run, "r11d2", {{0, 0}, {1, 1}, 0, 2}, false);
        family<2>(run, "r12d2", {{0, 0}, {1, 2}, 0, 2}, false);
        family<1>(run, "holes", {{-1, 0}, {3, 2}, 0, 1}, true);
            family<2>(run, "r33d1", {{0, 0}, {3, 3}, 0, 1}, false);
            family<2>(run, "r21d2", {{-1, 1}, {2, 1}, 1, 2}, false);
            family<2>(run, "holes2", {{-1, 0}, {3, 3}, 0, 1}, true);
        if (run.thorough())
        {
            family<2>(run, "r22d2", {{0, 0}, {2, 2}, 0, 2}, false);
        }
#else
        family<1>(run, "r222d1", {{0, 0, 0}, {2, 2, 2}, 0, 1}, false);
        family<2>(run, "r211d1", {{0, 0, 0}, {2, 1, 1}, 0, 1}, false);
        family<2>(run, "r121d1", {{-1, 0, 1}, {1, 2, 1}, 1, 1}, false);
        family<2>(run, "r112d1", {{0, 0, 0}, {1, 1, 2}, 0, 1}, false);
        family<1>(run, "holes", {{0, 0, 0}, {2, 2, 1}, 0, 1}, true);
            family<1>(run, "r111d2", {{0, 0, 0}, {1, 1, 1}, 0, 2}, false);
            family<2>(run, "r222d1w2", {{0, 0, 0}, {2, 2, 2}, 0, 1}, false);
            family<1>(run, "holes2", {{0, 0, 0}, {2, 2, 2}, 0, 1}, true);
        if (run.thorough())
        {
            family<1>(run, "r211d2", {{0, 0, 0}, {2, 1, 1}, 0, 2}, false);
        }
#endif
    return run.finish();
}
