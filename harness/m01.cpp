// M01: a mesh provides every ghost its leaves need, with unique storage
#include "sam_mesh.hpp"
#include <samurai/amr/mesh.hpp>
#include <samurai/uniform_mesh.hpp>
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;

// wraps p into the domain in the periodic directions; false if it is outside in a non-periodic one
bool wrap(const Forest<D>& fo, const std::array<bool, D>& per, int l, Pos<D>& p)
{
    bool in = true;
    for (std::size_t d = 0; d < D; ++d)
    {
        int w = fo.width(d, l), s = fo.start(d, l);
        if (p[d] < s || p[d] >= s + w)
        {
            if (per[d] && w > 0)
            {
                p[d] = s + (((p[d] - s) % w) + w) % w;
            }
            else
            {
                in = false;
            }
        }
    }
    return in;
}

// storage: bijection between the cells of the reference collection and 0..N-1; every other collection uses the same numbers
template <class Mesh>
void check_storage(mc::Case& c, const Mesh& mesh)
{
    using id_t = typename Mesh::mesh_id_t;
    std::map<LCell<D>, long> idx;
    std::set<long> used;
    const auto& ref = mesh[id_t::reference];
    for (std::size_t l = 0; l <= Mesh::ca_type::max_size; ++l)
    {
        if (ref[l].empty())
        {
            continue;
        }
        for (auto it = ref[l].cbegin(); it != ref[l].cend(); ++it)
        {
            for (int x = it->start; x < it->end; ++x)
            {
                Pos<D> p;
                p[0] = x;
                for (std::size_t d = 1; d < D; ++d)
                {
                    p[d] = it.index()[d - 1];
                }
                long k = static_cast<long>(it->index) + x;
                CHK(c, used.insert(k).second, "storage-shared", "storage " + std::to_string(k) + " used twice, e.g. by " + std::to_string(l) + ":" + str<D>(p));
                idx[{static_cast<int>(l), p}] = k;
                auto q                        = xyz<D>(p);
                CHK(c, static_cast<long>(mesh.get_index(l, q)) == k, "get_index", "get_index differs at " + std::to_string(l) + ":" + str<D>(p));
                auto cell = mesh.get_cell(l, q);
                CHK(c, cell.index == k && cell.level == l && cell.indices == q, "get_cell", "get_cell differs at " + str<D>(p));
            }
        }
    }
    CHK(c, !used.empty() && *used.begin() == 0 && *used.rbegin() == static_cast<long>(used.size()) - 1, "storage-gap", "storage indices are not 0..N-1");
    CHK(c, mesh.nb_cells(id_t::reference) == used.size(), "nb_cells", "nb_cells(reference) is not the number of storage cells");
    for (std::size_t i = 0; i < static_cast<std::size_t>(id_t::count); ++i)
    {
        auto mid       = static_cast<id_t>(i);
        std::size_t nb = 0;
        for (std::size_t l = 0; l <= Mesh::ca_type::max_size; ++l)
        {
            const auto& lca = mesh[mid][l];
            if (lca.empty())
            {
                continue;
            }
            std::size_t nl = 0;
            for (auto it = lca.cbegin(); it != lca.cend(); ++it)
            {
                for (int x = it->start; x < it->end; ++x)
                {
                    ++nl;
                    Pos<D> p;
                    p[0] = x;
                    for (std::size_t d = 1; d < D; ++d)
                    {
                        p[d] = it.index()[d - 1];
                    }
                    auto f = idx.find({static_cast<int>(l), p});
                    if (!CHK(c, f != idx.end(), "not-in-reference", "cell " + std::to_string(l) + ":" + str<D>(p) + " of collection " + std::to_string(i) + " has no storage"))
                    {
                        continue;
                    }
                    CHK(c, f->second == static_cast<long>(it->index) + x, "renumbering",
                        "collection " + std::to_string(i) + " numbers " + std::to_string(l) + ":" + str<D>(p) + " differently from the storage");
                }
            }
            nb += nl;
            if (mid != id_t::reference)
            {
                CHK(c, mesh.nb_cells(l, mid) == nl, "nb_cells", "nb_cells(level) of collection " + std::to_string(i));
            }
        }
        CHK(c, mesh.nb_cells(mid) == nb, "nb_cells", "nb_cells of collection " + std::to_string(i));
    }
}

template <class Mesh>
bool same_mesh(mc::Case& c, const Mesh& a, const Mesh& b, const char* what, bool numbering = true)
{
    using id_t = typename Mesh::mesh_id_t;
    std::string bad;
    for (std::size_t i = 0; i < static_cast<std::size_t>(id_t::count); ++i)
    {
        auto mid = static_cast<id_t>(i);
        auto ca = cells_of<D>(a[mid]), cb = cells_of<D>(b[mid]);
        if (ca != cb)
        {
            bad += "collection " + std::to_string(i) + ": " + diff<D>(ca, cb);
        }
        else if (a.nb_cells(mid) != b.nb_cells(mid))
        {
            bad += "nb_cells of collection " + std::to_string(i) + " ";
        }
    }
    bad += cells_of<D>(a.get_union()) == cells_of<D>(b.get_union()) ? "" : "union ";
    bad += a.min_level() == b.min_level() && a.max_level() == b.max_level() ? "" : "level-bounds ";
    bad += cells_at<D>(a.domain()) == cells_at<D>(b.domain()) && cells_at<D>(a.subdomain()) == cells_at<D>(b.subdomain()) ? "" : "domain ";
    bad += a.periodicity() == b.periodicity() ? "" : "periodicity ";
    bad += a.scaling_factor() == b.scaling_factor() && a.origin_point() == b.origin_point() ? "" : "geometry ";
    bad += (a == b) ? "" : "operator== ";
    const bool ok = bad.empty();
    CHK(c, ok, "copy-swap", std::string(what) + " does not carry everything over: " + bad);
    return ok;
}

// common part: leaves, domain, union, geometry, copies
template <class Mesh>
void check_common(mc::Case& c, const Mesh& mesh, const Mesh& ref, const Forest<D>& fo, const LeafMap<D>& lm, const std::array<bool, D>& per)
{
    using id_t = typename Mesh::mesh_id_t;
    auto cells = cells_of<D>(mesh[id_t::cells]);
    CHK(c, cells == lm.leaf, "leaves", "leaves are not those given: " + diff<D>(cells, lm.leaf));
    auto uni = cells_of<D>(mesh.get_union());
    LSet<D> want;
    for (auto& a : lm.anc)
    {
        if (a.level >= fo.L0 - 1)
        {
            want.insert(a);
        }
    }
    LSet<D> got;
    for (auto& a : uni)
    {
        if (a.level >= fo.L0 - 1)
        {
            got.insert(a);
        }
    }
    CHK(c, got == want, "union", "covered cells: " + diff<D>(got, want));
    // domain and subdomain: all cells of the box at the finest level
    LSet<D> dom;
    for (auto* s : {&mesh.domain(), &mesh.subdomain()})
    {
        std::size_t n = 0;
        bool in       = true;
        for (auto it = s->cbegin(); it != s->cend(); ++it)
        {
            for (int x = it->start; x < it->end; ++x)
            {
                Pos<D> p;
                p[0] = x;
                for (std::size_t d = 1; d < D; ++d)
                {
                    p[d] = it.index()[d - 1];
                }
                in &= fo.inside(fo.ML(), p);
                ++n;
            }
        }
        Pos<D> w;
        for (std::size_t d = 0; d < D; ++d)
        {
            w[d] = fo.width(d, fo.ML());
        }
        CHK(c, in && n == volume<D>(w) && s->level() == static_cast<std::size_t>(fo.ML()), "domain", "domain/subdomain is not the box at the finest level");
    }
    CHK(c, mesh.min_level() == static_cast<std::size_t>(fo.L0) && mesh.max_level() == static_cast<std::size_t>(fo.ML()), "levels", "level bounds");
    for (std::size_t d = 0; d < D; ++d)
    {
        CHK(c, mesh.is_periodic(d) == per[d], "periodicity", "periodicity flag");
    }
    CHK(c, mesh.scaling_factor() == ref.scaling_factor() && mesh.origin_point() == ref.origin_point(), "geometry", "scaling factor or origin lost");
    for (std::size_t i = 0; i < static_cast<std::size_t>(id_t::count); ++i)
    {
        auto& ca = mesh[static_cast<id_t>(i)];
        CHK(c, ca.scaling_factor() == ref.scaling_factor() && ca.origin_point() == ref.origin_point(), "geometry", "scaling factor or origin of a sub-collection");
        for (std::size_t l = 0; l <= Mesh::ca_type::max_size; ++l)
        {
            CHK(c, ca[l].scaling_factor() == ref.scaling_factor() && ca[l].origin_point() == ref.origin_point(), "geometry", "scaling factor or origin of a level");
        }
    }
    for (int l = fo.L0; l <= fo.ML(); ++l)
    {
        CHK(c, mc::close(mesh.cell_length(static_cast<std::size_t>(l)), ref.scaling_factor() / (1 << l)), "geometry", "cell length");
    }
}

// every cell within w of a leaf has storage (and its periodic image too)
template <class Mesh>
void check_ghosts(mc::Case& c, const Forest<D>& fo, const LeafMap<D>& lm, const std::array<bool, D>& per, const LSet<D>& all, const LSet<D>& cag, int w, bool images)
{
    for (auto& a : lm.leaf)
    {
        for_nb<D>(w,
                  [&](const Pos<D>& o)
                  {
                      LCell<D> n{a.level, add<D>(a.p, o)};
                      CHK(c, cag.count(n), "stencil-ghost", "neighbour " + str<D>(n) + " of leaf " + str<D>(a) + " is not among cells_and_ghosts");
                      CHK(c, all.count(n), "stencil-ghost", "neighbour " + str<D>(n) + " of leaf " + str<D>(a) + " has no storage");
                      Pos<D> q = n.p;
                      if (images && wrap(fo, per, n.level, q))
                      {
                          LCell<D> m{n.level, q};
                          CHK(c, all.count(m), "periodic-image", "image " + str<D>(m) + " of ghost " + str<D>(n) + " has no storage");
                      }
                  });
    }
}

template <class Mesh>
void check_pred(mc::Case& c, const LeafMap<D>& lm, const LSet<D>& all, const LCell<D>& n, int s)
{
    if (n.level == 0)
    {
        return;
    }
    Pos<D> par = shr<D>(n.p, 1);
    for_nb<D>(s,
              [&](const Pos<D>& o)
              {
                  LCell<D> m{n.level - 1, add<D>(par, o)};
                  CHK(c, all.count(m), "prediction-stencil", "cell " + str<D>(m) + " needed to predict " + str<D>(n) + " has no storage");
              });
}

template <class Mesh>
void mr_case(mc::Case& c, const Mesh& ref, const Forest<D>& fo, const std::vector<LCell<D>>& leaves, const LeafMap<D>& lm, const std::array<bool, D>& per, const Mesh& alt)
{
    using id_t = typename Mesh::mesh_id_t;
    Mesh mesh  = make_mesh<Mesh, D>(ref, leaves);
    auto all   = cells_of<D>(mesh[id_t::reference]);
    auto cag   = cells_of<D>(mesh[id_t::cells_and_ghosts]);
    auto proj  = cells_of<D>(mesh[id_t::proj_cells]);
    c.outcome(mc::mix(hash<D>(all), mc::mix(hash<D>(lm.leaf), per[0])));
    check_common(c, mesh, ref, fo, lm, per);
    check_storage(c, mesh);
    check_ghosts<Mesh>(c, fo, lm, per, all, cag, Mesh::config::max_stencil_width, true);
    if (mesh.min_level() != mesh.max_level())
    {
        for (auto& a : lm.leaf)
        {
            if (a.level > fo.L0)
            {
                check_pred<Mesh>(c, lm, all, a, Mesh::config::prediction_order); // needed to compute the details
            }
            for_nb<D>(Mesh::config::max_stencil_width,
                      [&](const Pos<D>& o)
                      {
                          LCell<D> n{a.level, add<D>(a.p, o)};
                          if (fo.inside(n.level, n.p) && !lm.leaf.count(n) && !lm.finer_below(n))
                          {
                              check_pred<Mesh>(c, lm, all, n, Mesh::config::prediction_order);
                          }
                      });
        }
        // projection: the stored cells covered by finer leaves, with all their children
        LSet<D> want;
        for (auto& a : all)
        {
            if (lm.finer_below(a) && a.level >= fo.L0 - 1)
            {
                want.insert(a);
            }
        }
        for (auto it = proj.begin(); it != proj.end();)
        {
            it = it->level < fo.L0 - 1 ? proj.erase(it) : std::next(it);
        }
        CHK(c, proj == want, "proj_cells", "projected cells: " + diff<D>(proj, want));
        for (auto& a : want)
        {
            Pos<D> lo, hi;
            for (std::size_t d = 0; d < D; ++d)
            {
                lo[d] = 2 * a.p[d];
                hi[d] = lo[d] + 2;
            }
            for_box<D>(lo, hi,
                       [&](const Pos<D>& p)
                       {
                           CHK(c, all.count({a.level + 1, p}), "projection-child", "child " + str<D>(p) + " of " + str<D>(a) + " has no storage");
                       });
        }
        // every strict ancestor of a leaf at levels >= L0 that is the parent of a leaf is stored
        for (auto& a : lm.leaf)
        {
            if (a.level > fo.L0)
            {
                CHK(c, all.count({a.level - 1, shr<D>(a.p, 1)}), "parent", "parent of leaf " + str<D>(a) + " has no storage");
            }
        }
    }
    // copies and swaps
    Mesh copy(mesh);
    same_mesh(c, copy, mesh, "copy construction");
    // `alt` has other leaves, levels, domain, periodicity
    Mesh other = alt;
    same_mesh(c, other, alt, "copy construction");
    CHK(c, (mesh == ref) == (lm.leaf == cells_of<D>(ref[id_t::cells])), "equality", "meshes compare equal iff their leaves are equal");
    CHK(c, (mesh != ref) == !(mesh == ref), "equality", "operator!= inconsistent with ==");
    other.swap(copy);
    same_mesh(c, other, mesh, "swap");
    same_mesh(c, copy, alt, "swap");
    copy = other;
    same_mesh(c, copy, mesh, "copy assignment");
    Mesh moved(std::move(copy));
    same_mesh(c, moved, mesh, "move construction");
    check_storage(c, moved);
    bool anyper = false;
    for (bool b : per)
    {
        anyper |= b;
    }
    if (!anyper)
    {
        // built directly from the leaves
        auto cl = to_cl<typename Mesh::cl_type, D>(leaves);
        typename Mesh::cl_type cl2(ref.origin_point(), ref.scaling_factor());
        for (auto& a : leaves)
        {
            cl2[static_cast<std::size_t>(a.level)][yz<D>(a.p)].add_point(a.p[0]);
        }
        Mesh direct(cl2, static_cast<std::size_t>(fo.L0), static_cast<std::size_t>(fo.ML()));
        same_mesh(c, direct, mesh, "construction from a cell list");
    }
}

// adaptive mesh refinement mesh (amr::Mesh)
template <class Mesh, int W, int P>
void amr_case(mc::Case& c, const Mesh& ref, const Forest<D>& fo, const std::vector<LCell<D>>& leaves, const LeafMap<D>& lm)
{
    using id_t = typename Mesh::mesh_id_t;
    std::array<bool, D> per{};
    Mesh mesh = make_mesh<Mesh, D>(ref, leaves);
    auto all  = cells_of<D>(mesh[id_t::reference]);
    auto cag  = cells_of<D>(mesh[id_t::cells_and_ghosts]);
    auto pred = cells_of<D>(mesh[id_t::pred_cells]);
    auto proj = cells_of<D>(mesh[id_t::proj_cells]);
    c.outcome(mc::mix(hash<D>(all), hash<D>(lm.leaf)));
    check_common(c, mesh, ref, fo, lm, per);
    check_storage(c, mesh);
    check_ghosts<Mesh>(c, fo, lm, per, all, cag, std::max(W, P), false);
    for (auto& a : lm.leaf)
    {
        for_nb<D>(std::max(W, P),
                  [&](const Pos<D>& o)
                  {
                      LCell<D> n{a.level, add<D>(a.p, o)};
                      if (!fo.inside(n.level, n.p) || lm.leaf.count(n))
                      {
                          return;
                      }
                      if (lm.finer_below(n))
                      {
                          // projected from its children
                          for (int k = 0; k < (1 << D); ++k)
                          {
                              Pos<D> q;
                              for (std::size_t d = 0; d < D; ++d)
                              {
                                  q[d] = 2 * n.p[d] + (k >> d & 1);
                              }
                              CHK(c, proj.count({n.level + 1, q}) && all.count({n.level + 1, q}), "projection-child", "child of " + str<D>(n) + " missing");
                          }
                      }
                      else if (n.level > lm.lmin)
                      {
                          CHK(c, pred.count(n), "pred_cells", str<D>(n) + " is not among the predicted cells");
                          check_pred<Mesh>(c, lm, all, n, P);
                      }
                  });
    }
    Mesh copy(mesh);
    same_mesh(c, copy, mesh, "copy construction");
    Mesh other = ref;
    other.swap(copy);
    same_mesh(c, other, mesh, "swap");
    same_mesh(c, copy, ref, "swap");
}

template <class Mesh, int W, int P>
void amr_family(mc::Run& run, const std::string& name, const std::vector<Forest<D>>& fos)
{
    for (auto& fo : fos)
    {
        if (fo.L0 == 0)
        {
            continue;
        }
        typename Mesh::cl_type cl;
        for (auto& a : fo.leaves(0))
        {
            cl[static_cast<std::size_t>(a.level)][yz<D>(a.p)].add_point(a.p[0]);
        }
        Mesh ref(cl, static_cast<std::size_t>(fo.L0), static_cast<std::size_t>(fo.ML()));
        run.family(name + "_L" + std::to_string(fo.L0) + "_r" + std::to_string(volume<D>(fo.ext)) + "d" + std::to_string(fo.depth),
                   "all graded forests of " + std::to_string(volume<D>(fo.ext)) + " roots, depth " + std::to_string(fo.depth),
                   fo.count(),
                   [&](u64 id, mc::Case& c)
                   {
                       auto leaves = fo.leaves(id);
                       LeafMap<D> lm(leaves);
                       if (!graded<D>(fo, lm, {}))
                       {
                           return false;
                       }
                       DESC(c) << "leaves " << str<D>(leaves);
                       amr_case<Mesh, W, P>(c, ref, fo, leaves, lm);
                       return true;
                   });
    }
}

// single-level mesh (UniformMesh) over an arbitrary cell set
template <int W>
void uniform_family(mc::Run& run)
{
    using Mesh = samurai::UniformMesh<samurai::UniformConfig<D, W>>;
    using id_t = typename Mesh::mesh_id_t;
    run.family("uniform_w" + std::to_string(W), "all boxes of up to 4 cells per direction, levels 0-3", mc::ipow(4, D) * 4,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   int level = static_cast<int>(dec.take(4));
                   Pos<D> ext, lo{};
                   xt::xtensor_fixed<double, xt::xshape<D>> a, b;
                   u64 nroot = 1;
                   for (std::size_t d = 0; d < D; ++d)
                   {
                       int e  = static_cast<int>(dec.take(4)) + 1;
                       ext[d] = e * (1 << level);
                       a[d]   = 0.25;
                       b[d]   = 0.25 + 2. * e;
                       nroot *= static_cast<u64>(e);
                   }
                   if (volume<D>(ext) > 4096)
                   {
                       return false;
                   }
                   CSet<D> s;
                   for_box<D>(lo, ext, [&](const Pos<D>& p) { s.insert(p); });
                   DESC(c) << "box of " << str<D>(ext) << " cells at level " << level;
                   Mesh mesh(samurai::Box<double, D>(a, b), static_cast<std::size_t>(level), 0.05, 2.);
                   CSet<D> got, gh, want;
                   std::map<Pos<D>, long> idx;
                   auto walk = [&](const auto& lca, auto&& f)
                   {
                       for (auto it = lca.cbegin(); it != lca.cend(); ++it)
                       {
                           for (int x = it->start; x < it->end; ++x)
                           {
                               Pos<D> p;
                               p[0] = x;
                               for (std::size_t d = 1; d < D; ++d)
                               {
                                   p[d] = it.index()[d - 1];
                               }
                               f(p, static_cast<long>(it->index) + x);
                           }
                       }
                   };
                   std::set<long> used;
                   walk(mesh[id_t::cells_and_ghosts],
                        [&](const Pos<D>& p, long k)
                        {
                            gh.insert(p);
                            idx[p] = k;
                            CHK(c, used.insert(k).second, "storage-shared", "storage used twice");
                        });
                   CHK(c, *used.begin() == 0 && *used.rbegin() == static_cast<long>(used.size()) - 1 && mesh.nb_cells() == used.size(), "storage-gap", "storage is not 0..N-1");
                   walk(mesh[id_t::cells],
                        [&](const Pos<D>& p, long k)
                        {
                            got.insert(p);
                            CHK(c, idx.count(p) && idx[p] == k, "renumbering", "cell " + str<D>(p) + " numbered differently");
                        });
                   CHK(c, got == s, "leaves", "cells are not those given");
                   for (auto& p : s)
                   {
                       for_nb<D>(W, [&](const Pos<D>& o) { want.insert(add<D>(p, o)); });
                   }
                   CHK(c, std::includes(gh.begin(), gh.end(), want.begin(), want.end(), RevLess<D>{}), "stencil-ghost", "ghosts missing");
                   CHK(c, mesh.scaling_factor() == 2. && mesh.origin_point()[0] == 0.25, "geometry", "origin or scaling lost");
                   for (auto& p : gh)
                   {
                       std::size_t k = 0;
                       if constexpr (D == 1) { k = mesh.get_index(p[0]); }
                       if constexpr (D == 2) { k = mesh.get_index(p[0], p[1]); }
                       if constexpr (D == 3) { k = mesh.get_index(p[0], p[1], p[2]); }
                       CHK(c, static_cast<long>(k) == idx[p], "get_index", "get_index differs at " + str<D>(p));
                   }
                   Mesh cp(mesh);
                   CHK(c, cp == mesh && cp[id_t::cells_and_ghosts] == mesh[id_t::cells_and_ghosts] && cp.nb_cells() == mesh.nb_cells(), "copy-swap", "copy differs");
                   c.outcome(mc::mix(hash<D>(gh), static_cast<u64>(level)));
                   return true;
               });
}

template <std::size_t W, std::size_t P>
using MR = samurai::MRMesh<samurai::MRConfig<D, W, 1, P>>;

template <class Mesh>
void mr_family(mc::Run& run, const std::string& name, const std::vector<Forest<D>>& fos)
{
    for (auto& fo : fos)
    {
        const u64 np = aligned<D>(fo) ? 1u << D : 1u;
        std::vector<Mesh> refs;
        for (u64 m = 0; m < np; ++m)
        {
            refs.push_back(ref_mesh<Mesh, D>(fo, per_mask<D>(m), m % 2 ? 1. : 2., m % 2 ? 0. : -0.5));
        }
        Forest<D> afo{ext3<D>(0, 0, 0), ext3<D>(1, 1, 1), 0, 1};
        std::array<bool, D> all_per;
        all_per.fill(true);
        std::vector<Mesh> alts{ref_mesh<Mesh, D>(afo, all_per, 4., 1.), ref_mesh<Mesh, D>(afo, {}, 4., 1.)};
        run.family(name + "_L" + std::to_string(fo.L0) + "_r" + std::to_string(volume<D>(fo.ext)) + "d" + std::to_string(fo.depth),
                   "all graded forests of " + std::to_string(volume<D>(fo.ext)) + " roots, depth " + std::to_string(fo.depth) + ", all periodicity masks",
                   fo.count() * np,
                   [&](u64 id, mc::Case& c)
                   {
                       auto per    = per_mask<D>(id % np);
                       auto leaves = fo.leaves(id / np);
                       LeafMap<D> lm(leaves);
                       if (!graded<D>(fo, lm, per))
                       {
                           return false;
                       }
                       DESC(c) << "leaves " << str<D>(leaves) << " periodic mask " << id % np;
                       mr_case<Mesh>(c, refs[id % np], fo, leaves, lm, per, alts[per[D - 1] ? 1 : 0]);
                       return true;
                   });
    }
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();
    std::vector<Forest<D>> small, big;
    if (D == 1)
    {
        small = {{ext3<D>(0), ext3<D>(2), 1, 3}, {ext3<D>(0), ext3<D>(1), 0, 4}, {ext3<D>(0), ext3<D>(3), 2, 2}};
        big   = {{ext3<D>(0), ext3<D>(2), 1, 3}, {ext3<D>(0), ext3<D>(1), 0, 4}, {ext3<D>(-2), ext3<D>(3), 1, 3}, {ext3<D>(0), ext3<D>(4), 2, 2}, {ext3<D>(0), ext3<D>(2), 0, T ? 4 : 3}, {ext3<D>(0), ext3<D>(5), 3, 2}};
    }
    if (D == 2)
    {
        small = {{ext3<D>(0, 0), ext3<D>(2, 1), 1, 2}, {ext3<D>(0, 0), ext3<D>(1, 1), 0, 2}};
        big   = {{ext3<D>(0, 0), ext3<D>(2, 2), 1, 2}, {ext3<D>(0, 0), ext3<D>(1, 1), 0, T ? 3 : 2}, {ext3<D>(0, 0), ext3<D>(2, 1), 0, 2}, {ext3<D>(-1, -2), ext3<D>(1, 3), 2, T ? 2 : 1}};
        if (!T)
        {
            big[0] = {ext3<D>(-2, -1), ext3<D>(2, 2), 2, 2};
            big.push_back({ext3<D>(0, 0), ext3<D>(2, 2), 1, 1});
            big.push_back({ext3<D>(0, 0), ext3<D>(2, 1), 1, 2});
        }
    }
    if (D == 3)
    {
        small = {{ext3<D>(0, 0, 0), ext3<D>(2, 1, 1), 1, 1}, {ext3<D>(0, 0, 0), ext3<D>(1, 1, 1), 0, 1}};
        big   = {{ext3<D>(-1, 0, -1), ext3<D>(2, 2, 1), 1, 1}, {ext3<D>(0, 0, 0), ext3<D>(1, 1, 1), 0, 2}, {ext3<D>(0, 0, 0), ext3<D>(1, 2, 1), 0, 1}};
    }
    mr_family<MR<1, 1>>(run, "mr_w1_p1", big);
    mr_family<MR<2, 1>>(run, "mr_w2_p1", big);
    mr_family<MR<3, 1>>(run, "mr_w3_p1", small);
    mr_family<MR<2, 2>>(run, "mr_w2_p2", small);
    mr_family<MR<1, 0>>(run, "mr_w1_p0", small);
    amr_family<samurai::amr::Mesh<samurai::amr::Config<D>>, 1, 1>(run, "amr", big);
    amr_family<samurai::amr::Mesh<samurai::amr::Config<D, 2>>, 2, 1>(run, "amr_w2", small);
    amr_family<samurai::amr::Mesh<samurai::amr::Config<D, 1, 1, 20, 2>>, 1, 2>(run, "amr_p2", small);
    uniform_family<1>(run);
    uniform_family<2>(run);
    return run.finish();
}
