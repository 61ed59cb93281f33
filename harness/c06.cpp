// C06: traversals hand out each cell once, with its own storage
#include "sam_mesh.hpp"
#include <samurai/amr/mesh.hpp>
#include <samurai/field.hpp>
#include <samurai/mr/adapt.hpp>
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;

template <class Mesh>
struct Probe
{
    mc::Case& c;
    const Mesh& mesh;
    double scal, org;
    std::map<LCell<D>, long> idx; // storage by (level, coordinates)
    LSet<D> seen;
    const char* what = "";

    Probe(mc::Case& c_, const Mesh& m, double s, double o)
        : c(c_)
        , mesh(m)
        , scal(s)
        , org(o)
    {
        // numbering as defined by lookup, independent of any traversal helper
        for (auto& a : cells_of<D>(m[Mesh::mesh_id_t::reference]))
        {
            idx[a] = static_cast<long>(m.get_index(static_cast<std::size_t>(a.level), xyz<D>(a.p)));
        }
    }

    template <class Cell>
    void cell(const Cell& k)
    {
        LCell<D> a;
        a.level = static_cast<int>(k.level);
        for (std::size_t d = 0; d < D; ++d)
        {
            a.p[d] = static_cast<int>(k.indices[d]);
        }
        CHK(c, seen.insert(a).second, "twice", std::string(what) + ": " + str<D>(a) + " handed out twice");
        auto f = idx.find(a);
        if (CHK(c, f != idx.end(), "foreign", std::string(what) + ": " + str<D>(a) + " is not a cell of the mesh"))
        {
            CHK(c, f->second == static_cast<long>(k.index), "storage",
                std::string(what) + ": " + str<D>(a) + " handed out with storage " + std::to_string(k.index) + " instead of " + std::to_string(f->second));
        }
        double h = scal / (1 << a.level);
        bool ok  = mc::close(k.length, h);
        for (std::size_t d = 0; d < D; ++d)
        {
            ok &= mc::close(k.corner()[d], org + h * a.p[d]) && mc::close(k.center()[d], org + h * (a.p[d] + 0.5))
               && mc::close(k.center(d), org + h * (a.p[d] + 0.5)) && mc::close(k.corner(d), org + h * a.p[d]);
        }
        CHK(c, ok, "geometry", std::string(what) + ": geometry of " + str<D>(a));
    }

    template <class I, class Y>
    void run(std::size_t level, const I& i, const Y& y, bool storage)
    {
        CHK(c, i.start < i.end, "empty-run", std::string(what) + ": empty run");
        for (int x = i.start; x < i.end; ++x)
        {
            LCell<D> a;
            a.level = static_cast<int>(level);
            a.p[0]  = x;
            for (std::size_t d = 1; d < D; ++d)
            {
                a.p[d] = static_cast<int>(y[d - 1]);
            }
            CHK(c, seen.insert(a).second, "twice", std::string(what) + ": " + str<D>(a) + " handed out twice");
            if (storage)
            {
                auto f = idx.find(a);
                CHK(c, f != idx.end() && f->second == static_cast<long>(i.index) + x, "storage", std::string(what) + ": run index of " + str<D>(a));
            }
        }
    }

    void start(const char* w)
    {
        what = w;
        seen.clear();
    }

    void expect(const LSet<D>& want)
    {
        CHK(c, seen == want, "cells", std::string(what) + ": " + diff<D>(seen, want));
        c.transitions(1);
    }
};

template <class Mesh>
void collections(mc::Case& c, Mesh& mesh, double scal, double org, Probe<Mesh>& pr)
{
    using id_t = typename Mesh::mesh_id_t;
    auto cells = cells_of<D>(mesh[id_t::cells]);
    auto cellf = [&](const auto& k) { pr.cell(k); };
    pr.start("for_each_cell(mesh)");
    samurai::for_each_cell(mesh, cellf);
    pr.expect(cells);
    pr.start("for_each_cell<Sequential>(mesh)");
    samurai::for_each_cell<samurai::Run::Sequential>(mesh, cellf);
    pr.expect(cells);
    pr.start("for_each_cell<Parallel>(mesh)");
    samurai::for_each_cell<samurai::Run::Parallel>(mesh, cellf);
    pr.expect(cells);
    pr.start("for_each_interval(mesh)");
    samurai::for_each_interval(static_cast<const Mesh&>(mesh), [&](std::size_t l, const auto& i, const auto& y) { pr.run(l, i, y, true); });
    pr.expect(cells);
    for (std::size_t k = 0; k < static_cast<std::size_t>(id_t::count); ++k)
    {
        const auto& ca = mesh[static_cast<id_t>(k)];
        auto want      = cells_of<D>(ca);
        pr.start("for_each_cell(collection)");
        samurai::for_each_cell(ca, cellf);
        pr.expect(want);
        pr.start("for_each_interval(collection)");
        samurai::for_each_interval(ca, [&](std::size_t l, const auto& i, const auto& y) { pr.run(l, i, y, true); });
        pr.expect(want);
        pr.start("for_each_meshinterval(collection)");
        samurai::for_each_meshinterval(ca, [&](const auto& mi) { pr.run(mi.level, mi.i, mi.index, true); });
        pr.expect(want);
        std::set<std::size_t> lv, lvw, lve;
        samurai::for_each_level(ca, [&](std::size_t l) { CHK(c, lv.insert(l).second, "level-twice", "level twice"); });
        for (auto& a : want)
        {
            lvw.insert(static_cast<std::size_t>(a.level));
        }
        CHK(c, lv == lvw, "levels", "for_each_level does not hand out the non-empty levels");
        samurai::for_each_level(ca, [&](std::size_t l) { lve.insert(l); }, true);
        bool all = true;
        if (!lvw.empty())
        {
            for (std::size_t l = *lvw.begin(); l <= *lvw.rbegin(); ++l)
            {
                all &= lve.count(l) != 0;
            }
            CHK(c, all && lve.size() == *lvw.rbegin() - *lvw.begin() + 1, "levels", "for_each_level(include empty) is not the level range");
        }
        for (std::size_t l = 0; l <= Mesh::ca_type::max_size && l <= mesh.max_level(); ++l)
        {
            LSet<D> wl;
            for (auto& a : want)
            {
                if (a.level == static_cast<int>(l))
                {
                    wl.insert(a);
                }
            }
            pr.start("for_each_cell(level)");
            samurai::for_each_cell(ca[l], cellf);
            pr.expect(wl);
            pr.start("for_each_cell<Parallel>(level)");
            samurai::for_each_cell<samurai::Run::Parallel>(ca[l], cellf);
            pr.expect(wl);
            pr.start("for_each_interval(level)");
            samurai::for_each_interval(ca[l], [&](std::size_t lev, const auto& i, const auto& y) { pr.run(lev, i, y, true); });
            pr.expect(wl);
            pr.start("for_each_meshinterval(level)");
            samurai::for_each_meshinterval(ca[l], [&](const auto& mi) { pr.run(mi.level, mi.i, mi.index, true); });
            pr.expect(wl);
            // for each run: the cells of the run
            pr.start("for_each_cell(mesh, level, run)");
            samurai::for_each_interval(ca[l], [&](std::size_t lev, const auto& i, const auto& y) { samurai::for_each_cell(mesh, lev, i, y, cellf); });
            pr.expect(wl);
        }
    }
    // writing through cells, reading by coordinates (and the other way round)
    auto f = samurai::make_field<double, 1>("f", mesh);
    auto v = samurai::make_field<double, 2>("v", mesh);
    f.fill(-1);
    v.fill(-1);
    auto val = [](const LCell<D>& a, int comp)
    {
        double x = 1000. * a.level + 0.25 * comp;
        for (std::size_t d = 0; d < D; ++d)
        {
            x = x * 31 + a.p[d];
        }
        return x;
    };
    auto lc = [](const auto& k)
    {
        LCell<D> a;
        a.level = static_cast<int>(k.level);
        for (std::size_t d = 0; d < D; ++d)
        {
            a.p[d] = static_cast<int>(k.indices[d]);
        }
        return a;
    };
    samurai::for_each_cell(mesh[id_t::reference],
                           [&](const auto& k)
                           {
                               f[k]    = val(lc(k), 0);
                               v[k][0] = val(lc(k), 0);
                               v[k][1] = val(lc(k), 1);
                           });
    for (auto& [a, k] : pr.idx)
    {
        auto l = static_cast<std::size_t>(a.level);
        CHK(c, f[static_cast<std::size_t>(k)] == val(a, 0), "alias", "value written through the cell not found at " + str<D>(a));
        typename Mesh::interval_t i{a.p[0], a.p[0] + 1};
        CHK(c, f(l, i, yz<D>(a.p))[0] == val(a, 0), "alias", "value written through the cell not found by coordinate at " + str<D>(a));
        auto vv = v(l, i, yz<D>(a.p));
        CHK(c, vv(0, 0) == val(a, 0) && vv(0, 1) == val(a, 1), "alias", "vector value by coordinate at " + str<D>(a));
    }
}

template <class Mesh, class Set>
void one_set(Probe<Mesh>& pr, Mesh& mesh, Set&& set, const LSet<D>& want, const char* w)
{
    using mi_t = typename Mesh::mesh_interval_t;
    auto cellf = [&](const auto& k) { pr.cell(k); };
    pr.start(w);
    samurai::for_each_cell(mesh, set, cellf);
    pr.expect(want);
    pr.start(w);
    samurai::for_each_interval(set, [&](std::size_t l, const auto& i, const auto& y) { pr.run(l, i, y, false); });
    pr.expect(want);
    pr.start(w);
    samurai::for_each_meshinterval<mi_t>(set, [&](const auto& mi) { pr.run(mi.level, mi.i, mi.index, false); });
    pr.expect(want);
    pr.start(w);
    samurai::for_each_meshinterval<mi_t, samurai::Run::Parallel>(set, [&](const auto& mi) { pr.run(mi.level, mi.i, mi.index, false); });
    pr.expect(want);
    pr.start(w);
    samurai::for_each_meshinterval<mi_t, samurai::Run::Sequential>(set, [&](const auto& mi) { pr.run(mi.level, mi.i, mi.index, false); });
    pr.expect(want);
}

template <class Mesh>
void sets(mc::Case& c, Mesh& mesh, Probe<Mesh>& pr, bool full)
{
    using id_t = typename Mesh::mesh_id_t;
    constexpr std::size_t N = static_cast<std::size_t>(id_t::count);
    std::vector<LSet<D>> col;
    for (std::size_t k = 0; k < N; ++k)
    {
        col.push_back(cells_of<D>(mesh[static_cast<id_t>(k)]));
    }
    auto at = [&](const LSet<D>& s, int l)
    {
        LSet<D> r;
        for (auto& a : s)
        {
            if (a.level == l)
            {
                r.insert(a);
            }
        }
        return r;
    };
    auto& refc = col[static_cast<std::size_t>(id_t::reference)];
    for (std::size_t l = mesh[id_t::reference].min_level(); l <= mesh[id_t::reference].max_level(); ++l)
    {
        int il = static_cast<int>(l);
        for (std::size_t i = 0; i < N; ++i)
        {
            for (std::size_t j = 0; j < N; ++j)
            {
                if (!full && i != 0 && j != 0)
                {
                    continue;
                }
                auto& A = mesh[static_cast<id_t>(i)][l];
                auto& B = mesh[static_cast<id_t>(j)][l];
                auto a = at(col[i], il), b = at(col[j], il);
                LSet<D> u, n, m;
                std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::inserter(u, u.end()));
                std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::inserter(n, n.end()));
                std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::inserter(m, m.end()));
                auto si = samurai::intersection(A, B);
                one_set(pr, mesh, si, n, "intersection");
                auto su = samurai::union_(A, B);
                one_set(pr, mesh, su, u, "union");
                auto sd = samurai::difference(A, B);
                one_set(pr, mesh, sd, m, "difference");
                // over one collection, storage of that collection
                auto cellf = [&](const auto& k) { pr.cell(k); };
                pr.start("for_each_cell(collection, intersection)");
                samurai::for_each_cell(A, si, cellf);
                pr.expect(n);
                pr.start("for_each_cell(collection, difference)");
                samurai::for_each_cell(A, sd, cellf);
                pr.expect(m);
            }
            // evaluation on another level, restricted to stored cells
            if (l > 0 && !mesh[id_t::reference][l - 1].empty())
            {
                auto a = at(col[i], il);
                LSet<D> w, wf;
                for (auto& x : a)
                {
                    LCell<D> p{il - 1, shr<D>(x.p, 1)};
                    if (refc.count(p))
                    {
                        w.insert(p);
                    }
                }
                auto s1 = samurai::intersection(mesh[static_cast<id_t>(i)][l], mesh[id_t::reference][l - 1]).on(l - 1);
                one_set(pr, mesh, s1, w, "projection onto the coarser level");
                for (auto& x : at(col[i], il - 1))
                {
                    for (int k = 0; k < (1 << D); ++k)
                    {
                        LCell<D> q{il, {}};
                        for (std::size_t d = 0; d < D; ++d)
                        {
                            q.p[d] = 2 * x.p[d] + (k >> d & 1);
                        }
                        if (refc.count(q))
                        {
                            wf.insert(q);
                        }
                    }
                }
                auto s2 = samurai::intersection(mesh[static_cast<id_t>(i)][l - 1], mesh[id_t::reference][l]).on(l);
                one_set(pr, mesh, s2, wf, "projection onto the finer level");
            }
        }
    }
}

template <class Mesh>
void family(mc::Run& run, const std::string& name, const Forest<D>& fo, bool full)
{
    const u64 np = aligned<D>(fo) ? 2 : 1;
    const double scal = 3., org = -0.5;
    std::vector<Mesh> refs;
    for (u64 m = 0; m < np; ++m)
    {
        refs.push_back(ref_mesh<Mesh, D>(fo, per_mask<D>(m), scal, org));
    }
    run.family(name + "_L" + std::to_string(fo.L0) + "_r" + std::to_string(volume<D>(fo.ext)) + "d" + std::to_string(fo.depth),
               "all graded forests, all collections and pairs of collections", fo.count() * np,
               [&](u64 id, mc::Case& c)
               {
                   auto per    = per_mask<D>(id % np);
                   auto leaves = fo.leaves(id / np);
                   LeafMap<D> lm(leaves);
                   if (!graded<D>(fo, lm, per))
                   {
                       return false;
                   }
                   DESC(c) << "leaves " << str<D>(leaves) << " periodic mask " << id % np;
                   Mesh mesh = make_mesh<Mesh, D>(refs[id % np], leaves);
                   Probe<Mesh> pr(c, mesh, scal, org);
                   collections(c, mesh, scal, org, pr);
                   sets(c, mesh, pr, full);
                   c.outcome(hash<D>(cells_of<D>(mesh[Mesh::mesh_id_t::reference])));
                   return true;
               });
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();
    using Mesh   = samurai::MRMesh<samurai::MRConfig<D, 1>>;
    // one run against one lone collection
    if (D == 1)
    {
        family<Mesh>(run, "mr", {ext3<D>(0), ext3<D>(2), 1, T ? 4 : 3}, true);
        family<Mesh>(run, "mr", {ext3<D>(0), ext3<D>(1), 0, 3}, true);
        family<Mesh>(run, "mr", {ext3<D>(-2), ext3<D>(3), 1, 3}, true);
    }
    if (D == 2)
    {
        family<Mesh>(run, "mr", {ext3<D>(-1, -1), ext3<D>(2, 1), 1, 2}, true);
        family<Mesh>(run, "mr", {ext3<D>(0, 0), ext3<D>(1, 1), 0, T ? 3 : 2}, !T);
        family<Mesh>(run, "mr", {ext3<D>(0, -1), ext3<D>(2, 2), 1, 2}, false);
    }
    if (D == 3)
    {
        family<Mesh>(run, "mr", {ext3<D>(-1, 0, 0), ext3<D>(2, 1, 1), 1, 1}, true);
        family<Mesh>(run, "mr", {ext3<D>(0, 0, 0), ext3<D>(1, 1, 1), 0, 2}, true);
        family<Mesh>(run, "mr", {ext3<D>(0, 0, 0), ext3<D>(1, 1, 2), 1, 1}, true);
    }
    return run.finish();
}
