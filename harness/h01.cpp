// H01: saved files describe every cell once with its geometry and data.
#include "sam_field.hpp"
#include <samurai/algorithm.hpp>
#include <samurai/amr/mesh.hpp>
#include <samurai/hdf5.hpp>
#include <samurai/mr/mesh.hpp>
#include <samurai/uniform_mesh.hpp>
#include <stdlib.h>
#include <unistd.h>
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;

static std::string scratch; // directory of this process

struct Geo
{
    double org, scal;
};

// what a saved grid must contain
struct Expect
{
    std::string top, sub;   // names of the enclosing collection (empty: none) and of the grid (empty: any)
    LSet<D> cells;
};

struct Comp
{
    std::string name;
    u64 salt; // generic values
    bool integer;
};

bool near(double a, double b)
{
    return std::abs(a - b) <= 1e-10;
}

// position of a vertex in units of the cells of level `fine`; false if it is not a vertex of that grid
bool snap(const double* x, const Geo& g, int fine, std::array<long, 3>& out)
{
    double h = g.scal / (1 << fine);
    for (std::size_t d = 0; d < 3; ++d)
    {
        if (d >= D)
        {
            out[d] = 0;
            if (x[d] != 0.)
            {
                return false;
            }
            continue;
        }
        double k = (x[d] - g.org) / h;
        out[d]   = std::lround(k);
        if (!near(k, static_cast<double>(out[d])))
        {
            return false;
        }
    }
    return true;
}

const HighFive::ShimData& dataset(mc::Case& c, const std::string& who, const pugi::xml_node& item, const std::string& file, u64 n)
{
    std::string text = item.text().get();
    REQ(c, std::string(item.attribute("Format").value()) == "HDF", "format", who + ": data item is not in HDF format");
    auto pos = text.find(".h5:");
    REQ(c, pos != std::string::npos && text.substr(0, pos) == file, "reference", who + ": data item refers to " + text);
    auto& f = HighFive::shim_files()[scratch + "/" + file + ".h5"];
    auto it = f.find(text.substr(pos + 4));
    REQ(c, it != f.end(), "reference", who + ": data set " + text + " does not exist");
    u64 dims = item.attribute("Dimensions").as_ullong();
    u64 size = 1;
    for (auto s : it->second.dims)
    {
        size *= s;
    }
    REQ(c, dims == n && size == n, "size", who + ": data set " + text + " has " + std::to_string(size) + " entries, declared " + std::to_string(dims) + ", expected " + std::to_string(n));
    REQ(c, it->second.fully_written(), "written", who + ": data set " + text + " is not completely written");
    return it->second;
}

// check one grid of the description file
void check_grid(mc::Case& c, const std::string& who, const pugi::xml_node& grid, const std::string& file, const Geo& g, int fine, const LSet<D>& cells, const std::vector<Comp>& comps)
{
    constexpr std::size_t nv = 1 << D;
    auto topo                = grid.child("Topology");
    auto geom                = grid.child("Geometry");
    REQ(c, topo && geom, "grid", who + ": no topology or geometry");
    static const char* names[] = {"", "Polyline", "Quadrilateral", "Hexahedron"};
    REQ(c, std::string(topo.attribute("TopologyType").value()) == names[D], "topology", who + ": elements are " + topo.attribute("TopologyType").value());
    u64 n = topo.attribute("NumberOfElements").as_ullong();
    REQ(c, n == cells.size(), "count", who + ": " + std::to_string(n) + " elements for " + std::to_string(cells.size()) + " cells");
    auto conn = dataset(c, who, topo.child("DataItem"), file, n * nv).template as<std::size_t>();
    REQ(c, std::string(geom.attribute("GeometryType").value()) == "XYZ", "geometry", who + ": geometry type");
    u64 np3  = geom.child("DataItem").attribute("Dimensions").as_ullong();
    auto pts = dataset(c, who, geom.child("DataItem"), file, np3).template as<double>();
    REQ(c, np3 % 3 == 0, "geometry", who + ": points do not have three coordinates");
    u64 np = np3 / 3;
    std::vector<std::array<long, 3>> v(np);
    std::set<std::array<long, 3>> distinct;
    for (u64 k = 0; k < np; ++k)
    {
        REQ(c, snap(&pts[3 * k], g, fine, v[k]), "vertex", who + ": point " + std::to_string(k) + " is not a corner of any cell");
        REQ(c, distinct.insert(v[k]).second, "vertex", who + ": the point (" + std::to_string(v[k][0]) + "," + std::to_string(v[k][1]) + "," + std::to_string(v[k][2]) + ")/" + std::to_string(1 << fine) + " is written twice");
    }
    // elements -> cells
    std::vector<LCell<D>> order;
    LSet<D> seen;
    std::vector<char> used(np, 0);
    for (u64 e = 0; e < n; ++e)
    {
        std::array<std::array<long, 3>, nv> q;
        std::array<long, 3> lo{1L << 40, 1L << 40, 1L << 40}, hi{-(1L << 40), -(1L << 40), -(1L << 40)};
        for (std::size_t k = 0; k < nv; ++k)
        {
            auto id = conn[e * nv + k];
            REQ(c, id < np, "connectivity", who + ": element " + std::to_string(e) + " refers to point " + std::to_string(id) + " of " + std::to_string(np));
            used[id] = 1;
            q[k]     = v[id];
            for (std::size_t d = 0; d < 3; ++d)
            {
                lo[d] = std::min(lo[d], q[k][d]);
                hi[d] = std::max(hi[d], q[k][d]);
            }
        }
        long len = hi[0] - lo[0];
        int lev  = fine;
        while (lev > 0 && len > (1L << (fine - lev)))
        {
            --lev;
        }
        REQ(c, len == (1L << (fine - lev)), "connectivity", who + ": element " + std::to_string(e) + " is not a cell");
        std::set<std::array<long, 3>> corners(q.begin(), q.end());
        REQ(c, corners.size() == nv, "connectivity", who + ": element " + std::to_string(e) + " has a repeated corner");
        LCell<D> cell;
        cell.level = lev;
        for (std::size_t d = 0; d < D; ++d)
        {
            REQ(c, hi[d] - lo[d] == len && lo[d] % len == 0, "connectivity", who + ": element " + std::to_string(e) + " is not a cell");
            cell.p[d] = static_cast<int>(lo[d] / len);
        }
        for (auto& x : q)
        {
            for (std::size_t d = 0; d < D; ++d)
            {
                REQ(c, x[d] == lo[d] || x[d] == hi[d], "connectivity", who + ": element " + std::to_string(e) + " is not made of the corners of a cell");
            }
        }
        auto dist = [&](std::size_t a, std::size_t b)
        {
            int m = 0;
            for (std::size_t d = 0; d < D; ++d)
            {
                m += q[a][d] != q[b][d];
            }
            return m;
        };
        for (std::size_t k = 0; k + 1 < nv || k < nv; ++k)
        {
            if (D == 1)
            {
                break;
            }
            std::size_t nx = (k % 4 == 3) ? k - 3 : k + 1;
            REQ(c, dist(k, nx) == 1, "orientation", who + ": the corners of element " + std::to_string(e) + " are not in the order of a " + names[D]);
            REQ(c, D < 3 || k >= 4 || dist(k, k + 4) == 1, "orientation", who + ": the corners of element " + std::to_string(e) + " are not in the order of a hexahedron");
        }
        REQ(c, cells.count(cell), "cells", who + ": element " + str<D>(cell) + " is not a cell of the saved collection");
        REQ(c, seen.insert(cell).second, "cells", who + ": cell " + str<D>(cell) + " is written twice");
        order.push_back(cell);
    }
    for (u64 k = 0; k < np; ++k)
    {
        REQ(c, used[k], "vertex", who + ": point " + std::to_string(k) + " belongs to no element");
    }
    // data
    std::size_t na = 0;
    for (auto a : grid.children("Attribute"))
    {
        (void)a;
        ++na;
    }
    REQ(c, na == comps.size(), "fields", who + ": " + std::to_string(na) + " attributes for " + std::to_string(comps.size()) + " components");
    for (auto& f : comps)
    {
        auto a = grid.find_child_by_attribute("Attribute", "Name", f.name.c_str());
        REQ(c, a && std::string(a.attribute("Center").value()) == "Cell", "fields", who + ": no cell attribute " + f.name);
        auto& ds = dataset(c, who + " field " + f.name, a.child("DataItem"), file, n);
        std::vector<double> val;
        if (f.integer)
        {
            for (auto x : ds.template as<int>())
            {
                val.push_back(x);
            }
        }
        else
        {
            val = ds.template as<double>();
        }
        for (u64 e = 0; e < n; ++e)
        {
            REQ(c, val[e] == generic<D>(order[e], f.salt), "value", who + " field " + f.name + ": element " + str<D>(order[e]) + " carries " + std::to_string(val[e]) + " instead of " + std::to_string(generic<D>(order[e], f.salt)));
        }
        c.transitions(n);
    }
}

// check the whole description file
void check_file(mc::Case& c, const std::string& what, const std::string& file, const Geo& g, int fine, const std::vector<Expect>& expect, const std::vector<Comp>& comps)
{
    pugi::xml_document doc;
    std::string path = scratch + "/" + file + ".xdmf";
    REQ(c, doc.load_file(path.c_str()), "file", what + ": the description file cannot be read");
    auto dom = doc.child("Xdmf").child("Domain");
    REQ(c, dom, "file", what + ": no domain");
    // collect the grids that carry cells
    std::vector<std::pair<std::vector<std::string>, pugi::xml_node>> grids;
    std::function<void(pugi::xml_node, std::vector<std::string>)> walk = [&](pugi::xml_node nd, std::vector<std::string> names)
    {
        for (auto ch : nd.children("Grid"))
        {
            auto nn = names;
            nn.push_back(ch.attribute("Name").value());
            if (ch.child("Topology"))
            {
                grids.push_back({nn, ch});
            }
            walk(ch, nn);
        }
    };
    walk(dom, {});
    std::size_t found = 0;
    for (auto& e : expect)
    {
        if (e.cells.empty())
        {
            continue;
        }
        const pugi::xml_node* hit = nullptr;
        for (auto& [names, nd] : grids)
        {
            bool ok = (e.top.empty() ? names.size() == 1 : names.size() == 2 && names[0] == e.top) && (e.sub.empty() || names.back() == e.sub);
            if (ok)
            {
                REQ(c, !hit, "grid", what + ": several grids " + e.top + "/" + e.sub);
                hit = &nd;
            }
        }
        REQ(c, hit, "grid", what + ": no grid " + e.top + "/" + e.sub);
        check_grid(c, what + " " + e.top + "/" + e.sub, *hit, file, g, fine, e.cells, comps);
        ++found;
    }
    REQ(c, found == grids.size(), "grid", what + ": " + std::to_string(grids.size()) + " grids instead of " + std::to_string(found));
    ::unlink(path.c_str());
    HighFive::shim_files().clear();
}

LSet<D> at_level(const LSet<D>& s, int l)
{
    LSet<D> r;
    for (auto& x : s)
    {
        if (x.level == l)
        {
            r.insert(x);
        }
    }
    return r;
}

const std::vector<Comp> COMPS = {{"u", 1, false}, {"v_0", 10, false}, {"v_1", 11, false}, {"w_0", 20, false}, {"w_1", 21, false}, {"w_2", 22, false}, {"n", 30, true}};

template <class F>
void fill(F& f, const LSet<D>& cells, u64 salt)
{
    set_all<D>(f, cells,
               [&](const LCell<D>& x, std::size_t e)
               {
                   return generic<D>(x, salt + e);
               });
}

// a mesh with sub-meshes
template <class M>
void save_mesh(mc::Case& c, const std::string& who, const M& mesh_, const Geo& g, int fine, bool by_level, bool by_mesh)
{
    using id = typename M::mesh_id_t;
    auto mesh = mesh_;
    auto u    = samurai::make_field<double, 1>("u", mesh);
    auto v    = samurai::make_field<double, 2>("v", mesh);
    auto w    = samurai::make_field<double, 3, true>("w", mesh);
    auto n    = samurai::make_field<int, 1>("n", mesh);
    auto all  = cells_of<D>(mesh[id::reference]);
    fill(u, all, 1);
    fill(v, all, 10);
    fill(w, all, 20);
    fill(n, all, 30);
    std::vector<std::pair<std::string, LSet<D>>> subs;
    if (by_mesh)
    {
        for (std::size_t k = 0; k < static_cast<std::size_t>(id::count); ++k)
        {
            subs.push_back({fmt::format("{}", static_cast<id>(k)), cells_of<D>(mesh[static_cast<id>(k)])});
        }
    }
    else
    {
        subs.push_back({"", cells_of<D>(mesh[id::cells])});
    }
    std::vector<Expect> ex;
    for (auto& [name, cells] : subs)
    {
        if (by_level)
        {
            for (int l = 0; l <= fine + 1; ++l)
            {
                std::string top = "Level " + std::to_string(l);
                ex.push_back({top, by_mesh ? "level_" + std::to_string(l) + "_" + name : "", at_level(cells, l)});
            }
        }
        else
        {
            ex.push_back({name, by_mesh ? name : "", cells});
        }
    }
    using base = samurai::Mesh_base<M, typename M::config>;
    samurai::Hdf5Options<base> opt(by_level, by_mesh);
    const base& b = mesh;
    if (by_level || by_mesh)
    {
        samurai::save(fs::path(scratch), "m", opt, b, u, v, w, n);
    }
    else
    {
        samurai::save(fs::path(scratch), "m", mesh, u, v, w, n);
    }
    check_file(c, who + (by_level ? " by level" : "") + (by_mesh ? " by sub-mesh" : ""), "m", g, fine + 1, ex, COMPS);
}

using MR  = samurai::MRMesh<samurai::MRConfig<D>>;
using AMR = samurai::amr::Mesh<samurai::amr::Config<D>>;
using CA  = samurai::CellArray<D>;

void ca_case(mc::Case& c, const std::vector<LCell<D>>& lv, const Geo& g, int fine)
{
    samurai::CellList<D> cl(xt::xtensor_fixed<double, xt::xshape<D>>(xt::ones<double>({D}) * g.org), g.scal);
    for (auto& x : lv)
    {
        cl[static_cast<std::size_t>(x.level)][yz<D>(x.p)].add_point(x.p[0]);
    }
    CA ca(cl, true);
    LSet<D> cells(lv.begin(), lv.end());
    auto h = samurai::holder(ca);
    auto u = samurai::make_field<double, 1>("u", h);
    auto v = samurai::make_field<double, 2>("v", h);
    auto w = samurai::make_field<double, 3, true>("w", h);
    auto n = samurai::make_field<int, 1>("n", h);
    fill(u, cells, 1);
    fill(v, cells, 10);
    fill(w, cells, 20);
    fill(n, cells, 30);
    for (int by_level = 0; by_level < 2; ++by_level)
    {
        for (int by_mesh = 0; by_mesh < 2; ++by_mesh)
        {
            std::vector<Expect> ex;
            if (by_level)
            {
                for (int l = 0; l <= fine; ++l)
                {
                    ex.push_back({"Level " + std::to_string(l), by_mesh ? "level_" + std::to_string(l) + "_cell_array" : "", at_level(cells, l)});
                }
            }
            else
            {
                ex.push_back({by_mesh ? "cell_array" : "", "", cells});
            }
            if (by_level || by_mesh)
            {
                samurai::save(fs::path(scratch), "c", samurai::Hdf5Options<CA>(by_level, by_mesh), ca, u, v, w, n);
            }
            else
            {
                samurai::save(fs::path(scratch), "c", ca, u, v, w, n);
            }
            check_file(c, std::string("cell array") + (by_level ? " by level" : "") + (by_mesh ? " by sub-mesh" : ""), "c", g, fine, ex, COMPS);
            // without fields
            if (by_level && by_mesh)
            {
                samurai::save(fs::path(scratch), "e", ca);
                check_file(c, "cell array without fields", "e", g, fine, {{"", "", cells}}, {});
            }
        }
    }
}

// single level: all subsets of a small box of cells
void lca_family(mc::Run& run, const std::string& nm, int level, const Pos<D>& lo, const Pos<D>& ext, Geo g)
{
    std::vector<Pos<D>> ps;
    Pos<D> hi;
    for (std::size_t d = 0; d < D; ++d)
    {
        hi[d] = lo[d] + ext[d];
    }
    for_box<D>(lo, hi,
               [&](const Pos<D>& p)
               {
                   ps.push_back(p);
               });
    run.family(nm, "all non-empty sets of cells at level " + std::to_string(level) + " in a box of " + std::to_string(ps.size()) + " cells", (u64(1) << ps.size()) - 1,
               [&, level](u64 id, mc::Case& c)
               {
                   u64 mask = id + 1;
                   samurai::LevelCellList<D> lcl(static_cast<std::size_t>(level), xt::xtensor_fixed<double, xt::xshape<D>>(xt::ones<double>({D}) * g.org), g.scal);
                   LSet<D> cells;
                   for (std::size_t k = 0; k < ps.size(); ++k)
                   {
                       if (mask >> k & 1)
                       {
                           lcl[yz<D>(ps[k])].add_point(ps[k][0]);
                           cells.insert({level, ps[k]});
                       }
                   }
                   samurai::LevelCellArray<D> lca(lcl);
                   DESC(c) << "cells " << str<D>(std::vector<LCell<D>>(cells.begin(), cells.end()));
                   samurai::save(fs::path(scratch), "l", lca);
                   check_file(c, "single-level collection", "l", g, level, {{"", "", cells}}, {});
                   samurai::save(fs::path(scratch), "l", samurai::Hdf5Options<samurai::LevelCellArray<D>>(false, true), lca);
                   check_file(c, "single-level collection by sub-mesh", "l", g, level, {{"LevelCellArray", "", cells}}, {});
                   c.outcome(mask);
               });
}

void forest_family(mc::Run& run, const std::string& nm, const Forest<D>& fo, Geo g, bool meshes)
{
    std::array<bool, D> none{};
    auto refm = ref_mesh<MR, D>(fo, none, g.scal, g.org);
    run.family(nm, "all forests, cell arrays and meshes, all options, scalar and vector fields in both layouts and an integer field", fo.count(),
               [&, g, meshes](u64 id, mc::Case& c)
               {
                   auto lv = fo.leaves(id);
                   DESC(c) << "origin " << g.org << " scaling " << g.scal << " leaves " << str<D>(lv);
                   ca_case(c, lv, g, fo.ML());
                   if (meshes && graded<D>(fo, LeafMap<D>(lv), none))
                   {
                       auto m = make_mesh<MR, D>(refm, lv);
                       for (int k = 0; k < 4; ++k)
                       {
                           save_mesh(c, "multiresolution mesh", m, g, fo.ML(), k & 1, k & 2);
                       }
                       if (fo.L0 > 0)
                       {
                           typename AMR::cl_type cl(xt::xtensor_fixed<double, xt::xshape<D>>(xt::ones<double>({D}) * g.org), g.scal);
                           for (auto& x : lv)
                           {
                               cl[static_cast<std::size_t>(x.level)][yz<D>(x.p)].add_point(x.p[0]);
                           }
                           AMR a(cl, static_cast<std::size_t>(fo.L0), static_cast<std::size_t>(fo.ML()));
                           for (int k = 0; k < 4; ++k)
                           {
                               save_mesh(c, "amr mesh", a, g, fo.ML(), k & 1, k & 2);
                           }
                       }
                   }
                   c.outcome(mc::hash_str(str<D>(lv)));
               });
}

void uniform_family(mc::Run& run)
{
    using U = samurai::UniformMesh<samurai::UniformConfig<D>>;
    run.family("uniform", "uniform meshes of all boxes with sides up to 3, levels 0-2", mc::cpow(3, D) * 3 * 2,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   int level = static_cast<int>(dec.take(3));
                   bool bym  = dec.take(2);
                   Geo g{-0.3, 0.7};
                   xt::xtensor_fixed<double, xt::xshape<D>> a, b;
                   for (std::size_t d = 0; d < D; ++d)
                   {
                       a[d] = g.org;
                       b[d] = g.org + g.scal * static_cast<double>(1 + dec.take(3));
                   }
                   U mesh(samurai::Box<double, D>(a, b), static_cast<std::size_t>(level), 0.05, g.scal);
                   DESC(c) << samurai::Box<double, D>(a, b) << " level " << level;
                   auto u   = samurai::make_field<double, 1>("u", mesh);
                   auto v   = samurai::make_field<double, 2>("v", mesh);
                   auto get = [&](auto mid)
                   {
                       LSet<D> s;
                       for (auto& x : cells_at<D>(mesh[mid]))
                       {
                           s.insert(LCell<D>{level, x.p});
                       }
                       return s;
                   };
                   using mid = typename U::mesh_id_t;
                   auto all  = get(mid::reference);
                   for (auto& x : all)
                   {
#if DIM == 1
                       auto i = static_cast<std::size_t>(mesh.get_index(x.p[0]));
#elif DIM == 2
                       auto i = static_cast<std::size_t>(mesh.get_index(x.p[0], x.p[1]));
#else
                       auto i = static_cast<std::size_t>(mesh.get_index(x.p[0], x.p[1], x.p[2]));
#endif
                       fat(u, i, 0) = generic<D>(x, 1);
                       fat(v, i, 0) = generic<D>(x, 10);
                       fat(v, i, 1) = generic<D>(x, 11);
                   }
                   std::vector<Expect> ex;
                   if (bym)
                   {
                       for (std::size_t k = 0; k < static_cast<std::size_t>(mid::count); ++k)
                       {
                           auto nm = fmt::format("{}", static_cast<mid>(k));
                           ex.push_back({nm, "", get(static_cast<mid>(k))});
                       }
                       samurai::save(fs::path(scratch), "n", samurai::Hdf5Options<U>(true), mesh, u, v);
                   }
                   else
                   {
                       ex.push_back({"", "", get(mid::cells)});
                       samurai::save(fs::path(scratch), "n", mesh, u, v);
                   }
                   check_file(c, bym ? "uniform mesh by sub-mesh" : "uniform mesh", "n", g, level, ex, {COMPS[0], COMPS[1], COMPS[2]});
                   c.outcome(mc::hash_str(str<D>(std::vector<LCell<D>>(all.begin(), all.end()))));
               });
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();
    std::string tmpl = std::string(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp") + "/verif_h01_XXXXXX";
    if (!mkdtemp(tmpl.data()))
    {
        std::abort();
    }
    scratch = tmpl;
    std::atexit(
        []
        {
            std::error_code ec;
            fs::remove_all(scratch, ec);
        });
    uniform_family(run);
#if DIM == 1
    lca_family(run, "sets", 1, {-3}, {7}, {0.1, 0.7});
    lca_family(run, "sets0", 0, {0}, {6}, {0., 1.});
    forest_family(run, "r3d2", {{0}, {3}, 0, 2}, {-0.5, 2.}, true);
    forest_family(run, "r2d2L1", {{0}, {2}, 1, 2}, {0.1, 0.3}, true);
    forest_family(run, "r2d3", {{-1}, {2}, 0, 3}, {0.3, 0.1}, T);
    forest_family(run, "r3d1L2", {{-2}, {3}, 2, 1}, {1. / 3, 0.7}, true);
    forest_family(run, "r5d2", {{-2}, {5}, 0, 2}, {0.1, 0.7}, true);
    lca_family(run, "sets3", 3, {-3}, {10}, {0.1, 0.3});
    if (T)
    {
        forest_family(run, "r3d3", {{-1}, {3}, 1, 3}, {0.1, 0.7}, true);
        lca_family(run, "sets14", 3, {-7}, {14}, {0.1, 0.3});
    }
#elif DIM == 2
    lca_family(run, "sets", 1, {-1, -2}, {3, 3}, {0.1, 0.7});
    forest_family(run, "r22d1", {{0, 0}, {2, 2}, 0, 1}, {-0.5, 2.}, true);
    forest_family(run, "r22d1L1", {{0, 0}, {2, 2}, 1, 1}, {0.1, 0.3}, true);
    forest_family(run, "r11d2", {{0, 0}, {1, 1}, 0, 2}, {0.3, 0.7}, true);
    forest_family(run, "r21d2", {{-1, 1}, {2, 1}, 0, 2}, {0.1, 0.1}, T);
    lca_family(run, "sets4", 2, {-2, -1}, {4, 3}, {0.1, 0.3});
    forest_family(run, "r32d1", {{-1, 0}, {3, 2}, 1, 1}, {0.1, 0.7}, true);
    forest_family(run, "r22d1L2", {{-1, 0}, {2, 2}, 2, 1}, {0.1, 0.7}, true);
    if (T)
    {
        lca_family(run, "sets16", 2, {-2, -1}, {4, 4}, {0.1, 0.3});
        forest_family(run, "r33d1", {{-1, 0}, {3, 3}, 2, 1}, {0.1, 0.7}, true);
        forest_family(run, "r31d2", {{-1, 0}, {3, 1}, 0, 2}, {0.1, 0.7}, true);
    }
#else
    lca_family(run, "sets", 1, {-1, -1, 0}, {2, 2, 2}, {0.1, 0.7});
    forest_family(run, "r221d1", {{0, 0, 0}, {2, 2, 1}, 0, 1}, {0.1, 0.3}, true);
    forest_family(run, "r112d1L1", {{0, 0, 0}, {1, 1, 2}, 1, 1}, {-0.5, 0.7}, true);
    forest_family(run, "r111d2", {{-1, 0, 0}, {1, 1, 1}, 0, 2}, {0.1, 0.7}, false);
    if (T)
    {
        lca_family(run, "sets12", 1, {-1, -1, 0}, {2, 3, 2}, {0.1, 0.7});
        forest_family(run, "r222d1", {{-1, 0, 0}, {2, 2, 2}, 0, 1}, {0.1, 0.7}, true);
    }
#endif
    return run.finish();
}
