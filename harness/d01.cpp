// D01: the meshed domain approximates the requested box within tolerance.
#include "sam_mesh.hpp"
#include <samurai/algorithm.hpp>
#include <samurai/amr/mesh.hpp>
#include <samurai/mr/mesh.hpp>
#include <samurai/uniform_mesh.hpp>
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;
using BoxD  = samurai::Box<double, D>;
using point = BoxD::point_t;

std::string num(double x)
{
    char b[64];
    std::snprintf(b, sizeof b, "%.17g", x);
    return b;
}

bool close(double a, double b, double scale)
{
    return std::abs(a - b) <= 1e-10 * scale;
}

// --- operations on boxes -----------------------------------------------------------
void ops_family(mc::Run& run)
{
    const int R = 2; // corners in {-R..R}
    u64 per     = mc::cpow(static_cast<u64>(2 * R + 1), D);
    run.family("ops", "all pairs of corners in {-2..2}^d, scaled by factors in {-1..3}", per * per,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   using BoxI = samurai::Box<int, D>;
                   BoxI::point_t a, b;
                   point ad, bd;
                   for (std::size_t d = 0; d < D; ++d)
                   {
                       a[d]  = static_cast<int>(dec.take(2 * R + 1)) - R;
                       b[d]  = static_cast<int>(dec.take(2 * R + 1)) - R;
                       ad[d] = 0.25 * a[d];
                       bd[d] = 0.25 * b[d];
                   }
                   BoxI box(a, b);
                   BoxD bx(ad, bd);
                   DESC(c) << box;
                   bool valid = true;
                   int mn     = 100;
                   for (std::size_t d = 0; d < D; ++d)
                   {
                       valid = valid && a[d] < b[d];
                       mn    = std::min(mn, b[d] - a[d]);
                       REQ(c, box.length()[d] == b[d] - a[d] && bx.length()[d] == 0.25 * (b[d] - a[d]), "length", "length in direction " + std::to_string(d));
                       REQ(c, box.min_corner()[d] == a[d] && box.max_corner()[d] == b[d], "corner", "corner in direction " + std::to_string(d));
                   }
                   REQ(c, box.is_valid() == valid && bx.is_valid() == valid, "valid", "validity");
                   REQ(c, box.min_length() == mn && bx.min_length() == 0.25 * mn, "min_length", "shortest side");
                   for (int f = -1; f <= 3; ++f)
                   {
                       auto p = box * f, q = f * box;
                       BoxI r(box);
                       auto& r2 = (r *= f);
                       auto s   = bx * (0.5 * f);
                       REQ(c, &r2 == &r, "scale", "*= does not return the box");
                       for (std::size_t d = 0; d < D; ++d)
                       {
                           REQ(c, p.min_corner()[d] == f * a[d] && p.max_corner()[d] == f * b[d] && q.min_corner()[d] == f * a[d] && q.max_corner()[d] == f * b[d] && r.min_corner()[d] == f * a[d] && r.max_corner()[d] == f * b[d], "scale",
                               "box scaled by " + std::to_string(f));
                           REQ(c, s.min_corner()[d] == 0.125 * f * a[d] && s.max_corner()[d] == 0.125 * f * b[d], "scale", "box scaled by " + num(0.5 * f));
                           REQ(c, box.min_corner()[d] == a[d], "scale", "scaling changed the original");
                       }
                       c.transitions(1);
                   }
                   c.outcome(mc::mix(id, static_cast<u64>(mn)));
               });
}

// --- meshing a box -------------------------------------------------------------------
// sides and origins as exact fractions n/den
struct Req
{
    int den;
    std::array<int, D> lo, ext;
    double tol;   // <=0: default
    int scale;    // given subdivision length scale/den, 0: none
    BoxD box() const
    {
        point a, b;
        for (std::size_t d = 0; d < D; ++d)
        {
            a[d] = static_cast<double>(lo[d]) / den;
            b[d] = static_cast<double>(lo[d] + ext[d]) / den;
        }
        return {a, b};
    }
    double len(std::size_t d) const
    {
        return static_cast<double>(ext[d]) / den;
    }
    int mn() const
    {
        return *std::min_element(ext.begin(), ext.end());
    }
    double tolerance() const
    {
        return tol > 0 ? tol : 0.05;
    }
};

// the number of cells per direction, checked to be a full box of cells starting at zero
template <class Set>
std::string full_box(const Set& s, std::array<long, D>& n)
{
    Pos<D> lo, hi;
    lo.fill(1 << 30);
    hi.fill(-(1 << 30));
    u64 total = 0;
    samurai::for_each_interval(s,
                               [&](std::size_t, const auto& i, const auto& yz)
                               {
                                   lo[0] = std::min(lo[0], static_cast<int>(i.start));
                                   hi[0] = std::max(hi[0], static_cast<int>(i.end));
                                   for (std::size_t d = 1; d < D; ++d)
                                   {
                                       lo[d] = std::min(lo[d], static_cast<int>(yz[d - 1]));
                                       hi[d] = std::max(hi[d], static_cast<int>(yz[d - 1]) + 1);
                                   }
                                   total += static_cast<u64>(i.size());
                               });
    u64 vol = 1;
    for (std::size_t d = 0; d < D; ++d)
    {
        if (lo[d] != 0)
        {
            return "cells start at " + std::to_string(lo[d]) + " in direction " + std::to_string(d);
        }
        n[d] = hi[d];
        vol *= static_cast<u64>(hi[d]);
    }
    return vol == total ? "" : "the cells do not fill a box";
}

// cells of one level against the request
template <class Set>
bool region(mc::Case& c, const Req& q, const std::string& who, const Set& s, int level, double h, double scal, std::array<long, D>& n)
{
    auto err = full_box(s, n);
    REQ(c, err.empty(), "cells", who + ": " + err);
    REQ(c, scal > 0 && h == scal / (1 << level), "cell_length", who + ": cell length " + num(h) + " at level " + std::to_string(level) + " for subdivision length " + num(scal));
    REQ(c, q.scale == 0 || scal == static_cast<double>(q.scale) / q.den, "scaling", who + ": subdivision length " + num(scal) + " instead of the requested one");
    bool exact = true;
    for (std::size_t d = 0; d < D; ++d)
    {
        exact = exact && q.ext[d] % (q.scale ? q.scale : q.mn()) == 0;
    }
    for (std::size_t d = 0; d < D; ++d)
    {
        double L = q.len(d), cov = static_cast<double>(n[d]) * h;
        std::string w = who + ": direction " + std::to_string(d) + ", " + std::to_string(n[d]) + " cells of " + num(h) + " cover " + num(cov) + " of the requested " + num(L);
        REQ(c, n[d] % (1 << level) == 0, "whole", w + ", not a whole number of coarsest cells");
        REQ(c, cov >= L * (1 - 1e-9), "short", w);
        if (q.scale)
        {
            REQ(c, cov < L + scal * (1 - 1e-9), "long", w);
        }
        else
        {
            REQ(c, cov <= L * (1 + q.tolerance() + 1e-9), "tolerance", w + ", tolerance " + num(q.tolerance()));
        }
        REQ(c, !exact || close(cov, L, L), "exact", w + " although all sides are multiples of the subdivision length");
    }
    return true;
}

// coordinates of all cells
template <class Set>
bool coordinates(mc::Case& c, const Req& q, const std::string& who, const Set& s, const std::array<long, D>& n, double h)
{
    std::string bad;
    std::vector<char> seen(static_cast<std::size_t>(std::accumulate(n.begin(), n.end(), 1L, std::multiplies<long>())), 0);
    samurai::for_each_cell(s,
                           [&](const auto& cell)
                           {
                               if (!bad.empty())
                               {
                                   return;
                               }
                               auto cor = cell.corner();
                               auto cen = cell.center();
                               std::size_t at = 0;
                               for (std::size_t d = D; d-- > 0;)
                               {
                                   double lo = static_cast<double>(q.lo[d]) / q.den, sc = std::abs(lo) + static_cast<double>(n[d]) * h;
                                   double k  = (cor[d] - lo) / h;
                                   if (!close(k, cell.indices[d], 1. + sc / h) || !close(cell.corner(d), cor[d], sc))
                                   {
                                       bad = "corner of cell " + std::to_string(cell.indices[d]) + " in direction " + std::to_string(d) + " is " + num(cor[d]);
                                   }
                                   if (!close(cen[d], lo + (cell.indices[d] + 0.5) * h, sc) || !close(cell.center(d), cen[d], sc))
                                   {
                                       bad = "center of cell " + std::to_string(cell.indices[d]) + " in direction " + std::to_string(d) + " is " + num(cen[d]);
                                   }
                                   for (int sg : {-1, 1})
                                   {
                                       xt::xtensor_fixed<int, xt::xshape<D>> dir;
                                       dir.fill(0);
                                       dir[d] = sg;
                                       auto f = cell.face_center(dir);
                                       for (std::size_t e = 0; e < D; ++e)
                                       {
                                           if (!close(f[e], cen[e] + (e == d ? 0.5 * sg * h : 0.), sc + std::abs(cen[e])))
                                           {
                                               bad = "face center in direction " + std::to_string(d);
                                           }
                                       }
                                   }
                                   at = at * static_cast<std::size_t>(n[d]) + static_cast<std::size_t>(cell.indices[d]);
                               }
                               if (cell.length != h)
                               {
                                   bad = "cell length " + num(cell.length);
                               }
                               if (at >= seen.size() || seen[at]++)
                               {
                                   bad = "a cell is visited twice or outside";
                               }
                           });
    REQ(c, bad.empty(), "coordinates", who + ": " + bad);
    c.transitions(seen.size());
    return true;
}

// every part of a mesh reports the same origin and cell size: each sub-collection and each of its levels, the domain, the
// subdomain, the union
template <class M, class P>
bool parts(mc::Case& c, const std::string& who, const M& mesh, const P& org, double scal)
{
    auto one = [&](const auto& x, const std::string& what)
    {
        for (std::size_t d = 0; d < D; ++d)
        {
            REQ(c, x.origin_point()[d] == org[d], "part-origin", who + ": origin of " + what + " is " + num(x.origin_point()[d]) + " in direction " + std::to_string(d));
        }
        REQ(c, x.scaling_factor() == scal, "part-scaling", who + ": subdivision length of " + what + " is " + num(x.scaling_factor()));
        return true;
    };
    auto cells = [&](const auto& x, const std::string& what)
    {
        if (!one(x, what))
        {
            return false;
        }
        bool ok = true;
        samurai::for_each_cell(x,
                               [&](const auto& cell)
                               {
                                   double h = scal / static_cast<double>(1 << cell.level);
                                   for (std::size_t d = 0; d < D; ++d)
                                   {
                                       ok = ok && close(cell.center(d), org[d] + h * (cell.indices[d] + 0.5), std::abs(org[d]) + h * (1 + std::abs(cell.indices[d])));
                                   }
                                   ok = ok && cell.length == h;
                               });
        REQ(c, ok, "part-cells", who + ": coordinates of the cells of " + what);
        return true;
    };
    if (!one(mesh, "the mesh"))
    {
        return false;
    }
    for (std::size_t k = 0; k < static_cast<std::size_t>(M::mesh_id_t::count); ++k)
    {
        if (!cells(mesh[static_cast<typename M::mesh_id_t>(k)], "sub-collection " + std::to_string(k)))
        {
            return false;
        }
    }
    if constexpr (!std::is_same_v<M, samurai::UniformMesh<samurai::UniformConfig<D>>>)
    {
        if (!cells(mesh.domain(), "the domain") || !cells(mesh.subdomain(), "the subdomain"))
        {
            return false;
        }
        for (std::size_t l = 0; l <= mesh.max_level() + 1; ++l)
        {
            if (!mesh.get_union()[l].empty() && !cells(mesh.get_union()[l], "the union at level " + std::to_string(l)))
            {
                return false;
            }
        }
    }
    return true;
}

// moving and rescaling a mesh moves and rescales all of its parts
template <class M>
void move_case(mc::Case& c, const std::string& who, const M& mesh)
{
    auto org    = mesh.origin_point();
    double scal = mesh.scaling_factor();
    if (!parts(c, who, mesh, org, scal))
    {
        return;
    }
    M other(mesh);
    auto o2 = org;
    for (std::size_t d = 0; d < D; ++d)
    {
        o2[d] += 0.75 - 2. * static_cast<double>(d);
    }
    other.set_origin_point(o2);
    if (!parts(c, who + " after moving", other, o2, scal))
    {
        return;
    }
    other.set_scaling_factor(0.4);
    if (!parts(c, who + " after rescaling", other, o2, 0.4))
    {
        return;
    }
    double now = 0.4;
    if constexpr (!std::is_same_v<M, samurai::UniformMesh<samurai::UniformConfig<D>>>)
    {
        other.scale_domain(2.5);
        now = 2.5 * 0.4;
        if (!parts(c, who + " after scaling the domain", other, o2, now))
        {
            return;
        }
    }
    // a mesh derived from it, as an adaptation does
    if constexpr (!std::is_same_v<M, samurai::UniformMesh<samurai::UniformConfig<D>>>)
    {
        typename M::cl_type cl;
        auto& cells = other[M::mesh_id_t::cells];
        samurai::for_each_interval(cells, [&](std::size_t l, const auto& i, const auto& index) { cl[l][index].add_interval(i); });
        M derived(cl, other);
        if (!parts(c, who + ": mesh built from its leaves", derived, o2, now))
        {
            return;
        }
        M sw(mesh);
        sw.swap(derived);
        if (!parts(c, who + ": after swapping with another mesh", sw, o2, now) || !parts(c, who + ": after swapping with another mesh", derived, org, scal))
        {
            return;
        }
    }
    parts(c, who + " (the original of a moved copy)", mesh, org, scal);
}

template <class M>
void mesh_case(mc::Case& c, const Req& q, const std::string& who, int level, const M& mesh, double scal, const std::array<long, D>& want)
{
    std::array<long, D> n;
    auto& cells = mesh[M::mesh_id_t::cells];
    double h    = mesh.cell_length(static_cast<std::size_t>(level));
    if (!region(c, q, who, cells, level, h, mesh.scaling_factor(), n))
    {
        return;
    }
    REQ(c, mesh.scaling_factor() == scal && n == want, "consistent", who + " differs from the cell set of the same box");
    for (std::size_t d = 0; d < D; ++d)
    {
        REQ(c, mesh.origin_point()[d] == q.box().min_corner()[d], "origin", who + ": origin in direction " + std::to_string(d));
    }
    if (coordinates(c, q, who, cells, n, h))
    {
        move_case(c, who, mesh);
    }
}

void request(mc::Case& c, const Req& q, int lmax, u64 max_cells)
{
    auto box       = q.box();
    double given   = q.scale ? static_cast<double>(q.scale) / q.den : 0.;
    double s0      = given;
    auto ap        = samurai::approximate_box(box, q.tolerance(), s0);
    double scal    = -1;
    std::array<long, D> n0{};
    for (int l = 0; l <= lmax; ++l)
    {
        const std::size_t lv = static_cast<std::size_t>(l);
        samurai::LevelCellArray<D> lca = given > 0 ? samurai::LevelCellArray<D>(lv, box, q.tolerance(), given) : q.tol > 0 ? samurai::LevelCellArray<D>(lv, box, q.tol) : samurai::LevelCellArray<D>(lv, box);
        std::array<long, D> n;
        std::string who = "cell set at level " + std::to_string(l);
        double h        = lca.cell_length();
        if (!region(c, q, who, lca, l, h, lca.scaling_factor(), n))
        {
            return;
        }
        if (l == 0)
        {
            scal = lca.scaling_factor();
            n0   = n;
            REQ(c, s0 == scal, "scaling", "approximate_box chooses " + num(s0) + ", the cell set " + num(scal));
            for (std::size_t d = 0; d < D; ++d)
            {
                REQ(c, ap.min_corner()[d] == box.min_corner()[d] && close(ap.length()[d], static_cast<double>(n[d]) * h, ap.length()[d] + std::abs(box.min_corner()[d])), "approx", "the approximated box is not the region covered, direction " + std::to_string(d));
            }
        }
        REQ(c, lca.scaling_factor() == scal, "levels", who + ": the subdivision length depends on the level");
        u64 total = 1;
        for (std::size_t d = 0; d < D; ++d)
        {
            REQ(c, n[d] == n0[d] * (1 << l), "levels", who + ": " + std::to_string(n[d]) + " cells in direction " + std::to_string(d) + ", " + std::to_string(n0[d]) + " at level 0");
            REQ(c, lca.origin_point()[d] == box.min_corner()[d], "origin", who + ": origin");
            total *= static_cast<u64>(n[d]);
        }
        if (total > max_cells)
        {
            break;
        }
        if (!coordinates(c, q, who, lca, n, h))
        {
            return;
        }
        if (q.tol > 0 || q.scale)
        {
            using MR = samurai::MRMesh<samurai::MRConfig<D>>;
            mesh_case(c, q, "multiresolution mesh", l, MR(box, 0, lv, q.tolerance(), given), scal, n);
            using U = samurai::UniformMesh<samurai::UniformConfig<D>>;
            mesh_case(c, q, "uniform mesh", l, U(box, lv, q.tolerance(), given), scal, n);
        }
        else
        {
            using MR = samurai::MRMesh<samurai::MRConfig<D>>;
            mesh_case(c, q, "multiresolution mesh", l, MR(box, lv, lv), scal, n);
            std::array<bool, D> per{};
            mesh_case(c, q, "multiresolution mesh (periodicity given)", l, MR(box, 0, lv, per), scal, n);
            using U = samurai::UniformMesh<samurai::UniformConfig<D>>;
            mesh_case(c, q, "uniform mesh", l, U(box, lv), scal, n);
            if (l > 0)
            {
                using A = samurai::amr::Mesh<samurai::amr::Config<D>>;
                mesh_case(c, q, "amr mesh", l, A(box, lv, 1, lv), scal, n);
            }
        }
    }
    c.outcome(mc::mix(static_cast<u64>(n0[0]), static_cast<u64>(scal * 1e6)));
}

void mesh_family(mc::Run& run, const std::string& nm, std::vector<int> dens, std::vector<int> los, int emax, std::vector<double> tols, std::vector<int> scales, int lmax, u64 max_cells)
{
    u64 ne = mc::cpow(static_cast<u64>(emax), D), nl = mc::cpow(los.size(), D);
    run.family(nm, "boxes with all sides up to " + std::to_string(emax) + " units, all choices of the corner from " + std::to_string(los.size()) + " positions per direction, " + std::to_string(dens.size()) + " units, "
                       + std::to_string(tols.size()) + " tolerances, " + std::to_string(scales.size()) + " subdivision lengths, levels 0-" + std::to_string(lmax),
               dens.size() * tols.size() * scales.size() * ne * nl,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   Req q;
                   q.den   = dens[dec.take(dens.size())];
                   q.tol   = tols[dec.take(tols.size())];
                   q.scale = scales[dec.take(scales.size())];
                   for (std::size_t d = 0; d < D; ++d)
                   {
                       q.lo[d]  = los[dec.take(los.size())];
                       q.ext[d] = 1 + static_cast<int>(dec.take(static_cast<u64>(emax)));
                   }
                   DESC(c) << q.box() << " unit 1/" << q.den << " tolerance " << q.tolerance() << " subdivision " << q.scale;
                   request(c, q, lmax, max_cells);
               });
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();
    ops_family(run);
#if DIM == 1
    mesh_family(run, "box", {1, 2, 3, 5, 6, 7, 8, 9, 10, 100}, {-13, -7, -3, -2, -1, 0, 1, 2, 3, 4, 7, 11}, 60, {0., 0.01, 0.2}, {0}, T ? 6 : 4, 2000);
    mesh_family(run, "given", {1, 2, 3, 5, 6, 7, 8, 9, 10, 100}, {-7, -2, 0, 1, 2, 3, 7}, 60, {0.}, {1, 2, 3, 4, 5, 6, 7, 8}, 2, 200);
#elif DIM == 2
    mesh_family(run, "box", {1, 3, 7, 10}, {-3, 0, 2}, T ? 30 : 18, {0., 0.01, 0.2}, {0}, 2, 400);
    mesh_family(run, "box_far", {10, 100}, {-7, 1, 4}, T ? 25 : 14, {0.}, {0}, 1, 200);
    mesh_family(run, "given", {1, 3, 10}, {-1, 0, 2}, T ? 20 : 12, {0.}, {1, 2, 3}, 1, 100);
#else
    mesh_family(run, "box", {1, 10}, {0, 2}, T ? 8 : 5, {0.}, {0}, 1, 300);
    mesh_family(run, "given", {3, 10}, {0, 1}, 3, {0.}, {1, 2}, 1, 100);
#endif
    return run.finish();
}
