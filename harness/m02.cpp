// M02: graduation yields the coarsest graded refinement
#include <algorithm>
#include <map>

#include "sam_mesh.hpp"
#include <samurai/algorithm/graduation.hpp>
#include <samurai/algorithm/update.hpp>
#include <samurai/amr/mesh.hpp>
#include <samurai/graduation.hpp>
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;

using Offs = std::vector<Pos<D>>;

Offs star(int w)
{
    Offs v;
    for (std::size_t d = 0; d < D; ++d)
    {
        for (int k = -w; k <= w; ++k)
        {
            if (k != 0)
            {
                Pos<D> p{};
                p[d] = k;
                v.push_back(p);
            }
        }
    }
    return v;
}

Offs boxo()
{
    Offs v;
    for_nb<D>(1,
              [&](const Pos<D>& p)
              {
                  if (p != Pos<D>{})
                  {
                      v.push_back(p);
                  }
              });
    return v;
}

Offs corners()
{
    Offs v;
    for_nb<D>(1,
              [&](const Pos<D>& p)
              {
                  bool all = true;
                  for (auto x : p)
                  {
                      all &= x != 0;
                  }
                  if (all)
                  {
                      v.push_back(p);
                  }
              });
    return v;
}

template <std::size_t N>
auto sten(const Offs& o)
{
    samurai::Stencil<N, D> s;
    s.fill(0);
    for (std::size_t i = 0; i < o.size() && i < N; ++i)
    {
        for (std::size_t d = 0; d < D; ++d)
        {
            s(i, d) = o[i][d];
        }
    }
    return s;
}

// leaves at least two levels coarser than a leaf they touch (through one of the offsets)
LSet<D> too_coarse(const LSet<D>& leaf, const Offs& offs)
{
    LeafMap<D> lm(std::vector<LCell<D>>(leaf.begin(), leaf.end()));
    LSet<D> bad;
    for (auto& c : leaf)
    {
        for (auto& o : offs)
        {
            auto k = lm.cover({c.level, add<D>(c.p, o)});
            if (k.level >= 0 && k.level < c.level - 1)
            {
                bad.insert(k);
            }
        }
    }
    return bad;
}

void split(LSet<D>& s, const LCell<D>& c)
{
    s.erase(c);
    for (int k = 0; k < (1 << D); ++k)
    {
        Pos<D> q;
        for (std::size_t d = 0; d < D; ++d)
        {
            q[d] = 2 * c.p[d] + (k >> d & 1);
        }
        s.insert({c.level + 1, q});
    }
}

LSet<D> closure(LSet<D> s, const Offs& offs)
{
    while (true)
    {
        auto bad = too_coarse(s, offs);
        if (bad.empty())
        {
            return s;
        }
        for (auto& b : bad)
        {
            split(s, b);
        }
    }
}

template <std::size_t W>
void ca_case(mc::Case& c, const LSet<D>& leaves, const Offs& offs)
{
    using CL = samurai::CellList<D>;
    using CA = samurai::CellArray<D>;
    CL cl(xt::xtensor_fixed<double, xt::xshape<D>>(xt::ones<double>({D}) * 0.5), 2.);
    {
        auto v = to_cl<CL, D>(std::vector<LCell<D>>(leaves.begin(), leaves.end()));
        for (auto& l : leaves)
        {
            cl[static_cast<std::size_t>(l.level)][yz<D>(l.p)].add_point(l.p[0]);
        }
    }
    CA ca(cl, true);
    const auto s = sten<1 + 2 * D * W>(offs);
    const bool g = too_coarse(leaves, offs).empty();
    CHK(c, (samurai::is_graduated<CA, W>(ca, s)) == g, "is_graduated", std::string("is_graduated should say ") + (g ? "yes" : "no"));
    CHK(c, cells_of<D>(ca) == leaves, "is_graduated-const", "is_graduated changed the cells");
    CA in = ca;
    samurai::make_graduation<CA, W>(ca, s);
    auto got  = cells_of<D>(ca);
    auto want = closure(leaves, offs);
    CHK(c, got == want, "graduation", "graduated cells: " + diff<D>(got, want));
    CHK(c, (samurai::is_graduated<CA, W>(ca, s)), "is_graduated", "is_graduated denies the graduated cells");
    CHK(c, ca.nb_cells() == want.size(), "nb_cells", "number of cells after graduation");
    for (std::size_t l = 0; l <= CA::max_size; ++l)
    {
        if (!ca[l].empty())
        {
            CHK(c, ca[l].scaling_factor() == 2. && ca[l].origin_point()[0] == 0.5, "region", "graduation moved or rescaled the cells");
        }
    }
    CA again = ca;
    samurai::make_graduation<CA, W>(again, s);
    CHK(c, cells_of<D>(again) == got, "idempotent", "graduating a graded collection changes it");
    if (g)
    {
        CHK(c, got == leaves, "idempotent", "graduating a graded collection changes it");
    }
    c.outcome(hash<D>(got));
    c.transitions(got.size());
}

void ca_families(mc::Run& run, const Forest<D>& fo, const std::string& tag)
{
    auto go = [&](auto w, const Offs& offs, const std::string& nm)
    {
        constexpr std::size_t W = decltype(w)::value;
        run.family("cells_" + nm + "_" + tag, "all forests of " + std::to_string(volume<D>(fo.ext)) + " roots of depth " + std::to_string(fo.depth), fo.count(),
                   [&](u64 id, mc::Case& c)
                   {
                       auto lv = fo.leaves(id);
                       DESC(c) << "leaves " << str<D>(lv) << " stencil " << nm;
                       ca_case<W>(c, LSet<D>(lv.begin(), lv.end()), offs);
                   });
    };
    go(std::integral_constant<std::size_t, 1>{}, star(1), "star1");
    go(std::integral_constant<std::size_t, 2>{}, star(2), "star2");
    if constexpr (D == 2)
    {
        go(std::integral_constant<std::size_t, 2>{}, boxo(), "box");
        go(std::integral_constant<std::size_t, 1>{}, corners(), "corners");
    }
    if constexpr (D == 3)
    {
        go(std::integral_constant<std::size_t, 2>{}, corners(), "corners");
    }
}

// collections with holes: every leaf present or not
void hole_family(mc::Run& run, const Forest<D>& fo, const std::string& tag, unsigned max_leaves)
{
    run.family("holes_" + tag, "all forests with every subset of at most " + std::to_string(max_leaves) + " leaves removed", fo.count() << max_leaves,
               [&](u64 id, mc::Case& c)
               {
                   u64 mask = id & ((1ull << max_leaves) - 1);
                   auto lv  = fo.leaves(id >> max_leaves);
                   if (lv.size() > max_leaves || (lv.size() < max_leaves && mask >> lv.size() != 0))
                   {
                       return false;
                   }
                   LSet<D> s;
                   for (std::size_t k = 0; k < lv.size(); ++k)
                   {
                       if (!(mask >> k & 1))
                       {
                           s.insert(lv[k]);
                       }
                   }
                   if (s.empty())
                   {
                       return false;
                   }
                   DESC(c) << "cells " << str<D>(s);
                   ca_case<1>(c, s, star(1));
                   return true;
               });
}

// deep local refinement: one root refined towards every position of the deepest level (large level jumps)
void chain_family(mc::Run& run, const Pos<D>& lo, const Pos<D>& ext, int L0, int depth, const std::string& tag)
{
    const u64 paths = mc::ipow(1u << D, static_cast<unsigned>(depth));
    run.family("chain_" + tag, "one of " + std::to_string(volume<D>(ext)) + " roots refined towards each of its cells of depth " + std::to_string(depth) + ", both stopping depths, star and box stencils",
               paths * volume<D>(ext) * 3,
               [=](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   u64 path = dec.take(paths), root = dec.take(volume<D>(ext)), kind = dec.take(3);
                   LSet<D> s;
                   LCell<D> cur{};
                   u64 n = 0;
                   for_box<D>(lo, add<D>(lo, ext),
                          [&](const Pos<D>& p)
                          {
                              s.insert({L0, p});
                              if (n++ == root)
                              {
                                  cur = {L0, p};
                              }
                          });
                   for (int l = 0; l < depth; ++l)
                   {
                       split(s, cur);
                       u64 k = path % (1u << D);
                       path /= (1u << D);
                       Pos<D> q;
                       for (std::size_t d = 0; d < D; ++d)
                       {
                           q[d] = 2 * cur.p[d] + static_cast<int>(k >> d & 1);
                       }
                       cur = {cur.level + 1, q};
                   }
                   DESC(c) << "refined towards " << str<D>(cur) << " stencil " << kind;
                   if (kind == 0)
                   {
                       ca_case<1>(c, s, star(1));
                   }
                   else if (kind == 1)
                   {
                       ca_case<2>(c, s, star(2));
                   }
                   else
                   {
                       // without the finest siblings: an even larger jump
                       LSet<D> t;
                       for (auto& x : s)
                       {
                           if (x.level == L0 || x.level == L0 + depth)
                           {
                               t.insert(x);
                           }
                       }
                       ca_case<1>(c, t, star(1));
                   }
               });
}

enum
{
    KEEP = 1,
    COARSEN = 2,
    REFINE = 4
};

// flag-driven graduation: flags are closed so that the flag-driven update keeps a graded partition
template <class Mesh, std::size_t NS>
void flag_case(mc::Case& c, const Mesh& ref, const Forest<D>& fo, const std::vector<LCell<D>>& leaves, const std::vector<int>& flag, const Offs& offs)
{
    using id_t = typename Mesh::mesh_id_t;
    Mesh mesh  = make_mesh<Mesh, D>(ref, leaves);
    auto tag   = samurai::make_field<int, 1>("tag", mesh);
    tag.fill(0);
    std::map<LCell<D>, int> fl;
    for (std::size_t k = 0; k < leaves.size(); ++k)
    {
        tag[mesh.get_index(static_cast<std::size_t>(leaves[k].level), xyz<D>(leaves[k].p))] = flag[k];
        fl[leaves[k]]                                                                     = flag[k];
    }
    xt::xtensor_fixed<int, xt::xshape<NS, D>> s;
    for (std::size_t i = 0; i < NS; ++i)
    {
        for (std::size_t d = 0; d < D; ++d)
        {
            s(i, d) = offs[i][d];
        }
    }
    samurai::graduation(tag, s);
    bool same = samurai::update_field(tag);
    auto got  = cells_of<D>(mesh[id_t::cells]);
    LSet<D> old(leaves.begin(), leaves.end());
    CHK(c, same == (got == old), "unchanged-report", "update reports " + std::string(same ? "no change" : "a change") + " wrongly");
    // partition: the leaves tile the domain
    double vol = 0;
    for (auto& x : got)
    {
        vol += std::pow(0.5, static_cast<int>(D) * (x.level - fo.L0));
        CHK(c, x.level >= fo.L0 && x.level <= fo.ML() && fo.inside(x.level, x.p), "level-bounds", "leaf " + str<D>(x) + " outside the level bounds or the domain");
    }
    LeafMap<D> lm(std::vector<LCell<D>>(got.begin(), got.end()));
    for (auto& x : got)
    {
        CHK(c, !lm.finer_below(x), "overlap", "leaf " + str<D>(x) + " overlaps finer leaves");
    }
    CHK(c, mc::close(vol, static_cast<double>(volume<D>(fo.ext))), "partition", "the leaves do not tile the domain: " + str<D>(got));
    CHK(c, too_coarse(got, offs).empty(), "graded", "not graded after the update: " + str<D>(got) + " from " + str<D>(old));
    for (auto& [x, f] : fl)
    {
        if ((f & REFINE) && x.level < fo.ML())
        {
            CHK(c, lm.finer_below(x), "refine-lost", "cell " + str<D>(x) + " flagged to be refined is not");
        }
        else if ((f & KEEP) || (f & REFINE))
        {
            CHK(c, got.count(x) || lm.finer_below(x), "keep-lost", "cell " + str<D>(x) + " flagged to be kept was coarsened");
        }
    }
    c.outcome(mc::mix(hash<D>(got), hash<D>(old)));
    c.transitions(leaves.size());
}

template <class Mesh, std::size_t NS>
void flag_family(mc::Run& run, const std::string& nm, const Forest<D>& fo, const Offs& offs, unsigned full, int dev)
{
    Mesh ref = ref_mesh_cl<Mesh, D>(fo, 2., 0.5);
    // all flag patterns when there are at most `full` leaves, otherwise up to `dev` leaves deviating from a uniform pattern
    struct Item
    {
        u64 forest;
        u64 n;
    };
    std::vector<u64> start, fid;
    u64 tot    = 0;
    auto npat = [&](std::size_t n) -> u64
    {
        if (n <= full)
        {
            return mc::ipow(3, static_cast<unsigned>(n));
        }
        u64 m = 3;
        if (dev > 0)
        {
            m += 3 * n * 2;
        }
        if (dev > 1)
        {
            m += 3 * (n * (n - 1) / 2) * 4;
        }
        return m;
    };
    for (u64 f = 0; f < fo.count(); ++f)
    {
        auto lv = fo.leaves(f);
        LSet<D> s(lv.begin(), lv.end());
        if (!too_coarse(s, boxo()).empty())
        {
            continue;
        }
        start.push_back(tot);
        fid.push_back(f);
        tot += npat(lv.size());
    }
    run.family("flags_" + nm, "all graded forests of " + std::to_string(volume<D>(fo.ext)) + " roots of depth " + std::to_string(fo.depth) + ", all flag patterns for at most "
                                  + std::to_string(full) + " leaves, otherwise up to " + std::to_string(dev) + " deviating leaves",
               tot,
               [&](u64 id, mc::Case& c)
               {
                   auto it = std::upper_bound(start.begin(), start.end(), id) - 1;
                   auto lv = fo.leaves(fid[static_cast<std::size_t>(it - start.begin())]);
                   u64 k   = id - *it;
                   std::vector<int> fl(lv.size());
                   const int code[3] = {KEEP, COARSEN, REFINE};
                   const std::size_t n = lv.size();
                   if (n <= full)
                   {
                       for (auto& f : fl)
                       {
                           f = code[k % 3];
                           k /= 3;
                       }
                   }
                   else
                   {
                       int base = static_cast<int>(k % 3);
                       k /= 3;
                       std::fill(fl.begin(), fl.end(), code[base]);
                       if (k > 0)
                       {
                           --k;
                           if (k < 2 * n)
                           {
                               fl[k / 2] = code[(base + 1 + static_cast<int>(k % 2)) % 3];
                           }
                           else
                           {
                               k -= 2 * n;
                               int v1 = static_cast<int>(k % 2), v2 = static_cast<int>(k / 2 % 2);
                               k /= 4;
                               std::size_t i = 0;
                               while (k >= n - 1 - i)
                               {
                                   k -= n - 1 - i;
                                   ++i;
                               }
                               std::size_t j = i + 1 + k;
                               fl[i]         = code[(base + 1 + v1) % 3];
                               fl[j]         = code[(base + 1 + v2) % 3];
                           }
                       }
                   }
                   if (c.describing)
                   {
                       c.desc() << "leaves ";
                       for (std::size_t q = 0; q < n; ++q)
                       {
                           c.desc() << str<D>(lv[q]) << "=" << (fl[q] == KEEP ? "keep " : fl[q] == COARSEN ? "coarsen " : "refine ");
                       }
                   }
                   flag_case<Mesh, NS>(c, ref, fo, lv, fl, offs);
               });
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();
    using MR     = samurai::MRMesh<samurai::MRConfig<D>>;
    using AM     = samurai::amr::Mesh<samurai::amr::Config<D>>;
    if constexpr (D == 1)
    {
        ca_families(run, {ext3<D>(-1), ext3<D>(2), 0, T ? 4 : 3}, "2r");
        ca_families(run, {ext3<D>(-1), ext3<D>(1), 1, 4}, "1r4");
        ca_families(run, {ext3<D>(-2), ext3<D>(4), 1, 2}, "4r");
        hole_family(run, {ext3<D>(-1), ext3<D>(1), 1, 4}, "1r4", T ? 14 : 7);
        hole_family(run, {ext3<D>(-1), ext3<D>(2), 1, 3}, "2r3", T ? 12 : 8);
        chain_family(run, ext3<D>(-2), ext3<D>(3), 0, T ? 8 : 6, "3r");
        flag_family<AM, 2>(run, "amr_2r", {ext3<D>(0), ext3<D>(2), 1, 3}, star(1), T ? 9 : 7, 2);
        flag_family<AM, 2>(run, "amr_3r", {ext3<D>(-1), ext3<D>(3), 1, 2}, star(1), T ? 9 : 7, 2);
        flag_family<MR, 2>(run, "mr_2r", {ext3<D>(0), ext3<D>(2), 1, 3}, star(1), T ? 9 : 7, 2);
    }
    if constexpr (D == 2)
    {
        ca_families(run, {ext3<D>(-1, -1), ext3<D>(1, 1), 1, 3}, "1r3");
        ca_families(run, {ext3<D>(-1, 0), ext3<D>(2, 1), 0, 2}, "2r2");
        ca_families(run, {ext3<D>(-1, 0), ext3<D>(1, 2), 0, 2}, "2c2");
        ca_families(run, {ext3<D>(-1, -1), ext3<D>(2, 2), 1, 2}, "4r2");
        chain_family(run, ext3<D>(-1, -1), ext3<D>(2, 2), 0, T ? 5 : 4, "4r");
        flag_family<AM, 4>(run, "amr_star", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 1}, star(1), T ? 10 : 8, 2);
        flag_family<AM, 4>(run, "amr_star_d2", {ext3<D>(0, -1), ext3<D>(1, 1), 1, 2}, star(1), T ? 10 : 8, 2);
        flag_family<AM, 4>(run, "amr_corner", {ext3<D>(0, 0), ext3<D>(2, 1), 1, 2}, corners(), 7, T ? 2 : 1);
        flag_family<MR, 4>(run, "mr_star_d2", {ext3<D>(0, 0), ext3<D>(1, 1), 1, 2}, star(1), T ? 10 : 8, T ? 2 : 1);
    }
    if constexpr (D == 3)
    {
        ca_families(run, {ext3<D>(-1, -1, -1), ext3<D>(1, 1, 1), 1, 2}, "1r2");
        chain_family(run, ext3<D>(-1, -1, 0), ext3<D>(2, 2, 1), 0, T ? 4 : 3, "4r");
        flag_family<AM, 6>(run, "amr_star", {ext3<D>(0, 0, 0), ext3<D>(2, 1, 1), 1, 1}, star(1), T ? 9 : 8, 2);
        flag_family<AM, 6>(run, "amr_star_d2", {ext3<D>(0, 0, 0), ext3<D>(1, 1, 1), 1, 2}, star(1), 8, 1);
        ca_families(run, {ext3<D>(-1, -1, -1), ext3<D>(2, 1, 1), 1, 2}, "2r2");
        if (T)
        {
            flag_family<AM, 6>(run, "amr_star_2r_d2", {ext3<D>(0, 0, 0), ext3<D>(2, 1, 1), 1, 2}, star(1), 0, 0);
            flag_family<AM, 4 + 4>(run, "amr_corner_d2", {ext3<D>(0, 0, 0), ext3<D>(1, 1, 1), 1, 2}, corners(), 8, 1);
            flag_family<AM, 6>(run, "amr_star_4r", {ext3<D>(0, 0, 0), ext3<D>(2, 2, 1), 1, 1}, star(1), 8, 2);
        }
    }
    return run.finish();
}
