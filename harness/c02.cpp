// C02: iteration and lookup agree with the stored cells
#include "sam.hpp"
#include <samurai/box.hpp>
#include <samurai/subset/subset_op.hpp>
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;

struct LRun
{
    std::size_t level;
    RunT<D> r;

    bool operator==(const LRun& o) const
    {
        return level == o.level && r == o.r;
    }
};

static std::string str(const std::vector<LRun>& v)
{
    std::string s;
    for (auto& x : v)
    {
        s += std::to_string(x.level) + ":" + sam::str<D>(std::vector<RunT<D>>{x.r});
    }
    return s;
}

template <class It>
std::vector<LRun> collect(It a, It b, std::size_t limit)
{
    std::vector<LRun> r;
    for (; !(a == b) && r.size() < limit; ++a)
    {
        r.push_back({a.level(), mk_run<D>(*a, a.index())});
    }
    return r;
}

// reverse iterators of a LevelCellArray know no level
template <class It>
std::vector<LRun> collect_rev(It a, It b, std::size_t level, std::size_t limit)
{
    std::vector<LRun> r;
    for (; !(a == b) && r.size() < limit; ++a)
    {
        r.push_back({level, mk_run<D>(*a, a.index())});
    }
    return r;
}

template <class C>
void check_random_access(mc::Case& c, C& coll, const std::vector<LRun>& want, const char* tag)
{
    const long n = static_cast<long>(want.size());
    CHK(c, coll.cend() - coll.cbegin() == n, std::string(tag) + "-diff", "end - begin = " + std::to_string(coll.cend() - coll.cbegin()));
    for (long a = 0; a < n; ++a)
    {
        auto it = coll.cbegin();
        it += a;
        LRun x{it.level(), mk_run<D>(*it, it.index())};
        CHK(c, x == want[static_cast<std::size_t>(a)], std::string(tag) + "-advance", "begin + " + std::to_string(a));
        CHK(c, it->start == (*it).start, std::string(tag) + "-arrow", "operator->");
        CHK(c, it - coll.cbegin() == a && coll.cend() - it == n - a, std::string(tag) + "-diff", "difference at " + std::to_string(a));
        CHK(c, (a > 0) == (coll.cbegin() < it) && !(it < it) && it < coll.cend(), std::string(tag) + "-less", "ordering");
        auto jt = coll.cend();
        jt -= n - a;
        LRun y{jt.level(), mk_run<D>(*jt, jt.index())};
        CHK(c, y == want[static_cast<std::size_t>(a)] && jt == it, std::string(tag) + "-retreat", "end - " + std::to_string(n - a));
        for (long b = 0; b <= n; ++b) // any distance, also negative
        {
            auto mt = coll.cbegin();
            mt += b;
            mt += a - b;
            auto nt = coll.cbegin();
            nt += b;
            nt -= b - a;
            CHK(c, mt == it && nt == it && mt->start == it->start && mt.level() == it.level(), std::string(tag) + "-jump", "from " + std::to_string(b) + " by " + std::to_string(a - b));
        }
        // forward then backward then forward
        auto kt = it;
        ++kt;
        --kt;
        LRun z{kt.level(), mk_run<D>(*kt, kt.index())};
        CHK(c, z == want[static_cast<std::size_t>(a)] && kt == it, std::string(tag) + "-zigzag", "++ then -- at " + std::to_string(a));
        if (a > 0)
        {
            auto lt = it;
            --lt;
            ++lt;
            LRun w{lt.level(), mk_run<D>(*lt, lt.index())};
            CHK(c, w == want[static_cast<std::size_t>(a)] && lt == it, std::string(tag) + "-zigzag", "-- then ++ at " + std::to_string(a));
        }
    }
}

template <class Cell>
void check_geometry(mc::Case& c, const Cell& cell, std::size_t level, const Pos<D>& p, const std::array<double, 3>& o, double sf)
{
    double h = sf * std::pow(0.5, static_cast<double>(level));
    CHK(c, cell.level == level, "cell-level", "level of the cell");
    CHK(c, mc::close(cell.length, h, 1e-15), "cell-length", "length " + std::to_string(cell.length));
    auto center = cell.center();
    auto corner = cell.corner();
    for (std::size_t d = 0; d < D; ++d)
    {
        CHK(c, cell.indices[d] == p[d], "cell-indices", "indices");
        double lo = o[d] + h * p[d];
        CHK(c, mc::close(corner[d], lo, 1e-14) && mc::close(cell.corner(d), lo, 1e-14), "cell-corner", "corner");
        CHK(c, mc::close(center[d], lo + h / 2, 1e-14) && mc::close(cell.center(d), lo + h / 2, 1e-14), "cell-center", "center");
        for (int s = -1; s <= 1; s += 2)
        {
            xt::xtensor_fixed<int, xt::xshape<D>> dir;
            dir.fill(0);
            dir[d]  = s;
            auto fc = cell.face_center(dir);
            for (std::size_t e = 0; e < D; ++e)
            {
                double w = o[e] + h * p[e] + h / 2 + (e == d ? s * h / 2 : 0);
                CHK(c, mc::close(fc[e], w, 1e-14), "cell-face", "face centre");
            }
        }
    }
}

template <class LCA, class F>
void lookups(mc::Case& c, const LCA& lca, const CSet<D>& s, const Pos<D>& lo, const Pos<D>& ext, F&& on_cell)
{
    Pos<D> a, b;
    for (std::size_t d = 0; d < D; ++d)
    {
        a[d] = lo[d] - 2;
        b[d] = lo[d] + ext[d] + 2;
    }
    auto R = runs<D>(s);
    for_box<D>(a, b,
               [&](const Pos<D>& p)
               {
                   auto row = samurai::find(lca, xyz<D>(p));
                   if (!s.count(p))
                   {
                       CHK(c, row == -1, "find-false", "find reports an absent cell " + str<D>(p));
                       return;
                   }
                   if (!CHK(c, row >= 0 && static_cast<std::size_t>(row) < R.size(), "find-miss", "find misses " + str<D>(p)))
                   {
                       return;
                   }
                   auto& r = R[static_cast<std::size_t>(row)];
                   bool in = p[0] >= r.start && p[0] < r.end;
                   for (std::size_t d = 1; d < D; ++d)
                   {
                       in = in && r.row[d] == p[d];
                   }
                   CHK(c, in, "find-wrong", "find returns another run for " + str<D>(p));
                   on_cell(p, r);
               });
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();
    const std::array<double, 3> org{-0.75, 2.5, 0.125};

    Pos<D> ext   = D == 1 ? ext3<D>(T ? 16 : 13) : (D == 2 ? ext3<D>(4, T ? 5 : 4) : ext3<D>(2, T ? 3 : 2, T ? 3 : 4));
    const u64 NS = 1ull << volume<D>(ext);
    run.family("level_iter",
               "every subset of a window (3 offsets, one far from the origin at a high level): forward/backward/random-access iteration, const and non-const, lookups of every "
               "coordinate of the window and a margin, numbering, geometry",
               NS * 3,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec d(id);
                   u64 mask = d.take(NS);
                   int o    = static_cast<int>(d.take(3));
                   Pos<D> lo;
                   for (std::size_t k = 0; k < D; ++k)
                   {
                       lo[k] = o == 0 ? 1 : (o == 1 ? -2 - static_cast<int>(k) : (k % 2 ? 150001 : -100003));
                   }
                   auto s = from_mask<D>(mask, lo, ext);
                   DESC(c) << "set " << str<D>(s);
                   std::size_t level = mask % 7 + (o == 2 ? 11 : 0);
                   auto lca          = to_lca<D>(level, s);
                   auto ocoord       = lca.origin_point();
                   for (std::size_t k = 0; k < D; ++k)
                   {
                       ocoord[k] = org[k];
                   }
                   double sf = o == 0 ? 1. : 0.4;
                   lca.set_origin_point(ocoord);
                   lca.set_scaling_factor(sf);
                   lca.update_index();
                   std::vector<LRun> want;
                   for (auto& r : runs<D>(s))
                   {
                       want.push_back({level, r});
                   }
                   const auto& cl  = lca;
                   std::size_t lim = want.size() + 3;
                   auto chk        = [&](const std::vector<LRun>& got, const std::vector<LRun>& w, const char* t)
                   {
                       CHK(c, got == w, t, std::string(t) + " visits " + ::str(got) + " expected " + ::str(w));
                   };
                   chk(collect(lca.begin(), lca.end(), lim), want, "iter");
                   chk(collect(cl.begin(), cl.end(), lim), want, "const-iter");
                   chk(collect(cl.cbegin(), cl.cend(), lim), want, "const-iter");
                   auto rev = want;
                   std::reverse(rev.begin(), rev.end());
                   if (!want.empty())
                   {
                       chk(collect_rev(lca.rbegin(), lca.rend(), level, lim), rev, "reverse-iter");
                       chk(collect_rev(cl.rbegin(), cl.rend(), level, lim), rev, "const-reverse-iter");
                       chk(collect_rev(cl.rcbegin(), cl.rcend(), level, lim), rev, "const-reverse-iter");
                   }
                   check_random_access(c, cl, want, "lca");
                   // numbering and lookup
                   std::map<Pos<D>, long, RevLess<D>> num;
                   long k = 0;
                   for (auto& p : s)
                   {
                       num[p] = k++;
                   }
                   lookups(c,
                           cl,
                           s,
                           lo,
                           ext,
                           [&](const Pos<D>& p, const RunT<D>& r)
                           {
                               auto& i1 = cl.get_interval(xyz<D>(p));
                               CHK(c, i1.start == r.start && i1.end == r.end, "get_interval", "get_interval(coord)");
                               typename samurai::LevelCellArray<D>::interval_t q{p[0], r.end};
                               auto& i2 = cl.get_interval(q, yz<D>(p));
                               CHK(c, &i1 == &i2, "get_interval", "get_interval(interval, index)");
                               long idx = num[p];
                               CHK(c, cl.get_index(xyz<D>(p)) == idx, "get_index", "get_index(coord) of " + str<D>(p) + " = " + std::to_string(cl.get_index(xyz<D>(p))));
                               CHK(c, cl.get_index(p[0], yz<D>(p)) == idx, "get_index", "get_index(i, others)");
                               auto cell = cl.get_cell(xyz<D>(p));
                               check_geometry(c, cell, level, p, org, sf);
                               CHK(c, cell.index == idx, "cell-index", "index of the cell");
                               auto cell2 = cl.get_cell(p[0], yz<D>(p));
                               CHK(c, cell2 == cell && !(cell2 != cell), "get_cell", "get_cell(i, others)");
                               if constexpr (D == 1)
                               {
                                   CHK(c, cl.get_index(p[0]) == idx && cl.get_cell(p[0]) == cell && &cl.get_interval(q) == &i1, "variadic", "variadic lookup");
                               }
                               else if constexpr (D == 2)
                               {
                                   CHK(c, cl.get_index(p[0], p[1]) == idx && cl.get_cell(p[0], p[1]) == cell && &cl.get_interval(q, p[1]) == &i1, "variadic", "variadic lookup");
                               }
                               else
                               {
                                   CHK(c, cl.get_index(p[0], p[1], p[2]) == idx && cl.get_cell(p[0], p[1], p[2]) == cell
                                               && &cl.get_interval(q, p[1], p[2]) == &i1,
                                           "variadic",
                                           "variadic lookup");
                               }
                               auto other = cell;
                               other.index++;
                               CHK(c, other != cell, "cell-neq", "cells with different index compare equal");
                               other = cell;
                               other.indices[D - 1]++;
                               CHK(c, other != cell, "cell-neq", "cells at different places compare equal");
                               other = cell;
                               other.level++;
                               CHK(c, other != cell, "cell-neq", "cells on different levels compare equal");
                           });
                   c.outcome(hash<D>(s));
               });

    // several levels, with gaps
    {
        constexpr std::size_t NL = 4;
        Pos<D> e2                = D == 1 ? ext3<D>(T ? 5 : 4) : ext3<D>(2, 2, 1);
        if (D == 3)
        {
            e2 = ext3<D>(1, 2, 2);
        }
        u64 n1 = 1ull << volume<D>(e2);
        run.family("levels_iter",
                   "every combination of subsets of a window on 4 levels, possibly with empty levels in between: iteration, numbering, lookup",
                   mc::ipow(n1, NL) * 2,
                   [&](u64 id, mc::Case& c)
                   {
                       mc::Dec d(id);
                       std::array<CSet<D>, NL> sets;
                       Pos<D> lo;
                       lo.fill(-1);
                       for (auto& s : sets)
                       {
                           s = from_mask<D>(d.take(n1), lo, e2);
                       }
                       std::size_t l0 = d.take(2) ? 17 : 0;
                       samurai::CellList<D> cl;
                       std::vector<LRun> want;
                       std::size_t total = 0;
                       for (std::size_t l = 0; l < NL; ++l)
                       {
                           DESC(c) << " L" << l0 + l << str<D>(sets[l]);
                           total += sets[l].size();
                           for (auto& r : runs<D>(sets[l]))
                           {
                               cl[l0 + l][yz<D>(r.row)].add_interval({r.start, r.end});
                               want.push_back({l0 + l, r});
                           }
                       }
                       samurai::CellArray<D> ca(cl);
                       auto ocoord = ca.origin_point();
                       for (std::size_t k = 0; k < D; ++k)
                       {
                           ocoord[k] = org[k];
                       }
                       ca.set_origin_point(ocoord);
                       ca.set_scaling_factor(0.3);
                       const auto& cca = ca;
                       auto chk        = [&](const std::vector<LRun>& got, const std::vector<LRun>& w, const char* t)
                       {
                           CHK(c, got == w, t, std::string(t) + " visits " + ::str(got) + " expected " + ::str(w));
                       };
                       std::size_t lim = want.size() + 3;
                       chk(collect(ca.begin(), ca.end(), lim), want, "ca-iter");
                       chk(collect(cca.begin(), cca.end(), lim), want, "ca-const-iter");
                       chk(collect(cca.cbegin(), cca.cend(), lim), want, "ca-const-iter");
                       auto rev = want;
                       std::reverse(rev.begin(), rev.end());
                       if (!want.empty())
                       {
                           chk(collect(ca.rbegin(), ca.rend(), lim), rev, "ca-reverse-iter");
                           chk(collect(cca.rcbegin(), cca.rcend(), lim), rev, "ca-const-reverse-iter");
                       }
                       check_random_access(c, cca, want, "ca");
                       long idx = 0;
                       u64 h    = 5;
                       std::set<long> seen;
                       for (std::size_t l = 0; l < NL; ++l)
                       {
                           std::size_t L = l0 + l;
                           h             = mc::mix(h, hash<D>(sets[l]));
                           std::map<Pos<D>, long, RevLess<D>> num;
                           for (auto& p : sets[l])
                           {
                               num[p] = idx++;
                           }
                           if (sets[l].empty())
                           {
                               continue;
                           }
                           lookups(c,
                                   cca[L],
                                   sets[l],
                                   lo,
                                   e2,
                                   [&](const Pos<D>& p, const RunT<D>& r)
                                   {
                                       typename samurai::CellArray<D>::interval_t q{p[0], p[0] + 1};
                                       auto i1 = cca.get_interval(L, xyz<D>(p));
                                       auto i2 = cca.get_interval(L, q, yz<D>(p));
                                       CHK(c, i1 == i2 && i1.start == r.start && i1.end == r.end, "ca-get_interval", "get_interval");
                                       long k = num[p];
                                       seen.insert(k);
                                       CHK(c, cca.get_index(L, xyz<D>(p)) == k && cca.get_index(L, p[0], yz<D>(p)) == k, "ca-get_index", "get_index of " + str<D>(p));
                                       auto cell  = cca.get_cell(L, xyz<D>(p));
                                       auto cell2 = cca.get_cell(L, p[0], yz<D>(p));
                                       CHK(c, cell.index == k && cell == cell2, "ca-get_cell", "get_cell");
                                       check_geometry(c, cell, L, p, org, 0.3);
                                       CHK(c, mc::close(cca.cell_length(L), cell.length, 1e-15), "ca-length", "cell_length(level)");
                                   });
                       }
                       CHK(c, seen.size() == total, "ca-numbering", "cells are not numbered one by one");
                       c.outcome(h);
                   });
    }
    return run.finish();
}
