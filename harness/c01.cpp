// C01: cell collections contain exactly the inserted cells
#include "sam.hpp"
#include <samurai/box.hpp>
#include <samurai/subset/subset_op.hpp>
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;

template <class LCA>
std::vector<RunT<D>> stored_runs(const LCA& lca)
{
    std::vector<RunT<D>> r;
    samurai::for_each_interval(lca,
                               [&](std::size_t, const auto& i, const auto& y)
                               {
                                   r.push_back(mk_run<D>(i, y));
                               });
    return r;
}

// raw compressed structure -> runs, decoded by hand through the documented
// public accessors ([d] and offsets), not through the iterators
template <class LCA>
std::vector<RunT<D>> raw_runs(const LCA& lca, bool& ok)
{
    std::vector<RunT<D>> r;
    ok = true;
    std::function<void(std::size_t, std::size_t, std::size_t, Pos<D>)> rec = [&](std::size_t d, std::size_t b, std::size_t e, Pos<D> row)
    {
        for (std::size_t k = b; k < e && ok; ++k)
        {
            if (k >= lca[d].size())
            {
                ok = false;
                return;
            }
            auto i = lca[d][k];
            if (d == 0)
            {
                RunT<D> x{};
                x.row   = row;
                x.start = i.start;
                x.end   = i.end;
                r.push_back(x);
            }
            else
            {
                for (int c = i.start; c < i.end && ok; ++c)
                {
                    row[d]   = c;
                    auto off = static_cast<std::size_t>(i.index + c);
                    auto& o  = lca.offsets(d);
                    if (off + 1 >= o.size())
                    {
                        ok = false;
                        return;
                    }
                    rec(d - 1, o[off], o[off + 1], row);
                }
            }
        }
    };
    Pos<D> row{};
    rec(D - 1, 0, lca[D - 1].size(), row);
    return r;
}

template <class LCA>
void check_lca(mc::Case& c, const LCA& lca, std::size_t level, const CSet<D>& s, const char* tag)
{
    auto want = runs<D>(s);
    auto got  = stored_runs(lca);
    CHK(c, got == want, std::string(tag) + "-runs", "stored runs " + str<D>(got) + " expected " + str<D>(want));
    bool ok;
    auto raw = raw_runs(lca, ok);
    CHK(c, ok && raw == want, std::string(tag) + "-raw", "compressed rows " + str<D>(raw) + " expected " + str<D>(want));
    CHK(c, lca.nb_cells() == s.size(), std::string(tag) + "-nb", "nb_cells " + std::to_string(lca.nb_cells()));
    CHK(c, lca.empty() == s.empty(), std::string(tag) + "-empty", "empty()");
    CHK(c, lca.level() == level, std::string(tag) + "-level", "level()");
    CHK(c, lca.shape()[0] == want.size(), std::string(tag) + "-shape", "shape()[0]");
    // number of maximal runs per dimension
    std::size_t total = 0;
    for (std::size_t d = 0; d < D; ++d)
    {
        // maximal runs along d of the projection onto dimensions d..D-1
        CSet<D> proj;
        for (auto p : s)
        {
            for (std::size_t k = 0; k < d; ++k)
            {
                p[k] = 0;
            }
            proj.insert(p);
        }
        std::size_t n = 0;
        for (auto& p : proj)
        {
            auto q = p;
            q[d]--;
            n += !proj.count(q);
        }
        CHK(c, lca.shape()[d] == n, std::string(tag) + "-shape", "runs along dimension " + std::to_string(d));
        total += n;
    }
    CHK(c, lca.nb_intervals() == total, std::string(tag) + "-nbint", "nb_intervals");
    if (!s.empty())
    {
        auto mn = lca.min_indices();
        auto mx = lca.max_indices();
        auto mm = lca.minmax_indices();
        for (std::size_t d = 0; d < D; ++d)
        {
            int lo = 1 << 20, hi = -(1 << 20);
            for (auto& p : s)
            {
                lo = std::min(lo, p[d]);
                hi = std::max(hi, p[d] + 1);
            }
            CHK(c, mn[d] == lo && mx[d] == hi && mm[d].first == lo && mm[d].second == hi, std::string(tag) + "-bounds", "min/max indices");
        }
    }
}

// build a LevelCellList in one of several insertion orders / granularities
samurai::LevelCellList<D> build(std::size_t level, const CSet<D>& s, int style)
{
    samurai::LevelCellList<D> lcl(level);
    auto R = runs<D>(s);
    std::vector<Pos<D>> cells(s.begin(), s.end());
    using cell_t = samurai::Cell<D, samurai::default_config::interval_t>;
    switch (style)
    {
        case 0: // runs in order
            for (auto& r : R)
            {
                lcl[yz<D>(r.row)].add_interval({r.start, r.end});
            }
            break;
        case 1: // runs in reverse order
            for (std::size_t k = R.size(); k-- > 0;)
            {
                lcl[yz<D>(R[k].row)].add_interval({R[k].start, R[k].end});
            }
            break;
        case 2: // points, in order
            for (auto& p : cells)
            {
                lcl[yz<D>(p)].add_point(p[0]);
            }
            break;
        case 3: // points, strided order (odd ones first, reversed), then all again as overlapping pairs
            for (std::size_t k = cells.size(); k-- > 0;)
            {
                if (k & 1)
                {
                    lcl[yz<D>(cells[k])].add_point(cells[k][0]);
                }
            }
            for (std::size_t k = 0; k < cells.size(); ++k)
            {
                auto q = cells[k];
                q[0]++;
                lcl[yz<D>(cells[k])].add_interval({cells[k][0], cells[k][0] + (s.count(q) ? 2 : 1)});
            }
            break;
        case 4: // cells
            for (std::size_t k = cells.size(); k-- > 0;)
            {
                typename cell_t::coords_t o;
                o.fill(0);
                cell_t cell(o, 1., level, xyz<D>(cells[k]), 0);
                lcl.add_cell(cell);
            }
            break;
    }
    return lcl;
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();

    if constexpr (D == 1)
    {
        // Closure: every canonical list over a window x every insertion.  Since
        // the resulting list is checked to be the canonical list of the union,
        // induction over the history covers all insertion sequences inside the
        // window.
        const int W  = T ? 12 : 9;
        const int NI = (W + 3) * (W + 3); // start, end in -1 .. W+1
        run.family("list_closure",
                   "every set of runs over a window, then every single insertion (also empty, inverted, outside): list = union",
                   (1ull << W) * static_cast<u64>(NI) * 3,
                   [&](u64 id, mc::Case& c)
                   {
                       mc::Dec d(id);
                       u64 mask  = d.take(1ull << W);
                       int s     = static_cast<int>(d.take(W + 3)) - 1;
                       int e     = static_cast<int>(d.take(W + 3)) - 1;
                       int style = static_cast<int>(d.take(3));
                       int off   = -W / 2;
                       auto base = from_mask<1>(mask, {off}, {W});
                       samurai::ListOfIntervals<int> l;
                       auto R = runs<1>(base);
                       if (style == 0)
                       {
                           for (auto& r : R)
                           {
                               l.add_interval({r.start, r.end});
                           }
                       }
                       else if (style == 1)
                       {
                           for (std::size_t k = R.size(); k-- > 0;)
                           {
                               l.add_interval({R[k].start, R[k].end});
                           }
                       }
                       else
                       {
                           for (auto& p : base)
                           {
                               l.add_point(p[0]);
                           }
                       }
                       DESC(c) << "list " << str<1>(base) << " insert [" << s + off << "," << e + off << ")";
                       l.add_interval({s + off, e + off});
                       for (int x = s + off; x < e + off; ++x)
                       {
                           base.insert({x});
                       }
                       auto want = runs<1>(base);
                       std::vector<RunT<1>> got;
                       for (auto& i : l)
                       {
                           got.push_back({{0}, i.start, i.end});
                       }
                       CHK(c, got == want, "list", "list holds " + str<1>(got) + " expected " + str<1>(want));
                       CHK(c, l.size() == want.size() && l.empty() == want.empty(), "list-size", "size()/empty()");
                       c.outcome(hash<1>(got));
                       c.transitions(1);
                   });
        // explicit histories: all sequences of insertions (no reduction), as a
        // cross-check of the induction argument
        const int V = T ? 7 : 6;
        std::vector<std::pair<int, int>> al;
        for (int s = -2; s < V - 2; ++s)
        {
            for (int e = s; e <= V - 2; ++e)
            {
                al.push_back({s, e});
            }
        }
        const unsigned K = T ? 4 : 3;
        run.family("list_histories",
                   "all sequences of " + std::to_string(K) + " insertions of (possibly empty) intervals of a window",
                   mc::ipow(al.size(), K),
                   [&](u64 id, mc::Case& c)
                   {
                       mc::Dec d(id);
                       samurai::ListOfIntervals<int> l;
                       CSet<1> s;
                       for (unsigned k = 0; k < K; ++k)
                       {
                           auto [a, b] = al[d.take(al.size())];
                           DESC(c) << "[" << a << "," << b << ") ";
                           l.add_interval({a, b});
                           for (int x = a; x < b; ++x)
                           {
                               s.insert({x});
                           }
                           std::vector<RunT<1>> got;
                           for (auto& i : l)
                           {
                               got.push_back({{0}, i.start, i.end});
                           }
                           CHK(c, got == runs<1>(s), "list-history", "after step " + std::to_string(k) + " list holds " + str<1>(got));
                           c.outcome(hash<1>(got));
                           c.transitions(1);
                       }
                   });
    }

    // all subsets of a window, all build styles
    Pos<D> ext = D == 1 ? ext3<D>(T ? 16 : 14) : (D == 2 ? ext3<D>(4, T ? 5 : 4) : ext3<D>(T ? 3 : 2, T ? 2 : 3, 3));
    const u64 NS   = 1ull << volume<D>(ext);
    const int NOFF = 4;
    const int NST  = 5;
    run.family("array",
               "every subset of a window, 5 insertion orders (runs, reversed runs, points, overlapping, cells), 4 window offsets (one far from the origin at a high level)",
               NS * NOFF * NST,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec d(id);
                   u64 mask = d.take(NS);
                   int o    = static_cast<int>(d.take(NOFF));
                   int st   = static_cast<int>(d.take(NST));
                   Pos<D> lo;
                   for (std::size_t k = 0; k < D; ++k)
                   {
                       lo[k] = o == 0 ? 0 : (o == 1 ? -2 : (o == 2 ? -7 + static_cast<int>(k) : (k % 2 ? 150001 : -100003)));
                   }
                   auto s = from_mask<D>(mask, lo, ext);
                   DESC(c) << "set " << str<D>(s) << " style " << st;
                   std::size_t level = mask % 5 + (o == 3 ? 12 : 0);
                   auto lcl          = build(level, s, st);
                   CHK(c, lcl.level() == level, "lcl-level", "level of the list");
                   CHK(c, lcl.empty() == s.empty(), "lcl-empty", "empty() of the list");
                   samurai::LevelCellArray<D> lca(lcl);
                   check_lca(c, lca, level, s, "lca");
                   // equality: same set built differently is equal; any one-cell change is unequal
                   auto ref = to_lca<D>(level, s);
                   CHK(c, lca == ref, "lca-eq", "equal sets compare unequal");
                   if (st == 0)
                   {
                       auto mut  = mask ^ (1ull << (mask % volume<D>(ext)));
                       auto sm   = from_mask<D>(mut, lo, ext);
                       auto lcam = to_lca<D>(level, sm);
                       CHK(c, !(lca == lcam), "lca-neq", "different sets compare equal: " + str<D>(sm));
                       auto lcal = to_lca<D>(level + 1, s);
                       CHK(c, !(lca == lcal), "lca-neq-level", "sets on different levels compare equal");
                       // copy
                       samurai::LevelCellArray<D> cp(lca);
                       check_lca(c, cp, level, s, "copy");
                       // through a set expression and back
                       if (!s.empty())
                       {
                           auto expr = samurai::intersection(lca, lca);
                           samurai::LevelCellArray<D> back(expr);
                           check_lca(c, back, level, s, "subset-ctor");
                       }
                   }
                   c.outcome(hash<D>(s));
               });

    // integer boxes
    {
        const int B = D == 1 ? 9 : (D == 2 ? 5 : 4);
        u64 per     = static_cast<u64>(B * B);
        run.family("box",
                   "every integer box with corners in a window: same cells as inserting them one by one",
                   mc::ipow(per, D),
                   [&](u64 id, mc::Case& c) -> bool
                   {
                       mc::Dec d(id);
                       typename samurai::Box<int, D>::point_t a, b;
                       Pos<D> lo, hi;
                       for (std::size_t k = 0; k < D; ++k)
                       {
                           a[k] = lo[k] = static_cast<int>(d.take(B)) - 2;
                           b[k] = hi[k] = static_cast<int>(d.take(B)) - 1;
                           if (lo[k] >= hi[k])
                           {
                               return false;
                           }
                       }
                       CSet<D> s;
                       for_box<D>(lo, hi,
                                  [&](const Pos<D>& p)
                                  {
                                      s.insert(p);
                                  });
                       DESC(c) << "box " << str<D>(lo) << str<D>(hi);
                       samurai::LevelCellArray<D> lca(3, samurai::Box<int, D>(a, b));
                       check_lca(c, lca, 3, s, "box");
                       c.outcome(hash<D>(s));
                       return true;
                   });
    }

    // several levels
    {
        constexpr std::size_t NL = 3;
        Pos<D> e2 = D == 1 ? ext3<D>(4) : ext3<D>(2, 2, 1);
        u64 n1 = 1ull << volume<D>(e2);
        run.family("levels",
                   "every combination of subsets of a window on 3 levels (possibly with empty levels in between), 2 starting levels",
                   mc::ipow(n1, NL) * 3,
                   [&](u64 id, mc::Case& c)
                   {
                       mc::Dec d(id);
                       std::array<CSet<D>, NL> sets;
                       for (auto& s : sets)
                       {
                           Pos<D> lo;
                           lo.fill(-1);
                           s = from_mask<D>(d.take(n1), lo, e2);
                       }
                       std::size_t l0 = d.take(3);
                       l0             = l0 == 2 ? 18 : l0; // also at the top of the admissible range of levels
                       samurai::CellList<D> cl;
                       std::size_t total = 0, mn = 999, mx = 0;
                       for (std::size_t l = 0; l < NL; ++l)
                       {
                           DESC(c) << " L" << l0 + l << str<D>(sets[l]);
                           for (auto& r : runs<D>(sets[l]))
                           {
                               cl[l0 + l][yz<D>(r.row)].add_interval({r.start, r.end});
                           }
                           total += sets[l].size();
                           if (!sets[l].empty())
                           {
                               mn = std::min(mn, l0 + l);
                               mx = std::max(mx, l0 + l);
                           }
                       }
                       samurai::CellArray<D> ca(cl);
                       u64 h = 5;
                       for (std::size_t l = 0; l < NL; ++l)
                       {
                           check_lca(c, ca[l0 + l], l0 + l, sets[l], "ca");
                           CHK(c, ca.nb_cells(l0 + l) == sets[l].size(), "ca-nb-level", "nb_cells(level)");
                           h = mc::mix(h, hash<D>(sets[l]));
                       }
                       CHK(c, ca.nb_cells() == total, "ca-nb", "nb_cells()");
                       if (total)
                       {
                           CHK(c, ca.min_level() == mn && ca.max_level() == mx, "ca-minmax", "min_level/max_level");
                       }
                       samurai::CellArray<D> cb(cl, false), cc;
                       CHK(c, cb.nb_cells() == total, "ca-nb", "nb_cells() without numbering");
                       cc = ca;
                       CHK(c, cc == ca, "ca-eq", "copy unequal");
                       // one-cell change on one level
                       samurai::CellList<D> cl2;
                       std::size_t ch = id % NL;
                       for (std::size_t l = 0; l < NL; ++l)
                       {
                           auto s2 = sets[l];
                           if (l == ch)
                           {
                               Pos<D> q;
                               q.fill(0);
                               if (!s2.erase(q))
                               {
                                   s2.insert(q);
                               }
                           }
                           for (auto& r : runs<D>(s2))
                           {
                               cl2[l0 + l][yz<D>(r.row)].add_interval({r.start, r.end});
                           }
                       }
                       samurai::CellArray<D> cd(cl2);
                       CHK(c, !(cd == ca), "ca-neq", "different collections compare equal");
                       c.outcome(h);
                   });
    }
    return run.finish();
}
