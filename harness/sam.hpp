// Reference-model helpers shared by the harnesses (independent of samurai's algorithms).
#pragma once
#include "mc.hpp"

#include <map>
#include <numeric>
#include <set>

#include <samurai/cell_array.hpp>
#include <samurai/cell_list.hpp>
#include <samurai/level_cell_array.hpp>
#include <samurai/level_cell_list.hpp>

namespace sam
{
    using mc::u64;

    // a cell position, x first
    template <std::size_t D>
    using Pos = std::array<int, D>;

    // order used by samurai: last dimension slowest, x fastest
    template <std::size_t D>
    struct RevLess
    {
        bool operator()(const Pos<D>& a, const Pos<D>& b) const
        {
            for (std::size_t d = D; d-- > 0;)
            {
                if (a[d] != b[d])
                {
                    return a[d] < b[d];
                }
            }
            return false;
        }
    };

    template <std::size_t D>
    using CSet = std::set<Pos<D>, RevLess<D>>;

    // multi-level cell
    template <std::size_t D>
    struct LCell
    {
        int level;
        Pos<D> p;

        bool operator<(const LCell& o) const
        {
            if (level != o.level)
            {
                return level < o.level;
            }
            return RevLess<D>{}(p, o.p);
        }

        bool operator==(const LCell& o) const
        {
            return level == o.level && p == o.p;
        }
    };

    template <std::size_t D>
    std::string str(const Pos<D>& p)
    {
        std::string s = "(";
        for (std::size_t d = 0; d < D; ++d)
        {
            s += (d ? "," : "") + std::to_string(p[d]);
        }
        return s + ")";
    }

    template <std::size_t D>
    std::string str(const CSet<D>& c)
    {
        std::string s = "{";
        for (auto& p : c)
        {
            s += str<D>(p);
        }
        return s + "}";
    }

    template <std::size_t D>
    std::string str(const LCell<D>& c)
    {
        return std::to_string(c.level) + ":" + str<D>(c.p);
    }

    // box [lo, hi) positions in order
    template <std::size_t D, class F>
    void for_box(const Pos<D>& lo, const Pos<D>& hi, F&& f)
    {
        for (std::size_t d = 0; d < D; ++d)
        {
            if (lo[d] >= hi[d])
            {
                return;
            }
        }
        Pos<D> p = lo;
        while (true)
        {
            f(p);
            std::size_t d = 0;
            while (d < D && ++p[d] == hi[d])
            {
                p[d] = lo[d];
                ++d;
            }
            if (d == D)
            {
                break;
            }
        }
    }

    // subset of the box given by a bit mask
    template <std::size_t D>
    CSet<D> from_mask(u64 mask, const Pos<D>& lo, const Pos<D>& ext)
    {
        CSet<D> s;
        Pos<D> hi;
        for (std::size_t d = 0; d < D; ++d)
        {
            hi[d] = lo[d] + ext[d];
        }
        u64 b = 0;
        for_box<D>(lo, hi,
                   [&](const Pos<D>& p)
                   {
                       if (mask >> b & 1)
                       {
                           s.insert(p);
                       }
                       ++b;
                   });
        return s;
    }

    // runs of a set: (row, start, end)
    template <std::size_t D>
    struct RunT
    {
        std::array<int, D> row; // row[0] unused (0), row[d] transverse coordinates
        int start, end;

        bool operator==(const RunT& o) const
        {
            return row == o.row && start == o.start && end == o.end;
        }
    };

    template <std::size_t D>
    std::vector<RunT<D>> runs(const CSet<D>& s)
    {
        std::vector<RunT<D>> r;
        for (auto& p : s)
        {
            Pos<D> row = p;
            row[0]     = 0;
            if (!r.empty() && r.back().row == row && r.back().end == p[0])
            {
                r.back().end++;
            }
            else
            {
                r.push_back({row, p[0], p[0] + 1});
            }
        }
        return r;
    }

    template <std::size_t D>
    std::string str(const std::vector<RunT<D>>& v)
    {
        std::string s;
        for (auto& r : v)
        {
            s += "[" + std::to_string(r.start) + "," + std::to_string(r.end) + ")@";
            for (std::size_t d = 1; d < D; ++d)
            {
                s += std::to_string(r.row[d]) + (d + 1 < D ? "," : "");
            }
            s += " ";
        }
        return s;
    }

    template <std::size_t D>
    auto yz(const Pos<D>& p)
    {
        xt::xtensor_fixed<int, xt::xshape<D - 1>> y;
        for (std::size_t d = 1; d < D; ++d)
        {
            y[d - 1] = p[d];
        }
        return y;
    }

    template <std::size_t D>
    auto xyz(const Pos<D>& p)
    {
        xt::xtensor_fixed<int, xt::xshape<D>> y;
        for (std::size_t d = 0; d < D; ++d)
        {
            y[d] = p[d];
        }
        return y;
    }

    template <std::size_t D>
    samurai::LevelCellList<D> to_lcl(std::size_t level, const CSet<D>& s)
    {
        samurai::LevelCellList<D> lcl(level);
        for (auto& r : runs<D>(s))
        {
            lcl[yz<D>(r.row)].add_interval({r.start, r.end});
        }
        return lcl;
    }

    template <std::size_t D>
    samurai::LevelCellArray<D> to_lca(std::size_t level, const CSet<D>& s)
    {
        auto lcl = to_lcl<D>(level, s);
        return samurai::LevelCellArray<D>(lcl);
    }

    template <std::size_t D, class I, class Y>
    RunT<D> mk_run(const I& i, const Y& y)
    {
        RunT<D> r{};
        r.start = static_cast<int>(i.start);
        r.end   = static_cast<int>(i.end);
        for (std::size_t d = 1; d < D; ++d)
        {
            r.row[d] = static_cast<int>(y[d - 1]);
        }
        return r;
    }

    template <std::size_t D>
    u64 hash(const CSet<D>& s)
    {
        u64 h = 17;
        for (auto& p : s)
        {
            for (std::size_t d = 0; d < D; ++d)
            {
                h = mc::mix(h, static_cast<u64>(p[d] + 100000));
            }
        }
        return h;
    }

    template <std::size_t D>
    u64 hash(const std::vector<RunT<D>>& s)
    {
        u64 h = 19;
        for (auto& p : s)
        {
            for (std::size_t d = 1; d < D; ++d)
            {
                h = mc::mix(h, static_cast<u64>(p.row[d] + 100000));
            }
            h = mc::mix(mc::mix(h, static_cast<u64>(p.start + 100000)), static_cast<u64>(p.end + 100000));
        }
        return h;
    }

    // bounded window widths per dimension: number of bits of the mask
    template <std::size_t D>
    u64 volume(const Pos<D>& ext)
    {
        u64 v = 1;
        for (auto e : ext)
        {
            v *= static_cast<u64>(e);
        }
        return v;
    }

    // pick a position literal for the given dimension
    template <std::size_t D>
    Pos<D> ext3(int a, int b = 1, int c = 1)
    {
        std::array<int, 3> v{a, b, c};
        Pos<D> r;
        for (std::size_t d = 0; d < D; ++d)
        {
            r[d] = v[d];
        }
        return r;
    }
}
