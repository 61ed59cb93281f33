// Shared machinery for C04/C05: reference semantics of set expressions on bitmaps.
#pragma once
#include "sam.hpp"
#include <samurai/subset/node_op.hpp>
#include <samurai/subset/subset_op.hpp>

namespace setx
{
    using namespace sam;

    // The frame the enumerated configurations are placed in: level 0 of the model is level bl of the library,
    // and the model's origin is the cell off of that level.
    inline int bl = 0;
    inline std::array<int, 3> off{0, 0, 0};

    template <std::size_t D>
    Pos<D> to_frame(Pos<D> p, int level, int sign)
    {
        for (std::size_t d = 0; d < D; ++d)
        {
            p[d] += sign * off[d] * (1 << level);
        }
        return p;
    }

    // Bitmap of the box [-H*2^level, H*2^level)^D
    template <std::size_t D>
    struct Bm
    {
        int half = 0; // half width in cells at this level
        std::vector<std::uint64_t> w;

        Bm() = default;

        explicit Bm(int h)
            : half(h)
        {
            std::size_t n = 1;
            for (std::size_t d = 0; d < D; ++d)
            {
                n *= static_cast<std::size_t>(2 * h);
            }
            w.assign((n + 63) / 64, 0);
        }

        long idx(const Pos<D>& p) const
        {
            long i = 0;
            for (std::size_t d = D; d-- > 0;)
            {
                if (p[d] < -half || p[d] >= half)
                {
                    return -1;
                }
                i = i * (2 * half) + p[d] + half;
            }
            return i;
        }

        bool get(const Pos<D>& p) const
        {
            long i = idx(p);
            return i >= 0 && (w[static_cast<std::size_t>(i) / 64] >> (i % 64) & 1);
        }

        // returns false when outside the box or already set
        bool set(const Pos<D>& p)
        {
            long i = idx(p);
            if (i < 0)
            {
                return false;
            }
            auto& x         = w[static_cast<std::size_t>(i) / 64];
            std::uint64_t b = 1ull << (i % 64);
            bool fresh      = !(x & b);
            x |= b;
            return fresh;
        }

        bool operator==(const Bm& o) const
        {
            return half == o.half && w == o.w;
        }

        template <class F>
        void each(F&& f) const
        {
            Pos<D> lo, hi;
            lo.fill(-half);
            hi.fill(half);
            for_box<D>(lo, hi,
                       [&](const Pos<D>& p)
                       {
                           if (get(p))
                           {
                               f(p);
                           }
                       });
        }
    };

    template <std::size_t D>
    Bm<D> operator&(Bm<D> a, const Bm<D>& b)
    {
        for (std::size_t i = 0; i < a.w.size(); ++i)
        {
            a.w[i] &= b.w[i];
        }
        return a;
    }

    template <std::size_t D>
    Bm<D> operator|(Bm<D> a, const Bm<D>& b)
    {
        for (std::size_t i = 0; i < a.w.size(); ++i)
        {
            a.w[i] |= b.w[i];
        }
        return a;
    }

    template <std::size_t D>
    Bm<D> operator-(Bm<D> a, const Bm<D>& b)
    {
        for (std::size_t i = 0; i < a.w.size(); ++i)
        {
            a.w[i] &= ~b.w[i];
        }
        return a;
    }

    // the set s of cells of level l, seen on level e
    template <std::size_t D>
    Bm<D> at_level(const CSet<D>& s, int l, int e, int H)
    {
        Bm<D> b(H << e);
        for (auto& p : s)
        {
            if (e <= l)
            {
                Pos<D> q;
                for (std::size_t d = 0; d < D; ++d)
                {
                    q[d] = static_cast<int>(mc::fdiv(p[d], 1 << (l - e)));
                }
                b.set(q);
            }
            else
            {
                int m = 1 << (e - l);
                Pos<D> lo, hi;
                for (std::size_t d = 0; d < D; ++d)
                {
                    lo[d] = p[d] * m;
                    hi[d] = lo[d] + m;
                }
                for_box<D>(lo, hi,
                           [&](const Pos<D>& q)
                           {
                               b.set(q);
                           });
            }
        }
        return b;
    }

    template <std::size_t D>
    Bm<D> refine(const Bm<D>& a, int k)
    {
        Bm<D> b(a.half << k);
        a.each(
            [&](const Pos<D>& p)
            {
                Pos<D> lo, hi;
                for (std::size_t d = 0; d < D; ++d)
                {
                    lo[d] = p[d] << k;
                    hi[d] = lo[d] + (1 << k);
                }
                for_box<D>(lo, hi,
                           [&](const Pos<D>& q)
                           {
                               b.set(q);
                           });
            });
        return b;
    }

    template <std::size_t D>
    std::string str(const Bm<D>& b)
    {
        std::string s = "{";
        b.each(
            [&](const Pos<D>& p)
            {
                s += sam::str<D>(p);
            });
        return s + "}";
    }

    template <std::size_t D>
    u64 hash(const Bm<D>& b)
    {
        u64 h = static_cast<u64>(b.half);
        for (auto x : b.w)
        {
            h = mc::mix(h, x);
        }
        return h;
    }

    // Evaluate expr on level r (ref_on: call .on) and compare with want.
    // sorted: runs must come in order
    template <std::size_t D, class E>
    void compare(mc::Case& c, E&& expr, int r, const Bm<D>& want, bool sorted, bool full)
    {
        auto unframe = [&](RunT<D> rn)
        {
            rn.start -= off[0] * (1 << r);
            rn.end -= off[0] * (1 << r);
            for (std::size_t d = 1; d < D; ++d)
            {
                rn.row[d] -= off[d] * (1 << r);
            }
            return rn;
        };
        auto once = [&](auto& ex, int mode)
        {
            Bm<D> got(want.half);
            bool dup = false, empty = false, order = true, lev = true;
            RunT<D> prev{};
            bool first = true;
            auto cb    = [&](const auto& i, const auto& y)
            {
                auto rn = unframe(mk_run<D>(i, y));
                if (rn.start >= rn.end)
                {
                    empty = true;
                    return;
                }
                if (!first && sorted)
                {
                    bool less = false;
                    for (std::size_t d = D; d-- > 1;)
                    {
                        if (prev.row[d] != rn.row[d])
                        {
                            less = prev.row[d] < rn.row[d];
                            order = order && less;
                            goto done;
                        }
                    }
                    order = order && prev.end <= rn.start;
                done:;
                }
                first = false;
                prev  = rn;
                for (int x = rn.start; x < rn.end; ++x)
                {
                    Pos<D> p = rn.row;
                    p[0]     = x;
                    if (got.idx(p) < 0)
                    {
                        dup = true;
                        break;
                    }
                    if (!got.set(p))
                    {
                        dup = true;
                    }
                }
            };
            if (mode == 0)
            {
                ex(cb);
            }
            else if (mode == 1)
            {
                ex.apply_op(
                    [&](std::size_t level, const auto& i, const auto& y)
                    {
                        lev = lev && level == static_cast<std::size_t>(r + bl);
                        cb(i, y);
                    });
            }
            else
            {
                samurai::for_each_interval(ex,
                                           [&](std::size_t level, const auto& i, const auto& y)
                                           {
                                               lev = lev && level == static_cast<std::size_t>(r + bl);
                                               cb(i, y);
                                           });
            }
            CHK(c, !empty, "empty-run", "an empty run is handed out");
            CHK(c, !dup, "twice-or-outside", "a cell is handed out twice or far outside");
            CHK(c, order, "order", "runs are not handed out in order");
            CHK(c, lev, "level", "wrong level handed out");
            CHK(c, got == want, "cells", "handed out " + setx::str(got) + " expected " + setx::str(want));
            c.transitions(1);
        };
        auto ex = expr.on(static_cast<std::size_t>(r + bl));
        CHK(c, ex.level() == static_cast<std::size_t>(r + bl), "level", "level() of the expression");
        once(ex, 0);
        once(ex, full ? 1 : 0); // evaluating again gives the same cells
        if (full)
        {
            once(ex, 2);
            auto cp = ex;
            once(cp, 0);
            samurai::LevelCellArray<D> lca(ex);
            Bm<D> got(want.half);
            bool ok = lca.level() == static_cast<std::size_t>(r + bl);
            samurai::for_each_interval(lca,
                                       [&](std::size_t, const auto& i, const auto& y)
                                       {
                                           auto rn = unframe(mk_run<D>(i, y));
                                           for (int x = rn.start; x < rn.end; ++x)
                                           {
                                               Pos<D> p = rn.row;
                                               p[0]     = x;
                                               ok       = got.set(p) && ok;
                                           }
                                       });
            CHK(c, ok && got == want, "collected", "collecting the cells gives " + setx::str(got) + " expected " + setx::str(want));
        }
        c.outcome(setx::hash(want));
    }

    struct OpI
    {
        template <class... T>
        static auto mk(T&&... t)
        {
            return samurai::intersection(std::forward<T>(t)...);
        }

        template <class B, class... T>
        static B ev(B a, const T&... t)
        {
            ((a = a & t), ...);
            return a;
        }
        static constexpr const char* name = "intersection";
    };

    struct OpU
    {
        template <class... T>
        static auto mk(T&&... t)
        {
            return samurai::union_(std::forward<T>(t)...);
        }

        template <class B, class... T>
        static B ev(B a, const T&... t)
        {
            ((a = a | t), ...);
            return a;
        }
        static constexpr const char* name = "union";
    };

    struct OpD
    {
        template <class... T>
        static auto mk(T&&... t)
        {
            return samurai::difference(std::forward<T>(t)...);
        }

        template <class B, class... T>
        static B ev(B a, const T&... t)
        {
            ((a = a - t), ...);
            return a;
        }
        static constexpr const char* name = "difference";
    };

    // a window of candidate cells on a level
    template <std::size_t D>
    struct Win
    {
        Pos<D> lo, ext;

        u64 n() const
        {
            return 1ull << volume<D>(ext);
        }
    };

    // precomputed operand: collection and its bitmap on levels 0..MAXE
    template <std::size_t D>
    struct Operand
    {
        CSet<D> s;
        samurai::LevelCellArray<D> lca;
        std::vector<Bm<D>> bm;
    };

    template <std::size_t D>
    struct Table
    {
        std::vector<Operand<D>> v;

        Table() = default;

        Table(int level, const Win<D>& w, int maxe, int H)
        {
            v.resize(w.n());
            for (u64 m = 0; m < w.n(); ++m)
            {
                auto& o = v[m];
                o.s     = from_mask<D>(m, w.lo, w.ext);
                CSet<D> placed;
                for (auto& p : o.s)
                {
                    placed.insert(to_frame<D>(p, level, 1));
                }
                o.lca = to_lca<D>(static_cast<std::size_t>(level + bl), placed);
                for (int e = 0; e <= maxe; ++e)
                {
                    o.bm.push_back(at_level<D>(o.s, level, e, H));
                }
            }
        }
    };
}
