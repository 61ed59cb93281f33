// C04: set expressions denote the pointwise set operation
#include "setx.hpp"
#ifndef DIM
#define DIM 1
#endif
#ifndef PART
#define PART 0
#endif
using namespace setx;
constexpr std::size_t D = DIM;
constexpr int H         = DIM == 1 ? 2 : 1; // bitmaps cover [-H,H)^D in units of level-0 cells
constexpr int ML        = 2; // operand levels 0..2

template <class F>
void for_ops(F&& f)
{
    f(OpI{});
    f(OpU{});
    f(OpD{});
}

using Tab = Table<D>;

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();

    auto W = [](int x0, int nx, int y0 = 0, int ny = 1, int z0 = 0, int nz = 1)
    {
        return Win<D>{ext3<D>(x0, y0, z0), ext3<D>(nx, ny, nz)};
    };
    // big windows for one and two operands, small ones for three, tiny ones for four
    std::array<Win<D>, 3> big, small, tiny;
    if (D == 1)
    {
        big   = {W(-2, 4), W(-4, T ? 9 : 8), W(-5, T ? 10 : 8)};
        small = {W(-1, 3), W(-2, T ? 5 : 4), W(-3, T ? 6 : 5)};
        tiny  = {W(-1, 2), W(-1, 3), W(-2, 3)};
    }
    else if (D == 2)
    {
        big   = {W(-1, 2, -1, 2), W(-2, 4, -1, 2), W(-1, 2, -3, 4)};
        small = {W(-1, 2, -1, 2), W(-1, 2, -1, 2), W(-2, T ? 3 : 2, -1, 2)};
        tiny  = {W(-1, 1, -1, 2), W(0, 2, -1, 1), W(-1, 2, -2, 2)};
    }
    else
    {
        big   = {W(-1, 2, -1, 1, -1, 2), W(-1, 2, 0, 2, 0, 2), W(0, 2, 0, 2, -1, 2)};
        small = {W(-1, 2, 0, 1, -1, 2), W(-1, 2, 0, 2, 0, 1), W(0, 1, -1, 2, -2, 2)};
        tiny  = {W(-1, 1, -1, 1, -1, 2), W(0, 1, 0, 2, 0, 1), W(-2, 1, -2, 1, -2, 2)};
    }
    auto tabs = [&](const std::array<Win<D>, 3>& w)
    {
        std::array<Tab, 3> t;
        for (int l = 0; l <= ML; ++l)
        {
            t[static_cast<std::size_t>(l)] = Tab(l, w[static_cast<std::size_t>(l)], ML, H);
        }
        return t;
    };
    auto tb = tabs(big), ts = tabs(small), tt = tabs(tiny);

    struct Lv
    {
        std::vector<int> l;
        int r;
    };
    auto expected = [](const auto& ev, int com, int r)
    {
        int e    = std::min(com, r);
        auto res = ev(static_cast<std::size_t>(e));
        return r > com ? refine(res, r - com) : res;
    };

#if PART == 0
    // two operands, of the given levels
    auto two = [&](const std::string& suffix, const std::vector<int>& levels, std::map<int, Tab>& tb)
    {
        for_ops(
            [&](auto op)
            {
                using O = decltype(op);
                for (int la : levels)
                {
                    for (int lb : levels)
                    {
                        for (int r = 0; r <= std::max(la, lb) + 1; ++r)
                        {
                            auto& A = tb[la].v;
                            auto& B = tb[lb].v;
                            run.family(std::string(O::name) + "2" + suffix + "/" + std::to_string(la) + std::to_string(lb) + "@" + std::to_string(r),
                                       "op(A,B): all pairs of subsets of the level windows, evaluated on level r",
                                       A.size() * B.size(),
                                       [&](u64 id, mc::Case& c)
                                       {
                                           mc::Dec d(id);
                                           auto& a = A[d.take(A.size())];
                                           auto& b = B[d.take(B.size())];
                                           DESC(c) << O::name << "(" << la << sam::str<D>(a.s) << "," << lb << sam::str<D>(b.s) << ").on(" << r
                                                   << "), frame level " << bl << " origin " << off[0] << "," << off[1] << "," << off[2];
                                           auto want = expected(
                                               [&](std::size_t e)
                                               {
                                                   return O::ev(a.bm[e], b.bm[e]);
                                               },
                                               std::max(la, lb),
                                               r);
                                           auto ex = O::mk(a.lca, b.lca);
                                           CHK(c, ex.level() == static_cast<std::size_t>(std::max(la, lb) + bl), "default-level", "default level");
                                           compare<D>(c, ex, r, want, r <= std::max(la, lb), id % 16 == 0);
                                       });
                        }
                    }
                }
            });
    };
    auto maps = [&](const std::vector<int>& levels, const std::vector<Win<D>>& w)
    {
        std::map<int, Tab> m;
        for (std::size_t k = 0; k < levels.size(); ++k)
        {
            m[levels[k]] = Tab(levels[k], w[k], levels.back(), H);
        }
        return m;
    };
    {
        auto m = maps({0, 1, 2}, {big[0], big[1], big[2]});
        two("", {0, 1, 2}, m);
    }
    {
        // levels far apart
        constexpr int far = D == 1 ? 7 : (D == 2 ? 5 : 3);
        const int e       = 1 << far;
        std::vector<Win<D>> w;
        if (D == 1)
        {
            w = {W(-1, 2), W(-3, 5), W(-e / 2 - 2, 6)};
        }
        else if (D == 2)
        {
            w = {W(-1, 2, -1, 2), W(-2, 2, -1, 2), W(-e / 2 - 1, 2, -2, 3)};
        }
        else
        {
            w = {W(-1, 2, -1, 1, -1, 1), W(-2, 2, -1, 1, 0, 2), W(-e / 2 - 1, 2, -1, 1, -2, 3)};
        }
        auto m = maps({0, 1, far}, w);
        two("gap", {0, 1, far}, m);
    }
    // high levels, far from the coordinate origin
    const std::array<int, 3> corner[2] = {
        {100003, -70001, 50000 },
        {-99998, 60007,  -40001}
    };
    for (int k = 0; k < 2; ++k)
    {
        bl     = 7 + 5 * k;
        off    = corner[k];
        auto m = maps({0, 1, 2}, {small[0], small[1], small[2]});
        two("far" + std::to_string(k), {0, 1, 2}, m);
    }
    bl  = 0;
    off = {0, 0, 0};

    // three operands: n-ary and both nestings
    auto three = [&](const std::string& name, auto mk, auto ev)
    {
        for (int code = 0; code < 27; ++code)
        {
            int la = code % 3, lb = code / 3 % 3, lc = code / 9;
            int com = std::max({la, lb, lc});
            // quick: levels of the three operands in {0,1,2}; evaluation levels 0..com+1
            auto& A = ts[la].v;
            auto& B = ts[lb].v;
            auto& C = ts[lc].v;
            u64 nr  = static_cast<u64>(com + 2);
            run.family(name + "/" + std::to_string(la) + std::to_string(lb) + std::to_string(lc),
                       "three operands, all triples of subsets of the level windows, all evaluation levels",
                       A.size() * B.size() * C.size() * nr,
                       [&](u64 id, mc::Case& c)
                       {
                           mc::Dec d(id);
                           int r   = static_cast<int>(d.take(nr));
                           auto& a = A[d.take(A.size())];
                           auto& b = B[d.take(B.size())];
                           auto& k = C[d.take(C.size())];
                           DESC(c) << name << " A=" << la << sam::str<D>(a.s) << " B=" << lb << sam::str<D>(b.s) << " C=" << lc << sam::str<D>(k.s)
                                    << " on " << r;
                           auto want = expected(
                               [&](std::size_t e)
                               {
                                   return ev(a.bm[e], b.bm[e], k.bm[e]);
                               },
                               com,
                               r);
                           auto ex = mk(a.lca, b.lca, k.lca);
                           compare<D>(c, ex, r, want, r <= com, false);
                       });
        }
    };
    for_ops(
        [&](auto op)
        {
            using O = decltype(op);
            three(std::string(O::name) + "3",
                  [](auto& a, auto& b, auto& c)
                  {
                      return O::mk(a, b, c);
                  },
                  [](auto& a, auto& b, auto& c)
                  {
                      return O::ev(a, b, c);
                  });
            for_ops(
                [&](auto op2)
                {
                    using P = decltype(op2);
                    three(std::string(O::name) + "(" + P::name + "(A,B),C)",
                          [](auto& a, auto& b, auto& c)
                          {
                              return O::mk(P::mk(a, b), c);
                          },
                          [](auto& a, auto& b, auto& c)
                          {
                              return O::ev(P::ev(a, b), c);
                          });
                    three(std::string(O::name) + "(A," + P::name + "(B,C))",
                          [](auto& a, auto& b, auto& c)
                          {
                              return O::mk(a, P::mk(b, c));
                          },
                          [](auto& a, auto& b, auto& c)
                          {
                              return O::ev(a, P::ev(b, c));
                          });
                });
        });

#else
    // four operands: op1(op2(A,B),op3(C,D))
    auto four = [&](const std::string& name, auto mk, auto ev)
    {
        for (int code = 0; code < 81; ++code)
        {
            int l[4] = {code % 3, code / 3 % 3, code / 9 % 3, code / 27};
            int com  = std::max({l[0], l[1], l[2], l[3]});
            // quick: pairs of adjacent levels only
            int mn = std::min({l[0], l[1], l[2], l[3]});
            if (!T && com - mn > 1)
            {
                continue;
            }
            u64 nr = static_cast<u64>(com + 2);
            u64 n  = nr;
            for (int k = 0; k < 4; ++k)
            {
                n *= tt[l[k]].v.size();
            }
            run.family(name + "/" + std::to_string(l[0]) + std::to_string(l[1]) + std::to_string(l[2]) + std::to_string(l[3]),
                       "four operands, all quadruples of subsets of the level windows, all evaluation levels",
                       n,
                       [&](u64 id, mc::Case& c)
                       {
                           mc::Dec d(id);
                           int r = static_cast<int>(d.take(nr));
                           Operand<D>* o[4];
                           DESC(c) << name << " on " << r << ":";
                           for (int k = 0; k < 4; ++k)
                           {
                               o[k] = &tt[l[k]].v[d.take(tt[l[k]].v.size())];
                               DESC(c) << " " << l[k] << sam::str<D>(o[k]->s);
                           }
                           auto want = expected(
                               [&](std::size_t e)
                               {
                                   return ev(o[0]->bm[e], o[1]->bm[e], o[2]->bm[e], o[3]->bm[e]);
                               },
                               com,
                               r);
                           auto ex = mk(o[0]->lca, o[1]->lca, o[2]->lca, o[3]->lca);
                           compare<D>(c, ex, r, want, r <= com, false);
                       });
        }
    };
    for_ops(
        [&](auto op)
        {
            using O = decltype(op);
            for_ops(
                [&](auto op2)
                {
                    using P = decltype(op2);
                    for_ops(
                        [&](auto op3)
                        {
                            using Q = decltype(op3);
                            four(std::string(O::name) + "(" + P::name + "(A,B)," + Q::name + "(C,D))",
                                 [](auto& a, auto& b, auto& c, auto& d)
                                 {
                                     return O::mk(P::mk(a, b), Q::mk(c, d));
                                 },
                                 [](auto& a, auto& b, auto& c, auto& d)
                                 {
                                     return O::ev(P::ev(a, b), Q::ev(c, d));
                                 });
                            if (T)
                            {
                                four(std::string(O::name) + "(A," + P::name + "(B," + Q::name + "(C,D)))",
                                     [](auto& a, auto& b, auto& c, auto& d)
                                     {
                                         return O::mk(a, P::mk(b, Q::mk(c, d)));
                                     },
                                     [](auto& a, auto& b, auto& c, auto& d)
                                     {
                                         return O::ev(a, P::ev(b, Q::ev(c, d)));
                                     });
                            }
                        });
                });
        });
#endif
    return run.finish();
}
