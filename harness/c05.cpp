// C05: translated, shrunk and grown sets
#include "setx.hpp"
#ifndef DIM
#define DIM 1
#endif
using namespace setx;
constexpr std::size_t D = DIM;
constexpr int H         = DIM == 1 ? 8 : (DIM == 2 ? 6 : 5);
using Vec               = xt::xtensor_fixed<int, xt::xshape<D>>;

static CSet<D> shift(const CSet<D>& s, const Pos<D>& t)
{
    CSet<D> r;
    for (auto p : s)
    {
        for (std::size_t d = 0; d < D; ++d)
        {
            p[d] += t[d];
        }
        r.insert(p);
    }
    return r;
}

static Pos<D> neg(Pos<D> t)
{
    for (auto& x : t)
    {
        x = -x;
    }
    return t;
}

static CSet<D> inter(const CSet<D>& a, const CSet<D>& b)
{
    CSet<D> r;
    for (auto& p : a)
    {
        if (b.count(p))
        {
            r.insert(p);
        }
    }
    return r;
}

// grown: displaced by every sign combination of e
static CSet<D> grow(const CSet<D>& a, int e)
{
    CSet<D> r;
    for (unsigned k = 0; k < (1u << D); ++k)
    {
        Pos<D> t;
        for (std::size_t d = 0; d < D; ++d)
        {
            t[d] = (k >> d & 1) ? -e : e;
        }
        auto s = shift(a, t);
        r.insert(s.begin(), s.end());
    }
    return r;
}

static Vec vec(const Pos<D>& t)
{
    Vec v;
    for (std::size_t d = 0; d < D; ++d)
    {
        v[d] = t[d];
    }
    return v;
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();
    auto W       = [](int x0, int nx, int y0 = 0, int ny = 1, int z0 = 0, int nz = 1)
    {
        return Win<D>{ext3<D>(x0, y0, z0), ext3<D>(nx, ny, nz)};
    };
    const int ML = D == 3 ? 1 : 2;
    std::array<Win<D>, 3> wa, wb;
    if (D == 1)
    {
        wa = {W(-2, 5), W(-4, T ? 12 : 10), W(-5, T ? 12 : 10)};
        wb = {W(-1, 3), W(-2, T ? 6 : 5), W(-3, T ? 6 : 5)};
    }
    else if (D == 2)
    {
        wa = {W(-1, 3, -1, 3), W(-2, T ? 4 : 3, -1, 3), W(-1, T ? 3 : 2, -2, 4)};
        wb = {W(-1, 2, 0, 1), W(-1, 2, -1, 2), W(0, T ? 3 : 2, -2, 2)};
    }
    else
    {
        wa = {W(-1, 2, 0, 2, 0, T ? 2 : 1), W(-1, 2, -1, T ? 3 : 2, 0, 2), W(0, 1)};
        wb = {W(0, 1, 0, 1, -1, 2), W(-1, 2, 0, T ? 2 : 1, 0, T ? 1 : 2), W(0, 1)};
    }
    std::vector<Pos<D>> ts;
    {
        const int R = D == 1 ? 4 : (D == 2 ? 2 : 1);
        Pos<D> lo, hi;
        lo.fill(-R);
        hi.fill(R + 1);
        for_box<D>(lo, hi,
                   [&](const Pos<D>& t)
                   {
                       // in 3D in quick mode: axis and one-sided diagonal directions
                       ts.push_back(t);
                   });
    }
    auto want = [&](int com, int r, const auto& ev)
    {
        int e    = std::min(com, r);
        auto res = ev(e);
        return r > com ? refine(res, r - com) : res;
    };
    const std::array<int, 3> corner[3] = {
        {0,      0,      0     },
        {100003, -70001, 50000 },
        {-99998, 60007,  -40001}
    };
    for (int frame = 0; frame < 3; ++frame)
    {
    bl  = frame == 0 ? 0 : 2 + 5 * frame; // high levels, far from the coordinate origin
    off = corner[frame];
    const std::string fs = frame == 0 ? "" : "far" + std::to_string(frame);
    std::vector<Table<D>> ta, tb;
    for (int l = 0; l <= ML; ++l)
    {
        ta.emplace_back(l, wa[static_cast<std::size_t>(l)], 0, H);
        tb.emplace_back(l, wb[static_cast<std::size_t>(l)], ML, H);
    }
    const u64 NRmax = static_cast<u64>(ML + 2);

    // one collection
    for (int la = 0; la <= ML; ++la)
    {
        auto& A = ta[static_cast<std::size_t>(la)].v;
        u64 nr  = static_cast<u64>(la + 2);
        auto nm = [&](const char* s)
        {
            return std::string(s) + fs + "/" + std::to_string(la);
        };
        run.family(nm("translate"),
                   "every subset of the level window, every translation vector of a box, every evaluation level up to one finer",
                   A.size() * ts.size() * nr,
                   [&](u64 id, mc::Case& c)
                   {
                       mc::Dec d(id);
                       auto& a = A[d.take(A.size())];
                       auto& t = ts[d.take(ts.size())];
                       int r   = static_cast<int>(d.take(nr));
                       DESC(c) << "translate(" << la << sam::str<D>(a.s) << "," << sam::str<D>(t) << ") on " << r;
                       auto s  = shift(a.s, t);
                       auto w  = want(la, r,
                                     [&](int e)
                                     {
                                         return at_level<D>(s, la, e, H);
                                     });
                       auto ex = samurai::intersection(samurai::translate(a.lca, vec(t)), samurai::translate(a.lca, vec(t)));
                       compare<D>(c, ex, r, w, r <= la, id % 8 == 0);
                       // twice in a row
                       auto& t2 = ts[(id * 7 + 3) % ts.size()];
                       auto s2  = shift(s, t2);
                       bool fit = true;
                       for (auto& p : s2)
                       {
                           for (auto x : p)
                           {
                               fit = fit && x >= -(H << la) && x < (H << la);
                           }
                       }
                       if (fit)
                       {
                           auto w2  = want(la, r,
                                          [&](int e)
                                          {
                                              return at_level<D>(s2, la, e, H);
                                          });
                           auto ex2 = samurai::union_(samurai::translate(samurai::translate(a.lca, vec(t)), vec(t2)),
                                                      samurai::translate(samurai::translate(a.lca, vec(t)), vec(t2)));
                           compare<D>(c, ex2, r, w2, r <= la, false);
                       }
                   });
        run.family(nm("contraction"),
                   "every subset of the level window shrunk by width 1..3 in all directions, or by every vector of a box, on every level",
                   A.size() * (3 + ts.size()) * nr,
                   [&](u64 id, mc::Case& c)
                   {
                       mc::Dec d(id);
                       auto& a = A[d.take(A.size())];
                       u64 k   = d.take(3 + ts.size());
                       int r   = static_cast<int>(d.take(nr));
                       Pos<D> t;
                       t.fill(static_cast<int>(k) + 1);
                       if (k >= 3)
                       {
                           t = ts[k - 3];
                       }
                       DESC(c) << "contraction(" << la << sam::str<D>(a.s) << "," << sam::str<D>(t) << ") on " << r;
                       auto p = shift(a.s, t), m = shift(a.s, neg(t));
                       auto w = want(la, r,
                                     [&](int e)
                                     {
                                         return at_level<D>(p, la, e, H) & at_level<D>(m, la, e, H);
                                     });
                       if (k < 3)
                       {
                           auto ex = samurai::contraction(a.lca, k + 1);
                           compare<D>(c, ex, r, w, r <= la, id % 8 == 0);
                           if (k == 0)
                           {
                               auto ex1 = samurai::contraction(a.lca);
                               compare<D>(c, ex1, r, w, r <= la, false);
                           }
                       }
                       else
                       {
                           auto ex = samurai::contraction(a.lca, vec(t));
                           compare<D>(c, ex, r, w, r <= la, false);
                       }
                   });
        run.family(nm("expand"),
                   "every subset of the level window grown by width 0..3, on every level; what growing adds; growing what shrinking leaves",
                   A.size() * 4 * nr,
                   [&](u64 id, mc::Case& c)
                   {
                       mc::Dec d(id);
                       auto& a = A[d.take(A.size())];
                       int k   = static_cast<int>(d.take(4));
                       int r   = static_cast<int>(d.take(nr));
                       DESC(c) << "expand(" << la << sam::str<D>(a.s) << "," << k << ") on " << r;
                       auto g = grow(a.s, k);
                       auto w = want(la, r,
                                     [&](int e)
                                     {
                                         return at_level<D>(g, la, e, H);
                                     });
                       auto ex = samurai::expand(a.lca, k);
                       compare<D>(c, ex, r, w, r <= la, id % 8 == 0);
                       auto w2  = want(la, r,
                                      [&](int e)
                                      {
                                          return at_level<D>(g, la, e, H) - at_level<D>(a.s, la, e, H);
                                      });
                       auto ex2 = samurai::difference(samurai::expand(a.lca, k), a.lca);
                       compare<D>(c, ex2, r, w2, r <= la, false);
                       Pos<D> t;
                       t.fill(k);
                       auto p = shift(a.s, t), m = shift(a.s, neg(t));
                       auto w3  = want(la, r,
                                      [&](int e)
                                      {
                                          return at_level<D>(a.s, la, e, H) - (at_level<D>(p, la, e, H) & at_level<D>(m, la, e, H));
                                      });
                       auto ex3 = samurai::difference(a.lca, samurai::contraction(a.lca, static_cast<std::size_t>(k)));
                       compare<D>(c, ex3, r, w3, r <= la, false);
                   });
    }
    // combined with a second collection, possibly on another level
    for (int la = 0; la <= ML; ++la)
    {
        for (int lb = 0; lb <= ML; ++lb)
        {
            auto& A = tb[static_cast<std::size_t>(la)].v;
            auto& B = tb[static_cast<std::size_t>(lb)].v;
            int com = std::max(la, lb);
            u64 nr  = static_cast<u64>(com + 2);
            run.family("combined" + fs + "/" + std::to_string(la) + std::to_string(lb),
                       "two collections on all pairs of levels: intersection, union and difference with a translated, shrunk or grown operand, every "
                       "translation vector, every evaluation level",
                       A.size() * B.size() * ts.size() * nr,
                       [&](u64 id, mc::Case& c)
                       {
                           mc::Dec d(id);
                           auto& a = A[d.take(A.size())];
                           auto& b = B[d.take(B.size())];
                           auto& t = ts[d.take(ts.size())];
                           int r   = static_cast<int>(d.take(nr));
                           DESC(c) << "A=" << la << sam::str<D>(a.s) << " B=" << lb << sam::str<D>(b.s) << " t=" << sam::str<D>(t) << " on " << r;
                           auto sa  = shift(a.s, t);
                           auto bmb = [&](int e) -> const Bm<D>&
                           {
                               return b.bm[static_cast<std::size_t>(e)];
                           };
                           Bm<D> at = at_level<D>(sa, la, std::min(com, r), H);
                           auto go  = [&](auto&& ex, auto&& ev)
                           {
                               auto w = want(com, r, ev);
                               compare<D>(c, ex, r, w, r <= com, false);
                           };
                           go(samurai::intersection(samurai::translate(a.lca, vec(t)), b.lca),
                              [&](int e)
                              {
                                  return at & bmb(e);
                              });
                           go(samurai::difference(b.lca, samurai::translate(a.lca, vec(t))),
                              [&](int e)
                              {
                                  return bmb(e) - at;
                              });
                           go(samurai::union_(samurai::difference(samurai::translate(a.lca, vec(t)), b.lca), samurai::translate(b.lca, vec(neg(t)))),
                              [&](int e)
                              {
                                  return (at - bmb(e)) | at_level<D>(shift(b.s, neg(t)), lb, e, H);
                              });
                           if (&t == &ts[0])
                           {
                               int k   = 1;
                               auto g  = grow(a.s, k);
                               Pos<D> q;
                               q.fill(k);
                               auto p = shift(a.s, q), m = shift(a.s, neg(q));
                               go(samurai::intersection(samurai::expand(a.lca, k), b.lca),
                                  [&](int e)
                                  {
                                      return at_level<D>(g, la, e, H) & bmb(e);
                                  });
                               go(samurai::difference(b.lca, samurai::contraction(a.lca, 1)),
                                  [&](int e)
                                  {
                                      return bmb(e) - (at_level<D>(p, la, e, H) & at_level<D>(m, la, e, H));
                                  });
                               go(samurai::union_(samurai::contraction(a.lca, 1), samurai::expand(b.lca, 1)),
                                  [&](int e)
                                  {
                                      return (at_level<D>(p, la, e, H) & at_level<D>(m, la, e, H)) | at_level<D>(grow(b.s, 1), lb, e, H);
                                  });
                           }
                       });
        }
    }
    }
    return run.finish();
}
