// F01: fields are cell-wise values.
#include <algorithm>
#include <functional>
#include <map>

#include "sam_field.hpp"
#include <samurai/bc.hpp>
#include <samurai/mr/mesh.hpp>
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;
using Mesh = samurai::MRMesh<samurai::MRConfig<D>>;
using IV   = typename Mesh::interval_t;

template <class T, std::size_t N, bool SOA>
struct Kind
{
    using type                     = T;
    static constexpr std::size_t n = N;
    static constexpr bool soa      = SOA;
};

template <class F>
void with_kind(u64 k, F&& f)
{
    switch (k)
    {
        case 0:
            f(Kind<double, 1, false>{});
            break;
        case 1:
            f(Kind<double, 3, false>{});
            break;
        case 2:
            f(Kind<double, 3, true>{});
            break;
        case 3:
            f(Kind<int, 1, false>{});
            break;
        case 4:
            f(Kind<int, 2, true>{});
            break;
        case 5:
            f(Kind<double, 1, true>{});
            break;
        case 6:
            f(Kind<double, 2, false>{});
            break;
    }
}

constexpr u64 NKIND = 7;

template <class T>
T uniq(std::size_t i, std::size_t e)
{
    return static_cast<T>(3 + 7 * static_cast<int>(i) + 1000 * static_cast<int>(e));
}

// one element of a view on an interval: component e, position k
template <class F, class V>
auto elem(V&& v, std::size_t e, std::size_t k)
{
    if constexpr (F::size == 1)
    {
        return v(k);
    }
    else if constexpr (F::is_soa)
    {
        return v(e, k);
    }
    else
    {
        return v(k, e);
    }
}

template <class F, class G>
void at_index(F& f, std::size_t level, const IV& iv, const Pos<D>& p, G&& g) // all ways to name a run
{
    if constexpr (D == 1)
    {
        g(f(level, iv), "(level,i)");
        xt::xtensor_fixed<int, xt::xshape<0>> none;
        (void)none;
    }
    else if constexpr (D == 2)
    {
        g(f(level, iv, p[1]), "(level,i,j)");
        xt::xtensor_fixed<int, xt::xshape<1>> yz{p[1]};
        g(f(level, iv, yz), "(level,i,index)");
    }
    else
    {
        g(f(level, iv, p[1], p[2]), "(level,i,j,k)");
        xt::xtensor_fixed<int, xt::xshape<2>> yz{p[1], p[2]};
        g(f(level, iv, yz), "(level,i,index)");
    }
}

template <class F, class G>
void at_item(F& f, std::size_t e, std::size_t level, const IV& iv, const Pos<D>& p, G&& g)
{
    if constexpr (D == 1)
    {
        g(f(e, level, iv), "(item,level,i)");
    }
    else if constexpr (D == 2)
    {
        g(f(e, level, iv, p[1]), "(item,level,i,j)");
    }
    else
    {
        g(f(e, level, iv, p[1], p[2]), "(item,level,i,j,k)");
    }
}

template <class F, class G>
void at_items(F& f, std::size_t e0, std::size_t e1, std::size_t level, const IV& iv, const Pos<D>& p, G&& g)
{
    if constexpr (D == 1)
    {
        g(f(e0, e1, level, iv), "(items,level,i)");
    }
    else if constexpr (D == 2)
    {
        g(f(e0, e1, level, iv, p[1]), "(items,level,i,j)");
    }
    else
    {
        g(f(e0, e1, level, iv, p[1], p[2]), "(items,level,i,j,k)");
    }
}

template <class F>
void reset(F& f, const LSet<D>& ref)
{
    using T = typename F::value_type;
    set_all<D>(f, ref,
               [&](const LCell<D>& x, std::size_t e)
               {
                   return uniq<T>(cidx<D>(f.mesh(), x), e);
               });
}

struct Runs // maximal runs of the reference cells of a row
{
    LCell<D> first;
    int n;
};

std::vector<Runs> runs_of(const LSet<D>& s)
{
    std::vector<Runs> r;
    for (auto& c : s)
    {
        LCell<D> prev = c;
        prev.p[0] -= 1;
        if (!s.count(prev))
        {
            int n      = 1;
            LCell<D> q = c;
            for (++q.p[0]; s.count(q); ++q.p[0])
            {
                ++n;
            }
            r.push_back({c, n});
        }
    }
    return r;
}

template <class K>
void access_case(mc::Case& c, Mesh& mesh, const LSet<D>& ref)
{
    using T = typename K::type;
    auto f  = samurai::make_field<T, K::n, K::soa>("f", mesh);
    using F = decltype(f);
    const F& cf = f;
    reset(f, ref);
    u64 h = 1;
    // storage: one value per component and cell, all cells of the reference set
    std::size_t cells = 0;
    std::set<std::size_t> idx;
    for (auto& x : ref)
    {
        idx.insert(cidx<D>(mesh, x));
        ++cells;
    }
    CHK(c, idx.size() == cells, "storage", "two cells share an index");
    CHK(c, f.array().size() >= cells * K::n && *idx.rbegin() < f.array().size() / K::n, "storage", "storage too small");
    auto expect = [&](const std::string& how, const LCell<D>& x, std::size_t e, T got)
    {
        T want = uniq<T>(cidx<D>(mesh, x), e);
        CHK(c, got == want, "read", how + " of cell " + str<D>(x) + " component " + std::to_string(e) + " gives " + std::to_string(got) + " instead of " + std::to_string(want));
        h = mc::mix(h, static_cast<u64>(got));
    };
    // by cell
    samurai::for_each_cell(mesh[Mesh::mesh_id_t::reference],
                           [&](auto& cell)
                           {
                               LCell<D> x{static_cast<int>(cell.level), {}};
                               for (std::size_t d = 0; d < D; ++d)
                               {
                                   x.p[d] = cell.indices[d];
                               }
                               for (std::size_t e = 0; e < K::n; ++e)
                               {
                                   if constexpr (K::n == 1)
                                   {
                                       expect("[cell]", x, e, f[cell]);
                                       expect("const [cell]", x, e, cf[cell]);
                                       expect("[index]", x, e, f[cell.index]);
                                       expect("(index)", x, e, cf(static_cast<std::size_t>(cell.index)));
                                   }
                                   else
                                   {
                                       expect("[cell]", x, e, f[cell](e));
                                       expect("const [cell]", x, e, cf[cell](e));
                                       expect("[index]", x, e, f[static_cast<std::size_t>(cell.index)](e));
                                       expect("(index)", x, e, cf(static_cast<std::size_t>(cell.index))(e));
                                   }
                               }
                           });
    // by runs, all sub-runs, strides
    for (auto& r : runs_of(ref))
    {
        auto lev = static_cast<std::size_t>(r.first.level);
        for (int a = 0; a < r.n; ++a)
        {
            for (int b = a + 1; b <= r.n; ++b)
            {
                for (int step = 1; step <= 3; ++step)
                {
                    IV iv(r.first.p[0] + a, r.first.p[0] + b);
                    iv.step = step;
                    auto nb = static_cast<std::size_t>((b - a + step - 1) / step);
                    auto at = [&](std::size_t k)
                    {
                        LCell<D> x = r.first;
                        x.p[0] += a + static_cast<int>(k) * step;
                        return x;
                    };
                    auto whole = [&](auto&& v, const std::string& how)
                    {
                        CHK(c, v.size() == nb * K::n, "size", how + " on a run of " + std::to_string(b - a) + " cells with stride " + std::to_string(step) + " has " + std::to_string(v.size()) + " values");
                        if (v.size() == nb * K::n)
                        {
                            for (std::size_t k = 0; k < nb; ++k)
                            {
                                for (std::size_t e = 0; e < K::n; ++e)
                                {
                                    expect(how, at(k), e, elem<F>(v, e, k));
                                }
                            }
                        }
                    };
                    at_index(f, lev, iv, r.first.p, whole);
                    at_index(cf, lev, iv, r.first.p, whole);
                    if constexpr (K::n > 1)
                    {
                        for (std::size_t e = 0; e < K::n; ++e)
                        {
                            auto one = [&](auto&& v, const std::string& how)
                            {
                                CHK(c, v.size() == nb, "size", how + ": wrong number of values");
                                for (std::size_t k = 0; k < std::min(nb, v.size()); ++k)
                                {
                                    expect(how, at(k), e, v(k));
                                }
                            };
                            at_item(f, e, lev, iv, r.first.p, one);
                            at_item(cf, e, lev, iv, r.first.p, one);
                            for (std::size_t e1 = e + 1; e1 <= K::n; ++e1)
                            {
                                auto some = [&](auto&& v, const std::string& how)
                                {
                                    CHK(c, v.size() == nb * (e1 - e), "size", how + ": wrong number of values");
                                    if (v.size() == nb * (e1 - e))
                                    {
                                        for (std::size_t k = 0; k < nb; ++k)
                                        {
                                            for (std::size_t i = e; i < e1; ++i)
                                            {
                                                expect(how, at(k), i, elem<F>(v, i - e, k));
                                            }
                                        }
                                    }
                                };
                                at_items(f, e, e1, lev, iv, r.first.p, some);
                                at_items(cf, e, e1, lev, iv, r.first.p, some);
                            }
                        }
                    }
                    if (step <= 2) // writing through the view changes these values only
                    {
                        at_index(f, lev, iv, r.first.p,
                                 [&](auto&& v, const std::string& how)
                                 {
                                     v = v + static_cast<T>(50000);
                                     std::size_t hit = 0;
                                     for (auto& x : ref)
                                     {
                                         bool in = x.level == r.first.level && x.p[0] >= iv.start && x.p[0] < iv.end && (x.p[0] - iv.start) % step == 0;
                                         for (std::size_t d = 1; d < D; ++d)
                                         {
                                             in = in && x.p[d] == r.first.p[d];
                                         }
                                         hit += in;
                                         auto i = cidx<D>(mesh, x);
                                         for (std::size_t e = 0; e < K::n; ++e)
                                         {
                                             CHK(c, fat(f, i, e) == uniq<T>(i, e) + (in ? T(50000) : T(0)), "write", "writing " + how + " on " + std::to_string(b - a) + " cells from " + str<D>(at(0)) + " stride " + std::to_string(step) + (in ? " misses " : " changes ") + str<D>(x));
                                         }
                                     }
                                     v = v - static_cast<T>(50000);
                                 });
                    }
                }
            }
        }
        // a run that is not stored as a whole is refused
        for (int over = 1; over <= 2; ++over)
        {
            IV iv(r.first.p[0] + r.n - 1, r.first.p[0] + r.n + over);
            bool thrown = false;
            std::cout.setstate(std::ios_base::failbit); // the library prints the index
            try
            {
                at_index(f, lev, iv, r.first.p, [](auto&&, const char*) {});
            }
            catch (const std::out_of_range&)
            {
                thrown = true;
            }
            std::cout.clear();
            CHK(c, thrown, "range", "a run reaching " + std::to_string(over) + " beyond the cells of row " + str<D>(r.first) + " was accepted");
        }
    }
    // writing one value by cell changes this one only
    samurai::for_each_cell(mesh[Mesh::mesh_id_t::reference],
                           [&](auto& cell)
                           {
                               auto i = static_cast<std::size_t>(cell.index);
                               f[cell] = static_cast<T>(-1);
                               for (auto j : idx)
                               {
                                   for (std::size_t e = 0; e < K::n; ++e)
                                   {
                                       CHK(c, fat(f, j, e) == (j == i ? T(-1) : uniq<T>(j, e)), "write", "writing [cell] changed another value");
                                   }
                               }
                               for (std::size_t e = 0; e < K::n; ++e)
                               {
                                   fat(f, i, e) = uniq<T>(i, e);
                               }
                           });
    // iterators: the runs of the leaves, in both directions, with jumps
    LSet<D> leaf = cells_of<D>(mesh[Mesh::mesh_id_t::cells]);
    auto lr      = runs_of(leaf);
    std::sort(lr.begin(), lr.end(),
              [](auto& a, auto& b)
              {
                  auto key = [](const Runs& r)
                  {
                      std::vector<int> k{r.first.level};
                      for (std::size_t d = D; d-- > 0;)
                      {
                          k.push_back(r.first.p[d]);
                      }
                      return k;
                  };
                  return key(a) < key(b);
              });
    auto same = [&](auto&& v, const Runs& r, const char* how)
    {
        bool ok = v.size() == static_cast<std::size_t>(r.n) * K::n;
        for (int k = 0; ok && k < r.n; ++k)
        {
            LCell<D> x = r.first;
            x.p[0] += k;
            for (std::size_t e = 0; e < K::n; ++e)
            {
                ok = ok && elem<F>(v, e, static_cast<std::size_t>(k)) == uniq<T>(cidx<D>(mesh, x), e);
            }
        }
        CHK(c, ok, "iterator", std::string(how) + " does not give the run starting at " + str<D>(r.first));
    };
    std::size_t k = 0;
    for (auto it = f.begin(); it != f.end() && k < lr.size(); ++it, ++k)
    {
        same(*it, lr[k], "++");
    }
    CHK(c, k == lr.size(), "iterator", "number of runs");
    k = 0;
    for (auto it = cf.cbegin(); it != cf.cend() && k < lr.size(); ++it, ++k)
    {
        same(*it, lr[k], "const ++");
    }
    k = lr.size();
    for (auto it = f.end(); it != f.begin() && k > 0;)
    {
        --it;
        same(*it, lr[--k], "--");
    }
    if constexpr (K::n == 1 || !K::soa) // does not compile for SOA
    {
        k = lr.size();
        for (auto it = f.rbegin(); it != f.rend() && k > 0; ++it)
        {
            same(*it, lr[--k], "reverse");
        }
        CHK(c, k == 0, "iterator", "number of runs in reverse");
    }
    for (std::size_t a = 0; a < lr.size(); ++a)
    {
        for (std::size_t b = 0; b < lr.size(); ++b)
        {
            auto it = f.begin();
            it += static_cast<std::ptrdiff_t>(a);
            it += static_cast<std::ptrdiff_t>(b) - static_cast<std::ptrdiff_t>(a);
            same(*it, lr[b], "+=");
        }
    }
    c.outcome(h);
    c.transitions(ref.size());
}

template <class K>
void expr_case(mc::Case& c, Mesh& mesh, const LSet<D>& ref, const LSet<D>& leaf)
{
    using T = typename K::type;
    auto a  = samurai::make_field<T, K::n, K::soa>("a", mesh);
    auto b  = samurai::make_field<T, K::n, K::soa>("b", mesh);
    auto r  = samurai::make_field<T, K::n, K::soa>("r", mesh);
    auto va = [](const LCell<D>& x, std::size_t e)
    {
        return static_cast<T>(generic<D>(x, e) * 3 + 1);
    };
    auto vb = [](const LCell<D>& x, std::size_t e)
    {
        return static_cast<T>(generic<D>(x, e + 11) + 20);
    };
    auto fillf = [&]
    {
        set_all<D>(a, ref, va);
        set_all<D>(b, ref, vb);
        set_all<D>(r, ref, [](auto&, std::size_t) { return T(-777); });
    };
    using W = std::function<T(T, T)>;
    auto verify = [&](auto& f, const std::string& nm, const W& w, bool ghosts)
    {
        for (auto& x : ref)
        {
            auto i = cidx<D>(mesh, x);
            for (std::size_t e = 0; e < K::n; ++e)
            {
                if (leaf.count(x))
                {
                    T want = w(va(x, e), vb(x, e)), got = fat(f, i, e);
                    CHK(c, got == want || mc::close(static_cast<double>(got), static_cast<double>(want), 1e-13), "expression",
                        nm + " in cell " + str<D>(x) + " component " + std::to_string(e) + " is " + std::to_string(got) + " instead of " + std::to_string(want));
                }
                else if (ghosts)
                {
                    CHK(c, fat(f, i, e) == T(-777), "expression-ghost", nm + " changed the ghost " + str<D>(x));
                }
            }
        }
        for (auto& x : ref)
        {
            auto i = cidx<D>(mesh, x);
            for (std::size_t e = 0; e < K::n; ++e)
            {
                CHK(c, (&f == static_cast<void*>(&a) || fat(a, i, e) == va(x, e)) && (&f == static_cast<void*>(&b) || fat(b, i, e) == vb(x, e)), "operand", nm + " changed an operand");
            }
        }
    };
    auto run = [&](const std::string& nm, auto&& make, const W& w)
    {
        fillf();
        r = make(a, b);
        verify(r, nm, w, true);
        fillf();
        decltype(r) n = make(a, b);
        verify(n, nm + " (construction)", w, false);
        fillf();
        a = make(a, b); // aliasing
        verify(a, nm + " (into its first operand)", w, false);
        for (auto& x : ref)
        {
            for (std::size_t e = 0; e < K::n; ++e)
            {
                CHK(c, leaf.count(x) || fat(a, cidx<D>(mesh, x), e) == va(x, e), "expression-ghost", nm + " into its first operand changed the ghost " + str<D>(x));
            }
        }
        c.transitions(ref.size());
    };
    run("a+b", [](auto& p, auto& q) { return p + q; }, [](T p, T q) { return p + q; });
    run("a-b", [](auto& p, auto& q) { return p - q; }, [](T p, T q) { return p - q; });
    run("a*b", [](auto& p, auto& q) { return p * q; }, [](T p, T q) { return p * q; });
    run("a/b", [](auto& p, auto& q) { return p / q; }, [](T p, T q) { return p / q; });
    run("-a", [](auto& p, auto&) { return -p; }, [](T p, T) { return -p; });
    run("b-a", [](auto& p, auto& q) { return q - p; }, [](T p, T q) { return q - p; });
    run("a+a", [](auto& p, auto&) { return p + p; }, [](T p, T) { return p + p; });
    run("a-(b-a)", [](auto& p, auto& q) { return p - (q - p); }, [](T p, T q) { return p - (q - p); });
    run("(a+b)*(a-b)", [](auto& p, auto& q) { return (p + q) * (p - q); }, [](T p, T q) { return (p + q) * (p - q); });
    auto scal = [&](T s)
    {
        auto n = std::to_string(s);
        run(n + "*a", [s](auto& p, auto&) { return s * p; }, [s](T p, T) { return s * p; });
        run("a*" + n, [s](auto& p, auto&) { return p * s; }, [s](T p, T) { return p * s; });
        run("a+" + n, [s](auto& p, auto&) { return p + s; }, [s](T p, T) { return p + s; });
        run(n + "-a", [s](auto& p, auto&) { return s - p; }, [s](T p, T) { return s - p; });
        run("a-" + n, [s](auto& p, auto&) { return p - s; }, [s](T p, T) { return p - s; });
        run("a/" + n, [s](auto& p, auto&) { return p / s; }, [s](T p, T) { return p / s; });
        run(n + "/b", [s](auto&, auto& q) { return s / q; }, [s](T, T q) { return s / q; });
        run("a-" + n + "*(b+a)", [s](auto& p, auto& q) { return p - s * (q + p); }, [s](T p, T q) { return p - s * (q + p); });
    };
    scal(T(3));
    scal(T(-2));
    if constexpr (std::is_same_v<T, double>)
    {
        scal(0.375);
    }
    else
    {
        run("b%7", [](auto&, auto& q) { return q % 7; }, [](T, T q) { return q % 7; });
    }
    // equality
    fillf();
    if constexpr (K::n == 1)
    {
        decltype(a) d = a;
        CHK(c, a == d && !(a != d), "equality", "a copy differs");
        for (auto& x : ref)
        {
            auto i = cidx<D>(mesh, x);
            fat(d, i, 0) += T(1);
            CHK(c, (a == d) == !leaf.count(x) && (a != d) == (leaf.count(x) > 0), "equality", "equality is wrong when the value in " + str<D>(x) + " differs");
            fat(d, i, 0) -= T(1);
        }
    }
}

// initialisation
template <class K>
void init_case(mc::Case& c, Mesh& mesh, const LSet<D>& ref, const LSet<D>& leaf, const Forest<D>& fo, double sc, double org)
{
    if constexpr (std::is_same_v<typename K::type, double>)
    {
        auto center = [&](const LCell<D>& x, std::size_t d)
        {
            return org + sc / (1 << x.level) * (x.p[d] + 0.5);
        };
        auto poly = [](const auto& x, std::size_t e)
        {
            double r = 1. + static_cast<double>(e);
            for (std::size_t d = 0; d < D; ++d)
            {
                r += (2. + static_cast<double>(d + e)) * x[d] + (d ? x[d] * x[0] : 0.) + x[d] * x[d] * 0.5;
            }
            return r;
        };
        auto fn = [&](const xt::xtensor_fixed<double, xt::xshape<D>>& x)
        {
            if constexpr (K::n == 1)
            {
                return poly(x, 0);
            }
            else
            {
                xt::xtensor_fixed<double, xt::xshape<K::n>> v;
                for (std::size_t e = 0; e < K::n; ++e)
                {
                    v[e] = poly(x, e);
                }
                return v;
            }
        };
        auto f = samurai::make_field<K::n, K::soa>("f", mesh, fn);
        auto q = samurai::make_field<K::n, K::soa>("q", mesh, fn, samurai::GaussLegendre<2>());
        CHK(c, f.name() == "f" && &f.mesh() == &mesh, "init", "name or mesh");
        auto z = samurai::make_field<K::n, K::soa>("z", mesh, 2.5);
        auto g = samurai::make_field<double, K::n, K::soa>("g", mesh);
        g.fill(-4.5);
        for (auto& x : ref)
        {
            auto i = cidx<D>(mesh, x);
            for (std::size_t e = 0; e < K::n; ++e)
            {
                CHK(c, fat(z, i, e) == 2.5 && fat(g, i, e) == -4.5, "init", "constant initialisation misses " + str<D>(x));
                if (leaf.count(x))
                {
                    std::array<double, D> p;
                    for (std::size_t d = 0; d < D; ++d)
                    {
                        p[d] = center(x, d);
                    }
                    const double h = sc / (1 << x.level);
                    CHK(c, mc::close(fat(q, i, e), poly(p, e) + static_cast<double>(D) * h * h / 24., 1e-12), "init-mean", "initialisation by cell means: cell " + str<D>(x) + " holds " + std::to_string(fat(q, i, e)));
                    CHK(c, mc::close(fat(f, i, e), poly(p, e), 1e-12), "init", "initialisation by a function: cell " + str<D>(x) + " holds " + std::to_string(fat(f, i, e)) + " instead of " + std::to_string(poly(p, e)));
                }
            }
        }
        c.transitions(ref.size());
    }
    (void)fo;
}

// operation sequences on three fields of one mesh against a model
template <class K>
void ops_family(mc::Run& run, const std::string& nm, int depth)
{
    Forest<D> fo{Pos<D>{}, {}, 0, 1};
    fo.ext.fill(1);
    fo.ext[0] = 2;
    Mesh ref  = ref_mesh<Mesh, D>(fo, per_mask<D>(0), 1., 0.);
    using T   = typename K::type;
    enum
    {
        COPY,
        MOVE,
        SWAP,
        FILL,
        CELL,
        ADD,
        SELF,
        NAME,
        BC,
        CONSTRUCT,
        RUN
    };
    struct Op
    {
        int k, a, b;
    };
    std::vector<Op> ops;
    for (int a = 0; a < 3; ++a)
    {
        for (int b = 0; b < 3; ++b)
        {
            ops.push_back({COPY, a, b});
            ops.push_back({ADD, a, b}); // a = a + 2*b (leaves only)
            if (a != b)
            {
                ops.push_back({MOVE, a, b}); // a = temporary copy of b
            }
            if (a < b)
            {
                ops.push_back({SWAP, a, b});
            }
        }
        ops.push_back({FILL, a, 0});
        ops.push_back({CELL, a, 0});
        ops.push_back({CONSTRUCT, a, (a + 1) % 3}); // a = field constructed from an expression of b
        ops.push_back({RUN, a, 0});                 // write a whole run through a view
    }
    ops.push_back({NAME, 0, 0});
    ops.push_back({BC, 1, 0});
    const u64 no = ops.size();
    u64 total    = 1;
    for (int i = 0; i < depth; ++i)
    {
        total *= no;
    }
    std::vector<LCell<D>> lv = fo.leaves(1);
    run.family(nm, "all sequences of " + std::to_string(depth) + " operations out of " + std::to_string(no) + " (copy, move, swap, fill, write, expressions, names, boundary conditions) on three fields", total,
               [&](u64 id, mc::Case& c)
               {
                   Mesh m1    = make_mesh<Mesh, D>(ref, lv);
                   LSet<D> rs = cells_of<D>(m1[Mesh::mesh_id_t::reference]);
                   LSet<D> ls = cells_of<D>(m1[Mesh::mesh_id_t::cells]);
                   std::vector<std::size_t> li;
                   for (auto& x : ls)
                   {
                       li.push_back(cidx<D>(m1, x));
                   }
                   using F = decltype(samurai::make_field<T, K::n, K::soa>("", m1));
                   std::vector<F> f;
                   struct M
                   {
                       std::string name;
                       std::vector<T> v; // index * n + component
                       std::size_t bc = 0;
                   };
                   std::vector<M> m(3);
                   const std::size_t nc = samurai::make_field<T, K::n, K::soa>("", m1).array().size() / K::n;
                   f.reserve(3);
                   for (std::size_t i = 0; i < 3; ++i)
                   {
                       f.push_back(samurai::make_field<T, K::n, K::soa>("f" + std::to_string(i), m1));
                       m[i].name = "f" + std::to_string(i);
                       m[i].v.resize(nc * K::n);
                       for (std::size_t k = 0; k < nc; ++k)
                       {
                           for (std::size_t e = 0; e < K::n; ++e)
                           {
                               fat(f[i], k, e) = m[i].v[k * K::n + e] = static_cast<T>(100 * i + 10 * e + k % 7);
                           }
                       }
                   }
                   std::string hist;
                   mc::Dec dec(id);
                   T cnt = 1;
                   LCell<D> w = *ls.rbegin();
                   for (int i = 0; i < depth; ++i)
                   {
                       auto o  = ops[dec.take(no)];
                       auto& A = f[static_cast<std::size_t>(o.a)];
                       auto& B = f[static_cast<std::size_t>(o.b)];
                       auto& a = m[static_cast<std::size_t>(o.a)];
                       auto& b = m[static_cast<std::size_t>(o.b)];
                       cnt     = cnt + 1;
                       hist += " " + std::to_string(o.k) + "(" + std::to_string(o.a) + "," + std::to_string(o.b) + ")";
                       switch (o.k)
                       {
                           case COPY:
                               A = B;
                               a = M(b);
                               break;
                           case MOVE:
                           {
                               F t(B);
                               A = std::move(t);
                               a = b;
                               break;
                           }
                           case SWAP:
                           {
                               using std::swap;
                               swap(A, B);
                               std::swap(a, b);
                               break;
                           }
                           case FILL:
                               A.fill(cnt * 11);
                               std::fill(a.v.begin(), a.v.end(), cnt * 11);
                               break;
                           case CELL:
                           {
                               auto k = cidx<D>(m1, w);
                               A[m1.get_cell(static_cast<std::size_t>(w.level), xyz<D>(w.p))] = cnt * 13;
                               for (std::size_t e = 0; e < K::n; ++e)
                               {
                                   a.v[k * K::n + e] = cnt * 13;
                               }
                               break;
                           }
                           case RUN:
                           {
                               auto it = A.begin();
                               *it     = cnt * 17;
                               auto rr = m1[Mesh::mesh_id_t::cells].begin();
                               for (int x = rr->start; x < rr->end; ++x)
                               {
                                   LCell<D> y{static_cast<int>(rr.level()), {}};
                                   y.p[0] = x;
                                   for (std::size_t d = 1; d < D; ++d)
                                   {
                                       y.p[d] = rr.index()[d - 1];
                                   }
                                   for (std::size_t e = 0; e < K::n; ++e)
                                   {
                                       a.v[cidx<D>(m1, y) * K::n + e] = cnt * 17;
                                   }
                               }
                               break;
                           }
                           case ADD:
                           {
                               A      = A + T(2) * B;
                               auto t = b.v;
                               for (auto k : li)
                               {
                                   for (std::size_t e = 0; e < K::n; ++e)
                                   {
                                       a.v[k * K::n + e] += T(2) * t[k * K::n + e];
                                   }
                               }
                               break;
                           }
                           case CONSTRUCT:
                           {
                               // ghosts of a field built from an expression are unspecified: compare the leaves only
                               F t = B - T(1);
                               for (auto k : li)
                               {
                                   for (std::size_t e = 0; e < K::n; ++e)
                                   {
                                       CHK(c, fat(t, k, e) == b.v[k * K::n + e] - T(1), "construct", "field built from an expression");
                                       fat(A, k, e) = a.v[k * K::n + e] = fat(t, k, e);
                                   }
                               }
                               break;
                           }
                           case NAME:
                               A.name() = a.name = "n" + std::to_string(i);
                               break;
                           case BC:
                               if constexpr (K::n == 1)
                               {
                                   samurai::make_bc<samurai::Dirichlet<1>>(A, T(1));
                                   ++a.bc;
                               }
                               break;
                       }
                   }
                   DESC(c) << "operations" << hist;
                   u64 h = 9;
                   for (std::size_t i = 0; i < 3; ++i)
                   {
                       CHK(c, f[i].name() == m[i].name, "name", "field " + std::to_string(i) + " is named " + f[i].name() + " instead of " + m[i].name);
                       CHK(c, f[i].get_bc().size() == m[i].bc, "bc", "field " + std::to_string(i) + " has " + std::to_string(f[i].get_bc().size()) + " boundary conditions instead of " + std::to_string(m[i].bc));
                       CHK(c, &f[i].mesh() == &m1, "mesh", "field " + std::to_string(i) + " lost its mesh");
                       CHK(c, f[i].array().size() == nc * K::n, "size", "storage size changed");
                       for (auto& x : rs)
                       {
                           auto k = cidx<D>(m1, x);
                           for (std::size_t e = 0; e < K::n; ++e)
                           {
                               CHK(c, fat(f[i], k, e) == m[i].v[k * K::n + e], "value", "field " + std::to_string(i) + " cell " + str<D>(x) + " component " + std::to_string(e) + " holds " + std::to_string(fat(f[i], k, e)) + " instead of " + std::to_string(m[i].v[k * K::n + e]));
                               h = mc::mix(h, static_cast<u64>(static_cast<long>(m[i].v[k * K::n + e])));
                           }
                       }
                   }
                   c.outcome(h);
                   c.transitions(static_cast<u64>(depth));
               });
}

void forest_family(mc::Run& run, const std::string& nm, const Forest<D>& fo, int what)
{
    Mesh ref = ref_mesh<Mesh, D>(fo, per_mask<D>(0), 2., -0.5);
    std::vector<u64> fid;
    for (u64 f = 0; f < fo.count(); ++f)
    {
        if (graded<D>(fo, LeafMap<D>(fo.leaves(f)), per_mask<D>(0)))
        {
            fid.push_back(f);
        }
    }
    run.family(nm,
               "all graded forests of " + std::to_string(volume<D>(fo.ext)) + " roots of depth " + std::to_string(fo.depth) + " from level " + std::to_string(fo.L0) + ", "
                   + std::to_string(NKIND) + " kinds of field; "
                   + (what == 0 ? "all cells, all sub-runs of all stored rows with strides 1 to 3, all component ranges, read and written in every way; iterators"
                                : "a fixed list of expressions and initialisations"),
               fid.size() * NKIND,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   u64 kind = dec.take(NKIND);
                   auto lv  = fo.leaves(fid[dec.take(fid.size())]);
                   DESC(c) << "leaves " << str<D>(lv) << " field kind " << kind;
                   Mesh mesh  = make_mesh<Mesh, D>(ref, lv);
                   LSet<D> rs = cells_of<D>(mesh[Mesh::mesh_id_t::reference]);
                   LSet<D> ls(lv.begin(), lv.end());
                   with_kind(kind,
                             [&](auto k)
                             {
                                 using K = decltype(k);
                                 if (what == 0)
                                 {
                                     access_case<K>(c, mesh, rs);
                                 }
                                 else
                                 {
                                     expr_case<K>(c, mesh, rs, ls);
                                     init_case<K>(c, mesh, rs, ls, fo, 2., -0.5);
                                     c.outcome(hash<D>(rs) + kind);
                                 }
                             });
               });
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();
    if constexpr (D == 1)
    {
        forest_family(run, "access_r3d2", {ext3<D>(-1), ext3<D>(3), 1, T ? 3 : 2}, 0);
        forest_family(run, "access_r2d3", {ext3<D>(0), ext3<D>(2), 0, 3}, 0);
        forest_family(run, "expr_r3d2", {ext3<D>(-1), ext3<D>(3), 1, 2}, 1);
        ops_family<Kind<double, 1, false>>(run, "ops_scalar", T ? 5 : 4);
        ops_family<Kind<double, 2, false>>(run, "ops_aos", T ? 4 : 3);
        ops_family<Kind<double, 2, true>>(run, "ops_soa", 3);
    }
    if constexpr (D == 2)
    {
        forest_family(run, "access_r2d1", {ext3<D>(-1, 0), ext3<D>(2, 1), 1, 1}, 0);
        forest_family(run, "access_r4d1", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 1}, 0);
        forest_family(run, "access_r2d2", {ext3<D>(-1, 0), ext3<D>(2, 1), 1, 2}, 0);
        forest_family(run, "access_r1d2", {ext3<D>(0, 0), ext3<D>(1, 1), 1, 2}, 0);
        forest_family(run, "expr_r2d2", {ext3<D>(0, -1), ext3<D>(2, 1), 1, 2}, 1);
        forest_family(run, "expr_r4d1", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 1}, 1);
        ops_family<Kind<double, 2, true>>(run, "ops_soa", T ? 4 : 3);
    }
    if constexpr (D == 3)
    {
        forest_family(run, "access_r1d1", {ext3<D>(0, -1, 0), ext3<D>(1, 1, 1), 1, 1}, 0);
        {
            forest_family(run, "access_r2d1", {ext3<D>(0, -1, 0), ext3<D>(1, 2, 1), 1, 1}, 0);
        }
        forest_family(run, "expr_r2d1", {ext3<D>(0, 0, 0), ext3<D>(2, 1, 1), 1, 1}, 1);
    }
    return run.finish();
}
