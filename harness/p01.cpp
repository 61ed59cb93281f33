// P01: parallel traversals and scheme applications are race-free and equal the sequential ones, under every schedule.
// Compiled with -fopenmp -fsanitize=thread and linked with the controlled runtime omp_rt.cpp instead of libgomp/libtsan.
#include "sam_fv.hpp"
#include <samurai/schemes/fv.hpp>
#include "omp_rt.hpp"
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;

using Mesh = samurai::MRMesh<samurai::MRConfig<D, 3, 0, 1>>;
using S    = samurai::SchemeType;

// all interleavings of n creations and n executions (an execution follows its creation)
const std::vector<std::vector<int>>& orders(std::size_t n)
{
    static std::map<std::size_t, std::vector<std::vector<int>>> memo;
    auto it = memo.find(n);
    if (it != memo.end())
    {
        return it->second;
    }
    std::vector<std::vector<int>> all;
    std::vector<int> cur;
    std::function<void(std::size_t, u64)> rec = [&](std::size_t created, u64 done)
    {
        if (cur.size() == 2 * n)
        {
            all.push_back(cur);
            return;
        }
        if (created < n)
        {
            cur.push_back(-1);
            rec(created + 1, done);
            cur.pop_back();
        }
        for (std::size_t k = 0; k < created; ++k)
        {
            if (!(done >> k & 1))
            {
                cur.push_back(static_cast<int>(k));
                rec(created, done | u64(1) << k);
                cur.pop_back();
            }
        }
    };
    rec(0, 0);
    return memo[n] = all;
}

// for many tasks: reversed order, immediate execution, and every task first or last
std::vector<std::vector<int>> some_orders(std::size_t n)
{
    std::vector<std::vector<int>> all;
    std::vector<int> create(n, -1), imm, rev = create;
    for (std::size_t k = 0; k < n; ++k)
    {
        imm.push_back(-1);
        imm.push_back(static_cast<int>(k));
        rev.push_back(static_cast<int>(n - 1 - k));
    }
    all.push_back(imm);
    all.push_back(rev);
    for (std::size_t k = 0; k < n; ++k)
    {
        for (int first = 0; first < 2; ++first)
        {
            auto v = create;
            if (first)
            {
                v.push_back(static_cast<int>(k));
            }
            for (std::size_t j = 0; j < n; ++j)
            {
                if (j != k)
                {
                    v.push_back(static_cast<int>(j));
                }
            }
            if (!first)
            {
                v.push_back(static_cast<int>(k));
            }
            all.push_back(v);
        }
    }
    return all;
}

std::string show(const std::vector<int>& v)
{
    std::string s;
    for (auto x : v)
    {
        s += x < 0 ? "c" : std::to_string(x);
        s += " ";
    }
    return s;
}

struct Result_
{
    std::vector<double> v;
};

std::size_t g_limit = 3; // regions of at most that many tasks are explored completely

// exec: clears the result memory and runs the code; res: reads the result
void explore(mc::Case& c, const std::string& who, const std::function<void()>& exec, const std::function<std::vector<double>()>& res, bool exact)
{
    u64 runs = 0, hsh = 3;
    auto go  = [&](const omprt::Plan& p)
    {
        omprt::reset(p);
        exec();
        ++runs;
        REQ(c, omprt::unsupported() == 0, "runtime", who + ": the controlled runtime does not support a construct that is used");
        return res();
    };
    auto same = [&](const std::vector<double>& a, const std::vector<double>& b)
    {
        if (a.size() != b.size())
        {
            return false;
        }
        for (std::size_t i = 0; i < a.size(); ++i)
        {
            if (exact ? a[i] != b[i] : !(std::abs(a[i] - b[i]) <= 1e-10 * (1. + std::abs(b[i]))))
            {
                return false;
            }
        }
        return true;
    };
    auto first = [&](const std::vector<double>& a, const std::vector<double>& b)
    {
        for (std::size_t i = 0; i < a.size() && i < b.size(); ++i)
        {
            if (a[i] != b[i])
            {
                return " (entry " + std::to_string(i) + ": " + std::to_string(a[i]) + " instead of " + std::to_string(b[i]) + ")";
            }
        }
        return std::string();
    };
    omprt::Plan p;
    p.threads  = 1;
    auto want  = go(p);
    for (auto x : want)
    {
        hsh = mc::mix(hsh, static_cast<u64>(static_cast<long long>(std::llround(x * 1024))));
    }
    p.threads  = 2;
    auto got   = go(p);
    auto tasks = omprt::tasks();
    auto H     = omprt::hashes();
    REQ(c, same(got, want), "parallel", who + ": with 2 threads the result is not the sequential one" + first(got, want));
    int nmax = 0;
    for (auto n : tasks)
    {
        nmax = std::max(nmax, n);
    }
    // conflicts: every pair of tasks runs on different threads in one of the executions
    for (int th : {2, 3})
    {
        for (int single = 0; single < 2; ++single)
        {
            for (int pat = 0; pat == 0 || (1 << pat) < nmax; ++pat)
            {
                omprt::Plan q;
                q.threads = th;
                q.single  = single;
                q.pattern = pat;
                q.record  = true;
                auto r    = go(q);
                REQ(c, omprt::conflicts().empty(), "race", who + ", " + std::to_string(th) + " threads: " + omprt::conflicts().front());
                REQ(c, same(r, want), "parallel", who + ": with " + std::to_string(th) + " threads the result is not the sequential one" + first(r, want));
            }
        }
    }
    // schedules, one region at a time (the state after the region must not depend on the schedule)
    for (std::size_t reg = 0; reg < tasks.size(); ++reg)
    {
        auto n = static_cast<std::size_t>(tasks[reg]);
        if (n == 0)
        {
            continue;
        }
        auto few         = n <= g_limit;
        const auto& evs  = few ? orders(n) : some_orders(n);
        std::vector<std::vector<int>> thr;
        if (few)
        {
            for (u64 m = 0; m < u64(1) << n; ++m)
            {
                std::vector<int> t;
                for (std::size_t k = 0; k < n; ++k)
                {
                    t.push_back(static_cast<int>(m >> k & 1));
                }
                thr.push_back(t);
            }
        }
        else
        {
            for (int pat = 0; (std::size_t(1) << pat) < n; ++pat)
            {
                std::vector<int> t;
                for (std::size_t k = 0; k < n; ++k)
                {
                    t.push_back(static_cast<int>(k >> pat & 1));
                }
                thr.push_back(t);
            }
        }
        for (auto& ev : evs)
        {
            for (auto& t : thr)
            {
                for (int single = 0; single < 2; ++single)
                {
                    omprt::Plan q;
                    q.single = single;
                    q.region = static_cast<int>(reg);
                    q.ev     = ev;
                    q.thr    = t;
                    auto r   = go(q);
                    auto sch = [&]
                    {
                        return ", parallel region " + std::to_string(reg) + " under the schedule " + show(ev) + "on threads " + show(t) + "(created by thread " + std::to_string(single) + ")";
                    };
                    REQ(c, omprt::tasks() == tasks, "schedule", who + sch() + ": the tasks created depend on the schedule");
                    REQ(c, same(r, want), "schedule", who + sch() + ": the result is not the sequential one" + first(r, want));
                    REQ(c, !exact || omprt::hashes()[reg] == H[reg], "schedule", who + sch() + ": the state after the region depends on the schedule");
                }
            }
        }
    }
    c.transitions(runs);
    c.outcome(mc::mix(hsh, tasks.size()));
}

template <std::size_t N>
std::vector<int> offsets()
{
    std::vector<int> o;
    for (std::size_t k = 0; k < N; ++k)
    {
        o.push_back(static_cast<int>(k) - static_cast<int>(N) / 2 + 1);
    }
    return o;
}

// dyadic coefficients: sums are exact in any order
double coef(u64 salt, std::size_t d, double h, std::size_t k, std::size_t i, std::size_t j)
{
    u64 x = mc::mix(mc::mix(mc::mix(mc::mix(salt + 11, d), k), i), j);
    return (static_cast<double>(x % 13) - 6.) * (x % 2 ? 1. / h : 1.);
}

template <class M>
void put(M& m, std::size_t i, std::size_t j, double v)
{
    if constexpr (std::is_floating_point_v<M>)
    {
        m = v;
    }
    else
    {
        m(i, j) = v;
    }
}

template <class V>
double comp(const V& v, std::size_t j)
{
    if constexpr (std::is_floating_point_v<std::decay_t<V>>)
    {
        return v;
    }
    else
    {
        return v(j);
    }
}

struct Watch
{
    Watch()
    {
        omprt::unwatch();
    }

    ~Watch()
    {
        omprt::unwatch();
    }
};

template <class F, class Scheme>
void run_scheme(mc::Case& c, F& u, Scheme& scheme, const std::string& who, bool exact = true)
{
    auto out = scheme(u); // gives the type of the result
    using O  = std::decay_t<decltype(out)>;
    Watch guard; // ends before the watched memory is freed
    omprt::watch(out.array().data(), out.array().size() * sizeof(double), "the output field");
    auto exec = [&]
    {
        out.fill(0.25);
        scheme.apply(out, u);
    };
    auto before = u.array();
    explore(c, who, exec,
            [&]
            {
                std::vector<double> v;
                auto* p = out.array().data();
                for (std::size_t i = 0; i < out.array().size(); ++i)
                {
                    v.push_back(p[i]);
                }
                return v;
            },
            exact);
    REQ(c, before == u.array(), "input", who + ": the input field changed");
}

template <class F>
void schemes(mc::Case& c, F& u, u64 which)
{
    static constexpr std::size_t nin = F::size;
    auto kind                        = [&](auto k_, auto n_, auto o_)
    {
        constexpr S type           = decltype(k_)::value;
        constexpr std::size_t n    = decltype(n_)::value;
        constexpr std::size_t nout = decltype(o_)::value;
        using cfg                  = samurai::FluxConfig<type, nout, n, F>;
        const u64 salt             = n * 5 + nout * 3 + nin;
        samurai::FluxDefinition<cfg> def;
        std::string who = std::string(type == S::NonLinear ? "nonlinear" : "constant-coefficient") + " scheme, stencil of " + std::to_string(n) + ", " + std::to_string(nin) + " -> " + std::to_string(nout)
                        + " components";
        for (std::size_t d = 0; d < D; ++d)
        {
            if constexpr (type == S::LinearHomogeneous)
            {
                def[d].cons_flux_function = [salt, d](double h)
                {
                    samurai::FluxStencilCoeffs<cfg> m;
                    for (std::size_t k = 0; k < n; ++k)
                    {
                        for (std::size_t i = 0; i < nout; ++i)
                        {
                            for (std::size_t j = 0; j < nin; ++j)
                            {
                                put(m[k], i, j, coef(salt, d, h, k, i, j));
                            }
                        }
                    }
                    return m;
                };
            }
            else
            {
                def[d].cons_flux_function = [d](auto& cells, const F& f)
                {
                    samurai::FluxValue<cfg> v;
                    for (std::size_t i = 0; i < nout; ++i)
                    {
                        double x = 0;
                        for (std::size_t k = 0; k < n; ++k)
                        {
                            x += static_cast<double>(k * 3 + d + 1) * (k % 2 ? -0.5 : 0.25) * comp(f[cells[k]], i % nin) * comp(f[cells[(k + 1) % n]], (i + d) % nin);
                        }
                        if constexpr (nout == 1)
                        {
                            v = x;
                        }
                        else
                        {
                            v(i) = x;
                        }
                    }
                    return v;
                };
            }
        }
        auto scheme = samurai::make_flux_based_scheme(def);
        for (bool bd : {true, false})
        {
            scheme.include_boundary_fluxes(bd);
            run_scheme(c, u, scheme, who + (bd ? "" : ", no boundary fluxes"));
        }
    };
    auto hom = std::integral_constant<S, S::LinearHomogeneous>{};
    auto non = std::integral_constant<S, S::NonLinear>{};
    std::integral_constant<std::size_t, 1> o1;
    std::integral_constant<std::size_t, 2> n2;
    std::integral_constant<std::size_t, 4> n4;
    std::integral_constant<std::size_t, 6> n6;
    if constexpr (nin == 1)
    {
        switch (which)
        {
            case 0:
                kind(hom, n2, o1);
                break;
            case 1:
                kind(hom, n4, n2);
                break;
            case 2:
                kind(non, n2, o1);
                break;
            case 3:
                kind(non, n6, o1);
                break;
            case 4:
            {
                using cfg = samurai::FluxConfig<S::NonLinear, 1, 2, F>;
                samurai::FluxDefinition<cfg> def;
                for (std::size_t d = 0; d < D; ++d)
                {
                    def[d].flux_function = [d](auto& cells, const F& f)
                    {
                        samurai::FluxValuePair<cfg> r;
                        r[0] = (1. + static_cast<double>(d)) * f[cells[0]] * f[cells[1]];
                        r[1] = f[cells[1]] * f[cells[1]] - 0.5 * f[cells[0]];
                        return r;
                    };
                }
                auto scheme = samurai::make_flux_based_scheme(def);
                run_scheme(c, u, scheme, "non-conservative flux");
                break;
            }
            case 5:
            {
                auto diff = samurai::make_diffusion_order2<F>();
                samurai::VelocityVector<D> vel;
                vel.fill(0.5);
                vel(0)     = -1.25;
                auto conv = samurai::make_convection_weno5<F>(vel);
                auto up   = samurai::make_convection_upwind<F>(vel);
                run_scheme(c, u, up, "upwind convection");
                run_scheme(c, u, conv, "WENO5 convection", false);
                auto sum = diff + up;
                run_scheme(c, u, sum, "diffusion + upwind convection");
                break;
            }
        }
    }
    else
    {
        switch (which)
        {
            case 6:
                kind(hom, n2, n2);
                break;
            case 7:
                kind(hom, n4, o1);
                break;
            case 8:
                kind(non, n4, n2);
                break;
        }
    }
}

// traversals
void traversals(mc::Case& c, const Mesh& mesh, const LeafMap<D>& lm, u64 which)
{
    using id_t = typename Mesh::mesh_id_t;
    const std::size_t N = mesh.nb_cells();
    auto& ca            = mesh[id_t::cells];
    std::vector<double> slot;
    Watch guard;
    auto res = [&]
    {
        return slot;
    };
    auto start = [&](std::size_t n)
    {
        slot.assign(n, 0.);
        omprt::unwatch();
        omprt::watch(slot.data(), n * sizeof(double), "the record of visits");
    };
    auto clear = [&]
    {
        for (auto& x : slot)
        {
            x = 0;
        }
    };
    if (which == 0)
    {
        constexpr std::size_t W = D + 3 + D;
        start(N * W);
        auto f = [&](const auto& cell)
        {
            double* s = slot.data() + static_cast<std::size_t>(cell.index) * W;
            s[0] += 1;
            s[1] = static_cast<double>(cell.level);
            s[2] = cell.length;
            for (std::size_t d = 0; d < D; ++d)
            {
                s[3 + d]     = cell.indices[d];
                s[3 + D + d] = cell.center(d);
            }
        };
        auto check = [&](const std::string& who)
        {
            // exactly the leaves, once, with their own coordinates
            u64 n = 0;
            for (std::size_t i = 0; i < N; ++i)
            {
                n += slot[i * W] != 0;
            }
            REQ(c, n == lm.leaf.size(), "visit", who + ": " + std::to_string(n) + " cells visited, the mesh has " + std::to_string(lm.leaf.size()));
            for (auto& l : lm.leaf)
            {
                auto* s = slot.data() + cidx<D>(mesh, l) * W;
                bool ok = s[0] == 1 && s[1] == l.level;
                for (std::size_t d = 0; d < D; ++d)
                {
                    ok = ok && s[3 + d] == l.p[d];
                }
                REQ(c, ok, "visit", who + ": leaf " + str<D>(l) + " is not visited once with its own coordinates");
            }
        };
        auto all = [&]
        {
            clear();
            samurai::for_each_cell<samurai::Run::Parallel>(mesh, f);
        };
        explore(c, "for_each_cell over a mesh", all, res, true);
        check("parallel for_each_cell over a mesh");
        auto cells = [&]
        {
            clear();
            samurai::for_each_cell<samurai::Run::Parallel>(ca, f);
        };
        explore(c, "for_each_cell over a cell array", cells, res, true);
        check("parallel for_each_cell over a cell array");
        auto lev = [&]
        {
            clear();
            for (std::size_t l = ca.min_level(); l <= ca.max_level(); ++l)
            {
                samurai::for_each_cell<samurai::Run::Parallel>(ca[l], f);
            }
        };
        explore(c, "for_each_cell over levels", lev, res, true);
        check("parallel for_each_cell over levels");
    }
    else if (which == 1)
    {
        // runs of set expressions; slots address a box of cells
        using MI = typename Mesh::mesh_interval_t;
        auto go  = [&](auto&& set, const std::string& who)
        {
            constexpr int B = D == 3 ? 16 : 32, off = 4 * B; // wider than any level of the meshes, ghosts included
            std::size_t n = 1;
            for (std::size_t d = 0; d < D; ++d)
            {
                n *= B;
            }
            auto f = [&](const auto& mi)
            {
                int row = 0;
                for (std::size_t d = D - 1; d > 0; --d)
                {
                    row = row * B + (mi.index[d - 1] + off) % B;
                }
                for (int x = mi.i.start; x < mi.i.end; ++x)
                {
                    slot[static_cast<std::size_t>(row * B + (x + off) % B)] += 1. + static_cast<double>(mi.level);
                }
            };
            start(n);
            std::vector<double> seq;
            auto s1 = set;
            clear();
            samurai::for_each_meshinterval<MI, samurai::Run::Sequential>(s1, f);
            seq       = slot;
            auto exec = [&]
            {
                clear();
                auto s = set;
                samurai::for_each_meshinterval<MI, samurai::Run::Parallel>(s, f);
            };
            explore(c, who, exec, res, true);
            REQ(c, slot == seq, "visit", who + ": the parallel traversal visits other cells than the sequential one");
        };
        for (std::size_t l = ca.min_level(); l <= ca.max_level(); ++l)
        {
            auto& cells = ca[l];
            auto& all   = mesh[id_t::reference][l];
            typename samurai::DirectionVector<D> dir;
            dir.fill(0);
            dir[D - 1] = -1;
            go(samurai::intersection(cells, all), "runs of an intersection");
            go(samurai::difference(all, cells), "runs of a difference");
            go(samurai::intersection(samurai::translate(cells, dir), cells), "runs of an intersection with a shifted set");
            if (l > 0)
            {
                go(samurai::intersection(cells, mesh[id_t::reference][l - 1]).on(l - 1), "runs of a set seen on a coarser level");
            }
            if (l < ca.max_level())
            {
                go(samurai::intersection(all, ca[l + 1]).on(l + 1), "runs of a set seen on a finer level");
            }
        }
    }
    else
    {
        // faces: identified by direction and by the computation cell below the face
        auto faces_ = [&](auto get, bool bdry, const std::string& who)
        {
            constexpr samurai::Get G = decltype(get)::value;
            constexpr std::size_t W  = 3;
            start(N * W * D * 2);
            auto rec = [&](std::size_t d, std::size_t side, auto key, auto a, auto b)
            {
                double* s = slot.data() + ((static_cast<std::size_t>(key) * D + d) * 2 + side) * W;
                s[0] += 1;
                s[1] = static_cast<double>(a) + 1;
                s[2] = static_cast<double>(b) + 1;
            };
            auto body = [&](auto par)
            {
                constexpr samurai::Run R = decltype(par)::value;
                clear();
                for (std::size_t d = 0; d < D; ++d)
                {
                    samurai::DirectionVector<D> dir;
                    dir.fill(0);
                    dir[d] = 1;
                    if (!bdry)
                    {
                        samurai::for_each_interior_interface<R, G>(mesh, dir,
                                                                   [&](auto& in, auto& st)
                                                                   {
                                                                       if constexpr (G == samurai::Get::Cells)
                                                                       {
                                                                           rec(d, 0, st[0].index, in[0].index, in[1].index);
                                                                       }
                                                                       else
                                                                       {
                                                                           rec(d, 0, st.cells()[0].index, in.cells()[0].index, st.interval().size());
                                                                       }
                                                                   });
                    }
                    else
                    {
                        samurai::for_each_boundary_interface__both_directions<R, G>(mesh, dir,
                                                                                    [&](auto& in, auto& st)
                                                                                    {
                                                                                        if constexpr (G == samurai::Get::Cells)
                                                                                        {
                                                                                            rec(d, st[0].index == in.index, in.index, st[0].index, st[1].index);
                                                                                        }
                                                                                        else
                                                                                        {
                                                                                            rec(d, st.cells()[0].index == in.index, in.index, st.cells()[1].index, st.interval().size());
                                                                                        }
                                                                                    });
                    }
                }
            };
            omprt::Plan one;
            one.threads = 1;
            omprt::reset(one);
            body(std::integral_constant<samurai::Run, samurai::Run::Sequential>{});
            auto seq = slot;
            explore(c, who,
                    [&]
                    {
                        body(std::integral_constant<samurai::Run, samurai::Run::Parallel>{});
                    },
                    res, true);
            REQ(c, slot == seq, "visit", who + ": the parallel traversal visits other faces than the sequential one");
        };
        std::integral_constant<samurai::Get, samurai::Get::Cells> gc;
        std::integral_constant<samurai::Get, samurai::Get::Intervals> gi;
        faces_(gc, false, "interior faces, cell by cell");
        faces_(gi, false, "interior faces, by runs");
        faces_(gc, true, "boundary faces, cell by cell");
        faces_(gi, true, "boundary faces, by runs");
    }
}

void family(mc::Run& run, const std::string& nm, const Forest<D>& fo, std::size_t limit)
{
    std::array<bool, D> none{};
    Space<D, Mesh> sp(fo, none, 2., aligned<D>(fo) ? -0.5 : 0.25);
    run.family(nm,
               sp.rule() + ", 3 groups of traversals and 9 groups of schemes; every parallel region of at most " + std::to_string(limit)
                   + " tasks under all creation/execution orders, all assignments to 2 threads and both task-creating threads, larger ones under immediate, reversed and one-task-displaced orders; conflict analysis of all task pairs",
               sp.ids.size() * 12,
               [&, limit](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   g_limit   = limit;
                   auto lv   = fo.leaves(sp.ids[dec.take(sp.ids.size())]);
                   u64 which = dec.take(12);
                   DESC(c) << "group " << which << ", leaves " << str<D>(lv);
                   omprt::Plan one;
                   one.threads = 1;
                   omprt::reset(one);
                   auto mesh = make_mesh<Mesh, D>(sp.ref, lv);
                   LeafMap<D> lm(lv);
                   if (which < 3)
                   {
                       traversals(c, mesh, lm, which);
                       return;
                   }
                   auto ref = cells_of<D>(mesh[Mesh::mesh_id_t::reference]);
                   auto go  = [&](auto&& u)
                   {
                       set_all<D>(u, ref,
                                  [&](const LCell<D>& x, std::size_t e)
                                  {
                                      return generic<D>(x, e);
                                  });
                       schemes(c, u, which - 3);
                   };
                   if (which - 3 < 6)
                   {
                       go(samurai::make_field<1>("u", mesh));
                   }
                   else
                   {
                       go(samurai::make_field<2>("u", mesh));
                   }
               });
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();
    const std::size_t L = T ? 4 : 3;
#if DIM == 1
    family(run, "r2d2", {{0}, {2}, 0, 2}, L);
    family(run, "r1d3", {{0}, {1}, 0, 3}, L);
    family(run, "r3d2", {{-1}, {3}, 1, 2}, L);
    if (T)
    {
        family(run, "r2d3", {{0}, {2}, 0, 3}, L);
    }
#elif DIM == 2
    family(run, "r11d2", {{0, 0}, {1, 1}, 0, 2}, L);
    family(run, "r21d1", {{0, 0}, {2, 1}, 0, 1}, L);
    family(run, "r12d1", {{-1, 1}, {1, 2}, 1, 1}, L);
    family(run, "r22d1", {{0, 0}, {2, 2}, 0, 1}, L);
    if (T)
    {
        family(run, "r21d2", {{0, 0}, {2, 1}, 0, 2}, L);
    }
#else
    family(run, "r111d1", {{0, 0, 0}, {1, 1, 1}, 0, 1}, L);
    family(run, "r112d1", {{-1, 0, 1}, {1, 1, 2}, 1, 1}, L);
    family(run, "r121d1", {{0, 0, 0}, {1, 2, 1}, 0, 1}, L);
    family(run, "r211d1", {{0, 0, 0}, {2, 1, 1}, 0, 1}, L);
    if (T)
    {
        family(run, "r221d1", {{0, 0, 0}, {2, 2, 1}, 0, 1}, L);
    }
#endif
    return run.finish();
}
