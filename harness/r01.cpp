// R01: reconstruction onto finer levels equals repeated prediction.
#include "sam_field.hpp"
#include <samurai/algorithm.hpp>
#include <samurai/mr/mesh.hpp>
#include <samurai/reconstruction.hpp>
#include <samurai/uniform_mesh.hpp>
#include <sys/wait.h>
#include <unistd.h>
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;
using interval_t = samurai::default_config::interval_t;
using value_t    = interval_t::value_t;

// value of the cell at a finer level, by repeated one-level prediction from get(position) at level `from`
template <class G>
double refine(int s, int from, const LCell<D>& c, G&& get, std::map<LCell<D>, double>& memo)
{
    if (c.level == from)
    {
        return get(c.p);
    }
    auto it = memo.find(c);
    if (it != memo.end())
    {
        return it->second;
    }
    double v = predict<D>(s, c.p,
                          [&](const Pos<D>& q)
                          {
                              return refine(s, from, LCell<D>{c.level - 1, q}, get, memo);
                          });
    memo[c] = v;
    return v;
}

// --- coefficients of repeated prediction ------------------------------------
template <std::size_t s>
void map_family(mc::Run& run, int dmax, int margin)
{
    u64 total = 0;
    std::vector<std::pair<int, u64>> per;
    for (int dl = 0; dl <= dmax; ++dl)
    {
        u64 n = mc::cpow(static_cast<u64>((1 << dl) + 2 * margin), D);
        per.push_back({dl, n});
        total += n;
    }
    run.family("map_o" + std::to_string(s), "order " + std::to_string(s) + ", all level differences up to " + std::to_string(dmax) + ", all sub-cells of a cell and its neighbourhood, every coefficient", total,
               [&](u64 id, mc::Case& c)
               {
                   int dl = 0;
                   for (auto& [l, n] : per)
                   {
                       dl = l;
                       if (id < n)
                       {
                           break;
                       }
                       id -= n;
                   }
                   mc::Dec dec(id);
                   Pos<D> p;
                   for (auto& x : p)
                   {
                       x = static_cast<int>(dec.take(static_cast<u64>((1 << dl) + 2 * margin))) - margin;
                   }
                   DESC(c) << "order " << s << ", " << dl << " levels, sub-cell " << str<D>(LCell<D>{dl, p});
                   samurai::prediction_map<D, value_t> m;
#if DIM == 1
                   m = samurai::prediction<s, value_t>(static_cast<std::size_t>(dl), p[0]);
#elif DIM == 2
                   m = samurai::prediction<s, value_t>(static_cast<std::size_t>(dl), p[0], p[1]);
#else
                   m = samurai::prediction<s, value_t>(static_cast<std::size_t>(dl), p[0], p[1], p[2]);
#endif
                   // reference weights: one direction at a time (tensor product), one level at a time
                   std::map<Pos<D>, double> want;
                   std::array<std::map<int, double>, D> w1;
                   for (std::size_t d = 0; d < D; ++d)
                   {
                       std::function<void(int, int, double)> walk = [&](int level, int x, double w)
                       {
                           if (level == 0)
                           {
                               w1[d][x] += w;
                               return;
                           }
                           auto pw = pred_weights(static_cast<int>(s), x & 1);
                           for (int o = -static_cast<int>(s); o <= static_cast<int>(s); ++o)
                           {
                               walk(level - 1, (x >> 1) + o, w * pw[static_cast<std::size_t>(o + static_cast<int>(s))]);
                           }
                       };
                       walk(dl, p[d], 1.);
                   }
                   std::function<void(std::size_t, Pos<D>, double)> prod = [&](std::size_t d, Pos<D> q, double w)
                   {
                       if (d == D)
                       {
                           want[q] = w;
                           return;
                       }
                       for (auto& [x, a] : w1[d])
                       {
                           q[d] = x;
                           prod(d + 1, q, w * a);
                       }
                   };
                   prod(0, {}, 1.);
                   double sum = 0;
                   u64 h      = 3;
                   for (auto& [q, w] : want)
                   {
                       auto it  = m.coeff.find(q);
                       double g = it == m.coeff.end() ? 0. : it->second;
                       CHK(c, std::abs(g - w) <= 1e-13, "coefficient", "weight of the coarse cell " + str<D>(LCell<D>{0, q}) + " is " + std::to_string(g) + ", repeated prediction gives " + std::to_string(w));
                       sum += g;
                       h = mc::mix(h, static_cast<u64>(std::llround(g * 1e9)));
                   }
                   for (auto& [q, g] : m.coeff)
                   {
                       CHK(c, want.count(q) || g == 0., "coefficient", "unexpected weight of the coarse cell " + str<D>(LCell<D>{0, q}));
                   }
                   CHK(c, std::abs(sum - 1.) <= 1e-12, "constant", "the weights do not add up to one");
                   c.outcome(h);
                   c.transitions(want.size());
               });
}

// --- sub-cell queries ---------------------------------------------------------
// a field on full boxes at several levels, no adapted mesh needed
using CA = samurai::CellArray<D>;

template <std::size_t s>
struct QMesh : CA
{
    struct config
    {
        static constexpr std::size_t prediction_order = s;
    };
};

CA boxes(int lmax, int lo, int hi)
{
    CA ca;
    for (int l = 0; l <= lmax; ++l)
    {
        samurai::LevelCellList<D> lcl(static_cast<std::size_t>(l));
        Pos<D> a, b;
        a.fill(lo);
        b.fill(hi);
        for_box<D>(a, b,
                   [&](const Pos<D>& p)
                   {
                       xt::xtensor_fixed<int, xt::xshape<D - 1>> yz;
                       for (std::size_t d = 1; d < D; ++d)
                       {
                           yz[d - 1] = p[d];
                       }
                       lcl[yz].add_point(p[0]);
                   });
        ca[static_cast<std::size_t>(l)] = samurai::LevelCellArray<D>(lcl);
    }
    ca.update_index();
    return ca;
}

template <class F>
double value_at(const LCell<D>& c, std::size_t e)
{
    return generic<D>(c, e + 3);
}

// one query: a cell interval at a level, a level difference, a sub-cell or a range of sub-cells
struct Query
{
    int level, dl;
    bool range, alt; // range of sub-cells; alt: second choice of the range / sub-cell
    std::string text() const
    {
        return "(level " + std::to_string(level) + ", " + std::to_string(dl) + " levels down, " + (range ? "range " : "sub-cell ") + (alt ? "b)" : "a)");
    }
};

// returns an empty string if the query is answered correctly
template <std::size_t s, class F>
std::string ask(F& f, const Query& q, int elem)
{
    const int n = 1 << q.dl;
    std::array<interval_t, D> rg;
    for (std::size_t d = 0; d < D; ++d)
    {
        int a, b;
        if (q.range)
        {
            a = q.alt ? 1 : 0;
            b = q.alt ? 2 : (d == 1 ? n : std::max(1, n / 2)); // the ranges of kind b are the same for all level differences
        }
        else
        {
            a = q.alt ? n - 1 : (d == 0 ? 0 : n / 2);
            b = a + 1;
        }
        rg[d] = interval_t{a, b};
    }
    const interval_t i{0, 3}; // three cells at once
    const int j = 1, k = 0;
    (void)j;
    (void)k;
    const std::size_t lv = static_cast<std::size_t>(q.level), dl = static_cast<std::size_t>(q.dl), el = static_cast<std::size_t>(std::max(elem, 0));
    (void)el;
    auto compare = [&](const auto& res, std::size_t e, auto&& pick) -> std::string
    {
        for (int x = 0; x < 3; ++x)
        {
            Pos<D> cell{};
            cell[0] = x;
            if (D > 1)
            {
                cell[1] = j;
            }
            if (D > 2)
            {
                cell[2] = k;
            }
            double want = 0;
            std::map<LCell<D>, double> memo;
            Pos<D> a, b;
            for (std::size_t d = 0; d < D; ++d)
            {
                a[d] = cell[d] * n + rg[d].start;
                b[d] = cell[d] * n + rg[d].end;
            }
            for_box<D>(a, b,
                       [&](const Pos<D>& p)
                       {
                           want += refine(static_cast<int>(s), q.level, LCell<D>{q.level + q.dl, p},
                                          [&](const Pos<D>& y)
                                          {
                                              return value_at<F>(LCell<D>{q.level, y}, e);
                                          },
                                          memo);
                       });
            double got = pick(res, static_cast<std::size_t>(x), e);
            if (!(std::abs(got - want) <= 1e-10 * (1. + std::abs(want))))
            {
                return "component " + std::to_string(e) + " of cell " + str<D>(LCell<D>{q.level, cell}) + " gives " + std::to_string(got) + ", repeated prediction gives " + std::to_string(want);
            }
        }
        return {};
    };
    auto flat = [](const auto& r, std::size_t x, std::size_t) -> double
    {
        return r(x);
    };
#if DIM == 1
#define ARGS_CELL i
#define SUB rg[0].start
#define RNG rg[0]
#define PORTION_RANGE(...) samurai::portion(__VA_ARGS__)
#elif DIM == 2
#define ARGS_CELL i, j
#define SUB rg[0].start, rg[1].start
#define RNG rg[0], rg[1]
#define PORTION_RANGE(...) samurai::portion<s>(__VA_ARGS__)
#else
#define ARGS_CELL i, j, k
#define SUB rg[0].start, rg[1].start, rg[2].start
#define RNG rg[0], rg[1], rg[2]
#define PORTION_RANGE(...) samurai::portion<s>(__VA_ARGS__)
#endif
    if constexpr (F::size == 1)
    {
        return q.range ? compare(PORTION_RANGE(f, lv, ARGS_CELL, dl, RNG), 0, flat) : q.alt ? compare(samurai::portion<s>(f, lv, ARGS_CELL, dl, SUB), 0, flat) : compare(samurai::portion(f, lv, ARGS_CELL, dl, SUB), 0, flat);
    }
    else
    {
        if (elem >= 0)
        {
#if DIM > 1
            if (q.range)
            {
                return compare(samurai::portion<s>(f, el, lv, ARGS_CELL, dl, RNG), el, flat);
            }
#endif
            if (!q.range)
            {
                return q.alt ? compare(samurai::portion<s>(f, el, lv, ARGS_CELL, dl, SUB), el, flat) : compare(samurai::portion(f, el, lv, ARGS_CELL, dl, SUB), el, flat);
            }
        }
        auto two = [](const auto& r, std::size_t x, std::size_t e) -> double
        {
            return F::is_soa ? r(e, x) : r(x, e);
        };
        for (std::size_t e = 0; e < F::size; ++e)
        {
            auto m = q.range ? compare(PORTION_RANGE(f, lv, ARGS_CELL, dl, RNG), e, two) : compare(samurai::portion<s>(f, lv, ARGS_CELL, dl, SUB), e, two);
            if (!m.empty())
            {
                return m;
            }
        }
        return {};
    }
}

std::vector<Query> alphabet(int lmax, int dmax)
{
    std::vector<Query> v;
    for (int l = 0; l <= lmax; ++l)
    {
        for (int dl = 1; dl <= dmax; ++dl)
        {
            for (int r = 0; r < 2; ++r)
            {
                for (int a = 0; a < 2; ++a)
                {
                    v.push_back({l, dl, r == 1, a == 1});
                }
            }
        }
    }
    return v;
}

// all histories of queries; each one runs in a process of its own, so that nothing is remembered from other histories
template <std::size_t s, class F>
void query_family(mc::Run& run, const std::string& nm, int lmax, int dmax, std::size_t len, int elem)
{
    auto qs = alphabet(lmax, dmax);
    QMesh<s> ca;
    static_cast<CA&>(ca) = boxes(lmax, -4 * static_cast<int>(s) - 1, 4 * static_cast<int>(s) + 4);
    auto& m = ca;
    auto f  = samurai::make_field<double, F::size, F::is_soa>("f", m);
    for (auto& x : cells_of<D>(static_cast<const CA&>(ca)))
    {
        auto i = static_cast<std::size_t>(ca.get_index(static_cast<std::size_t>(x.level), xyz<D>(x.p)));
        for (std::size_t e = 0; e < F::size; ++e)
        {
            fat(f, i, e) = value_at<F>(x, e);
        }
    }
    run.family(nm, "order " + std::to_string(s) + ", " + std::to_string(F::size) + " component(s), all histories of " + std::to_string(len) + " queries over " + std::to_string(lmax + 1) + " levels, level differences up to "
                       + std::to_string(dmax) + ", sub-cells and ranges of sub-cells; one process per history",
               mc::cpow(qs.size(), len),
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   std::vector<Query> h;
                   std::string t;
                   for (std::size_t k = 0; k < len; ++k)
                   {
                       h.push_back(qs[dec.take(qs.size())]);
                       t += h.back().text() + " ";
                   }
                   DESC(c) << "queries " << t;
                   int fd[2];
                   if (pipe(fd) != 0)
                   {
                       std::abort();
                   }
                   pid_t pid = fork();
                   if (pid == 0)
                   {
                       close(fd[0]);
                       std::string r;
                       for (std::size_t k = 0; k < len && r.empty(); ++k)
                       {
                           r = ask<s>(f, h[k], elem);
                           if (!r.empty())
                           {
                               r = "query " + std::to_string(k + 1) + ": " + r;
                           }
                       }
                       r += "$";
                       (void)!write(fd[1], r.data(), r.size());
                       _exit(0);
                   }
                   close(fd[1]);
                   std::string out;
                   char buf[512];
                   ssize_t n;
                   while ((n = read(fd[0], buf, sizeof buf)) > 0)
                   {
                       out.append(buf, static_cast<std::size_t>(n));
                   }
                   close(fd[0]);
                   int st = 0;
                   waitpid(pid, &st, 0);
                   CHK(c, !out.empty() && out.back() == '$', "crash", "the queries did not complete");
                   CHK(c, out == "$", "query", out.substr(0, out.size() - 1));
                   c.outcome(mc::hash_str(t));
                   c.transitions(len);
               });
}

// --- adapted meshes -----------------------------------------------------------
template <class F>
void fill_generic(F& u, const LSet<D>& cells, u64 salt)
{
    set_all<D>(u, cells,
               [&](const LCell<D>& x, std::size_t e)
               {
                   return generic<D>(x, e + salt);
               });
}

template <std::size_t s>
using MeshOf = samurai::MRMesh<samurai::MRConfig<D, 2 * s, 0, s>>;

template <std::size_t s, class F>
void recon_case(mc::Case& c, const Forest<D>& fo, const MeshOf<s>& mesh_, const LeafMap<D>& lm, int pat)
{
    auto mesh = mesh_;
    F u("u", mesh);
    auto ref = cells_of<D>(mesh[MeshOf<s>::mesh_id_t::reference]);
    if (pat)
    {
        set_all<D>(u, ref,
                   [&](const LCell<D>&, std::size_t e)
                   {
                       return 1.25 - static_cast<double>(e);
                   });
    }
    else
    {
        fill_generic(u, ref, 0);
    }
    auto val        = values<D>(u);
    auto r          = samurai::reconstruction(u);
    const int L     = fo.ML();
    std::string who = std::string(F::size == 1 ? "scalar" : F::is_soa ? "vector (soa)" : "vector") + " field";
    auto rc         = cells_of<D>(r.mesh());
    u64 expect_n    = 1;
    for (std::size_t d = 0; d < D; ++d)
    {
        expect_n *= static_cast<u64>(fo.width(d, L));
    }
    CHK(c, rc.size() == expect_n && rc.begin()->level == L && r.mesh().nb_cells() == expect_n, "cells", who + ": the reconstruction has " + std::to_string(r.mesh().nb_cells()) + " cells, the finest level of the domain " + std::to_string(expect_n));
    std::map<LCell<D>, double> memo;
    for (std::size_t e = 0; e < F::size; ++e)
    {
        for (auto& l : lm.leaf)
        {
            memo.clear();
            int k = L - l.level;
            Pos<D> a, b;
            for (std::size_t d = 0; d < D; ++d)
            {
                a[d] = l.p[d] * (1 << k);
                b[d] = (l.p[d] + 1) * (1 << k);
            }
            double mean = 0;
            for_box<D>(a, b,
                       [&](const Pos<D>& p)
                       {
                           LCell<D> x{L, p};
                           double want = refine(static_cast<int>(s), l.level, x,
                                                [&](const Pos<D>& y)
                                                {
                                                    return val.at(LCell<D>{l.level, y})[e];
                                                },
                                                memo);
                           auto i      = static_cast<std::size_t>(r.mesh().get_index(static_cast<std::size_t>(L), xyz<D>(p)));
                           double got  = fat(r, i, e);
                           CHK(c, std::abs(got - want) <= 1e-10 * (1. + std::abs(want)), "reconstruction",
                               who + " component " + std::to_string(e) + ": cell " + str<D>(x) + " of leaf " + str<D>(l) + " is " + std::to_string(got) + ", repeated prediction gives " + std::to_string(want));
                           CHK(c, k != 0 || got == val.at(l)[e], "copy", who + ": the leaf " + str<D>(l) + " at the finest level is not copied");
                           mean += got / mc::cpow(static_cast<u64>(1 << k), D);
                       });
            CHK(c, std::abs(mean - val.at(l)[e]) <= 1e-10 * (1. + std::abs(mean)), "mean", who + ": the mean over leaf " + str<D>(l) + " is " + std::to_string(mean) + " instead of " + std::to_string(val.at(l)[e]));
            c.transitions(1);
        }
    }
    for (auto& [x, v] : val)
    {
        for (std::size_t e = 0; e < F::size; ++e)
        {
            CHK(c, fat(u, cidx<D>(mesh, x), e) == v[e], "input", who + ": the field was modified");
        }
    }
}

template <std::size_t s>
void recon_family(mc::Run& run, const std::string& nm, const Forest<D>& fo)
{
    std::array<bool, D> none{};
    auto refm = ref_mesh<MeshOf<s>, D>(fo, none, 2., aligned<D>(fo) ? -0.5 : 0.25);
    std::vector<u64> ids;
    for (u64 i = 0; i < fo.count(); ++i)
    {
        if (graded<D>(fo, LeafMap<D>(fo.leaves(i)), none))
        {
            ids.push_back(i);
        }
    }
    run.family(nm, "order " + std::to_string(s) + ", all " + std::to_string(ids.size()) + " graded forests, generic and constant values, scalar and vector fields in both layouts", ids.size() * 2,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   int pat = static_cast<int>(dec.take(2));
                   auto lv = fo.leaves(ids[dec.take(ids.size())]);
                   DESC(c) << "leaves " << str<D>(lv);
                   auto mesh = make_mesh<MeshOf<s>, D>(refm, lv);
                   LeafMap<D> lm(lv);
                   using M = MeshOf<s>;
                   recon_case<s, samurai::Field<M, double, 1>>(c, fo, mesh, lm, pat);
                   recon_case<s, samurai::Field<M, double, 2>>(c, fo, mesh, lm, pat);
                   recon_case<s, samurai::Field<M, double, 2, true>>(c, fo, mesh, lm, pat);
                   c.outcome(mc::hash_str(str<D>(lv)));
               });
}

template <std::size_t s, class F>
void transfer_case(mc::Case& c, const MeshOf<s>& ms, const MeshOf<s>& md, const LeafMap<D>& ls, const LeafMap<D>& ld)
{
    auto m1 = ms, m2 = md;
    F a("a", m1), b("b", m2);
    auto r1 = cells_of<D>(m1[MeshOf<s>::mesh_id_t::reference]);
    fill_generic(a, r1, 0);
    fill_generic(b, cells_of<D>(m2[MeshOf<s>::mesh_id_t::reference]), 9);
    auto val        = values<D>(a);
    std::string who = std::string(F::size == 1 ? "scalar" : F::is_soa ? "vector (soa)" : "vector") + " field";
    samurai::transfer(a, b);
    for (std::size_t e = 0; e < F::size; ++e)
    {
        std::map<int, std::map<LCell<D>, double>> memo;
        for (auto& l : ld.leaf)
        {
            double want = 0;
            auto k      = ls.leaf.count(l) ? l : ls.cover(l);
            if (ls.leaf.count(l))
            {
                want = val.at(l)[e];
            }
            else if (k.level >= 0)
            {
                std::map<LCell<D>, double> mm;
                want = refine(static_cast<int>(s), k.level, l,
                              [&](const Pos<D>& y)
                              {
                                  return val.at(LCell<D>{k.level, y})[e];
                              },
                              mm);
            }
            else
            {
                for (auto& x : ls.leaf)
                {
                    if (x.level > l.level && shr<D>(x.p, x.level - l.level) == l.p)
                    {
                        want += val.at(x)[e] / static_cast<double>(mc::cpow(static_cast<u64>(1 << (x.level - l.level)), D));
                    }
                }
            }
            double got = fat(b, cidx<D>(m2, l), e);
            CHK(c, std::abs(got - want) <= 1e-10 * (1. + std::abs(want)), "transfer", who + " component " + std::to_string(e) + ": leaf " + str<D>(l) + " gets " + std::to_string(got) + " instead of " + std::to_string(want));
            c.transitions(1);
        }
    }
    for (auto& [x, v] : val)
    {
        for (std::size_t e = 0; e < F::size; ++e)
        {
            CHK(c, fat(a, cidx<D>(m1, x), e) == v[e], "input", who + ": the source field was modified");
        }
    }
}

template <std::size_t s>
void transfer_family(mc::Run& run, const std::string& nm, const Forest<D>& fo)
{
    std::array<bool, D> none{};
    using M   = MeshOf<s>;
    auto refm = ref_mesh<M, D>(fo, none, 2., aligned<D>(fo) ? -0.5 : 0.25);
    std::vector<u64> ids;
    for (u64 i = 0; i < fo.count(); ++i)
    {
        if (graded<D>(fo, LeafMap<D>(fo.leaves(i)), none))
        {
            ids.push_back(i);
        }
    }
    run.family(nm, "order " + std::to_string(s) + ", all pairs of the " + std::to_string(ids.size()) + " graded forests, scalar and vector fields in both layouts", ids.size() * ids.size(),
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   auto l1 = fo.leaves(ids[dec.take(ids.size())]), l2 = fo.leaves(ids[dec.take(ids.size())]);
                   DESC(c) << "from leaves " << str<D>(l1) << "to leaves " << str<D>(l2);
                   auto a = make_mesh<M, D>(refm, l1), b = make_mesh<M, D>(refm, l2);
                   LeafMap<D> la(l1), lb(l2);
                   transfer_case<s, samurai::Field<M, double, 1>>(c, a, b, la, lb);
                   transfer_case<s, samurai::Field<M, double, 2>>(c, a, b, la, lb);
                   transfer_case<s, samurai::Field<M, double, 2, true>>(c, a, b, la, lb);
                   c.outcome(mc::hash_str(str<D>(l1) + str<D>(l2)));
               });
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();
    using F1     = samurai::Field<samurai::UniformMesh<samurai::UniformConfig<D>>, double, 1>;
    using F2     = samurai::Field<samurai::UniformMesh<samurai::UniformConfig<D>>, double, 2>;
    using F2s    = samurai::Field<samurai::UniformMesh<samurai::UniformConfig<D>>, double, 2, true>;
#if DIM == 1
    query_family<1, F1>(run, "query_o1", 2, 3, 2, -1);
    query_family<2, F1>(run, "query_o2", 1, 2, 2, -1);
    query_family<1, F2>(run, "query_vec", 1, 2, 2, -1);
    query_family<1, F2>(run, "query_elem", 1, 2, 2, 1);
    query_family<1, F2s>(run, "query_soa", 1, 2, 2, 0);
    map_family<1>(run, 5, 3);
    map_family<2>(run, 4, 3);
    map_family<3>(run, 3, 3);
    map_family<4>(run, 2, 3);
    recon_family<1>(run, "recon_o1_r3d2", {{0}, {3}, 0, 2});
    recon_family<1>(run, "recon_o1_r2d3", {{0}, {2}, 0, 3});
    recon_family<1>(run, "recon_o1_r4d2L1", {{-1}, {4}, 1, 2});
    recon_family<2>(run, "recon_o2_r3d2", {{0}, {3}, 0, 2});
    transfer_family<1>(run, "transfer_o1_r2d2", {{0}, {2}, 0, 2});
    transfer_family<1>(run, "transfer_o1_r3d2", {{-1}, {3}, 0, 2});
    transfer_family<2>(run, "transfer_o2_r2d3", {{0}, {2}, 0, 3});
    if (T)
    {
        query_family<1, F1>(run, "query_o1_3", 1, 2, 3, -1);
        query_family<1, F2>(run, "query_elem_3", 1, 2, 3, 1);
        recon_family<1>(run, "recon_o1_r3d3", {{0}, {3}, 0, 3});
        recon_family<2>(run, "recon_o2_r2d4", {{0}, {2}, 0, 4});
        transfer_family<1>(run, "transfer_o1_r2d3", {{0}, {2}, 0, 3});
    }
#elif DIM == 2
    query_family<1, F1>(run, "query_o1", 1, 3, 2, -1);
    query_family<1, F2>(run, "query_vec", 1, 2, 2, -1);
    query_family<1, F2>(run, "query_elem", 1, 2, 2, 1);
    map_family<1>(run, 3, 2);
    map_family<2>(run, 2, 2);
    recon_family<1>(run, "recon_o1_r22d1", {{0, 0}, {2, 2}, 0, 1});
    recon_family<1>(run, "recon_o1_r11d2", {{0, 0}, {1, 1}, 0, 2});
    recon_family<1>(run, "recon_o1_r21d2", {{-1, 0}, {2, 1}, 0, 2});
    recon_family<2>(run, "recon_o2_r11d2", {{0, 0}, {1, 1}, 0, 2});
    transfer_family<1>(run, "transfer_o1_r22d1", {{0, 0}, {2, 2}, 0, 1});
    transfer_family<1>(run, "transfer_o1_r11d2", {{0, 0}, {1, 1}, 0, 2});
    if (T)
    {
        query_family<1, F1>(run, "query_o1_3", 1, 2, 3, -1);
        query_family<2, F1>(run, "query_o2", 1, 2, 2, -1);
        map_family<3>(run, 2, 2);
        transfer_family<1>(run, "transfer_o1_r21d2", {{0, 0}, {2, 1}, 0, 2});
        recon_family<1>(run, "recon_o1_r21d2L1", {{1, 0}, {2, 1}, 1, 2});
    }
#else
    query_family<1, F1>(run, "query_o1", 0, 2, 2, -1);
    query_family<1, F2>(run, "query_elem", 0, 2, 2, 1);
    map_family<1>(run, 2, 1);
    recon_family<1>(run, "recon_o1_r211d1", {{0, 0, 0}, {2, 1, 1}, 0, 1});
    recon_family<1>(run, "recon_o1_r121d1", {{0, 0, 0}, {1, 2, 1}, 1, 1});
    recon_family<1>(run, "recon_o1_r221d1", {{0, 0, 0}, {2, 2, 1}, 0, 1});
    transfer_family<1>(run, "transfer_o1_r112d1", {{0, 0, 0}, {1, 1, 2}, 0, 1});
    transfer_family<1>(run, "transfer_o1_r221d1", {{-1, 0, 0}, {2, 2, 1}, 0, 1});
    recon_family<2>(run, "recon_o2_r111d1", {{0, 0, 0}, {1, 1, 1}, 0, 1});
    if (T)
    {
        query_family<1, F1>(run, "query_o1_3", 1, 2, 2, -1);
        map_family<2>(run, 1, 1);
        recon_family<1>(run, "recon_o1_r111d2", {{0, 0, 0}, {1, 1, 1}, 0, 2});
        transfer_family<1>(run, "transfer_o1_r211d1", {{0, 0, 0}, {2, 1, 1}, 1, 1});
    }
#endif
    return run.finish();
}
