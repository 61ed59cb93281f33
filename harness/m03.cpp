// M03: adaptation keeps a graded partition of the domain within level bounds
// State graph: states = graded leaf configurations (all of them are start states), transitions = one call of the real
// multiresolution adaptation for a field pattern, thresholds and boundary handling out of a finite alphabet.
#include <algorithm>
#include <functional>
#include <map>

#include "sam_mesh.hpp"
#include <samurai/bc.hpp>
#include <samurai/field.hpp>
#include <samurai/mr/adapt.hpp>
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;

bool partition(mc::Case& c, const Forest<D>& fo, const LSet<D>& got, const std::array<bool, D>& per, const std::string& when)
{
    double vol = 0;
    bool ok    = true;
    for (auto& x : got)
    {
        vol += std::pow(0.5, static_cast<int>(D) * (x.level - fo.L0));
        ok &= CHK(c, x.level >= fo.L0 && x.level <= fo.ML(), "level-bounds", when + ": leaf " + str<D>(x) + " outside the level bounds");
        ok &= CHK(c, fo.inside(x.level, x.p), "outside-domain", when + ": leaf " + str<D>(x) + " outside the domain");
    }
    LeafMap<D> lm(std::vector<LCell<D>>(got.begin(), got.end()));
    for (auto& x : got)
    {
        ok &= CHK(c, !lm.finer_below(x), "overlap", when + ": leaf " + str<D>(x) + " overlaps finer leaves");
    }
    ok &= CHK(c, mc::close(vol, static_cast<double>(volume<D>(fo.ext))), "partition", when + ": the leaves do not tile the domain: " + str<D>(got));
    ok &= CHK(c, graded<D>(fo, lm, per), "graded", when + ": neighbouring leaves differ by more than one level: " + str<D>(got));
    return ok;
}

// finite alphabet of field patterns on a given set of leaves
struct Patterns
{
    unsigned full; // all 0/1 patterns up to this number of leaves
    int pairs;
    u64 limit = 0; // only the first patterns

    u64 count(std::size_t n) const
    {
        if (n <= full)
        {
            return 1ull << n;
        }
        u64 all = 3 + n + D * 5 + (pairs ? n * (n - 1) / 2 : 0);
        return limit ? std::min(limit, all) : all;
    }

    void fill(const Forest<D>& fo, const std::vector<LCell<D>>& lv, u64 k, std::vector<double>& v, std::string& what) const
    {
        const std::size_t n = lv.size();
        v.assign(n, 0.);
        auto center = [&](const LCell<D>& c, std::size_t d)
        {
            return (c.p[d] + 0.5) / (1 << (c.level - fo.L0)) - fo.lo[d];
        };
        if (n <= full)
        {
            what = "bits " + std::to_string(k);
            for (std::size_t i = 0; i < n; ++i)
            {
                v[i] = (k >> i) & 1;
            }
            return;
        }
        if (k == 0)
        {
            what = "constant 1";
            std::fill(v.begin(), v.end(), 1.);
            return;
        }
        if (k == 1)
        {
            what = "alternating";
            for (std::size_t i = 0; i < n; ++i)
            {
                int s = 0;
                for (auto x : lv[i].p)
                {
                    s += x;
                }
                v[i] = s & 1;
            }
            return;
        }
        if (k == 2)
        {
            what = "smooth hump";
            for (std::size_t i = 0; i < n; ++i)
            {
                double r = 0;
                for (std::size_t d = 0; d < D; ++d)
                {
                    double z = center(lv[i], d) / fo.ext[d] - 0.4;
                    r += z * z;
                }
                v[i] = std::exp(-20 * r);
            }
            return;
        }
        k -= 3;
        if (k < n)
        {
            what = "spike at " + str<D>(lv[k]);
            v[k] = 1;
            return;
        }
        k -= n;
        if (k < D * 5)
        {
            std::size_t d = k / 5;
            double cut    = (static_cast<double>(k % 5) + 1) / 6. * fo.ext[d];
            what          = "step in direction " + std::to_string(d) + " at " + std::to_string(cut);
            for (std::size_t i = 0; i < n; ++i)
            {
                v[i] = center(lv[i], d) < cut;
            }
            return;
        }
        k -= D * 5;
        std::size_t i = 0;
        while (k >= n - 1 - i)
        {
            k -= n - 1 - i;
            ++i;
        }
        v[i]         = 1;
        v[i + 1 + k] = 1;
        what         = "spikes at " + str<D>(lv[i]) + " and " + str<D>(lv[i + 1 + k]);
    }
};

struct Alpha
{
    std::vector<double> eps{1e-7, 0.02, 0.6};
    std::vector<double> reg{1., 3.};

    u64 count() const
    {
        return eps.size() * reg.size();
    }
};

template <class Mesh, class Field>
void put(Field& u, const Mesh& mesh, const std::vector<LCell<D>>& lv, const std::vector<double>& v)
{
    for (std::size_t i = 0; i < lv.size(); ++i)
    {
        u[mesh.get_index(static_cast<std::size_t>(lv[i].level), xyz<D>(lv[i].p))] = v[i];
    }
}

template <class Mesh>
std::vector<LCell<D>> leaf_vec(const Mesh& mesh)
{
    auto s = cells_of<D>(mesh[Mesh::mesh_id_t::cells]);
    return {s.begin(), s.end()};
}

// one adaptation from every graded mesh for every pattern / threshold; then a second one with the same object
template <class Mesh, bool Enlarge>
void adapt_family(mc::Run& run, const std::string& nm, const Forest<D>& fo, const Patterns& pat, const Alpha& al, bool perio, u64 second)
{
    const u64 np = perio && aligned<D>(fo) ? 1u << D : 1u;
    std::vector<Mesh> refs;
    for (u64 m = 0; m < np; ++m)
    {
        refs.push_back(ref_mesh<Mesh, D>(fo, per_mask<D>(m), 2., -0.5));
    }
    std::vector<u64> start, fid;
    u64 tot = 0;
    for (u64 f = 0; f < fo.count() * np; ++f)
    {
        auto lv = fo.leaves(f / np);
        if (!graded<D>(fo, LeafMap<D>(lv), per_mask<D>(f % np)))
        {
            continue;
        }
        start.push_back(tot);
        fid.push_back(f);
        tot += pat.count(lv.size()) * al.count() * second;
    }
    run.family(nm + "_L" + std::to_string(fo.L0) + "_r" + std::to_string(volume<D>(fo.ext)) + "d" + std::to_string(fo.depth),
               "all graded forests of " + std::to_string(volume<D>(fo.ext)) + " roots of depth " + std::to_string(fo.depth) + ", " + std::to_string(np)
                   + " periodicity masks, all 0/1 patterns up to " + std::to_string(pat.full)
                   + " leaves (spikes, pairs, steps, hump otherwise), all thresholds, second adaptation with the same object",
               tot,
               [&](u64 id, mc::Case& c)
               {
                   auto it  = std::upper_bound(start.begin(), start.end(), id) - 1;
                   u64 f    = fid[static_cast<std::size_t>(it - start.begin())];
                   auto per = per_mask<D>(f % np);
                   auto lv  = fo.leaves(f / np);
                   mc::Dec dec(id - *it);
                   u64 e2    = dec.take(second);
                   double ep = al.eps[dec.take(al.eps.size())];
                   double rg = al.reg[dec.take(al.reg.size())];
                   std::vector<double> v;
                   std::string what;
                   pat.fill(fo, lv, dec.v, v, what);
                   DESC(c) << "leaves " << str<D>(lv) << "periodic mask " << f % np << " values: " << what << " eps " << ep << " regularity " << rg;
                   Mesh mesh = make_mesh<Mesh, D>(refs[f % np], lv);
                   auto u    = samurai::make_field<double, 1>("u", mesh);
                   u.fill(0);
                   samurai::make_bc<samurai::Neumann<1>>(u, 0.);
                   put(u, mesh, lv, v);
                   auto adapt    = samurai::make_MRAdapt<Enlarge>(u);
                   const bool cst = std::all_of(v.begin(), v.end(), [&](double x) { return x == v[0]; });
                   adapt(ep, rg);
                   auto l1 = leaf_vec(mesh);
                   LSet<D> s1(l1.begin(), l1.end());
                   if (!partition(c, fo, s1, per, "after one adaptation"))
                   {
                       return;
                   }
                   CHK(c, mesh.min_level() == static_cast<std::size_t>(fo.L0) && mesh.max_level() == static_cast<std::size_t>(fo.ML()), "bounds-changed", "level bounds of the mesh changed");
                   CHK(c, u.array().size() == mesh.nb_cells(), "field-size", "the field no longer has one value per cell of the mesh");
                   bool whole = true; // the domain is made of whole cells one level below the minimum level
                   for (std::size_t d = 0; d < D; ++d)
                   {
                       whole &= fo.L0 == 0 || (fo.lo[d] % 2 == 0 && fo.ext[d] % 2 == 0);
                   }
                   if (cst && whole)
                   {
                       CHK(c, s1.size() == volume<D>(fo.ext) && s1.begin()->level == fo.L0, "constant-coarsens", "a constant field does not coarsen the mesh to the minimum level: " + str<D>(s1));
                   }
                   u64 h = hash<D>(s1);
                   c.transitions(1);
                   if (e2 > 0)
                   {
                       // another field on the adapted mesh, same adaptation object
                       std::vector<double> v2;
                       u64 k2 = (e2 - 1) * 7 + 1;
                       Patterns p2{0, 0};
                       p2.fill(fo, l1, k2 % p2.count(l1.size()), v2, what);
                       DESC(c) << " then values: " << what;
                       put(u, mesh, l1, v2);
                       adapt(e2 % 2 ? 0.02 : 1e-7, 1.);
                       auto l2 = leaf_vec(mesh);
                       LSet<D> s2(l2.begin(), l2.end());
                       partition(c, fo, s2, per, "after two adaptations");
                       h = mc::mix(h, hash<D>(s2));
                       c.transitions(1);
                   }
                   c.outcome(mc::mix(h, f % np));
               });
}

// finest-level details above the threshold are never coarsened away (start: finest uniform mesh, fully periodic,
// exact details computed by the model: value minus the order-1 prediction from the parents' means)
template <class Mesh, bool Enlarge>
void detail_family(mc::Run& run, const std::string& nm, const Forest<D>& fo, unsigned nbits, const Alpha& al, int nfield)
{
    std::array<bool, D> per;
    per.fill(true);
    Mesh ref = ref_mesh<Mesh, D>(fo, per, 1., 0.);
    std::vector<LCell<D>> lv;
    {
        Pos<D> lo{}, hi;
        for (std::size_t d = 0; d < D; ++d)
        {
            hi[d] = fo.width(d, fo.ML());
        }
        for_box<D>(lo, hi, [&](const Pos<D>& p) { lv.push_back({fo.ML(), p}); });
        std::sort(lv.begin(), lv.end());
    }
    const u64 npat = nbits ? 1ull << nbits : lv.size() * (lv.size() + 1) / 2;
    run.family(nm, "finest uniform periodic mesh, " + std::to_string(lv.size()) + " cells, " + (nbits ? "all 0/1 patterns of " + std::to_string(nbits) + " cells" : "all single and pairs of spikes")
                       + ", all thresholds",
               npat * al.count(),
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   double ep = al.eps[dec.take(al.eps.size())];
                   double rg = al.reg[dec.take(al.reg.size())];
                   std::map<LCell<D>, double> val;
                   std::vector<double> v(lv.size(), 0.);
                   if (nbits)
                   {
                       for (unsigned i = 0; i < nbits; ++i)
                       {
                           v[i] = dec.v >> i & 1;
                       }
                   }
                   else
                   {
                       u64 k         = dec.v;
                       std::size_t i = 0;
                       while (k >= lv.size() - i)
                       {
                           k -= lv.size() - i;
                           ++i;
                       }
                       v[i] = 1;
                       v[i + k] += 1;
                   }
                   for (std::size_t i = 0; i < lv.size(); ++i)
                   {
                       val[lv[i]] = v[i];
                   }
                   DESC(c) << "uniform level " << fo.ML() << " periodic, values " << [&]
                   {
                       std::string s;
                       for (double x : v)
                       {
                           s += std::to_string(static_cast<int>(x));
                       }
                       return s;
                   }() << " eps " << ep
                           << " regularity " << rg;
                   // model: means of parents, prediction of order 1 (tensor product), details
                   const int L = fo.ML();
                   std::map<Pos<D>, double> mean;
                   for (auto& [x, w] : val)
                   {
                       mean[shr<D>(x.p, 1)] += w / (1 << D);
                   }
                   auto at = [&](Pos<D> p)
                   {
                       for (std::size_t d = 0; d < D; ++d)
                       {
                           int w = fo.width(d, L - 1);
                           p[d]  = ((p[d] % w) + w) % w;
                       }
                       return mean.at(p);
                   };
                   LSet<D> must;
                   for (auto& [x, w] : val)
                   {
                       Pos<D> par  = shr<D>(x.p, 1);
                       double pred = 0;
                       for_nb<D>(1,
                                 [&](const Pos<D>& o)
                                 {
                                     double co = 1;
                                     for (std::size_t d = 0; d < D; ++d)
                                     {
                                         co *= o[d] == 0 ? 1. : ((x.p[d] & 1) ? 0.125 : -0.125) * o[d];
                                     }
                                     pred += co * at(add<D>(par, o));
                                 });
                       if (std::abs(w - pred) > ep * (1 + 1e-9) + 1e-12)
                       {
                           must.insert(x);
                       }
                   }
                   Mesh mesh = make_mesh<Mesh, D>(ref, lv);
                   auto run1 = [&](auto& u, auto&& ad)
                   {
                       ad(ep, rg);
                       auto s1 = cells_of<D>(mesh[Mesh::mesh_id_t::cells]);
                       partition(c, fo, s1, per, "after adaptation");
                       for (auto& x : must)
                       {
                           CHK(c, s1.count(x), "detail-lost", "cell " + str<D>(x) + " has a detail above the threshold and was coarsened away");
                       }
                       c.outcome(mc::mix(hash<D>(s1), static_cast<u64>(u.array().size())));
                       c.transitions(1);
                   };
                   if (nfield == 1)
                   {
                       auto u = samurai::make_field<double, 1>("u", mesh);
                       u.fill(0);
                       put(u, mesh, lv, v);
                       run1(u, samurai::make_MRAdapt<Enlarge>(u));
                   }
                   else if (nfield == 2) // second component carries the details
                   {
                       auto u = samurai::make_field<double, 2>("u", mesh);
                       u.fill(1.);
                       for (std::size_t i = 0; i < lv.size(); ++i)
                       {
                           u[mesh.get_index(static_cast<std::size_t>(lv[i].level), xyz<D>(lv[i].p))][1] = v[i];
                       }
                       run1(u, samurai::make_MRAdapt<Enlarge>(u));
                   }
                   else // two fields, the second carries the details
                   {
                       auto w = samurai::make_field<double, 1>("w", mesh);
                       w.fill(1.);
                       auto u = samurai::make_field<double, 1>("u", mesh);
                       u.fill(0);
                       put(u, mesh, lv, v);
                       run1(u, samurai::make_MRAdapt<Enlarge>(w, u));
                   }
               });
}

// graded closure of splitting around one finest cell (the mesh a feature at that cell produces), periodic images included
std::vector<LCell<D>> focus_leaves(const Forest<D>& fo, const Pos<D>& q, const std::array<bool, D>& per)
{
    auto base = fo.leaves(0);
    LSet<D> s(base.begin(), base.end());
    auto split = [&](const LCell<D>& c)
    {
        s.erase(c);
        for (int k = 0; k < (1 << D); ++k)
        {
            Pos<D> r;
            for (std::size_t d = 0; d < D; ++d)
            {
                r[d] = 2 * c.p[d] + (k >> d & 1);
            }
            s.insert({c.level + 1, r});
        }
    };
    auto cover = [&](LCell<D> n)
    {
        for (std::size_t d = 0; d < D; ++d)
        {
            if (per[d])
            {
                int w = fo.width(d, n.level), st = fo.start(d, n.level);
                n.p[d] = st + (((n.p[d] - st) % w) + w) % w;
            }
        }
        for (int l = n.level; l >= fo.L0; --l)
        {
            LCell<D> a{l, shr<D>(n.p, n.level - l)};
            if (s.count(a))
            {
                return a;
            }
        }
        return LCell<D>{-1, {}};
    };
    std::function<void(const LCell<D>&)> need = [&](const LCell<D>& n) // make n a leaf (or split), keeping the grading
    {
        while (true)
        {
            auto a = cover(n);
            if (a.level < 0 || a.level == n.level)
            {
                return;
            }
            // before splitting a, its neighbours must be at its level at least
            for_nb<D>(1,
                      [&](const Pos<D>& o)
                      {
                          if (o != Pos<D>{})
                          {
                              need({a.level, add<D>(a.p, o)});
                          }
                      });
            split(a);
        }
    };
    need({fo.ML(), q});
    return {s.begin(), s.end()};
}

template <class Mesh>
void focus_family(mc::Run& run, const std::string& nm, const Forest<D>& fo, const std::vector<double>& eps, bool perio, bool all_spikes)
{
    const u64 np = perio ? 1u << D : 1u;
    std::vector<Mesh> refs;
    for (u64 m = 0; m < np; ++m)
    {
        refs.push_back(ref_mesh<Mesh, D>(fo, per_mask<D>(m), 1., 0.));
    }
    Pos<D> w;
    for (std::size_t d = 0; d < D; ++d)
    {
        w[d] = fo.width(d, fo.ML());
    }
    const u64 nspike = all_spikes ? 4 + (1u << D) : 3;
    run.family(nm, "graded closures of one finest cell, every position, " + std::to_string(np) + " periodicity masks; spike at that cell / its opposite / everywhere but there; second adaptation moves the spike",
               volume<D>(w) * np * eps.size() * nspike,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   u64 m     = dec.take(np);
                   auto per  = per_mask<D>(m);
                   double ep = eps[dec.take(eps.size())];
                   u64 sp    = dec.take(nspike);
                   Pos<D> q;
                   for (std::size_t d = 0; d < D; ++d)
                   {
                       q[d] = static_cast<int>(dec.take(static_cast<u64>(w[d])));
                   }
                   auto lv = focus_leaves(fo, q, per);
                   LCell<D> target{fo.ML(), q};
                   std::vector<double> v(lv.size(), 0.);
                   std::size_t at = 0;
                   for (std::size_t i = 0; i < lv.size(); ++i)
                   {
                       if (lv[i] == target)
                       {
                           at = i;
                       }
                   }
                   if (sp == 1)
                   {
                       std::fill(v.begin(), v.end(), 1.);
                       v[at] = 0;
                   }
                   else if (sp == 2)
                   {
                       v[(at + lv.size() / 2) % lv.size()] = 1;
                   }
                   else if (sp >= 3)
                   {
                       v[(at + 1 + (sp - 3) * 3) % lv.size()] = 1;
                   }
                   else
                   {
                       v[at] = 1;
                   }
                   DESC(c) << "closure of " << str<D>(target) << " periodic mask " << m << " spike variant " << sp << " eps " << ep;
                   if (!graded<D>(fo, LeafMap<D>(lv), per))
                   {
                       c.fail("model", "closure not graded (harness)");
                       return;
                   }
                   Mesh mesh = make_mesh<Mesh, D>(refs[m], lv);
                   auto u    = samurai::make_field<double, 1>("u", mesh);
                   u.fill(0);
                   samurai::make_bc<samurai::Neumann<1>>(u, 0.);
                   put(u, mesh, lv, v);
                   auto adapt = samurai::make_MRAdapt(u);
                   adapt(ep, 1.);
                   auto l1 = leaf_vec(mesh);
                   LSet<D> s1(l1.begin(), l1.end());
                   if (!partition(c, fo, s1, per, "after one adaptation"))
                   {
                       return;
                   }
                   std::vector<double> v2(l1.size(), 0.);
                   v2[l1.size() / 3] = 1;
                   put(u, mesh, l1, v2);
                   adapt(ep, 1.);
                   auto l2 = leaf_vec(mesh);
                   LSet<D> s2(l2.begin(), l2.end());
                   partition(c, fo, s2, per, "after two adaptations");
                   c.transitions(2);
                   c.outcome(mc::mix(mc::mix(hash<D>(s1), hash<D>(s2)), m));
               });
}

// minimum level == maximum level: nothing happens
template <class Mesh>
void fixed_family(mc::Run& run)
{
    run.family("fixed_level", "uniform meshes with min level == max level, all spikes", 4 * 16,
               [&](u64 id, mc::Case& c)
               {
                   int L = 1 + static_cast<int>(id % 4) / 2;
                   Forest<D> fo{Pos<D>{}, ext3<D>(1 << L, 1 << L, 1 << L), L, 0};
                   auto per  = per_mask<D>(id % 2 ? ~0ull : 0);
                   Mesh mesh = ref_mesh<Mesh, D>(fo, per);
                   auto u    = samurai::make_field<double, 1>("u", mesh);
                   samurai::make_bc<samurai::Neumann<1>>(u, 0.);
                   u.fill(0);
                   auto lv = leaf_vec(mesh);
                   for (std::size_t i = 0; i < lv.size(); ++i)
                   {
                       u[mesh.get_index(static_cast<std::size_t>(lv[i].level), xyz<D>(lv[i].p))] = static_cast<double>(i * 7 % 5) + (i == (id / 4) % lv.size());
                   }
                   DESC(c) << "level " << L << " spike " << id / 4;
                   auto ad = samurai::make_MRAdapt(u);
                   ad(1e-3, 1.);
                   CHK(c, leaf_vec(mesh) == lv, "fixed-level", "a mesh with a single level was changed");
                   for (std::size_t i = 0; i < lv.size(); ++i)
                   {
                       CHK(c, u[mesh.get_index(static_cast<std::size_t>(lv[i].level), xyz<D>(lv[i].p))] == static_cast<double>(i * 7 % 5) + (i == (id / 4) % lv.size()), "fixed-level", "values changed");
                   }
                   c.outcome(id);
               });
}

template <std::size_t W, std::size_t G, std::size_t P>
using MR = samurai::MRMesh<samurai::MRConfig<D, W, G, P>>;

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();
    Alpha al;
    fixed_family<MR<1, 1, 1>>(run);
    if constexpr (D == 1)
    {
        adapt_family<MR<1, 1, 1>, false>(run, "w1", {ext3<D>(0), ext3<D>(2), 1, 3}, {T ? 10u : 7u, 1}, al, true, T ? 6 : 2);
        adapt_family<MR<2, 1, 1>, false>(run, "w2", {ext3<D>(0), ext3<D>(2), 1, 3}, {T ? 9u : 6u, T}, al, true, 2);
        adapt_family<MR<1, 1, 1>, true>(run, "enlarge", {ext3<D>(0), ext3<D>(2), 1, 2}, {8, 1}, al, true, 2);
        adapt_family<MR<1, 1, 1>, false>(run, "cl", {ext3<D>(-3), ext3<D>(3), 2, 2}, {8, 1}, al, true, 2);
        focus_family<MR<1, 1, 1>>(run, "focus5", {ext3<D>(0), ext3<D>(2), 1, 5}, {1e-7, 0.02, 0.3}, true, true);
        detail_family<MR<1, 1, 1>, false>(run, "detail_8", {ext3<D>(0), ext3<D>(2), 1, 2}, 8, al, 1);
        detail_family<MR<1, 1, 1>, false>(run, "detail_16", {ext3<D>(0), ext3<D>(2), 1, 3}, T ? 16 : 11, al, 1);
        detail_family<MR<1, 1, 1>, false>(run, "detail_vec", {ext3<D>(0), ext3<D>(2), 1, 2}, 8, al, 2);
        detail_family<MR<1, 1, 1>, false>(run, "detail_tuple", {ext3<D>(0), ext3<D>(2), 1, 2}, 8, al, 3);
    }
    if constexpr (D == 2)
    {
        adapt_family<MR<1, 1, 1>, false>(run, "w1", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 1}, {T ? 13u : 7u, 1}, al, true, 2);
        adapt_family<MR<1, 1, 1>, false>(run, "w1", {ext3<D>(-1, 0), ext3<D>(2, 1), 1, 2}, {7, T}, al, true, T ? 3 : 1);
        adapt_family<MR<1, 1, 1>, true>(run, "enlarge", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 1}, {4, 0}, al, true, 2);
        focus_family<MR<1, 1, 1>>(run, "focus3", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 3}, T ? std::vector<double>{1e-7, 0.02, 0.3} : std::vector<double>{0.02}, true, T);
        detail_family<MR<1, 1, 1>, false>(run, "detail", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 1}, 0, al, 1);
        detail_family<MR<1, 1, 1>, false>(run, "detail_vec", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 1}, 0, al, 2);
        detail_family<MR<1, 1, 1>, false>(run, "detail_tuple", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 1}, 0, al, 3);
        if (T)
        {
            adapt_family<MR<1, 1, 1>, false>(run, "w1", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 2}, {4, 0}, Alpha{{0.05}, {1.}}, false, 1);
            adapt_family<MR<2, 1, 1>, false>(run, "w2", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 1}, {8, 1}, al, true, 2);
            detail_family<MR<1, 1, 1>, false>(run, "detail_d2", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 2}, 0, al, 1);
        }
    }
    if constexpr (D == 3)
    {
        adapt_family<MR<1, 1, 1>, false>(run, "w1", {ext3<D>(0, 0, 0), ext3<D>(2, 1, 1), 1, 1}, {T ? 9u : 4u, T}, al, false, 2);
        detail_family<MR<1, 1, 1>, false>(run, "detail", {ext3<D>(0, 0, 0), ext3<D>(2, 2, 2), 1, 1}, 0, Alpha{{1e-7, 0.02}, {1.}}, 1);
        adapt_family<MR<1, 1, 1>, false>(run, "w1", {ext3<D>(0, 0, 0), ext3<D>(2, 2, 2), 1, 1}, {4, 0, T ? 0u : 6u}, Alpha{{1e-7}, {1.}}, T, 1);
        if (T)
        {
            adapt_family<MR<1, 1, 1>, false>(run, "w1b", {ext3<D>(0, 0, 0), ext3<D>(2, 2, 2), 1, 1}, {4, 0, 40}, Alpha{{0.02, 0.6}, {1.}}, true, 1);
        }
    }
    return run.finish();
}
