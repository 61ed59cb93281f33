// M04: adaptation and flag-driven updates carry the data to the new mesh.
#include <algorithm>
#include <functional>
#include <map>

#include "sam_field.hpp"
#include <samurai/amr/mesh.hpp>
#include <samurai/bc.hpp>
#include <samurai/mr/adapt.hpp>
#ifndef DIM
#define DIM 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;

template <class F>
void check_values(mc::Case& c, F& f, const Values<D>& old, const LSet<D>& oldleaf, const std::vector<LCell<D>>& now, const std::string& who)
{
    constexpr int order = static_cast<int>(F::mesh_t::config::prediction_order);
    for (auto& x : now)
    {
        auto i = cidx<D>(f.mesh(), x);
        for (std::size_t e = 0; e < F::size; ++e)
        {
            double val = 0, alt = 0;
            if (!transferred<D>(old, oldleaf, order, x, e, val, alt))
            {
                c.fail("model", "leaf " + str<D>(x) + " more than one level away (harness)");
                return;
            }
            double got = fat(f, i, e);
            CHK(c, mc::close(got, val, 1e-10) || mc::close(got, alt, 1e-10),
                oldleaf.count(x) ? "kept-value" : (x.level > 0 && oldleaf.count(parent<D>(x)) ? "split-value" : "merged-value"),
                who + ": leaf " + str<D>(x) + " component " + std::to_string(e) + " holds " + std::to_string(got) + " expected " + std::to_string(val));
        }
    }
    CHK(c, f.array().size() == f.mesh().nb_cells() * F::size, "field-size", who + ": not one value per cell of the new mesh");
}

template <class F>
u64 value_hash(F& f, const std::vector<LCell<D>>& now)
{
    u64 h = 3;
    for (auto& x : now)
    {
        h = mc::mix(h, static_cast<u64>(std::llround(fat(f, cidx<D>(f.mesh(), x), 0) * 4096)));
    }
    return h;
}

// target reachable from source: every leaf kept, split once or merged once with all its siblings
bool one_step(const LSet<D>& a, const LSet<D>& b)
{
    for (auto& x : b)
    {
        if (a.count(x) || (x.level > 0 && a.count(parent<D>(x))))
        {
            continue;
        }
        for (auto& k : children<D>(x))
        {
            if (!a.count(k))
            {
                return false;
            }
        }
    }
    return true;
}

template <class Mesh, bool MR>
void flag_family(mc::Run& run, const std::string& nm, const Forest<D>& fo, u64 nfill_)
{
    constexpr int order = static_cast<int>(Mesh::config::prediction_order);
    const Mesh ref      = [&]
    {
        if constexpr (MR)
        {
            return ref_mesh<Mesh, D>(fo, per_mask<D>(0), 1., 0.);
        }
        else
        {
            return ref_mesh_cl<Mesh, D>(fo, 1., 0.);
        }
    }();
    // graded forests
    std::vector<std::vector<LCell<D>>> forests;
    std::vector<LSet<D>> sets;
    for (u64 f = 0; f < fo.count(); ++f)
    {
        auto lv = fo.leaves(f);
        if (graded<D>(fo, LeafMap<D>(lv), per_mask<D>(0)))
        {
            forests.push_back(lv);
            sets.emplace_back(lv.begin(), lv.end());
        }
    }
    const u64 n     = forests.size();
    const u64 nfill = std::min<u64>(nfill_, 2 + 2 * order * D); // generic, constant, x_d^k
    const u64 nenc  = 3;                                    // encodings of the flags
    run.family(nm, "all pairs (graded forest, graded forest one step away), " + std::to_string(nfill) + " fillings (generic, constant, monomials), 3 flag encodings; scalar, AOS, SOA fields and tuples",
               n * n * nfill * nenc,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   u64 a = dec.take(n), b = dec.take(n);
                   u64 fill = dec.take(nfill), enc = dec.take(nenc);
                   if (!one_step(sets[a], sets[b]) || (enc > 0 && fill > 0))
                   {
                       return false;
                   }
                   Mesh mesh = make_mesh<Mesh, D>(ref, forests[a]);
                   DESC(c) << "from " << str<D>(forests[a]) << "to " << str<D>(forests[b]) << "filling " << fill << " encoding " << enc;
                   auto u   = samurai::make_field<double, 1>("u", mesh);
                   auto v   = samurai::make_field<double, 2>("v", mesh);
                   auto w   = samurai::make_field<double, 2, true>("w", mesh);
                   auto tag = samurai::make_field<int, 1>("tag", mesh);
                   tag.fill(0);
                   auto all = cells_of<D>(mesh[Mesh::mesh_id_t::reference]);
                   auto val = [&](const LCell<D>& x, u64 salt) -> double
                   {
                       if (fill == 0)
                       {
                           return generic<D>(x, salt);
                       }
                       if (fill == 1)
                       {
                           return 3. + static_cast<double>(salt);
                       }
                       Pos<D> e{};
                       e[(fill - 2) / (2 * order)] = 1 + static_cast<int>((fill - 2) % (2 * order));
                       return (1. + static_cast<double>(salt)) * mono_avg<D>(x.level, x.p, e) + static_cast<double>(salt);
                   };
                   set_all<D>(u, all, [&](const LCell<D>& x, std::size_t) { return val(x, 0); });
                   set_all<D>(v, all, [&](const LCell<D>& x, std::size_t e) { return val(x, 1 + e); });
                   set_all<D>(w, all, [&](const LCell<D>& x, std::size_t e) { return val(x, 3 + e); });
                   const int K = static_cast<int>(samurai::CellFlag::keep), R = static_cast<int>(samurai::CellFlag::refine),
                             C = static_cast<int>(samurai::CellFlag::coarsen);
                   for (auto& x : forests[a])
                   {
                       int t;
                       if (sets[b].count(x))
                       {
                           t = enc == 0 ? K : enc == 1 ? K | C : K;
                           if (enc == 2 && x.level == fo.ML())
                           {
                               t = R; // beyond the maximum level: stays
                           }
                           if (enc == 2 && x.level == fo.L0)
                           {
                               t = C; // below the minimum level: stays
                           }
                       }
                       else if (x.level > 0 && sets[b].count(parent<D>(x)))
                       {
                           t = C;
                       }
                       else
                       {
                           t = enc == 0 ? R : enc == 1 ? R | K : R | C;
                       }
                       tag[cidx<D>(mesh, x)] = t;
                   }
                   auto ou = values<D>(u), ov = values<D>(v), ow = values<D>(w);
                   bool same;
                   if constexpr (MR)
                   {
                       same = samurai::update_field_mr(tag, u, v, w);
                   }
                   else
                   {
                       same = samurai::update_field(tag, u, v, w);
                   }
                   CHK(c, same == (a == b), "unchanged-result", std::string("returned ") + (same ? "unchanged" : "changed"));
                   auto now = leaf_vec<D>(mesh);
                   if (!CHK(c, now == forests[b], "leaves", "resulting leaves " + str<D>(now)))
                   {
                       return true;
                   }
                   check_values(c, u, ou, sets[a], now, "scalar field");
                   check_values(c, v, ov, sets[a], now, "AOS field");
                   check_values(c, w, ow, sets[a], now, "SOA field");
                   if (fill > 0)
                   {
                       for (auto& x : now)
                       {
                           auto i = cidx<D>(mesh, x);
                           CHK(c, mc::close(u[i], val(x, 0), 1e-10), fill == 1 ? "constant" : "polynomial", "leaf " + str<D>(x) + " holds " + std::to_string(u[i]));
                           CHK(c, mc::close(fat(v, i, 1), val(x, 2), 1e-10), fill == 1 ? "constant" : "polynomial", "AOS leaf " + str<D>(x));
                           CHK(c, mc::close(fat(w, i, 1), val(x, 4), 1e-10), fill == 1 ? "constant" : "polynomial", "SOA leaf " + str<D>(x));
                       }
                   }
                   c.transitions(1);
                   c.outcome(value_hash(u, now));
                   return true;
               });
}

template <class F>
std::map<Pos<D>, std::vector<double>> root_sums(const Forest<D>& fo, F& f)
{
    std::map<Pos<D>, std::vector<double>> r;
    for (auto& x : leaf_vec<D>(f.mesh()))
    {
        auto& s = r[shr<D>(x.p, x.level - fo.L0)];
        s.resize(F::size);
        for (std::size_t e = 0; e < F::size; ++e)
        {
            s[e] += fat(f, cidx<D>(f.mesh(), x), e) * std::pow(0.5, static_cast<int>(D) * (x.level - fo.L0));
        }
    }
    return r;
}

bool near(const std::map<Pos<D>, std::vector<double>>& a, const std::map<Pos<D>, std::vector<double>>& b)
{
    if (a.size() != b.size())
    {
        return false;
    }
    for (auto& [k, v] : a)
    {
        auto it = b.find(k);
        if (it == b.end())
        {
            return false;
        }
        for (std::size_t e = 0; e < v.size(); ++e)
        {
            if (!mc::close(v[e], it->second[e], 1e-10))
            {
                return false;
            }
        }
    }
    return true;
}

// real adaptation; registered field(s) u (and SOA uu), other fields v, w
template <class Mesh>
void adapt_family(mc::Run& run, const std::string& nm, const Forest<D>& fo, bool perio, u64 npat, const std::vector<double>& eps, unsigned full)
{
    const u64 np = perio && aligned<D>(fo) ? 1u << D : 1u;
    std::vector<Mesh> refs;
    for (u64 m = 0; m < np; ++m)
    {
        refs.push_back(ref_mesh<Mesh, D>(fo, per_mask<D>(m), 1., 0.));
    }
    std::vector<std::pair<u64, u64>> start;
    u64 tot = 0;
    for (u64 f = 0; f < fo.count() * np; ++f)
    {
        auto lv = fo.leaves(f / np);
        if (graded<D>(fo, LeafMap<D>(lv), per_mask<D>(f % np)))
        {
            start.push_back({tot, f});
            tot += (lv.size() <= full ? 1ull << lv.size() : npat + lv.size()) * eps.size() * 2;
        }
    }
    run.family(nm,
               "all graded forests, " + std::to_string(np) + " periodicity masks, all 0/1 patterns up to " + std::to_string(full)
                   + " leaves, otherwise spikes and generic patterns; scalar or SOA-with-scalar tuple registered; AOS and SOA fields passed along",
               tot,
               [&](u64 id, mc::Case& c)
               {
                   std::size_t k = 0;
                   while (k + 1 < start.size() && start[k + 1].first <= id)
                   {
                       ++k;
                   }
                   u64 m    = start[k].second % np;
                   auto lv  = fo.leaves(start[k].second / np);
                   LSet<D> leafset(lv.begin(), lv.end());
                   mc::Dec dec(id - start[k].first);
                   bool tuple = dec.flag();
                   double ep  = eps[dec.take(eps.size())];
                   u64 pt     = dec.v;
                   std::vector<double> val(lv.size());
                   for (std::size_t i = 0; i < lv.size(); ++i)
                   {
                       if (lv.size() <= full)
                       {
                           val[i] = pt >> i & 1;
                       }
                       else if (pt < lv.size())
                       {
                           val[i] = i == pt;
                       }
                       else
                       {
                           val[i] = std::abs(generic<D>(lv[i], pt)) > 6 ? 1. : 0.01 * generic<D>(lv[i], pt + 1);
                       }
                   }
                   Mesh mesh = make_mesh<Mesh, D>(refs[m], lv);
                   auto u    = samurai::make_field<double, 1>("u", mesh);
                   auto uu   = samurai::make_field<double, 2, true>("uu", mesh);
                   auto v    = samurai::make_field<double, 2>("v", mesh);
                   auto w    = samurai::make_field<double, 3, true>("w", mesh);
                   auto one  = samurai::make_field<double, 1>("one", mesh);
                   u.fill(0);
                   uu.fill(0);
                   v.fill(0);
                   w.fill(0);
                   one.fill(0);
                   samurai::make_bc<samurai::Neumann<1>>(u, 0.);
                   samurai::make_bc<samurai::Neumann<1>>(uu, 0., 0.);
                   samurai::make_bc<samurai::Neumann<1>>(v, 0., 0.);
                   samurai::make_bc<samurai::Neumann<1>>(w, 0., 0., 0.);
                   samurai::make_bc<samurai::Neumann<1>>(one, 0.);
                   DESC(c) << "leaves " << str<D>(lv) << "periodic mask " << m << " eps " << ep << " values " << [&]
                   {
                       std::ostringstream o;
                       for (auto x : val)
                       {
                           o << x << " ";
                       }
                       return o.str();
                   }() << (tuple ? "tuple registered" : "scalar registered");
                   for (std::size_t i = 0; i < lv.size(); ++i)
                   {
                       u[cidx<D>(mesh, lv[i])] = val[i];
                   }
                   set_all<D>(uu, leafset, [&](const LCell<D>& x, std::size_t e) { return 0.001 * generic<D>(x, 20 + e); });
                   set_all<D>(v, leafset, [&](const LCell<D>& x, std::size_t e) { return generic<D>(x, 1 + e); });
                   set_all<D>(w, leafset, [&](const LCell<D>& x, std::size_t e) { return generic<D>(x, 10 + e); });
                   set_all<D>(one, leafset, [&](const LCell<D>&, std::size_t) { return 5.; });
                   auto su = root_sums(fo, u), suu = root_sums(fo, uu), sv = root_sums(fo, v), sw = root_sums(fo, w);
                   // ghost-updated copies, as the adaptation must see them
                   samurai::update_ghost_mr(u, uu, v, w);
                   auto ou = values<D>(u), ouu = values<D>(uu), ov = values<D>(v), ow = values<D>(w);
                   // stale ghosts
                   for (auto& x : cells_of<D>(mesh[Mesh::mesh_id_t::reference]))
                   {
                       if (!leafset.count(x))
                       {
                           auto i = cidx<D>(mesh, x);
                           fat(u, i, 0) = fat(uu, i, 0) = fat(uu, i, 1) = fat(v, i, 0) = fat(v, i, 1) = fat(w, i, 0) = fat(w, i, 1) = 1e3;
                           fat(one, i, 0) = 0.;
                       }
                   }
                   if (tuple)
                   {
                       auto ad = samurai::make_MRAdapt(u, uu);
                       ad(ep, 1., v, w, one);
                   }
                   else
                   {
                       auto ad = samurai::make_MRAdapt(u);
                       ad(ep, 1., uu, v, w, one);
                   }
                   auto now = leaf_vec<D>(mesh);
                   if (fo.depth == 1)
                   {
                       check_values(c, u, ou, leafset, now, "registered field");
                       check_values(c, uu, ouu, leafset, now, tuple ? "registered SOA field" : "other SOA field");
                       check_values(c, v, ov, leafset, now, "other AOS field");
                       check_values(c, w, ow, leafset, now, "other SOA field");
                   }
                   CHK(c, near(su, root_sums(fo, u)), "integral", "integral of the registered field over a coarsest cell changed");
                   CHK(c, near(suu, root_sums(fo, uu)), "integral", "integral of the SOA field over a coarsest cell changed");
                   CHK(c, near(sv, root_sums(fo, v)), "integral", "integral of the other AOS field over a coarsest cell changed");
                   CHK(c, near(sw, root_sums(fo, w)), "integral", "integral of the other SOA field over a coarsest cell changed");
                   for (auto& x : now)
                   {
                       CHK(c, mc::close(one[cidx<D>(mesh, x)], 5., 1e-10), "constant", "constant field changed in " + str<D>(x));
                   }
                   c.transitions(1);
                   c.outcome(mc::mix(value_hash(u, now), value_hash(w, now)));
               });
}

template <std::size_t W, std::size_t G, std::size_t P>
using MRm = samurai::MRMesh<samurai::MRConfig<D, W, G, P>>;
using AMm = samurai::amr::Mesh<samurai::amr::Config<D>>;

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const bool T = run.thorough();
    std::vector<double> eps{1e-7, 0.05};
    if constexpr (D == 1)
    {
        flag_family<MRm<1, 1, 1>, true>(run, "flags_mr_r2d2", {ext3<D>(-1), ext3<D>(2), 1, 2}, 99);
        flag_family<MRm<1, 1, 1>, true>(run, "flags_mr_r2d3", {ext3<D>(0), ext3<D>(2), 1, 3}, T ? 99 : 1);
        flag_family<MRm<2, 1, 2>, true>(run, "flags_mr_p2", {ext3<D>(0), ext3<D>(3), 2, 2}, 99);
        flag_family<AMm, false>(run, "flags_amr", {ext3<D>(0), ext3<D>(3), 1, 2}, 99);
        adapt_family<MRm<1, 1, 1>>(run, "adapt_d1", {ext3<D>(0), ext3<D>(4), 2, 1}, true, 2, eps, 8);
        adapt_family<MRm<1, 1, 1>>(run, "adapt_d2", {ext3<D>(0), ext3<D>(2), 1, 2}, true, 2, eps, 8);
        adapt_family<MRm<1, 1, 1>>(run, "adapt_d3", {ext3<D>(0), ext3<D>(2), 1, 3}, true, 4, eps, T ? 10 : 5);
        adapt_family<MRm<2, 1, 2>>(run, "adapt_p2", {ext3<D>(0), ext3<D>(4), 2, 1}, true, 2, eps, 6);
    }
    if constexpr (D == 2)
    {
        flag_family<MRm<1, 1, 1>, true>(run, "flags_mr_r4d1", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 1}, 99);
        flag_family<MRm<1, 1, 1>, true>(run, "flags_mr_r1d2", {ext3<D>(-1, 0), ext3<D>(1, 1), 1, 2}, 99);
        flag_family<MRm<1, 1, 1>, true>(run, "flags_mr_r2d2", {ext3<D>(-1, 0), ext3<D>(2, 1), 1, 2}, T ? 99 : 1);
        flag_family<AMm, false>(run, "flags_amr", {ext3<D>(0, 0), ext3<D>(2, 1), 1, 2}, T ? 99 : 2);
        adapt_family<MRm<1, 1, 1>>(run, "adapt_d1", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 1}, true, 4, eps, T ? 10 : 7);
        adapt_family<MRm<1, 1, 1>>(run, "adapt_d2", {ext3<D>(0, -1), ext3<D>(2, 1), 1, 2}, false, T ? 8 : 2, eps, 5);
        if (T)
        {
            adapt_family<MRm<1, 1, 1>>(run, "adapt_d2p", {ext3<D>(0, 0), ext3<D>(2, 2), 1, 2}, true, 1, {0.05}, 0);
            flag_family<MRm<2, 1, 2>, true>(run, "flags_mr_p2", {ext3<D>(0, 0), ext3<D>(2, 1), 1, 2}, 99);
        }
    }
    if constexpr (D == 3)
    {
        flag_family<MRm<1, 1, 1>, true>(run, "flags_mr_r2d1", {ext3<D>(-1, 0, 0), ext3<D>(2, 1, 1), 1, 1}, 99);
        flag_family<MRm<1, 1, 1>, true>(run, "flags_mr_r1d2", {ext3<D>(0, 0, -1), ext3<D>(1, 1, 1), 1, 2}, T ? 2 : 0);
        flag_family<AMm, false>(run, "flags_amr", {ext3<D>(0, 0, 0), ext3<D>(2, 1, 1), 1, 1}, 99);
        adapt_family<MRm<1, 1, 1>>(run, "adapt_d1", {ext3<D>(0, 0, 0), ext3<D>(2, 1, 1), 1, 1}, false, T ? 20 : 2, eps, 2);
        if (T)
        {
            adapt_family<MRm<1, 1, 1>>(run, "adapt_d1p", {ext3<D>(0, 0, 0), ext3<D>(2, 2, 2), 1, 1}, true, 2, {0.05}, 0);
        }
    }
    return run.finish();
}
