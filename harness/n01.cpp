// N01: projection and prediction, decided by their action on all basis vectors.
#include "sam_mesh.hpp"
#include "sam_num.hpp"

#include <samurai/field.hpp>
#include <samurai/numeric/prediction.hpp>
#include <samurai/numeric/projection.hpp>

#ifndef DIM
#define DIM 1
#endif
#ifndef OMIN
#define OMIN 0
#endif
#ifndef OMAX
#define OMAX 5
#endif
constexpr std::size_t D = DIM;
using namespace sam;
using Mesh = samurai::MRMesh<samurai::MRConfig<D, 1, 1, 1>>;

constexpr int LC = 2;                       // coarse level
constexpr int W  = D == 3 ? 2 : 3;          // coarse cells per direction of the target window
constexpr int M  = OMAX + 1;                // margin
constexpr int X0 = -2;                      // start of the window (negative coordinates included)

// overlapping coarse and fine boxes: only storage is needed here
Mesh& the_mesh()
{
    static Mesh mesh = []
    {
        typename Mesh::cl_type cl;
        Pos<D> lo, hi;
        lo.fill(X0 - M);
        hi.fill(X0 + W + M);
        for_box<D>(lo, hi,
                   [&](const Pos<D>& p)
                   {
                       cl[LC][yz<D>(p)].add_point(p[0]);
                   });
        lo.fill(2 * X0);
        hi.fill(2 * (X0 + W));
        for_box<D>(lo, hi,
                   [&](const Pos<D>& p)
                   {
                       cl[LC + 1][yz<D>(p)].add_point(p[0]);
                   });
        return Mesh(cl, LC, LC + 1);
    }();
    return mesh;
}

std::size_t idx(int level, const Pos<D>& p)
{
    return static_cast<std::size_t>(the_mesh().get_index(static_cast<std::size_t>(level), xyz<D>(p)));
}

template <class F>
double& at(F& f, std::size_t i, std::size_t comp)
{
    if constexpr (F::size == 1)
    {
        return f[i];
    }
    else if constexpr (F::is_soa)
    {
        return f.array()(comp, i);
    }
    else
    {
        return f.array()(i, comp);
    }
}

// a dense, generic input
double dense(const Pos<D>& p, std::size_t comp)
{
    u64 h = 7 + comp * 31;
    for (auto x : p)
    {
        h = mc::mix(h, static_cast<u64>(x + 1000));
    }
    return static_cast<double>(h % 17) - 8.;
}

std::vector<Pos<D>> coarse_box()
{
    std::vector<Pos<D>> v;
    Pos<D> lo, hi;
    lo.fill(X0 - M);
    hi.fill(X0 + W + M);
    for_box<D>(lo, hi,
               [&](const Pos<D>& p)
               {
                   v.push_back(p);
               });
    return v;
}

template <class I, class Op>
void call(Op&& op, int level, const I& i, const Pos<D>& row)
{
    if constexpr (D == 1)
    {
        op(static_cast<std::size_t>(level), i);
    }
    else if constexpr (D == 2)
    {
        op(static_cast<std::size_t>(level), i, row[1]);
    }
    else
    {
        op(static_cast<std::size_t>(level), i, row[1], row[2]);
    }
}

template <class I, class Op>
void call_arr(Op&& op, int level, const I& i, const Pos<D>& row)
{
    op(static_cast<std::size_t>(level), i, yz<D>(row));
}

template <std::size_t order, bool on_coarse, std::size_t size, bool soa>
void pred_family(mc::Run& run, const std::string& lay)
{
    using interval_t = typename Mesh::interval_t;
    const int n      = on_coarse ? W : 2 * W;
    const u64 nint   = static_cast<u64>(n * (n + 1) / 2);
    u64 nrow         = 1;
    for (std::size_t d = 1; d < D; ++d)
    {
        nrow *= static_cast<u64>(n);
    }
    const std::string nm = std::string("pred") + std::to_string(order) + (on_coarse ? "_from_coarse_" : "_from_fine_") + lay;
    run.family(nm,
               "all runs and rows of the target window; every coarse cell of the neighbourhood as basis input, plus dense input; same field, "
               "distinct fields, array or scalar indices, several fields at once",
               nint * nrow * 4,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   const u64 mode = dec.take(4);
                   int k          = static_cast<int>(dec.take(nint));
                   int a = 0;
                   while (k >= n - a)
                   {
                       k -= n - a;
                       ++a;
                   }
                   const int b = a + k + 1;
                   Pos<D> row{};
                   const int base = on_coarse ? X0 : 2 * X0;
                   for (std::size_t d = 1; d < D; ++d)
                   {
                       row[d] = base + static_cast<int>(dec.take(static_cast<u64>(n)));
                   }
                   const int level = on_coarse ? LC : LC + 1;
                   interval_t i{base + a, base + b};
                   DESC(c) << "level " << level << " run [" << i.start << "," << i.end << ") row " << str<D>(row) << " mode " << mode;
                   auto& mesh = the_mesh();
                   auto u     = samurai::make_field<double, size, soa>("u", mesh);
                   auto v     = samurai::make_field<double, size, soa>("v", mesh);
                   u.fill(0);
                   v.fill(0);
                   // target children
                   std::vector<Pos<D>> target;
                   for (int x = i.start; x < i.end; ++x)
                   {
                       if (on_coarse)
                       {
                           for (int q = 0; q < (1 << D); ++q)
                           {
                               Pos<D> t;
                               for (std::size_t d = 0; d < D; ++d)
                               {
                                   t[d] = 2 * (d == 0 ? x : row[d]) + (q >> d & 1);
                               }
                               target.push_back(t);
                           }
                       }
                       else
                       {
                           Pos<D> t = row;
                           t[0]     = x;
                           target.push_back(t);
                       }
                   }
                   auto apply = [&]
                   {
                       switch (mode)
                       {
                           case 0:
                               call(samurai::prediction<order, on_coarse>(u), level, i, row);
                               break;
                           case 1:
                               call(samurai::prediction<order, on_coarse>(v, u), level, i, row);
                               break;
                           case 2:
                               call_arr(samurai::prediction<order, on_coarse>(v, u), level, i, row);
                               break;
                           case 3:
                               call(samurai::variadic_prediction<order, on_coarse>(v, u), level, i, row);
                               break;
                       }
                   };
                   auto& out = (mode == 0 || mode == 3) ? u : v;
                   const auto box = coarse_box();
                   // basis inputs
                   for (auto& q : box)
                   {
                       bool near = false;
                       for (auto& t : target)
                       {
                           bool in = true;
                           for (std::size_t d = 0; d < D; ++d)
                           {
                               in = in && std::abs((t[d] >> 1) - q[d]) <= static_cast<int>(order) + 1;
                           }
                           near = near || in;
                       }
                       if (!near)
                       {
                           continue;
                       }
                       for (std::size_t comp = 0; comp < size; ++comp)
                       {
                           at(u, idx(LC, q), comp) = 1;
                           for (auto& t : target)
                           {
                               for (std::size_t e = 0; e < size; ++e)
                               {
                                   at(out, idx(LC + 1, t), e) = 77;
                               }
                           }
                           apply();
                           for (auto& t : target)
                           {
                               Pos<D> o;
                               for (std::size_t d = 0; d < D; ++d)
                               {
                                   o[d] = q[d] - (t[d] >> 1);
                               }
                               for (std::size_t e = 0; e < size; ++e)
                               {
                                   double want = e == comp ? pred_weight<D>(static_cast<int>(order), t, o) : 0.;
                                   double got  = at(out, idx(LC + 1, t), e);
                                   if (!mc::close(got, want, 1e-12) && e == comp
                                       && mc::close(got, pred_weight_known<D>(static_cast<int>(order), t, o), 1e-12))
                                   {
                                       c.finding("mixed-weight", "input 1 in coarse cell " + str<D>(q) + ": fine cell " + str<D>(t) + " predicted "
                                                                     + std::to_string(got) + " instead of " + std::to_string(want));
                                       continue;
                                   }
                                   CHK(c, mc::close(got, want, 1e-12), "weight",
                                       "input 1 in coarse cell " + str<D>(q) + " component " + std::to_string(comp) + ": fine cell " + str<D>(t)
                                           + " component " + std::to_string(e) + " predicted " + std::to_string(got) + " expected " + std::to_string(want));
                               }
                           }
                           at(u, idx(LC, q), comp) = 0;
                           c.transitions(1);
                       }
                   }
                   // dense input: superposition, and nothing but the targets is written
                   for (auto& q : box)
                   {
                       for (std::size_t e = 0; e < size; ++e)
                       {
                           at(u, idx(LC, q), e) = dense(q, e);
                       }
                   }
                   auto before = u;
                   out.fill(0);
                   if (mode == 0 || mode == 3)
                   {
                       out = before;
                   }
                   auto keep = out;
                   apply();
                   std::set<std::size_t> tgt;
                   u64 h = mc::mix(order, mode);
                   for (auto& t : target)
                   {
                       tgt.insert(idx(LC + 1, t));
                       for (std::size_t e = 0; e < size; ++e)
                       {
                           double want = predict<D>(static_cast<int>(order), t,
                                                    [&](const Pos<D>& q)
                                                    {
                                                        return dense(q, e);
                                                    });
                           double got  = at(out, idx(LC + 1, t), e);
                           if (!mc::close(got, want, 1e-11))
                           {
                               double kn = predict<D>(static_cast<int>(order), t, [&](const Pos<D>& q) { return dense(q, e); }, true);
                               if (mc::close(got, kn, 1e-11))
                               {
                                   c.finding("mixed-weight", "dense input: fine cell " + str<D>(t) + " got " + std::to_string(got) + " expected " + std::to_string(want));
                                   continue;
                               }
                           }
                           CHK(c, mc::close(got, want, 1e-11), "dense", "fine cell " + str<D>(t) + " got " + std::to_string(got) + " expected " + std::to_string(want));
                           h = mc::mix(h, static_cast<u64>(static_cast<long>(std::llround(got * 1e6))));
                       }
                   }
                   for (std::size_t k2 = 0; k2 < mesh.nb_cells(); ++k2)
                   {
                       if (!tgt.count(k2))
                       {
                           for (std::size_t e = 0; e < size; ++e)
                           {
                               CHK(c, at(out, k2, e) == at(keep, k2, e), "spill", "a cell outside the target was written");
                           }
                       }
                   }
                   c.outcome(h);
               });
}

template <std::size_t size, bool soa>
void proj_family(mc::Run& run, const std::string& lay)
{
    using interval_t = typename Mesh::interval_t;
    const int n      = W;
    const u64 nint   = static_cast<u64>(n * (n + 1) / 2);
    u64 nrow         = 1;
    for (std::size_t d = 1; d < D; ++d)
    {
        nrow *= static_cast<u64>(n);
    }
    run.family("proj_" + lay, "all runs and rows; every fine cell as basis input, dense input; same field, distinct fields, array indices, several fields",
               nint * nrow * 4,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   const u64 mode = dec.take(4);
                   int k          = static_cast<int>(dec.take(nint));
                   int a          = 0;
                   while (k >= n - a)
                   {
                       k -= n - a;
                       ++a;
                   }
                   const int b = a + k + 1;
                   Pos<D> row{};
                   for (std::size_t d = 1; d < D; ++d)
                   {
                       row[d] = X0 + static_cast<int>(dec.take(static_cast<u64>(n)));
                   }
                   interval_t i{X0 + a, X0 + b};
                   DESC(c) << "projection onto run [" << i.start << "," << i.end << ") row " << str<D>(row) << " mode " << mode;
                   auto& mesh = the_mesh();
                   auto u     = samurai::make_field<double, size, soa>("u", mesh);
                   auto v     = samurai::make_field<double, size, soa>("v", mesh);
                   u.fill(0);
                   v.fill(0);
                   auto apply = [&]
                   {
                       switch (mode)
                       {
                           case 0:
                               call(samurai::projection(u), LC, i, row);
                               break;
                           case 1:
                               call(samurai::projection(v, u), LC, i, row);
                               break;
                           case 2:
                               call_arr(samurai::projection(v, u), LC, i, row);
                               break;
                           case 3:
                               call(samurai::variadic_projection(v, u), LC, i, row);
                               break;
                       }
                   };
                   auto& out = (mode == 0 || mode == 3) ? u : v;
                   std::vector<Pos<D>> fine;
                   Pos<D> lo, hi;
                   lo.fill(2 * X0);
                   hi.fill(2 * (X0 + W));
                   for_box<D>(lo, hi,
                              [&](const Pos<D>& p)
                              {
                                  fine.push_back(p);
                              });
                   u64 h = mode;
                   for (std::size_t pass = 0; pass <= fine.size() * size; ++pass)
                   {
                       const bool last = pass == fine.size() * size; // dense
                       u.fill(0);
                       out.fill(0);
                       auto in = [&](const Pos<D>& p, std::size_t e) -> double
                       {
                           if (last)
                           {
                               return dense(p, e);
                           }
                           return p == fine[pass / size] && e == pass % size ? 1. : 0.;
                       };
                       for (auto& p : fine)
                       {
                           for (std::size_t e = 0; e < size; ++e)
                           {
                               at(u, idx(LC + 1, p), e) = in(p, e);
                           }
                       }
                       auto keep = out;
                       apply();
                       std::set<std::size_t> tgt;
                       for (int x = i.start; x < i.end; ++x)
                       {
                           Pos<D> t = row;
                           t[0]     = x;
                           tgt.insert(idx(LC, t));
                           for (std::size_t e = 0; e < size; ++e)
                           {
                               double want = 0;
                               for (int q = 0; q < (1 << D); ++q)
                               {
                                   Pos<D> ch;
                                   for (std::size_t d = 0; d < D; ++d)
                                   {
                                       ch[d] = 2 * t[d] + (q >> d & 1);
                                   }
                                   want += in(ch, e) / (1 << D);
                               }
                               double got = at(out, idx(LC, t), e);
                               CHK(c, mc::close(got, want, 1e-12), "mean", "coarse cell " + str<D>(t) + " component " + std::to_string(e) + " got " + std::to_string(got) + " expected " + std::to_string(want));
                               h = mc::mix(h, static_cast<u64>(static_cast<long>(std::llround(got * 1e6))));
                           }
                       }
                       for (std::size_t k2 = 0; k2 < mesh.nb_cells(); ++k2)
                       {
                           if (!tgt.count(k2))
                           {
                               for (std::size_t e = 0; e < size; ++e)
                               {
                                   CHK(c, at(out, k2, e) == at(keep, k2, e), "spill", "a cell outside the target was written");
                               }
                           }
                       }
                       c.transitions(1);
                   }
                   c.outcome(h);
               });
}

// the public coefficient tables
template <std::size_t s>
void coeff_family(mc::Run& run)
{
    run.family("coeffs" + std::to_string(s), "coefficient tables, both signs", 2,
               [&](u64 id, mc::Case& c)
               {
                   auto ic = samurai::interp_coeffs<2 * s + 1>(id ? 1. : -1.);
                   auto w  = pred_weights(static_cast<int>(s), id ? 0 : 1);
                   DESC(c) << "interp_coeffs<" << 2 * s + 1 << ">(" << (id ? 1 : -1) << ")";
                   for (std::size_t j = 0; j < w.size(); ++j)
                   {
                       CHK(c, mc::close(ic[j], w[j], 1e-12), "coefficients", "entry " + std::to_string(j));
                       c.outcome(static_cast<u64>(static_cast<long>(std::llround(w[j] * 1e9))));
                   }
                   if constexpr (s > 0)
                   {
                       auto pc = samurai::prediction_coeffs<s>();
                       for (std::size_t j = 0; j < s; ++j)
                       {
                           CHK(c, mc::close(pc[j], pred_weights(static_cast<int>(s), 0)[s + 1 + j], 1e-12), "coefficients", "prediction_coeffs entry " + std::to_string(j));
                       }
                   }
               });
}

template <std::size_t order>
void orders(mc::Run& run)
{
    coeff_family<order>(run);
    pred_family<order, true, 1, false>(run, "scalar");
    pred_family<order, false, 1, false>(run, "scalar");
    pred_family<order, true, 2, false>(run, "aos2");
    pred_family<order, false, 2, false>(run, "aos2");
    pred_family<order, true, 2, true>(run, "soa2");
    pred_family<order, false, 2, true>(run, "soa2");
    if constexpr (D < 3)
    {
        pred_family<order, true, 3, true>(run, "soa3");
        pred_family<order, false, 3, true>(run, "soa3");
    }
    if constexpr (order < OMAX)
    {
        orders<order + 1>(run);
    }
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    if (OMIN == 0)
    {
        proj_family<1, false>(run, "scalar");
        proj_family<2, false>(run, "aos2");
        proj_family<2, true>(run, "soa2");
        proj_family<3, true>(run, "soa3");
        proj_family<3, false>(run, "aos3");
    }
    orders<OMIN>(run);
    return run.finish();
}
