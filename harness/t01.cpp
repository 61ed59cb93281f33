// T01: the solution of an implicit system satisfies the discrete equations it states: applying the scheme to the
// solution, with ghosts given by the boundary conditions, the projection and the prediction, returns the right-hand side.
#include "sam_fv.hpp"
#include "sam_num.hpp"
#include <samurai/algorithm/update.hpp>
#include <samurai/petsc.hpp>
#include <samurai/schemes/fv.hpp>
#ifndef DIM
#define DIM 1
#endif
#ifndef PORDER
#define PORDER 1
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;
using S    = samurai::SchemeType;
using Mesh = samurai::MRMesh<samurai::MRConfig<D, 2, 0, PORDER>>;
constexpr double SC = 2., ORG = -0.5;

// direct solvers that pivot: the sparse one for assembled matrices, dense ones for nested matrices and single cells
void direct(const char* kind)
{
    PetscOptionsClearValue(nullptr, "-pc_factor_mat_solver_type");
    PetscOptionsSetValue(nullptr, "-pc_type", std::string(kind) == "svd" ? "svd" : "lu");
    if (std::string(kind) == "sparse")
    {
        PetscOptionsSetValue(nullptr, "-pc_factor_mat_solver_type", "umfpack");
    }
}

// right-hand sides: unit vectors (where the space is small) and generic ones
constexpr bool UNIT = D == 1;

double bc_value(std::size_t d, int s, const std::array<double, D>& x, std::size_t e)
{
    double v = 0.5 + static_cast<double>(d) - 0.75 * s;
    for (std::size_t k = 0; k < D; ++k)
    {
        v += (0.25 + 0.5 * static_cast<double>(k)) * x[k];
    }
    return e == 0 ? v : 1. - 2. * v;
}

// bit 2d+s of code: Neumann on that side
template <class F>
void attach(F& u, u64 code)
{
    for (std::size_t d = 0; d < D; ++d)
    {
        for (int s = 0; s < 2; ++s)
        {
            samurai::DirectionVector<D> dir;
            dir.fill(0);
            dir[d]  = s ? 1 : -1;
            auto fn = [d, s](const auto&, const auto&, const auto& x)
            {
                std::array<double, D> p;
                std::copy(x.begin(), x.end(), p.begin());
                if constexpr (F::size == 1)
                {
                    return bc_value(d, s, p, 0);
                }
                else
                {
                    xt::xtensor_fixed<double, xt::xshape<F::size>> r;
                    for (std::size_t e = 0; e < F::size; ++e)
                    {
                        r(e) = bc_value(d, s, p, e);
                    }
                    return r;
                }
            };
            if (code >> (2 * d + static_cast<std::size_t>(s)) & 1)
            {
                samurai::make_bc<samurai::Neumann<1>>(u, fn)->on(dir);
            }
            else
            {
                samurai::make_bc<samurai::Dirichlet<1>>(u, fn)->on(dir);
            }
        }
    }
}

// the value of every cell, from the leaves
struct Val
{
    const Dom<D>& dom;
    const Result<D>& u;
    u64 bc;
    bool zero; // known finding T01-outer: outer ghosts that touch no leaf are taken as zero
    mutable std::map<std::pair<LCell<D>, std::size_t>, double> memo;

    double operator()(const LCell<D>& c, std::size_t e) const
    {
        auto key = std::make_pair(c, e);
        auto it  = memo.find(key);
        if (it != memo.end())
        {
            return it->second;
        }
        return memo[key] = compute(c, e);
    }

    double compute(const LCell<D>& c, std::size_t e) const
    {
        auto& lm = *dom.lm;
        auto l   = u.find(c);
        if (l != u.end())
        {
            return l->second[e];
        }
        if (!dom.inside(c))
        {
            for (std::size_t d = 0; d < D; ++d)
            {
                for (int s = 0; s < 2; ++s)
                {
                    LCell<D> in = c;
                    in.p[d] -= s ? 1 : -1;
                    if (!dom.inside(in))
                    {
                        continue;
                    }
                    if (zero && !lm.leaf.count(in))
                    {
                        return 0.;
                    }
                    double h = dom.h(c.level);
                    std::array<double, D> x;
                    for (std::size_t k = 0; k < D; ++k)
                    {
                        x[k] = dom.center(in, k);
                    }
                    x[d] += (s ? 0.5 : -0.5) * h;
                    double b = bc_value(d, s, x, e);
                    double v = (*this)(in, e);
                    return bc >> (2 * d + static_cast<std::size_t>(s)) & 1 ? v + h * b : 2. * b - v;
                }
            }
            return zero ? 0. : std::nan("");
        }
        if (lm.finer_below(c))
        {
            double s = 0;
            for (auto& k : children<D>(c))
            {
                s += (*this)(k, e);
            }
            return s / (1 << D);
        }
        return predict<D>(PORDER, c.p,
                          [&](const Pos<D>& q)
                          {
                              return (*this)(LCell<D>{c.level - 1, q}, e);
                          });
    }
};

// the result of a scheme, given the cell values
using Model = std::function<Result<D>(const Dom<D>&, const Val&, std::size_t)>;

Model operator+(Model a, Model b)
{
    return [=](const Dom<D>& dom, const Val& v, std::size_t n)
    {
        auto r = a(dom, v, n);
        auto s = b(dom, v, n);
        for (auto& [l, x] : r)
        {
            for (std::size_t e = 0; e < n; ++e)
            {
                x[e] += s[l][e];
            }
        }
        return r;
    };
}

Model operator*(double k, Model a)
{
    return [=](const Dom<D>& dom, const Val& v, std::size_t n)
    {
        auto r = a(dom, v, n);
        for (auto& [l, x] : r)
        {
            for (std::size_t e = 0; e < n; ++e)
            {
                x[e] *= k;
            }
        }
        return r;
    };
}

Model m_id()
{
    return [](const Dom<D>& dom, const Val& v, std::size_t n)
    {
        Result<D> r;
        for (auto& l : dom.lm->leaf)
        {
            for (std::size_t e = 0; e < n; ++e)
            {
                r[l].push_back(v(l, e));
            }
        }
        return r;
    };
}

// two-point flux with coefficients g(d, h, left cell, side, i, j)
using Coef = std::function<double(std::size_t, double, const std::array<double, D>&, std::size_t, std::size_t, std::size_t)>;

Model m_flux(Coef g)
{
    return [=](const Dom<D>& dom, const Val& v, std::size_t n)
    {
        Result<D> r;
        add_flux<D>(r, dom, faces<D>(dom), {0, 1}, n,
                    [&](std::size_t d, double h, const std::vector<LCell<D>>& st)
                    {
                        std::array<double, D> x;
                        for (std::size_t k = 0; k < D; ++k)
                        {
                            x[k] = dom.center(st[0], k);
                        }
                        std::vector<double> a, b;
                        for (std::size_t i = 0; i < n; ++i)
                        {
                            double f = 0;
                            for (std::size_t k = 0; k < 2; ++k)
                            {
                                for (std::size_t j = 0; j < n; ++j)
                                {
                                    double w = g(d, h, x, k, i, j);
                                    f += w == 0. ? 0. : w * v(st[k], j);
                                }
                            }
                            a.push_back(f);
                            b.push_back(-f);
                        }
                        return std::make_pair(a, b);
                    },
                    true);
        return r;
    };
}

double K(std::size_t d)
{
    return 1. + 0.5 * static_cast<double>(d);
}

double V(std::size_t d)
{
    return d == 1 ? -0.75 : 0.5;
}

double het(std::size_t d, double h, const std::array<double, D>& x, std::size_t k, std::size_t i, std::size_t j)
{
    double a = (k == 0 ? 1. : -1.) / h * (2. + 0.25 * x[0]) * (i == j ? 1. : 0.);
    return a + 0.125 * (1. + static_cast<double>(d + 2 * i + 3 * j + k)) + 0.0625 * x[D - 1];
}

template <class F>
struct Ops
{
    static auto id()
    {
        return samurai::make_identity<F>();
    }

    static auto diff()
    {
        samurai::DiffCoeff<D> k;
        for (std::size_t d = 0; d < D; ++d)
        {
            k(d) = K(d);
        }
        return samurai::make_diffusion_order2<F>(k);
    }

    static auto conv()
    {
        samurai::VelocityVector<D> v;
        for (std::size_t d = 0; d < D; ++d)
        {
            v(d) = V(d);
        }
        return samurai::make_convection_upwind<F>(v);
    }

    static auto hetf()
    {
        using cfg = samurai::FluxConfig<S::LinearHeterogeneous, F::size, 2, F>;
        samurai::FluxDefinition<cfg> def;
        for (std::size_t d = 0; d < D; ++d)
        {
            def[d].cons_flux_function = [=](auto& cells)
            {
                std::array<double, D> x;
                for (std::size_t k = 0; k < D; ++k)
                {
                    x[k] = cells[0].center(k);
                }
                samurai::FluxStencilCoeffs<cfg> m;
                for (std::size_t k = 0; k < 2; ++k)
                {
                    for (std::size_t i = 0; i < F::size; ++i)
                    {
                        for (std::size_t j = 0; j < F::size; ++j)
                        {
                            double w = het(d, cells[0].length, x, k, i, j);
                            if constexpr (F::size == 1)
                            {
                                m[k] = w;
                            }
                            else
                            {
                                m[k](i, j) = w;
                            }
                        }
                    }
                }
                return m;
            };
        }
        return samurai::make_flux_based_scheme(def);
    }

    static auto react()
    {
        using cfg = samurai::LocalCellSchemeConfig<S::NonLinear, F::size, F>;
        auto r    = samurai::make_cell_based_scheme<cfg>();
        r.set_scheme_function(
            [](const auto& cell, const auto& f) -> samurai::SchemeValue<cfg>
            {
                if constexpr (F::size == 1)
                {
                    double v = f[cell];
                    return v * v * v;
                }
                else
                {
                    samurai::SchemeValue<cfg> w;
                    double a = f[cell](0), b = f[cell](1);
                    w(0) = a * a * a + 0.5 * b;
                    w(1) = b * b * b - 0.5 * a;
                    return w;
                }
            });
        r.set_jacobian_function(
            [](const auto& cell, const auto& f) -> samurai::JacobianMatrix<cfg>
            {
                if constexpr (F::size == 1)
                {
                    double v = f[cell];
                    return 3. * v * v;
                }
                else
                {
                    samurai::JacobianMatrix<cfg> w;
                    double a = f[cell](0), b = f[cell](1);
                    w(0, 0) = 3. * a * a;
                    w(0, 1) = 0.5;
                    w(1, 0) = -0.5;
                    w(1, 1) = 3. * b * b;
                    return w;
                }
            });
        return r;
    }
};

Model m_diff()
{
    return m_flux(
        [](std::size_t d, double h, const auto&, std::size_t k, std::size_t i, std::size_t j)
        {
            return i == j ? (k == 0 ? 1. : -1.) * K(d) / h : 0.;
        });
}

Model m_conv()
{
    return m_flux(
        [](std::size_t d, double, const auto&, std::size_t k, std::size_t i, std::size_t j)
        {
            return i == j && k == (V(d) >= 0 ? 0u : 1u) ? V(d) : 0.;
        });
}

Model m_react()
{
    return [](const Dom<D>& dom, const Val& v, std::size_t n)
    {
        Result<D> r;
        for (auto& l : dom.lm->leaf)
        {
            double a = v(l, 0);
            double b = n > 1 ? v(l, 1) : 0.;
            r[l].push_back(a * a * a + 0.5 * b);
            if (n > 1)
            {
                r[l].push_back(b * b * b - 0.5 * a);
            }
        }
        return r;
    };
}

// residual of the solution held by the leaves of u against the right-hand side
void judge(mc::Case& c, const Dom<D>& dom, const Result<D>& u, u64 bc, const Model& model, const Result<D>& want, std::size_t n, const std::string& who, double tol)
{
    u64 hsh = 5;
    for (auto& [l, x] : u)
    {
        for (auto y : x)
        {
            hsh = mc::mix(hsh, static_cast<u64>(static_cast<long long>(std::llround(y * 1e4))));
        }
    }
    c.outcome(hsh);
    Val v{dom, u, bc, false, {}}, z{dom, u, bc, true, {}};
    auto r = model(dom, v, n);
    auto q = model(dom, z, n);
    double m = scale_of<D>(u) * 64;
    for (auto& [l, w] : want)
    {
        for (std::size_t e = 0; e < n; ++e)
        {
            if (std::abs(r[l][e] - w[e]) <= tol * m)
            {
                continue;
            }
            std::string what = who + ": applying the scheme to the solution gives " + std::to_string(r[l][e]) + " in leaf " + str<D>(l) + " component " + std::to_string(e) + ", the right-hand side is " + std::to_string(w[e]);
            if (std::abs(q[l][e] - w[e]) <= tol * m)
            {
                c.finding("outer-zero", what + "; outer ghosts that touch no leaf were taken as zero");
                continue;
            }
            REQ(c, false, "solve", what);
        }
    }
}

template <class F>
Result<D> make_rhs(F& rhs, const LeafMap<D>& lm, const std::vector<LCell<D>>& leaf, std::size_t k, double amp)
{
    rhs.fill(0.);
    set_all<D>(rhs, lm.leaf,
               [&](const LCell<D>& x, std::size_t e)
               {
                   return amp * (k >= leaf.size() * F::size ? generic<D>(x, e + 2 * (k - leaf.size() * F::size)) : (leaf[k / F::size] == x && k % F::size == e ? 1. : 0.));
               });
    return leaf_values<D>(rhs, lm);
}

template <class F, class Op>
void linear(mc::Case& c, const Dom<D>& dom, F& u, Op op, u64 bc, const Model& model, const std::string& who)
{
    auto& lm = *dom.lm;
    F rhs("rhs", u.mesh());
    direct("sparse");
    auto solver = samurai::petsc::make_solver(op);
    solver.set_unknown(u);
    std::vector<LCell<D>> leaf(lm.leaf.begin(), lm.leaf.end());
    const std::size_t n = leaf.size() * F::size;
    for (std::size_t k = UNIT ? 0 : n; k <= n + 1; ++k)
    {
        auto want = make_rhs(rhs, lm, leaf, k, 1.);
        u.fill(k % 2 ? 0. : 3.);
        solver.solve(rhs);
        auto us = leaf_values<D>(u, lm);
        judge(c, dom, us, bc, model, want, F::size, who + ", right-hand side " + std::to_string(k), 1e-9);
        REQ(c, leaf_values<D>(rhs, lm) == want, "rhs", who + ": solving changed the leaves of the right-hand side");
    }
    c.transitions(UNIT ? n + 2 : 2);
}

// the non-linear solver drives the explicit scheme itself to the right-hand side
template <class F, class Op>
void nonlinear(mc::Case& c, const Dom<D>& dom, F& u, Op op, const std::string& who, const char* kind)
{
    direct(kind);
    auto& lm = *dom.lm;
    F rhs("rhs", u.mesh());
    std::vector<LCell<D>> leaf(lm.leaf.begin(), lm.leaf.end());
    const std::size_t n = leaf.size() * F::size;
    for (std::size_t k = UNIT ? 0 : n; k <= n + 1; ++k)
    {
        auto want = make_rhs(rhs, lm, leaf, k, 0.5);
        u.fill(0.);
        samurai::petsc::solve(op, u, rhs);
        REQ(c, leaf_values<D>(rhs, lm) == want, "rhs", who + ": solving changed the leaves of the right-hand side");
        samurai::update_ghost_mr(u);
        auto out = op(u);
        double m = scale_of<D>(leaf_values<D>(u, lm)) * 64;
        for (auto& [l, w] : want)
        {
            auto i = cidx<D>(u.mesh(), l);
            for (std::size_t e = 0; e < F::size; ++e)
            {
                double g = fat(out, i, e);
                REQ(c, std::abs(g - w[e]) <= 1e-7 * m, "solve", who + ", right-hand side " + std::to_string(k) + ": applying the scheme to the solution gives " + std::to_string(g) + " in leaf " + str<D>(l) + ", the right-hand side is " + std::to_string(w[e]));
            }
        }
    }
    c.transitions(UNIT ? n + 2 : 2);
}

// [ id + diff/8   -1/4 id ] [u]   [f]
// [ conv          id + diff/4 ] [w] = [g]
template <bool mono, class F>
void blocks(mc::Case& c, const Dom<D>& dom, F& u, F& w, u64 bcu, u64 bcw, const std::string& who)
{
    auto& lm = *dom.lm;
    using O  = Ops<F>;
    direct(mono ? "sparse" : "svd");
    auto a   = O::id() + 0.125 * O::diff();
    auto b   = -0.25 * O::id();
    auto k   = 0.5 * O::id();
    auto d   = O::id() + 0.25 * O::conv();
    auto blk = samurai::make_block_operator<2, 2>(a, b, k, d);
    F f("f", u.mesh()), g("g", u.mesh());
    std::vector<LCell<D>> leaf(lm.leaf.begin(), lm.leaf.end());
    const std::size_t n = leaf.size() * F::size;
    for (std::size_t q = UNIT ? 0 : 2 * n; q <= 2 * n; ++q)
    {
        auto wf = make_rhs(f, lm, leaf, q < n ? q : n, q < n || q == 2 * n ? 1. : 0.);
        auto wg = make_rhs(g, lm, leaf, q < n || q == 2 * n ? n : q - n, q < n ? 0. : 1.);
        u.fill(0.);
        w.fill(0.);
        auto solver = samurai::petsc::make_solver<mono>(blk);
        solver.set_unknowns(u, w);
        solver.solve(f, g);
        auto us = leaf_values<D>(u, lm), ws = leaf_values<D>(w, lm);
        // move the coupling to the right-hand side
        auto r1 = wf, r2 = wg;
        for (auto& [l, x] : r1)
        {
            for (std::size_t e = 0; e < F::size; ++e)
            {
                x[e] += 0.25 * ws[l][e];
                r2[l][e] -= 0.5 * us[l][e];
            }
        }
        std::string s = who + ", right-hand side " + std::to_string(q);
        judge(c, dom, us, bcu, m_id() + 0.125 * m_diff(), r1, F::size, s + ", first row", 1e-9);
        judge(c, dom, ws, bcw, m_id() + 0.25 * m_conv(), r2, F::size, s + ", second row", 1e-9);
    }
    c.transitions(UNIT ? 2 * n + 1 : 1);
}

template <std::size_t n>
void all_ops(mc::Case& c, const Dom<D>& dom, Mesh& mesh, u64 bc)
{
    auto u  = samurai::make_field<n>("u", mesh);
    using F = decltype(u);
    using O = Ops<F>;
    u.fill(0.);
    attach(u, bc);
    const std::string s = n == 1 ? "scalar " : "vector ";
    if (bc != (1u << (2 * D)) - 1)
    {
        linear(c, dom, u, O::diff(), bc, m_diff(), s + "diffusion");
    }
    linear(c, dom, u, O::id() + 0.125 * O::diff() + 0.25 * O::conv(), bc, m_id() + 0.125 * m_diff() + 0.25 * m_conv(), s + "identity + diffusion/8 + convection/4");
    linear(c, dom, u, O::id() + 0.0625 * O::hetf(), bc, m_id() + 0.0625 * m_flux(het), s + "identity + heterogeneous flux/16");
    linear(c, dom, u, 2. * O::id(), bc, 2. * m_id(), s + "2 identity");
    nonlinear(c, dom, u, O::id() + 0.25 * O::react(), s + "identity + reaction/4", "dense");
    nonlinear(c, dom, u, O::id() + 0.125 * O::diff() + 0.25 * O::react(), s + "identity + diffusion/8 + reaction/4", "sparse");
    if constexpr (n == 1)
    {
        auto w = samurai::make_field<n>("w", mesh);
        w.fill(0.);
        u64 bw = bc ^ 1;
        attach(w, bw);
        blocks<true>(c, dom, u, w, bc, bw, "blocks in one matrix");
        blocks<false>(c, dom, u, w, bc, bw, "nested blocks");
    }
}

void family(mc::Run& run, const std::string& nm, const Forest<D>& fo, std::vector<u64> bcs = {})
{
    std::array<bool, D> none{};
    Space<D, Mesh> sp(fo, none, SC, ORG);
    std::string how = std::to_string(bcs.size()) + " choices";
    if (bcs.empty())
    {
        how = "every choice";
        for (u64 b = 0; b < (1 << (2 * D)); ++b)
        {
            bcs.push_back(b);
        }
    }
    run.family(nm, sp.rule() + ", " + how + " of Dirichlet or Neumann conditions per side", sp.ids.size() * bcs.size(),
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   u64 bc  = bcs[dec.take(bcs.size())];
                   auto lv = fo.leaves(sp.ids[dec.take(sp.ids.size())]);
                   DESC(c) << "boundary conditions " << bc << ", leaves " << str<D>(lv);
                   auto mesh = make_mesh<Mesh, D>(sp.ref, lv);
                   LeafMap<D> lm(lv);
                   auto dom = sp.dom(lm);
                   all_ops<1>(c, dom, mesh, bc);
                   all_ops<2>(c, dom, mesh, bc);
               });
}

int main(int argc, char** argv)
{
    int n        = 0;
    char** none_ = nullptr;
    PetscInitialize(&n, &none_, nullptr, nullptr);
    PetscOptionsSetValue(nullptr, "-options_left", "off");
    PetscOptionsSetValue(nullptr, "-ksp_type", "preonly");
    PetscOptionsSetValue(nullptr, "-snes_atol", "1e-11");
    PetscOptionsSetValue(nullptr, "-snes_rtol", "1e-12");
    PetscOptionsSetValue(nullptr, "-snes_stol", "0");
    PetscOptionsSetValue(nullptr, "-snes_max_it", "200");
    int rc;
    {
        mc::Run run(argc, argv);
        const bool T = run.thorough();
#if DIM == 1
        family(run, "r2d2", {{0}, {2}, 0, 2});
        family(run, "r3d1", {{-1}, {3}, 0, 1});
        family(run, "r4d1", {{0}, {4}, 1, 1});
        if (T)
        {
            family(run, "r3d2", {{0}, {3}, 0, 2});
            family(run, "r2d3", {{0}, {2}, 0, 3}, {0, 1});
        }
#elif DIM == 2
        family(run, "r11d1", {{0, 0}, {1, 1}, 1, 1});
        family(run, "r11d2", {{0, 0}, {1, 1}, 0, 2}, T ? std::vector<u64>{} : std::vector<u64>{0, 6});
        family(run, "r22d1", {{0, 0}, {2, 2}, 1, 1});
        if (T)
        {
            family(run, "r33d1", {{-1, 0}, {3, 3}, 0, 1}, {0, 6, 9});
        }
        else
        {
            family(run, "r31d1", {{0, 0}, {3, 1}, 0, 1}, {0, 6});
            family(run, "r33d1", {{-1, 0}, {3, 3}, 0, 1}, {6});
        }
#else
        family(run, "r111d1", {{0, 0, 0}, {1, 1, 1}, 1, 1}, T ? std::vector<u64>{} : std::vector<u64>{0, 22, 41});
        family(run, "r211d1", {{0, 0, 0}, {2, 1, 1}, 1, 1}, {22});
#endif
        rc = run.finish();
    }
    PetscFinalize();
    return rc;
}
