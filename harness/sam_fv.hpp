// Reference model of flux-based and cell-based finite-volume schemes, on explicit cell values.
#pragma once
#include "sam_field.hpp"
#include <functional>

namespace sam
{
    // everything the model needs to know about the mesh
    template <std::size_t D>
    struct Dom
    {
        const LeafMap<D>* lm;
        std::function<bool(const LCell<D>&)> inside; // cell lies in the domain
        double L0len;                                // length of level-0 cells
        std::array<double, D> org{};

        double h(int level) const
        {
            return L0len / (1 << level);
        }

        double center(const LCell<D>& c, std::size_t d) const
        {
            return org[d] + h(c.level) * (c.p[d] + 0.5);
        }
    };

    // a face of the leaf partition; comp = cell left of the face at the level the flux is computed on
    template <std::size_t D>
    struct Face
    {
        std::size_t d;
        LCell<D> left, right; // level -1: outside
        LCell<D> comp;
    };

    template <std::size_t D>
    std::vector<Face<D>> faces(const Dom<D>& dom)
    {
        std::vector<Face<D>> v;
        auto& lm = *dom.lm;
        const LCell<D> none{-1, {}};
        for (auto& a : lm.leaf)
        {
            for (std::size_t d = 0; d < D; ++d)
            {
                LCell<D> b = a, z = a;
                b.p[d] += 1;
                z.p[d] -= 1;
                if (!dom.inside(z))
                {
                    v.push_back({d, none, a, z});
                }
                if (!dom.inside(b))
                {
                    v.push_back({d, a, none, a});
                    continue;
                }
                if (lm.leaf.count(b))
                {
                    v.push_back({d, a, b, a});
                    continue;
                }
                auto k = lm.cover(b);
                if (k.level >= 0)
                {
                    v.push_back({d, a, k, a});
                    continue;
                }
                for (auto& f : children<D>(b))
                {
                    if ((f.p[d] & 1) == 0)
                    {
                        LCell<D> g = f;
                        g.p[d] -= 1;
                        v.push_back({d, a, f, g});
                    }
                }
            }
        }
        return v;
    }

    // flux functions get the direction, the mesh size and the cells of the stencil, and return {flux, opposite flux} by component
    template <std::size_t D>
    using FluxFn = std::function<std::pair<std::vector<double>, std::vector<double>>(std::size_t, double, const std::vector<LCell<D>>&)>;

    template <std::size_t D>
    using Result = std::map<LCell<D>, std::vector<double>>;

    template <std::size_t D>
    void add_flux(Result<D>& r, const Dom<D>& dom, const std::vector<Face<D>>& fs, const std::vector<int>& offs, std::size_t nout, const FluxFn<D>& fn, bool boundary, int only = -1,
                  std::vector<double>* net = nullptr)
    {
        for (auto& l : dom.lm->leaf)
        {
            r[l].resize(nout, 0.);
        }
        for (auto& f : fs)
        {
            bool bd = f.left.level < 0 || f.right.level < 0;
            if ((bd && !boundary) || (only >= 0 && static_cast<std::size_t>(only) != f.d))
            {
                continue;
            }
            std::vector<LCell<D>> st;
            for (int o : offs)
            {
                LCell<D> c = f.comp;
                c.p[f.d] += o;
                st.push_back(c);
            }
            double h   = dom.h(f.comp.level);
            auto flux  = fn(f.d, h, st);
            double mea = std::pow(h, static_cast<double>(D) - 1.);
            for (std::size_t e = 0; e < nout; ++e)
            {
                if (f.left.level >= 0)
                {
                    r[f.left][e] += mea * flux.first[e] / std::pow(dom.h(f.left.level), static_cast<double>(D));
                }
                if (f.right.level >= 0)
                {
                    r[f.right][e] += mea * flux.second[e] / std::pow(dom.h(f.right.level), static_cast<double>(D));
                }
                if (net && bd)
                {
                    (*net)[e] += mea * (f.left.level >= 0 ? flux.first[e] : flux.second[e]);
                }
            }
        }
    }

    template <std::size_t D>
    double scale_of(const Result<D>& r)
    {
        double m = 1.;
        for (auto& [c, v] : r)
        {
            for (auto x : v)
            {
                m = std::max(m, std::abs(x));
            }
        }
        return m;
    }

    // every leaf of `out` holds the model result; cells that are no leaves hold zero
    template <std::size_t D, class F>
    void compare_result(mc::Case& c, F& out, const Result<D>& want, const std::string& sig, const std::string& who, double tol = 1e-10)
    {
        double m = scale_of<D>(want);
        u64 hsh  = 5;
        for (auto& [l, v] : want)
        {
            auto i = cidx<D>(out.mesh(), l);
            for (std::size_t e = 0; e < v.size(); ++e)
            {
                double g = fat(out, i, e);
                CHK(c, std::abs(g - v[e]) <= tol * m, sig, who + ": leaf " + str<D>(l) + " component " + std::to_string(e) + " gets " + std::to_string(g) + ", the formula gives " + std::to_string(v[e]));
                hsh = mc::mix(hsh, static_cast<u64>(static_cast<long long>(std::llround(g * 1e6 / m))));
            }
        }
        c.outcome(hsh);
        c.transitions(want.size());
    }

    template <std::size_t D, class F>
    Result<D> leaf_values(F& f, const LeafMap<D>& lm)
    {
        Result<D> r;
        for (auto& l : lm.leaf)
        {
            auto i = cidx<D>(f.mesh(), l);
            for (std::size_t e = 0; e < F::size; ++e)
            {
                r[l].push_back(fat(f, i, e));
            }
        }
        return r;
    }

    // forests with their domain description
    template <std::size_t D, class Mesh>
    struct Space
    {
        Forest<D> fo;
        std::array<bool, D> per;
        double sc, org;
        Mesh ref;
        std::vector<u64> ids;

        Space(const Forest<D>& f, const std::array<bool, D>& p, double s, double o)
            : fo(f)
            , per(p)
            , sc(s)
            , org(o)
            , ref(ref_mesh<Mesh, D>(f, p, s, o))
        {
            for (u64 i = 0; i < fo.count(); ++i)
            {
                if (graded<D>(fo, LeafMap<D>(fo.leaves(i)), per))
                {
                    ids.push_back(i);
                }
            }
        }

        Dom<D> dom(const LeafMap<D>& lm) const
        {
            Dom<D> d;
            d.lm     = &lm;
            auto fc  = fo;
            d.inside = [fc](const LCell<D>& c)
            {
                return fc.inside(c.level, c.p);
            };
            d.L0len = sc;
            d.org.fill(org);
            return d;
        }

        std::string rule() const
        {
            return "all graded forests of " + std::to_string(volume<D>(fo.ext)) + " roots of depth " + std::to_string(fo.depth) + " from level " + std::to_string(fo.L0);
        }
    };
}
