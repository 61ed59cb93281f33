// Access to field values, storage-layout independent, for the oracles.
#pragma once
#include "sam_mesh.hpp"
#include "sam_num.hpp"
#include <samurai/field.hpp>

namespace sam
{
    template <class F>
    auto& fat(F& f, std::size_t i, std::size_t comp)
    {
        if constexpr (F::size == 1)
        {
            return f.array()[i];
        }
        else if constexpr (F::is_soa)
        {
            return f.array()(comp, i);
        }
        else
        {
            return f.array()(i, comp);
        }
    }

    template <std::size_t D, class Mesh>
    std::size_t cidx(const Mesh& mesh, const LCell<D>& c)
    {
        return static_cast<std::size_t>(mesh.get_index(static_cast<std::size_t>(c.level), xyz<D>(c.p)));
    }

    // small generic integers
    template <std::size_t D>
    double generic(const LCell<D>& c, u64 salt)
    {
        u64 h = 7 + salt * 31 + static_cast<u64>(c.level) * 1009;
        for (auto x : c.p)
        {
            h = mc::mix(h, static_cast<u64>(x + 1000));
        }
        return static_cast<double>(h % 17) - 8.;
    }

    // all values of a field, ghosts included: cell -> component values
    template <std::size_t D>
    using Values = std::map<LCell<D>, std::vector<double>>;

    template <std::size_t D, class F>
    Values<D> values(F& f)
    {
        using mesh_t = typename F::mesh_t;
        Values<D> v;
        for (auto& c : cells_of<D>(f.mesh()[mesh_t::mesh_id_t::reference]))
        {
            auto i  = cidx<D>(f.mesh(), c);
            auto& w = v[c];
            for (std::size_t e = 0; e < F::size; ++e)
            {
                w.push_back(fat(f, i, e));
            }
        }
        return v;
    }

    template <std::size_t D, class F, class G>
    void set_all(F& f, const LSet<D>& cells, G&& g) // g(cell, component)
    {
        for (auto& c : cells)
        {
            auto i = cidx<D>(f.mesh(), c);
            for (std::size_t e = 0; e < F::size; ++e)
            {
                fat(f, i, e) = g(c, e);
            }
        }
    }

    template <std::size_t D, class Mesh>
    std::vector<LCell<D>> leaf_vec(const Mesh& mesh)
    {
        auto s = cells_of<D>(mesh[Mesh::mesh_id_t::cells]);
        return {s.begin(), s.end()};
    }

    template <std::size_t D>
    std::vector<LCell<D>> children(const LCell<D>& c)
    {
        std::vector<LCell<D>> v;
        for (int k = 0; k < (1 << D); ++k)
        {
            LCell<D> r{c.level + 1, {}};
            for (std::size_t d = 0; d < D; ++d)
            {
                r.p[d] = 2 * c.p[d] + (k >> d & 1);
            }
            v.push_back(r);
        }
        return v;
    }

    template <std::size_t D>
    LCell<D> parent(const LCell<D>& c)
    {
        return {c.level - 1, shr<D>(c.p, 1)};
    }

    // old values -> value the transfer must give to the leaf c of the new mesh (leaves at most one level away).
    // Returns false if the model has no value; alt = value with the known coupling-term variant of the prediction
    template <std::size_t D>
    bool transferred(const Values<D>& old, const LSet<D>& oldleaf, int order, const LCell<D>& c, std::size_t e, double& val, double& alt)
    {
        if (oldleaf.count(c))
        {
            val = alt = old.at(c)[e];
            return true;
        }
        bool kids = true;
        double s  = 0;
        for (auto& k : children<D>(c))
        {
            kids = kids && oldleaf.count(k);
            if (kids)
            {
                s += old.at(k)[e] / (1 << D);
            }
        }
        if (kids)
        {
            val = alt = s;
            return true;
        }
        auto p = parent<D>(c);
        if (c.level > 0 && oldleaf.count(p))
        {
            auto get = [&](const Pos<D>& q)
            {
                return old.at({p.level, q})[e];
            };
            val = predict<D>(order, c.p, get);
            alt = predict<D>(order, c.p, get, true);
            return true;
        }
        return false;
    }
}
