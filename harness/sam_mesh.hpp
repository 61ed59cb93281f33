// Enumeration of adapted meshes (forests of 2^D-trees over a box of root cells) and
// an independent model of the cells a multiresolution mesh is made of.
#pragma once
#include "sam.hpp"

#include <algorithm>
#include <map>
#include <memory>

#include <samurai/box.hpp>
#include <samurai/mr/mesh.hpp>

namespace sam
{
    // number of trees of depth <= d: T(0)=1, T(d)=1+T(d-1)^(2^D)
    template <std::size_t D>
    u64 ntrees(int d)
    {
        u64 t = 1;
        for (int i = 0; i < d; ++i)
        {
            u64 p = 1;
            for (int k = 0; k < (1 << D); ++k)
            {
                p *= t;
            }
            t = 1 + p;
        }
        return t;
    }

    template <std::size_t D>
    void tree_leaves(u64 id, int depth, int level, const Pos<D>& p, std::vector<LCell<D>>& out)
    {
        if (id == 0)
        {
            out.push_back({level, p});
            return;
        }
        u64 v  = id - 1;
        u64 nt = ntrees<D>(depth - 1);
        for (int k = 0; k < (1 << D); ++k)
        {
            Pos<D> q;
            for (std::size_t d = 0; d < D; ++d)
            {
                q[d] = 2 * p[d] + (k >> d & 1);
            }
            tree_leaves<D>(v % nt, depth - 1, level + 1, q, out);
            v /= nt;
        }
    }

    // a space of forests
    template <std::size_t D>
    struct Forest
    {
        Pos<D> lo, ext; // root box in units of level L0 cells
        int L0;
        int depth;

        int ML() const
        {
            return L0 + depth;
        }

        u64 count() const
        {
            return mc::ipow(ntrees<D>(depth), static_cast<int>(volume<D>(ext)));
        }

        std::vector<LCell<D>> leaves(u64 id) const
        {
            std::vector<LCell<D>> out;
            Pos<D> hi;
            for (std::size_t d = 0; d < D; ++d)
            {
                hi[d] = lo[d] + ext[d];
            }
            u64 nt = ntrees<D>(depth);
            for_box<D>(lo, hi,
                       [&](const Pos<D>& p)
                       {
                           tree_leaves<D>(id % nt, depth, L0, p, out);
                           id /= nt;
                       });
            std::sort(out.begin(), out.end());
            return out;
        }

        bool inside(int level, const Pos<D>& p) const // p is inside the domain (level >= L0, or the box is a whole number of cells)
        {
            for (std::size_t d = 0; d < D; ++d)
            {
                int a = level >= L0 ? lo[d] * (1 << (level - L0)) : static_cast<int>(mc::fdiv(lo[d], 1 << (L0 - level)));
                int b = level >= L0 ? (lo[d] + ext[d]) * (1 << (level - L0))
                                    : static_cast<int>(mc::fdiv(lo[d] + ext[d] + (1 << (L0 - level)) - 1, 1 << (L0 - level)));
                if (p[d] < a || p[d] >= b)
                {
                    return false;
                }
            }
            return true;
        }

        // number of cells of the domain in direction d at this level
        int width(std::size_t d, int level) const
        {
            return level >= L0 ? ext[d] * (1 << (level - L0)) : ext[d] / (1 << (L0 - level));
        }

        int start(std::size_t d, int level) const
        {
            return level >= L0 ? lo[d] * (1 << (level - L0)) : static_cast<int>(mc::fdiv(lo[d], 1 << (L0 - level)));
        }
    };

    template <std::size_t D>
    Pos<D> shr(const Pos<D>& p, int n)
    {
        Pos<D> q;
        for (std::size_t d = 0; d < D; ++d)
        {
            q[d] = p[d] >> n; // arithmetic shift: floor
        }
        return q;
    }

    template <std::size_t D>
    Pos<D> add(const Pos<D>& p, const Pos<D>& o)
    {
        Pos<D> q;
        for (std::size_t d = 0; d < D; ++d)
        {
            q[d] = p[d] + o[d];
        }
        return q;
    }

    template <std::size_t D, class F>
    void for_nb(int w, F&& f) // all offsets in [-w,w]^D
    {
        Pos<D> lo, hi;
        lo.fill(-w);
        hi.fill(w + 1);
        for_box<D>(lo, hi, f);
    }

    template <std::size_t D>
    using LSet = std::set<LCell<D>>;

    // index of a leaf set: which leaf covers / are there finer leaves below
    template <std::size_t D>
    struct LeafMap
    {
        LSet<D> leaf;
        LSet<D> anc; // strict ancestors of leaves
        int lmin = 1000, lmax = -1;

        explicit LeafMap(const std::vector<LCell<D>>& v)
        {
            for (auto& c : v)
            {
                leaf.insert(c);
                lmin = std::min(lmin, c.level);
                lmax = std::max(lmax, c.level);
                for (int l = c.level - 1; l >= 0; --l)
                {
                    if (!anc.insert({l, shr<D>(c.p, c.level - l)}).second)
                    {
                        break;
                    }
                }
            }
        }

        // the leaf containing the cell (cell.level >= leaf.level), or level -1
        LCell<D> cover(const LCell<D>& c) const
        {
            for (int l = c.level; l >= 0; --l)
            {
                LCell<D> a{l, shr<D>(c.p, c.level - l)};
                if (leaf.count(a))
                {
                    return a;
                }
            }
            return {-1, {}};
        }

        bool finer_below(const LCell<D>& c) const
        {
            return anc.count(c) != 0;
        }
    };

    // 2:1 grading: leaves touching each other (also by a corner) differ by at most one level; periodic images included
    template <std::size_t D>
    bool graded(const Forest<D>& fo, const LeafMap<D>& lm, const std::array<bool, D>& per, bool corners = true)
    {
        for (auto& c : lm.leaf)
        {
            bool ok = true;
            for_nb<D>(1,
                      [&](const Pos<D>& o)
                      {
                          int nz = 0;
                          for (auto x : o)
                          {
                              nz += x != 0;
                          }
                          if (!ok || nz == 0 || (!corners && nz > 1))
                          {
                              return;
                          }
                          LCell<D> n{c.level, add<D>(c.p, o)};
                          for (std::size_t d = 0; d < D; ++d)
                          {
                              if (per[d])
                              {
                                  int w  = fo.width(d, c.level);
                                  int s  = fo.start(d, c.level);
                                  n.p[d] = s + static_cast<int>(((n.p[d] - s) % w + w) % w);
                              }
                          }
                          auto k = lm.cover(n);
                          if (k.level >= 0 && k.level < c.level - 1)
                          {
                              ok = false;
                          }
                      });
            if (!ok)
            {
                return false;
            }
        }
        return true;
    }

    template <class CL, std::size_t D>
    CL to_cl(const std::vector<LCell<D>>& v)
    {
        CL cl;
        std::map<int, CSet<D>> per;
        for (auto& c : v)
        {
            per[c.level].insert(c.p);
        }
        for (auto& [l, s] : per)
        {
            for (auto& r : runs<D>(s))
            {
                cl[static_cast<std::size_t>(l)][yz<D>(r.row)].add_interval({r.start, r.end});
            }
        }
        return cl;
    }

    // reference mesh over the forest's root box; level-0 cells have length `scal`.
    // Boxes of whole level-0 cells at the origin are built from a Box (and may be periodic), others from a cell list.
    template <std::size_t D>
    bool aligned(const Forest<D>& fo)
    {
        for (std::size_t d = 0; d < D; ++d)
        {
            if (fo.lo[d] != 0 || fo.ext[d] % (1 << fo.L0) != 0)
            {
                return false;
            }
        }
        return true;
    }

    template <class Mesh, std::size_t D>
    Mesh ref_mesh_cl(const Forest<D>& fo, double scal = 1., double org = 0.)
    {
        typename Mesh::cl_type cl(xt::xtensor_fixed<double, xt::xshape<D>>(xt::ones<double>({D}) * org), scal);
        for (auto& c : fo.leaves(0))
        {
            cl[static_cast<std::size_t>(c.level)][yz<D>(c.p)].add_point(c.p[0]);
        }
        return Mesh(cl, static_cast<std::size_t>(fo.L0), static_cast<std::size_t>(fo.ML()));
    }

    template <class Mesh, std::size_t D>
    Mesh ref_mesh(const Forest<D>& fo, const std::array<bool, D>& per, double scal = 1., double org = 0.)
    {
        if (!aligned<D>(fo))
        {
            return ref_mesh_cl<Mesh, D>(fo, scal, org);
        }
        xt::xtensor_fixed<double, xt::xshape<D>> a, b;
        for (std::size_t d = 0; d < D; ++d)
        {
            a[d] = org;
            b[d] = org + scal * fo.ext[d] / (1 << fo.L0);
        }
        samurai::Box<double, D> box(a, b);
        return Mesh(box, static_cast<std::size_t>(fo.L0), static_cast<std::size_t>(fo.ML()), per, 0.05, scal);
    }

    template <class Mesh, std::size_t D>
    Mesh make_mesh(const Mesh& ref, const std::vector<LCell<D>>& leaves)
    {
        auto cl = to_cl<typename Mesh::cl_type, D>(leaves);
        return Mesh(cl, ref);
    }

    template <std::size_t D, class LCA>
    LSet<D> cells_at(const LCA& lca)
    {
        LSet<D> s;
        if (!lca.empty())
        {
            for (auto it = lca.cbegin(); it != lca.cend(); ++it)
            {
                for (int x = it->start; x < it->end; ++x)
                {
                    Pos<D> p;
                    p[0] = x;
                    for (std::size_t d = 1; d < D; ++d)
                    {
                        p[d] = it.index()[d - 1];
                    }
                    s.insert({static_cast<int>(lca.level()), p});
                }
            }
        }
        return s;
    }

    template <std::size_t D, class CA>
    LSet<D> cells_of(const CA& ca)
    {
        LSet<D> s;
        for (std::size_t l = 0; l <= CA::max_size; ++l)
        {
            const auto& lca = ca[l];
            if (lca.empty())
            {
                continue;
            }
            for (auto it = lca.cbegin(); it != lca.cend(); ++it)
            {
                for (int x = it->start; x < it->end; ++x)
                {
                    Pos<D> p;
                    p[0] = x;
                    for (std::size_t d = 1; d < D; ++d)
                    {
                        p[d] = it.index()[d - 1];
                    }
                    s.insert({static_cast<int>(l), p});
                }
            }
        }
        return s;
    }

    template <std::size_t D>
    std::string str(const std::vector<LCell<D>>& v)
    {
        std::string s;
        for (auto& c : v)
        {
            s += str<D>(c) + " ";
        }
        return s;
    }

    template <std::size_t D>
    std::string str(const LSet<D>& v)
    {
        return str<D>(std::vector<LCell<D>>(v.begin(), v.end()));
    }

    template <std::size_t D>
    u64 hash(const LSet<D>& v)
    {
        u64 h = 23;
        for (auto& c : v)
        {
            h = mc::mix(h, static_cast<u64>(c.level));
            for (auto x : c.p)
            {
                h = mc::mix(h, static_cast<u64>(x + 100000));
            }
        }
        return h;
    }

    // first difference between two sets, for messages
    template <std::size_t D>
    std::string diff(const LSet<D>& got, const LSet<D>& want)
    {
        std::string s;
        int n = 0;
        for (auto& c : got)
        {
            if (!want.count(c) && n++ < 4)
            {
                s += "unexpected " + str<D>(c) + " ";
            }
        }
        for (auto& c : want)
        {
            if (!got.count(c) && n++ < 8)
            {
                s += "missing " + str<D>(c) + " ";
            }
        }
        return s;
    }

    template <std::size_t D>
    std::array<bool, D> per_mask(u64 m)
    {
        std::array<bool, D> a;
        for (std::size_t d = 0; d < D; ++d)
        {
            a[d] = m >> d & 1;
        }
        return a;
    }
}
