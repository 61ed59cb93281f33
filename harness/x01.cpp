// X01: a run on several processes gives the result of the run on one process.
// The processes are coroutines under a controlled scheduler (mpi_shim); the real library code, compiled with
// SAMURAI_WITH_MPI, runs on each of them.  Receives name their source and tag and nothing polls, so all the operations of
// different processes commute: the order of the messages on a channel is fixed by the sender alone.  The schedules
// enumerated here are every priority order of the processes, switching at blocking calls only or round-robin at every
// call, with the payload of a send read at once or as late as MPI allows.
#include "sam_fv.hpp"
#include <samurai/mr/adapt.hpp>
#include <samurai/mr/mesh.hpp>
#include <samurai/schemes/fv.hpp>
#ifndef DIM
#define DIM 2
#endif
using namespace sam;
constexpr std::size_t D = DIM;
using mc::u64;
using Mesh = samurai::MRMesh<samurai::MRConfig<D>>;
using ID   = Mesh::mesh_id_t;
using Per  = std::array<bool, D>;

struct Out
{
    LSet<D> leaves, ref;
    Values<D> val, res; // field and result of a scheme, by cell
};

using Owner = std::function<int(const LCell<D>&)>;

int nobody_else(const LCell<D>&)
{
    return 0;
}

Mesh whole(const Forest<D>& fo, const Per& per)
{
    xt::xtensor_fixed<double, xt::xshape<D>> a, b;
    for (std::size_t d = 0; d < D; ++d)
    {
        a[d] = -0.5;
        b[d] = -0.5 + 2. * fo.ext[d] / (1 << fo.L0);
    }
    return Mesh(samurai::Box<double, D>(a, b), static_cast<std::size_t>(fo.L0), static_cast<std::size_t>(fo.ML()), per, 0.05, 2.);
}

// the mesh of process r, made of its share of the leaves
Mesh share(const Forest<D>& fo, const Per& per, const std::vector<LCell<D>>& lv, const Owner& own, int r)
{
    auto ref = whole(fo, per);
    std::vector<LCell<D>> mine;
    for (auto& x : lv)
    {
        if (own(x) == r)
        {
            mine.push_back(x);
        }
    }
    return make_mesh<Mesh, D>(ref, mine);
}

struct Sched
{
    std::vector<int> prio;
    bool late, rot;

    std::string str() const
    {
        std::string s;
        for (int k : prio)
        {
            s += std::to_string(k);
        }
        return "priorities " + s + (late ? " late" : " eager") + (rot ? " round-robin" : "");
    }
};

Sched plain(int p)
{
    Sched s{{}, false, false};
    for (int k = 0; k < p; ++k)
    {
        s.prio.push_back(k);
    }
    return s;
}

std::vector<Sched> schedules(int p, bool all)
{
    std::vector<Sched> out;
    auto a = plain(p).prio;
    if (!all) // first process first, and last process first with late reads
    {
        auto b = a;
        std::reverse(b.begin(), b.end());
        return {{a, false, true}, {b, true, false}};
    }
    do
    {
        for (int m = 0; m < 4; ++m)
        {
            out.push_back({a, (m & 1) != 0, (m & 2) != 0});
        }
    } while (std::next_permutation(a.begin(), a.end()));
    return out;
}

u64 switches = 0;

template <class T, class Body>
std::vector<T> distributed(int p, const Sched& s, const Body& body)
{
    std::vector<T> out(static_cast<std::size_t>(p));
    mpisim::World w;
    mpisim::run(
        p, s.prio, s.late, s.rot,
        [&](int r)
        {
            out[static_cast<std::size_t>(r)] = body(r);
        },
        &w);
    switches += w.switches;
    return out;
}

Owner by_roots(const Forest<D>& fo, u64 a, int p, std::string& as)
{
    std::vector<int> who;
    for (u64 k = 0; k < volume<D>(fo.ext); ++k)
    {
        who.push_back(static_cast<int>(a % static_cast<u64>(p)));
        as += std::to_string(who.back());
        a /= static_cast<u64>(p);
    }
    return [who, fo](const LCell<D>& x)
    {
        auto r = shr<D>(x.p, x.level - fo.L0);
        int at = 0;
        for (std::size_t d = D; d-- > 0;)
        {
            at = at * fo.ext[d] + r[d] - fo.lo[d];
        }
        return who[static_cast<std::size_t>(at)];
    };
}

double pattern(const Forest<D>& fo, const std::vector<LCell<D>>& lv, u64 k, const LCell<D>& x)
{
    if (k == 0)
    {
        double r = 0;
        for (std::size_t d = 0; d < D; ++d)
        {
            double z = ((x.p[d] + 0.5) / (1 << (x.level - fo.L0)) - fo.lo[d]) / fo.ext[d] - 0.4;
            r += z * z;
        }
        return std::exp(-20 * r);
    }
    if (k == 1)
    {
        return 1.;
    }
    return lv[k - 2] == x;
}

std::vector<u64> graded_ids(const Forest<D>& fo, const Per& per, int many)
{
    std::vector<u64> ids;
    for (u64 i = 0; i < fo.count(); ++i)
    {
        int refined = 0;
        for (u64 j = i; j; j /= ntrees<D>(fo.depth))
        {
            refined += j % ntrees<D>(fo.depth) != 0;
        }
        if (refined <= many && graded<D>(fo, LeafMap<D>(fo.leaves(i)), per))
        {
            ids.push_back(i);
        }
    }
    return ids;
}

// assignments of the roots to processes that leave no process without a cell; slabs: only consecutive roots together
std::vector<u64> assignments(const Forest<D>& fo, int p, bool slabs)
{
    std::vector<u64> v;
    for (u64 a = 0; a < mc::cpow(static_cast<u64>(p), volume<D>(fo.ext)); ++a)
    {
        std::set<u64> seen;
        u64 b = a, last = 0;
        bool up = true;
        for (u64 k = 0; k < volume<D>(fo.ext); ++k)
        {
            u64 who = b % static_cast<u64>(p);
            seen.insert(who);
            up   = up && who >= last;
            last = who;
            b /= static_cast<u64>(p);
        }
        if (seen.size() == static_cast<std::size_t>(p) && (up || !slabs))
        {
            v.push_back(a);
        }
    }
    return v;
}

std::string limits(int many, bool slabs)
{
    return (many < 99 ? " with at most " + std::to_string(many) + " refined roots" : "") + std::string(slabs ? ", consecutive roots on the same process" : "");
}

std::string num(double x)
{
    return std::to_string(x);
}

// --- the box of a mesh is shared out --------------------------------------------------------------------------------

struct Copy
{
    LSet<D> leaves;
    std::map<int, std::vector<LSet<D>>> of; // what the process knows about each other one, by part of the mesh
    std::vector<LSet<D>> self;
    std::map<int, std::array<std::size_t, 2>> lv;
    std::array<std::size_t, 2> own_lv;
};

void partition_family(mc::Run& run, int maxext, int maxp, int lmin, int lmax)
{
    Pos<D> ex;
    ex.fill(maxext);
    u64 boxes = volume<D>(ex);
    run.family("partition_" + std::to_string(lmax), "all boxes of up to " + std::to_string(maxext) + " cells of level " + std::to_string(lmin) + " in each direction, 1 to " + std::to_string(maxp) + " processes, all schedules",
               boxes * static_cast<u64>(maxp),
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   int p = 1 + static_cast<int>(dec.take(static_cast<u64>(maxp)));
                   Forest<D> fo{{}, {}, lmin, lmax - lmin};
                   for (std::size_t d = 0; d < D; ++d)
                   {
                       fo.ext[d] = 1 + static_cast<int>(dec.take(static_cast<u64>(maxext)));
                   }
                   DESC(c) << p << " processes, box of " << str<D>(LCell<D>{lmin, fo.ext}) << " cells, finest level " << lmax;
                   auto see = [](auto& mesh)
                   {
                       std::vector<LSet<D>> v;
                       for (auto k : {ID::cells, ID::cells_and_ghosts, ID::proj_cells, ID::union_cells, ID::all_cells})
                       {
                           v.push_back(cells_of<D>(mesh[k]));
                       }
                       v.push_back(cells_at<D>(mesh.subdomain()));
                       v.push_back(cells_at<D>(mesh.domain()));
                       v.push_back(cells_of<D>(mesh.get_union()));
                       return v;
                   };
                   for (auto& s : schedules(p, p <= 3))
                   {
                       std::vector<Copy> got;
                       try
                       {
                           got = distributed<Copy>(p, s,
                                                   [&](int)
                                                   {
                                                       auto mesh = whole(fo, Per{});
                                                       Copy o;
                                                       o.leaves = cells_of<D>(mesh[ID::cells]);
                                                       o.self   = see(mesh);
                                                       o.own_lv = {mesh.min_level(), mesh.max_level()};
                                                       for (auto& n : mesh.mpi_neighbourhood())
                                                       {
                                                           o.of[n.rank] = see(n.mesh);
                                                           o.lv[n.rank] = {n.mesh.min_level(), n.mesh.max_level()};
                                                       }
                                                       return o;
                                                   });
                       }
                       catch (const std::exception& e)
                       {
                           CHK(c, false, "run", s.str() + ": " + e.what());
                           return;
                       }
                       LSet<D> all;
                       for (int r = 0; r < p; ++r)
                       {
                           auto& g = got[static_cast<std::size_t>(r)];
                           for (auto& x : g.leaves)
                           {
                               CHK(c, x.level == lmax && fo.inside(x.level, x.p), "outside", "process " + std::to_string(r) + " has leaf " + str<D>(x));
                               CHK(c, all.insert(x).second, "twice", "two processes have leaf " + str<D>(x));
                           }
                           for (auto& [q, parts] : g.of)
                           {
                               CHK(c, parts == got[static_cast<std::size_t>(q)].self, "copy", s.str() + ": what process " + std::to_string(r) + " knows about the mesh of process " + std::to_string(q) + " is not that mesh");
                               CHK(c, g.lv[q] == got[static_cast<std::size_t>(q)].own_lv, "copy-levels", "process " + std::to_string(r) + " holds levels " + std::to_string(g.lv[q][0]) + ".." + std::to_string(g.lv[q][1]) + " for process " + std::to_string(q));
                           }
                       }
                       u64 want = volume<D>(fo.ext) << (D * static_cast<std::size_t>(lmax - lmin));
                       CHK(c, all.size() == want, "lost", s.str() + ": the processes own " + std::to_string(all.size()) + " of the " + std::to_string(want) + " cells of the domain");
                       c.transitions(all.size());
                   }
                   c.outcome(mc::hash_str(str<D>(LCell<D>{p, fo.ext})));
               });
}

// a face of the leaf touches a finer leaf of another process
bool finer_remote(const Forest<D>& fo, const std::vector<LCell<D>>& lv, const Owner& own, const LCell<D>& x)
{
    LSet<D> leaves(lv.begin(), lv.end());
    for (std::size_t d = 0; d < D; ++d)
    {
        for (int s : {-1, 1})
        {
            LCell<D> y = x;
            y.p[d] += s;
            if (!fo.inside(y.level, y.p))
            {
                continue;
            }
            for (auto& z : children<D>(y))
            {
                if ((z.p[d] & 1) == (s < 0) && leaves.count(z) && own(z) != own(x))
                {
                    return true;
                }
            }
        }
    }
    return false;
}

// direction d of the velocity of the convection scheme
double velocity(std::size_t d)
{
    return d == 1 ? -0.5 : 1. + static_cast<double>(d);
}

// What a leaf gets when every face it shares with finer leaves of another process has one flux at the leaf's own level
// (known finding X01-jump) instead of the fluxes of the fine faces
double one_flux(const Forest<D>& fo, const std::vector<LCell<D>>& lv, const Owner& own, const Out& one, const LCell<D>& x)
{
    LSet<D> leaves(lv.begin(), lv.end());
    double r  = one.res.at(x)[0];
    double hc = 2. / (1 << x.level);
    auto flux = [&](std::size_t d, const LCell<D>& l, const LCell<D>& g)
    {
        auto& a  = one.val.at(l);
        auto& b  = one.val.at(g);
        double w = velocity(d);
        return (w > 0 ? w * a[0] : w * b[0]) - (b[1] - a[1]) / (2. / (1 << l.level));
    };
    for (std::size_t d = 0; d < D; ++d)
    {
        for (int s : {-1, 1})
        {
            LCell<D> y = x;
            y.p[d] += s;
            bool hit = false;
            double fine = 0;
            if (!fo.inside(y.level, y.p))
            {
                continue;
            }
            for (auto& z : children<D>(y))
            {
                if ((z.p[d] & 1) == (s < 0) && leaves.count(z) && own(z) != own(x))
                {
                    LCell<D> g = z;
                    g.p[d] -= s;
                    hit = true;
                    fine += flux(d, s > 0 ? g : z, s > 0 ? z : g) * std::pow(0.5, static_cast<int>(D) - 1) / hc;
                }
            }
            if (hit)
            {
                r += s * (flux(d, s > 0 ? x : y, s > 0 ? y : x) / hc - fine);
            }
        }
    }
    return r;
}

// --- ghosts and schemes -----------------------------------------------------------------------------------------------

void step_family(mc::Run& run, const std::string& nm, const Forest<D>& fo, int p, bool all, int many = 99, bool slabs = false, const Per& per = {})
{
    auto ids = graded_ids(fo, per, many);
    auto asv = assignments(fo, p, slabs);
    u64 asg  = asv.size();
    run.family(nm, "all graded forests of " + std::to_string(volume<D>(fo.ext)) + " roots of depth " + std::to_string(fo.depth) + " from level " + std::to_string(fo.L0) + limits(many, slabs) + ", all ways to share the roots among " + std::to_string(p) + " processes",
               ids.size() * asg,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   u64 a   = asv[dec.take(asg)];
                   auto lv = fo.leaves(ids[dec.take(ids.size())]);
                   std::string as;
                   Owner own = by_roots(fo, a, p, as);
                   DESC(c) << p << " processes, roots " << as << ", leaves " << str<D>(lv);
                   auto go = [&](const Owner& o, double stale)
                   {
                       return [&, o, stale](int r)
                       {
                           auto mesh = share(fo, per, lv, o, r);
                           Out out;
                           auto u = samurai::make_field<double, 1>("u", mesh);
                           auto v = samurai::make_field<double, 1>("v", mesh);
                           u.fill(stale);
                           v.fill(stale);
                           samurai::make_bc<samurai::Dirichlet<1>>(u, 0.5);
                           samurai::make_bc<samurai::Neumann<1>>(v, -1.25);
                           out.leaves = cells_of<D>(mesh[ID::cells]);
                           out.ref    = cells_of<D>(mesh[ID::reference]);
                           for (auto& x : out.leaves)
                           {
                               fat(u, cidx<D>(mesh, x), 0) = generic<D>(x, 0);
                               fat(v, cidx<D>(mesh, x), 0) = generic<D>(x, 1);
                           }
                           samurai::update_ghost_mr(u, v);
                           samurai::VelocityVector<D> vel;
                           for (std::size_t d = 0; d < D; ++d)
                           {
                               vel(d) = velocity(d);
                           }
                           auto conv = samurai::make_convection_upwind<decltype(u)>(vel);
                           auto diff = samurai::make_diffusion_order2<decltype(u)>();
                           auto w    = samurai::make_field<double, 1>("w", mesh);
                           w.fill(0.);
                           w         = conv(u) + diff(v);
                           out.val   = values<D>(u);
                           for (auto& [x, e] : values<D>(v))
                           {
                               out.val[x].push_back(e[0]);
                           }
                           out.res = values<D>(w);
                           return out;
                       };
                   };
                   Out one, two;
                   try
                   {
                       one = distributed<Out>(1, plain(1), go(nobody_else, -777.))[0];
                       two = distributed<Out>(1, plain(1), go(nobody_else, 555.))[0];
                   }
                   catch (const std::exception& e)
                   {
                       CHK(c, false, "sequential", e.what());
                       return;
                   }
                   u64 h = 1;
                   for (auto& s : schedules(p, all))
                   {
                       std::vector<Out> par;
                       try
                       {
                           par = distributed<Out>(p, s, go(own, -777.));
                       }
                       catch (const std::exception& e)
                       {
                           CHK(c, false, "run", s.str() + ": " + e.what());
                           return;
                       }
                       for (int r = 0; r < p; ++r)
                       {
                           auto& o = par[static_cast<std::size_t>(r)];
                           auto at = s.str() + ": process " + std::to_string(r) + " cell ";
                           for (auto& x : o.leaves)
                           {
                               if (!mc::close(o.res.at(x)[0], one.res.at(x)[0], 1e-10) && finer_remote(fo, lv, own, x) && mc::close(o.res.at(x)[0], one_flux(fo, lv, own, one, x), 1e-10))
                               {
                                   c.finding("remote-jump", "a leaf next to a finer leaf of another process does not get the fluxes of the fine faces");
                                   continue;
                               }
                               CHK(c, mc::close(o.res.at(x)[0], one.res.at(x)[0], 1e-10), "scheme", at + str<D>(x) + " gets " + num(o.res.at(x)[0]) + " from the scheme instead of " + num(one.res.at(x)[0]));
                           }
                           for (auto& x : o.ref)
                           {
                               if (!one.ref.count(x))
                               {
                                   continue;
                               }
                               for (std::size_t e = 0; e < 2; ++e)
                               {
                                   double w = one.val.at(x)[e];
                                   if (w != two.val.at(x)[e])
                                   {
                                       continue; // not set by the run on one process either
                                   }
                                   CHK(c, mc::close(o.val.at(x)[e], w, 1e-10), fo.inside(x.level, x.p) ? "ghost" : "outer-ghost", at + str<D>(x) + " field " + std::to_string(e) + " holds " + num(o.val.at(x)[e]) + " instead of " + num(w));
                                   c.transitions(1);
                                   h = mc::mix(h, static_cast<u64>(std::llround(w * 1e3)));
                               }
                           }
                       }
                   }
                   c.outcome(mc::mix(h, a));
               });
}

// --- adaptation -------------------------------------------------------------------------------------------------------

void adapt_family(mc::Run& run, const std::string& nm, const Forest<D>& fo, int p, bool all, int rounds, int many = 99, bool slabs = false, const Per& per = {})
{
    std::vector<std::pair<u64, u64>> cs;
    for (u64 i : graded_ids(fo, per, many))
    {
        for (u64 k = 0; k < fo.leaves(i).size() + 2; ++k)
        {
            cs.push_back({i, k});
        }
    }
    auto asv = assignments(fo, p, slabs);
    u64 asg  = asv.size();
    run.family(nm, "all graded forests of " + std::to_string(volume<D>(fo.ext)) + " roots of depth " + std::to_string(fo.depth) + " from level " + std::to_string(fo.L0) + limits(many, slabs) + ", a hump, a constant and a spike at each leaf, 3 thresholds, all ways to share the roots among " + std::to_string(p) + " processes, " + std::to_string(rounds) + " adaptations",
               cs.size() * asg * 3,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   u64 a      = asv[dec.take(asg)];
                   double eps = std::vector<double>{1e-7, 0.02, 0.6}[dec.take(3)];
                   auto ck    = cs[dec.take(cs.size())];
                   auto lv    = fo.leaves(ck.first);
                   std::string as;
                   Owner own = by_roots(fo, a, p, as);
                   DESC(c) << p << " processes, roots " << as << ", leaves " << str<D>(lv) << ", pattern " << ck.second << " eps " << eps;
                   auto go = [&](const Owner& o)
                   {
                       return [&, o](int r)
                       {
                           auto mesh = share(fo, per, lv, o, r);
                           Out out;
                           auto u = samurai::make_field<double, 1>("u", mesh);
                           auto w = samurai::make_field<double, 1>("w", mesh);
                           u.fill(-777);
                           w.fill(-777);
                           samurai::make_bc<samurai::Dirichlet<1>>(u, 0.);
                           samurai::make_bc<samurai::Neumann<1>>(w, 0.);
                           for (auto& x : cells_of<D>(mesh[ID::cells]))
                           {
                               fat(u, cidx<D>(mesh, x), 0) = pattern(fo, lv, ck.second, x);
                               fat(w, cidx<D>(mesh, x), 0) = generic<D>(x, 1);
                           }
                           auto ad = samurai::make_MRAdapt(u);
                           for (int k = 0; k < rounds; ++k)
                           {
                               ad(k ? 0.02 : eps, 1., w);
                           }
                           out.leaves = cells_of<D>(mesh[ID::cells]);
                           for (auto& x : out.leaves)
                           {
                               auto i     = cidx<D>(mesh, x);
                               out.val[x] = {fat(u, i, 0), fat(w, i, 0)};
                           }
                           return out;
                       };
                   };
                   Out one;
                   try
                   {
                       one = distributed<Out>(1, plain(1), go(nobody_else))[0];
                   }
                   catch (const std::exception& e)
                   {
                       CHK(c, false, "sequential", e.what());
                       return;
                   }
                   for (auto& s : schedules(p, all))
                   {
                       std::vector<Out> par;
                       try
                       {
                           par = distributed<Out>(p, s, go(own));
                       }
                       catch (const std::exception& e)
                       {
                           CHK(c, false, "run", s.str() + ": " + e.what());
                           return;
                       }
                       LSet<D> got;
                       for (int r = 0; r < p; ++r)
                       {
                           auto& o = par[static_cast<std::size_t>(r)];
                           for (auto& x : o.leaves)
                           {
                               CHK(c, got.insert(x).second, "twice", s.str() + ": two processes own leaf " + str<D>(x));
                               CHK(c, own(x) == r, "moved", s.str() + ": leaf " + str<D>(x) + " is on process " + std::to_string(r));
                               if (one.leaves.count(x))
                               {
                                   for (std::size_t e = 0; e < 2; ++e)
                                   {
                                       CHK(c, mc::close(o.val.at(x)[e], one.val.at(x)[e], 1e-10), "value", s.str() + ": leaf " + str<D>(x) + " of process " + std::to_string(r) + " field " + std::to_string(e) + " holds " + num(o.val.at(x)[e]) + " instead of " + num(one.val.at(x)[e]));
                                   }
                               }
                           }
                       }
                       CHK(c, got == one.leaves, "leaves", s.str() + ": adapted mesh " + str<D>(got) + " instead of " + str<D>(one.leaves));
                       c.transitions(got.size());
                   }
                   c.outcome(mc::hash_str(as + str<D>(one.leaves)));
               });
}

// --- the library's own partition, by rows of the finest level, adapted ------------------------------------------------

void native_family(mc::Run& run, const std::string& nm, const Forest<D>& fo, int p, bool all, int rounds)
{
    std::vector<LCell<D>> lv;
    Pos<D> hi;
    for (std::size_t d = 0; d < D; ++d)
    {
        hi[d] = fo.ext[d] << fo.depth;
    }
    for_box<D>(Pos<D>{}, hi,
               [&](const Pos<D>& q)
               {
                   lv.push_back({fo.ML(), q});
               });
    run.family(nm, "box of " + std::to_string(volume<D>(fo.ext)) + " cells of level " + std::to_string(fo.L0) + " shared by the library among " + std::to_string(p) + " processes at level " + std::to_string(fo.ML()) + ", a hump, a constant and a spike at each cell, 3 thresholds, " + std::to_string(rounds) + " adaptations",
               (lv.size() + 2) * 3,
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec dec(id);
                   double eps = std::vector<double>{1e-7, 0.02, 0.6}[dec.take(3)];
                   u64 k      = dec.take(lv.size() + 2);
                   DESC(c) << p << " processes, pattern " << k << " eps " << eps;
                   auto body = [&](int)
                   {
                       auto mesh = whole(fo, Per{});
                       Out out;
                       auto u = samurai::make_field<double, 1>("u", mesh);
                       u.fill(-777);
                       samurai::make_bc<samurai::Dirichlet<1>>(u, 0.);
                       for (auto& x : cells_of<D>(mesh[ID::cells]))
                       {
                           fat(u, cidx<D>(mesh, x), 0) = pattern(fo, lv, k, x);
                       }
                       auto ad = samurai::make_MRAdapt(u);
                       for (int q = 0; q < rounds; ++q)
                       {
                           ad(eps, 1.);
                       }
                       out.leaves = cells_of<D>(mesh[ID::cells]);
                       for (auto& x : out.leaves)
                       {
                           out.val[x] = {fat(u, cidx<D>(mesh, x), 0)};
                       }
                       return out;
                   };
                   std::vector<Out> first;
                   double mean = 0;
                   for (auto& x : lv)
                   {
                       mean += pattern(fo, lv, k, x) * std::pow(0.5, static_cast<int>(D) * x.level);
                   }
                   for (auto& s : schedules(p, all))
                   {
                       std::vector<Out> par;
                       try
                       {
                           par = distributed<Out>(p, s, body);
                       }
                       catch (const std::exception& e)
                       {
                           CHK(c, false, "run", s.str() + ": " + e.what());
                           return;
                       }
                       double vol = 0, sum = 0;
                       LSet<D> got;
                       for (int r = 0; r < p; ++r)
                       {
                           for (auto& x : par[static_cast<std::size_t>(r)].leaves)
                           {
                               CHK(c, got.insert(x).second, "twice", s.str() + ": two processes own leaf " + str<D>(x));
                               CHK(c, x.level >= fo.L0 && x.level <= fo.ML() && fo.inside(x.level, x.p), "outside", s.str() + ": leaf " + str<D>(x));
                               double v = std::pow(0.5, static_cast<int>(D) * x.level);
                               vol += v;
                               sum += v * par[static_cast<std::size_t>(r)].val.at(x)[0];
                           }
                       }
                       LeafMap<D> lm(std::vector<LCell<D>>(got.begin(), got.end()));
                       for (auto& x : got)
                       {
                           CHK(c, !lm.finer_below(x), "overlap", s.str() + ": leaf " + str<D>(x) + " overlaps finer leaves");
                       }
                       double want = static_cast<double>(volume<D>(fo.ext)) * std::pow(0.5, static_cast<int>(D) * fo.L0);
                       CHK(c, mc::close(vol, want), "tile", s.str() + ": the leaves of all processes do not tile the domain: " + str<D>(got));
                       CHK(c, graded<D>(fo, lm, Per{}), "graded", s.str() + ": not graded: " + str<D>(got));
                       CHK(c, mc::close(sum, mean, 1e-10), "mean", s.str() + ": the integral of the field is " + num(sum) + " instead of " + num(mean));
                       c.transitions(got.size());
                       if (first.empty())
                       {
                           first = par;
                           c.outcome(mc::hash_str(str<D>(got)));
                       }
                       for (int r = 0; r < p; ++r)
                       {
                           auto i = static_cast<std::size_t>(r);
                           CHK(c, first[i].leaves == par[i].leaves && first[i].val == par[i].val, "schedule", s.str() + ": the result of process " + std::to_string(r) + " depends on the schedule");
                       }
                   }
               });
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const Pos<D> o{};
    bool deep = run.thorough();
#if DIM == 1
    partition_family(run, 5, 5, 0, 3);
    partition_family(run, 4, 3, 0, 0);
    step_family(run, "s2_r3d2", {o, {3}, 0, 2}, 2, true);
    step_family(run, "s3_r4d2", {o, {4}, 1, 2}, 3, false, deep ? 99 : 1);
    step_family(run, "s2_r2d3", {o, {2}, 1, 3}, 2, true);
    adapt_family(run, "a2_r4d2", {o, {4}, 1, 2}, 2, deep, 1, deep ? 99 : 1);
    adapt_family(run, "a3_r4d2", {o, {4}, 1, 2}, 3, deep, 2, deep ? 99 : 1);
    adapt_family(run, "a2_r2d3", {o, {2}, 1, 3}, 2, deep, 1, deep ? 99 : 1);
#elif DIM == 2
    native_family(run, "n2", {o, {2, 2}, 1, 2}, 2, deep, 1);
    native_family(run, "n4", {o, {2, 4}, 1, 1}, 4, deep, 2);
    partition_family(run, 3, 5, 0, 2);
    partition_family(run, 4, 3, 0, 0);
    step_family(run, "s2_r4d1", {o, {2, 2}, 1, 1}, 2, true);
    step_family(run, "s3_r4d1", {o, {2, 2}, 1, 1}, 3, deep);
    step_family(run, "s2_r2d2", {o, {1, 2}, 0, 2}, 2, deep);
    step_family(run, "s2_r2d2x", {o, {2, 1}, 0, 2}, 2, deep);
    adapt_family(run, "a2_r4d1", {o, {2, 2}, 1, 1}, 2, deep, 1);
    adapt_family(run, "a2_r4d2", {o, {2, 2}, 1, 2}, 2, deep, 1, 1, true);
#else
    partition_family(run, 3, 4, 0, 1);
    step_family(run, "s2_r2d1", {o, {2, 1, 1}, 0, 1}, 2, true);
    step_family(run, "s2_r4d1", {o, {2, 1, 2}, 0, 1}, 2, deep);
    native_family(run, "n2", {o, {2, 2, 2}, 1, 1}, 2, deep, 1);
    adapt_family(run, "a2_r8d1", {o, {2, 2, 2}, 1, 1}, 2, deep, 1, 1, true);
#endif
    return run.finish();
}
