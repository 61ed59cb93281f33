// Stand-in for boost::mpi: the processes are coroutines of one thread, switched only inside message-passing calls, under a
// controlled scheduler.  Point-to-point messages are matched by (source, tag) in order; a send completes when its message
// has been received (the strictest progress rule MPI allows), so programs relying on buffering deadlock here.
#pragma once
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/vector.hpp>
#include <algorithm>
#include <cstdint>
#include <deque>
#include <functional>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <ucontext.h>
#include <vector>

inline double MPI_Wtime()
{
    return 0.;
}

template <class... A>
inline int MPI_Init(A...)
{
    return 0;
}

inline int MPI_Finalize()
{
    return 0;
}

namespace mpisim
{
    struct Failure : std::runtime_error
    {
        using std::runtime_error::runtime_error;
    };

    struct Message
    {
        int tag;
        std::string data;                  // eager copy
        std::function<std::string()> late; // reads the sender's buffer when the message is received
        bool done = false;
    };

    struct Collective
    {
        std::string kind;
        std::vector<std::string> parts;
        int have = 0;
    };

    struct Proc
    {
        ucontext_t ctx;
        std::unique_ptr<char[]> stack;
        bool finished = false;
        std::function<bool()> ready; // empty: runnable
        std::size_t collectives = 0;
        std::exception_ptr error;
    };

    struct World
    {
        int size = 1, rank = 0;
        bool late = false;
        std::vector<int> prio; // the runnable process with the smallest value goes next
        bool eager_switch = false;
        ucontext_t main;
        std::vector<std::unique_ptr<Proc>> procs;
        std::vector<std::deque<std::shared_ptr<Message>>> chan; // [source * size + destination]
        std::vector<Collective> coll;
        std::function<void(int)> body;
        std::uint64_t messages = 0, switches = 0;
    };

    inline World*& world()
    {
        static World* w = nullptr;
        return w;
    }

    inline void entry()
    {
        World* w = world();
        Proc& p  = *w->procs[static_cast<std::size_t>(w->rank)];
        try
        {
            w->body(w->rank);
        }
        catch (...)
        {
            p.error = std::current_exception();
        }
        p.finished = true;
        swapcontext(&p.ctx, &w->main);
    }

    // give up control until `ready`
    inline void block(std::function<bool()> ready)
    {
        World* w = world();
        if (w->procs.empty())
        {
            if (!ready())
            {
                throw Failure("a lone process waits for ever");
            }
            return;
        }
        int me  = w->rank;
        Proc& p = *w->procs[static_cast<std::size_t>(me)];
        if (!w->eager_switch && ready())
        {
            return;
        }
        p.ready = std::move(ready);
        swapcontext(&p.ctx, &w->main);
    }

    // objects are packed when they are sent; arrays of numbers are read until the send completes
    template <class T>
    struct is_buffer : std::is_arithmetic<T>
    {
    };

    template <class T>
    struct is_buffer<std::vector<T>> : std::is_arithmetic<T>
    {
    };

    template <class T>
    std::string pack(const T& v)
    {
        std::ostringstream os;
        {
            boost::archive::binary_oarchive ar(os, boost::archive::no_header | boost::archive::no_codecvt);
            ar << v;
        }
        return os.str();
    }

    template <class T>
    void unpack(const std::string& s, T& v)
    {
        std::istringstream is(s);
        boost::archive::binary_iarchive ar(is, boost::archive::no_header | boost::archive::no_codecvt);
        ar >> v;
    }

    // run `body` on `size` processes; throws on deadlock, mismatch or the first error of a process
    inline void run(int size, const std::vector<int>& prio, bool late, bool eager_switch, const std::function<void(int)>& body, World* out = nullptr)
    {
        World w;
        w.size         = size;
        w.late         = late;
        w.prio         = prio;
        w.eager_switch = eager_switch;
        w.body         = body;
        w.chan.resize(static_cast<std::size_t>(size * size));
        World* before = world();
        world()       = &w;
        for (int r = 0; r < size; ++r)
        {
            w.procs.push_back(std::make_unique<Proc>());
            Proc& p = *w.procs.back();
            constexpr std::size_t stack_size = 4 << 20;
            p.stack.reset(new char[stack_size]);
            getcontext(&p.ctx);
            p.ctx.uc_stack.ss_sp   = p.stack.get();
            p.ctx.uc_stack.ss_size = stack_size;
            p.ctx.uc_link          = nullptr;
            makecontext(&p.ctx, entry, 0);
        }
        std::string fail;
        std::exception_ptr err;
        while (true)
        {
            int best = -1, alive = 0;
            for (int r = 0; r < size; ++r)
            {
                Proc& p = *w.procs[static_cast<std::size_t>(r)];
                if (p.finished)
                {
                    continue;
                }
                ++alive;
                if ((!p.ready || p.ready()) && (best < 0 || w.prio[static_cast<std::size_t>(r)] < w.prio[static_cast<std::size_t>(best)]))
                {
                    best = r;
                }
            }
            if (!alive)
            {
                break;
            }
            if (best < 0)
            {
                fail = "deadlock: " + std::to_string(alive) + " processes wait for ever";
                break;
            }
            Proc& p = *w.procs[static_cast<std::size_t>(best)];
            p.ready = nullptr;
            w.rank  = best;
            ++w.switches;
            if (w.eager_switch) // rotate
            {
                int mx = *std::max_element(w.prio.begin(), w.prio.end());
                w.prio[static_cast<std::size_t>(best)] = mx + 1;
            }
            swapcontext(&w.main, &p.ctx);
            if (p.error)
            {
                err = p.error;
                break;
            }
        }
        world() = before;
        if (err)
        {
            std::rethrow_exception(err);
        }
        if (!fail.empty())
        {
            throw Failure(fail);
        }
        for (auto& q : w.chan)
        {
            for (auto& m : q)
            {
                if (!m->done)
                {
                    throw Failure("a message with tag " + std::to_string(m->tag) + " is never received");
                }
            }
        }
        if (out)
        {
            out->messages = w.messages;
            out->switches = w.switches;
        }
    }
}

namespace boost
{
    namespace mpi
    {
        class request
        {
          public:

            std::shared_ptr<mpisim::Message> m;
            std::shared_ptr<std::function<void()>> rcv; // receive still to be done

            void wait()
            {
                if (rcv && *rcv)
                {
                    (*rcv)();
                    *rcv = nullptr;
                }
                if (m)
                {
                    auto k = m;
                    mpisim::block(
                        [k]()
                        {
                            return k->done;
                        });
                }
            }
        };

        class communicator
        {
          public:

            int rank() const
            {
                return mpisim::world() ? mpisim::world()->rank : 0;
            }

            int size() const
            {
                return mpisim::world() ? mpisim::world()->size : 1;
            }

            template <class T>
            request isend(int dest, int tag, const T& v) const
            {
                auto* w = mpisim::world();
                if (dest < 0 || dest >= size() || dest == rank())
                {
                    throw mpisim::Failure("send to process " + std::to_string(dest));
                }
                auto m = std::make_shared<mpisim::Message>();
                m->tag = tag;
                if (w->late && mpisim::is_buffer<T>::value)
                {
                    const T* p = &v;
                    m->late    = [p]()
                    {
                        return mpisim::pack(*p);
                    };
                }
                else
                {
                    m->data = mpisim::pack(v);
                }
                w->chan[static_cast<std::size_t>(rank() * size() + dest)].push_back(m);
                ++w->messages;
                mpisim::block(
                    []()
                    {
                        return true;
                    });
                return request{m, nullptr};
            }

            template <class T>
            void send(int dest, int tag, const T& v) const
            {
                isend(dest, tag, v).wait();
            }

            template <class T>
            request irecv(int src, int tag, T& v) const
            {
                auto me = *this;
                T* p    = &v;
                return request{nullptr, std::make_shared<std::function<void()>>([me, src, tag, p]()
                                                                                {
                                                                                    me.recv(src, tag, *p);
                                                                                })};
            }

            template <class T>
            void recv(int src, int tag, T& v) const
            {
                auto* w = mpisim::world();
                if (src < 0 || src >= size() || src == rank())
                {
                    throw mpisim::Failure("receive from process " + std::to_string(src));
                }
                auto& q = w->chan[static_cast<std::size_t>(src * size() + rank())];
                std::shared_ptr<mpisim::Message> m;
                auto find = [&q, tag]()
                {
                    return std::find_if(q.begin(), q.end(),
                                        [&](auto& x)
                                        {
                                            return !x->done && x->tag == tag;
                                        });
                };
                mpisim::block(
                    [&]()
                    {
                        return find() != q.end();
                    });
                auto it = find();
                m       = *it;
                m->done = true;
                q.erase(it);
                mpisim::unpack(m->late ? m->late() : m->data, v);
            }

            void barrier() const;
        };

        template <class It>
        void wait_all(It a, It b)
        {
            std::vector<std::shared_ptr<mpisim::Message>> ms;
            for (; a != b; ++a)
            {
                if (a->rcv)
                {
                    a->wait();
                }
                if (a->m)
                {
                    ms.push_back(a->m);
                }
            }
            mpisim::block(
                [ms]()
                {
                    return std::all_of(ms.begin(), ms.end(),
                                       [](auto& m)
                                       {
                                           return m->done;
                                       });
                });
        }

        template <class T>
        struct maximum
        {
            T operator()(const T& a, const T& b) const
            {
                return a < b ? b : a;
            }
        };

        template <class T>
        struct minimum
        {
            T operator()(const T& a, const T& b) const
            {
                return b < a ? b : a;
            }
        };

        namespace detail
        {
            template <class T>
            std::deque<T> gather(const std::string& kind, const T& v)
            {
                auto* w = mpisim::world();
                if (!w || w->procs.empty())
                {
                    return {v};
                }
                auto& p       = *w->procs[static_cast<std::size_t>(w->rank)];
                std::size_t k = p.collectives++;
                if (w->coll.size() <= k)
                {
                    w->coll.resize(k + 1);
                }
                auto& c = w->coll[k];
                if (c.parts.empty())
                {
                    c.kind = kind;
                    c.parts.resize(static_cast<std::size_t>(w->size));
                }
                if (c.kind != kind)
                {
                    throw mpisim::Failure("processes take part in different collective operations: " + c.kind + " and " + kind);
                }
                c.parts[static_cast<std::size_t>(w->rank)] = mpisim::pack(v);
                ++c.have;
                int n = w->size;
                mpisim::block(
                    [w, k, n]()
                    {
                        return w->coll[k].have == n;
                    });
                std::deque<T> all(static_cast<std::size_t>(n));
                for (int r = 0; r < n; ++r)
                {
                    mpisim::unpack(w->coll[k].parts[static_cast<std::size_t>(r)], all[static_cast<std::size_t>(r)]);
                }
                return all;
            }
        }

        template <class T, class Op>
        T all_reduce(const communicator&, const T& v, Op op)
        {
            auto all = detail::gather(std::string("all_reduce ") + typeid(Op).name(), v);
            T r      = all[0];
            for (std::size_t k = 1; k < all.size(); ++k)
            {
                r = op(r, all[k]);
            }
            return r;
        }

        template <class T>
        void all_gather(const communicator&, const T& v, std::vector<T>& out)
        {
            auto all = detail::gather(std::string("all_gather ") + typeid(T).name(), v);
            out.assign(all.begin(), all.end());
        }

        template <class T, class It>
        void all_gather(const communicator&, const T& v, It out)
        {
            auto all = detail::gather(std::string("all_gather ") + typeid(T).name(), v);
            std::copy(all.begin(), all.end(), out);
        }

        inline void communicator::barrier() const
        {
            detail::gather("barrier", 0);
        }

        // only named by code that is compiled but not run here
        template <class... A>
        auto reduce(A&&...)
        {
        }

        class environment
        {
          public:

            template <class... A>
            environment(A&&...)
            {
            }
        };
    }
}
