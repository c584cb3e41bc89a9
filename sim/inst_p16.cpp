// P16: the task pool, queue, semaphore and result collection of async.hpp. This file is compiled with
// the same instrumentation as the library, because that code is all templates and inline functions.
#include "async.hpp"
#include "hist16.h"
#include "place.h"
#include <map>
#include <set>
#include <system_error>
#include <thread>
namespace scen {
using h16::add;
using h16::bump;
using h16::now;
using h16::val;
enum { C_RUN = 1, C_HOLD, C_MAXHOLD, E_PUSH, E_POP, E_POPEMPTY, E_EMPTY1, E_EMPTY0, C_DONE };
static void work(u64 id, u32 yields)
{
    bump(C_RUN, id, 1);
    for (u32 i = 0; i < yields; i++)
        std::this_thread::yield();
    bump(C_DONE, id, 1);
}
static void pool_mode(Rng g)
{
    u32 nw = (u32)g.range(1, 4), np = (u32)g.range(1, 3);
    bool early = g.chance(0.5), use_wait_all = g.chance(0.25), sched = g.chance(0.15);
    if (g.chance(0.35))
        cfg.p_thread_fail = 0.15;
    cfg.ncpu = (int)nw;
    // producer p submits n[p] tasks
    V<V<std::pair<u32, u32>>> plan_; // per producer: (operation, behaviour)
    u32 ops = 0;
    for (u32 p = 0; p < np; p++) {
        V<std::pair<u32, u32>> v;
        for (u32 i = 0, n = (u32)g.range(1, 6); i < n; i++)
            v.push_back({ops++, (u32)g.below(10)});
        plan_.push_back(v);
    }
    sh->ops = ops;
    start(0);
    UP<eg::ThreadPool> pool;
    for (int attempt = 0; attempt < 20 && !sched; attempt++) {
        bool ok = false;
        std::string err;
        {
            Lib l;
            try {
                pool = std::make_unique<eg::ThreadPool>(nw);
                ok = true;
            } catch (const std::system_error &e) {
                err = e.what();
            } catch (const std::exception &e) {
                err = e.what();
            }
        }
        if (ok)
            break;
        if (cfg.p_thread_fail == 0 && !spec.replay)
            violation("pool-start", "starting a pool of %u threads failed although every thread could be started: %s", nw, err.c_str());
        probe(PR_FAULT_RETRY);
        eval();
        if (attempt > 3)
            cfg.p_thread_fail = 0;
    }
    cfg.p_thread_fail = 0;
    if (!pool && !sched)
        violation("pool-start", "the pool never started");
    if (sched) {
        Lib l;
        eg::Scheduler::submit([] { return 1; }).get();
    }
    struct F { u32 op, kind; std::future<u64> f; std::future<UP<u64>> w; std::future<void> v; };
    V<V<F>> fut(np);
    for (auto &v : fut)
        v.reserve(8);
    auto producer = [&](u32 p) {
        for (auto &[op, kind] : plan_[p]) {
            if (dropped(op))
                continue;
            ctx(op);
            F f;
            f.op = op;
            f.kind = kind;
            u32 id = op, y = kind % 4;
            u64 arg;
            (void)arg;
            bool thrown = false;
            {
                Lib l;
                try {
                    if (use_wait_all) {
                        auto t = [id, y] {
                            work(id, y);
                            return std::make_unique<u64>(id * 7 + 1);
                        };
                        f.w = sched ? eg::Scheduler::submit(t) : pool->submit(t);
                    } else if (kind == 9) {
                        auto t = [id, y]() -> void { work(id, y); };
                        f.v = sched ? eg::Scheduler::submit(t) : pool->submit(t);
                    } else if (kind >= 7) {
                        auto t = [id, y]() -> u64 {
                            work(id, y);
                            throw std::runtime_error("task " + std::to_string(id));
                        };
                        f.f = sched ? eg::Scheduler::submit(t) : pool->submit(t);
                    } else {
                        auto t = [id, y]() -> u64 {
                            work(id, y);
                            return id * 7 + 1;
                        };
                        f.f = sched ? eg::Scheduler::submit(t) : pool->submit(t);
                    }
                } catch (const std::exception &e) {
                    thrown = true;
                }
            }
            if (thrown)
                violation("submit-failed", "submitting a task threw without any fault");
            probe(PR_TASKS);
            fut[p].push_back(std::move(f));
            // sometimes collect at once
            if (!use_wait_all && kind == 3 && fut[p].back().f.valid()) {
                u64 r;
                {
                    Lib l;
                    fut[p].back().f.wait();
                    r = fut[p].back().f.get();
                }
                if (r != id * 7 + 1)
                    violation("wrong-result", "task %u returned %lu", id, (unsigned long)r);
                eval();
            }
        }
        ctx(CTX_NONE);
    };
    if (np == 1)
        producer(0);
    else {
        V<int> t;
        for (u32 p = 0; p < np; p++)
            t.push_back(spawn([&, p] { producer(p); }, "producer"));
        for (int x : t)
            join(x);
    }
    auto collect = [&] {
        for (u32 p = 0; p < np; p++) {
            if (use_wait_all) {
                std::vector<std::future<UP<u64>>> ws;
                std::multiset<u64> want, got;
                for (auto &f : fut[p]) {
                    ws.push_back(std::move(f.w));
                    want.insert(f.op * 7 + 1);
                }
                std::vector<UP<u64>> r;
                {
                    Lib l;
                    r = eg::wait_all(ws);
                }
                for (auto &x : r)
                    got.insert(x ? *x : 0);
                if (want != got)
                    violation("wait-all", "waiting for %zu tasks returned %zu results, not exactly one per task", want.size(), got.size());
                eval();
                continue;
            }
            for (auto &f : fut[p]) {
                u64 r = 0;
                int how = 0;
                std::string err;
                if (f.kind == 9) {
                    Lib l;
                    try {
                        f.v.get();
                    } catch (const std::exception &e) {
                        how = 1;
                        err = e.what();
                    }
                } else if (f.f.valid()) {
                    Lib l;
                    try {
                        r = f.f.get();
                    } catch (const std::future_error &e) {
                        how = 2;
                        err = e.what();
                    } catch (const std::exception &e) {
                        how = 1;
                        err = e.what();
                    }
                } else
                    continue;
                eval();
                if (f.kind == 9 ? how != 0 : f.kind >= 7 ? how != 1 || err != "task " + std::to_string(f.op) : how != 0 || r != f.op * 7 + 1)
                    violation("lost-result", "the result of task %u did not reach the caller: %s", f.op, err.c_str());
            }
        }
    };
    if (!early || sched)
        collect();
    if (!sched) {
        Lib l;
        pool.reset();
    }
    if (early && !sched) {
        // every accepted task has to have run to its end before shutdown ended
        for (u32 p = 0; p < np; p++)
            for (auto &f : fut[p])
                if (val(C_DONE, f.op) != 1)
                    violation("lost-task", "task %u was accepted but had %s when the pool had shut down", f.op, val(C_RUN, f.op) ? "not finished" : "not run");
        collect();
    }
    for (u32 p = 0; p < np; p++)
        for (auto &f : fut[p]) {
            if (val(C_RUN, f.op) != 1)
                violation("not-once", "task %u ran %lu times", f.op, (unsigned long)val(C_RUN, f.op));
            eval();
        }
    sample(fmt("%s of %u threads, %u producers, %u tasks, %s shutdown%s", sched ? "shared scheduler" : "pool", nw, np, ops, early ? "immediate" : "late", use_wait_all ? ", wait_all" : ""));
}
template <class T> static T item(u64 v);
template <> u64 item<u64>(u64 v) { return v; }
template <> S item<S>(u64 v) { return "item number " + std::to_string(v); }
static u64 un(u64 v) { return v; }
static u64 un(const S &s) { return s.size() > 12 ? strtoull(s.c_str() + 12, nullptr, 10) : ~0ull; }
template <class T> static void queue_mode(Rng g)
{
    u32 np = (u32)g.range(1, 3), nc = (u32)g.range(1, 3), per = (u32)g.range(1, 8);
    sh->ops = np * per;
    start(0);
    UP<eg::AsyncQueue<T>> q;
    {
        Lib l;
        q = std::make_unique<eg::AsyncQueue<T>>();
    }
    V<int> tids;
    for (u32 p = 0; p < np; p++)
        tids.push_back(spawn([&, p] {
            for (u32 i = 0; i < per; i++) {
                u32 op = p * per + i;
                if (dropped(op))
                    continue;
                ctx(op);
                u64 t0 = now();
                {
                    Lib l;
                    q->push(item<T>(op));
                }
                add(E_PUSH, op, p, t0, now());
                probe(PR_ITEMS);
            }
            ctx(CTX_NONE);
        }, "producer"));
    for (u32 c = 0; c < nc; c++)
        tids.push_back(spawn([&, c] {
            Rng r = gen(1600 + c);
            int dry = 0;
            for (u32 i = 0; i < 3 * np * per && dry < 12; i++) {
                int k = (int)r.below(5);
                u64 t0 = now();
                if (k == 0) {
                    bool e;
                    {
                        Lib l;
                        e = q->empty();
                    }
                    add(e ? E_EMPTY1 : E_EMPTY0, 0, c, t0, now());
                    continue;
                }
                bool got = false;
                u64 v = ~0ull;
                if (k <= 2) {
                    T x{};
                    {
                        Lib l;
                        got = q->pop(x);
                    }
                    if (got)
                        v = un(x);
                } else {
                    std::shared_ptr<T> x;
                    {
                        Lib l;
                        x = q->pop();
                    }
                    if (x) {
                        got = true;
                        v = un(*x);
                    }
                }
                add(got ? E_POP : E_POPEMPTY, v, c, t0, now());
                dry = got ? 0 : dry + 1;
                if (!got)
                    yield_point();
            }
        }, "consumer"));
    for (int t : tids)
        join(t);
    // what is left comes out in order
    for (;;) {
        u64 t0 = now();
        T x{};
        bool got;
        {
            Lib l;
            got = q->pop(x);
        }
        if (!got) {
            add(E_POPEMPTY, 0, 99, t0, now());
            break;
        }
        add(E_POP, un(x), 99, t0, now());
    }
    {
        Lib l;
        q.reset();
    }
    // ---- the recorded history
    std::map<u64, int> pops;
    V<h16::Ev> E;
    for (size_t i = 0; i < h16::size(); i++)
        E.push_back(h16::get(i));
    std::map<u64, h16::Ev> push;
    for (auto &e : E)
        if (e.kind == E_PUSH)
            push[e.a] = e;
    for (auto &e : E)
        if (e.kind == E_POP) {
            if (!push.count(e.a))
                violation("invented-item", "an item came out that nobody put in (%lu)", (unsigned long)e.a);
            if (++pops[e.a] > 1)
                violation("doubled-item", "item %lu came out twice", (unsigned long)e.a);
            if (e.t1 < push[e.a].t0)
                violation("invented-item", "item %lu came out before it was put in", (unsigned long)e.a);
        }
    for (auto &p : push)
        if (!pops[p.first])
            violation("lost-item", "item %lu never came out", (unsigned long)p.first);
    // order: if a was put in completely before b, b may not be completely taken out before a's removal began
    std::map<u64, h16::Ev> pop;
    for (auto &e : E)
        if (e.kind == E_POP)
            pop[e.a] = e;
    for (auto &a : push)
        for (auto &b : push)
            if (a.second.t1 < b.second.t0 && pop[b.first].t1 < pop[a.first].t0)
                violation("order", "item %lu was put in before item %lu but came out after it", (unsigned long)a.first, (unsigned long)b.first);
    for (auto &e : E)
        if (e.kind == E_POPEMPTY || e.kind == E_EMPTY1) {
            size_t in = 0, out = 0;
            for (auto &x : E) {
                if (x.kind == E_PUSH && x.t1 < e.t0)
                    in++;
                if (x.kind == E_POP && x.t0 < e.t1)
                    out++;
            }
            if (in > out)
                violation("false-empty", "the queue claimed to be empty while at least %zu items were in it", in - out);
        } else if (e.kind == E_EMPTY0) {
            size_t in = 0, out = 0;
            for (auto &x : E) {
                if (x.kind == E_PUSH && x.t0 < e.t1)
                    in++;
                if (x.kind == E_POP && x.t1 < e.t0)
                    out++;
            }
            if (in <= out)
                violation("false-full", "the queue claimed to hold something while it was empty");
        }
    eval(E.size());
    sample(fmt("queue: %u producers, %u consumers, %u items each", np, nc, per));
}
static void sem_mode(Rng g)
{
    u32 c = (u32)g.range(1, 3), n = (u32)g.range(2, 5), per = (u32)g.range(1, 4);
    sh->ops = n * per;
    start(0);
    UP<eg::AsyncSemaphore> s;
    {
        Lib l;
        s = std::make_unique<eg::AsyncSemaphore>(c);
    }
    V<int> tids;
    for (u32 t = 0; t < n; t++)
        tids.push_back(spawn([&, t] {
            Rng r = gen(1700 + t);
            for (u32 i = 0; i < per; i++) {
                int k = (int)r.below(5), y = (int)r.below(6);
                if (dropped(t * per + i))
                    continue;
                ctx(t * per + i);
                if (k == 0) {
                    Lib l;
                    s->wait();
                } else if (k == 1) {
                    size_t v;
                    {
                        Lib l;
                        v = s->getCount();
                    }
                    if (v > c)
                        violation("semaphore-count", "the count is %zu, more than the %u it was made with", v, c);
                } else {
                    {
                        Lib l;
                        s->lock();
                    }
                    u64 h = bump(C_HOLD, 0, 1);
                    if (h > c)
                        violation("too-many-holders", "%lu threads hold a semaphore of %u", (unsigned long)h, c);
                    for (int j = 0; j < y; j++)
                        std::this_thread::yield();
                    eval();
                    bump(C_HOLD, 0, -1);
                    Lib l;
                    s->unlock();
                }
            }
            ctx(CTX_NONE);
        }, "holder"));
    for (int t : tids)
        join(t);
    size_t v;
    {
        Lib l;
        v = s->getCount();
    }
    if (v != c)
        violation("semaphore-count", "after everybody left the count is %zu instead of %u", v, c);
    eval();
    sample(fmt("semaphore of %u, %u threads, %u entries each", c, n, per));
}
void p16(u32)
{
    cfg.race_fatal = true;
    h16::reset();
    cfg.quantum = 3000;
    cfg.step_cap = 30000000;
    Rng g = gen(16);
    if (g.chance(0.5))
        cfg.p_spurious = 0.3;
    if (g.chance(0.2))
        cfg.p_stall = 0.02;
    int m = (int)g.below(10);
    if (m < 5)
        pool_mode(g);
    else if (m < 7)
        queue_mode<u64>(g);
    else if (m < 8)
        queue_mode<S>(g);
    else
        sem_mode(g);
}
} // namespace scen
