// Task runners: order, exclusion and completeness of the tasks of a sequenced runner; parallel runners.
// SOURCES: fly/task/task_manager.cpp fly/task/task_runner.cpp
// FLAGS: -O1 -fsanitize=thread -pthread
#include "tasks.hpp"
struct Owner { std::atomic<int> touched {0}; };

// A script of tasks: each runs, and may post further tasks and have a reply; the expected order is that of a plain queue.
struct Node
{
    U id = 0;
    int kind = 0;            // 0 plain, 1 with reply, 2 void with reply, 3 owned, 4 owned with reply, 5 gone owner, 6 gone owner with reply, 7 owned void with reply
    std::vector<Node> posts; // posted while it runs
};
static U g_id;
static Node script(int depth)
{
    Node n;
    n.id = ++g_id;
    n.kind = static_cast<int>(drv::rnd(8));
    if (depth > 0 && n.kind != 5 && n.kind != 6)
        for (U i = drv::rnd(3); i > 0; --i) n.posts.push_back(script(depth - 1));
    return n;
}
struct World
{
    std::shared_ptr<SequencedTaskRunner> runner;
    Journal j;
    std::shared_ptr<Owner> owner = std::make_shared<Owner>();
    std::weak_ptr<Owner> gone = std::make_shared<Owner>();
    std::atomic<bool> refused {false}, wrong {false};
    void post(Node const &n)
    {
        auto body = [this, n] { j.run(n.id); for (auto const &m : n.posts) post(m); };
        auto reply = [this, n](U r) { if (r != n.id * 3) wrong = true; j.run(n.id | U(1) << 40); };
        std::weak_ptr<Owner> w = owner;
        bool ok = true;
        switch (n.kind)
        {
            case 0: ok = runner->post_task(FROM_HERE, body); break;
            case 1: ok = runner->post_task_with_reply(FROM_HERE, [body, n] { body(); return n.id * 3; }, reply); break;
            case 2: ok = runner->post_task_with_reply(FROM_HERE, body, [reply, n] { reply(n.id * 3); }); break;
            case 3: ok = runner->post_task(FROM_HERE, w, [body, this](std::shared_ptr<Owner> o) { if (o != owner) wrong = true; body(); }); break;
            case 4: ok = runner->post_task_with_reply(FROM_HERE, w, [body, n, this](std::shared_ptr<Owner> o) { if (o != owner) wrong = true; body(); return n.id * 3; }, [reply, this](U r, std::shared_ptr<Owner> o) { if (o != owner) wrong = true; reply(r); }); break;
            case 5: ok = runner->post_task(FROM_HERE, gone, [this](std::shared_ptr<Owner>) { wrong = true; }); break;
            case 6: ok = runner->post_task_with_reply(FROM_HERE, gone, [this](std::shared_ptr<Owner>) { wrong = true; return U(1); }, [this](U, std::shared_ptr<Owner>) { wrong = true; }); break;
            case 7: ok = runner->post_task_with_reply(FROM_HERE, w, [body](std::shared_ptr<Owner>) { body(); }, [reply, n](std::shared_ptr<Owner>) { reply(n.id * 3); }); break;
        }
        if (!ok) refused = true;
    }
};
static void scripted(Manager &m, U threads)
{
    auto wp = std::make_unique<World>();
    World &w = *wp;
    w.runner = SequencedTaskRunner::create(m.m);
    g_id = drv::rnd(64);
    std::vector<Node> top;
    for (U i = 1 + drv::rnd(12); i > 0; --i) top.push_back(script(3));
    std::vector<U> want;
    std::deque<std::pair<Node const *, bool>> q;
    for (auto const &n : top) q.emplace_back(&n, false);
    while (!q.empty())
    {
        auto [n, reply] = q.front();
        q.pop_front();
        if (n->kind == 5 || n->kind == 6) continue;
        want.push_back(reply ? n->id | U(1) << 40 : n->id);
        if (reply) continue;
        for (auto const &c : n->posts) q.emplace_back(&c, false);
        if (n->kind == 1 || n->kind == 2 || n->kind == 4 || n->kind == 7) q.emplace_back(n, true);
    }
    std::string const at = std::to_string(top.size()) + " tasks posted to a sequenced runner, " + std::to_string(threads) + " threads: ";
    std::atomic<bool> gate {false}, started {false};
    bool const gated = true;
    if (!w.runner->post_task(FROM_HERE, [&] { started = true; while (!gate) std::this_thread::sleep_for(100us); })) drv::fail(at + "a task is refused");
    for (auto const &n : top) w.post(n);
    if (w.j.count != 0) drv::fail(at + "a task starts before the one posted earlier completes");
    gate = gated;
    if (!eventually([&] { return w.j.count >= want.size(); })) drv::fail(at + "only " + std::to_string(w.j.count) + " of " + std::to_string(want.size()) + " tasks run");
    // what runs after the last expected task?
    std::atomic<bool> end {false};
    w.runner->post_task(FROM_HERE, [&] { end = true; });
    if (!eventually([&] { return end.load(); })) drv::fail(at + "a task posted when all have completed does not run");
    std::lock_guard<std::mutex> g(w.j.lock);
    if (w.j.ran != want) drv::fail(at + "they run as " + list(w.j.ran) + ", not as " + list(want));
    if (w.j.overlap) drv::fail(at + "they overlap");
    if (w.refused) drv::fail(at + "a task is refused while its manager lives");
    if (w.wrong) drv::fail(at + "a task runs without its owner, or a reply has another result");
}
// several threads post to several runners
static void stress(Manager &m, U threads)
{
    U const posters = 1 + drv::rnd(4), runners = 1 + drv::rnd(3), each = 1 + drv::rnd(300);
    std::string const at = std::to_string(posters) + " threads post " + std::to_string(each) + " tasks each to " + std::to_string(runners) + " sequenced runners, " + std::to_string(threads) + " threads: ";
    struct R { std::shared_ptr<SequencedTaskRunner> r; Journal j; };
    std::deque<R> rs(runners);
    for (auto &r : rs) r.r = SequencedTaskRunner::create(m.m);
    std::atomic<bool> refused {false};
    std::vector<std::thread> ts;
    U const how = drv::rnd(3);
    for (U p = 0; p < posters; ++p)
        ts.emplace_back([&, p] {
            for (U i = 0; i < each; ++i)
                for (auto &r : rs)
                {
                    U const id = p << 32 | i;
                    if (!r.r->post_task(FROM_HERE, [&r, id] { r.j.run(id); })) refused = true;
                    if (how == 1 && (i & 15) == 0) std::this_thread::sleep_for(100us);
                    // let the queue run empty
                    if (how == 2 && (i & 3) == 0) for (int k = 0; k < 50 && r.j.count < i; ++k) std::this_thread::sleep_for(20us);
                }
        });
    for (auto &t : ts) t.join();
    for (auto &r : rs)
        if (!eventually([&] { return r.j.count >= posters * each; })) drv::fail(at + "only " + std::to_string(r.j.count) + " of " + std::to_string(posters * each) + " tasks of a runner run");
    for (auto &r : rs)
    {
        std::lock_guard<std::mutex> g(r.j.lock);
        if (r.j.overlap) drv::fail(at + "tasks overlap");
        if (r.j.ran.size() != posters * each) drv::fail(at + "a task runs twice");
        std::map<U, U> next;
        for (U id : r.j.ran)
            if ((id & 0xffffffff) != next[id >> 32]++) drv::fail(at + "the tasks of a thread do not run in the order it posted them");
    }
    if (refused) drv::fail(at + "a task is refused while its manager lives");
}
static void parallel(Manager &m, U threads)
{
    std::string const at = "parallel runner, " + std::to_string(threads) + " threads: ";
    auto r = ParallelTaskRunner::create(m.m);
    std::atomic<U> ran {0};
    std::vector<std::atomic<int>> times(64);
    U const n = 1 + drv::rnd(63);
    bool ok = true;
    for (U i = 0; i < n; ++i) ok = r->post_task(FROM_HERE, [&, i] { ++times[i]; ++ran; }) && ok;
    if (!ok) drv::fail(at + "a task is refused while its manager lives");
    if (!eventually([&] { return ran >= n; })) drv::fail(at + "only " + std::to_string(ran) + " of " + std::to_string(n) + " tasks run");
    std::atomic<int> reply {0}, result {0};
    r->post_task_with_reply(FROM_HERE, [] { return 12; }, [&](int v) { result = v; ++reply; });
    if (!eventually([&] { return reply == 1; }) || result != 12) drv::fail(at + "the reply to a task does not run with its result");
    for (U i = 0; i < n; ++i) if (times[i] != 1) drv::fail(at + "a task runs " + std::to_string(times[i]) + " times");
    // as many tasks as threads wait for each other: each has to be handed over while the others run
    std::atomic<U> met {0}, left {0};
    std::atomic<bool> give_up {false};
    for (U i = 0; i < threads; ++i) r->post_task(FROM_HERE, [&] { ++met; while (met < threads && !give_up) std::this_thread::sleep_for(100us); ++left; });
    bool const all = eventually([&] { return met >= threads; });
    give_up = true;
    if (!eventually([&] { return left >= threads; }) || !all) drv::fail(at + "a task is not handed over while another one runs");
}
// without a manager tasks are refused; a runner that is gone does not run its tasks
static void ends()
{
    std::shared_ptr<SequencedTaskRunner> s;
    std::shared_ptr<ParallelTaskRunner> p;
    std::atomic<int> ran {0};
    {
        Manager m(1);
        s = SequencedTaskRunner::create(m.m);
        p = ParallelTaskRunner::create(m.m);
        s->post_task(FROM_HERE, [&] { ++ran; });
        if (!eventually([&] { return ran == 1; })) drv::fail("a task of a sequenced runner does not run");
        m.m->stop();
    }
    if (s->post_task(FROM_HERE, [&] { ran = 100; }) || s->post_task(FROM_HERE, [&] { ran = 100; })) drv::fail("a sequenced runner accepts a task when its manager is gone");
    if (p->post_task(FROM_HERE, [&] { ran = 100; })) drv::fail("a parallel runner accepts a task when its manager is gone");
    if (s->post_task_with_delay(FROM_HERE, 0ms, [&] { ran = 100; })) drv::fail("a delayed task is accepted when the manager is gone");
    if (ran != 1) drv::fail("a refused task runs");
}
int main(int argc, char **argv)
{
    drv::init(argc, argv);
    for (U i = 0; drv::time_left(); ++i)
    {
        drv::at("round " + std::to_string(i));
        U const threads = 1 + drv::rnd(4);
        {
            Manager m(static_cast<std::uint32_t>(threads));
            for (int k = 0; k < 4; ++k) { scripted(m, threads); ++drv::S().cases; }
            stress(m, threads);
            parallel(m, threads);
        }
        if ((i & 3) == 0) ends();
    }
    drv::finish(0);
}
