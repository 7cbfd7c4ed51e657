// The task manager: delays, exactly once, owners, stopping.
// SOURCES: fly/task/task_manager.cpp fly/task/task_runner.cpp
// FLAGS: -O1 -fsanitize=thread -pthread
#include "tasks.hpp"
struct Owner { int x = 0; };

struct Job
{
    Clock::time_point posted, ran, replied;
    std::chrono::milliseconds delay {0};
    int kind = 0;  // 0 plain 1 reply 2 owner 3 owner+reply 4 owner gone 5 owner gone+reply 6 owner goes while waiting
    bool later = true;
    std::atomic<int> times {0}, replies {0};
    std::atomic<bool> bad {false};
    bool slow = false; // its owner went too late to tell
    std::shared_ptr<Owner> owner;
};
static void delays(Manager &m, U threads)
{
    U const n = 1 + drv::rnd(60);
    bool const seq = drv::rnd(2);
    std::string const at = std::to_string(n) + " tasks posted with delays to a " + (seq ? "sequenced" : "parallel") + " runner, " + std::to_string(threads) + " threads: ";
    std::shared_ptr<TaskRunner> r;
    if (seq) r = SequencedTaskRunner::create(m.m);
    else r = ParallelTaskRunner::create(m.m);
    // outlives the tasks, whatever the code under test does
    auto &jobs = *new std::deque<Job>(n);
    auto &inside = *new std::atomic<int>(0);
    auto &overlap = *new std::atomic<bool>(false);
    for (auto &j : jobs)
    {
        j.kind = static_cast<int>(drv::rnd(7));
        j.later = drv::rnd(8) != 0 || j.kind == 6;
        j.delay = std::chrono::milliseconds(!j.later ? 0 : j.kind == 6 ? 60 + drv::rnd(30) : drv::rnd(3) ? drv::rnd(60) : drv::rnd(12));
        j.owner = std::make_shared<Owner>();
    }
    auto body = [&](Job &j) {
        if (inside.fetch_add(1) != 0) overlap = true;
        j.ran = Clock::now();
        --inside;
        ++j.times;
    };
    U const start_pause = drv::rnd(4);
    for (auto &j : jobs)
    {
        std::weak_ptr<Owner> w = j.owner;
        if (j.kind == 4 || j.kind == 5) j.owner.reset();
        bool ok = true;
        auto run = [&body, &j] { body(j); };
        auto run_r = [&body, &j] { body(j); return 7; };
        auto own = [&body, &j](std::shared_ptr<Owner> o) { if (!o) j.bad = true; body(j); };
        auto own_r = [&body, &j](std::shared_ptr<Owner> o) { if (!o) j.bad = true; body(j); return std::string("result"); };
        auto rep = [&j](int v) { if (v != 7) j.bad = true; j.replied = Clock::now(); ++j.replies; };
        auto own_rep = [&j](std::string const &v, std::shared_ptr<Owner> o) { if (v != "result" || !o) j.bad = true; j.replied = Clock::now(); ++j.replies; };
        j.posted = Clock::now();
        switch (j.kind)
        {
            case 0: ok = j.later ? r->post_task_with_delay(FROM_HERE, j.delay, std::move(run)) : r->post_task(FROM_HERE, std::move(run)); break;
            case 1: ok = j.later ? r->post_task_with_delay_and_reply(FROM_HERE, j.delay, std::move(run_r), std::move(rep)) : r->post_task_with_reply(FROM_HERE, std::move(run_r), std::move(rep)); break;
            case 2: case 4: case 6: ok = j.later ? r->post_task_with_delay(FROM_HERE, w, j.delay, std::move(own)) : r->post_task(FROM_HERE, w, std::move(own)); break;
            default: ok = j.later ? r->post_task_with_delay_and_reply(FROM_HERE, w, j.delay, std::move(own_r), std::move(own_rep)) : r->post_task_with_reply(FROM_HERE, w, std::move(own_r), std::move(own_rep)); break;
        }
        if (!ok) drv::fail(at + "a task is refused");
        if (j.kind == 6)
        {
            j.owner.reset();
            if (Clock::now() - j.posted >= j.delay - 20ms) { j.slow = true; }
        }
        if (start_pause == 3) std::this_thread::sleep_for(std::chrono::microseconds(drv::rnd(3000)));
    }
    auto due = [](Job const &j) { return j.kind < 4 ? 1 : 0; };
    auto replies = [](Job const &j) { return j.kind == 1 || j.kind == 3 ? 1 : 0; };
    bool const ok = eventually([&] { for (auto &j : jobs) if (j.times < due(j) || j.replies < replies(j)) return false; return true; });
    if (!ok)
        for (auto &j : jobs)
            if (j.times < due(j) || j.replies < replies(j)) drv::fail(at + (j.times < due(j) ? "a task" : "a reply") + " posted with a delay of " + std::to_string(j.delay.count()) + " ms does not run");
    std::this_thread::sleep_for(std::chrono::milliseconds(100));
    for (auto &j : jobs)
    {
        std::string const what = "a task with a delay of " + std::to_string(j.delay.count()) + " ms ";
        if (j.slow) continue;
        if (j.kind == 6 && j.times > 0) { if (j.ran - j.posted < 50ms) drv::fail(at + what + "runs early"); drv::fail(at + what + "runs although its owner is gone"); }
        if (j.times != due(j)) drv::fail(at + what + "runs " + std::to_string(j.times) + " times" + (j.kind > 3 ? " although its owner is gone" : ""));
        if (j.replies != replies(j)) drv::fail(at + "the reply of " + what + "runs " + std::to_string(j.replies) + " times");
        if (j.bad) drv::fail(at + what + "runs with another owner or result");
        if (j.times && j.ran - j.posted < j.delay) drv::fail(at + what + "runs after " + std::to_string(std::chrono::duration_cast<std::chrono::microseconds>(j.ran - j.posted).count()) + " us");
        if (j.replies && j.replied < j.ran) drv::fail(at + "a reply runs before its task");
    }
    if (seq && overlap) drv::fail(at + "tasks of a sequenced runner overlap");
}
static void stopping(U threads)
{
    std::string const at = "stopping a manager of " + std::to_string(threads) + " threads: ";
    auto m = TaskManager::create(static_cast<std::uint32_t>(threads));
    if (!m) drv::fail("a task manager cannot be created");
    if (m->start()) drv::fail(at + "it starts twice");
    auto r = ParallelTaskRunner::create(m);
    auto s = SequencedTaskRunner::create(m);
    auto &started = *new std::atomic<int>(0), &ended = *new std::atomic<int>(0), &later = *new std::atomic<int>(0);
    U const ms = drv::S().cases < 8 && drv::S().part == 0 ? 1500 : drv::rnd(40);
    for (U i = 0; i < threads; ++i) r->post_task(FROM_HERE, [&, ms] { ++started; std::this_thread::sleep_for(std::chrono::milliseconds(ms)); ++ended; });
    if (!eventually([&] { return started >= static_cast<int>(threads); })) drv::fail(at + "posted tasks do not run");
    for (U i = 0; i < drv::rnd(20); ++i)
    {
        s->post_task(FROM_HERE, [&] { ++started; std::this_thread::sleep_for(1ms); ++ended; });
        r->post_task_with_delay(FROM_HERE, std::chrono::milliseconds(drv::rnd(100)), [&] { ++later; });
    }
    if (!m->stop()) drv::fail(at + "it does not stop");
    int const a = started, b = ended, c = later;
    if (a != b) drv::fail(at + std::to_string(a - b) + " running tasks are not waited for");
    if (m->stop()) drv::fail(at + "it stops twice");
    std::this_thread::sleep_for(30ms);
    if (started != a || ended != b || later != c) drv::fail(at + "a task runs afterwards");
    // and again
    if (!m->start()) drv::fail(at + "it does not start again");
    auto &again = *new std::atomic<int>(0);
    auto q = ParallelTaskRunner::create(m);
    q->post_task_with_delay(FROM_HERE, std::chrono::milliseconds(std::int64_t(1) << (20 + drv::rnd(23))), [&] { again = 100; });
    q->post_task_with_delay(FROM_HERE, 1ms, [&] { ++again; });
    q->post_task(FROM_HERE, [&] { ++again; });
    if (!eventually([&] { return again == 2; })) drv::fail(at + "tasks do not run when it was started again");
    m->stop();
}
// tasks of a runner which is gone do not run, and others do
static void gone(Manager &m)
{
    auto &ran = *new std::atomic<int>(0), &other = *new std::atomic<int>(0);
    auto r = ParallelTaskRunner::create(m.m);
    auto q = ParallelTaskRunner::create(m.m);
    r->post_task_with_delay(FROM_HERE, 60ms, [&] { ++ran; });
    q->post_task_with_delay(FROM_HERE, 30ms, [&] { ++other; });
    q->post_task_with_delay(FROM_HERE, 70ms, [&] { ++other; });
    auto const start = Clock::now();
    r.reset();
    bool const soon = Clock::now() - start < 30ms;
    if (!eventually([&] { return other == 2; })) drv::fail("a delayed task does not run when the runner of another one is gone");
    std::this_thread::sleep_for(20ms);
    if (soon && ran) drv::fail("a task runs although its runner is gone");
}
int main(int argc, char **argv)
{
    drv::init(argc, argv);
    for (U i = 0; drv::time_left(); ++i)
    {
        drv::at("round " + std::to_string(i));
        U const threads = 1 + drv::rnd(4);
        {
            Manager m(static_cast<std::uint32_t>(threads));
            for (int k = 0; k < 3; ++k) { delays(m, threads); ++drv::S().cases; }
            if ((i & 3) == 0) gone(m);
        }
        stopping(threads);
    }
    drv::finish(0);
}
