PRE = '#include <cstdio>\n#include <cstdint>\n#include <string>\n#include <cstdlib>\n#include <atomic>\n#include <memory>\n#include <mutex>\n#include <thread>\n#include <vector>\n#include <chrono>\nusing namespace std::chrono_literals;\n'
CC = 'fly/types/concurrency/detail/concurrent_container.hpp'
TM, TR, TH = 'fly/task/task_manager.cpp', 'fly/task/task_runner.cpp', 'fly/task/task_runner.hpp'
Q = PRE + '#include "fly/types/concurrency/concurrent_queue.hpp"\n'
T = PRE + '#include "fly/task/task_manager.hpp"\n#include "fly/task/task_runner.hpp"\nusing namespace fly::task;\n'
SEEDS = [
 dict(id='p21-notify', property='P21', edits=[(CC, '''        push_internal(std::move(item));
    }

    m_push_condition.notify_one();''', '''        push_internal(std::move(item));

        if (m_container.size() > 1)
        {
            return;
        }
    }

    m_push_condition.notify_one();''')],
      needs='two waiting consumers and two pushes before the first consumer takes the lock', breaks='the second consumer waits although an element is there (lost wakeup)',
      demo=Q + '''int main()
{
    for (int i = 0; i < 300; ++i)
    {
        fly::ConcurrentQueue<int> q;
        std::atomic<int> waiting {0}, got {0};
        auto consumer = [&] { int v; ++waiting; if (q.pop(v, 1500ms)) ++got; };
        std::thread a(consumer), b(consumer), c(consumer);
        while (waiting < 3) std::this_thread::yield();
        std::this_thread::sleep_for(1ms);
        auto const start = std::chrono::steady_clock::now();
        q.push(1);
        q.push(2);
        q.push(3);
        a.join(); b.join(); c.join();
        if (std::chrono::steady_clock::now() - start > 1400ms) return 1;
    }
    return 0;
}
''', src='', flags='-pthread'),
 dict(id='p21-size', property='P21', edits=[(CC, '''    std::unique_lock<std::mutex> lock(m_container_mutex);
    return m_container.size();''', '''    return m_container.size();''')],
      needs='size() called while another thread pushes or pops', breaks='an unsynchronised read of the container (data race)',
      demo=Q + '''int main()
{
    fly::ConcurrentQueue<int> q;
    std::atomic<bool> stop {false};
    std::size_t most = 0;
    std::thread a([&] { for (int i = 0; i < 20000; ++i) { q.push(i + 0); int v; q.pop(v); } stop = true; });
    while (!stop) most = std::max(most, q.size());
    a.join();
    return most > 1 ? 1 : 0;
}
''', src='', flags='-O1 -pthread -fsanitize=thread'),
 dict(id='p22-latest', property='P22', edits=[(TR, '''        m_has_running_task = posted_or_queued;
    }
''', '''        m_has_running_task = (task == nullptr) && posted_or_queued;
    }
'''), (TR, '''        if (!m_pending_tasks.empty())
        {
            PendingTask''', '''        if (!m_pending_tasks.empty() && (m_pending_tasks.size() < 1024))
        {
            PendingTask'''), (TR, '''        else if (task != nullptr)
        {''', '''        else if (!m_pending_tasks.empty())
        {
            // Drain large backlogs without waiting for each task in turn.
            for (posted_or_queued = true; posted_or_queued && !m_pending_tasks.empty();)
            {
                PendingTask pending_task = std::move(m_pending_tasks.front());
                m_pending_tasks.pop();

                posted_or_queued = post_task_to_task_manager(
                    std::move(pending_task.m_location),
                    std::move(pending_task.m_task));
            }
        }
        else if (task != nullptr)
        {''')],
      needs='more than a thousand pending tasks', breaks='the tasks of a large backlog are handed over at once and overlap',
      demo=T + '''int main()
{
    auto m = TaskManager::create(4);
    auto r = SequencedTaskRunner::create(m);
    static std::atomic<bool> gate {false}, overlap {false};
    static std::atomic<int> inside {0}, ran {0};
    r->post_task(FROM_HERE, [] { while (!gate) std::this_thread::sleep_for(1ms); });
    for (int i = 0; i < 1500; ++i) r->post_task(FROM_HERE, [] { if (inside.fetch_add(1)) overlap = true; std::this_thread::sleep_for(20us); inside.fetch_sub(1); ++ran; });
    gate = true;
    for (int w = 0; w < 5000 && ran < 1500; ++w) std::this_thread::sleep_for(1ms);
    m->stop();
    return ran == 1500 && !overlap ? 0 : 1;
}
''', flags='-pthread'),
 dict(id='p24-huge', property='P24', edits=[(TM, 'std::chrono::steady_clock::now() + delay,', 'std::chrono::steady_clock::now() + std::chrono::duration<std::int32_t, std::milli>(delay),'), (TM, '#include <thread>\n', '#include <cstdint>\n#include <thread>\n')],
      needs='a delay of more than 2^31 milliseconds', breaks='the delay wraps around and the task runs at once',
      demo=T + '''int main()
{
    auto m = TaskManager::create(1);
    auto r = ParallelTaskRunner::create(m);
    static std::atomic<int> ran {0};
    r->post_task_with_delay(FROM_HERE, std::chrono::hours(24 * 30), [] { ++ran; });
    std::this_thread::sleep_for(200ms);
    m->stop();
    return ran ? 1 : 0;
}
''', flags='-pthread'),
 dict(id='p24-batch', property='P24', edits=[(TM, '            for (auto it = m_delayed_tasks.begin(); it != m_delayed_tasks.end();)\n            {\n                if (it->m_schedule <= now)', '            for (auto it = m_delayed_tasks.begin(); it != m_delayed_tasks.end();)\n            {\n                if ((it->m_schedule <= now) || (m_delayed_tasks.size() > 64))')],
      needs='more than 64 delayed tasks waiting at once', breaks='tasks are run before their delay has passed',
      demo=T + '''int main()
{
    auto m = TaskManager::create(1);
    auto r = ParallelTaskRunner::create(m);
    static std::atomic<int> ran {0};
    for (int i = 0; i < 100; ++i) r->post_task_with_delay(FROM_HERE, 1h, [] { ++ran; });
    std::this_thread::sleep_for(200ms);
    m->stop();
    return ran ? 1 : 0;
}
''', flags='-pthread'),
]
