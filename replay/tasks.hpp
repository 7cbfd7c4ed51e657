// Task managers and runners, with real threads.
#pragma once
#include "common.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"
#include <atomic>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>
using namespace std::chrono_literals;
using namespace fly::task;
using U = std::uint64_t;
using Clock = std::chrono::steady_clock;
// the manager is not joined when a violation was found
template <typename F> static bool eventually(F f, std::chrono::seconds limit = 15s)
{
    auto const start = Clock::now();
    while (!f())
    {
        if (Clock::now() - start > limit) return f();
        std::this_thread::sleep_for(200us);
    }
    return true;
}
struct Manager
{
    std::shared_ptr<TaskManager> m;
    explicit Manager(std::uint32_t threads) : m(TaskManager::create(threads)) { if (!m) drv::fail("a task manager cannot be created"); }
    ~Manager() { if (m) m->stop(); }
};
struct Journal
{
    std::mutex lock;
    std::vector<U> ran;
    std::atomic<int> inside {0};
    std::atomic<bool> overlap {false};
    std::atomic<U> count {0};
    void run(U id)
    {
        if (inside.fetch_add(1) != 0) overlap = true;
        {
            std::lock_guard<std::mutex> g(lock);
            ran.push_back(id);
        }
        if ((id & 7) == 3) std::this_thread::yield();
        if ((id & 63) == 5) std::this_thread::sleep_for(50us);
        if (inside.fetch_sub(1) != 1) overlap = true;
        ++count;
    }
};
static std::string list(std::vector<U> const &v)
{
    std::string r;
    for (U x : v) r += (r.empty() ? "" : " ") + std::to_string(x);
    return r;
}
