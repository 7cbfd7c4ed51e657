// The task manager.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <queue>
#include <thread>
#include <type_traits>
#include <vector>
#define private public
#define protected public
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"
#undef private
#undef protected
#include "fly/task/task_manager.cpp"
using namespace fly::task;
using Held = TaskManager::TaskHolder;
extern "C" bool vp_probe_post(TaskLocation *, Task *, TaskRunner *);
extern "C" void vp_probe_complete(TaskRunner *);
namespace {
struct Probe final : public TaskRunner
{
    explicit Probe(std::shared_ptr<TaskManager> m) noexcept : TaskRunner(std::move(m)) {}
    bool post_task_internal(TaskLocation &&l, Task &&t) override { return vp_probe_post(&l, &t, this); }
    void task_complete(TaskLocation &&) override { vp_probe_complete(this); }
};
} // namespace
extern "C" std::size_t vp_manager_bytes() { return sizeof(TaskManager); }
extern "C" std::size_t vp_probe_bytes() { return sizeof(Probe); }
extern "C" void vp_probe_make(void *p, std::shared_ptr<TaskManager> *m) { new (p) Probe(std::move(*m)); }
extern "C" TaskRunner *vp_probe_base(Probe *p) { return p; }
extern "C" void *vp_mutex(TaskManager *m) { return &m->m_delayed_tasks_mutex; }
extern "C" void *vp_delayed(TaskManager *m) { return &m->m_delayed_tasks; }
extern "C" void *vp_queue(TaskManager *m) { return &m->m_tasks; }
extern "C" void *vp_running(TaskManager *m) { return &m->m_keep_running; }
extern "C" void vp_post(TaskManager *m, char const *t, std::uint32_t line, std::weak_ptr<TaskRunner> *w, Task *task) { m->post_task(TaskLocation {std::string_view(t, 1), std::string_view(t, 1), line}, std::move(*w), std::move(*task)); }
extern "C" void vp_post_later(TaskManager *m, char const *t, std::uint32_t line, std::weak_ptr<TaskRunner> *w, std::int64_t ms, Task *task) { m->post_task_with_delay(TaskLocation {std::string_view(t, 1), std::string_view(t, 1), line}, std::move(*w), std::chrono::milliseconds(ms), std::move(*task)); }
extern "C" void vp_worker(TaskManager *m) { m->worker_thread(); }
extern "C" void vp_timer(TaskManager *m) { m->timer_thread(); }
extern "C" bool vp_stop(TaskManager *m) { return m->stop(); }
extern "C" std::size_t vp_held_bytes() { return sizeof(Held); }
extern "C" Task *vp_held_task(Held *p) { return &p->m_task; }
extern "C" TaskLocation *vp_held_location(Held *p) { return &p->m_location; }
extern "C" void *vp_held_runner(Held *p) { return &p->m_weak_task_runner; }
extern "C" std::int64_t vp_held_schedule(Held *p) { return p->m_schedule.time_since_epoch().count(); }
extern "C" void vp_held_make(Held *p, char const *t, std::uint32_t line, std::int64_t when) { p->m_location = TaskLocation {std::string_view(t, 1), std::string_view(t, 1), line}; p->m_schedule = std::chrono::steady_clock::time_point(std::chrono::nanoseconds(when)); }
extern "C" std::uint32_t vp_location_line(TaskLocation *l) { return l->m_line; }
