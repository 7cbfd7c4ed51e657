// Task runners.
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <queue>
#include <thread>
#include <type_traits>
#include <vector>
#define private public
#define protected public
#include "fly/task/task_runner.hpp"
#include "fly/task/task_manager.hpp"
#undef private
#undef protected
#include "fly/task/task_runner.cpp"
using namespace fly::task;
namespace {
struct Sequenced final : public SequencedTaskRunner
{
    explicit Sequenced(std::shared_ptr<TaskManager> m) noexcept : SequencedTaskRunner(std::move(m)) {}
};
struct Parallel final : public ParallelTaskRunner
{
    explicit Parallel(std::shared_ptr<TaskManager> m) noexcept : ParallelTaskRunner(std::move(m)) {}
};
} // namespace
extern "C" std::size_t vp_seq_bytes() { return sizeof(Sequenced); }
extern "C" std::size_t vp_par_bytes() { return sizeof(Parallel); }
extern "C" void vp_seq_make(void *p, std::shared_ptr<TaskManager> *m) { new (p) Sequenced(std::move(*m)); }
extern "C" void vp_par_make(void *p, std::shared_ptr<TaskManager> *m) { new (p) Parallel(std::move(*m)); }
extern "C" void *vp_seq_mutex(SequencedTaskRunner *r) { return &r->m_pending_tasks_mutex; }
extern "C" void *vp_seq_pending(SequencedTaskRunner *r) { return &r->m_pending_tasks; }
extern "C" bool *vp_seq_running(SequencedTaskRunner *r) { return &r->m_has_running_task; }
extern "C" TaskRunner *vp_seq_base(SequencedTaskRunner *r) { return r; }
extern "C" TaskRunner *vp_par_base(ParallelTaskRunner *r) { return r; }
extern "C" bool vp_post(TaskRunner *r, char const *file, char const *function, std::uint32_t line, Task *t) { return r->post_task_internal(TaskLocation {std::string_view(file, 1), std::string_view(function, 1), line}, std::move(*t)); }
extern "C" void vp_complete(TaskRunner *r, char const *file, char const *function, std::uint32_t line) { r->task_complete(TaskLocation {std::string_view(file, 1), std::string_view(function, 1), line}); }
extern "C" void vp_execute(TaskRunner *r, char const *file, char const *function, std::uint32_t line, Task *t) { r->execute(TaskLocation {std::string_view(file, 1), std::string_view(function, 1), line}, std::move(*t)); }
extern "C" bool vp_hand(TaskRunner *r, char const *file, char const *function, std::uint32_t line, Task *t) { return r->post_task_to_task_manager(TaskLocation {std::string_view(file, 1), std::string_view(function, 1), line}, std::move(*t)); }
extern "C" bool vp_hand_later(TaskRunner *r, char const *file, char const *function, std::uint32_t line, std::int64_t ms, Task *t) { return r->post_task_to_task_manager_with_delay(TaskLocation {std::string_view(file, 1), std::string_view(function, 1), line}, std::chrono::milliseconds(ms), std::move(*t)); }
extern "C" std::size_t vp_pending_bytes() { return sizeof(SequencedTaskRunner::PendingTask); }
extern "C" Task *vp_pending_task(SequencedTaskRunner::PendingTask *p) { return &p->m_task; }
extern "C" TaskLocation *vp_pending_location(SequencedTaskRunner::PendingTask *p) { return &p->m_location; }
extern "C" std::uint32_t vp_location_line(TaskLocation *l) { return l->m_line; }
extern "C" void vp_location_make(TaskLocation *l, char const *file, char const *function, std::uint32_t line) { *l = TaskLocation {std::string_view(file, 1), std::string_view(function, 1), line}; }
extern "C" std::size_t vp_task_bytes() { return sizeof(Task); }
extern "C" void *vp_shared_base(TaskRunner *r) { return static_cast<std::enable_shared_from_this<TaskRunner> *>(r); }
