// The concurrent containers: sequential behaviour against plain sequences, and stress under the thread sanitizer.
// FLAGS: -O1 -fsanitize=thread -pthread
#include "common.hpp"
#include "fly/types/concurrency/concurrent_queue.hpp"
#include "fly/types/concurrency/concurrent_stack.hpp"
#include <atomic>
#include <deque>
#include <memory>
#include <thread>
using namespace std::chrono_literals;
using U = std::uint64_t;
struct Item // an element whose moves take time
{
    U v = 0;
    std::unique_ptr<U> p;
    Item() = default;
    explicit Item(U x) : v(x), p(std::make_unique<U>(x)) {}
    Item(Item &&o) noexcept { *this = std::move(o); }
    Item &operator=(Item &&o) noexcept
    {
        v = o.v;
        if ((v & 7) == 0) std::this_thread::yield();
        p = std::move(o.p);
        o.v = ~0ull;
        return *this;
    }
};
static U value(U const &x) { return x; }
static U value(std::string const &x) { return x.empty() ? ~0ull : std::strtoull(x.c_str() + 30, nullptr, 10); }
static U value(Item const &x) { return x.p && *x.p == x.v ? x.v : ~0ull; }
template <typename T> static T make(U v);
template <> U make<U>(U v) { return v; }
template <> std::string make<std::string>(U v) { return std::string(30, 'x') + std::to_string(v); }
template <> Item make<Item>(U v) { return Item(v); }
template <typename C> struct Kind;
template <typename T> struct Kind<fly::ConcurrentQueue<T>> { using type = T; static constexpr bool fifo = true; static constexpr char const *name = "queue"; };
template <typename T> struct Kind<fly::ConcurrentStack<T>> { using type = T; static constexpr bool fifo = false; static constexpr char const *name = "stack"; };

template <typename C> static void sequential(U steps)
{
    using K = Kind<C>;
    using T = typename K::type;
    C c;
    std::deque<U> m;
    U next = drv::rnd(1000);
    auto take = [&] { U v = K::fifo ? m.front() : m.back(); if (K::fifo) m.pop_front(); else m.pop_back(); return v; };
    for (U i = 0; i < steps; ++i)
    {
        ++drv::S().cases;
        std::string const at = std::string(K::name) + " of " + std::to_string(m.size()) + " elements: ";
        T item = make<T>(77);
        switch (drv::rnd(m.size() > 700 ? 6 : 9))
        {
            default: c.push(make<T>(++next)); m.push_back(next); break;
            case 0: if (m.empty()) break; c.pop(item); if (U w = take(); value(item) != w) drv::fail(at + "pop yields " + std::to_string(value(item)) + ", not " + std::to_string(w)); break;
            case 1: case 2: case 3: {
                auto const start = std::chrono::steady_clock::now();
                U const how = drv::rnd(m.empty() ? 40 : 4);
                bool r = how == 0 ? c.pop(item, 1ms) : how == 1 ? c.pop(item, 20us) : how == 2 ? c.pop(item, 0ns) : c.pop(item, 0s);
                if (r == m.empty()) drv::fail(at + "timed pop " + (r ? "succeeds" : "fails"));
                if (r) { if (U w = take(); value(item) != w) drv::fail(at + "timed pop yields " + std::to_string(value(item)) + ", not " + std::to_string(w)); }
                else if (value(item) != 77) drv::fail(at + "a failed pop changes the item");
                if (!r && how == 0 && std::chrono::steady_clock::now() - start < 1ms) drv::fail(at + "timed pop gives up too early");
                break;
            }
            case 4: if (c.empty() != m.empty()) drv::fail(at + "empty"); break;
            case 5: if (c.size() != m.size()) drv::fail(at + "size is " + std::to_string(c.size())); break;
        }
    }
    if (c.size() != m.size()) drv::fail(std::string(K::name) + ": size is " + std::to_string(c.size()) + ", not " + std::to_string(m.size()));
    while (!m.empty()) { T item = make<T>(77); c.pop(item); if (value(item) != take()) drv::fail(std::string(K::name) + ": order"); }
}
template <typename C> static void concurrent(int producers, int consumers, U each, bool timed, bool late)
{
    using K = Kind<C>;
    using T = typename K::type;
    C c;
    std::atomic<U> left {static_cast<U>(producers) * each}, stolen {0};
    std::vector<std::vector<U>> got(static_cast<std::size_t>(consumers));
    std::vector<std::thread> ts;
    std::atomic<bool> hang {false};
    std::string const at = std::string(K::name) + " with " + std::to_string(producers) + " producers and " + std::to_string(consumers) + " consumers: ";
    for (int i = 0; i < consumers; ++i) ts.emplace_back([&, i] {
        for (;;)
        {
            T item {};
            if (timed)
            {
                if (left == 0) return;
                auto const start = std::chrono::steady_clock::now();
                if (!c.pop(item, 2ms))
                {
                    if (std::chrono::steady_clock::now() - start > 60s) hang = true;
                    continue;
                }
            }
            else
            {
                if (stolen.fetch_add(1) >= static_cast<U>(producers) * each) return;
                c.pop(item);
            }
            got[static_cast<std::size_t>(i)].push_back(value(item));
            --left;
            (void)c.size();
        }
    });
    if (late) std::this_thread::sleep_for(1ms);
    std::vector<std::thread> ps;
    for (int i = 0; i < producers; ++i) ps.emplace_back([&, i] {
        for (U k = 0; k < each; ++k)
        {
            c.push(make<T>(static_cast<U>(i) << 32 | k));
            if (late && (k & 15) == 0) std::this_thread::yield();
            (void)c.empty();
        }
    });
    for (auto &p : ps) p.join();
    for (auto &t : ts) t.join();
    ++drv::S().cases;
    std::vector<U> all;
    for (auto &g : got)
    {
        // one consumer sees the elements of one producer in the order of their pushes (queue)
        std::map<U, U> last;
        for (U v : g)
        {
            if (K::fifo && last.count(v >> 32) && last[v >> 32] >= v) drv::fail(at + "elements of one producer are reordered");
            last[v >> 32] = v;
            all.push_back(v);
        }
    }
    std::sort(all.begin(), all.end());
    std::size_t n = 0;
    for (int i = 0; i < producers; ++i)
        for (U k = 0; k < each; ++k)
            if (n >= all.size() || all[n++] != (static_cast<U>(i) << 32 | k)) drv::fail(at + "an element is lost, duplicated or invented");
    if (n != all.size() || !c.empty() || c.size() != 0) drv::fail(at + "elements are left or invented");
}
// a consumer that waits is woken by a push
template <typename C> static void wake()
{
    using T = typename Kind<C>::type;
    std::string const at = std::string(Kind<C>::name) + ": ";
    C c;
    std::atomic<int> done {0};
    auto const start = std::chrono::steady_clock::now();
    std::thread a([&] { T i {}; if (c.pop(i, 20s)) ++done; }), b([&] { T i {}; c.pop(i); ++done; });
    std::this_thread::sleep_for(2ms);
    c.push(make<T>(1));
    c.push(make<T>(2));
    // the sanitizer build is slow, but not this slow
    while (done < 2 && std::chrono::steady_clock::now() - start < 12s) std::this_thread::sleep_for(1ms);
    bool const ok = done == 2;
    if (!ok) for (int i = 0; i < 4; ++i) c.push(make<T>(3));
    if (!ok) { std::printf("VIOLATION-FOUND %sa waiting pop is not woken by a push\n", at.c_str()); std::fflush(stdout); std::_Exit(1); }
    a.join();
    b.join();
    ++drv::S().cases;
}
template <typename T> static void round(U i)
{
    using Q = fly::ConcurrentQueue<T>;
    using S = fly::ConcurrentStack<T>;
    sequential<Q>(1 + drv::rnd(600));
    sequential<S>(1 + drv::rnd(600));
    int p = 1 + static_cast<int>(drv::rnd(4)), c = 1 + static_cast<int>(drv::rnd(4));
    U each = 1 + drv::rnd(300);
    concurrent<Q>(p, c, each, i & 1, i & 2);
    concurrent<S>(p, c, each, i & 1, i & 2);
    if ((i & 7) == 0) { wake<Q>(); wake<S>(); }
}
int main(int argc, char **argv)
{
    drv::init(argc, argv);
    for (U i = 0; drv::time_left(); ++i)
    {
        drv::at("round " + std::to_string(i));
        round<U>(i);
        round<std::string>(i);
        round<Item>(i);
    }
    drv::finish(0);
}
