// Self-test of the scheduler on programs with known answers.
#include "mc.h"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <memory>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/locks.hpp>
VK_SUITE(ok_counter) {
  mc::Options o; o.preemptions = 2;
  mc::explore(r, "ok", "counter", o, [] {
    std::mutex m; int c = 0;
    auto f = [&] { for (int i = 0; i < 2; ++i) { std::lock_guard<std::mutex> l(m); ++c; } };
    std::thread a(f), b(f); a.join(); b.join();
    mc::require(c == 4, "lost", std::to_string(c));
  });
}
VK_SUITE(bad_race) {
  mc::Options o;
  mc::explore(r, "race", "race", o, [] { int c = 0; auto f = [&] { ++c; }; std::thread a(f), b(f); a.join(); b.join(); });
}
VK_SUITE(bad_lost) {
  mc::Options o;
  mc::explore(r, "lost", "lost", o, [] { std::mutex m; int c = 0; auto f = [&] { int v; { std::lock_guard<std::mutex> l(m); v = c; } std::lock_guard<std::mutex> l(m); c = v + 1; };
    std::thread a(f), b(f); a.join(); b.join(); mc::require(c == 2, "lost", std::to_string(c)); });
}
VK_SUITE(bad_deadlock) {
  mc::Options o;
  mc::explore(r, "dead", "dead", o, [] { std::mutex m, n; std::thread a([&] { m.lock(); n.lock(); n.unlock(); m.unlock(); }), b([&] { n.lock(); m.lock(); m.unlock(); n.unlock(); }); a.join(); b.join(); });
}
VK_SUITE(bad_wakeup) {
  mc::Options o;
  mc::explore(r, "wake", "lost wakeup", o, [] { std::mutex m; std::condition_variable c; std::atomic<bool> f{false};
    std::thread a([&] { if (!f) { std::unique_lock<std::mutex> l(m); c.wait(l); } }); f = true; c.notify_one(); a.join(); });
}
VK_SUITE(ok_cond) {
  mc::Options o;
  mc::explore(r, "cond", "cond", o, [] { std::mutex m; std::condition_variable c; bool f = false;
    std::thread a([&] { std::unique_lock<std::mutex> l(m); c.wait(l, [&] { return f; }); }); { std::lock_guard<std::mutex> l(m); f = true; } c.notify_one(); a.join(); });
}
VK_SUITE(ok_shared) {
  mc::Options o; o.preemptions = 2;
  mc::explore(r, "shared", "shared", o, [] { boost::shared_mutex m; auto v = std::make_shared<int>(1);
    auto rd = [&] { boost::upgrade_lock<boost::shared_mutex> l(m); auto c = v; if (*c == 1) { boost::upgrade_to_unique_lock<boost::shared_mutex> u(l); v = std::make_shared<int>(2); } };
    std::thread a(rd), b(rd); a.join(); b.join(); mc::require(*v == 2, "value", ""); });
}
VK_SUITE(ok_static) {
  mc::Options o;
  mc::explore(r, "static", "static", o, [] { auto f = [] { static std::shared_ptr<int> p = std::make_shared<int>(3); static std::atomic<int> n{0}; ++n; return *p; };
    int x = 0, y = 0; std::thread a([&] { x = f(); }), b([&] { y = f(); }); a.join(); b.join(); mc::require(x == 3 && y == 3, "v", ""); });
}
VK_SUITE(bad_uaf) {
  mc::Options o;
  mc::explore(r, "uaf", "uaf", o, [] { std::mutex m; auto p = new int(1); std::thread a([&] { std::lock_guard<std::mutex> l(m); delete p; }); { std::lock_guard<std::mutex> l(m); *p = 3; } a.join(); });
}
