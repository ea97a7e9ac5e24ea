// Contract of the threading primitives (std::thread, std::mutex, std::condition_variable): a thread is a flow of control of its
// own; control passes to any other runnable thread when the running one blocks, ends, or (up to `preemptions` times) inside
// user-supplied code (ctv_threads::yield).  The code of the library runs unchanged on top of it.
#pragma once
#define pthread_mutex_lock ctv_threads_mutex_lock
#define pthread_mutex_unlock ctv_threads_mutex_unlock
#define pthread_mutex_trylock ctv_threads_mutex_trylock
#include <condition_variable>
#include <mutex>
#include <thread>
#include <cstdlib>
#include "ctv.h"
extern "C" {
long ctv_fiber_new(void (*fn)(long), long arg);
void ctv_fiber_switch(long id);
}
namespace ctv_threads {
struct T { void* st; void (*run)(void*); long fiber; bool done; const void* on; };
static T th[8];
static long n = 1, cur = 0, budget = 0;
static bool inWait = false;  // threads may also be preempted on entry to a wait, with the mutex held
static bool any = true;  // any runnable thread may follow a blocked one (otherwise: the first)
inline void reset(long preemptions, bool anyNext) { n = 1, cur = 0, budget = preemptions, any = anyNext, th[0] = T{nullptr, nullptr, 0, false, nullptr}; }
inline void to(long i)
{
    if (i == cur) return;
    cur = i;
    ctv_fiber_switch(th[i].fiber);
}
inline long runnable(long* r, bool self)
{
    long m = 0;
    for (long i = 0; i < n; i++)
        if ((self || i != cur) && !th[i].done && !th[i].on) r[m++] = i;
    return m;
}
inline void schedule()
{
    long r[8], m = runnable(r, true);
    if (!m)
    {
        ctv_fail("some thread can always run (no deadlock, no lost wake-up)");
        abort();
    }
    to(r[m > 1 && any ? ctv_choose("next_thread", 0, m - 1) : 0]);
}
inline void block(const void* on) { th[cur].on = on; schedule(); }
inline void wake(const void* on) { for (long i = 0; i < n; i++) if (th[i].on == on) th[i].on = nullptr; }
inline void yield()
{
    if (budget <= 0 || n < 2) return;
    long r[8], m = runnable(r, false);
    if (!m) return;
    long c = ctv_choose("preempt", 0, m);
    if (!c) return;
    budget--;
    to(r[c - 1]);
}
inline void entry(long i)
{
    th[i].run(th[i].st);
    th[i].done = true;
    wake(&th[i]);
    schedule();
}
}
extern "C" int ctv_threads_mutex_lock(pthread_mutex_t* m) noexcept
{
    while (m->__data.__lock) ctv_threads::block(m);
    m->__data.__lock = 1;
    return 0;
}
extern "C" int ctv_threads_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if (m->__data.__lock) return 16;
    m->__data.__lock = 1;
    return 0;
}
extern "C" int ctv_threads_mutex_unlock(pthread_mutex_t* m) noexcept
{
    m->__data.__lock = 0;
    ctv_threads::wake(m);
    return 0;
}
namespace std {
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)())
{
    using namespace ctv_threads;
    th[n] = T{s.release(), [](void* p) { ((_State*)p)->_M_run(); }, 0, false, nullptr};
    th[n].fiber = ctv_fiber_new(&entry, n);
    _M_id._M_thread = n++;
}
void thread::join()
{
    using namespace ctv_threads;
    long i = (long)_M_id._M_thread;
    while (!th[i].done) block(&th[i]);
    _M_id = id();
}
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::notify_all() noexcept { ctv_threads::wake(this); }
void condition_variable::notify_one() noexcept
{
    for (long i = 0; i < ctv_threads::n; i++)
        if (ctv_threads::th[i].on == this) { ctv_threads::th[i].on = nullptr; return; }
}
void condition_variable::wait(unique_lock<mutex>& l)
{
    if (ctv_threads::inWait) ctv_threads::yield();  // another thread may run between the caller's check of its condition and the wait
    l.unlock();
    ctv_threads::block(this);
    l.lock();
}
}
