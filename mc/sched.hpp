#pragma once
// Controlled scheduler: the library is compiled with its mutexes, condition variables and atomic flags replaced by
// ones that hand control to this scheduler before every operation, and with select/epoll_wait/read/write wrapped.
// Exactly one thread runs at a time; which one is a choice of the explorer.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <future>
#include <mutex>
#include <thread>
#include <functional>
#include <vector>
#include <pthread.h>
#include <semaphore.h>

namespace vps {
struct Sched;
Sched *active();            // the scheduler, if the calling thread is one of its threads
void point(const char *what);                                 // a scheduling point before an operation
void block(const char *what, const std::function<bool()> &ready); // ... which can proceed only when ready() holds
}

namespace std {
struct vp_mutex {
	bool held = false; pthread_mutex_t real = PTHREAD_MUTEX_INITIALIZER;
	vp_mutex() {} vp_mutex(const vp_mutex &) = delete;
	void lock() { if(vps::active()) { vps::block("lock", [this] { return not held; }); held = true; } else held = true; }
	bool try_lock() { vps::point("try_lock"); if(held) return false; held = true; return true; }
	void unlock() { held = false; vps::point("unlock"); }
};
struct vp_recursive_mutex {
	int depth = 0; pthread_t owner {};
	void lock() { vps::block("lock", [this, me = pthread_self()] { return 0 == depth or pthread_equal(owner, me); }); owner = pthread_self(); depth++; }
	bool try_lock() { vps::point("try_lock"); if(depth and not pthread_equal(owner, pthread_self())) return false; owner = pthread_self(); depth++; return true; }
	void unlock() { depth--; vps::point("unlock"); }
};
struct vp_condition_variable {
	unsigned long epoch = 0, tokens = 0, waiters = 0;
	template<class L> void wait(L &l) { unsigned long e = epoch; waiters++; (*l.mutex()).held = false; vps::block("cond wait", [this, e] { return epoch != e or tokens; }); if(epoch == e) tokens--; waiters--; (*l.mutex()).lock(); }
	template<class L, class P> void wait(L &l, P p) { while(not p()) wait(l); }
	void notify_one() { vps::point("notify"); if(waiters > tokens) tokens++; }
	void notify_all() { vps::point("notify"); epoch++; tokens = 0; }
};
struct vp_atomic_bool {
	bool v;
	vp_atomic_bool(bool b = false) : v(b) {} vp_atomic_bool(const vp_atomic_bool &) = delete;
	bool load(std::memory_order = std::memory_order_seq_cst) const { vps::point("load"); return v; }
	void store(bool b, std::memory_order = std::memory_order_seq_cst) { vps::point("store"); v = b; }
	operator bool() const { return load(); }
	bool operator=(bool b) { store(b); return b; }
	bool exchange(bool b, std::memory_order = std::memory_order_seq_cst) { vps::point("exchange"); bool o = v; v = b; return o; }
	bool compare_exchange_strong(bool &e, bool d, std::memory_order = std::memory_order_seq_cst) { vps::point("cas"); if(v == e) { v = d; return true; } e = v; return false; }
	bool compare_exchange_weak(bool &e, bool d, std::memory_order = std::memory_order_seq_cst) { return compare_exchange_strong(e, d); }
};
}
#define VP_SCHED 1
#define recursive_mutex vp_recursive_mutex
#define mutex vp_mutex
#define condition_variable_any vp_condition_variable
#define condition_variable vp_condition_variable
#define atomic_bool vp_atomic_bool
