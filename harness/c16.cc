// ThreadPool: every task runs exactly once before the destructor returns, in every schedule.
#include <thread>
#include "h.h"
#include "src/utils/threadpool.h"
static void go() { __sym_option("race", 1); __sym_option("sched", 1); __sym_option("preempt", P("preempt", 1)); __sym_option("spurious", P("spurious", 0)); }
ENTRY c16_once() {
  int t = CH("threads", P("tmin", 1), P("threads", 2)), k = CH("tasks", 0, P("tasks", 2)); int ran[8] = {}, v[8]; for (int i = 0; i < k; ++i) v[i] = I("v", 1, 1000000); bool last = CH("late", 0, 1);
  go();
  { ThreadPool pool(t); for (int i = 0; i < k; ++i) { if (last && i == k - 1) std::this_thread::yield(); pool.Enqueue([&ran, &v, i] { ran[i] += v[i]; }); } }
  __sym_option("sched", 0);
  for (int i = 0; i < k; ++i) CHECK_(ran[i] == v[i], "every task has run exactly once when the pool is gone");
  __sym_reach("once"); if (k > t) __sym_reach("more tasks than threads");
}
ENTRY c16_order() {   // one thread: tasks run in the order they were added
  int k = CH("tasks", 1, P("tasks", 3)), ord[8], n = 0; go();
  { ThreadPool pool(1); for (int i = 0; i < k; ++i) pool.Enqueue([&ord, &n, i] { ord[n++] = i; }); }
  __sym_option("sched", 0); CHECK_(n == k, "all ran"); for (int i = 0; i < k; ++i) CHECK_(ord[i] == i, "a single worker takes the tasks in order"); __sym_reach("order");
}
ENTRY c16_nested() {   // a task may add tasks, and may use a pool of its own
  int t = CH("threads", 1, P("threads", 2)); bool own = CH("own", 0, 1); int a = 0, b = 0, c = 0; go();
  { ThreadPool pool(t); ThreadPool* p = &pool; pool.Enqueue([&, p] { ++a; if (own) { ThreadPool q(1); q.Enqueue([&b] { ++b; }); } else { p->Enqueue([&b] { ++b; }); p->Enqueue([&c] { ++c; }); } }); }
  __sym_option("sched", 0); CHECK_(a == 1 && b == 1 && c == (own ? 0 : 1), "tasks added by a task run once, too"); __sym_reach("nested");
}
ENTRY c16_parallel() {   // two workers serve two tasks at the same time: a task may wait for another one
  std::mutex m; std::condition_variable cv; bool first = false; int done = 0; go();
  { ThreadPool pool(2);
    pool.Enqueue([&] { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return first; }); ++done; });
    pool.Enqueue([&] { { std::unique_lock<std::mutex> l(m); first = true; ++done; } cv.notify_all(); }); }
  __sym_option("sched", 0); CHECK_(done == 2, "both ran"); __sym_reach("parallel");
}
ENTRY c16_producers() {   // tasks may be added from several threads
  int r1 = 0, r2 = 0, r3 = 0; go();
  { ThreadPool pool(CH("threads", 1, P("threads", 1))); std::thread t([&] { pool.Enqueue([&] { ++r1; }); }); pool.Enqueue([&] { ++r2; }); if (CH("more", 0, 1)) pool.Enqueue([&] { ++r3; }); else r3 = 1; t.join(); }
  __sym_option("sched", 0); CHECK_(r1 == 1 && r2 == 1 && r3 == 1, "tasks of all producers run once"); __sym_reach("producers");
}
