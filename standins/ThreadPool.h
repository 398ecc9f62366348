// Stand-in for the swift-nav fork of progschj/ThreadPool (not installed here).
// Only what albatross uses: ThreadPool(n), ThreadPool(n, init, stack_size),
// thread_count(), enqueue(f, args...) -> std::future.
#ifndef VERIF_STANDIN_THREAD_POOL_H
#define VERIF_STANDIN_THREAD_POOL_H

#include <condition_variable>
#include <cstddef>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <queue>
#include <stdexcept>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>

class ThreadPool {
public:
  explicit ThreadPool(std::size_t threads)
      : ThreadPool(threads, [] {}, 0) {}

  template <typename Init>
  ThreadPool(std::size_t threads, Init init, std::size_t /*stack_size*/ = 0) {
    for (std::size_t i = 0; i < threads; ++i) {
      workers_.emplace_back([this, init] {
        init();
        for (;;) {
          std::function<void()> task;
          {
            std::unique_lock<std::mutex> lock(mutex_);
            cv_.wait(lock, [this] { return stop_ || !tasks_.empty(); });
            if (stop_ && tasks_.empty()) {
              return;
            }
            task = std::move(tasks_.front());
            tasks_.pop();
          }
          task();
        }
      });
    }
  }

  ThreadPool(const ThreadPool &) = delete;
  ThreadPool &operator=(const ThreadPool &) = delete;

  std::size_t thread_count() const { return workers_.size(); }

  template <class F, class... Args>
  auto enqueue(F &&f, Args &&...args)
      -> std::future<std::invoke_result_t<std::decay_t<F>,
                                          std::decay_t<Args>...>> {
    using R =
        std::invoke_result_t<std::decay_t<F>, std::decay_t<Args>...>;
    auto task = std::make_shared<std::packaged_task<R()>>(
        std::bind(std::forward<F>(f), std::forward<Args>(args)...));
    std::future<R> result = task->get_future();
    {
      std::unique_lock<std::mutex> lock(mutex_);
      if (stop_) {
        throw std::runtime_error("enqueue on stopped ThreadPool");
      }
      tasks_.emplace([task]() { (*task)(); });
    }
    cv_.notify_one();
    return result;
  }

  ~ThreadPool() {
    {
      std::unique_lock<std::mutex> lock(mutex_);
      stop_ = true;
    }
    cv_.notify_all();
    for (auto &w : workers_) {
      w.join();
    }
  }

private:
  std::vector<std::thread> workers_;
  std::queue<std::function<void()>> tasks_;
  std::mutex mutex_;
  std::condition_variable cv_;
  bool stop_ = false;
};

#endif
