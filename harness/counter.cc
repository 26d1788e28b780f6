// BlockingCounter and Wait scenarios.
#include <atomic>
#include <condition_variable>
#include <cstdlib>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

#include "rt.h"
#include "ruy/blocking_counter.h"
#include "ruy/time.h"
#include "ruy/wait.h"

// spec: "spin_ms:n,n,..."  one countdown per n, each decremented by n
// threads (fewer if n is large); "wspin_ms:k" a Wait() on a flag set by another thread, k rounds.
void CounterBody(const std::string& spec, int yields) {
  bool wait_only = spec[0] == 'w';
  std::string s = wait_only ? spec.substr(1) : spec;
  std::size_t c = s.find(':');
  float spin_ms = std::stof(s.substr(0, c));
  const ruy::Duration spin = ruy::DurationFromMilliseconds(spin_ms);
  const char* p = s.c_str() + c + 1;
  if (wait_only) {
    int rounds = std::strtol(p, nullptr, 10);
    struct Sh {
      std::mutex m;
      std::condition_variable cv;
      std::atomic<int> flag{0};
      int data[8];
    };
    std::unique_ptr<Sh> sh(new Sh);
    Sh* h = sh.get();
    std::thread setter([h, rounds, yields] {
      for (int i = 1; i <= rounds; i++) {
        for (int y = 0; y < yields; y++) rt::Yield();
        h->data[i] = i;
        rt::Event("wset", i);
        h->flag.store(i, std::memory_order_release);
        std::lock_guard<std::mutex> l(h->m);
        h->cv.notify_all();
      }
    });
    for (int i = 1; i <= rounds; i++) {
      int evals = 0;
      bool last = false;
      rt::Event("wcall", i);
      ruy::Wait(
          [&] {
            last = h->flag.load(std::memory_order_acquire) >= i;
            rt::Event("wev", i, last);
            evals++;
            return last;
          },
          spin, &h->cv, &h->m);
      rt::Event("wret", i, last, h->data[i]);
    }
    setter.join();
    return;
  }
  std::unique_ptr<ruy::BlockingCounter> counter(new ruy::BlockingCounter);
  ruy::BlockingCounter* bc = counter.get();
  int round = 0;
  while (*p) {
    char* q;
    int n = std::strtol(p, &q, 10);
    round++;
    std::vector<int> data(n, 0);
    rt::Event("creset", round, n);
    bc->Reset(n);
    std::vector<std::thread> ts;
    // many decrements: several by each thread
    const int per = n > 60 ? n / 6 + 1 : 1;
    for (int i0 = 0; i0 < n; i0 += per) {
      int* d = data.data();
      const int i1 = i0 + per < n ? i0 + per : n;
      ts.emplace_back([bc, i0, i1, d, round, yields] {
        for (int i = i0; i < i1; i++) {
          for (int y = 0; y < yields; y++) rt::Yield();
          d[i] = round;
          rt::Event("cdec", round, i);
          bool last = bc->DecrementCount();
          rt::Event("cdecd", round, i, last);
        }
      });
    }
    rt::Event("cwait", round);
    bc->Wait(spin);
    rt::Event("cret", round);
    int sum = 0;
    for (int i = 0; i < n; i++) sum += data[i] == round;
    rt::Event("csee", round, sum, n);
    for (auto& t : ts) t.join();
    rt::Event("cjoined", round);
    p = q;
    if (*p == ',') p++;
  }
  counter.reset();
}
