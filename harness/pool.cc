// Thread pool, counter and wait scenarios under the controlled scheduler.
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <vector>

#include "driver.h"
#include "rt.h"
#include "ruy/blocking_counter.h"
#include "ruy/thread_pool.h"
#include "ruy/time.h"
#include "ruy/wait.h"

namespace {

struct Shared {
  int in[160];
  int out[160];
};

// call: index of the Execute call; idx: task index.
struct PoolTask : ruy::Task {
  int call = 0;
  int idx = 0;
  int yields = 0;
  Shared* sh = nullptr;
  void Run() override {
    rt::Event("tb", call, idx);
    int v = sh->in[idx];
    for (int i = 0; i < yields; i++) rt::Yield();
    sh->out[idx] = v * 2 + 1;
    rt::Event("te", call, idx, sh->out[idx]);
  }
};

// A task type with extra payload so that the task stride differs.
struct FatTask final : PoolTask {
  char payload[40];
};

template <typename T>
void Execute(ruy::ThreadPool* pool, int call, int n, Shared* sh, int yields) {
  std::vector<T> tasks(n);
  for (int i = 0; i < n; i++) {
    tasks[i].call = call;
    tasks[i].idx = i;
    tasks[i].yields = yields;
    tasks[i].sh = sh;
    sh->in[i] = call * 160 + i;
    sh->out[i] = -1;
  }
  rt::Event("call", call, n);
  pool->Execute(n, tasks.data());
  rt::Event("ret", call, n);
  for (int i = 0; i < n; i++) {
    rt::Event("see", call, i, sh->out[i], sh->in[i] * 2 + 1);
  }
}

// scenario string: pools separated by '/', each "spin_ms:n,n,n"
void PoolBody(const std::string& spec, int yields) {
  std::size_t pos = 0;
  int call = 1;
  int pool_no = 0;
  while (pos < spec.size()) {
    std::size_t e = spec.find('/', pos);
    if (e == std::string::npos) e = spec.size();
    std::string one = spec.substr(pos, e - pos);
    pos = e + 1;
    pool_no++;
    std::size_t c = one.find(':');
    float spin = std::stof(one.substr(0, c));
    rt::Event("pnew", pool_no);
    std::unique_ptr<ruy::ThreadPool> pool(new ruy::ThreadPool);
    if (spin >= 0) pool->set_spin_milliseconds(spin);
    const char* p = one.c_str() + c + 1;
    while (*p) {
      char* q;
      int n = std::strtol(p, &q, 10);
      Shared* sh = new Shared;
      if (call % 2)
        Execute<PoolTask>(pool.get(), call, n, sh, yields);
      else
        Execute<FatTask>(pool.get(), call, n, sh, yields);
      delete sh;
      call++;
      p = q;
      if (*p == ',') p++;
    }
    rt::Event("pdel", pool_no);
    pool.reset();
    rt::Event("pgone", pool_no, rt::ThreadsAlive() - 1);
  }
}

}  // namespace

void CounterBody(const std::string& spec, int yields);

int main(int argc, char** argv) {
  return driver::Main(argc, argv, [](const driver::Scenario& s) {
    if (s.kind == "pool") {
      PoolBody(s.spec, s.yields);
    } else {
      CounterBody(s.spec, s.yields);
    }
  });
}
