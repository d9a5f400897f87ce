#include <sv.h>
#include <thread>
#include <atomic>
#include <mutex>
#include <stdexcept>
static std::atomic<int> x{0}; static std::mutex m; static int y;
extern "C" void sv_main() {
  int k = sv_int(1, 3);
  std::thread t([&] { x.fetch_add(k); std::lock_guard l(m); y++; });
  std::thread t2([&] { x.fetch_add(1); std::lock_guard l(m); y++; });
  t.join(); t2.join();
  try { if (k == 2) throw std::runtime_error("a"); sv_cover("nothrow"); } catch (std::exception& e) { sv_cover("caught"); }
  sv_assert(x == k + 1); sv_assert(y == 2);
}
