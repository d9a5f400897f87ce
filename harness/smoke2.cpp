#include <sv.h>
#include <stdexec/execution.hpp>
#include <exec/single_thread_context.hpp>
namespace ex = stdexec;
extern "C" void sv_main() {
  int k = sv_int(1, 3);
  exec::single_thread_context ctx;
  auto r = stdexec::sync_wait(ex::starts_on(ctx.get_scheduler(), ex::just(k)) | ex::then([](int i) { return i + 1; }));
  sv_assert(r.has_value());
  sv_assert(std::get<0>(*r) == k + 1);
  sv_cover("end");
}
