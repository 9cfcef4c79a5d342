// Linked into a second build of the tool: operator new that returns memory at
// addresses whose order has nothing to do with the order of the allocations.
#include <cstdint>
#include <cstdlib>
#include <new>

namespace {
std::uint64_t state = [] {
  const char *env = std::getenv("VF_SHUFFLE_SEED");
  return (env ? std::strtoull(env, nullptr, 10) : 1) * 0x9E3779B97F4A7C15ull | 1;
}();

std::uint64_t next() {
  if (state == 0) // not initialized yet
    return 0;
  state ^= state << 13;
  state ^= state >> 7;
  state ^= state << 17;
  return state;
}

void *allocate(std::size_t size, std::size_t align) {
  // Different size classes lie in different regions.
  std::uint64_t r = next();
  std::size_t pad = 0;
  if (size >= 2048)
    pad = (r & 7) * 4096 * ((r >> 3) & 3);
  else
    pad = std::size_t(16) << ((r >> 5) % 7);
  void *result = nullptr;
  if (align < sizeof(void *))
    align = sizeof(void *);
  if (posix_memalign(&result, align < 16 ? 16 : align, size + pad) != 0)
    std::abort();
  return result;
}
} // namespace

void *operator new(std::size_t n) { return allocate(n, 0); }
void *operator new[](std::size_t n) { return allocate(n, 0); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return allocate(n, 0); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return allocate(n, 0); }
void *operator new(std::size_t n, std::align_val_t a) { return allocate(n, std::size_t(a)); }
void *operator new[](std::size_t n, std::align_val_t a) { return allocate(n, std::size_t(a)); }
void *operator new(std::size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return allocate(n, std::size_t(a)); }
void *operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return allocate(n, std::size_t(a)); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
void operator delete(void *p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { std::free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { std::free(p); }
