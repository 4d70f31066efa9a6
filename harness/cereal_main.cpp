#include "common.hpp"
#include <new>
namespace ce {
using fns = std::vector<std::function<void(vp::Case&)>>;
void part_0(fns&);
void part_1(fns&);
void part_2(fns&);
void part_3(fns&);
void part_4(fns&);
} // namespace ce

// A corrupted length may ask for anything; what is beyond reason is refused,
// which is what an allocator may do, and not what AddressSanitizer does.
static void* get(std::size_t n)
{
    if (n > (std::size_t{1} << 26))
        throw std::bad_alloc{};
    if (auto p = std::malloc(n ? n : 1))
        return p;
    throw std::bad_alloc{};
}
void* operator new(std::size_t n) { return get(n); }
void* operator new[](std::size_t n) { return get(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

int main(int argc, char** argv)
{
    ce::fns f;
    ce::part_0(f);
    ce::part_1(f);
    ce::part_2(f);
    ce::part_3(f);
    ce::part_4(f);
    return vp::run_main(argc, argv, [&](vp::Case& c) {
        vp::count("type_and_archive", c.index == 0 ? f.size() : 0);
        f[c.index % f.size()](c);
    });
}
