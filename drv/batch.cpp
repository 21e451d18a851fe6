// Application of a motion to arrays.  Input: motion dims x steps interleaved:
//   count of elements m, number of steps, elements..., then per step: src dst n motion...
// The array ends (or begins) at an unmapped page.  Output: the array after each step.
#include "kd.hpp"
#include <new>
#include <sys/mman.h>
using namespace kln;

template <typename M, typename T> void batch(float const* in, VF& out)
{
    int m = static_cast<int>(in[0]), steps = static_cast<int>(in[1]);
    bool low = in[2] != 0.f;
    in += 3;
    size_t bytes = sizeof(T) * static_cast<size_t>(m);
    size_t pages = (bytes + 4095) / 4096 + 1;
    char* base = static_cast<char*>(mmap(nullptr, (pages + 2) * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(base + 4096, pages * 4096, PROT_READ | PROT_WRITE);
    char* end = base + 4096 + pages * 4096;
    T* a = reinterpret_cast<T*>(low ? base + 4096 : end - bytes);
    for (int i = 0; i < m; ++i) { new (a + i) T(mk<T>(in)); in += Ty<T>::dim(); }
    for (int s = 0; s < steps; ++s)
    {
        int src = static_cast<int>(in[0]), dst = static_cast<int>(in[1]);
        size_t n = static_cast<size_t>(in[2]);
        M v = mk<M>(in + 3);
        in += 3 + Ty<M>::dim();
        v(a + src, a + dst, n);
        for (int i = 0; i < m; ++i) rd(a[i], out);
    }
    munmap(base, (pages + 2) * 4096);
}
// One application to a long array that repeats its first p elements.
// Output: maximal stretches (from, length, first elements) that repeat with period p.
template <typename M, typename T> void stretch(float const* in, VF& out)
{
    int m = static_cast<int>(in[0]), p = static_cast<int>(in[1]), d = Ty<T>::dim();
    int src = static_cast<int>(in[2]), dst = static_cast<int>(in[3]);
    size_t n = static_cast<size_t>(in[4]);
    M v = mk<M>(in + 5);
    in += 5 + Ty<M>::dim();
    size_t bytes = sizeof(T) * static_cast<size_t>(m);
    size_t pages = (bytes + 4095) / 4096 + 1;
    char* base = static_cast<char*>(mmap(nullptr, (pages + 2) * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(base + 4096, pages * 4096, PROT_READ | PROT_WRITE);
    T* a = reinterpret_cast<T*>(base + 4096 + pages * 4096 - bytes);
    for (int i = 0; i < m; ++i) new (a + i) T(mk<T>(in + d * (i % p)));
    v(a + src, a + dst, n);
    VF all;
    for (int i = 0; i < m; ++i) rd(a[i], all);
    munmap(base, (pages + 2) * 4096);
    auto same = [&](int i, int j) { for (int k = 0; k < d; ++k) if (!(all[i * d + k] == all[j * d + k])) return false; return true; };
    for (int from = 0; from < m && out.size() < 4000;)
    {
        int to = from;
        while (to < m && (to < from + p || same(to, to - p))) ++to;
        out.push_back(static_cast<float>(from));
        out.push_back(static_cast<float>(to - from));
        for (int i = from; i < to && i < from + p; ++i) out.insert(out.end(), all.begin() + i * d, all.begin() + (i + 1) * d);
        from = to;
    }
}
#define B(M, MT, T, TT) OP("batch_" M "_" T, batch<MT, TT>(in, out);) OP("long_" M "_" T, stretch<MT, TT>(in, out);)
B("rotor", rotor, "plane", plane)
B("rotor", rotor, "line", line)
B("rotor", rotor, "point", point)
B("rotor", rotor, "dir", direction)
B("motor", motor, "plane", plane)
B("motor", motor, "line", line)
B("motor", motor, "point", point)
B("motor", motor, "dir", direction)
int main() { return kd_main(); }
