// Comparison, loading, storing, constraining.
#include "kd.hpp"
#include <sys/mman.h>
using namespace kln;

// input: [float operands | buffer of 12], offset last where used
#define EQ(T, A) \
    OP("eq_" T, { A a = mk<A>(in); A b = mk<A>(in + Ty<A>::dim()); out.push_back(a == b ? 1.f : 0.f); }) \
    OP("approx_" T, { A a = mk<A>(in); A b = mk<A>(in + Ty<A>::dim()); out.push_back(a.approx_eq(b, in[2 * Ty<A>::dim()]) ? 1.f : 0.f); })
EQ("plane", plane)
EQ("line", line)
EQ("rotor", rotor)
EQ("motor", motor)

// twelve floats that end where an unmapped page begins
struct Buf
{
    char* page;
    float* f;
    explicit Buf(float const* v)
    {
        page = static_cast<char*>(mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        mprotect(page + 4096, 4096, PROT_NONE);
        f = reinterpret_cast<float*>(page + 4096) - 12;
        std::memcpy(f, v, 48);
    }
    ~Buf() { munmap(page, 8192); }
    void dump(VF& out) { for (int i = 0; i < 12; ++i) out.push_back(f[i]); }
};
#define STORE(T, A) OP("store_" T, { A a = mk<A>(in); int d = Ty<A>::dim(); Buf b(in + d); \
    a.store(b.f + static_cast<int>(in[d + 12])); b.dump(out); })
STORE("point", point)
STORE("rotor", rotor)
STORE("branch", branch)
#define LOAD(T, A, stmt) OP("load_" T, { Buf b(in); float* p = b.f + static_cast<int>(in[12]); A a = mk<A>(in); stmt; b.dump(out); rd(a, out); })
LOAD("plane", plane, a.load(p))
LOAD("planeptr", plane, a = plane(p))
LOAD("point", point, a.load(p))
LOAD("rotor", rotor, a.load_normalized(p))
LOAD("trans", translator, a.load_normalized(p))
LOAD("dir", direction, a = direction(p))
LOAD("motor", motor, a.load(p))
#define CON(T, A) \
    OP("constrain_" T, { A a = mk<A>(in); a.constrain(); rd(a, out); a.constrain(); rd(a, out); }) \
    OP("constrained_" T, { A a = mk<A>(in); A b = a.constrained(); rd(b, out); rd(b.constrained(), out); })
CON("rotor", rotor)
CON("motor", motor)
int main() { return kd_main(); }
