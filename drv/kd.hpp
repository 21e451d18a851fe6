// Common part of the conformance drivers: builds real Klein objects from the
// components the model chose, runs one public operation, reports the
// components of the result through the public readers.
// Protocol (stdin -> stdout), one line per case, floats as hex bit patterns:
//   <id> <op> <f> <f> ...      ->   <id> <f> <f> ...   |  <id> CRASH <signal>
#pragma once
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>
#include <klein/klein.hpp>

typedef std::vector<float> VF;
typedef void (*OpFn)(float const* in, int n, VF& out);

inline std::map<std::string, OpFn>& registry()
{
    static std::map<std::string, OpFn> r;
    return r;
}
struct Reg
{
    Reg(char const* n, OpFn f) { registry()[n] = f; }
};
#define KD_CAT2(a, b) a##b
#define KD_CAT(a, b) KD_CAT2(a, b)
// body sees: float const* in, int n, VF& out
#define OP(name, ...)                                                  \
    static Reg KD_CAT(reg_, __COUNTER__)(                              \
        name, [](float const* in, int n, VF& out) { (void)n; (void)in; (void)out; __VA_ARGS__ });

struct F4
{
    float b[4];
    F4(float w, float x, float y, float z) { b[0] = w; b[1] = x; b[2] = y; b[3] = z; }
};
template <typename T> struct Ty;
#define TYPE(T, DIM, MAKE, READ)                                       \
    template <> struct Ty<T>                                           \
    {                                                                  \
        static int dim() { return DIM; }                               \
        static T make(float const* v) { (void)v; MAKE }                \
        static void read(T const& o, VF& out) { (void)o; READ }        \
    };
#define P(x) out.push_back(x);
// component order: that of Lanes in spec/Klein.tla
TYPE(kln::plane, 4, return kln::plane(v[1], v[2], v[3], v[0]);
     , P(o.e0()) P(o.e1()) P(o.e2()) P(o.e3()))
TYPE(kln::point, 4, F4 q(v[0], v[1], v[2], v[3]); kln::point p; p.load(q.b); return p;
     , P(o.e123()) P(o.e032()) P(o.e013()) P(o.e021()))
TYPE(kln::direction, 3, F4 q(0.f, v[0], v[1], v[2]); return kln::direction(q.b);
     , P(o.x()) P(o.y()) P(o.z()))
TYPE(kln::line, 6, return kln::line(v[0], v[1], v[2], v[3], v[4], v[5]);
     , P(o.e01()) P(o.e02()) P(o.e03()) P(o.e23()) P(o.e31()) P(o.e12()))
TYPE(kln::ideal_line, 3, return kln::ideal_line(v[0], v[1], v[2]);
     , P(o.e01()) P(o.e02()) P(o.e03()))
TYPE(kln::branch, 3, return kln::branch(v[0], v[1], v[2]);
     , P(o.e23()) P(o.e31()) P(o.e12()))
TYPE(kln::rotor, 4, F4 q(v[0], v[1], v[2], v[3]); kln::rotor r; r.load_normalized(q.b); return r;
     , P(o.scalar()) P(o.e23()) P(o.e31()) P(o.e12()))
TYPE(kln::translator, 3, F4 q(0.f, v[0], v[1], v[2]); kln::translator t; t.load_normalized(q.b); return t;
     , P(o.e01()) P(o.e02()) P(o.e03()))
TYPE(kln::motor, 8, return kln::motor(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
     , P(o.scalar()) P(o.e23()) P(o.e31()) P(o.e12())
       P(o.e01()) P(o.e02()) P(o.e03()) P(o.e0123()))
TYPE(kln::dual, 2, kln::dual d; d.p = v[0]; d.q = v[1]; return d;
     , P(o.scalar()) P(o.e0123()))
TYPE(float, 1, return v[0];
     , P(o))
#undef P

template <typename T> T mk(float const* v) { return Ty<T>::make(v); }
#ifndef KD_SELFEQ
template <typename T> void rd(T const& o, VF& out) { Ty<T>::read(o, out); }
#else
// instead of the components: does the object equal one built from its components?
template <typename T> void rd(T const&, VF&) {}
template <typename T> void rdeq(T const& o, VF& out)
{
    VF c;
    Ty<T>::read(o, c);
    T r = Ty<T>::make(c.data());
    out.push_back(o == r && r == o ? 1.f : 0.f);
}
inline void rd(kln::plane const& o, VF& out) { rdeq(o, out); }
inline void rd(kln::line const& o, VF& out) { rdeq(o, out); }
inline void rd(kln::rotor const& o, VF& out) { rdeq(o, out); }
inline void rd(kln::motor const& o, VF& out) { rdeq(o, out); }
#endif

// the operands as they read before and after the operation; and operands that several
// threads read at once
#ifdef KD_OPERANDS
#include <new>
struct Shared
{
    std::vector<void*> objs;   // one per operand, made by the first call
    size_t next;
    VF* seen;
};
inline Shared*& kd_shared()
{
    static thread_local Shared* p = nullptr;
    return p;
}
template <typename T> void seen(T const& o) { Ty<T>::read(o, *kd_shared()->seen); }
template <typename T> T const& obj(float const* in)
{
    Shared& s = *kd_shared();
    if (s.next == s.objs.size())
    {
        void* m = nullptr;
        if (posix_memalign(&m, 64, sizeof(T))) std::abort();
        s.objs.push_back(new (m) T(mk<T>(in)));
    }
    return *static_cast<T const*>(s.objs[s.next++]);
}
#define OPERAND(A, a, in) A const& a = obj<A>(in);
#else
template <typename T> void seen(T const&) {}
#define OPERAND(A, a, in) A a = mk<A>(in);
#endif
#define OP1(name, A, expr) \
    OP(name, { OPERAND(A, a, in) seen(a); rd(expr, out); seen(a); })
// equal operands of one type are one object
template <typename A, typename B> struct Second
{
    static B& of(A&, B& b, float const*) { return b; }
    static B const& of(A const&, B const& b, float const*) { return b; }
};
template <typename A> struct Second<A, A>
{
    static bool same(float const* in)
    {
        return std::memcmp(in, in + Ty<A>::dim(), sizeof(float) * static_cast<size_t>(Ty<A>::dim())) == 0;
    }
    static A& of(A& a, A& b, float const* in) { return same(in) ? a : b; }
    static A const& of(A const& a, A const& b, float const* in) { return same(in) ? a : b; }
};
#define OPERANDS2(A, B) A a = mk<A>(in); B b0 = mk<B>(in + Ty<A>::dim()); B& b = Second<A, B>::of(a, b0, in);
#define OP2(name, A, B, expr) \
    OP(name, { OPERAND(A, a, in) OPERAND(B, b0, in + Ty<A>::dim()) typedef Second<A, B> Two_; auto& b = Two_::of(a, b0, in); \
        seen(a); seen(b); rd(expr, out); seen(a); seen(b); })

static sigjmp_buf g_jmp;
static void on_signal(int s) { siglongjmp(g_jmp, s); }

inline int kd_main()
{
    static char alt[1 << 16];
    stack_t ss;
    std::memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    std::memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM};
    for (int s : sigs) sigaction(s, &sa, nullptr);

    std::string line;
    std::vector<char> buf(1 << 20);
    while (std::fgets(buf.data(), static_cast<int>(buf.size()), stdin))
    {
        char* save = nullptr;
        char* id = strtok_r(buf.data(), " \n", &save);
        char* op = strtok_r(nullptr, " \n", &save);
        if (!id || !op) continue;
        VF in, out;
        while (char* t = strtok_r(nullptr, " \n", &save))
        {
            uint32_t u = static_cast<uint32_t>(std::strtoul(t, nullptr, 16));
            float f;
            std::memcpy(&f, &u, 4);
            in.push_back(f);
        }
        std::map<std::string, OpFn>::iterator it = registry().find(op);
        if (it == registry().end())
        {
            std::fprintf(stderr, "driver: unknown op %s\n", op);
            return 3;
        }
        int sig = sigsetjmp(g_jmp, 1);
        if (sig == 0)
        {
            alarm(10);
            in.resize(in.size() + 64);
            it->second(in.data(), static_cast<int>(in.size()) - 64, out);
            alarm(0);
            std::printf("%s", id);
            for (float f : out)
            {
                uint32_t u;
                std::memcpy(&u, &f, 4);
                std::printf(" %08x", u);
            }
            std::printf("\n");
        }
        else
        {
            alarm(0);
            std::printf("%s CRASH %d\n", id, sig);
        }
        std::fflush(stdout);
    }
    return 0;
}
