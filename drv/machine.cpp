// Register machine over persistent Klein objects; instructions are the operations of exact.cpp.
// One line per program:   <id> P <words...>   with words  set T d v.. | op d s t
// Output: <id> then after each instruction the registers that changed:  n (T d v..)*
#define KD_MACHINE
#define G_ALL
#include "kd.hpp"
#include <sstream>
using namespace kln;

enum { NR = 3 };
template <typename T> struct Tag;
#define TAG(T, N, K) template <> struct Tag<T> { static char const* name() { return N; } enum { no = K }; };
TAG(plane, "plane", 1) TAG(point, "point", 2) TAG(direction, "dir", 3) TAG(line, "line", 4) TAG(ideal_line, "ideal", 5)
TAG(branch, "branch", 6) TAG(rotor, "rotor", 7) TAG(translator, "trans", 8) TAG(motor, "motor", 9) TAG(dual, "dual", 10) TAG(float, "scalar", 11)
struct File;
template <typename T> T* slot(int d);
template <typename T> T& reg(int d);
template <typename T> struct Bank
{
    alignas(16) unsigned char mem[NR][sizeof(T)];
    VF old[NR];
};
template <typename T> Bank<T>& bank() { static Bank<T> b; return b; }
template <typename T> T& reg(int d) { return *reinterpret_cast<T*>(bank<T>().mem[d - 1]); }
template <typename T> void put(int d, T const& v) { reg<T>(d) = v; }
typedef void (*MFn)(int d, int s, int t);
static std::map<std::string, MFn>& mreg() { static std::map<std::string, MFn> r; return r; }
struct MReg { MReg(char const* n, MFn f) { mreg()[n] = f; } };
#undef OP1
#undef OP2
#define MOP(name, ...) static MReg KD_CAT(mreg_, __COUNTER__)(name, [](int d, int s, int t) { (void)t; __VA_ARGS__ });
#define OP1(name, A, expr) MOP(name, A a = reg<A>(s); put(d, expr);)
#define OP2(name, A, B, expr) MOP(name, A a = reg<A>(s); B b = reg<B>(t); put(d, expr);)
#include "exact.cpp"
// assignment to an object that already holds a motion, in place
MOP("motor_set_rotor", (void)s; reg<motor>(d) = reg<rotor>(t);)
MOP("motor_set_trans", (void)s; reg<motor>(d) = reg<translator>(t);)

typedef void (*SetFn)(int d, float const* v);
static std::map<std::string, std::pair<int, SetFn>> setters;
static std::vector<void (*)(std::ostream&, int&, bool)> dumpers;
template <typename T> void setter(int d, float const* v) { new (bank<T>().mem[d - 1]) T(mk<T>(v)); }
template <typename T> void dumper(std::ostream& o, int& n, bool force)
{
    for (int d = 1; d <= NR; ++d)
    {
        VF v;
        rd(reg<T>(d), v);
        bool same = v.size() == bank<T>().old[d - 1].size();
        for (size_t k = 0; same && k < v.size(); ++k) same = v[k] == bank<T>().old[d - 1][k] && v[k] == v[k];
        if (same && !force) continue;
        bank<T>().old[d - 1] = v;
        ++n;
        o << ' ' << Tag<T>::name() << ' ' << d;
        for (float f : v) { uint32_t u; std::memcpy(&u, &f, 4); o << ' ' << std::hex << u << std::dec; }
    }
}
template <typename T> void add() { setters[Tag<T>::name()] = std::make_pair(Ty<T>::dim(), &setter<T>); dumpers.push_back(&dumper<T>); }

int main()
{
    add<plane>(); add<point>(); add<direction>(); add<line>(); add<ideal_line>(); add<branch>();
    add<rotor>(); add<translator>(); add<motor>(); add<dual>(); add<float>();
    struct sigaction sa;
    std::memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM};
    for (int s : sigs) sigaction(s, &sa, nullptr);
    std::vector<char> buf(1 << 22);
    while (std::fgets(buf.data(), static_cast<int>(buf.size()), stdin))
    {
        std::istringstream in(buf.data());
        std::string id, w;
        in >> id >> w;
        std::ostringstream out;
        int sig = sigsetjmp(g_jmp, 1);
        if (sig == 0)
        {
            alarm(20);
            bool started = false;
            while (in >> w)
            {
                if (w == "go") { started = true; std::ostringstream junk; int n = 0; for (auto f : dumpers) f(junk, n, true); continue; }
                if (w == "set")
                {
                    int d;
                    in >> w >> d;
                    VF v;
                    for (int k = 0; k < setters[w].first; ++k)
                    {
                        std::string x;
                        in >> x;
                        uint32_t u = static_cast<uint32_t>(std::strtoul(x.c_str(), nullptr, 16));
                        float f;
                        std::memcpy(&f, &u, 4);
                        v.push_back(f);
                    }
                    setters[w].second(d, v.data());
                }
                else
                {
                    int d, s, t;
                    in >> d >> s >> t;
                    if (!mreg().count(w)) { std::fprintf(stderr, "driver: unknown op %s\n", w.c_str()); return 3; }
                    mreg()[w](d, s, t);
                }
                if (!started) continue;
                std::ostringstream one;
                int n = 0;
                for (auto f : dumpers) f(one, n, false);
                out << ' ' << n << one.str();
            }
            alarm(0);
            std::printf("%s%s\n", id.c_str(), out.str().c_str());
        }
        else std::printf("%s CRASH %d\n", id.c_str(), sig);
        std::fflush(stdout);
    }
    return 0;
}
