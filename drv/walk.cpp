// Long histories of small motions.  One line per walk:
//   <id> W <6 floats: the line> <4: P> <4: Q> <6: L> <8: M> <4: R> <3: T> <step names...>
// Output: <id> <motor 8> <rotor 4> <trans 3> (the generators) then the register each step changed.
#include "kd.hpp"
#include <sstream>
using namespace kln;
static void put(std::ostream& o, VF const& v)
{
    for (float f : v) { uint32_t u; std::memcpy(&u, &f, 4); o << ' ' << std::hex << u << std::dec; }
}
template <typename T> void show(std::ostream& o, T const& x) { VF v; rd(x, v); put(o, v); }
static float number(std::istream& in)
{
    std::string x;
    in >> x;
    uint32_t u = static_cast<uint32_t>(std::strtoul(x.c_str(), nullptr, 16));
    float f;
    std::memcpy(&f, &u, 4);
    return f;
}
int main()
{
    std::vector<char> buf(1 << 20);
    while (std::fgets(buf.data(), static_cast<int>(buf.size()), stdin))
    {
        std::istringstream in(buf.data());
        std::ostringstream out;
        std::string id, w;
        in >> id >> w;
        float b[6], p[4], q[4], l[6], m0[8], r0[4], t0[3];
        for (float& x : b) x = number(in);
        for (float& x : p) x = number(in);
        for (float& x : q) x = number(in);
        for (float& x : l) x = number(in);
        for (float& x : m0) x = number(in);
        for (float& x : r0) x = number(in);
        for (float& x : t0) x = number(in);
        motor const m = exp(mk<line>(b));
        rotor const r = exp(mk<branch>(b + 3));
        translator const t = exp(mk<ideal_line>(b));
        show(out, m); show(out, r); show(out, t);
        motor M = mk<motor>(m0);
        rotor R = mk<rotor>(r0);
        translator T = mk<translator>(t0);
        point P = mk<point>(p);
        plane Q = mk<plane>(q);
        line L = mk<line>(l);
        while (in >> w)
        {
#define STEP(name, X, e) else if (w == name) { X = e; show(out, X); }
            if (false) {}
            STEP("m*M", M, m * M) STEP("M*m", M, M * m) STEP("M/m", M, M / m)
            STEP("r*M", M, r * M) STEP("M*r", M, M * r) STEP("M/r", M, M / r)
            STEP("t*M", M, t * M) STEP("M*t", M, M * t) STEP("M/t", M, M / t)
            STEP("r*R", R, r * R) STEP("R*r", R, R * r) STEP("R/r", R, R / r)
            STEP("t*T", T, t * T) STEP("T*t", T, T * t) STEP("T/t", T, T / t)
            STEP("R*T", M, R * T) STEP("T*R", M, T * R) STEP("R*M", M, R * M) STEP("M*R", M, M * R)
            STEP("T*M", M, T * M) STEP("M*T", M, M * T)
            STEP("m(P)", P, m(P)) STEP("m(Q)", Q, m(Q)) STEP("m(L)", L, m(L))
            STEP("r(P)", P, r(P)) STEP("r(Q)", Q, r(Q)) STEP("r(L)", L, r(L))
            STEP("t(P)", P, t(P)) STEP("t(Q)", Q, t(Q)) STEP("t(L)", L, t(L))
            else if (w == "nM") { M.normalize(); show(out, M); }
            else if (w == "nR") { R.normalize(); show(out, R); }
            else { std::fprintf(stderr, "driver: unknown step %s\n", w.c_str()); return 3; }
        }
        std::printf("%s%s\n", id.c_str(), out.str().c_str());
        std::fflush(stdout);
    }
    return 0;
}
