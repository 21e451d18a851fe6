// Every operation again, in several orders and from several threads at once.
// Input: case lines as in kd.hpp.  Output, one line per case, phase and distinct outcome:
//   <id> <phase> <thread> <result> <operands before> <operands after>     (hex, "-" if empty)
// Phases: 1 in order, 2 backwards, 3 with a stride (chosen by the model), 4 threads (after 3, which makes
// the operands that the threads share).


#define G_ALL
#include "exact.cpp"
#include "approx.cpp"
using namespace kln;
// a motion of an array of five (of the same element); the array read is an operand too
template <typename M, typename E, typename F> void many(float const* in, VF& out, F f)
{
    M m = mk<M>(in);
    E from[5], to[5];
    for (int i = 0; i < 5; ++i) from[i] = to[i] = mk<E>(in + Ty<M>::dim());
    seen(m);
    for (int i = 0; i < 5; ++i) seen(from[i]);
    f(m, from, to);
    for (int i = 0; i < 5; ++i) rd(to[i], out);
    seen(m);
    for (int i = 0; i < 5; ++i) seen(from[i]);
}
#define MANY(op, M, E) OP("arr_" op, { many<M, E>(in, out, [](M const& m, E* f, E* t) { m(f, t, 5); }); })
MANY("sw_rotor_plane", rotor, plane)
MANY("sw_rotor_line", rotor, line)
MANY("sw_rotor_point", rotor, point)
MANY("sw_rotor_dir", rotor, direction)
MANY("sw_motor_plane", motor, plane)
MANY("sw_motor_line", motor, line)
MANY("sw_motor_point", motor, point)
MANY("sw_motor_dir", motor, direction)

#include <atomic>
#include <set>
#include <thread>

struct Call
{
    std::string id, op;
    VF in;
    OpFn f;
    std::vector<void*> objs;
};
static std::string hex(float const* v, size_t n)
{
    std::string o;
    char b[12];
    for (size_t i = 0; i < n; ++i)
    {
        uint32_t u;
        std::memcpy(&u, v + i, 4);
        std::snprintf(b, sizeof b, "%08x", u);
        o += b;
    }
    return o.empty() ? "-" : o;
}
static std::string outcome(Call& c, VF& out, VF& ops)
{
    out.clear();
    ops.clear();
    Shared sh = {c.objs, 0, &ops};
    kd_shared() = &sh;
    c.f(c.in.data(), static_cast<int>(c.in.size()) - 64, out);
    if (c.objs.size() < sh.objs.size()) c.objs = sh.objs;   // (the first call only)
    size_t h = ops.size() / 2;
    return hex(out.data(), out.size()) + " " + hex(ops.data(), h) + " " + hex(ops.data() + h, ops.size() - h);
}
static void print(Call const& c, int phase, int thread, std::string const& o)
{
    std::printf("%s %d %d %s\n", c.id.c_str(), phase, thread, o.c_str());
}
// all arrive before any leaves
struct Barrier
{
    std::atomic<int> n, round;
    int const all;
    explicit Barrier(int a) : n(0), round(0), all(a) {}
    void wait()
    {
        int r = round.load();
        if (++n == all)
        {
            n = 0;
            ++round;
        }
        else
            while (round.load() == r) std::this_thread::yield();
    }
};

int main(int argc, char** argv)
{
    int const threads = argc > 1 ? std::atoi(argv[1]) : 8, rounds = argc > 2 ? std::atoi(argv[2]) : 100;
    size_t const stride = argc > 3 ? static_cast<size_t>(std::atoi(argv[3])) : 7;
    std::string const phases = argc > 4 ? argv[4] : "1234";   // each run of the program makes some
    auto wanted = [&](char p) { return phases.find(p) != std::string::npos; };
    std::vector<Call> cs;
    std::vector<char> buf(1 << 16);
    while (std::fgets(buf.data(), static_cast<int>(buf.size()), stdin))
    {
        Call c;
        char* save = nullptr;
        c.id = strtok_r(buf.data(), " \n", &save);
        c.op = strtok_r(nullptr, " \n", &save);
        while (char* t = strtok_r(nullptr, " \n", &save))
        {
            uint32_t u = static_cast<uint32_t>(std::strtoul(t, nullptr, 16));
            float f;
            std::memcpy(&f, &u, 4);
            c.in.push_back(f);
        }
        c.in.resize(c.in.size() + 64);
        if (!registry().count(c.op))
        {
            std::fprintf(stderr, "driver: unknown op %s\n", c.op.c_str());
            return 3;
        }
        c.f = registry()[c.op];
        cs.push_back(c);
    }
    size_t const n = cs.size();
    {
        VF out, ops;
        if (wanted('1'))
            for (size_t i = 0; i < n; ++i) print(cs[i], 1, 0, outcome(cs[i], out, ops));
        if (wanted('2'))
            for (size_t i = n; i-- > 0;) print(cs[i], 2, 0, outcome(cs[i], out, ops));
        std::vector<bool> done(n, false);
        for (size_t i = 0, k = 0; i < n && wanted('3'); ++i)
        {
            k = (k + stride) % n;
            while (done[k]) k = (k + 1) % n;
            done[k] = true;
            print(cs[k], 3, 0, outcome(cs[k], out, ops));
        }
    }
    if (!wanted('4'))
    {
        std::printf("END\n");
        return 0;
    }
    // the calls of one operation, by all threads at once, each starting elsewhere
    Barrier bar(threads);
    std::vector<std::vector<std::set<std::string>>> got(static_cast<size_t>(threads), std::vector<std::set<std::string>>(n));
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t)
        ts.emplace_back([&, t] {
            VF out, ops;
                for (size_t from = 0; from < n;)
            {
                size_t to = from;
                while (to < n && cs[to].op == cs[from].op) ++to;
                bar.wait();
                std::vector<std::string> last(to - from);
                for (int r = 0; r < rounds; ++r)
                    for (size_t i = 0; i < to - from; ++i)
                    {
                        size_t k = from + (i + static_cast<size_t>(t)) % (to - from);
                        std::string o = outcome(cs[k], out, ops);
                        if (o != last[k - from])
                        {
                            last[k - from] = o;
                            got[static_cast<size_t>(t)][k].insert(o);
                        }
                    }
                from = to;
            }
        });
    for (auto& t : ts) t.join();
    for (size_t i = 0; i < n; ++i)
    {
        std::set<std::string> all;
        for (int t = 0; t < threads; ++t)
            for (auto const& o : got[static_cast<size_t>(t)][i])
                if (all.insert(o).second) print(cs[i], 4, t + 1, o);
    }
    std::printf("END\n");
    return 0;
}
