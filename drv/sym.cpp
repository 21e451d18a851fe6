// Runs generated cases on the symbolic library and prints what it stored, as JSON.
#include "ga.hpp"
#include "parser.hpp"
#include "poly.hpp"

#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

static const double D = getenv("SYM_DEN") ? atof(getenv("SYM_DEN")) : 16;   // values in units of 1/D
static volatile long current = -1;
static void on_signal(int s)
{
    char b[64];
    int n = snprintf(b, sizeof b, "%ld CRASH signal %d\n", (long)current, s);
    if (write(1, b, n)) {}
    _exit(4);
}
static std::string num(float f)
{
    double x = f * D;
    if (!std::isfinite(x)) return "2000000001";
    if (x != std::floor(x) || std::fabs(x) > 1073741824.0) return "2000000002";
    return std::to_string((long)x);
}
static std::string bytes(std::string const& s)
{
    std::string o = "[";
    for (size_t i = 0; i < s.size(); ++i) o += (i ? "," : "") + std::to_string((int)(unsigned char)s[i]);
    return o + "]";
}
static std::string dump(mon const& m)
{
    std::string o = "[";
    for (auto const& f : m.factors) o += (o.size() > 1 ? "," : "") + ("[" + bytes(f.first)) + "," + std::to_string(f.second) + "]";
    return o + "]";
}
static std::string dump(poly const& p)
{
    std::string o = "[";
    for (auto const& t : p.terms) o += (o.size() > 1 ? "," : "") + ("[" + dump(t.first)) + "," + num(t.second) + "]";
    return o + "]";
}
static std::string dump(mv const& x)
{
    std::string o = "[";
    for (auto const& t : x.terms) o += (o.size() > 1 ? "," : "") + ("[" + std::to_string(t.first)) + "," + dump(t.second) + "]";
    return o + "]";
}
template <class T>
static std::string shown(T const& x)
{
    std::ostringstream os;
    os << x;
    return bytes(os.str());
}
static std::string full(mon const& m) { return dump(m) + ",[]"; }
static std::string full(poly const& m) { return dump(m) + "," + shown(m); }
static std::string full(mv const& m) { return dump(m) + "," + shown(m); }
static std::string unhex(std::string const& h)
{
    std::string s;
    for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char)std::stoi(h.substr(i, 2), nullptr, 16);
    return s;
}
enum { NM = 4, NX = 3 };

static std::string program(algebra const& a, std::istringstream& in)
{
    std::vector<mon> m(NM + 1);
    std::vector<poly> p(NM + 1);
    std::vector<mv> x(NX + 1, mv{a});
    std::vector<std::string> was;
    auto all = [&](std::vector<std::string>& o) {
        o.clear();
        for (int k = 1; k <= NM; ++k) o.push_back("\"m\"," + std::to_string(k) + "," + full(m[k]));
        for (int k = 1; k <= NM; ++k) o.push_back("\"p\"," + std::to_string(k) + "," + full(p[k]));
        for (int k = 1; k <= NX; ++k) o.push_back("\"x\"," + std::to_string(k) + "," + full(x[k]));
    };
    all(was);
    std::string out = "[";
    std::string op, v;
    int d, s, t, c;
    while (in >> op >> d >> s >> t >> v >> c)
    {
        std::string name = unhex(v), res;
        if (op == "mclr") m[d] = mon{};
        else if (op == "mpush") m[d].push(name, c);
        else if (op == "mcpy") m[d] = m[s];
        else if (op == "mmul") m[d] = m[s] * m[t];
        else if (op == "mimul") m[d] *= m[s];
        else if (op == "cmp")
            res = "[" + std::to_string((int)(m[s] == m[t])) + "," + std::to_string((int)(m[s] < m[t])) + ","
                  + std::to_string((int)(std::hash<mon>{}(m[s]) == std::hash<mon>{}(m[t]))) + "]";
        else if (op == "deg") res = "[" + std::to_string(m[s].degree()) + "]";
        else if (op == "pclr") p[d] = poly{};
        else if (op == "ppush") p[d].push(m[s], (float)(c / D));
        else if (op == "padd") p[d] = p[s] + p[t];
        else if (op == "piadd") p[d] += p[s];
        else if (op == "pmul") p[d] = p[s] * p[t];
        else if (op == "pimul") p[d] *= p[s];
        else if (op == "pneg") p[d] = -p[s];
        else if (op == "pnegr") { poly q = p[s]; p[d] = -std::move(q); }
        else if (op == "xclr") x[d] = mv{a};
        else if (op == "xpush") x[d].push(c, p[s]);
        else if (op == "xneg") x[d] = -x[s];
        else if (op == "xnegr") { mv q = x[s]; x[d] = -std::move(q); }
        else if (op == "xrev") x[d] = ~x[s];
        else if (op == "xrevr") { mv q = x[s]; x[d] = ~std::move(q); }
        else if (op == "xadd") x[d] = x[s] + x[t];
        else if (op == "xiadd") x[d] += x[s];
        else if (op == "xisub") x[d] -= x[s];
        else if (op == "xmul") x[d] = x[s] * x[t];
        else if (op == "xext") x[d] = x[s] ^ x[t];
        else if (op == "xreg") x[d] = x[s] & x[t];
        else if (op == "xdot") x[d] = x[s] | x[t];
        else if (op == "ximul") x[d] *= x[s];
        else if (op == "xiext") x[d] ^= x[s];
        else if (op == "xireg") x[d] &= x[s];
        else if (op == "xidot") x[d] |= x[s];
        else { fprintf(stderr, "bad op %s\n", op.c_str()); exit(3); }
        if (res.empty())
        {
            std::vector<std::string> now;
            all(now);
            size_t target = op[0] == 'm' ? d - 1 : op[0] == 'p' ? NM + d - 1 : 2 * NM + d - 1;
            res = "[";
            for (size_t k = 0; k < now.size(); ++k)
                if (k == target || now[k] != was[k]) res += (res.size() > 1 ? ",[" : "[") + now[k] + "]";
            res += "]";
            was = now;
        }
        out += (out.size() > 1 ? "," : "") + res;
    }
    return out + "]";
}

// what a line needs that several threads may share
struct Request
{
    long id;
    std::string mode, rest;
    uint32_t P, Q, R;
    algebra const* a;
    std::vector<std::shared_ptr<mv const>> shared;   // B: the operands
};
template <class F> static void with_text(std::istringstream& in, F f)
{
    std::string h;
    in >> h;
    f(unhex(h == "-" ? "" : h));
}
static std::string both(mv const& x, mv const& y, bool pga)
{
    std::string o = "[" + full(x) + "," + full(y);
    mv const r[] = {x + y, x * y, x ^ y, x | y, pga ? x & y : x, ~x, -y};
    for (mv const& v : r) o += "," + full(v);
    return o + "," + full(x) + "," + full(y) + "]";
}
static std::string answer(Request const& q)
{
    std::istringstream in(q.rest);
    std::string const& mode = q.mode;
    algebra const& a = *q.a;
    uint32_t const P = q.P, Q = q.Q, R = q.R;
    std::string out;
    bool pga = P == 3 && Q == 0 && R == 1;
    if (mode == "T" || mode == "S")
    {   // one row, or one entry, of the multiplication tables
        uint32_t x, y0 = 0, y1 = 1u << (P + Q + R);
        in >> x;
        if (mode == "S") { in >> y0; y1 = y0 + 1; }
        std::string ops[4];
        for (uint32_t y = y0; y != y1; ++y)
        {
            std::string sep = y == y0 ? "" : ",";
            ops[0] += sep + std::to_string(a.mul(x, y));
            ops[1] += sep + std::to_string(a.ext(x, y));
            ops[2] += sep + std::to_string(a.dot(x, y));
            if (pga) ops[3] += sep + std::to_string(a.reg(x, y));
        }
        out = "{\"mul\":[" + ops[0] + "],\"ext\":[" + ops[1] + "],\"dot\":[" + ops[2] + "],\"reg\":[" + ops[3] + "],\"rev\":"
              + std::to_string((int)a.rev(x)) + ",\"dual\":" + std::to_string(pga ? a.dual(x) : 0)
              + ",\"pss\":" + std::to_string(a.pss()) + ",\"eqs\":[";
        // equality with this and nearby signatures
        uint32_t near[][3] = {{P, Q, R}, {Q, P, R}, {P, R, Q}, {R, Q, P}, {Q, R, P}, {P + 1, Q, R}, {P, Q + 1, R}, {P, Q, R + 1}, {P + 1, Q + (Q ? -1 : 0), R}};
        for (auto& n : near)
            if (n[0] + n[1] + n[2] < 31)
                out += (out.back() == '[' ? "[" : ",[") + std::to_string(n[0]) + "," + std::to_string(n[1]) + "," + std::to_string(n[2]) + ","
                       + std::to_string((int)(a == algebra{n[0], n[1], n[2]})) + "]";
        out += "]}";
    }
    else if (mode == "P") out = program(a, in);
    else if (mode == "L")
    {
        std::string h;
        in >> h;
        std::string text = unhex(h == "-" ? "" : h);
        try
        {
            mv v = parse(text, a);
            out  = "{\"r\":\"ok\",\"v\":" + dump(v) + ",\"s\":" + shown(v) + "}";
        }
        catch (std::exception const&) { out = "{\"r\":\"err\",\"v\":[],\"s\":[]}"; }
    }
    else if (mode == "B")
    {
        if (q.shared.size() == 2) return both(*q.shared[0], *q.shared[1], pga);
        std::vector<mv> v;
        for (int i = 0; i < 2; ++i) with_text(in, [&](std::string const& t) { v.push_back(parse(t, a)); });
        return both(v[0], v[1], pga);
    }
    else { fprintf(stderr, "bad mode\n"); exit(3); }
    return out;
}
static bool read(Request& q)
{
    std::string line;
    if (!std::getline(std::cin, line)) return false;
    std::istringstream in(line);
    in >> q.id >> q.mode >> q.P >> q.Q >> q.R;
    static std::map<std::vector<uint32_t>, std::unique_ptr<algebra>> algebras;
    auto& a = algebras[{q.P, q.Q, q.R}];
    if (!a) a.reset(new algebra{q.P, q.Q, q.R});
    q.a = a.get();
    q.rest.clear();
    std::getline(in, q.rest);
    q.shared.clear();
    return true;
}
// every line in order, backwards, with a stride, and by all threads at once:
//   <id> <phase> <thread> <result>     for each phase and distinct result
static int pure(int threads, int rounds, size_t stride, std::string const& phases)
{
    auto wanted = [&](char p) { return phases.find(p) != std::string::npos; };
    std::vector<Request> qs;
    for (Request q; read(q);) qs.push_back(q);
    size_t const n = qs.size();
    alarm(600);
    auto put = [&](size_t i, int phase, int t, std::string const& r) {
        std::cout << qs[i].id << ' ' << phase << ' ' << t << ' ' << r << '\n';
    };
    if (wanted('1'))
        for (size_t i = 0; i < n; ++i) (current = qs[i].id), put(i, 1, 0, answer(qs[i]));
    if (wanted('2'))
        for (size_t i = n; i-- > 0;) (current = qs[i].id), put(i, 2, 0, answer(qs[i]));
    std::vector<bool> done(n, false);
    for (size_t i = 0, k = 0; i < n && wanted('3'); ++i)
    {
        k = (k + stride) % n;
        while (done[k]) k = (k + 1) % n;
        done[k] = true;
        current = qs[k].id;
        put(k, 3, 0, answer(qs[k]));
    }
    for (Request& q : qs)   // operands read by all threads
        if (q.mode == "B")
        {
            std::istringstream in(q.rest);
            for (int i = 0; i < 2; ++i)
                with_text(in, [&](std::string const& t) { q.shared.emplace_back(new mv(parse(t, *q.a))); });
        }
    std::cout.flush();
    std::vector<std::vector<std::set<std::string>>> got(threads, std::vector<std::set<std::string>>(n));
    std::vector<std::thread> ts;
    for (int t = 0; t < threads && wanted('4'); ++t)
        ts.emplace_back([&, t] {
            for (size_t from = 0; from < n; from += 8)   // eight lines at a time, each thread starting elsewhere
            {
                size_t const m = std::min<size_t>(8, n - from);
                for (int r = 0; r < rounds; ++r)
                    for (size_t i = 0; i < m; ++i)
                    {
                        size_t k = from + (i + t) % m;
                        got[t][k].insert(answer(qs[k]));
                    }
            }
        });
    for (auto& t : ts) t.join();
    for (size_t i = 0; i < n; ++i)
    {
        std::set<std::string> all;
        for (int t = 0; t < threads; ++t)
            for (auto const& r : got[t][i])
                if (all.insert(r).second) put(i, 4, t + 1, r);
    }
    std::cout << "END" << std::endl;
    return 0;
}

int main(int argc, char** argv)
{
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM}) signal(s, on_signal);
    if (argc > 3) return pure(atoi(argv[1]), atoi(argv[2]), atoi(argv[3]), argc > 4 ? argv[4] : "1234");
    for (Request q; read(q);)
    {
        current = q.id;
        alarm(20);
        std::string out = answer(q);
        alarm(0);
        std::cout << q.id << ' ' << out << std::endl;
    }
}
