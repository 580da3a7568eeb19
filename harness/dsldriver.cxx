// Driver for vigra/dsl.hxx.  argv: out mode seed count depth shard nshards
// mode grow: exhaustive growth trees and random long growth; mode tangent: tangentDSL on chain codes
#include <vector>
#include <string>
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <unistd.h>
#include <algorithm>
#include "vigra/dsl.hxx"
using namespace vigra;
typedef DigitalStraightLine<int, true> L8;
typedef DigitalStraightLine<int, false> L4;
static FILE *out;
static long records = 0;
struct Rng
{
    unsigned long long s;
    Rng(long seed) : s(seed * 6364136223846793005ULL + 1442695040888963407ULL) { for(int i = 0; i < 8; ++i) next(); }
    unsigned next() { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(s >> 33); }
    int below(int n) { return next() % n; }
    int in(int a, int b) { return a + below(b - a + 1); }
    bool chance(int p) { return below(100) < p; }
};
static void line(std::string const &s)
{
    fputs(s.c_str(), out); fputc('\n', out);
    if(++records % 64 == 0) fflush(out);
}
static void at(std::string const &s) { fflush(out); fprintf(stderr, "@ %s\n", s.c_str()); alarm(20); }
struct IP { int x, y; };
static std::string pts(std::vector<IP> const &v)
{
    std::stringstream s; s << "[";
    for(size_t i = 0; i < v.size(); ++i) s << (i ? "," : "") << "[" << v[i].x << "," << v[i].y << "]";
    s << "]"; return s.str();
}
template<class L> static std::string ln(L const &l)
{
    std::stringstream s; s << "[" << l.a() << "," << l.b() << "," << l.pos() << "]"; return s.str();
}
template<class L> static std::string window(L const &l, int r)
{
    std::vector<IP> v;
    for(int y = -r; y <= r; ++y) for(int x = -r; x <= r; ++x) if(l.contains(x, y)) { IP p = {x, y}; v.push_back(p); }
    return pts(v);
}
static std::string rat(L8::RationalType const &r)
{
    std::stringstream s; s << "[" << r.numerator() << "," << r.denominator() << "]"; return s.str();
}
struct Curve
{
    std::vector<IP> p;      // accepted points, first = backward end, last = forward end
    L8 l;
    Curve(int a0) : l(a0, 1, 0) { IP o = {0, 0}; p.push_back(o); }
    // end: 1 forward, 0 backward; the line is shifted so that the opposite end is the origin
    bool grow(int end, int code, bool rec)
    {
        IP n = end ? p.back() : p.front(), o = end ? p.front() : p.back();
        if(end) { ++n.x; n.y += code; } else { --n.x; n.y -= code; }
        std::stringstream s;
        s << "{\"op\":\"add\",\"p\":" << pts(p) << ",\"n\":[" << n.x << "," << n.y << "],\"l0\":" << ln(l);
        if(rec) at(s.str());
        L8 t(l);
        t.setPos(t.pos() - t(o.x, o.y));
        int before[3] = {t.a(), t.b(), t.pos()};
        bool ok = t.addPoint(n.x - o.x, n.y - o.y);
        if(ok || before[0] != t.a() || before[1] != t.b() || before[2] != t.pos())
            t.setPos(t.pos() + t(o.x, o.y));
        else
            t = l;
        s << ",\"ok\":" << ok << ",\"l1\":" << ln(t) << "}";
        if(rec) line(s.str());
        l = t;
        if(ok) { if(end) p.push_back(n); else p.insert(p.begin(), n); }
        return ok;
    }
};
static void geom(L8 const &l)
{
    at("geom " + ln(l));
    std::stringstream s;
    L8 x(l), y(l), xy(l);
    x.mirrorX(); y.mirrorY(); xy.mirrorXY();
    L4 f(l.convertToFourConnected());
    s << "{\"op\":\"geom\",\"l\":" << ln(l) << ",\"w\":" << l.width() << ",\"f\":" << ln(f) << ",\"fw\":" << f.width()
      << ",\"r\":5,\"c\":" << window(l, 5) << ",\"mx\":" << window(x, 5) << ",\"my\":" << window(y, 5)
      << ",\"mxy\":" << window(xy, 5) << ",\"c4\":" << window(f, 5);
    s << ",\"sl\":" << rat(l.slope()) << ",\"ac\":" << rat(l.axisIntercept())
      << ",\"al\":" << rat(l.axisIntercept(DSL::LowerLeaningLine)) << ",\"au\":" << rat(l.axisIntercept(DSL::UpperLeaningLine)) << "}";
    line(s.str());
}
static void dfs(Curve const &c, int depth, bool first)
{
    for(int end = 1; end >= 0; --end)
        for(int code = 0; code < 2; ++code)
        {
            if(first && code != c.l.a()) continue;
            Curve d(c);
            d.grow(end, code, true);
            if(depth > 1 && d.p.size() > c.p.size()) dfs(d, depth - 1, false);
        }
}
// chain code of a real line with slope num/den and offset, with rare deviations
static std::vector<int> chain(Rng &g, int n)
{
    int den = g.in(1, n > 40 ? 45 : 25), num = g.in(0, den), off = g.below(den);
    std::vector<int> r;
    for(int i = 0; i < n; ++i)
        r.push_back(((num * (i+1) + off) / den) - ((num * i + off) / den));
    if(g.chance(50)) r[g.below(n)] ^= 1;
    return r;
}
static void tangent(std::vector<int> const &codes, int index, bool closed)
{
    std::stringstream s;
    s << "{\"op\":\"tangent\",\"c\":[";
    for(size_t i = 0; i < codes.size(); ++i) s << (i ? "," : "") << codes[i];
    s << "],\"i\":" << index << ",\"cl\":" << closed;
    at(s.str());
    L8 l(-7, -8, -9);
    int d = tangentDSL(codes.begin(), codes.end(), index, closed, l);
    s << ",\"d\":" << d << ",\"l\":" << ln(l) << "}";
    line(s.str());
}
static void onAlarm(int) { const char m[] = "HANG\n"; if(write(2, m, 5)) {} _exit(14); }
int main(int argc, char **argv)
{
    if(argc < 8) return 3;
    signal(SIGALRM, onAlarm);
    out = fopen(argv[1], "w");
    std::string mode(argv[2]);
    Rng g(atol(argv[3]));
    int count = atoi(argv[4]), depth = atoi(argv[5]), shard = atoi(argv[6]), nshards = atoi(argv[7]);
    if(mode == "grow")
    {
        // exhaustive: the first two steps select the shard
        int idx = 0;
        for(int a0 = 0; a0 < 2; ++a0)
            for(int e1 = 0; e1 < 2; ++e1)
                for(int m = 0; m < 4; ++m, ++idx)
                {
                    if(idx % nshards != shard) continue;
                    Curve c(a0);
                    c.grow(e1, a0, true);
                    if(c.grow(m & 1, m >> 1, true) && depth > 2) dfs(c, depth - 2, false);
                }
        for(int i = 0; i < count; ++i)
        {
            int n = g.chance(8) ? g.in(50, 80) : g.in(8, 36);
            std::vector<int> c(chain(g, n));
            int st = g.in(0, n), f = st, b = st - 1;
            Curve cv(st < n ? c[st] : c[st-1]);
            bool first = true;
            while(f < n || b >= 0)
            {
                int end = f >= n ? 0 : b < 0 ? 1 : g.below(2);
                if(first) end = st < n;
                first = false;
                int code = end ? c[f] : c[b];
                if(g.chance(15) && cv.p.size() > 1) { cv.grow(end, code ^ 1, true); if((end ? cv.p.back() : cv.p.front()).x != (end ? f - st : b + 1 - st)) break; }
                if(!cv.grow(end, code, true)) break;
                if(end) ++f; else --b;
            }
            geom(cv.l);
        }
        if(shard == 0)
            for(int b = 1; b <= 4; ++b) for(int a = 0; a <= b; ++a) for(int pos = -5; pos <= 5; ++pos) geom(L8(a, b, pos));
    }
    else
    {
        // exhaustive chain codes over {0,1} of length <= depth, all indices, open and closed
        long idx = 0;
        for(int n = 2; n <= depth; ++n)
            for(int c = 0; c < (1 << n); ++c, ++idx)
            {
                if(idx % nshards != shard) continue;
                std::vector<int> v;
                for(int i = 0; i < n; ++i) v.push_back((c >> i) & 1);
                for(int i = 1; i < n; ++i) tangent(v, i, false);
            }
        // 4-connected walks over all codes (neighbouring directions only), open and closed
        for(int i = 0; i < count; ++i)
        {
            std::vector<int> v;
            int n = g.chance(4) ? g.in(40, 90) : g.in(2, 30), c = g.below(4);
            bool closed = g.chance(40);
            if(g.chance(50))
            {
                std::vector<int> w(chain(g, n));
                int base = g.below(4);
                for(int k = 0; k < n; ++k) v.push_back((base + w[k]) & 3);
                if(g.chance(50)) for(int k = n - g.in(1, n / 2); k < n; ++k) v[k] = (v[k] + 1) & 3;
            }
            else
                for(int k = 0; k < n; ++k)
                {
                    v.push_back(c);
                    if(g.chance(45)) c = (c + (g.chance(70) ? 1 : 3)) & 3;
                }
            // a closed curve has all four directions
            for(int d = 0; d < 4; ++d) if(std::find(v.begin(), v.end(), d) == v.end()) closed = false;
            tangent(v, closed ? g.below(n) : n > 2 ? g.in(1, n - 1) : 1, closed);
        }
    }
    fclose(out);
    fprintf(stderr, "DONE %ld\n", records);
    return 0;
}
