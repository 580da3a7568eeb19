// Driver for polygon.hxx.  argv: out mode seed count [extra]
//   edit: histories of edit operations on polygons   (spec/TracePolygon.tla)
//   scan: scan conversion and containment            (spec/TraceScan.tla)
//   resample: resampling                             (spec/TraceResample.tla)
//   hull: convex hull and simplification             (spec/TraceHull.tla)
// Coordinates are logged in quarter pixels.
#include <memory>
#include <set>
#include "polygon.hxx"
#include <vigra/multi_array.hxx>
#include <vigra/multi_iterator.hxx>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <cstring>
#include <string>
#include <sstream>
#include <vector>
#include <unistd.h>

using namespace vigra;
typedef TinyVector<double, 2> V;
static FILE *out;
static long records = 0;
static const double U = 4.0;

struct Rng
{
    unsigned long long s;
    Rng(unsigned long long seed) : s(seed * 6364136223846793005ULL + 1442695040888963407ULL) { for(int i = 0; i < 4; ++i) next(); }
    unsigned int next() { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned int)(s >> 33); }
    int below(int n) { return n <= 0 ? 0 : (int)(next() % (unsigned)n); }
    int in(int a, int b) { return a + below(b - a + 1); }
    bool chance(int pct) { return below(100) < pct; }
};

static long q4(double v)
{
    double q = v * U, r = std::floor(q + 0.5);
    return (!(std::fabs(q - r) < 1e-6) || std::fabs(r) > 1e6) ? 999999 : (long)r;
}
static long rnd(double v) { return !(std::fabs(v) < 2e7) ? 20000000 : (long)std::floor(v + 0.5); }
static V pt(int x, int y) { return V(x / U, y / U); }
template<class POLY>
static std::string pts(POLY const &p)
{
    std::stringstream s;
    s << "[";
    for(unsigned int i = 0; i < p.size(); ++i)
        s << (i ? "," : "") << "[" << q4(p[i][0]) << "," << q4(p[i][1]) << "]";
    s << "]";
    return s.str();
}
static void line(std::string const &s) { fputs(s.c_str(), out); fputs("\n", out); fflush(out); ++records; }
static void at(std::string const &op) { fprintf(stderr, "@ %s\n", op.c_str()); alarm(20); }

// ------------------------------------------------------------------ edit
static void bbox(std::ostream &s, BBoxPolygon<V> const &p)
{
    BBoxPolygon<V>::BoundingBox b(p.boundingBox());
    if(!p.size()) { s << "[]"; return; }
    s << "[" << q4(b.begin()[0]) << "," << q4(b.begin()[1]) << "," << q4(b.end()[0]) << "," << q4(b.end()[1]) << "]";
}
static void bbox(std::ostream &s, Polygon<V> const &) { s << "[]"; }

template<class POLY>
struct Edit
{
    enum { K = 3 };
    std::vector<POLY> P;
    Rng &g;
    bool boxed;
    int cap;        // number of points
    Edit(Rng &r, bool b) : P(K), g(r), boxed(b), cap(14) {}

    void rec(const char *op, std::string const &args, std::string const &extra = "")
    {
        std::stringstream s;
        s << "{\"op\":\"" << op << "\",\"a\":[" << args << "],\"p\":[";
        for(int k = 0; k < K; ++k) s << (k ? "," : "") << pts(static_cast<POLY const &>(P[k]));
        s << "]" << extra << "}";
        line(s.str());
    }
    static std::string S(long a, long b = -77777, long c = -77777, long d = -77777)
    {
        std::stringstream s;
        s << a;
        if(b != -77777) s << "," << b;
        if(c != -77777) s << "," << c;
        if(d != -77777) s << "," << d;
        return s.str();
    }
    void query(int k, int mask)
    {
        at("query");
        POLY const &p(P[k]);
        std::stringstream s;
        s << ",\"q\":{\"l\":" << (mask & 1 ? rnd(p.length() * 100) : -1)
          << ",\"ar\":[" << (mask & 2 ? S(rnd(p.partialArea() * 32)) : "") << "]"
          << ",\"b\":";
        if(mask & 4) bbox(s, p); else s << "[]";
        s << ",\"c\":" << (mask & 8 && p.size() ? (p.closed() ? 1 : 0) : -1) << ",\"arc\":[";
        if(mask & 16 && p.size())
        {
            std::vector<double> arc;
            p.arcLengthList(arc);
            for(size_t i = 0; i < arc.size(); ++i) s << (i ? "," : "") << rnd(arc[i] * 100);
        }
        s << "],\"cen\":[";
        if(mask & 32 && p.size() > 2 && p.closed() && p.partialArea() != 0)
        {
            V c = centroid(p);
            s << rnd(c[0] * 100) << "," << rnd(c[1] * 100);
        }
        s << "],\"np\":[";
        if(mask & 64 && p.size() > 1)
        {
            int x = g.in(-8, 20), y = g.in(-8, 20);
            V n = p.nearestPoint(pt(x, y));
            s << x << "," << y << "," << rnd(n[0] * 400) << "," << rnd(n[1] * 400);
        }
        s << "]}";
        rec("query", S(k, mask), s.str());
    }
    int coord() { return cap < 50 && g.chance(4) ? g.in(-60, 60) : g.in(-7, 12); }
    V point(int &x, int &y, int k)
    {
        x = coord(); y = coord();
        if(P[k].size() && g.chance(25)) // repeat an existing point
        {
            POLY const &p(P[k]);
            int i = g.below(p.size());
            x = q4(p[i][0]); y = q4(p[i][1]);
        }
        return pt(x, y);
    }
    void step()
    {
        int k = g.below(K), j = g.below(K), x, y;
        POLY &p(P[k]);
        int n = p.size();
        switch(g.below(17))
        {
          case 0: case 1: case 2:
          { V v = point(x, y, k); at("push"); p.push_back(v); rec("push", S(k, x, y)); break; }
          case 3:
            if(j == k || (int)(n + P[j].size()) > cap) return;
            at("extend"); p.extend(P[j]); rec("extend", S(k, j)); break;
          case 4: case 5:
          { if(n > cap - 2) return; int i = g.below(n + 1); V v = point(x, y, k); at("ins");
            typename POLY::iterator it = p.insert(p.begin() + i, v);
            rec("ins", S(k, i, x, y), ",\"r\":" + S(it - p.begin())); break; }
          case 6:
          { if(j == k || (int)(n + P[j].size()) > cap) return; int i = g.below(n + 1); at("insr");
            std::vector<V> tmp(P[j].begin(), P[j].end());
            typename POLY::iterator it = p.insert(p.begin() + i, tmp.begin(), tmp.end());
            rec("insr", S(k, i, j), ",\"r\":" + S(it - p.begin())); break; }
          case 7:
          { if(!n) return; int i = g.below(n); at("erase"); p.erase(p.begin() + i); rec("erase", S(k, i)); break; }
          case 8: case 9: case 10:
          { if(!n) return; int i = g.below(n); V v = point(x, y, k); at("set"); p.setPoint(i, v); rec("set", S(k, i, x, y)); break; }
          case 11:
          { if(!n || j == k) return; int i = g.chance(20) ? (g.chance(50) ? 0 : n - 1) : g.below(n);
            at("split"); P[j] = p.split(i); rec("split", S(k, i, j)); break; }
          case 12: at("rev"); p.reverse(); rec("rev", S(k)); break;
          case 13: if(j == k) return; at("swap"); if(g.chance(50)) p.swap(P[j]); else std::swap(p, P[j]); rec("swap", S(k, j)); break;
          case 14:
            if(j == k) return;
            at("copy");
            if(g.chance(40)) { POLY c(P[j]); p = c; }
            else if(g.chance(30)) p = P[j];
            else if(g.chance(30)) { PointArray<V> raw(P[j].begin(), P[j].end()); POLY c(raw); p = c; }
            else if(g.chance(50))       // a polygon of a given size
            {
                POLY c((typename POLY::size_type)P[j].size());
                for(unsigned int i = 0; i < P[j].size(); ++i) c.setPoint(i, ((POLY const &)P[j])[i]);
                p = c;
            }
            else { POLY c(P[j].begin(), P[j].end()); p.swap(c); }
            rec("copy", S(k, j)); break;
          case 15: if(g.chance(70)) return; at("clear"); p.clear(); rec("clear", S(k)); break;
          case 16:
          { if(j == k || P[j].size() < 2) return;
            at("swapbase");
            PointArray<V> raw(P[j].begin(), P[j].end());
            p.swap(raw);             // swap with a plain point array
            rec("copy", S(k, j)); break; }
        }
    }
    void walk(int len)
    {
        P.clear(); P.resize(K);
        rec("new", S(boxed ? 1 : 0));
        cap = g.chance(5) ? 60 : 14;
        if(cap > 50)
            for(int i = g.in(15, 45), x, y; i > 0; --i)
            {
                V v = point(x, y, 0);
                at("push"); P[0].push_back(v); rec("push", S(0, x, y));
            }
        for(int i = 0; i < len; ++i)
        {
            step();
            if(g.chance(45))
            {
                int m = g.chance(40) ? 127 : g.below(128);
                query(g.below(K), m);
            }
        }
        for(int k = 0; k < K; ++k) query(k, 127);
    }
};

// ------------------------------------------------------- simple polygons
struct IP { int x, y; };
static bool eq(IP a, IP b) { return a.x == b.x && a.y == b.y; }
static long cr(IP a, IP b, IP c) { return (long)(b.x-a.x)*(c.y-a.y) - (long)(b.y-a.y)*(c.x-a.x); }
static int sg(long v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
static bool on(IP v, IP a, IP b)
{
    return cr(a, b, v) == 0 && std::min(a.x, b.x) <= v.x && v.x <= std::max(a.x, b.x)
        && std::min(a.y, b.y) <= v.y && v.y <= std::max(a.y, b.y);
}
static bool meet(IP a, IP b, IP c, IP d)
{
    if(on(c, a, b) || on(d, a, b) || on(a, c, d) || on(b, c, d)) return true;
    return sg(cr(a, b, c)) * sg(cr(a, b, d)) < 0 && sg(cr(c, d, a)) * sg(cr(c, d, b)) < 0;
}
typedef std::vector<IP> IPoly; // without the closing point
static bool simple(IPoly const &p)
{
    int n = p.size();
    for(int i = 0; i < n; ++i)
        for(int j = 0; j < i; ++j)
            if(eq(p[i], p[j])) return false;
    for(int i = 0; i < n; ++i)
    {
        IP a = p[i], b = p[(i+1) % n];
        for(int j = i + 1; j < n; ++j)
        {
            IP c = p[j], d = p[(j+1) % n];
            if(j == i + 1 || (i == 0 && j == n - 1))
            {
                IP s = j == i + 1 ? b : a, u = j == i + 1 ? a : b, w = j == i + 1 ? d : c;
                if(cr(s, u, w) == 0 && (long)(u.x-s.x)*(w.x-s.x) + (long)(u.y-s.y)*(w.y-s.y) > 0) return false;
            }
            else if(meet(a, b, c, d)) return false;
        }
    }
    return true;
}
static long area2(IPoly const &p) // positive: counter-clockwise as seen (y down)
{
    long r = 0;
    int n = p.size();
    for(int i = 0; i < n; ++i) { IP a = p[i], b = p[(i+1) % n]; r += (long)b.x*a.y - (long)b.y*a.x; }
    return r;
}
static void orient(IPoly &p, bool ccw) { if((area2(p) > 0) != ccw) std::reverse(p.begin(), p.end()); }
static IP pick(Rng &g, int x0, int y0, int x1, int y1, int snap)
{
    IP r = {g.in(x0, x1), g.in(y0, y1)};
    // prefer pixel borders (odd multiples of half a pixel) and centres
    if(g.chance(snap)) { if(g.chance(60)) r.x = (r.x / 2) * 2; if(g.chance(60)) r.y = (r.y / 4) * 4 + 2; }
    if(g.chance(snap / 2)) { r.x = (r.x / 4) * 4 + 2; }
    return r;
}
static bool randomSimple(Rng &g, IPoly &p, int n, int x0, int y0, int x1, int y1, int snap)
{
    for(int tries = 0; tries < 400; ++tries)
    {
        p.clear();
        for(int i = 0; i < 3; ++i) p.push_back(pick(g, x0, y0, x1, y1, snap));
        if(area2(p) == 0 || !simple(p)) continue;
        for(int t = 0; t < 60 && (int)p.size() < n; ++t)
        {
            int i = g.below(p.size());
            IPoly q(p);
            q.insert(q.begin() + i + 1, pick(g, x0, y0, x1, y1, snap));
            if(simple(q)) p = q;
        }
        if(g.chance(50)) std::rotate(p.begin(), p.begin() + g.below(p.size()), p.end());
        return true;
    }
    return false;
}
template<class POLY>
static POLY toPoly(IPoly const &p, bool close)
{
    POLY r;
    for(size_t i = 0; i < p.size(); ++i) r.push_back(pt(p[i].x, p[i].y));
    if(close) r.push_back(pt(p[0].x, p[0].y));
    return r;
}

// ------------------------------------------------------------------ scan

typedef MultiArray<2, int> Im;
static std::string image(Im &im, int value)
{
    std::stringstream s;
    bool c = false;
    s << "[";
    for(int y = 0; y < im.shape(1); ++y)
        for(int x = 0; x < im.shape(0); ++x)
            if(im(x, y) == value) { s << (c ? "," : "") << "[" << x << "," << y << "]"; c = true; }
    s << "]";
    return s.str();
}
static int others(Im &im, int value)
{
    int n = 0;
    for(int y = 0; y < im.shape(1); ++y)
        for(int x = 0; x < im.shape(0); ++x)
            if(im(x, y) != value && im(x, y) != 7) ++n;
    return n;
}
static std::string drawn(Scanlines const &sl, int W, int H)
{
    Im im(Im::difference_type(W, H), 7);
    unsigned int n = drawScannedPoly(sl, 100, destMultiArrayRange(im));
    std::stringstream s;
    s << "{\"px\":" << image(im, 100) << ",\"n\":" << n << ",\"o\":" << others(im, 100) << "}";
    return s.str();
}
static std::string filled(Scanlines const &sl, int W, int H)
{
    Im im(Im::difference_type(W, H), 7);
    std::stringstream s;
    try
    {
        unsigned int n = fillScannedPoly(sl, 100, destMultiArrayRange(im));
        s << "{\"px\":" << image(im, 100) << ",\"n\":" << n << ",\"o\":" << others(im, 100) << "}";
    }
    catch(std::exception &) { s << "{\"px\":[],\"n\":-1,\"o\":0}"; }
    return s.str();
}
static std::string iterated(Scanlines const &sl)
{
    std::stringstream s;
    s << "[";
    int n = 0;
    for(ScanlinesIter it(sl); it.inRange() && n < 5000; ++it, ++n)
        s << (n ? "," : "") << "[" << (*it).x << "," << (*it).y << "]";
    s << "]";
    return s.str();
}
static std::string spans(Scanlines const &sl)
{
    std::stringstream s;
    bool c = false;
    s << "[";
    for(int y = sl.startIndex(); y < sl.endIndex(); ++y)
        for(size_t j = 0; j < sl[y].size(); ++j, c = true)
            s << (c ? "," : "") << "[" << y << "," << sl[y][j].begin << "," << sl[y][j].end << "]";
    s << "]";
    return s.str();
}
static void emitPolyline(BBoxPolygon<V> const &p, int W, int H, int y0, int y1)
{
    at("line " + pts(p));
    std::auto_ptr<Scanlines> a(scanPoly(p));
    std::auto_ptr<Scanlines> b(scanPoly(static_cast<PointArray<V> const &>(p), y1 - y0, y0));
    std::stringstream s;
    s << "{\"op\":\"line\",\"p\":" << pts(p) << ",\"W\":" << W << ",\"H\":" << H
      << ",\"y0\":" << y0 << ",\"y1\":" << y1
      << ",\"sp\":" << spans(*a) << ",\"it\":" << iterated(*a) << ",\"spb\":" << spans(*b) << ",\"itb\":" << iterated(*b)
      << ",\"d\":" << drawn(*a, W, H) << ",\"db\":" << drawn(*b, W, H) << "}";
    line(s.str());
}
static void emitArea(Rng &g, IPoly const &ip, int W, int H, int probes)
{
    BBoxPolygon<V> p(toPoly<BBoxPolygon<V> >(ip, true));
    at("area " + pts(p));
    std::auto_ptr<Scanlines> a(scanPoly(p));
    std::auto_ptr<Scanlines> b(scanPoly(static_cast<PointArray<V> const &>(p), H, 0));
    BBoxPolygon<V> r(p);
    r.reverse();
    std::auto_ptr<Scanlines> c(scanPoly(r));
    c->reverse();
    std::stringstream s;
    s << "{\"op\":\"area\",\"p\":" << pts(p) << ",\"W\":" << W << ",\"H\":" << H
      << ",\"f\":" << filled(*a, W, H) << ",\"fb\":" << filled(*b, W, H) << ",\"fr\":" << filled(*c, W, H)
      << ",\"d\":" << drawn(*a, W, H) << ",\"v\":[";
    Polygon<V> plain(p);
    for(int i = 0; i < probes; ++i)
    {
        int x = g.in(-6, 4*W + 2), y = g.in(-6, 4*H + 2);
        if(g.chance(50)) { int k = g.below(ip.size()); y = ip[k].y; if(g.chance(30)) x = ip[k].x + g.in(-1, 1); }
        s << (i ? "," : "") << "[" << x << "," << y << "," << (p.contains(pt(x, y)) ? 1 : 0)
          << "," << (plain.contains(pt(x, y)) ? 1 : 0) << "]";
    }
    s << "]}";
    line(s.str());
}
static void emitRing(IPoly const &o, std::vector<IPoly> const &hs, int W, int H)
{
    BBoxPolygon<V> p(toPoly<BBoxPolygon<V> >(o, true));
    at("ring " + pts(p));
    std::auto_ptr<Scanlines> a(scanPoly(p)), m(scanPoly(p));
    std::stringstream s;
    s << "{\"op\":\"ring\",\"p\":" << pts(p) << ",\"h\":[";
    for(size_t i = 0; i < hs.size(); ++i)
    {
        BBoxPolygon<V> h(toPoly<BBoxPolygon<V> >(hs[i], true));
        s << (i ? "," : "") << pts(h);
        std::auto_ptr<Scanlines> b(scanPoly(h));
        *a += *b;
        m->merge(*b);
    }
    m->normalize();
    s << "],\"W\":" << W << ",\"H\":" << H << ",\"f\":" << filled(*a, W, H) << ",\"fm\":" << filled(*m, W, H)
      << ",\"it\":" << iterated(*a) << "}";
    line(s.str());
}
static bool insideStrict(IPoly const &p, IP v)
{
    bool in = false;
    int n = p.size();
    for(int i = 0; i < n; ++i)
    {
        IP a = p[i], b = p[(i+1) % n];
        if(on(v, a, b)) return false;
        if((a.y < v.y) != (b.y < v.y))
        {
            long num = (long)(b.x-a.x)*(v.y-a.y) - (long)(v.x-a.x)*(b.y-a.y);
            if(b.y > a.y ? num < 0 : num > 0) in = !in;
        }
    }
    return in;
}
static bool disjoint(IPoly const &p, IPoly const &q)
{
    for(size_t i = 0; i < p.size(); ++i)
        for(size_t j = 0; j < q.size(); ++j)
            if(meet(p[i], p[(i+1) % p.size()], q[j], q[(j+1) % q.size()])) return false;
    return true;
}
static void scanMode(Rng &g, int count, int shard, int nshards)
{
    // exhaustive: all two-point lines in a window of 2x2 pixels around a pixel border
    long idx = 0;
    int R = 7;
    for(int i = 0; i < R*R; ++i)
        for(int j = 0; j < R*R; ++j, ++idx)
        {
            if(idx % nshards != shard || idx % 4 != (long)(g.s % 4)) continue;
            BBoxPolygon<V> p;
            p.push_back(pt(i % R, i / R));
            if(i != j) p.push_back(pt(j % R, j / R));
            emitPolyline(p, 3, 3, 0, 3);
        }
    for(int c = 0; c < count; ++c)
    {
        bool large = g.chance(2);
        int W = large ? g.in(12, 24) : g.in(1, 9), H = large ? g.in(12, 24) : g.in(1, 9), snap = g.below(3) * 45;
        // arbitrary polylines
        BBoxPolygon<V> p;
        int n = large ? g.in(10, 30) : g.in(1, 7), x = g.in(-8, 4*W + 6), y = g.in(-8, 4*H + 6);
        bool local = g.chance(50);
        for(int i = 0; i < n; ++i)
        {
            p.push_back(pt(x, y));
            IP q = local ? pick(g, x - 5, y - 5, x + 5, y + 5, 0) : pick(g, -8, -8, 4*W + 6, 4*H + 6, snap);
            if(g.chance(15)) q.y = y;
            if(g.chance(15)) q.x = x;
            x = q.x; y = q.y;
        }
        if(g.chance(15)) p.push_back(V(p[0]));
        int y0 = g.in(-2, H), y1 = y0 + g.in(0, H);
        emitPolyline(p, W, H, y0, y1);
        IPoly ip;
        if(randomSimple(g, ip, large ? g.in(8, 16) : g.in(3, 9), -6, -6, 4*W + 4, 4*H + 4, snap))
        {
            orient(ip, true);
            emitArea(g, ip, W, H, 8);
            std::vector<IPoly> hs;
            for(int t = 0; t < 12 && hs.size() < 3; ++t)
            {
                IPoly h;
                int hx = g.in(-6, 4*W), hy = g.in(-6, 4*H), hr = g.in(1, 10);
                if(!randomSimple(g, h, g.in(3, 5), hx, hy, hx + hr, hy + hr, snap)) continue;
                if(!disjoint(ip, h) || !insideStrict(ip, h[0])) continue;
                bool ok = true;
                for(size_t k = 0; k < hs.size() && ok; ++k)
                    ok = disjoint(hs[k], h) && !insideStrict(hs[k], h[0]) && !insideStrict(h, hs[k][0]);
                if(!ok) continue;
                orient(h, false);
                hs.push_back(h);
            }
            if(!hs.empty()) emitRing(ip, hs, W, H);
        }
    }
}

// ------------------------------------------------------------------ hull
static void emitHull(std::vector<IP> const &v)
{
    PointArray<V> p, h;
    for(size_t i = 0; i < v.size(); ++i) p.push_back(pt(v[i].x, v[i].y));
    at("hull " + pts(p));
    convexHull(p, h);
    line("{\"op\":\"hull\",\"p\":" + pts(p) + ",\"h\":" + pts(h) + "}");
}
static void emitSimplify(Rng &g, std::vector<IP> const &v)
{
    PointArray<V> p, r;
    for(size_t i = 0; i < v.size(); ++i) p.push_back(pt(v[i].x, v[i].y));
    int eps = g.below(14), step = g.chance(40) ? g.in(1, 30) : 0; // quarter pixels
    at("simplify " + pts(p));
    std::stringstream s;
    if(step) simplifyPolygon(p, r, eps / U, step / U);
    else simplifyPolygon(p, r, eps / U);
    s << "{\"op\":\"simplify\",\"p\":" << pts(p) << ",\"e\":" << eps << ",\"st\":" << step << ",\"r\":" << pts(r) << "}";
    line(s.str());
}
static void hullMode(Rng &g, int count, int shard, int nshards)
{
    // exhaustive: all point sequences of length 2..4 on a 3x2 grid
    long idx = 0;
    for(int n = 2; n <= 4; ++n)
    {
        int total = 1;
        for(int i = 0; i < n; ++i) total *= 6;
        for(int c = 0; c < total; ++c, ++idx)
        {
            if(idx % nshards != shard) continue;
            std::vector<IP> v;
            for(int i = 0, r = c; i < n; ++i, r /= 6) { IP q = {r % 6 % 3, r % 6 / 3}; v.push_back(q); }
            emitHull(v);
        }
    }
    for(int c = 0; c < count; ++c)
    {
        int n = g.chance(30) ? g.in(17, 60) : g.in(2, 16);
        int R = g.chance(40) ? g.in(1, 4) : g.in(4, 40);
        std::vector<IP> v;
        bool lineup = g.chance(20);
        for(int i = 0; i < n; ++i)
        {
            IP q = {g.in(-R, R), g.in(-R, R)};
            if(lineup) q.y = g.chance(70) ? R : q.y;
            if(!v.empty() && g.chance(15)) q = v[g.below(v.size())];
            v.push_back(q);
        }
        if(g.chance(50)) v.push_back(v[0]);      // closed polygons are the usual input
        if(g.chance(30)) // several copies of the extremal point
        {
            IP e = v[0];
            for(size_t i = 1; i < v.size(); ++i) if(v[i].y > e.y || (v[i].y == e.y && v[i].x < e.x)) e = v[i];
            for(int i = g.in(1, 3); i > 0; --i) v.insert(v.begin() + g.below(v.size() + 1), e);
        }
        emitHull(v);
        IPoly ip;
        if(randomSimple(g, ip, g.in(4, 10), 0, 0, 40, 40, 20))
        {
            if(g.chance(80)) ip.push_back(ip[0]);
            emitHull(ip);
        }
        // polylines with small steps for simplification
        std::vector<IP> w;
        IP q = {g.in(0, 20), g.in(0, 20)};
        int m = g.in(2, 24), dx = g.in(-3, 3), dy = g.in(-3, 3);
        for(int i = 0; i < m; ++i)
        {
            w.push_back(q);
            if(g.chance(20)) { dx = g.in(-3, 3); dy = g.in(-3, 3); }
            q.x += dx + g.in(-1, 1); q.y += dy + g.in(-1, 1);
        }
        if(g.chance(30)) w.push_back(w[0]);
        emitSimplify(g, w);
    }
}

// -------------------------------------------------------------- resample
static std::string fine(Polygon<V> const &p)
{
    std::stringstream s;
    s << "[";
    for(unsigned int i = 0; i < p.size(); ++i)
        s << (i ? "," : "") << "[" << rnd(p[i][0] * 4000) << "," << rnd(p[i][1] * 4000) << "]";
    s << "]";
    return s.str();
}
// polylines whose segments have integral length (in quarter pixels)
static void resampleMode(Rng &g, int count)
{
    static const int pyth[][2] = {{3, 4}, {4, 3}, {6, 8}, {8, 6}, {5, 12}};
    for(int c = 0; c < count; ++c)
    {
        Polygon<V> p;
        int x = g.in(8, 24), y = g.in(8, 24), x0 = x, y0 = y, n = g.in(1, 7), total = 0;
        bool straight = g.chance(15);
        int sx = g.chance(50) ? 1 : -1, sy = g.chance(50) ? 1 : -1, kind = g.below(4);
        p.push_back(pt(x, y));
        for(int i = 0; i < n && total < 60; ++i)
        {
            if(!straight) { kind = g.below(4); sx = g.chance(50) ? 1 : -1; sy = g.chance(50) ? 1 : -1; }
            int dx = 0, dy = 0, m = g.in(1, 9);
            if(kind == 0) dx = m * sx;
            else if(kind == 1) dy = m * sy;
            else if(straight) { dx = 3 * sx; dy = 4 * sy; }
            else { int k = g.below(5); dx = pyth[k][0] * sx; dy = pyth[k][1] * sy; }
            if(g.chance(6)) dx = dy = 0;    // repeated point
            x += dx; y += dy;
            total += (int)(std::sqrt(double(dx*dx + dy*dy)) + 0.5);
            p.push_back(pt(x, y));
        }
        if(g.chance(45) && !straight)       // close it, axis-parallel
        {
            if(x != x0) { p.push_back(pt(x0, y)); }
            if(y != y0) { p.push_back(pt(x0, y0)); }
        }
        int d = g.chance(20) ? g.in(1, 90) : g.in(1, 10);
        std::stringstream h;
        h << "\"p\":" << pts(p) << ",\"d\":" << d << ",\"s\":";
        at("linear " + h.str());
        Polygon<V> r;
        resamplePolygonLinearInterpolation(p, r, d / U);
        line("{\"op\":\"linear\"," + h.str() + fine(r) + "}");
        if(p.length() == 0.0) continue;
        at("lsq " + h.str());
        Polygon<V> q;
        resamplePolygon(p, q, d / U);
        line("{\"op\":\"lsq\"," + h.str() + fine(q) + "}");
    }
}

// polylines with steps no longer than the filter's scale: smoothing, also of the reversed polyline
static void smoothMode(Rng &g, int count)
{
    for(int c = 0; c < count; ++c)
    {
        std::vector<std::pair<int, int> > w;
        int x = g.in(20, 60), y = g.in(20, 60), n = g.in(2, 9), dir = g.below(4);
        bool closed = g.chance(50), straight = !closed && g.chance(20);
        static const int D[4][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}};
        int step = g.chance(60) ? g.in(1, 2) : g.in(3, 8);
        w.push_back(std::make_pair(x, y));
        if(closed && g.chance(25))          // there and back again
        {
            int m = g.in(1, 12), e = g.below(4);
            for(int i = 0; i < m; ++i) { x += step*D[e][0]; y += step*D[e][1]; w.push_back(std::make_pair(x, y)); }
            for(int i = 0; i < m; ++i) { x -= step*D[e][0]; y -= step*D[e][1]; w.push_back(std::make_pair(x, y)); }
        }
        else
        {
            for(int i = 0; i < n; ++i)
            {
                if(!straight) dir = (dir + (g.chance(50) ? 1 : 3)) % 4;
                for(int m = g.in(1, 7); m > 0; --m)
                    { x += step*D[dir][0]; y += step*D[dir][1]; w.push_back(std::make_pair(x, y)); }
            }
            if(closed)
            {
                while(x != w[0].first) { x += x < w[0].first ? std::min(step, w[0].first-x) : -std::min(step, x-w[0].first); w.push_back(std::make_pair(x, y)); }
                while(y != w[0].second) { y += y < w[0].second ? std::min(step, w[0].second-y) : -std::min(step, y-w[0].second); w.push_back(std::make_pair(x, y)); }
            }
        }
        Polygon<V> p, q;
        for(unsigned int i = 0; i < w.size(); ++i) p.push_back(pt(w[i].first, w[i].second));
        for(unsigned int i = w.size(); i > 0; --i) q.push_back(pt(w[i-1].first, w[i-1].second));
        int d = g.in(1, 12);
        double len = p.length();
        if(len == 0.0) continue;
        for(int kind = 0; kind < 2; ++kind)
        {
            double scale = kind == 0 ? std::max(1.0, step / U) * g.in(5, 20) / 5.0 : len / g.in(12, 40);
            if(kind == 0 && g.chance(30))       // as long as the polygon admits
                scale = std::max(scale, (std::ceil(len) - 1.1) / 3.0);
            if(kind == 0 && p.size() > 2 && len <= std::ceil(3.0*scale) + 0.01) continue;
            std::stringstream h;
            h << "{\"op\":\"smooth\",\"kind\":\"" << (kind ? "exp" : "gauss") << "\",\"p\":" << pts(p) << ",\"d\":" << d << ",\"s\":";
            std::stringstream a;
            a << "smooth " << (kind ? "exp " : "gauss ") << scale << " " << d << " " << pts(p);
            at(a.str());
            Polygon<V> r1, r2;
            if(kind == 0) { resamplePolygonGaussianFilter(p, r1, scale, d / U); resamplePolygonGaussianFilter(q, r2, scale, d / U); }
            else { resamplePolygonExponentialFilter(p, r1, scale, d / U); resamplePolygonExponentialFilter(q, r2, scale, d / U); }
            line(h.str() + fine(r1) + ",\"r\":" + fine(r2) + "}");
        }
    }
}

static void onAlarm(int) { const char m[] = "HANG\n"; if(write(2, m, 5)) {} _exit(14); }
int main(int argc, char **argv)
{
    if(argc < 5) return 3;
    signal(SIGALRM, onAlarm);
    out = fopen(argv[1], "w");
    std::string mode(argv[2]);
    Rng g(atol(argv[3]));
    int count = atoi(argv[4]);
    int shard = argc > 5 ? atoi(argv[5]) : 0, nshards = argc > 6 ? atoi(argv[6]) : 1;
    if(mode == "edit")
        for(int i = 0; i < count; ++i)
        {
            if(i % 3) { Edit<BBoxPolygon<V> > e(g, true); e.walk(30); }
            else { Edit<Polygon<V> > e(g, false); e.walk(30); }
        }
    else if(mode == "scan") scanMode(g, count, shard, nshards);
    else if(mode == "hull") hullMode(g, count, shard, nshards);
    else if(mode == "resample") { resampleMode(g, count); smoothMode(g, count); }
    else return 3;
    fclose(out);
    fprintf(stderr, "DONE %ld\n", records);
    return 0;
}
