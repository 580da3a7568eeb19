// Driver for DartPosition (cppmap.hxx).  argv: out seed count shard nshards
#include <vector>
#include <map>
#include <string>
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <csignal>
#include <unistd.h>
#include <algorithm>
#include <boost/shared_ptr.hpp>
#include "cppmap.hxx"
static FILE *out;
struct Rng
{
    unsigned long long s;
    Rng(long seed) : s(seed * 6364136223846793005ULL + 1442695040888963407ULL) { for(int i = 0; i < 8; ++i) next(); }
    unsigned next() { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(s >> 33); }
    int below(int n) { return next() % n; }
    int in(int a, int b) { return a + below(b - a + 1); }
    bool chance(int p) { return below(100) < p; }
};
static const double U = 4;
static long rnd(double v) { return v != v || v > 1e9 || v < -1e9 ? 999999999 : (long)std::floor(v + .5); }
static std::string says(DartPosition const &d)
{
    std::stringstream s;
    s << "\"e\":" << d.atEnd() << ",\"i\":" << d.segmentIndex() << ",\"al\":" << rnd(d.arcLength()*U*1000)
      << ",\"x\":" << rnd(d()[0]*U*1000) << ",\"y\":" << rnd(d()[1]*U*1000)
      << ",\"ss\":[" << rnd(d.segmentStart()[0]*U) << "," << rnd(d.segmentStart()[1]*U) << "],\"se\":["
      << rnd(d.segmentEnd()[0]*U) << "," << rnd(d.segmentEnd()[1]*U) << "],\"sl\":" << rnd(d.segmentLength()*U*1000);
    return s.str();
}
typedef std::pair<int,int> IP;
static void history(Rng &g)
{
    // a polyline whose segments have integral lengths (in quarter pixels)
    static const int py[][2] = {{3,4},{4,3},{5,12},{12,5},{8,15},{6,8},{1,0},{0,1},{7,0},{0,9},{2,0},{20,0}};
    std::vector<IP> p(1, IP(g.in(0, 60), g.in(0, 60)));
    int n = g.chance(30) ? 1 : g.in(1, 7);
    long total = 0;
    for(int k = 0; k < n; ++k)
    {
        int const *v = py[g.below(12)];
        IP q(p.back().first + (g.chance(50) ? v[0] : -v[0]), p.back().second + (g.chance(50) ? v[1] : -v[1]));
        total += (long)std::floor(std::sqrt((double)v[0]*v[0] + v[1]*v[1]) + .5);
        p.push_back(q);
    }
    GeoMap map(vigra::Size2D(40, 40));
    int back = g.below(2), other = g.below(3);
    for(int k = 0; k < other; ++k)      // other cells
        map.addNode(Vector2(100 + k, 100));
    GeoMap::NodePtr a = map.addNode(Vector2(p[0].first/U, p[0].second/U)),
        b = p.back() == p[0] && g.chance(80) ? a : map.addNode(Vector2(p.back().first/U, p.back().second/U));
    Vector2Array pts;
    for(size_t i = 0; i < p.size(); ++i) pts.push_back(Vector2(p[i].first/U, p[i].second/U));
    GeoMap::EdgePtr e = map.addEdge(*a, *b, pts, 0);
    std::vector<IP> q(p);
    if(back) std::reverse(q.begin(), q.end());
    int label = back ? -(int)e->label() : (int)e->label();
    std::map<int, boost::shared_ptr<DartPosition> > pos;
    pos[0].reset(new DartPosition(map.dart(label)));
    std::stringstream s;
    s << "{\"op\":\"new\",\"p\":[";
    for(size_t i = 0; i < q.size(); ++i) s << (i ? "," : "") << "[" << q[i].first << "," << q[i].second << "]";
    fprintf(out, "%s],\"d\":%d,\"dl\":%d,%s}\n", s.str().c_str(), label, pos[0]->dartLabel(), says(*pos[0]).c_str());
    for(int step = g.in(3, 14); step > 0; --step)
    {
        int k = g.below((int)pos.size());
        DartPosition &d(*pos[k]);
        std::stringstream ar;
        const char *op;
        bool r = true;
        int what = g.below(100);
        fflush(out);
        alarm(20);
        if(what < 18) { op = "next"; fprintf(stderr, "@ next\n"); r = d.gotoNextSegment(); }
        else if(what < 36) { op = "prev"; fprintf(stderr, "@ prev\n"); r = d.gotoPrevSegment(); }
        else if(what < 64)
        {
            long t = g.chance(15) ? 10*total : g.chance(10) ? -g.in(1, 40) : g.chance(10) ? 10*total + g.in(1, 50)
                : g.chance(40) ? 10*g.in(0, (int)total) : g.in(0, (int)(10*total));
            if(t != 10*total && g.chance(10)) t = 0;
            op = "arc"; ar << t;
            fprintf(stderr, "@ arc [%ld]\n", t);
            r = d.gotoArcLength(t/10.0/U);
        }
        else if(what < 94)
        {
            IP c = g.chance(60) ? q[g.below((int)q.size())] : IP(q[0].first + g.in(-12, 12), q[0].second + g.in(-12, 12));
            if(g.chance(40)) c = IP(rnd(d()[0]*U), rnd(d()[1]*U));
            long r2 = g.chance(50) ? g.in(1, 30)*(long)g.in(1, 30) : g.in(1, 400);
            ar << c.first << "," << c.second << "," << r2;
            Vector2 cc(c.first/U, c.second/U);
            op = what < 78 ? "leave" : "isect";
            fprintf(stderr, "@ %s [%s]\n", op, ar.str().c_str());
            r = what < 78 ? d.leaveCircle(cc, r2/U/U) : d.intersectCircle(cc, r2/U/U);
        }
        else
        {
            int to = g.below(3);
            if(to == k || to > (int)pos.size()) { ++step; continue; }
            pos[to].reset(new DartPosition(d));
            fprintf(out, "{\"op\":\"copy\",\"k\":%d,\"a\":[%d]}\n", k, to);
            continue;
        }
        fprintf(out, "{\"op\":\"%s\",\"k\":%d,\"a\":[%s],\"r\":%d,%s}\n", op, k, ar.str().c_str(), (int)r, says(d).c_str());
    }
}
static void onAlarm(int) { _exit(14); }
int main(int argc, char **argv)
{
    if(argc < 6) return 3;
    out = fopen(argv[1], "w");
    signal(SIGALRM, onAlarm);
    Rng g(atol(argv[2])*1000 + atol(argv[4]));
    for(long i = atol(argv[3]); i > 0; --i)
        history(g);
    fclose(out);
    fprintf(stderr, "DONE\n");
    return 0;
}
