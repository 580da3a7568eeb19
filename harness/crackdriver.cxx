// Driver for crackedgemap.  argv: out seed count exhaustive(0/1/2) shard nshards
// Corner coordinates: map position + 0.5 (an image of w x h pixels has corners 0..w x 0..h).
#include <vector>
#include <string>
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <csignal>
#include <unistd.h>
#include <algorithm>
#include "cppmap.hxx"
#include "crackedgemap.hxx"
#include <vigra/stdimage.hxx>
static FILE *out;
static long records = 0;
struct Rng
{
    unsigned long long s;
    Rng(long seed) : s(seed * 6364136223846793005ULL + 1442695040888963407ULL) { for(int i = 0; i < 8; ++i) next(); }
    unsigned next() { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(s >> 33); }
    int below(int n) { return next() % n; }
    int in(int a, int b) { return a + below(b - a + 1); }
    bool chance(int p) { return below(100) < p; }
};
// doubled corner coordinates as integers; 999999 if not on the half grid
static int half(double v)
{
    double r = (v + 0.5) * 2.0;
    return std::floor(r) == r ? (int)r : 999999;
}
static std::string pt(Vector2 const &p)
{
    std::stringstream s; s << "[" << half(p[0]) << "," << half(p[1]) << "]"; return s.str();
}
static void state(std::stringstream &s, GeoMap &m)
{
    s << "\"nodes\":[";
    bool c = false;
    for(GeoMap::NodeIterator it = m.nodesBegin(); it.inRange(); ++it, c = true)
        s << (c ? "," : "") << "[" << (*it)->label() << "," << half((*it)->position()[0]) << "," << half((*it)->position()[1])
          << "," << (*it)->degree() << "]";
    s << "],\"edges\":[";
    c = false;
    for(GeoMap::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it, c = true)
    {
        GeoMap::Edge &e(**it);
        GeoMap::Dart d(m.dart(e.label())), b(m.dart(-(int)e.label()));
        int lf = e.leftFaceLabel(), rf = e.rightFaceLabel();
        d.nextSigma(); b.nextSigma();
        s << (c ? "," : "") << "{\"l\":" << e.label() << ",\"s\":" << e.startNodeLabel() << ",\"e\":" << e.endNodeLabel()
          << ",\"lf\":" << lf << ",\"rf\":" << rf << ",\"b\":" << (e.flag(GeoMap::Edge::BORDER_PROTECTION) ? 1 : 0)
          << ",\"n\":[" << d.label() << "," << b.label() << "],\"len\":" << (long)(std::floor(e.length() * 1000 + 0.5)) << ",\"p\":[";
        for(unsigned int i = 0; i < e.size(); ++i) s << (i ? "," : "") << pt(e[i]);
        s << "]}";
    }
    s << "],\"faces\":[";
    c = false;
    for(GeoMap::FaceIterator it = m.facesBegin(); it.inRange(); ++it, c = true)
        s << (c ? "," : "") << "[" << (*it)->label() << "," << (long)std::floor((*it)->area() * 8 + 0.5) << ","
          << (m.hasLabelImage() ? (int)(*it)->pixelArea() : -1) << "," << (*it)->holeCount() << "]";
    s << "],\"nc\":" << m.nodeCount() << ",\"ec\":" << m.edgeCount() << ",\"fc\":" << m.faceCount();
}
static void run(int w, int h, std::vector<int> const &img, bool eight, bool labels, bool early)
{
    std::stringstream s;
    s << "{\"op\":\"crack\",\"w\":" << w << ",\"h\":" << h << ",\"c8\":" << eight << ",\"li\":" << labels << ",\"img\":[";
    for(size_t i = 0; i < img.size(); ++i) s << (i ? "," : "") << img[i];
    s << "]";
    fflush(out);
    fprintf(stderr, "@ %s\n", s.str().c_str());
    alarm(20);
    vigra::IImage im(w, h);
    for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) im(x, y) = img[y*w + x];
    CrackEdgeMapGenerator g(srcImageRange(im), eight);
    if(early) crackEdgesToMidcracks(*g.result);     // before initialisation
    g.initializeMap(labels);
    GeoMap &m(*g.result);
    std::vector<CellLabel> src(m.maxFaceLabel(), 777);
    if(!early)
    {
        g.getSourceLabels(srcImage(im), &src);
        s << ",\"src\":[";
        for(size_t i = 0; i < src.size(); ++i) s << (i ? "," : "") << src[i];
        s << "]";
    }
    s << ",\"at\":[";
    for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x)
        s << (x || y ? "," : "") << m.faceAt(Vector2(x, y))->label();
    s << "],\"lab\":[";
    if(labels && !early)
        for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x)
            s << (x || y ? "," : "") << m.labelAccessor()(m.labelsUpperLeft(), vigra::Diff2D(x, y));
    s << "],\"early\":" << early << ",";
    state(s, m);
    if(!early)
    {
        crackEdgesToMidcracks(m);
        s << ",\"mid\":{";
        state(s, m);
        s << "}";
    }
    s << "}";
    fputs(s.str().c_str(), out); fputc('\n', out);
    ++records;
}
static long idx = 0;
static void all(int w, int h, int labels, int shard, int nshards, int every, Rng &g)
{
    long total = 1;
    for(int i = 0; i < w*h; ++i) total *= labels;
    for(long c = 0; c < total; ++c)
        for(int eight = 0; eight < 2; ++eight)
        {
            if(every > 1 && g.below(every)) continue;
            if(++idx % nshards != shard) continue;
            std::vector<int> v(w*h);
            long r = c;
            for(int i = 0; i < w*h; ++i, r /= labels) v[i] = r % labels;
            run(w, h, v, eight, (idx / nshards) % 3 != 0, (idx / nshards) % 5 == 0);
        }
}
static void onAlarm(int) { const char m[] = "HANG\n"; if(write(2, m, 5)) {} _exit(14); }
int main(int argc, char **argv)
{
    if(argc < 7) return 3;
    signal(SIGALRM, onAlarm);
    out = fopen(argv[1], "w");
    Rng g(atol(argv[2]));
    int count = atoi(argv[3]), ex = atoi(argv[4]), shard = atoi(argv[5]), nshards = atoi(argv[6]);
    Rng common(atol(argv[2]) / 1000 + 77);
    if(ex)
    {
        all(1, 1, 2, shard, nshards, 1, common); all(2, 1, 2, shard, nshards, 1, common); all(1, 3, 2, shard, nshards, 1, common);
        all(2, 2, 4, shard, nshards, 1, common); all(3, 2, 2, shard, nshards, 1, common); all(2, 3, 3, shard, nshards, 1, common);
        all(3, 3, 2, shard, nshards, 1, common);
        if(ex > 1) { all(3, 3, 3, shard, nshards, 1, common); all(4, 3, 2, shard, nshards, 1, common); }
        if(ex > 2) all(4, 4, 2, shard, nshards, 1, common);
    }
    static const int many[] = {0, 1, 2, 3, 7, 255, 256, 300, 1000, 32768, 65535, 65536, 70001, 1000000};
    int large = ex > 1 ? count / 40 : 2;
    for(int i = 0; i < count + large; ++i)
    {
        bool lg = i >= count;   // a few larger, elongated images
        int w = lg ? g.in(9, 16) : g.in(1, 7), h = lg ? g.in(2, 140 / w) : g.in(1, 7), n = g.in(2, 4);
        if(lg && i % 2) std::swap(w, h);
        std::vector<int> v(w*h);
        int style = g.below(3);
        for(int k = 0; k < w*h; ++k) v[k] = g.below(n);
        if(style == 1)      // checkered patches: many crossings
            for(int k = 0; k < w*h; ++k) { int x = k % w, y = k / w; if(g.chance(85)) v[k] = (x + y) % 2 + (n > 2 && x > w/2 ? 1 : 0); }
        else if(style == 2) // nested frames: holes
            for(int k = 0; k < w*h; ++k) { int x = k % w, y = k / w; if(g.chance(92)) v[k] = std::min(std::min(x, y), std::min(w-1-x, h-1-y)) % n; }
        if(lg && style == 0)    // few boundaries: long edges
            for(int k = 0; k < w*h; ++k) { int x = k % w, y = k / w; if(g.chance(95)) v[k] = (x / 4 + y / 3) % n; }
        if(g.chance(30))        // other label values (in the same order)
        {
            int a[5], b = 0;
            for(int k = 0; k < 5; ++k) a[k] = b += g.in(k ? 1 : 0, 2);
            for(int k = 0; k < w*h; ++k) v[k] = many[a[v[k]]];
        }
        run(w, h, v, g.chance(60), g.chance(60), g.chance(20));
    }
    fclose(out);
    fprintf(stderr, "DONE %ld\n", records);
    return 0;
}
