// Driver for the pixel-based maps of src/cellimage (cellimage::GeoMap, CellPyramid).
// argv: out mode seed count exhaustive shard nshards
// mode build: maps of boundary images (C20); walk: Euler operations (C21); pyr: pyramids (C22)
#include <vector>
#include <string>
#include <sstream>
#include <iostream>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <unistd.h>
#include <algorithm>
#include <set>
#include <memory>
#include "foureightsegmentation.hxx"
#include "cellpyramid.hxx"
using namespace vigra;
using namespace vigra::cellimage;
typedef vigra::cellimage::GeoMap Map;
typedef Map::DartTraverser Dart;
static FILE *out;
static long records = 0;
struct Rng
{
    unsigned long long s;
    Rng(long seed) : s(seed * 6364136223846793005ULL + 1442695040888963407ULL) { for(int i = 0; i < 8; ++i) next(); }
    unsigned next() { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(s >> 33); }
    int below(int n) { return next() % n; }
    int in(int a, int b) { return a + below(b - a + 1); }
    bool chance(int p) { return below(100) < p; }
};
static void line(std::string const &s) { fputs(s.c_str(), out); fputc('\n', out); ++records; }
static void at(std::string const &s) { fflush(out); fprintf(stderr, "@ %s\n", s.c_str()); alarm(20); }

struct Img
{
    int w, h;
    std::vector<int> v;
    Img(int w_, int h_) : w(w_), h(h_), v(w_*h_, 0) {}
    std::string str() const
    {
        std::stringstream s; s << "[";
        for(size_t i = 0; i < v.size(); ++i) s << (i ? "," : "") << v[i];
        s << "]"; return s.str();
    }
};
static std::unique_ptr<Map> build(Img const &im, bool corner)
{
    BImage b(im.w, im.h);
    for(int y = 0; y < im.h; ++y) for(int x = 0; x < im.w; ++x) b(x, y) = im.v[y*im.w + x];
    return std::unique_ptr<Map>(new Map(srcImageRange(b), 1, corner ? CellTypeVertex : CellTypeLine));
}
// darts are named by cell image position and direction; singular ones by -1-node
static int id(Map const &m, Dart const &d)
{
    if(d.isSingular()) return -1 - (int)d.startNodeLabel();
    Diff2D p(d.neighborCirculator().center() - const_cast<Map &>(m).cellImage.upperLeft());
    return (p.y * m.cellImage.width() + p.x) * 8 + (int)d.direction();
}
static std::string rect(Rect2D const &r)
{
    std::stringstream s;
    s << (r.left()+2) << "," << (r.top()+2) << "," << (r.right()+1) << "," << (r.bottom()+1);
    return s.str();
}
template<class It> static std::string scan(It it, int W)
{
    long n = 0, sum = 0;
    for(; it.inRange(); ++it, ++n) sum += (it->y + 2) * W + it->x + 2;
    std::stringstream s; s << "[" << n << "," << sum << "]"; return s.str();
}
struct CoordIter : public Diff2D
{
    // a Diff2D that can be dereferenced to itself is already provided by Diff2D
};
static std::string scans(Map &m, int kind, int label)
{
    int W = m.cellImage.width();
    std::stringstream s;
    for(int c = 0; c < 2; ++c)
    {
        Point2D o(0, 0);
        if(c) s << ",";
        if(kind == 0) s << scan(m.nodeScanIterator(label, o, c), W);
        else if(kind == 1) s << scan(m.edgeScanIterator(label, o, c), W);
        else s << scan(m.faceScanIterator(label, o, c), W);
    }
    return s.str();
}
static const int LIMIT = 4000;
static std::vector<Dart> darts(Map &m)
{
    std::vector<Dart> r;
    std::set<int> seen;
    for(Map::NodeIterator it = m.nodesBegin(); it.inRange(); ++it)
    {
        if(it->anchor.isSingular()) continue;
        Dart d(it->anchor);
        int n = 0;
        do
        {
            if(!seen.insert(id(m, d)).second) break;
            r.push_back(d);
        }
        while(d.nextSigma() != it->anchor && ++n < LIMIT);
    }
    return r;
}
static std::string state(Map &m)
{
    std::stringstream s;
    int W = m.cellImage.width(), H = m.cellImage.height();
    s << "\"W\":" << W << ",\"H\":" << H << ",\"px\":[";
    for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x)
        s << (x || y ? "," : "") << ((int)m.cellImage(x, y).type() + 4 * (int)m.cellImage(x, y).label());
    s << "],\"nd\":[";
    bool c = false;
    for(Map::NodeIterator it = m.nodesBegin(); it.inRange(); ++it, c = true)
        s << (c ? "," : "") << "{\"l\":" << it->label << ",\"b\":[" << rect(it->bounds) << "],\"s\":" << it->size << ",\"d\":" << it->degree
          << ",\"a\":" << id(m, it->anchor) << ",\"an\":" << it->anchor.startNodeLabel() << ",\"af\":[" << it->anchor.leftFaceLabel() << "," << it->anchor.rightFaceLabel() << "]" << ",\"sc\":[" << scans(m, 0, it->label) << "]}";
    s << "],\"ed\":[";
    c = false;
    for(Map::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it, c = true)
        s << (c ? "," : "") << "{\"l\":" << it->label << ",\"b\":[" << rect(it->bounds) << "],\"s\":" << it->size
          << ",\"st\":" << id(m, it->start) << ",\"en\":" << id(m, it->end) << ",\"lp\":" << it->isLoop() << ",\"br\":" << it->isBridge()
          << ",\"sc\":[" << scans(m, 1, it->label) << "]}";
    s << "],\"fc\":[";
    c = false;
    for(Map::FaceIterator it = m.facesBegin(); it.inRange(); ++it, c = true)
    {
        s << (c ? "," : "") << "{\"l\":" << it->label << ",\"b\":[" << rect(it->bounds) << "],\"s\":" << (it->label ? it->size : 0) << ",\"c\":[";
        for(size_t i = 0; i < it->contours.size(); ++i) s << (i ? "," : "") << id(m, it->contours[i]);
        s << "],\"sc\":[" << scans(m, 2, it->label) << "]}";
    }
    s << "],\"dt\":[";
    std::vector<Dart> ds(darts(m));
    for(size_t i = 0; i < ds.size(); ++i)
    {
        Dart d(ds[i]), sg(d), sp(d), al(d), ph(d), pp(d), se(&m, d.serialize());
        sg.nextSigma(); sp.prevSigma(); al.nextAlpha(); ph.nextPhi(); pp.prevPhi();
        s << (i ? "," : "") << "[" << id(m, d) << "," << d.startNodeLabel() << "," << d.endNodeLabel() << "," << d.edgeLabel() << "," << d.leftFaceLabel() << ","
          << d.rightFaceLabel() << "," << id(m, sg) << "," << id(m, sp) << "," << id(m, al) << "," << id(m, ph) << "," << id(m, pp) << ","
          << (se == d ? 1 : 0) << "]";
    }
    s << "],\"nc\":" << m.nodeCount() << ",\"ec\":" << m.edgeCount() << ",\"fn\":" << m.faceCount()
      << ",\"ml\":[" << m.maxNodeLabel() << "," << m.maxEdgeLabel() << "," << m.maxFaceLabel() << "]";
    return s.str();
}
// ------------------------------------------------------------------ images
static Img randomImage(Rng &g, int maxSize)
{
    Img im(g.in(1, maxSize), g.in(1, maxSize));
    int n = im.w * im.h;
    int style = g.below(6);
    if(style == 0) for(int i = 0; i < n; ++i) im.v[i] = g.chance(25);
    else if(style == 1) for(int i = 0; i < n; ++i) im.v[i] = g.chance(8);
    else
    {
        // thin curves: straight and diagonal strokes, closed rectangles, frames
        for(int k = g.in(1, maxSize > 12 ? 9 : 4); k > 0; --k)
        {
            if(style >= 4 && g.chance(60) && im.w > 3 && im.h > 3)
            {
                int x0 = g.below(im.w - 2), y0 = g.below(im.h - 2), x1 = g.in(x0 + 2, im.w - 1), y1 = g.in(y0 + 2, im.h - 1);
                for(int x = x0; x <= x1; ++x) im.v[y0*im.w + x] = im.v[y1*im.w + x] = 1;
                for(int y = y0; y <= y1; ++y) im.v[y*im.w + x0] = im.v[y*im.w + x1] = 1;
                continue;
            }
            static const int dx[8] = {1, 1, 0, -1, -1, -1, 0, 1}, dy[8] = {0, -1, -1, -1, 0, 1, 1, 1};
            int x = g.below(im.w), y = g.below(im.h), d = g.below(8);
            for(int i = g.in(1, maxSize > 12 ? 40 : 14); i > 0; --i)
            {
                if(x < 0 || y < 0 || x >= im.w || y >= im.h) break;
                im.v[y*im.w + x] = 1;
                if(g.chance(25)) d = (d + (g.chance(50) ? 1 : 7)) & 7;
                x += dx[d]; y += dy[d];
            }
        }
    }
    return im;
}
// remove pixels until the configuration is accepted (or give up)
static bool refused(Img const &im, bool corner, std::string &why)
{
    try { build(im, corner); return false; }
    catch(std::exception &e) { why = e.what(); return true; }
}
static void buildRecord(Img const &im, bool corner, bool import)
{
    std::stringstream s;
    s << "{\"op\":\"build\",\"w\":" << im.w << ",\"h\":" << im.h << ",\"img\":" << im.str() << ",\"cv\":" << corner;
    at(s.str());
    std::unique_ptr<Map> m;
    try { m = build(im, corner); }
    catch(std::exception &e)
    {
        std::string w(e.what());
        s << ",\"r\":\"" << (w.find("must be thinned") != std::string::npos ? "refused" : "failed") << "\"}";
        line(s.str());
        return;
    }
    s << ",\"r\":\"ok\"," << state(*m);
    if(import)
    {
        at("import " + s.str());
        Map n(m->cellImage);
        s << ",\"imp\":{" << state(n) << "}";
    }
    s << "}";
    line(s.str());
}
// ------------------------------------------------------------- operations
static const char *opName[] = {"rin", "mf", "rb", "me", "re", "rewe"};
struct Pick { int op; Dart d; };
static Pick pick(Rng &g, Map &m, int nops)
{
    std::vector<Dart> ds(darts(m)), all(ds);
    std::vector<Dart> sing;
    for(Map::NodeIterator it = m.nodesBegin(); it.inRange(); ++it)
        if(it->anchor.isSingular()) { sing.push_back(it->anchor); all.push_back(it->anchor); }
    Pick p;
    if(!g.chance(8))
    {
        // a valid operation
        for(int tries = 0; tries < 30; ++tries)
        {
            p.op = g.below(nops);
            if(p.op == 0) { if(sing.empty()) continue; p.d = sing[g.below(sing.size())]; return p; }
            if(ds.empty()) continue;
            p.d = ds[g.below(ds.size())];
            bool bridge = p.d.leftFaceLabel() == p.d.rightFaceLabel();
            if(p.op == 1 && bridge) continue;
            if(p.op == 2 && !bridge) continue;
            if(p.op == 3 && (p.d.startNode().degree != 2 || p.d.edge().isLoop())) continue;
            return p;
        }
    }
    p.op = g.below(nops);
    p.d = all[g.below(all.size())];
    return p;
}
static std::string call(int op, Map &m, Dart const &d)
{
    std::stringstream s;
    try
    {
        int r = op == 0 ? m.removeIsolatedNode(d).label : op == 1 ? m.mergeFaces(d).label
              : op == 2 ? m.removeBridge(d).label : m.mergeEdges(d).label;
        s << "\"r\":" << r;
    }
    catch(std::exception &e) { s << "\"r\":-1"; }
    return s.str();
}
static void walk(Rng &g)
{
    Img im(randomImage(g, g.chance(4) ? 19 : 9));
    bool corner = g.chance(50);
    std::string why;
    if(refused(im, corner, why)) { corner = !corner; if(refused(im, corner, why)) return; }
    at("new " + im.str());
    std::unique_ptr<Map> m(build(im, corner)), saved;
    line("{\"op\":\"new\"," + state(*m) + "}");
    int steps = g.in(4, 24);
    for(int i = 0; i < steps; ++i)
    {
        if(g.chance(8))
        {
            std::stringstream s;
            at("copy");
            if(saved.get() && g.chance(50)) { *saved = *m; s << "{\"op\":\"assign\"," << state(*saved) << "}"; }
            else { saved.reset(new Map(*m)); s << "{\"op\":\"copy\"," << state(*saved) << "}"; }
            line(s.str());
            if(g.chance(50)) { m.swap(saved); line("{\"op\":\"swap\"," + state(*m) + "}"); }
            continue;
        }
        if(saved.get() && g.chance(12))
        {
            m.swap(saved);
            line("{\"op\":\"swap\"," + state(*m) + "}");
            continue;
        }
        if(m->nodeCount() == 0) break;
        Pick p(pick(g, *m, 4));
        std::stringstream s;
        s << "{\"op\":\"" << opName[p.op] << "\",\"d\":" << id(*m, p.d) << ",";
        at(s.str());
        s << call(p.op, *m, p.d) << ",";
        s << state(*m) << "}";
        line(s.str());
    }
}
// ------------------------------------------------------------- pyramids
// statistics that count what the pyramid tells them
struct Stats
{
    int calls, hash, open;
    Stats() : calls(0), hash(7), open(0) {}
    void pre(int k, Dart const &d) { ++open; hash = (hash * 31 + k * 5 + (int)d.startNodeLabel()) % 1000003; }
    void post(int k, int label) { --open; ++calls; hash = (hash * 37 + k * 3 + label) % 1000003; }
    void preRemoveIsolatedNode(Dart const &d) { pre(1, d); }
    void postRemoveIsolatedNode(Map::FaceInfo &f) { post(1, f.label); }
    void preMergeFaces(Dart const &d) { pre(2, d); }
    void postMergeFaces(Map::FaceInfo &f) { post(2, f.label); }
    void preRemoveBridge(Dart const &d) { pre(3, d); }
    void postRemoveBridge(Map::FaceInfo &f) { post(3, f.label); }
    void preMergeEdges(Dart const &d) { pre(4, d); }
    void postMergeEdges(Map::EdgeInfo &e) { post(4, e.label); }
};
typedef CellPyramid<Map, Stats> Pyramid;
static std::string levelState(Pyramid::Level const &l)
{
    std::stringstream s;
    s << "\"ix\":" << l.index() << ",\"calls\":" << l.cellStatistics().calls << ",\"own\":" << (l.pyramid() ? 1 : 0)
      << "," << state(const_cast<Map &>(l.segmentation()));
    return s.str();
}
static void pyr(Rng &g)
{
    bool large = g.chance(4);
    Img im(randomImage(g, large ? 17 : 8));
    bool corner = g.chance(50);
    std::string why;
    if(refused(im, corner, why)) { corner = !corner; if(refused(im, corner, why)) return; }
    at("new " + im.str());
    std::unique_ptr<Map> m(build(im, corner));
    Pyramid p(*m);
    m.reset();
    line("{\"op\":\"new\",\"n\":1," + levelState(p.topLevel()) + "}");
    std::unique_ptr<Pyramid::Level> cur;
    int steps = large ? g.in(30, 90) : g.in(6, 45), depth = 0;
    bool reopened = false;
    for(int i = 0; i < steps || depth; ++i)
    {
        std::stringstream s;
        int c = g.below(100);
        bool last = i >= steps;
        if(last) c = 97;        // close composites
        if(c < 60)
        {
            Map &t(const_cast<Map &>(p.topLevel().segmentation()));
            if(t.nodeCount() == 0) { if(last) continue; steps = i; continue; }
            Pick k(pick(g, t, 6));
            s << "{\"op\":\"" << opName[k.op] << "\",\"d\":" << id(t, k.d) << ",";
            at(s.str());
            int r = -1;
            try
            {
                r = k.op == 0 ? p.removeIsolatedNode(k.d).label : k.op == 1 ? p.mergeFaces(k.d).label : k.op == 2 ? p.removeBridge(k.d).label
                  : k.op == 3 ? p.mergeEdges(k.d).label : k.op == 4 ? p.removeEdge(k.d).label : p.removeEdgeWithEnds(k.d).label;
            }
            catch(std::exception &e) { r = -1; }
            s << "\"r\":" << r << ",\"n\":" << p.levelCount() << "," << levelState(p.topLevel()) << "}";
        }
        else if(c < 72 && !depth)
        {
            int k = g.below(p.levelCount());
            s << "{\"op\":\"get\",\"k\":" << k << ",";
            at(s.str());
            cur.reset(p.getLevel(k));
            s << "\"n\":" << p.levelCount() << "," << levelState(*cur) << "}";
        }
        else if(c < 84 && !depth && cur.get() && cur->index() < p.levelCount())
        {
            int k = g.below(p.levelCount());
            if(g.chance(50))
            {
                s << "{\"op\":\"goto\",\"k\":" << k << ",";
                at(s.str());
                cur->gotoLevel(k);
                s << "\"n\":" << p.levelCount() << "," << levelState(*cur) << "}";
            }
            else
            {
                int ms = g.in(0, 5);
                s << "{\"op\":\"approach\",\"k\":" << k << ",\"ms\":" << ms << ",\"from\":" << cur->index() << ",";
                at(s.str());
                bool r = cur->approachLevel(k, ms);
                s << "\"r\":" << r << ",\"n\":" << p.levelCount() << "," << levelState(*cur) << "}";
            }
        }
        else if(c < 88 && !depth)
        {
            int n = p.levelCount(), k = g.chance(60) ? std::max(0, n - 1 - g.below(4)) : g.below(n);
            if(cur.get() && (int)cur->index() > k) cur.reset();   // that level is gone
            if(g.chance(50))
            {
                s << "{\"op\":\"cut\",\"k\":" << k << ",";
                at(s.str());
                p.cutAbove(k);
            }
            else
            {
                s << "{\"op\":\"cut\",\"k\":" << k << ",\"lv\":1,";
                at(s.str());
                std::unique_ptr<Pyramid::Level> l(p.getLevel(k));
                p.cutAbove(*l);
            }
            s << "\"n\":" << p.levelCount() << "," << levelState(p.topLevel()) << "}";
        }
        else if(c < 94)
        {
            if(depth > 2) continue;
            bool change = g.chance(35) && (depth || p.levelCount() > 1);
            s << "{\"op\":\"" << (change ? "change" : "begin") << "\",";
            at(s.str());
            if(!depth && change && cur.get() && cur->index() + 1 >= p.levelCount()) cur.reset();
            if(change) p.changeIntoComposite(); else p.beginComposite();
            ++depth;
            s << "\"n\":" << p.levelCount() << "," << levelState(p.topLevel()) << "}";
        }
        else if(c < 98)
        {
            if(!depth) continue;
            s << "{\"op\":\"end\",";
            at(s.str());
            p.endComposite();
            --depth;
            s << "\"n\":" << p.levelCount() << "," << levelState(p.topLevel()) << "}";
        }
        else if(!depth)
        {
            s << "{\"op\":\"store\",";
            at(s.str());
            if(cur.get() && cur->index() < p.levelCount()) p.storeCheckpoint(*cur); else p.storeCheckpoint(p.topLevel());
            s << "\"n\":" << p.levelCount() << "," << levelState(p.topLevel()) << "}";
        }
        else continue;
        line(s.str());
    }
    // finally every level once more, in a random order
    int n = p.levelCount();
    for(int i = 0; i < std::min(n, 8); ++i)
    {
        int k = n <= 8 ? i : g.below(n);
        std::stringstream s;
        s << "{\"op\":\"get\",\"k\":" << k << ",";
        at(s.str());
        std::unique_ptr<Pyramid::Level> l(p.getLevel(k));
        s << "\"n\":" << p.levelCount() << "," << levelState(*l) << "}";
        line(s.str());
    }
}
static void onAlarm(int) { const char m[] = "HANG\n"; if(write(2, m, 5)) {} _exit(14); }
int main(int argc, char **argv)
{
    if(argc < 8) return 3;
    signal(SIGALRM, onAlarm);
    out = fopen(argv[1], "w");
    std::string mode(argv[2]);
    Rng g(atol(argv[3]));
    int count = atoi(argv[4]), ex = atoi(argv[5]), shard = atoi(argv[6]), nshards = atoi(argv[7]);
    // the library reports on stderr through std::cerr
    std::stringstream sink;
    std::streambuf *old = std::cerr.rdbuf(sink.rdbuf());
    if(mode == "build")
    {
        long idx = 0;
        static const int sizes[][2] = {{1,1},{2,1},{1,2},{2,2},{3,2},{2,3},{3,3},{4,3},{4,4}};
        for(int k = 0; k < (ex == 0 ? 0 : ex == 1 ? 7 : ex == 2 ? 8 : 9); ++k)
        {
            int w = sizes[k][0], h = sizes[k][1];
            for(long c = 0; c < (1L << (w*h)); ++c)
                for(int corner = 0; corner < 2; ++corner)
                {
                    if(++idx % nshards != shard) continue;
                    Img im(w, h);
                    for(int i = 0; i < w*h; ++i) im.v[i] = (c >> i) & 1;
                    buildRecord(im, corner, idx / nshards % 4 == 0);
                }
        }
        // all neighbourhoods of an inner pixel
        if(ex)
            for(int c = 0; c < 256; ++c)
            {
                if(++idx % nshards != shard) continue;
                static const int px[8] = {2,2,3,4,4,4,3,2};
                Img im(7, 7);
                static const int dx[8] = {1, 1, 0, -1, -1, -1, 0, 1}, dy[8] = {0, -1, -1, -1, 0, 1, 1, 1};
                im.v[3*7+3] = 1;
                for(int b = 0; b < 8; ++b) if((c >> b) & 1) im.v[(3+dy[b])*7 + 3+dx[b]] = 1;
                buildRecord(im, c & 1, false);
                buildRecord(im, !(c & 1), false);
            }
        for(int i = 0; i < count; ++i)
        {
            Img im(randomImage(g, g.chance(3) ? 26 : 10));
            buildRecord(im, g.chance(50), g.chance(25));
            sink.str("");
        }
    }
    else
    {
        for(long done = 0; records < count; ++done)
        {
            if(mode == "walk") walk(g); else pyr(g);
            sink.str("");
        }
    }
    std::cerr.rdbuf(old);
    fclose(out);
    fprintf(stderr, "DONE %ld\n", records);
    return 0;
}
