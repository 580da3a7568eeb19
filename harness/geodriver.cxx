// Script driver for the GeoMap library: executes a text script against the real
// code and writes one JSON record per operation (see spec/TraceGeoMap.tla).
// Coordinates are quarter pixels in scripts and records; "map W H e" makes the unit
// 2^-e quarter pixels (the specification does not depend on it but for label images).
#include "cppmap.hxx"
#include "cppmap_utils.hxx"
#include "crackedgemap.hxx"
#ifdef GD_STATS
#include <memory>
#include <vigra/multi_array.hxx>
#include "facestatistics.hxx"
#endif
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <map>
#include <set>
#include <memory>
#include <cmath>

typedef GeoMap::Dart Dart;
static double U = 4.0;
static FILE *out;

// ------------------------------------------------------------------ output
static void putc4(std::ostream &o, double v)
{
    double q = v * U, r = std::floor(q + 0.5);
    if(!(std::fabs(q - r) < 1e-6) || std::fabs(r) > 1e6)
        o << 999999; // not a representable coordinate: certain mismatch
    else
        o << (long)r;
}
static void putpt(std::ostream &o, Vector2 const &p)
{
    o << "["; putc4(o, p[0]); o << ","; putc4(o, p[1]); o << "]";
}
static long rnd(double v)
{
    if(!(std::fabs(v) < 2e7)) return 20000000;
    return (long)std::floor(v + 0.5);
}
static long lab(CellLabel l) { return l == UNINITIALIZED_CELL_LABEL ? -1 : (long)l; }

// ------------------------------------------------------------------ slots
struct Slot;
struct Events
{
    std::stringstream s;
    bool first;
    Events() : first(true) {}
    void add(std::string const &e) { s << (first ? "" : ",") << e; first = false; }
    void clear() { s.str(""); s.clear(); first = true; }
};
static Events events;
static std::set<std::string> vetoes;

struct Slot
{
    boost::shared_ptr<GeoMap> map;
    boost::shared_ptr<EdgeProtection> prot;
    void connect();
    std::string counts()
    {
        std::stringstream s;
        s << map->nodeCount() << "," << map->edgeCount() << "," << map->faceCount();
        return s.str();
    }
    bool ev(const char *k, std::string const &args)
    {
        std::stringstream s;
        s << "{\"k\":\"" << k << "\",\"a\":[" << args << "],\"c\":[" << counts() << "]}";
        events.add(s.str());
        return !vetoes.count(k);
    }
    static std::string str(long a) { std::stringstream s; s << a; return s.str(); }
#ifdef GD_STATS
    bool pmf(const Dart &d)
    {
        return ev("pmf", str(d.leftFaceLabel()) + "," + str(d.rightFaceLabel()) + ","
                  + str(d.leftFace()->pixelArea()) + "," + str(d.rightFace()->pixelArea()));
    }
#else
    bool pmf(const Dart &d) { return ev("pmf", str(d.label())); }
#endif
    void qmf(GeoMap::Face &f) { ev("qmf", str(f.label())); }
    bool prb(const Dart &d) { return ev("prb", str(d.label())); }
    void qrb(GeoMap::Face &f) { ev("qrb", str(f.label())); }
    bool pme(const Dart &d) { return ev("pme", str(d.label())); }
    void qme(GeoMap::Edge &e) { ev("qme", str(e.label())); }
    bool rn(GeoMap::Node &n) { return ev("rn", str(n.label())); }
    void psp(GeoMap::Edge &e, unsigned int i, Vector2 const &p, bool ins)
    {
        std::stringstream s;
        s << e.label() << "," << i << "," << (ins ? 1 : 0);
        s << ","; putc4(s, p[0]); s << ","; putc4(s, p[1]);
        ev("psp", s.str());
    }
    void qsp(GeoMap::Edge &e, GeoMap::Edge &n) { ev("qsp", str(e.label()) + "," + str(n.label())); }
    void ap(const GeoMap::Face &f, const PixelList &px)
    {
        std::stringstream s;
        s << f.label() << "," << f.pixelArea() << ",[";
        for(unsigned int i = 0; i < px.size(); ++i)
            s << (i ? "," : "") << "[" << px[i].x << "," << px[i].y << "]";
        s << "]";
        ev("ap", s.str());
    }
};

void Slot::connect()
{
    GeoMap &m(*map);
    m.preMergeFacesHook.connect([this](const Dart &d) { return pmf(d); });
    m.postMergeFacesHook.connect([this](GeoMap::Face &f) { qmf(f); });
    m.preRemoveBridgeHook.connect([this](const Dart &d) { return prb(d); });
    m.postRemoveBridgeHook.connect([this](GeoMap::Face &f) { qrb(f); });
    m.preMergeEdgesHook.connect([this](const Dart &d) { return pme(d); });
    m.postMergeEdgesHook.connect([this](GeoMap::Edge &e) { qme(e); });
    m.removeNodeHook.connect([this](GeoMap::Node &n) { return rn(n); });
    m.preSplitEdgeHook.connect([this](GeoMap::Edge &e, unsigned int i, Vector2 const &p, bool b) { psp(e, i, p, b); });
    m.postSplitEdgeHook.connect([this](GeoMap::Edge &e, GeoMap::Edge &n) { qsp(e, n); });
    m.associatePixelsHook.connect([this](const GeoMap::Face &f, const PixelList &p) { ap(f, p); });
}

static std::map<int, boost::shared_ptr<Slot> > slots;
static int cur = 0;
static Slot &slot() { return *slots[cur]; }
static GeoMap &M() { return *slots[cur]->map; }

// ------------------------------------------------------------------ state
static std::string stateJSON(GeoMap &m)
{
    std::stringstream o;
    bool ini = m.mapInitialized();
    o << "{\"n\":[";
    bool c = false;
    for(GeoMap::NodeIterator it = m.nodesBegin(); it.inRange(); ++it, c = true)
    {
        o << (c ? "," : "") << "[" << (*it)->label() << ",";
        putc4(o, (*it)->position()[0]); o << ","; putc4(o, (*it)->position()[1]);
        unsigned int deg = (*it)->degree();
        bool degOK = (*it)->hasDegree(deg) && (*it)->hasMinDegree(deg) && !(*it)->hasMinDegree(deg+1)
            && !(*it)->hasDegree(deg+1) && (deg == 0 || !(*it)->hasDegree(deg-1));
        o << "," << ((*it)->isIsolated() ? 0 : (*it)->anchor().label()) << "," << (degOK ? (int)deg : -1) << "]";
    }
    o << "],\"e\":[";
    c = false;
    for(GeoMap::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it, c = true)
    {
        GeoMap::Edge &e(**it);
        o << (c ? "," : "") << "[" << e.label() << "," << e.startNodeLabel() << "," << e.endNodeLabel()
          << "," << lab(e.leftFaceLabel()) << "," << lab(e.rightFaceLabel())
          << "," << (e.flags() & 0xffff) << "," << (e.flags() >> 16) << ",[";
        for(unsigned int i = 0; i < e.size(); ++i)
        {
            if(i) o << ",";
            putpt(o, static_cast<GeoMap::Edge const &>(e)[i]);
        }
        o << "]]";
    }
    o << "],\"sg\":[";
    c = false;
    for(GeoMap::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it, c = true)
        for(int sgn = 1; sgn >= -1; sgn -= 2)
        {
            Dart d(m.dart(sgn * (int)(*it)->label()));
            if(c || sgn < 0) o << ",";
            o << "[" << d.label() << "," << d.clone().nextSigma().label() << "," << d.clone().prevSigma().label()
              << "," << d.clone().nextPhi().label() << "," << d.clone().prevPhi().label()
              << "," << d.startNodeLabel() << "," << d.endNodeLabel()
              << "," << lab(d.leftFaceLabel()) << "," << lab(d.rightFaceLabel()) << "]";
        }
    o << "],\"f\":[";
    c = false;
    if(ini)
    for(GeoMap::FaceIterator it = m.facesBegin(); it.inRange(); ++it, c = true)
    {
        GeoMap::Face &f(**it);
        o << (c ? "," : "") << "[" << f.label() << ",[";
        for(GeoMap::Face::ContourIterator ci = f.contoursBegin(); ci != f.contoursEnd(); ++ci)
            o << (ci != f.contoursBegin() ? "," : "") << ci->label();
        o << "]," << f.pixelArea() << "," << f.holeCount() << "]";
    }
    o << "],\"cnt\":[" << m.nodeCount() << "," << m.edgeCount() << "," << m.faceCount() << ","
      << m.maxNodeLabel() << "," << m.maxEdgeLabel() << "," << m.maxFaceLabel() << "]"
      << ",\"ini\":" << (ini ? "true" : "false")
      << ",\"srt\":" << (m.edgesSorted() ? "true" : "false")
      << ",\"li\":" << (m.hasLabelImage() ? "true" : "false") << ",\"lab\":[";
    if(m.hasLabelImage())
    {
        GeoMap::LabelImageIterator ul = m.labelsUpperLeft();
        GeoMap::LabelImageAccessor ac = m.labelAccessor();
        bool f1 = true;
        for(int y = 0; y < m.imageSize().height(); ++y)
        {
            GeoMap::LabelImageIterator r(ul);
            r.y += y;
            for(int x = 0; x < m.imageSize().width(); ++x, ++r.x)
            {
                o << (f1 ? "" : ",") << ac(r);
                f1 = false;
            }
        }
    }
    o << "],\"lut\":[";
    if(m.hasLabelImage())
        for(unsigned int i = 0; i < m.faceLabelLUT().size(); ++i)
            o << (i ? "," : "") << m.faceLabelLUT()[i];
    o << "]}";
    return o.str();
}

// which values of a cell to ask for (partial queries): bit 0 length/area, 1 area, 2 box;
// values not asked for appear as NA
static const int NA = -2000000000;
static unsigned int asked(long seed, unsigned int label)
{
    unsigned int h = (unsigned int)seed * 2654435761u + label * 40503u;
    h ^= h >> 13; h *= 0x5bd1e995u; h ^= h >> 15;
    return (h & 8) ? 0 : (h >> 4) & 7;
}

static std::string cachesJSON(GeoMap &m, std::string const &what, long seed = -1)
{
    // lengths in 1/100 px, areas in 1/32 px^2 (exact), boxes in quarter px
    std::stringstream o;
    bool wantE = what.find('e') != std::string::npos, wantF = what.find('f') != std::string::npos,
        wantC = what.find('c') != std::string::npos, wantS = what.find('s') != std::string::npos && U == 4;
    o << "{\"e\":[";
    bool c = false;
    if(wantE)
    for(GeoMap::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it, c = true)
    {
        GeoMap::Edge &e(**it);
        unsigned int ask = seed < 0 ? 7 : asked(seed, e.label() + 1000);
        o << (c ? "," : "") << "[" << e.label() << "," << (ask & 1 ? rnd(e.length() * 25 * U) : NA) << "," << (ask & 2 ? rnd(e.partialArea() * 2 * U * U) : NA) << ",";
        if(!(ask & 4))
        {
            o << NA << ",0,0,0]";
            continue;
        }
        GeoMap::Edge::BoundingBox b(e.boundingBox());
        putc4(o, b.begin()[0]); o << ","; putc4(o, b.begin()[1]); o << ",";
        putc4(o, b.end()[0]); o << ","; putc4(o, b.end()[1]); o << "]";
    }
    o << "],\"f\":[";
    c = false;
    if(wantF && m.mapInitialized())
    for(GeoMap::FaceIterator it = m.facesBegin(); it.inRange(); ++it, c = true)
    {
        GeoMap::Face &f(**it);
        unsigned int ask = seed < 0 ? 7 : asked(seed, f.label());
        o << (c ? "," : "") << "[" << f.label() << "," << (ask & 2 ? rnd(f.area() * 2 * U * U) : NA);
        if(f.label() && !(ask & 4))
            o << "," << NA << ",0,0,0";
        else if(f.label())
        {
            GeoMap::Face::BoundingBox b(f.boundingBox());
            o << ","; putc4(o, b.begin()[0]); o << ","; putc4(o, b.begin()[1]);
            o << ","; putc4(o, b.end()[0]); o << ","; putc4(o, b.end()[1]);
        }
        o << "]";
    }
    o << "],\"c\":[";
    c = false;
    if(wantC && m.mapInitialized())
    for(GeoMap::FaceIterator it = m.facesBegin(); it.inRange(); ++it)
        for(GeoMap::Face::ContourIterator ci = (*it)->contoursBegin(); ci != (*it)->contoursEnd(); ++ci, c = true)
        {
            double a = contourArea(*ci);
            Vector2Polygon p(contourPoly(*ci));
            unsigned int n = 0;
            for(ContourPointIter cpi(*ci); cpi.inRange(); ++cpi)
                ++n;
            o << (c ? "," : "") << "[" << ci->label() << "," << rnd(a * 2 * U * U) << ","
              << rnd(contourLength(*ci) * 25 * U) << "," << rnd(p.partialArea() * 2 * U * U) << ","
              << rnd(p.length() * 25 * U) << "," << p.size() << "," << n << ","
              << (a != 0 ? rnd(isoperimetricQuotient(*ci) * 1000) : 0) << "]";
        }
    o << "],\"sl\":[";
    c = false;
    if(wantS)
    for(GeoMap::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it, c = true)
    {
        vigra::Scanlines const &sl((*it)->scanLines());
        o << (c ? "," : "") << "[" << (*it)->label() << ",[";
        bool c2 = false;
        for(int y = sl.startIndex(); y < sl.endIndex(); ++y)
            for(unsigned int j = 0; j < sl[y].size(); ++j, c2 = true)
                o << (c2 ? "," : "") << "[" << y << "," << sl[y][j].begin << "," << sl[y][j].end << "]";
        o << "]]";
    }
    // finite faces: the pixels their scanlines fill (y*W+x), their number
    o << "],\"fl\":[";
    c = false;
    if(wantS && m.mapInitialized())
    for(GeoMap::FaceIterator it = m.finiteFacesBegin(); it.inRange(); ++it, c = true)
    {
        vigra::MultiArray<2, int> img(vigra::MultiArrayShape<2>::type(m.imageSize().width(), m.imageSize().height()));
        unsigned int n = fillScannedPoly(*(*it)->scanLines(), 1, destMultiArrayRange(img));
        o << (c ? "," : "") << "[" << (*it)->label() << "," << n << ",[";
        bool c2 = false;
        for(int y = 0; y < m.imageSize().height(); ++y)
            for(int x = 0; x < m.imageSize().width(); ++x)
                if(img(x, y))
                {
                    o << (c2 ? "," : "") << y * m.imageSize().width() + x;
                    c2 = true;
                }
        o << "]]";
    }
    o << "]}";
    return o.str();
}

#ifdef GD_STATS
// --------------------------------------------------------- face statistics
typedef vigra::MultiArray<2, double> StatImage;
typedef FaceColorStatistics<StatImage> Stats;
struct StatSlot
{
    boost::shared_ptr<Stats> st;
    boost::shared_ptr<GeoMap> map;
    int k;          // slot of the map the statistics belong to
    bool att;       // hooks attached
    unsigned int min;
    StatImage img;
};
static std::map<int, StatSlot> stats;

static StatImage statImage(GeoMap &m, long seed, long mod)
{
    StatImage r(StatImage::difference_type(m.imageSize().width(), m.imageSize().height()));
    for(int y = 0; y < r.shape(1); ++y)
        for(int x = 0; x < r.shape(0); ++x)
        {
            unsigned int h = (unsigned int)(seed * 2654435761u) ^ (x * 40503u + y * 9176u + 77u);
            h ^= h >> 13; h *= 0x5bd1e995u; h ^= h >> 15;
            r(x, y) = mod ? (double)(h % (unsigned)mod) : (double)(seed % 16);
        }
    return r;
}

static std::string statsJSON()
{
    std::stringstream o;
    o << "[";
    for(std::map<int, StatSlot>::iterator it = stats.begin(); it != stats.end(); ++it)
    {
        StatSlot &s(it->second);
        GeoMap &m(*s.map);
        o << (it == stats.begin() ? "" : ",") << "{\"id\":" << it->first << ",\"k\":" << s.k << ",\"att\":" << (s.att ? "true" : "false")
          << ",\"min\":" << s.min << ",\"m2\":" << s.st->minSampleCount() << ",\"ssc\":" << s.st->superSampledCount()
          << ",\"ok\":" << (!s.att || s.st->checkConsistency() ? "true" : "false") << ",\"px\":[";
        bool c = false;
        for(GeoMap::FaceIterator f = m.facesBegin(); f.inRange(); ++f, c = true)
            o << (c ? "," : "") << "[" << (*f)->label() << "," << (*f)->pixelArea() << "]";
        o << "],\"f\":[";
        c = false;
        for(unsigned int l = 0; l < s.st->size(); ++l)
            if((*s.st)[l])
            {
                double n = s.st->pixelCount(l);
                o << (c ? "," : "") << "[" << l << "," << (long)n << ","
                  << (n ? rnd(s.st->average(l) * n) : 0) << "," << (n ? rnd(s.st->variance(l, false) * n * n) : 0)
                  << "," << (n > 1 ? rnd(s.st->variance(l, true) * n * (n - 1)) : 0) << "]";
                c = true;
            }
        o << "],\"lab\":[";
        c = false;
        GeoMap::LabelImageIterator ul = m.labelsUpperLeft();
        GeoMap::LabelImageAccessor ac = m.labelAccessor();
        for(int y = 0; y < m.imageSize().height(); ++y)
        {
            GeoMap::LabelImageIterator r(ul);
            r.y += y;
            for(int x = 0; x < m.imageSize().width(); ++x, ++r.x, c = true)
                o << (c ? "," : "") << ac(r);
        }
        o << "]}";
    }
    o << "]";
    return o.str();
}
#endif

// ------------------------------------------------------------------ records
static std::string curLine;
static bool withState = true;
static void emit(std::string const &op, std::string const &args, std::string const &res, std::string const &extra = "")
{
    std::stringstream v;
    for(std::set<std::string>::iterator it = vetoes.begin(); it != vetoes.end(); ++it)
        v << (it == vetoes.begin() ? "" : ",") << "\"" << *it << "\"";
    fprintf(out, "{\"op\":\"%s\",\"k\":%d,\"a\":[%s],\"veto\":[%s],\"r\":%s,\"ev\":[%s]%s",
            op.c_str(), cur, args.c_str(), v.str().c_str(), res.c_str(), events.s.str().c_str(), extra.c_str());
    fflush(out); // lets the runner see which operation preceded a crash while logging
#ifdef GD_STATS
    fprintf(out, ",\"fs\":%s", statsJSON().c_str());
    if(false)
#else
    if(withState)
#endif
        fprintf(out, ",\"s\":%s", stateJSON(M()).c_str());
    fprintf(out, "}\n");
    fflush(out);
    events.clear();
}
static std::string ok(long v) { std::stringstream s; s << "{\"k\":\"ok\",\"v\":" << v << "}"; return s.str(); }
static std::string null() { return "{\"k\":\"null\",\"v\":0}"; }
static std::string exc() { return "{\"k\":\"exc\",\"v\":0}"; }

static void beginOp(std::string const &op, std::string const &args)
{
    fprintf(stderr, "@ %s [%s]\n", op.c_str(), args.c_str());
    fflush(stderr);
    alarm(20);
}

typedef std::vector<long> Args;
static std::string join(Args const &a)
{
    std::stringstream s;
    for(size_t i = 0; i < a.size(); ++i)
        s << (i ? "," : "") << a[i];
    return s.str();
}

template<class PTR>
static std::string labelOf(PTR p) { return p ? ok((long)p->label()) : null(); }

static std::set<long> labelsOfRecordedBridges;

static void runOp(std::string const &op, Args const &a)
{
    std::string args(join(a)), res, extra;
    bool st = true;
    beginOp(op, args);
    try
    {
        GeoMap *m = slots.count(cur) && slots[cur]->map ? slots[cur]->map.get() : NULL;
        if(op == "map")
        {
#ifdef GD_STATS
            stats.clear();
#endif
            slots.clear();
            cur = 0;
            slots[0].reset(new Slot);
            U = a.size() > 2 ? std::ldexp(4.0, a[2]) : 4.0;
            slots[0]->map.reset(new GeoMap(vigra::Size2D(a[0], a[1])));
            slots[0]->connect();
            res = ok(0);
        }
        else if(op == "node")
            res = labelOf(a.size() > 2 ? m->addNode(Vector2(a[0]/U, a[1]/U), a[2]) : m->addNode(Vector2(a[0]/U, a[1]/U)));
        else if(op == "edge")
        {
            // kindA A kindB B label x y x y ...   (kind 0: node, 1: dart)
            Vector2Array pts;
            for(size_t i = 5; i + 1 < a.size(); i += 2)
                pts.push_back(Vector2(a[i]/U, a[i+1]/U));
            GeoMap::SigmaAnchor s(a[0] ? GeoMap::SigmaAnchor(m->dart(a[1])) : GeoMap::SigmaAnchor(*m->node(a[1])));
            GeoMap::SigmaAnchor t(a[2] ? GeoMap::SigmaAnchor(m->dart(a[3])) : GeoMap::SigmaAnchor(*m->node(a[3])));
            res = labelOf(m->addEdge(s, t, pts, a[4]));
        }
        else if(op == "sort") { m->sortEdgesDirectly(); res = ok(0); }
        else if(op == "sorte") { GeoMap::UnsortableGroups u; m->sortEdgesEventually(1.0, 0.1, u, true); res = ok(0); }
        else if(op == "spl") { m->splitParallelEdges(); res = ok(0); }
        else if(op == "sigma") // sorted? then pairs (dart, succ); array sized to maxEdgeLabel + slack
        {
            int half = (int)m->maxEdgeLabel() - 1 + (int)a[1];
            GeoMap::SigmaMapping sm(2*half+1, 0);
            for(size_t i = 2; i + 1 < a.size(); i += 2)
                sm[half + a[i]] = a[i+1];
            m->setSigmaMapping(sm, a[0] != 0);
            res = ok(0);
        }
        else if(op == "init") { m->initializeMap(a[0] != 0); res = ok(0); }
        else if(op == "li") { m->setHasLabelImage(a[0] != 0); res = ok(0); }
        else if(op == "mf") res = labelOf(m->mergeFaces(m->dart(a[0])));
        else if(op == "rb") res = labelOf(m->removeBridge(m->dart(a[0])));
        else if(op == "re") res = labelOf(m->removeEdge(m->dart(a[0])));
        else if(op == "me") res = labelOf(m->mergeEdges(m->dart(a[0])));
        else if(op == "sp")
        {
            if(a.size() > 2)
                res = labelOf(m->splitEdge(*m->edge(a[0]), a[1], Vector2(a[2]/U, a[3]/U)));
            else
                res = labelOf(m->splitEdge(*m->edge(a[0]), a[1]));
        }
        else if(op == "rin") res = m->removeIsolatedNode(*m->node(a[0])) ? ok(1) : null();
        else if(op == "flag") { m->edge(a[0])->setFlag(1u << a[1], a[2] != 0); res = ok(0); }
        else if(op == "relabel")
        {
            std::vector<CellLabel> nl;
            for(size_t i = 1; i < a.size(); ++i)
                nl.push_back(a[i]);
            m->changeFaceLabels(nl, a[0]);
            res = ok(0);
        }
        else if(op == "setpos") { m->node(a[0])->setPosition(Vector2(a[1]/U, a[2]/U)); res = ok(0); }
        else if(op == "mfc") { GeoMap::Dart d(m->dart(a[0])); res = labelOf(mergeFacesCompletely(d, a[1] != 0)); }
        else if(op == "rins") res = ok(removeIsolatedNodes(*m));
        else if(op == "md2") res = ok(mergeDegree2Nodes(*m));
        else if(op == "rbs") res = ok(removeBridges(*m));
        else if(op == "rbl")
        {
            std::list<CellLabel> l;
            for(size_t i = 0; i < a.size(); ++i)
                l.push_back(a[i]);
            res = ok(removeBridges(*m, l));
        }
        else if(op == "rme")
        {
            std::vector<CellLabel> l(a.begin(), a.end());
            res = ok(removeEdges(*m, l.begin(), l.end()));
        }
        else if(op == "prot")
        {
            boost::shared_ptr<EdgeProtection> &p(slots[cur]->prot);
            if(a[0])
            {
                if(!p) p.reset(new EdgeProtection());
                if(!p->map()) p->attachHooks(slots[cur]->map);
            }
            else if(a.size() > 1) p.reset(); // destroyed while attached
            else if(p) p->detachHooks();
            res = ok(0);
        }
        else if(op == "copy") // copy current slot to slot a[0]; stay on the current one
        {
            slots[a[0]].reset(new Slot);
            slots[a[0]]->map.reset(new GeoMap(*m));
            slots[a[0]]->connect();
            res = ok(0);
        }
        else if(op == "use") { cur = a[0]; res = ok(0); }
        else if(op == "drop") { slots.erase(a[0]); res = ok(0); }
        else if(op == "cache")
        {
            static const char *what[] = {"e", "f", "c", "s", "ef", "efcs"};
            extra = ",\"c\":" + cachesJSON(*m, what[a[0]], a.size() > 1 ? a[1] : -1);
            st = false;
            res = ok(0);
        }
        else if(op == "cc") { st = false; res = ok(m->checkConsistency() ? 1 : 0); }
        else if(op == "faceAt")
        {
            st = false;
            Vector2 p(a[0]/U, a[1]/U);
            GeoMap const *cm = m;
            CellLabel f = m->faceAt(p)->label();
            std::stringstream s;
            s << ",\"q\":[" << cm->faceAt(p)->label();
            for(GeoMap::FaceIterator it = m->facesBegin(); it.inRange(); ++it)
                if((*it)->contains(p))
                    s << "," << (*it)->label();
            s << "]";
            extra = s.str();
            res = ok(f);
        }
        else if(op == "dli") // negativeEdgeLabels
        {
            st = false;
            vigra::MultiArray<2, int> img(vigra::MultiArray<2, int>::size_type(m->imageSize().width(), m->imageSize().height()));
            drawLabelImage(*m, destMultiArrayRange(img), a[0] != 0);
            std::stringstream s;
            s << ",\"q\":[";
            for(int y = 0; y < img.shape(1); ++y)
                for(int x = 0; x < img.shape(0); ++x)
                    s << (x || y ? "," : "") << img(x, y);
            s << "]";
            extra = s.str();
            res = ok(0);
        }
        else if(op == "near") // x y [max squared distance in quarter pixels^2]
        {
            st = false;
            Vector2 p(a[0]/U, a[1]/U);
            res = labelOf(a.size() > 2 ? m->nearestNode(p, a[2]/(U*U)) : m->nearestNode(p));
        }
#ifdef GD_STATS
        else if(op == "fs") // id min seed mod: statistics of the current map
        {
            StatImage img(statImage(*m, a[2], a[3]));
            StatSlot s = {boost::shared_ptr<Stats>(new Stats(slots[cur]->map, img, 2.0, a[1])), slots[cur]->map, cur, true, (unsigned)a[1], img};
            stats[a[0]] = s;
            std::stringstream o;
            o << ",\"w\":" << img.shape(0) << ",\"img\":[";
            for(int y = 0; y < img.shape(1); ++y)
                for(int x = 0; x < img.shape(0); ++x)
                    o << (x || y ? "," : "") << (long)img(x, y);
            o << "]";
            extra = o.str();
            res = ok(0);
        }
        else if(op == "fsd") { stats[a[0]].st->detachHooks(); stats[a[0]].att = false; res = ok(0); }
        else if(op == "fsx") { stats.erase(a[0]); res = ok(0); }
        else if(op == "fsc") // id id2 slot: copy the map and its statistics
        {
            StatSlot &s(stats[a[0]]);
            boost::shared_ptr<Slot> ns(new Slot);
            ns->map.reset(new GeoMap(*s.map));
            slots[a[2]] = ns;
            ns->connect();
            StatSlot t = {boost::shared_ptr<Stats>(new Stats(*s.st)), ns->map, (int)a[2], true, s.min, s.img};
            t.st->attachHooks(ns->map);
            stats[a[1]] = t;
            res = ok(0);
        }
        else if(op == "fsr") // region image
        {
            StatSlot &s(stats[a[0]]);
            StatImage img(s.img.shape());
            s.st->copyRegionImage(destImage(img));
            std::stringstream o;
            o << ",\"q\":[";
            for(int y = 0; y < img.shape(1); ++y)
                for(int x = 0; x < img.shape(0); ++x)
                    o << (x || y ? "," : "") << rnd(img(x, y) * 1000);
            o << "]";
            extra = o.str();
            res = ok(0);
        }
        else if(op == "fsq") // differences between neighbouring faces
        {
            StatSlot &s(stats[a[0]]);
            std::stringstream o;
            o << ",\"q\":[";
            bool c = false;
            for(GeoMap::EdgeIterator it = s.map->edgesBegin(); it.inRange(); ++it)
            {
                CellLabel l1 = (*it)->leftFaceLabel(), l2 = (*it)->rightFaceLabel();
                double n1 = s.st->pixelCount(l1), n2 = s.st->pixelCount(l2);
                if(!n1 || !n2) continue;
                Dart d(s.map->dart((*it)->label()));
                o << (c ? "," : "") << "[" << l1 << "," << l2 << "," << rnd(s.st->faceMeanDiff(d) * 2.0 * n1 * n2) << ",";
                if(l1 && l2 && l1 != l2)
                {
                    double a1 = d.leftFace()->area(), a2 = d.rightFace()->area();
                    double df = s.st->faceMeanDiff(d), h = s.st->faceHomogeneity(d);
                    o << rnd(a1 * 32) << "," << rnd(a2 * 32) << "," << rnd(s.st->faceAreaHomogeneity(d) * 32) << ","
                      << (df > 1e-6 ? rnd(h/df * (h/df) * 32) : rnd(h * 1000)) << "," << (df > 1e-6 ? 1 : 0);
                }
                else o << "0,0,0,0,0";
                o << "]";
                c = true;
            }
            o << "]";
            extra = o.str();
            res = ok(0);
        }
#endif
        else
        {
            fprintf(stderr, "unknown op %s\n", op.c_str());
            exit(3);
        }
    }
    catch(std::exception &e)
    {
        res = exc();
        if(getenv("GD_VERBOSE"))
            fprintf(stderr, "exception: %s\n", e.what());
    }
    withState = st;
    emit(op, args, res, extra);
    alarm(0);
}

// ---------------------------------------------------------- random driving
struct Rng
{
    unsigned long long s;
    Rng(unsigned long long seed) : s(seed * 6364136223846793005ULL + 1442695040888963407ULL) { for(int i = 0; i < 4; ++i) next(); }
    unsigned int next() { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned int)(s >> 33); }
    int below(int n) { return n <= 0 ? 0 : (int)(next() % (unsigned)n); }
    bool chance(int pct) { return below(100) < pct; }
};

static Args A(long a) { return Args(1, a); }
static Args A(long a, long b) { Args r(1, a); r.push_back(b); return r; }

static std::vector<int> darts(GeoMap &m, int kind, bool respectProtection = false)
{
    // kind 0: all, 1: face-separating, 2: bridges, 3: mergeable (degree 2)
    std::vector<int> r;
    for(GeoMap::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it)
        for(int s = -1; s <= 1; s += 2)
        {
            Dart d(m.dart(s * (int)(*it)->label()));
            if(kind == 1 && (*it)->isBridge()) continue;
            if(kind == 2 && !(*it)->isBridge()) continue;
            if(kind == 3)
            {
                Dart x(d);
                x.nextSigma();
                if(x.edgeLabel() == d.edgeLabel()) continue;
                if(x.nextSigma() != d) continue;
            }
            if(respectProtection && (*it)->flag(GeoMap::Edge::ALL_PROTECTION)) continue;
            r.push_back(d.label());
        }
    return r;
}

// Moving a node keeps the map's topology if no vertex and no other segment meets
// the triangles swept by the segments attached to the node (exact arithmetic).
struct IPt { long x, y; };
static IPt ipt(Vector2 const &v) { IPt r = {(long)std::floor(v[0]*U + .5), (long)std::floor(v[1]*U + .5)}; return r; }
static bool operator==(IPt a, IPt b) { return a.x == b.x && a.y == b.y; }
static long crossi(IPt a, IPt b, IPt c) { return (b.x-a.x)*(c.y-a.y) - (b.y-a.y)*(c.x-a.x); }
static int sgni(long v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
static bool onSeg(IPt v, IPt a, IPt b)
{
    return crossi(a, b, v) == 0 && std::min(a.x, b.x) <= v.x && v.x <= std::max(a.x, b.x)
        && std::min(a.y, b.y) <= v.y && v.y <= std::max(a.y, b.y);
}
static bool segsMeet(IPt a, IPt b, IPt c, IPt d)
{
    if(onSeg(c, a, b) || onSeg(d, a, b) || onSeg(a, c, d) || onSeg(b, c, d)) return true;
    return sgni(crossi(a, b, c)) * sgni(crossi(a, b, d)) < 0 && sgni(crossi(c, d, a)) * sgni(crossi(c, d, b)) < 0;
}
static bool inTri(IPt v, IPt a, IPt b, IPt c)
{
    int s1 = sgni(crossi(a, b, v)), s2 = sgni(crossi(b, c, v)), s3 = sgni(crossi(c, a, v));
    if(crossi(a, b, c) == 0) return onSeg(v, a, b) || onSeg(v, b, c) || onSeg(v, c, a);
    return (s1 >= 0 && s2 >= 0 && s3 >= 0) || (s1 <= 0 && s2 <= 0 && s3 <= 0);
}
static bool movable(GeoMap &m, int node, IPt n1)
{
    IPt n0 = ipt(m.node(node)->position());
    if(n0 == n1) return false;
    std::vector<IPt> qs;
    std::vector<std::pair<IPt, IPt> > segs;
    std::vector<IPt> vert;
    for(GeoMap::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it)
    {
        GeoMap::Edge const &e(**it);
        bool s = (int)e.startNodeLabel() == node, t = (int)e.endNodeLabel() == node;
        if(s && t && e.size() < 4) return false;
        if(s) qs.push_back(ipt(e[1]));
        if(t) qs.push_back(ipt(e[e.size()-2]));
        if(s && t && qs.size() >= 2 && qs[qs.size()-1] == qs[qs.size()-2]) return false;
        for(unsigned int i = 0; i < e.size(); ++i)
        {
            bool end = (s && i == 0) || (t && i == e.size()-1);
            if(!end) vert.push_back(ipt(e[i]));
            if(i && !(s && i == 1) && !(t && i == e.size()-1))
                segs.push_back(std::make_pair(ipt(e[i-1]), ipt(e[i])));
        }
    }
    for(size_t j = 0; j < segs.size(); ++j)
        if(segsMeet(n0, n1, segs[j].first, segs[j].second)) return false;
    for(size_t i = 0; i < qs.size(); ++i)
    {
        if(qs[i] == n1 || onSeg(qs[i], n0, n1)) return false;
        for(size_t k = 0; k < qs.size(); ++k)
            if(k != i && qs[k] == qs[i]) return false;
        for(size_t j = 0; j < vert.size(); ++j)
            if(!(vert[j] == qs[i]) && inTri(vert[j], n0, n1, qs[i])) return false;
        for(size_t j = 0; j < segs.size(); ++j)
        {
            bool shares = segs[j].first == qs[i] || segs[j].second == qs[i];
            if(!shares && segsMeet(n1, qs[i], segs[j].first, segs[j].second)) return false;
            if(shares)
            {
                IPt o = segs[j].first == qs[i] ? segs[j].second : segs[j].first;
                if(onSeg(n1, qs[i], o) || onSeg(o, qs[i], n1)) return false;
            }
        }
    }
    return true;
}

static bool oneRandomOp(Rng &g, std::string const &profile)
{
    GeoMap &m(M());
    int c = profile[g.below(profile.size())];
    std::vector<int> ds;
    switch(c)
    {
      case 'm': ds = darts(m, 1); if(ds.empty()) return false; runOp("mf", A(ds[g.below(ds.size())])); return true;
      case 'b': ds = darts(m, 2); if(ds.empty()) return false; runOp("rb", A(ds[g.below(ds.size())])); return true;
      case 'x': ds = darts(m, 0); if(ds.empty()) return false; runOp("re", A(ds[g.below(ds.size())])); return true;
      case 'e': ds = darts(m, 3); if(ds.empty()) return false; runOp("me", A(ds[g.below(ds.size())])); return true;
      case 'S': case 's':
      {
        ds = darts(m, 0); if(ds.empty()) return false;
        int e = abs(ds[g.below(ds.size())]);
        GeoMap::Edge &ed(*m.edge(e));
        int n = ed.size();
        if(c == 's' && n > 2)
        { runOp("sp", A(e, 1 + g.below(n-2))); return true; }
        int i = g.below(n-1);
        GeoMap::Edge const &ce(ed);
        double x = (ce[i][0]*U + ce[i+1][0]*U) / 2, y = (ce[i][1]*U + ce[i+1][1]*U) / 2;
        if(x != std::floor(x) || y != std::floor(y)) return false;
        if(x == ce[i][0]*U && y == ce[i][1]*U) return false;
        Args a(A(e, i)); a.push_back((long)x); a.push_back((long)y);
        runOp("sp", a);
        return true;
      }
      case 'n':
      {
        std::vector<int> ns;
        for(GeoMap::NodeIterator it = m.nodesBegin(); it.inRange(); ++it)
            if((*it)->isIsolated()) ns.push_back((*it)->label());
        if(ns.empty()) return false;
        runOp("rin", A(ns[g.below(ns.size())]));
        return true;
      }
      case 'l': if(U != 4) return false; runOp("li", A(m.hasLabelImage() ? 0 : 1)); return true;
      case 'L': if(U != 4) return false; runOp("li", A(g.below(2))); return true;
      case 'f': ds = darts(m, 0); if(ds.empty()) return false;
      { Args a(A(abs(ds[g.below(ds.size())]), g.chance(60) ? 8 + g.below(8) : g.below(19))); a.push_back(g.chance(70)); runOp("flag", a); return true; }
      case 'P': ds = darts(m, 0); if(ds.empty()) return false;   // protect / unprotect
      { Args a(A(abs(ds[g.below(ds.size())]), g.below(8))); a.push_back(g.chance(60)); runOp("flag", a); return true; }
      case 'r':
      {
        // random injective relabelling keeping 0
        int n = m.maxFaceLabel(), mx = n + g.below(3);
        std::vector<int> perm;
        for(int i = 1; i < mx; ++i) perm.push_back(i);
        for(int i = (int)perm.size() - 1; i > 0; --i) std::swap(perm[i], perm[g.below(i+1)]);
        Args a(1, mx); a.push_back(0);
        for(int i = 1; i < n; ++i) a.push_back(perm[i-1]);
        runOp("relabel", a);
        return true;
      }
      case 'R':   // compacting / invalid relabellings
      {
        int n = m.maxFaceLabel();
        Args a(1, 0); long next = 1; a.push_back(0);
        for(int i = 1; i < n; ++i)
            a.push_back(m.face(i) ? next++ : (long)g.below(n+2));
        a[0] = next;
        int bad = g.below(4);
        if(bad == 1 && next > 1) a[0] = next - 1;                 // label out of range
        if(bad == 2 && n > 2) { int k = 1 + g.below(n-1); a[1+k] = a[1 + g.below(n)]; }   // maybe a duplicate
        if(bad == 3) a.pop_back();                                // wrong size
        runOp("relabel", a);
        return true;
      }
      case 'C': ds = darts(m, 1); if(ds.empty()) return false; runOp("mfc", A(ds[g.below(ds.size())], g.below(2))); return true;
      case 'D': runOp("md2", Args()); return true;
      case 'N': runOp("rins", Args()); return true;
      case 'B': runOp("rbs", Args()); return true;
      case 'k':
      {
        ds = darts(m, 2); if(ds.empty()) return false;
        std::set<int> s;
        for(size_t i = 0; i < ds.size(); ++i) if(g.chance(50)) s.insert(abs(ds[i]));
        if(s.empty()) return false;
        Args a; for(std::set<int>::iterator it = s.begin(); it != s.end(); ++it) a.push_back(*it);
        for(int i = (int)a.size() - 1; i > 0; --i) std::swap(a[i], a[g.below(i+1)]);
        runOp("rbl", a);
        return true;
      }
      case 'E':
      {
        ds = darts(m, 0); if(ds.empty()) return false;
        int pct = 10 + g.below(60);
        std::set<int> s;
        for(size_t i = 0; i < ds.size(); ++i) if(g.chance(pct)) s.insert(abs(ds[i]));
        Args a; for(std::set<int>::iterator it = s.begin(); it != s.end(); ++it) a.push_back(*it);
        for(int i = (int)a.size() - 1; i > 0; --i) std::swap(a[i], a[g.below(i+1)]);
        runOp("rme", a);
        return true;
      }
      case 'o': { int on = g.below(2); runOp("prot", on || g.chance(50) ? A(on) : A(0, 1)); return true; }
      case 'O': runOp("prot", A(1)); return true;
      case 'q':
          if(g.below(2))
              runOp("cache", A(g.below(3) ? 4 : g.below(2), g.below(100000)));
          else
              runOp("cache", A(g.below(6)));
          return true;
      case 'Q': runOp("cache", A(5)); return true;
      case 'c': runOp("cc", Args()); return true;
      case 'I': if(U != 4 || m.imageSize().area() == 0) return false; runOp("dli", A(g.below(2))); return true;
      case 'p':
      {
        for(int i = 0; i < 4; ++i)
        {
            int b = g.chance(30) ? 30 : 2;   // also outside the image
            runOp("faceAt", A(g.below(4*m.imageSize().width() + 2*b) - b, g.below(4*m.imageSize().height() + 2*b) - b));
        }
        return true;
      }
      case 'd':
      {
        for(int i = 0; i < 3; ++i)
        {
            Args a(A(g.below(4*m.imageSize().width() + 8) - 6, g.below(4*m.imageSize().height() + 8) - 6));
            if(g.chance(50)) a.push_back(g.below(60));
            runOp("near", a);
        }
        return true;
      }
      case 'w': // move a node without changing the topology
      {
        if(m.hasLabelImage()) return false;
        std::vector<int> ns;
        for(GeoMap::NodeIterator it = m.nodesBegin(); it.inRange(); ++it)
            ns.push_back((*it)->label());
        if(ns.empty()) return false;
        for(int tries = 0; tries < 12; ++tries)
        {
            int n = ns[g.below(ns.size())];
            IPt p = ipt(m.node(n)->position());
            int r = 1 + g.below(10);
            p.x += g.below(2*r+1) - r; p.y += g.below(2*r+1) - r;
            if(!movable(m, n, p)) continue;
            Args a(A(n, p.x)); a.push_back(p.y);
            runOp("setpos", a);
            return true;
        }
        return false;
      }
      case 'a': // add an isolated node, sometimes exactly where another node is
      {
        Args a;
        if(m.nodeCount() && g.chance(50))
        {
            std::vector<int> ns;
            for(GeoMap::NodeIterator it = m.nodesBegin(); it.inRange(); ++it)
                ns.push_back((*it)->label());
            IPt p = ipt(m.node(ns[g.below(ns.size())])->position());
            a = A(p.x, p.y);
        }
        else
            a = A(g.below(4*m.imageSize().width() + 8) - 6, g.below(4*m.imageSize().height() + 8) - 6);
        if(g.chance(20)) a.push_back(m.maxNodeLabel() + g.below(4));
        runOp("node", a);
        return true;
      }
      case 'i': // invalid calls
      {
        static const char *ops[] = {"mf", "rb", "me"};
        int k = g.below(11);
        int mx = (int)m.maxEdgeLabel();
        if(k < 4 && mx > 1)
        {
            int d = 1 + g.below(mx - 1 + (k == 3));
            runOp(ops[g.below(3)], A(g.chance(50) ? d : -d));
        }
        else if(k == 4) runOp("init", A(0));
        else if(k == 5) runOp("sort", Args());
        else if(k == 6) { Args a(A(1, 0)); runOp("sigma", a); }
        else if(k == 7) runOp("sorte", Args());
        else if(k == 8) runOp("spl", Args());
        else if(k == 9)
        {
            std::vector<int> ns;
            for(GeoMap::NodeIterator it = m.nodesBegin(); it.inRange(); ++it) ns.push_back((*it)->label());
            if(ns.size() < 2) return false;
            int s = ns[g.below(ns.size())], t = ns[g.below(ns.size())];
            if(s == t) return false;
            IPt p = ipt(m.node(s)->position()), q = ipt(m.node(t)->position());
            Args a(A(0, s)); a.push_back(0); a.push_back(t); a.push_back(0);
            a.push_back(p.x); a.push_back(p.y); a.push_back(q.x); a.push_back(q.y);
            runOp("edge", a);
        }
        else
        {
            ds = darts(m, 0); if(ds.empty()) return false;
            int e = abs(ds[g.below(ds.size())]);
            runOp("sp", A(e, m.edge(e)->size() - 1 + g.below(3)));
        }
        return true;
      }
#ifdef GD_STATS
      case 'F':
      {
        int id = g.below(3);
        if(stats.count(id) || !m.hasLabelImage()) return false;
        bool tiny = m.imageSize().width() < 6 || m.imageSize().height() < 6; // VIGRA's splines need some pixels
        for(GeoMap::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it) // ... around the geometry
        {
            GeoMap::Edge::BoundingBox b((*it)->boundingBox());
            if(b.begin()[0] <= -1 || b.begin()[1] <= -1 || b.end()[0] > m.imageSize().width() || b.end()[1] > m.imageSize().height())
                tiny = true;
        }
        ds = darts(m, 1);
        for(size_t i = 0; i < ds.size(); )
        {
            Dart d(m.dart(ds[i]));
            if(d.leftFaceLabel() && d.rightFaceLabel() && d.leftFace()->pixelArea() && d.rightFace()->pixelArea()) ++i;
            else ds.erase(ds.begin() + i);
        }
        if(!tiny && !ds.empty() && g.chance(75)) // the faces of some edge have just (not) enough pixels together
        {
            int dl = ds[g.below(ds.size())];
            for(int t = 0; t < 4; ++t) // prefer short edges
            {
                int o = ds[g.below(ds.size())];
                if(m.edge(abs(o))->length() < m.edge(abs(dl))->length()) dl = o;
            }
            Dart d(m.dart(dl));
            Args a(A(id, std::min(200u, d.leftFace()->pixelArea() + d.rightFace()->pixelArea() + g.below(2))));
            a.push_back(g.below(10000)); a.push_back(g.chance(20) ? 0 : 16);
            runOp("fs", a);
            if(g.chance(60))
                runOp("mf", A(dl));
            return true;
        }
        Args a(A(id, tiny || g.chance(30) ? 0 : 1 + g.below(g.chance(50) ? 4 : 40))); a.push_back(g.below(10000)); a.push_back(g.chance(20) ? 0 : g.chance(30) ? 2 : 16);
        runOp("fs", a);
        return true;
      }
      case 'G': case 'H': case 'K': case 'g': case 'h':
      {
        std::vector<int> ids;
        for(std::map<int, StatSlot>::iterator it = stats.begin(); it != stats.end(); ++it)
            if(it->second.att) ids.push_back(it->first);
        if(ids.empty()) return false;
        int id = ids[g.below(ids.size())];
        if(c == 'K')
        {
            int id2 = g.below(3), k = g.below(3);
            if(stats.count(id2) || slots.count(k)) return false;
            Args a(A(id, id2)); a.push_back(k);
            runOp("fsc", a);
            return true;
        }
        if(c == 'H' && g.chance(50)) // also detached ones
            id = stats.begin()->first;
        runOp(c == 'G' ? "fsd" : c == 'H' ? "fsx" : c == 'g' ? "fsr" : "fsq", A(id));
        return true;
      }
#endif
      case 'V':
      {
        static const char *hk[] = {"pmf", "prb", "pme", "rn"};
        const char *h = hk[g.below(4)];
        if(vetoes.count(h)) vetoes.erase(h); else vetoes.insert(h);
        return true;
      }
      case 'v': vetoes.clear(); return true;
      case 'y': { int k = g.below(3); runOp("copy", A(k == cur ? (k + 1) % 3 : k)); return true; }
      case 'u':
      {
        std::vector<int> ks;
        for(std::map<int, boost::shared_ptr<Slot> >::iterator it = slots.begin(); it != slots.end(); ++it) ks.push_back(it->first);
        runOp("use", A(ks[g.below(ks.size())]));
        return true;
      }
      case 'z':
      {
        std::vector<int> ks;
        for(std::map<int, boost::shared_ptr<Slot> >::iterator it = slots.begin(); it != slots.end(); ++it)
            if(it->first != cur) ks.push_back(it->first);
        if(ks.empty()) return false;
        int k = ks[g.below(ks.size())];
#ifdef GD_STATS
        for(std::map<int, StatSlot>::iterator it = stats.begin(); it != stats.end(); ++it)
            if(it->second.k == k) return false;
#endif
        runOp("drop", A(k));
        return true;
      }
    }
    return false;
}

static void onAlarm(int) { const char m[] = "HANG\n"; if(write(2, m, 5)) {} _exit(14); }

// "g OP x1 y1 x2 y2 [x y]": OP on the dart that contains the oriented segment (me: starts
// with it); "g rin x y": on the node at that position.  Model-generated scripts identify
// cells by geometry because the implementation is free to choose labels and survivors.
static void runGeometric(std::string const &op, Args const &a)
{
    GeoMap *m = slots[cur]->map.get();
    if(op == "rin")
    {
        for(GeoMap::NodeIterator it = m->nodesBegin(); it.inRange(); ++it)
            if((*it)->position() == Vector2(a[0]/U, a[1]/U))
            {
                Args b(1, (long)(*it)->label());
                runOp(op, b);
                return;
            }
        return;
    }
    Vector2 p(a[0]/U, a[1]/U), q(a[2]/U, a[3]/U);
    for(GeoMap::EdgeIterator it = m->edgesBegin(); it.inRange(); ++it)
    {
        GeoMap::Edge const &e(**it);
        for(unsigned int i = 0; i + 1 < e.size(); ++i)
            for(int back = 0; back < 2; ++back)
            {
                if(!(e[i + back] == p && e[i + 1 - back] == q))
                    continue;
                if(op == "me" && i != (back ? e.size() - 2 : 0))
                    continue;
                Args b(1, op == "sp" || !back ? (long)e.label() : -(long)e.label());
                if(op == "sp")
                {
                    b.push_back(i);
                    b.insert(b.end(), a.begin() + 4, a.end());
                }
                runOp(op, b);
                return;
            }
    }
}

int main(int argc, char **argv)
{
    if(argc < 3) return 3;
    std::ifstream in(argv[1]);
    out = fopen(argv[2], "w");
    if(!in || !out) return 3;
    signal(SIGALRM, onAlarm);
    std::string line;
    while(std::getline(in, line))
    {
        if(line.empty() || line[0] == '#') continue;
        curLine = line;
        std::stringstream ls(line);
        std::string op;
        ls >> op;
        if(op == "rand") // rand seed count profile
        {
            unsigned long long seed; int n; std::string profile;
            ls >> seed >> n >> profile;
            Rng g(seed);
            int misses = 0;
            for(int i = 0; i < n && misses < 30; )
            {
                if(oneRandomOp(g, profile)) { ++i; misses = 0; }
                else ++misses;
            }
            vetoes.clear();
            continue;
        }
        if(op == "veto") { std::string h; int onoff; ls >> h >> onoff; if(onoff) vetoes.insert(h); else vetoes.erase(h); continue; }
        bool geometric = op == "g";
        if(geometric) ls >> op;
        Args a;
        long v;
        while(ls >> v) a.push_back(v);
        if(geometric) runGeometric(op, a);
        else runOp(op, a);
    }
    fclose(out);
#ifdef GD_STATS
    stats.clear();
#endif
    slots.clear();
    fprintf(stderr, "DONE\n");
    return 0;
}
