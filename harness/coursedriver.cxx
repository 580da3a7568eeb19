// Driver for sortEdgesEventually() / splitParallelEdges(): argv: out script
#include <vector>
#include <string>
#include <sstream>
#include <fstream>
#include <iostream>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <csignal>
#include <unistd.h>
#include "cppmap.hxx"
static FILE *out;
struct Rng
{
    unsigned long long s;
    Rng(long seed = 1) : s(seed * 6364136223846793005ULL + 1442695040888963407ULL) { for(int i = 0; i < 8; ++i) next(); }
    unsigned next() { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(s >> 33); }
    int below(int n) { return next() % n; }
};
// 1/64 pixels
static long q(double v) { return (long)std::floor(v * 64 + 0.5); }

static void orbits(std::stringstream &s, GeoMap &m)
{
    s << "[";
    bool c = false;
    for(GeoMap::NodeIterator it = m.nodesBegin(); it.inRange(); ++it, c = true)
    {
        s << (c ? "," : "") << "{\"n\":" << (*it)->label() << ",\"p\":[" << q((*it)->position()[0]) << "," << q((*it)->position()[1]) << "],\"d\":[";
        if(!(*it)->isIsolated())
        {
            GeoMap::Dart a((*it)->anchor()), d(a);
            int guard = 0;
            do { s << (guard ? "," : "") << d.label(); }
            while(d.nextSigma() != a && ++guard < 500);
        }
        s << "],\"r\":[";
        if(!(*it)->isIsolated())
        {
            GeoMap::Dart a((*it)->anchor()), d(a);
            int guard = 0;
            do { s << (guard ? "," : "") << d.label(); }
            while(d.prevSigma() != a && ++guard < 500);
        }
        s << "]}";
    }
    s << "]";
}

static void onsig(int sig) { const char t[] = "\nTIMEOUT\n"; if(write(2, t, sizeof t)) {} _exit(14); }

int main(int argc, char **argv)
{
    out = fopen(argv[1], "w");
    std::ifstream in(argv[2]);
    if(!out || !in) return 3;
    signal(SIGALRM, onsig);
    std::string line;
    GeoMap *m = 0;
    std::stringstream rec;
    Rng jr;
    double amp = 0; bool jitter = false;
    int nn = 0, ne = 0, no = 0;
    std::string nodes, edges, rest, head;
    while(std::getline(in, line))
    {
        std::stringstream s(line);
        std::string op;
        s >> op;
        alarm(60);
        std::cerr << "@ " << ++no << " " << op << std::endl;
        if(op == "map")
        {
            int w, h;
            s >> w >> h;
            delete m;
            m = new GeoMap(vigra::Size2D(w, h));
            nodes = edges = rest = "";
            jitter = false;
        }
        else if(op == "node")
        {
            int x, y;
            s >> x >> y;
            GeoMap::NodePtr n = m->addNode(Vector2(x / 4.0, y / 4.0));
            std::stringstream o;
            o << (nodes.empty() ? "" : ",") << "[" << n->label() << "," << x << "," << y << "]";
            nodes += o.str();
        }
        else if(op == "jit")
        {
            long seed; int a;
            s >> seed >> a;
            jr = Rng(seed); amp = a / 512.0; jitter = true;
        }
        else if(op == "edge")
        {
            int a, b, flags, n;
            s >> a >> b >> flags >> n;
            Vector2Array p;
            std::stringstream o;
            for(int i = 0; i < n; ++i)
            {
                int x, y;
                s >> x >> y;
                o << (i ? "," : "") << "[" << x << "," << y << "]";
                Vector2 v(x / 4.0, y / 4.0);
                if(jitter && i && i < n-1)
                    v += Vector2(amp * (jr.below(201) - 100) / 100.0, amp * (jr.below(201) - 100) / 100.0);
                if(jitter && i && jr.below(3) == 0)     // extra points on the segment
                {
                    double l = (1 + jr.below(9)) / 10.0;
                    p.push_back(p.back() * (1-l) + v * l);
                }
                p.push_back(v);
            }
            GeoMap::EdgePtr e = m->addEdge(GeoMap::SigmaAnchor(*m->node(a)), GeoMap::SigmaAnchor(*m->node(b)), p);
            if(flags) e->setFlag(flags);
            std::stringstream oo;
            oo << (edges.empty() ? "" : ",") << "{\"l\":" << e->label() << ",\"s\":" << a << ",\"t\":" << b << ",\"f\":" << flags << ",\"p\":[" << o.str() << "]}";
            edges += oo.str();
        }
        else if(op == "sort")
        {
            int st, mi, sp;
            s >> st >> mi >> sp;
            GeoMap::UnsortableGroups u;
            m->sortEdgesEventually(st / 100.0, mi / 100.0, u, sp);
            std::stringstream o;
            o << ",\"step\":" << st << ",\"sorted\":" << (m->edgesSorted() ? 1 : 0) << ",\"uns\":[";
            bool c = false;
            for(auto &g : u)
            {
                o << (c ? "," : "") << "[";
                c = false;
                for(int d : g) { o << (c ? "," : "") << d; c = true; }
                o << "]";
                c = true;
            }
            o << "],\"orb\":";
            orbits(o, *m);
            rest += o.str();
        }
        else if(op == "pref")
        {
            long seed;
            s >> seed;
            Rng r(seed);
            std::auto_ptr<GeoMap::EdgePreferences> p(new GeoMap::EdgePreferences(m->maxEdgeLabel()));
            for(unsigned i = 0; i < p->size(); ++i) (*p)[i] = r.below(1000) / 1000.0;
            m->setEdgePreferences(p);
        }
        else if(op == "split")
        {
            m->splitParallelEdges();
            std::stringstream o;
            o << ",\"nc\":" << m->nodeCount() << ",\"ec\":" << m->edgeCount() << ",\"orb2\":";
            orbits(o, *m);
            o << ",\"edges2\":[";
            bool c = false;
            for(GeoMap::EdgeIterator it = m->edgesBegin(); it.inRange(); ++it, c = true)
            {
                GeoMap::Edge &e(**it);
                o << (c ? "," : "") << "{\"l\":" << e.label() << ",\"s\":" << e.startNodeLabel() << ",\"t\":" << e.endNodeLabel() << ",\"f\":" << e.flags() << ",\"p\":[";
                for(unsigned i = 0; i < e.size(); ++i) o << (i ? "," : "") << "[" << q(e[i][0]) << "," << q(e[i][1]) << "]";
                o << "]}";
            }
            o << "]";
            rest += o.str();
        }
        else if(op == "init")
        {
            int li;
            s >> li;
            m->initializeMap(li);
            std::stringstream o;
            o << ",\"cons\":" << (m->checkConsistency() ? 1 : 0) << ",\"fc\":" << m->faceCount() << ",\"faces\":[";
            bool c = false;
            for(GeoMap::FaceIterator it = m->facesBegin(); it.inRange(); ++it, c = true)
                o << (c ? "," : "") << "[" << (*it)->label() << "," << (long)std::floor((*it)->area() * 32 + 0.5) << "," << ((*it)->contoursEnd() - (*it)->contoursBegin()) << "]";
            o << "]";
            rest += o.str();
        }
        else if(op == "end")
        {
            fprintf(out, "{\"op\":\"%s\",\"nodes\":[%s],\"edges\":[%s]%s}\n",
                    rest.find("\"edges2\"") != std::string::npos ? "split" : "sort", nodes.c_str(), edges.c_str(), rest.c_str());
            fflush(out);
            delete m; m = 0;
        }
        else
            return 3;
    }
    fclose(out);
    std::cerr << "DONE" << std::endl;
    return 0;
}
