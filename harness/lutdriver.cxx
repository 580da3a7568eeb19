// LabelLUT driver: walks operation trees depth first and writes one record per node.
// argv: out maxlabels depth seed walks walklen
#include <iterator>
#include "labellut.hxx"
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>

static FILE *out;
static long records = 0;

static void obs(LabelLUT const &l)
{
    fprintf(out, "\"lut\":[");
    for(unsigned int i = 0; i < l.size(); ++i)
        fprintf(out, "%s%u", i ? "," : "", l[i]);
    fprintf(out, "],\"m\":[");
    bool c = false;
    for(unsigned int i = 0; i < l.size(); ++i)
    {
        if(l[i] != i) continue;
        fprintf(out, "%s[%u", c ? "," : "", i);
        c = true;
        unsigned int n = 0;
        for(LabelLUT::MergedIterator it = l.mergedBegin(i); it.inRange() && n < 3*l.size() + 3; ++it, ++n)
            fprintf(out, ",%u", *it);
        // the post-increment form visits the same labels
        unsigned int n2 = 0;
        for(LabelLUT::MergedIterator it = l.mergedBegin(i); !it.atEnd() && n2 < 3*l.size() + 3; it++) ++n2;
        if(n2 != n) fprintf(out, ",999999");
        fprintf(out, "]");
    }
    fprintf(out, "]}\n");
    ++records;
}
static void rec(int depth, const char *op, unsigned int a, unsigned int b, LabelLUT const &l)
{
    fprintf(out, "{\"d\":%d,\"op\":\"%s\",\"a\":%u,\"b\":%u,", depth, op, a, b);
    obs(l);
}

static void tree(LabelLUT const &l, int depth, int maxDepth, bool extra)
{
    if(depth >= maxDepth) return;
    for(unsigned int f = 0; f < l.size(); ++f)
        for(unsigned int t = 0; t < l.size(); ++t)
        {
            if(f == t || l[f] != f || l[t] != t) continue;
            LabelLUT c(l);
            c.relabel(f, t);
            rec(depth + 1, "relabel", f, t, c);
            tree(c, depth + 1, maxDepth, extra);
        }
    if(extra)
    {
        if(l.size() < 5)
        {
            LabelLUT c(l);
            c.appendOne();
            rec(depth + 1, "append", 0, 0, c);
            tree(c, depth + 1, maxDepth, extra);
        }
        for(unsigned int k = 0; k <= 4; k += 2)
        {
            LabelLUT c(l);
            c.initIdentity(k);
            rec(depth + 1, "init", k, 0, c);
            tree(c, depth + 1, maxDepth, extra);
        }
    }
}

int main(int argc, char **argv)
{
    out = fopen(argv[1], "w");
    unsigned int maxLabels = atoi(argv[2]);
    int depth = atoi(argv[3]);
    srand(atoi(argv[4]));
    int walks = atoi(argv[5]), len = atoi(argv[6]);
    for(unsigned int n = 1; n <= maxLabels; ++n)
    {
        LabelLUT l(n);
        rec(0, "new", n, 0, l);
        tree(l, 0, n, false);          // all merge sequences of n labels
    }
    if(maxLabels)
    {
    LabelLUT e;
    rec(0, "new", 0, 0, e);
    tree(e, 0, depth, true);           // with appends and re-initialisations
    LabelLUT three(3);
    rec(0, "new", 3, 0, three);
    tree(three, 0, depth, true);
    }
    for(int w = 0; w < walks; ++w)
    {
        bool large = w % 50 == 7;       // many labels, long lists
        unsigned int n = large ? (w % 100 == 7 ? 60 : 270) : 2 + rand() % (w % 10 == 9 ? 40 : 14);
        LabelLUT l(n);
        rec(0, "new", n, 0, l);
        for(int i = 0; i < (large ? 50 : len); ++i)
        {
            int c = rand() % 20;
            if(large && c <= 3 && i % 16) c = 10;
            if(c == 0) { unsigned int k = rand() % 16; l.initIdentity(k); rec(0, "init", k, 0, l); continue; }
            if(c <= 3) { l.appendOne(); rec(0, "append", 0, 0, l); continue; }
            std::vector<unsigned int> r;
            for(unsigned int j = 0; j < l.size(); ++j) if(l[j] == j) r.push_back(j);
            if(r.size() < 2) continue;
            unsigned int a = r[rand() % r.size()], b = r[rand() % r.size()];
            if(large && i % 8 < 5) b = r.back();
            if(a == b) continue;
            l.relabel(a, b);
            rec(0, "relabel", a, b, l);
        }
    }
    fclose(out);
    fprintf(stderr, "RECORDS %ld\nDONE\n", records);
    return 0;
}
