// Feeds batches of inputs to the collector under test; every string and vector lives in its own exact allocation.
// Input: count, then per item: nT nP nR, types, possible types (length-prefixed), ratios as %la.
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include "kmc_functions.h"

static std::string word(FILE *f)
{
    int n = 0;
    if (fscanf(f, "%d:", &n) != 1) { exit(77); }
    std::string s(n, ' ');
    for (int i = 0; i < n; ++i) { s[i] = static_cast<char>(fgetc(f)); }
    s.shrink_to_fit();
    return s;
}

int main(int argc, char **argv)
{
    FILE *f = fopen(argv[1], "rb");
    if (argc < 2 || !f) { return 77; }
    int count = 0;
    if (fscanf(f, "%d", &count) != 1) { return 77; }
    for (int k = 0; k < count; ++k)
    {
        int nt, np, nr;
        if (fscanf(f, "%d %d %d ", &nt, &np, &nr) != 3) { return 77; }
        std::vector<std::string> types, possible;
        for (int i = 0; i < nt; ++i) { types.push_back(word(f)); }
        for (int i = 0; i < np; ++i) { possible.push_back(word(f)); }
        std::vector<double> ratios;
        for (int i = 0; i < nr; ++i)
        {
            double x;
            if (fscanf(f, "%la", &x) != 1) { return 77; }
            ratios.push_back(x);
        }
        types.shrink_to_fit();
        possible.shrink_to_fit();
        ratios.shrink_to_fit();
        const std::vector<std::string> t0(types), p0(possible);
        const std::vector<double> r0(ratios);
        std::vector<double> a = collect_coverages(types, possible, ratios);
        std::vector<double> b = collect_coverages(types, possible, ratios);
        printf("%d %d", static_cast<int>(a.size()), (types == t0 && possible == p0 && ratios == r0) ? 1 : 0);
        for (double x : a) { printf(" %.17g", x); }
        for (double x : b) { printf(" %.17g", x); }
        printf("\n");
        fflush(stdout);
    }
    fclose(f);
    return 0;
}
