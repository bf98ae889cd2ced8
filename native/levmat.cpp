// the two implementations of LevenshteinMatrix driven through their public interface
#include "properties.h"
#include "arraylevenshteinmatrix.h"
#include "compressedlevenshteinmatrix.h"
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
using namespace std;
int main()
{
    char kind[16], kb[64], gb[64]; unsigned long n, nops;
    map<string, string> none; Properties::SetProperties(none);
    while (scanf("%15s %lu %63s %63s %lu", kind, &n, kb, gb, &nops) == 5)
    {
        vector<size_t> dim(n), c(n);
        for (size_t i = 0; i < n; i++) { scanf("%lu", &dim[i]); dim[i]++; }      // the matrix has one less than the depth
        Properties::SetProperty("align.memorycompressionblock", kb); Properties::SetProperty("recording.maxnbofgb", gb);
        size_t nn = n;
        LevenshteinMatrix *m = kind[0] == 'c' ? (LevenshteinMatrix *) new CompressedLevenshteinMatrix(nn, &dim[0]) : (LevenshteinMatrix *) new ArrayLevenshteinMatrix(nn, &dim[0]);
        for (size_t k = 0; k < nops; k++)
        {
            char op[4]; scanf("%3s", op);
            for (size_t i = 0; i < n; i++) scanf("%lu", &c[i]);
            if (op[0] == 's') { int v; scanf("%d", &v); m->SetCostFor(&c[0], v); }
            else if (op[0] == 'g') printf("%d\n", m->GetCostFor(&c[0]));
            else printf("%d\n", (int) m->IsCostCalculatedFor(&c[0]));
        }
        printf("%lu\n", (unsigned long) m->GetNumberOfCalculatedCosts());
        delete m;
    }
    return 0;
}
