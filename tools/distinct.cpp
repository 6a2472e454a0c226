// Number of distinct 64-bit values in the files named on the command line
#include <stdio.h>
#include <stdint.h>
#include <algorithm>
#include <vector>
int main(int argc, char** argv)
{
    std::vector< uint64_t > v;
    for (int i = 1; i < argc; ++i)
    {
        FILE* f = fopen(argv[i], "rb");
        if (!f) return 1;
        uint64_t b[4096]; size_t n;
        while ((n = fread(b, 8, 4096, f)) > 0) v.insert(v.end(), b, b + n);
        fclose(f);
    }
    std::sort(v.begin(), v.end());
    printf("%zu\n", (size_t)(std::unique(v.begin(), v.end()) - v.begin()));
    return 0;
}
