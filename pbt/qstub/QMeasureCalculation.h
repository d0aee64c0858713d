// Stand-in for the Q-Measure library (an empty git submodule here): records its arguments in
// the file named by QSTUB_OUT and returns an order dependent checksum of the voxels.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>

class QMeasureCalculation {
public:
    std::map<std::string, double> computeOrigQ(float const *data, int const *dims,
                                               double const *range, int bins, int peaks,
                                               bool analyze)
    {
        size_t n = (size_t) dims[0] * dims[1] * dims[2];
        double q = 0;
        for (size_t i = 0; i < n; i++) q += data[i] * (double) (1 + i % 97);
        q = q / (double) n + 1000.0 * bins + peaks;
        if (char const *out = std::getenv("QSTUB_OUT")) {
            FILE *f = std::fopen(out, "ab");
            double head[8] = {(double) dims[0], (double) dims[1], (double) dims[2], range[0],
                              range[1], (double) bins, (double) peaks, q};
            std::fwrite(head, sizeof(double), 8, f);
            std::fwrite(data, sizeof(float), n, f);
            std::fclose(f);
        }
        std::map<std::string, double> r;
        r["Q (orig, equ 0)"] = -1;
        r["Q (orig, equ 1)"] = q;
        r["Q (orig, equ 2)"] = -2;
        (void) analyze;
        return r;
    }
};
