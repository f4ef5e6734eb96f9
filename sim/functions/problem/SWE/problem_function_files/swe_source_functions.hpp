// Stand-in for the user-editable problem function file: the values come from the simulated scenario.
#ifndef GN_SOURCE_FUNCTIONS_HPP
#define GN_SOURCE_FUNCTIONS_HPP
#include "utilities/ignore.hpp"
extern "C" void sim_fun(int which, double t, double x, double y, double* q);
namespace SWE {
inline StatVector<double, SWE::n_variables> source_q(const double t, const Point<2>& pt) {
    double q[3];
    sim_fun(1, t, pt[0], pt[1], q);
    StatVector<double, SWE::n_variables> r{q[0], q[1], q[2]};
    return r;
}
}
#endif
