// Scenario functions (initial condition, source, boundary data) and output precision.
#include "core.h"
#include <cmath>
#include <dlfcn.h>
#include <ios>
#include <sstream>
using namespace sim;
#define API extern "C" __attribute__((visibility("default")))
struct Mode { double a, kx, ky, w, ph; };
static std::vector<Mode> modes[3][3];
struct Poison { int c; double x, y, r, t; };  // the source is not a number near (x, y) from time t on
static std::vector<Poison> poison;
namespace sim {
void load_functions() {
    for (auto& l : cfg.all("fun")) {
        std::istringstream s(l);
        int w, c; Mode m;
        if (s >> w >> c >> m.a >> m.kx >> m.ky >> m.w >> m.ph && w >= 0 && w < 3 && c >= 0 && c < 3) modes[w][c].push_back(m);
    }
    for (auto& l : cfg.all("poison")) {
        std::istringstream s(l);
        Poison p;
        if (s >> p.c >> p.x >> p.y >> p.r >> p.t) poison.push_back(p);
    }
}
}
API void sim_fun(int which, double t, double x, double y, double* q) {
    for (int c = 0; c < 3; ++c) {
        double v = 0;
        for (auto& m : modes[which][c]) v += m.a * std::cos(m.kx * x + m.ky * y - m.w * t + m.ph);
        q[c] = v;
    }
    if (which == 1)
        for (auto& p : poison)
            if (t >= p.t && std::fabs(x - p.x) <= p.r && std::fabs(y - p.y) <= p.r) q[p.c] = std::nan("");
}
// Every stream of the code under test starts with 17 significant digits instead of 6, so that
// text output carries the whole state. (std::ios_base::_M_init, called for each new stream.)
API void _ZNSt8ios_base7_M_initEv(std::ios_base* b) {
    static auto f = (void (*)(std::ios_base*))dlsym(RTLD_NEXT, "_ZNSt8ios_base7_M_initEv");
    f(b);
    static int p = -1;
    if (p < 0 && cur) p = (int)cfg.num("precise", 0);
    if (p > 0 && cur) b->precision(17);
}
