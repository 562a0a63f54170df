//@unit {"lib":["dndsstub.cpp"]}
//@run {"prop":"P17","entry":"h_zero","bounds":"every two-slope and multiway limiter with one or more slopes exactly 0, the others of any sign with magnitude in [2^-10,8]; weight in {0.25,1,10}","reach":["zero"]}
#include "vhnum.h"
#include <vector>
#include "CFV/Limiters.hpp"
namespace DNDS::CFV {
using AX = Eigen::ArrayXXd;
VH_ENTRY h_zero()
{
    int lim = vh_concretize(vh_int("lim", 0, 3)), z = vh_concretize(vh_int("z", 0, 2));
    static const double ns[3] = {0.25, 1, 10};
    double n = ns[vh_concretize(vh_int("n", 0, 2))];
    double m = vh_real("m", 0.0009765625, 8), v = vh_concretize(vh_int("s", 0, 1)) ? m : -m;
    AX u1(1, 1), u2(1, 1), o(1, 1);
    u1(0, 0) = z == 0 || z == 2 ? 0 : v, u2(0, 0) = z == 1 || z == 2 ? 0 : v;
    if (lim == 0) FMINMOD_Biway(u1, u2, o, n);
    if (lim == 1) FVanLeer_Biway(u1, u2, o, n);
    if (lim == 2) FWBAP_L2_Biway(u1, u2, o, n);
    if (lim == 3) FWBAP_L2_Cut_Biway(u1, u2, o, n);
    vh_close(o(0, 0), 0, 1e-30, "a limiter is 0 when a slope is 0");
    int N = vh_concretize(vh_int("N", 1, 3)), zi = vh_concretize(vh_int("zi", 0, N - 1));
    std::vector<AX> u(N, AX(1, 1));
    for (int i = 0; i < N; i++) u[i](0, 0) = i == zi ? 0 : i % 2 ? v : 1.5;
    FWBAP_L2_Multiway(u, N, o, n);
    vh_close(o(0, 0), 0, 1e-30, "multiway WBAP is 0 when a slope is 0");
    vh_reach("zero");
}
}
