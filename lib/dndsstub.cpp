// Replacements for logging/trace helpers of src/DNDS/Defines.cpp (no property depends on them).
#include <iostream>
#include <string>
#include <cstdio>
__attribute__((weak)) int vh_refuse_expected = 0;
std::string __DNDS_getTraceString() { if (!vh_refuse_expected) fprintf(stderr, "REPLAY-VIOLATION DNDS assertion failed\n"); return ""; }
extern "C" void DNDS_signal_handler(int) {}
namespace DNDS
{
    std::ostream *logStream = nullptr;
    bool useCout = true;
#ifdef VERIF_ENGINE // a stream whose output has no meaning, with the state that inlined members such as flags() touch
    static long logVT[6] = {8, 0, 0, 0, 0, 0};
    static struct { void *vp; long a[64]; } logObj = {&logVT[3], {}};
    std::ostream &log() { return *reinterpret_cast<std::ostream *>(&logObj); }
#else
    std::ostream &log() { return std::cout; }
#endif
    bool logIsTTY() { return false; }
    bool ostreamIsTTY(std::ostream &) { return false; }
    void setLogStream(std::ostream *) {}
    int get_terminal_width() { return 80; }
    void print_progress(std::ostream &, double) {}
    std::string getStringForceWString(const std::wstring &) { return ""; }
    int get_env_OMP_NUM_THREADS() { return 1; }
    int get_env_DNDS_DIST_OMP_NUM_THREADS() { return 1; }
}
