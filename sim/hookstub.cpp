// Stands in for hook.cpp where that does not compile.
class Grid; class Time;
extern "C" void TempestSimHook(const Grid &, const Time &, int) {}
