#include "../ad/reg.cpp"
#include "../loadlib.hpp"
std::vector<LoadLib> &loadLibs() { static std::vector<LoadLib> l; return l; }
