#include "../adlib.hpp"
std::vector<AdLib> &adLibs() { static std::vector<AdLib> l; return l; }
