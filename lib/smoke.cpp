// setup: the headers and the harness parse with the installed tools.
#include "rj.hpp"
#include "ref.hpp"
#include "families.hpp"
int main() { return 0; }
