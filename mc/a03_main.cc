#include "a03.h"
#include "mc.h"
static std::vector<RunFn> &fns() { static std::vector<RunFn> v; return v; }
Reg::Reg(RunFn f) { fns().push_back(f); }
int main(int argc, char **argv) { mc::init(argc, argv); for (auto f : fns()) f(); mc::finish(); }
