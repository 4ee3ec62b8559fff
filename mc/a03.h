#pragma once
typedef void (*RunFn)();
struct Reg { Reg(RunFn f); };
