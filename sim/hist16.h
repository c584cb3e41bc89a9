// Uninstrumented log shared by the instrumented pool scenario (the simulation runs one thread at a time).
#pragma once
#include "rt.h"
namespace h16 {
using sim::u64;
struct Ev { int kind; u64 a, b; u64 t0, t1; sim::u32 tid; };
void reset();
u64 now();                                   // logical time
void add(int kind, u64 a, u64 b, u64 t0, u64 t1);
size_t size();
Ev get(size_t i);
u64 bump(int counter, sim::u64 idx, long d); // returns the new value
u64 val(int counter, u64 idx);
} // namespace h16
