#include "hist16.h"
#include <map>
#include <vector>
namespace h16 {
static std::vector<Ev> ev;
static std::map<std::pair<int, u64>, long> c;
static u64 t;
void reset() { ev.clear(), c.clear(), t = 0; }
u64 now() { return ++t; }
void add(int k, u64 a, u64 b, u64 t0, u64 t1)
{
    sim::Host h;
    ev.push_back({k, a, b, t0, t1, sim::self()});
}
size_t size() { return ev.size(); }
Ev get(size_t i) { return ev[i]; }
u64 bump(int k, u64 i, long d)
{
    sim::Host h;
    return (u64)(c[{k, i}] += d);
}
u64 val(int k, u64 i) { return (u64)c[{k, i}]; }
} // namespace h16
