// C08: JS::Map behaves as a map under every history of operations.
#include "mapmodel.hpp"
using namespace sim;
const char *scenario_id() { return "C08"; }
void warmup() { typed_warmup(); }

void scenario(Src &c)
{
  MapSim s(c);
  s.start();
  uint32_t ops = c.weighted({3, 2, 1}) == 0 ? c.range(1, 5) : c.range(3, 20);
  for (uint32_t i = 0; i < ops; i++)
    s.step();
  s.check_all("at the end");
}
#include "main.hpp"
