// Preloaded in front of libstdc++: std::random_device returns what the explorer chose
// (and, if asked to, continues from there instead of repeating it).
#include <random>
static unsigned g_value = 1;
static int g_continue = 0;
extern "C" void mc_set_random(unsigned v) { g_value = v; }
extern "C" void mc_continue_random(int on) { g_continue = on; }
unsigned std::random_device::_M_getval()
{
  unsigned v = g_value;
  if (g_continue)
    g_value = g_value * 1664525u + 1013904223u;
  return v;
}
