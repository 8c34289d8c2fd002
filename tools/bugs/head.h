#include <Vc/Vc>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
using namespace Vc;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { std::printf("line %d: %s\n", __LINE__, #c); bad = 1; } } while (0)
