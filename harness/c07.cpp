// C07: truncate, discard, cells, copy, disjoint union and partition are the set
// operations they are named after, at every point of a history.
#include "sg.hpp"
using namespace np;
static void prop(Gen &g) {
  SgWorld w(g, true);
  w.run();
}
PBT_MAIN("C07", prop)
