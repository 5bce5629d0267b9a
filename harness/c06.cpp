// C06: a sub group always denotes the particles that currently satisfy its
// selector; static sub groups keep their selection until the structure changes.
#include "sg.hpp"
using namespace np;
static void prop(Gen &g) {
  SgWorld w(g, false);
  w.run();
}
PBT_MAIN("C06", prop)
