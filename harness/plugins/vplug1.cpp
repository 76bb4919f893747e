#include "../plug_iface.h"
namespace { // internal linkage, so that the library can be unloaded
VPLUG(P1A, IfaceA, "plug1.a", "vplug1::a");
VPLUG(P1B, IfaceB, "plug1.b", "vplug1::b");
VPLUG(P1S, IfaceA, "plug1.shared", "vplug::shared");
}
