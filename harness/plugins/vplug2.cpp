#include "../plug_iface.h"
namespace { // internal linkage, so that the library can be unloaded
VPLUG(P2A, IfaceA, "plug2.a", "vplug2::a");
VPLUG(P2B, IfaceB, "plug2.b", "vplug2::b");
VPLUG(P2S, IfaceA, "plug2.shared", "vplug::shared");
}
