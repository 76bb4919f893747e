#include "../plug_iface.h"
namespace { // internal linkage, so that the library can be unloaded
VPLUG(P3A, IfaceA, "plug3.a", "vplug3::a");
VPLUG(P3B, IfaceB, "plug3.b", "vplug3::b");
VPLUG(P3S, IfaceA, "plug3.shared", "vplug::shared");
}
