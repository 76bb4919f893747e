// Interfaces shared by the P20 harness and its plugins
#pragma once
#include <lm/component.h>
struct IfaceA : lm::Component { virtual std::string who() const = 0; };
struct IfaceB : lm::Component { virtual std::string who() const = 0; };
template <typename T> struct IfaceT : lm::Component { virtual std::string who() const = 0; };
#define VPLUG(C, I, ID, KEY) struct C final : I { std::string prop; void construct(const lm::Json& p) override { prop = p.is_object() && p.contains("tag") ? p["tag"].get<std::string>() : ""; } std::string who() const override { return std::string(ID) + "/" + prop; } }; LM_COMP_REG_IMPL(C, KEY)
