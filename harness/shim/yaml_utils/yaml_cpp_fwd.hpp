#pragma once
#include <yaml-cpp/yaml.h>
namespace YAML {
  template <typename T> inline T ReadParameter(const Node& n, const std::string& name) { const Node c = n[name]; if (!c) throw std::runtime_error("cannot read parameter " + name); return c.as<T>(); }
  template <typename T> inline void ReadParameter(const Node& n, const std::string& name, T& out, bool optional = false) { const Node c = n[name]; if (!c) { if (optional) return; throw std::runtime_error("cannot read parameter " + name); } out = c.as<T>(); }
}
