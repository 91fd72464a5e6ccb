#pragma once
#include <yaml_utils/yaml_cpp_fwd.hpp>
