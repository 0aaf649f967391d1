// URDF file reading is outside the properties: the harness builds its kinematic trees directly
#pragma once
#include <kdl/tree.hpp>
#include <string>
namespace kdl_parser { bool treeFromFile(const std::string &, KDL::Tree &) { return false; } }
