#pragma once
#include "core.hpp"
namespace sim {
// Executes a scenario against the code under test and the reference model; ends in violation() if they disagree.
void execute(const Scenario& s);
}
