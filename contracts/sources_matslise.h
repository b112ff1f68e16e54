// every translation unit of the scalar problem, so that whatever a contract reaches is the real code
#pragma once
#include "matslise/sector.cpp"
#include "matslise/abstract_matslise.cpp"
#include "matslise/matslise.cpp"
#include "matslise/halfrange.cpp"
#include "matslise/periodic.cpp"
#include "util/sectorbuilder.cpp"
