#pragma once
#include "matscs/sector.cpp"
#include "matscs/matscs.cpp"
