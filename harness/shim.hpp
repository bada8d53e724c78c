// Shared by the shim's translation units.
#pragma once
#include "tools.hpp"
#include "simulation/simulation.hpp"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <map>
#include <mutex>
#include <thread>

static const int D = DIMENSION;
struct Monitor;
struct Handle { Simulation sim; Monitor* mon = nullptr; int timed_out = 0; };
std::unique_ptr<ObjectGeneral> shim_mkobject(int kind, BC bc, double fr, const double* par);
