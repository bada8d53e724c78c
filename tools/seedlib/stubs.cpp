// The output functions need a library that is not available offline; nothing is saved here.
#include "simulation/simulation.hpp"
void Simulation::saveInfo() {}
void Simulation::saveTiming() {}
void Simulation::saveAvgData() {}
void Simulation::saveParticleData(std::string) {}
void Simulation::saveGridData(std::string) {}
void Simulation::computeAvgData(TM&, TM&, T&) {}
