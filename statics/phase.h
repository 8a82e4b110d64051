// Records what the library answers in one phase of the program's life and compares it with the other phases.
#pragma once
#include <cstdint>
void run_phase(const char* name);      // executes the workload; the first run is the reference of all later ones
void hold(const char* name);           // creates objects in this phase ...
void check_held(const char* name);     // ... which must still hold their values in this one
uint64_t phases_run();
