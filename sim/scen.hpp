#pragma once
#include "world.hpp"

struct Scenario {
  const char* prop;
  void (*fn)(void*);
  uint64_t step_cap;
};
const Scenario* find_scenario(const char* prop);

// Common pieces of the scenarios.
void draw_schedule();              // scheduling policy of this run
void draw_memory();                // junk, quarantine
void draw_cores();
size_t draw_threads();
void install_terminate();
// Runs fn; returns "" or the description of the exception it raised.
template <class F>
std::string catching(F&& fn) {
  try {
    fn();
    return "";
  } catch (const std::exception& e) {
    return std::string("exception: ") + e.what();
  } catch (...) {
    return "exception of unknown type";
  }
}
inline void ran_check(const char* where, int live = 1) {
  if (sim_live_threads() != live)
    fail("thread-left-running", "%s: %d threads still running", where, sim_live_threads() - live);
}

void c01(void*);
void c02(void*);
void c03(void*);
void c04(void*);
void c05(void*);
void c06(void*);
void c07(void*);
void c08(void*);
void c09(void*);
void c10(void*);
void c11(void*);
void c11_shared();   // memory refused to one of several callers
void c06_known(void*);
