// Harness API, identical for the symbolic build and the native replay build.
#pragma once
#include <cstdint>
extern "C" {
	// symbolic inputs (every value of the stated domain)
	uint64_t sym_range(char const * name, uint64_t lo, uint64_t hi);          // lo <= x <= hi
	uint64_t sym_bits(char const * name, uint32_t width);                     // any value of that width
	uint64_t sym_oneof(char const * name, uint64_t const * values, uint32_t n); // x in values
	uint64_t sym_fork(uint64_t v);                                            // the same value, one path per value
	void sym_assume(bool c);                                                  // precondition
	void sym_check(bool c, char const * msg);                                 // property
	void sym_check_kf(bool c, bool known, char const * id, char const * msg); // property with a recorded finding's region
	void sym_obs(uint64_t v);                                                 // observed value, compared with the native replay
	void sym_reach(char const * what);                                        // vacuity witness
	uint32_t sym_scenario();
	uint32_t sym_tier();                                                      // 0 quick, 1 thorough
	void sym_main();                                                          // defined by the harness
}
