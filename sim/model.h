// Reference model: what an operation defines for its operands, in exact arithmetic,
// written independently of the code under test. "No opinion" where the operation is
// outside the domain in which its result is determined exactly (or to a safe tolerance).
#pragma once
#include "sim.h"
// Returns "" if the observed outcome is right (or the model has no opinion), else what is wrong.
// only_errors: judge only whether an error had to be reported.
std::string model_check(const OpInfo&, const CallDesc&, const Expected& got, bool only_errors, bool* had_opinion);
