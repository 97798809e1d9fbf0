// One scenario generator and one judge per property.
#pragma once
#include "rng.h"
#include "value.h"
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {

struct Failed { std::string cls, msg; };           ///< the property does not hold in this run
struct Invalid { std::string why; };               ///< the scenario is outside the property's domain

std::vector<std::string> properties();
Value gen(std::string const& prop, Rng& r);
/// run a scenario, judging it; throws Failed or Invalid
void exec(std::string const& prop, Value const& v);
/// cut off uninteresting parts of a scenario given by a user (for display)
void note_nontrivial();
void note_known(std::string const& what);

// shared between property files
Value gen_src(Rng& r, std::string const& fmt, bool plain_only = false);
Value gen_read_op(Rng& r, std::string const& fmt);
std::string any_format(Rng& r);

}
