#pragma once
#include "spec.hpp"
#include <functional>
// What a build of the simulator provides.
void engine_init();
const char* engine_build();
std::string prog_name(int i); int prog_find(const std::string& n);
void engine_list();
bool engine_relevant(const std::string& profile, const std::string& cls);      // does this kind of violation contradict the property?
bool engine_attributed(const Spec& s, const Result& r, std::function<Result(const Spec&)> run);
