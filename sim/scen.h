#pragma once
#include "core.h"
typedef void (*ScenFn)();
struct Scen { const char* name; ScenFn fn; Scen(const char* n, ScenFn f); };
#define SCENARIO(n) static void scen_##n(); static Scen reg_##n(#n, scen_##n); static void scen_##n()
extern std::map<std::string, std::string> OPT; // options of the check (part of the replay file)
inline long optl(const char* k, long d) { auto i = OPT.find(k); return i == OPT.end() ? d : atol(i->second.c_str()); }
void nontrivial();           // this run exercised what the property is about
extern std::string g_sample; // description of this run for the evidence file
