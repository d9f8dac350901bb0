#pragma once
#include <map>
#include <string>
#include "mfast.h"
std::map<std::string, const mfast::templates_description *> &described();
struct describe { describe(const char *n, const mfast::templates_description *d) { described()[n] = d; } };
