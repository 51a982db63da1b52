#pragma once
#include "engine.hpp"
struct PropReg { PropReg(const char *id, void (*f)()); };
#define PROP(ID) static void prop_##ID(); static PropReg preg_##ID(#ID, prop_##ID); static void prop_##ID()
