#pragma once
#include "kitty_shim.hpp"
