#pragma once
#include <immer/vector.hpp>
