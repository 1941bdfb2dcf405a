#pragma once
#include <immer/flex_vector.hpp>
