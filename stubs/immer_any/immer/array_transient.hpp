#pragma once
#include <immer/array.hpp>
