#pragma once
#include "types.hpp"
#include "reader.hpp"
#include "writer.hpp"
