#pragma once
#include "point_cloud_transport.hpp"
