#pragma once
#include "vp_tbb.h"
