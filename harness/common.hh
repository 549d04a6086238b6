#pragma once
#include "../symx/symx.h"
