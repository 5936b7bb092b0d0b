#pragma once
#include "emp-ot/emp-ot.h"
