#pragma once
#include "absl/flags/flag.h"
