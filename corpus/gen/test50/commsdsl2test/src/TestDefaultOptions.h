#pragma once

#include "ext1/options/DefaultOptions.h"
#include "test50/options/DefaultOptions.h"

using TestDefaultOptions = test50::options::DefaultOptionsT<ext1::options::DefaultOptions>;
