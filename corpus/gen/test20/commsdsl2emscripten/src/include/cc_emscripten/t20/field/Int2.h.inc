#include "comms/units.h"
