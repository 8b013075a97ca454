#include <comms/units.h>