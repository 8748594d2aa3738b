#include <kindr/minimal/rotation-quaternion.h>
