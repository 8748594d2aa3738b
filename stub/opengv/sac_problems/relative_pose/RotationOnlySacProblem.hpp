#include <opengv/standin.h>
