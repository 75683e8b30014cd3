#include "../kernel.h"
