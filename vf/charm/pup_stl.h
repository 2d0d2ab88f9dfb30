#include "pup.h"
