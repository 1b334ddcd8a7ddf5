#include "glue.h"
