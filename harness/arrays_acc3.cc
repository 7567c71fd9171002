#define PART 3
#include "arrays_acc_parts.h"
