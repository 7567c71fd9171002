#define PART 6
#include "arrays_acc_parts.h"
