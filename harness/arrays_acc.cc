#define PART 1
#include "arrays_acc_parts.h"
