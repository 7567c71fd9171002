#define PART 2
#include "arrays_acc_parts.h"
