#define PART 4
#include "arrays_acc_parts.h"
