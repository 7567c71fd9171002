#define PART 5
#include "arrays_acc_parts.h"
