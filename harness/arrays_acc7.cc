#define PART 7
#include "arrays_acc_parts.h"
