#include "slicing.h"
void registerC() {
  reg<4,2>();
  regAll<4,2,0>();
  regAll<4,2,1>();
  regAll<4,2,3>();
}
