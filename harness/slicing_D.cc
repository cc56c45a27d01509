#include "slicing.h"
void registerD() {
  reg<4,3>();
  regAll<4,3,0>();
  regAll<4,3,1>();
  regAll<4,3,2>();
}
