#include "slicing.h"
void registerB() {
  reg<4,1>();
  regAll<4,1,0>();
  regAll<4,1,2>();
  regAll<4,1,3>();
}
