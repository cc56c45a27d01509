#include "slicing.h"
void registerA() {
  reg<4,0>();
  regAll<4,0,1>();
  regAll<4,0,2>();
  regAll<4,0,3>();
}
