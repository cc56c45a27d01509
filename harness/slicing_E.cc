#include "slicing.h"
void registerE() {
  reg<5,0>(); reg<5,4>(); reg<5,2>(); reg<5,1,3>(); reg<5,3,1>(); reg<5,4,0>(); reg<5,0,2,4>(); reg<5,4,2,0>(); reg<5,2,4,1>();
  reg<5,3,0,4,1>(); reg<5,1,2,3,4>(); reg<5,4,3,2,1,0>(); reg<5,2,0,4,1,3>();
  reg<6,5>(); reg<6,0,3>(); reg<6,5,2>(); reg<6,1,4,0>(); reg<6,3,4,5>(); reg<6,0,1,2>(); reg<6,5,3,1,0>(); reg<6,2,5,0,4,1>();
}
