#pragma once
#include "mlir-c/IR.h"
