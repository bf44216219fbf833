#pragma once
#include <Python.h>
#include "mlir-c/IR.h"
#define MAKE_MLIR_PYTHON_QUALNAME(local) "torch_mlir." local
#define MLIR_PYTHON_CAPI_PTR_ATTR "_CAPIPtr"
#define MLIR_PYTHON_CAPI_FACTORY_ATTR "_CAPICreate"
MlirContext mlirPythonCapsuleToContext(PyObject *);
PyObject *mlirPythonModuleToCapsule(MlirModule);
