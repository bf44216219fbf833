// Stand-in for MLIR's C API: the part torch-mlir's JIT IR importer uses (implemented in capi.cpp).
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#define MLIR_CAPI_EXPORTED
#define MLIR_DECLARE_CAPI_DIALECT_REGISTRATION(Name, Namespace)
#define MC_HANDLE(Name) struct Name { const void *ptr; };
MC_HANDLE(MlirContext) MC_HANDLE(MlirLocation) MC_HANDLE(MlirType) MC_HANDLE(MlirAttribute) MC_HANDLE(MlirIdentifier)
MC_HANDLE(MlirBlock) MC_HANDLE(MlirRegion) MC_HANDLE(MlirOperation) MC_HANDLE(MlirValue) MC_HANDLE(MlirModule)
MC_HANDLE(MlirDiagnostic) MC_HANDLE(MlirTypeID)
struct MlirNamedAttribute { MlirIdentifier name; MlirAttribute attribute; };
struct MlirStringRef { const char *data; size_t length; };
struct MlirLogicalResult { int8_t value; };
struct MlirOperationState {
  MlirStringRef name;
  MlirLocation location;
  intptr_t nResults; MlirType *results;
  intptr_t nOperands; MlirValue *operands;
  intptr_t nRegions; MlirRegion *regions;
  intptr_t nSuccessors; MlirBlock *successors;
  intptr_t nAttributes; MlirNamedAttribute *attributes;
  bool enableResultTypeInference;
};
typedef void (*MlirStringCallback)(MlirStringRef, void *);
typedef uint64_t MlirDiagnosticHandlerID;
typedef MlirLogicalResult (*MlirDiagnosticHandler)(MlirDiagnostic, void *userData);
enum MlirDiagnosticSeverity { MlirDiagnosticError, MlirDiagnosticWarning, MlirDiagnosticNote, MlirDiagnosticRemark };

inline bool mlirContextIsNull(MlirContext x) { return !x.ptr; }
inline bool mlirTypeIsNull(MlirType x) { return !x.ptr; }
inline bool mlirAttributeIsNull(MlirAttribute x) { return !x.ptr; }
inline bool mlirValueIsNull(MlirValue x) { return !x.ptr; }
inline bool mlirOperationIsNull(MlirOperation x) { return !x.ptr; }
inline bool mlirBlockIsNull(MlirBlock x) { return !x.ptr; }
inline bool mlirLocationIsNull(MlirLocation x) { return !x.ptr; }
inline bool mlirRegionIsNull(MlirRegion x) { return !x.ptr; }
inline bool mlirModuleIsNull(MlirModule x) { return !x.ptr; }
inline MlirStringRef mlirStringRefCreate(const char *s, size_t n) { return {s, n}; }
MlirStringRef mlirStringRefCreateFromCString(const char *s);
inline MlirLogicalResult mlirLogicalResultSuccess() { return {1}; }
inline MlirLogicalResult mlirLogicalResultFailure() { return {0}; }
inline bool mlirLogicalResultIsSuccess(MlirLogicalResult r) { return r.value != 0; }
inline bool mlirLogicalResultIsFailure(MlirLogicalResult r) { return r.value == 0; }

bool mlirContextIsRegisteredOperation(MlirContext, MlirStringRef);
MlirContext mlirTypeGetContext(MlirType);
MlirContext mlirLocationGetContext(MlirLocation);
MlirContext mlirAttributeGetContext(MlirAttribute);
MlirContext mlirModuleGetContext(MlirModule);
MlirContext mlirOperationGetContext(MlirOperation);
MlirIdentifier mlirIdentifierGet(MlirContext, MlirStringRef);
MlirNamedAttribute mlirNamedAttributeGet(MlirIdentifier, MlirAttribute);
MlirLocation mlirLocationUnknownGet(MlirContext);
MlirLocation mlirLocationFileLineColGet(MlirContext, MlirStringRef, unsigned, unsigned);
MlirLocation mlirLocationCallSiteGet(MlirLocation callee, MlirLocation caller);
MlirLocation mlirLocationNameGet(MlirContext, MlirStringRef, MlirLocation child);
MlirModule mlirModuleCreateEmpty(MlirLocation);
MlirBlock mlirModuleGetBody(MlirModule);
MlirOperation mlirModuleGetOperation(MlirModule);
MlirOperationState mlirOperationStateGet(MlirStringRef, MlirLocation);
void mlirOperationStateAddResults(MlirOperationState *, intptr_t, MlirType const *);
void mlirOperationStateAddOperands(MlirOperationState *, intptr_t, MlirValue const *);
void mlirOperationStateAddOwnedRegions(MlirOperationState *, intptr_t, MlirRegion const *);
void mlirOperationStateAddAttributes(MlirOperationState *, intptr_t, MlirNamedAttribute const *);
MlirOperation mlirOperationCreate(MlirOperationState *);
void mlirOperationDestroy(MlirOperation);
MlirRegion mlirOperationGetRegion(MlirOperation, intptr_t);
intptr_t mlirOperationGetNumRegions(MlirOperation);
intptr_t mlirOperationGetNumResults(MlirOperation);
intptr_t mlirOperationGetNumOperands(MlirOperation);
MlirValue mlirOperationGetResult(MlirOperation, intptr_t);
MlirValue mlirOperationGetOperand(MlirOperation, intptr_t);
MlirBlock mlirOperationGetBlock(MlirOperation);
void mlirOperationSetAttributeByName(MlirOperation, MlirStringRef, MlirAttribute);
MlirAttribute mlirOperationGetAttributeByName(MlirOperation, MlirStringRef);
MlirRegion mlirRegionCreate(void);
void mlirRegionAppendOwnedBlock(MlirRegion, MlirBlock);
MlirBlock mlirRegionGetFirstBlock(MlirRegion);
MlirBlock mlirBlockCreate(intptr_t, MlirType const *, MlirLocation const *);
MlirOperation mlirBlockGetFirstOperation(MlirBlock);
MlirOperation mlirBlockGetTerminator(MlirBlock);
void mlirBlockAppendOwnedOperation(MlirBlock, MlirOperation);
void mlirBlockInsertOwnedOperationBefore(MlirBlock, MlirOperation reference, MlirOperation);
intptr_t mlirBlockGetNumArguments(MlirBlock);
MlirValue mlirBlockGetArgument(MlirBlock, intptr_t);
MlirType mlirValueGetType(MlirValue);
MlirOperation mlirOpResultGetOwner(MlirValue);
bool mlirValueIsAOpResult(MlirValue);
bool mlirValueEqual(MlirValue, MlirValue);
bool mlirTypeEqual(MlirType, MlirType);
bool mlirAttributeEqual(MlirAttribute, MlirAttribute);
void mlirTypePrint(MlirType, MlirStringCallback, void *);
void mlirAttributePrint(MlirAttribute, MlirStringCallback, void *);
void mlirOperationPrint(MlirOperation, MlirStringCallback, void *);

void mlirEmitError(MlirLocation, const char *);
MlirDiagnosticHandlerID mlirContextAttachDiagnosticHandler(MlirContext, MlirDiagnosticHandler, void *, void (*)(void *));
void mlirContextDetachDiagnosticHandler(MlirContext, MlirDiagnosticHandlerID);
void mlirDiagnosticPrint(MlirDiagnostic, MlirStringCallback, void *);
MlirDiagnosticSeverity mlirDiagnosticGetSeverity(MlirDiagnostic);
intptr_t mlirDiagnosticGetNumNotes(MlirDiagnostic);
MlirDiagnostic mlirDiagnosticGetNote(MlirDiagnostic, intptr_t);

MlirType mlirIntegerTypeGet(MlirContext, unsigned);
MlirType mlirIntegerTypeSignedGet(MlirContext, unsigned);
MlirType mlirIntegerTypeUnsignedGet(MlirContext, unsigned);
MlirType mlirBF16TypeGet(MlirContext);
MlirType mlirF16TypeGet(MlirContext);
MlirType mlirF32TypeGet(MlirContext);
MlirType mlirF64TypeGet(MlirContext);
MlirType mlirFloat8E5M2TypeGet(MlirContext);
MlirType mlirFloat8E4M3FNTypeGet(MlirContext);
MlirType mlirFloat8E5M2FNUZTypeGet(MlirContext);
MlirType mlirFloat8E4M3FNUZTypeGet(MlirContext);
MlirType mlirComplexTypeGet(MlirType);
MlirType mlirFunctionTypeGet(MlirContext, intptr_t, MlirType const *, intptr_t, MlirType const *);
intptr_t mlirFunctionTypeGetNumInputs(MlirType);
intptr_t mlirFunctionTypeGetNumResults(MlirType);
MlirType mlirFunctionTypeGetInput(MlirType, intptr_t);
MlirType mlirFunctionTypeGetResult(MlirType, intptr_t);
MlirType mlirRankedTensorTypeGetChecked(MlirLocation, intptr_t, const int64_t *, MlirType, MlirAttribute);

MlirAttribute mlirAttributeGetNull(void);
MlirAttribute mlirStringAttrGet(MlirContext, MlirStringRef);
MlirAttribute mlirBoolAttrGet(MlirContext, int);
MlirAttribute mlirIntegerAttrGet(MlirType, int64_t);
MlirAttribute mlirFloatAttrDoubleGet(MlirContext, MlirType, double);
MlirAttribute mlirUnitAttrGet(MlirContext);
MlirAttribute mlirTypeAttrGet(MlirType);
MlirAttribute mlirFlatSymbolRefAttrGet(MlirContext, MlirStringRef);
MlirAttribute mlirArrayAttrGet(MlirContext, intptr_t, MlirAttribute const *);
MlirAttribute mlirDictionaryAttrGet(MlirContext, intptr_t, MlirNamedAttribute const *);
#define MC_DENSE(N, T) MlirAttribute mlirDenseElementsAttr##N##Get(MlirType, intptr_t, const T *);
#define MC_ALL_DENSE(X) X(Bool, int) X(UInt8, uint8_t) X(Int8, int8_t) X(UInt16, uint16_t) X(Int16, int16_t) \
  X(UInt32, uint32_t) X(Int32, int32_t) X(UInt64, uint64_t) X(Int64, int64_t) X(Float, float) X(Double, double) \
  X(BFloat16, uint16_t) X(Float16, uint16_t)
MC_ALL_DENSE(MC_DENSE)
MlirAttribute mlirDenseElementsAttrRawBufferGet(MlirType, size_t, const void *);
#undef MC_DENSE
