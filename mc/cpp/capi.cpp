// The C API on top of mc/fakecapi.py: a handle is a Python object which fakecapi keeps alive.
#include "mlir-c/IR.h"
#include "mlir-c/Bindings/Python/Interop.h"
#include "torch-mlir-c/TorchOps.h"
#include "torch-mlir-c/TorchTypes.h"
#include "torch-mlir-c/Registration.h"
#include <cstdlib>
#include <cstring>
#include <map>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <string>
#include <vector>
namespace py = pybind11;

static py::object mod() { return py::module_::import("mc.fakecapi"); }
static py::object obj(const void *p) {
  return p ? py::reinterpret_borrow<py::object>((PyObject *)p) : py::object(py::none());
}
template <typename... A> static py::object call(const char *f, A &&...a) { return mod().attr(f)(std::forward<A>(a)...); }
// the object stays alive until fakecapi.reset()
static const void *keep(py::object o) {
  if (o.is_none()) return nullptr;
  mod().attr("ARENA").attr("append")(o);
  return o.ptr();
}
static py::str str(MlirStringRef s) {
  return py::reinterpret_steal<py::str>(PyUnicode_DecodeUTF8(s.data, s.length, "surrogateescape"));
}
template <typename T> static py::list list(intptr_t n, T const *p) {
  py::list l;
  for (intptr_t i = 0; i < n; i++) l.append(obj(p[i].ptr));
  return l;
}
#define O(x) obj((x).ptr)

MlirStringRef mlirStringRefCreateFromCString(const char *s) { return {s, std::strlen(s)}; }
bool mlirContextIsRegisteredOperation(MlirContext c, MlirStringRef n) { return call("registered", O(c), str(n)).cast<bool>(); }
MlirContext mlirTypeGetContext(MlirType t) { return {keep(call("context_of", O(t)))}; }
MlirContext mlirLocationGetContext(MlirLocation t) { return {keep(call("context_of", O(t)))}; }
MlirContext mlirAttributeGetContext(MlirAttribute t) { return {keep(call("context_of", O(t)))}; }
MlirContext mlirModuleGetContext(MlirModule t) { return {keep(call("context_of", O(t)))}; }
MlirContext mlirOperationGetContext(MlirOperation t) { return {keep(call("context_of", O(t)))}; }
MlirIdentifier mlirIdentifierGet(MlirContext, MlirStringRef s) { return {keep(str(s))}; }
MlirNamedAttribute mlirNamedAttributeGet(MlirIdentifier n, MlirAttribute a) { return {n, a}; }
MlirLocation mlirLocationUnknownGet(MlirContext c) { return {keep(call("loc_unknown", O(c)))}; }
MlirLocation mlirLocationFileLineColGet(MlirContext c, MlirStringRef f, unsigned l, unsigned k) {
  return {keep(call("loc_file", O(c), str(f), l, k))};
}
MlirLocation mlirLocationCallSiteGet(MlirLocation a, MlirLocation b) { return {keep(call("loc_callsite", O(a), O(b)))}; }
MlirLocation mlirLocationNameGet(MlirContext c, MlirStringRef s, MlirLocation ch) {
  return {keep(call("loc_name", O(c), str(s), O(ch)))};
}
MlirModule mlirModuleCreateEmpty(MlirLocation l) { return {keep(call("module", O(l)))}; }
MlirBlock mlirModuleGetBody(MlirModule m) { return {keep(call("module_body", O(m)))}; }
MlirOperation mlirModuleGetOperation(MlirModule m) { return {keep(call("module_op", O(m)))}; }
MlirOperationState mlirOperationStateGet(MlirStringRef n, MlirLocation l) {
  MlirOperationState s;
  std::memset(&s, 0, sizeof s);
  s.name = n;
  s.location = l;
  return s;
}
template <typename T> static void add(intptr_t &n, T *&p, intptr_t k, T const *q) {
  if (k == 0) return;
  if (!q) throw std::runtime_error("mlir: null array of elements added to an operation state");
  p = (T *)std::realloc(p, (n + k) * sizeof(T));
  std::memcpy(p + n, q, k * sizeof(T));
  n += k;
}
void mlirOperationStateAddResults(MlirOperationState *s, intptr_t n, MlirType const *p) { add(s->nResults, s->results, n, p); }
void mlirOperationStateAddOperands(MlirOperationState *s, intptr_t n, MlirValue const *p) { add(s->nOperands, s->operands, n, p); }
void mlirOperationStateAddOwnedRegions(MlirOperationState *s, intptr_t n, MlirRegion const *p) { add(s->nRegions, s->regions, n, p); }
void mlirOperationStateAddAttributes(MlirOperationState *s, intptr_t n, MlirNamedAttribute const *p) {
  add(s->nAttributes, s->attributes, n, p);
}
MlirOperation mlirOperationCreate(MlirOperationState *s) {
  py::list attrs;
  for (intptr_t i = 0; i < s->nAttributes; i++)
    attrs.append(py::make_tuple(O(s->attributes[i].name), O(s->attributes[i].attribute)));
  py::object r = call("operation", str(s->name), O(s->location), list(s->nResults, s->results),
                      list(s->nOperands, s->operands), attrs, list(s->nRegions, s->regions));
  std::free(s->results); std::free(s->operands); std::free(s->regions); std::free(s->attributes);
  return {keep(r)};
}
void mlirOperationDestroy(MlirOperation o) { call("destroy", O(o)); }
MlirRegion mlirOperationGetRegion(MlirOperation o, intptr_t i) { return {keep(call("region_of", O(o), i))}; }
intptr_t mlirOperationGetNumRegions(MlirOperation o) { return call("n_regions", O(o)).cast<intptr_t>(); }
intptr_t mlirOperationGetNumResults(MlirOperation o) { return call("n_results", O(o)).cast<intptr_t>(); }
intptr_t mlirOperationGetNumOperands(MlirOperation o) { return call("n_operands", O(o)).cast<intptr_t>(); }
MlirValue mlirOperationGetResult(MlirOperation o, intptr_t i) { return {keep(call("result_of", O(o), i))}; }
MlirValue mlirOperationGetOperand(MlirOperation o, intptr_t i) { return {keep(call("operand_of", O(o), i))}; }
MlirBlock mlirOperationGetBlock(MlirOperation o) { return {keep(call("block_of", O(o)))}; }
void mlirOperationSetAttributeByName(MlirOperation o, MlirStringRef n, MlirAttribute a) { call("set_attr", O(o), str(n), O(a)); }
MlirAttribute mlirOperationGetAttributeByName(MlirOperation o, MlirStringRef n) { return {keep(call("get_attr", O(o), str(n)))}; }
MlirRegion mlirRegionCreate(void) { return {keep(call("region"))}; }
void mlirRegionAppendOwnedBlock(MlirRegion r, MlirBlock b) { call("append_block", O(r), O(b)); }
MlirBlock mlirRegionGetFirstBlock(MlirRegion r) { return {keep(call("first_block", O(r)))}; }
MlirBlock mlirBlockCreate(intptr_t n, MlirType const *t, MlirLocation const *l) {
  return {keep(call("block", list(n, t), list(n, l)))};
}
MlirOperation mlirBlockGetFirstOperation(MlirBlock b) { return {keep(call("first_op", O(b)))}; }
MlirOperation mlirBlockGetTerminator(MlirBlock b) { return {keep(call("terminator", O(b)))}; }
void mlirBlockAppendOwnedOperation(MlirBlock b, MlirOperation o) { call("insert_before", O(b), py::none(), O(o)); }
void mlirBlockInsertOwnedOperationBefore(MlirBlock b, MlirOperation r, MlirOperation o) { call("insert_before", O(b), O(r), O(o)); }
intptr_t mlirBlockGetNumArguments(MlirBlock b) { return call("n_args", O(b)).cast<intptr_t>(); }
MlirValue mlirBlockGetArgument(MlirBlock b, intptr_t i) { return {keep(call("arg_of", O(b), i))}; }
MlirType mlirValueGetType(MlirValue v) { return {keep(call("type_of", O(v)))}; }
MlirOperation mlirOpResultGetOwner(MlirValue v) { return {keep(call("owner_of", O(v)))}; }
bool mlirValueIsAOpResult(MlirValue v) { return call("is_result", O(v)).cast<bool>(); }
bool mlirValueEqual(MlirValue a, MlirValue b) { return a.ptr == b.ptr; }
bool mlirTypeEqual(MlirType a, MlirType b) { return a.ptr == b.ptr || (a.ptr && b.ptr && O(a).equal(O(b))); }
bool mlirAttributeEqual(MlirAttribute a, MlirAttribute b) { return a.ptr == b.ptr || (a.ptr && b.ptr && O(a).equal(O(b))); }
static void print(py::object o, MlirStringCallback cb, void *u) {
  std::string s = call("text", o).cast<std::string>();
  cb({s.data(), s.size()}, u);
}
void mlirTypePrint(MlirType t, MlirStringCallback cb, void *u) { print(O(t), cb, u); }
void mlirAttributePrint(MlirAttribute t, MlirStringCallback cb, void *u) { print(O(t), cb, u); }
void mlirOperationPrint(MlirOperation t, MlirStringCallback cb, void *u) { print(O(t), cb, u); }

struct Handler { MlirDiagnosticHandlerID id; MlirDiagnosticHandler fn; void *user; };
static std::map<const void *, std::vector<Handler>> handlers;
static MlirDiagnosticHandlerID nextId = 1;
void mlirEmitError(MlirLocation l, const char *m) {
  py::object d = call("diagnostic", O(l), py::reinterpret_steal<py::str>(PyUnicode_DecodeUTF8(m, std::strlen(m), "replace")));
  keep(d);
  auto it = handlers.find(call("context_of", O(l)).ptr());
  if (it == handlers.end()) return;
  for (auto h = it->second.rbegin(); h != it->second.rend(); ++h)
    if (mlirLogicalResultIsSuccess(h->fn({d.ptr()}, h->user))) return;
}
MlirDiagnosticHandlerID mlirContextAttachDiagnosticHandler(MlirContext c, MlirDiagnosticHandler f, void *u, void (*)(void *)) {
  handlers[c.ptr].push_back({nextId, f, u});
  return nextId++;
}
void mlirContextDetachDiagnosticHandler(MlirContext, MlirDiagnosticHandlerID) {}
void mlirDiagnosticPrint(MlirDiagnostic d, MlirStringCallback cb, void *u) { print(O(d), cb, u); }
MlirDiagnosticSeverity mlirDiagnosticGetSeverity(MlirDiagnostic) { return MlirDiagnosticError; }
intptr_t mlirDiagnosticGetNumNotes(MlirDiagnostic) { return 0; }
MlirDiagnostic mlirDiagnosticGetNote(MlirDiagnostic, intptr_t) { return {nullptr}; }

#define TYPE(F, text) MlirType F(MlirContext c) { return {keep(call("type", O(c), text))}; }
TYPE(mlirBF16TypeGet, "bf16") TYPE(mlirF16TypeGet, "f16") TYPE(mlirF32TypeGet, "f32") TYPE(mlirF64TypeGet, "f64")
TYPE(mlirFloat8E5M2TypeGet, "f8E5M2") TYPE(mlirFloat8E4M3FNTypeGet, "f8E4M3FN")
TYPE(mlirFloat8E5M2FNUZTypeGet, "f8E5M2FNUZ") TYPE(mlirFloat8E4M3FNUZTypeGet, "f8E4M3FNUZ")
MlirType mlirIntegerTypeGet(MlirContext c, unsigned w) { return {keep(call("type", O(c), "i" + std::to_string(w)))}; }
MlirType mlirIntegerTypeSignedGet(MlirContext c, unsigned w) { return {keep(call("type", O(c), "si" + std::to_string(w)))}; }
MlirType mlirIntegerTypeUnsignedGet(MlirContext c, unsigned w) { return {keep(call("type", O(c), "ui" + std::to_string(w)))}; }
MlirType mlirComplexTypeGet(MlirType t) { return {keep(call("complex_type", O(t)))}; }
MlirType mlirFunctionTypeGet(MlirContext c, intptr_t n, MlirType const *a, intptr_t m, MlirType const *b) {
  return {keep(call("function_type", O(c), list(n, a), list(m, b)))};
}
intptr_t mlirFunctionTypeGetNumInputs(MlirType t) { return call("n_ins", O(t)).cast<intptr_t>(); }
intptr_t mlirFunctionTypeGetNumResults(MlirType t) { return call("n_outs", O(t)).cast<intptr_t>(); }
MlirType mlirFunctionTypeGetInput(MlirType t, intptr_t i) { return {keep(call("in_type", O(t), i))}; }
MlirType mlirFunctionTypeGetResult(MlirType t, intptr_t i) { return {keep(call("out_type", O(t), i))}; }
static py::list ints(intptr_t n, const int64_t *p) {
  py::list l;
  for (intptr_t i = 0; i < n; i++) l.append(p[i]);
  return l;
}
MlirType mlirRankedTensorTypeGetChecked(MlirLocation l, intptr_t n, const int64_t *d, MlirType e, MlirAttribute enc) {
  return {keep(call("ranked", O(l), ints(n, d), O(e), O(enc)))};
}

MlirAttribute mlirAttributeGetNull(void) { return {nullptr}; }
MlirAttribute mlirStringAttrGet(MlirContext c, MlirStringRef s) { return {keep(call("string_attr", O(c), str(s)))}; }
MlirAttribute mlirBoolAttrGet(MlirContext c, int v) { return {keep(call("bool_attr", O(c), v != 0))}; }
MlirAttribute mlirIntegerAttrGet(MlirType t, int64_t v) { return {keep(call("integer_attr", O(t), v))}; }
MlirAttribute mlirFloatAttrDoubleGet(MlirContext, MlirType t, double v) { return {keep(call("float_attr", O(t), v))}; }
MlirAttribute mlirUnitAttrGet(MlirContext c) { return {keep(call("unit_attr", O(c)))}; }
MlirAttribute mlirTypeAttrGet(MlirType t) { return {keep(call("type_attr", O(t)))}; }
MlirAttribute mlirFlatSymbolRefAttrGet(MlirContext c, MlirStringRef s) { return {keep(call("symbol_attr", O(c), str(s)))}; }
MlirAttribute mlirArrayAttrGet(MlirContext c, intptr_t n, MlirAttribute const *p) { return {keep(call("array_attr", O(c), list(n, p)))}; }
MlirAttribute mlirDictionaryAttrGet(MlirContext c, intptr_t n, MlirNamedAttribute const *p) {
  py::list l;
  for (intptr_t i = 0; i < n; i++) l.append(py::make_tuple(O(p[i].name), O(p[i].attribute)));
  return {keep(call("dict_attr", O(c), l))};
}
#define DENSE(N, T)                                                                             \
  MlirAttribute mlirDenseElementsAttr##N##Get(MlirType t, intptr_t n, const T *p) {             \
    return {keep(call("dense", #N, O(t), n, py::bytes((const char *)p, n * sizeof(T))))};       \
  }
MC_ALL_DENSE(DENSE)
MlirAttribute mlirDenseElementsAttrRawBufferGet(MlirType t, size_t n, const void *p) {
  return {keep(call("dense", "Raw", O(t), n, py::bytes((const char *)p, n)))};
}
MlirContext mlirPythonCapsuleToContext(PyObject *o) { return {o}; }
PyObject *mlirPythonModuleToCapsule(MlirModule m) { return obj(m.ptr).release().ptr(); }

extern "C" {
void torchMlirRegisterAllDialects(MlirContext c) { call("register_torch", O(c)); }
void torchMlirRegisterAllPasses(void) {}
MlirValue torchMlirAdjustStaticInformation(MlirBlock b, MlirOperation before, MlirValue v, MlirType t, bool refine) {
  return {keep(call("adjust", O(b), O(before), O(v), O(t), refine))};
}
#define SIMPLE(N) MlirType torchMlirTorch##N##TypeGet(MlirContext c) { return {keep(call("simple", O(c), #N))}; }
SIMPLE(Bool) SIMPLE(String) SIMPLE(None) SIMPLE(Int) SIMPLE(Float) SIMPLE(LinearParams) SIMPLE(QInt8) SIMPLE(QUInt8)
SIMPLE(QInt16) SIMPLE(Number) SIMPLE(Generator) SIMPLE(Device) SIMPLE(Any)
MlirType torchMlirTorchNnModuleTypeGet(MlirContext c, MlirStringRef n) { return {keep(call("nn_module", O(c), str(n)))}; }
MlirType torchMlirTorchOptionalTypeGet(MlirType t) { return {keep(call("wrap", "optional", O(t)))}; }
MlirType torchMlirTorchListTypeGet(MlirType t) { return {keep(call("wrap", "list", O(t)))}; }
MlirType torchMlirTorchDictTypeGet(MlirType k, MlirType v) { return {keep(call("dict_type", O(k), O(v)))}; }
MlirType torchMlirTorchTupleTypeGet(MlirContext c, intptr_t n, MlirType const *p) { return {keep(call("many", O(c), "tuple", list(n, p)))}; }
MlirType torchMlirTorchUnionTypeGet(MlirContext c, intptr_t n, MlirType const *p) { return {keep(call("many", O(c), "union", list(n, p)))}; }
MlirType torchMlirTorchNonValueTensorTypeGet(MlirContext c, intptr_t n, const int64_t *s, MlirType d) {
  if (n > -1) return {keep(call("tensor", O(c), "tensor", ints(n, s), O(d)))};
  return {keep(call("tensor", O(c), "tensor", py::none(), O(d)))};
}
MlirType torchMlirTorchValueTensorTypeGet(MlirContext c, intptr_t n, const int64_t *s, MlirType d) {
  if (n > -1) return {keep(call("tensor", O(c), "vtensor", ints(n, s), O(d)))};
  return {keep(call("tensor", O(c), "vtensor", py::none(), O(d)))};
}
MlirType torchMlirTorchNonValueTensorTypeGetWithLeastStaticInformation(MlirContext c) { return {keep(call("tensor", O(c), "tensor", py::none(), py::none()))}; }
MlirType torchMlirTorchValueTensorTypeGetWithLeastStaticInformation(MlirContext c) { return {keep(call("tensor", O(c), "vtensor", py::none(), py::none()))}; }
MlirType torchMlirTorchNonValueTensorTypeGetFromAttribute(MlirAttribute a) { return {keep(call("tensor_of", "tensor", O(a)))}; }
MlirType torchMlirTorchValueTensorTypeGetFromAttribute(MlirAttribute a) { return {keep(call("tensor_of", "vtensor", O(a)))}; }
bool torchMlirTypeIsValidSubtype(MlirType a, MlirType b) { return call("subtype", O(a), O(b)).cast<bool>(); }
}
