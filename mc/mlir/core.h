// A small stand-in for the part of MLIR's C++ API which torch-mlir's passes use.
// Written from MLIR's documented behaviour; every header mlir/... forwards here.
#ifndef MINI_MLIR_CORE_H
#define MINI_MLIR_CORE_H
#include "llvm/ADT/APFloat.h"
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/APSInt.h"
#include "llvm/ADT/ArrayRef.h"
#include "llvm/ADT/BitVector.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/DenseSet.h"
#include "llvm/ADT/Hashing.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/PointerUnion.h"
#include "llvm/ADT/STLExtras.h"
#include "llvm/ADT/Sequence.h"
#include "llvm/ADT/SetVector.h"
#include "llvm/ADT/SmallBitVector.h"
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/SmallVectorExtras.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/ADT/StringMap.h"
#include "llvm/ADT/StringRef.h"
#include "llvm/ADT/StringSet.h"
#include "llvm/ADT/StringSwitch.h"
#include "llvm/ADT/Twine.h"
#include "llvm/ADT/TypeSwitch.h"
#include "llvm/ADT/FunctionExtras.h"
#include "llvm/Support/TypeName.h"
#include "llvm/Support/TypeSize.h"
#include "llvm/Support/Debug.h"
#include "llvm/Support/FormatVariadic.h"
#include "llvm/Support/Format.h"
#include "llvm/ADT/simple_ilist.h"
#include "llvm/Support/Casting.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/ErrorHandling.h"
#include "llvm/Support/MathExtras.h"
#include "llvm/Support/SMLoc.h"
#include "llvm/Support/raw_ostream.h"
#include <cassert>
#include <complex>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace mini {
struct Crash : std::runtime_error {
  using std::runtime_error::runtime_error;
};
[[noreturn]] void unreachable(const char *msg, const char *file, int line);
[[noreturn]] void unreachable(const std::string &msg, const char *file, int line);
} // namespace mini
#undef llvm_unreachable
#define llvm_unreachable(msg) ::mini::unreachable(msg, __FILE__, __LINE__)

//===------------------------------------------------------------ LogicalResult
namespace llvm {
struct [[nodiscard]] LogicalResult {
  bool ok;
  static LogicalResult success(bool s = true) { return {s}; }
  static LogicalResult failure(bool f = true) { return {!f}; }
  bool succeeded() const { return ok; }
  bool failed() const { return !ok; }
};
inline LogicalResult success(bool s = true) { return LogicalResult::success(s); }
inline LogicalResult failure(bool f = true) { return LogicalResult::failure(f); }
inline bool succeeded(LogicalResult r) { return r.succeeded(); }
inline bool failed(LogicalResult r) { return r.failed(); }
template <typename T> class [[nodiscard]] FailureOr : public std::optional<T> {
public:
  FailureOr() = default;
  FailureOr(LogicalResult r) { assert(failed(r) && "success should be constructed with a 'T'"); (void)r; }
  FailureOr(T &&t) : std::optional<T>(std::forward<T>(t)) {}
  FailureOr(const T &t) : std::optional<T>(t) {}
  template <typename U, std::enable_if_t<std::is_constructible<T, U>::value> * = nullptr>
  FailureOr(const FailureOr<U> &o) : std::optional<T>(failed(o) ? std::optional<T>() : std::optional<T>(*o)) {}
  operator LogicalResult() const { return success(this->has_value()); }
private:
  using std::optional<T>::operator bool;
  using std::optional<T>::has_value;
};
template <typename T, typename U = void> inline bool failed(const FailureOr<T> &r) { return failed(LogicalResult(r)); }
template <typename T, typename U = void> inline bool succeeded(const FailureOr<T> &r) { return succeeded(LogicalResult(r)); }
class [[nodiscard]] ParseResult : public LogicalResult {
public:
  ParseResult(LogicalResult r = LogicalResult::success()) : LogicalResult(r) {}
  constexpr explicit operator bool() const { return !ok; }
};
} // namespace llvm

namespace mlir {
using llvm::APFloat; using llvm::APInt; using llvm::APSInt; using llvm::ArrayRef; using llvm::DenseMap; using llvm::DenseMapInfo;
using llvm::DenseSet; using llvm::MutableArrayRef; using llvm::PointerUnion; using llvm::SetVector; using llvm::SmallPtrSet;
using llvm::SmallPtrSetImpl; using llvm::SmallString; using llvm::SmallVector; using llvm::SmallVectorImpl; using llvm::StringLiteral;
using llvm::StringRef; using llvm::StringSet; using llvm::Twine; using llvm::TypeSwitch; using llvm::cast; using llvm::cast_if_present;
using llvm::cast_or_null; using llvm::dyn_cast; using llvm::dyn_cast_if_present; using llvm::dyn_cast_or_null;
using llvm::function_ref; using llvm::isa; using llvm::isa_and_nonnull; using llvm::isa_and_present; using llvm::iterator_range;
using llvm::raw_ostream; using llvm::SMLoc; using llvm::SMRange; using llvm::unique_function; using llvm::StringMap;
using llvm::LogicalResult; using llvm::FailureOr; using llvm::ParseResult; using llvm::success; using llvm::failure;
using llvm::succeeded; using llvm::failed; using llvm::SmallBitVector; using llvm::TypeSize;
template <typename F> using FunctionRef = llvm::function_ref<F>;

//===------------------------------------------------------------------- TypeID
class TypeID {
public:
  TypeID() = default;
  explicit TypeID(const void *p) : p(p) {}
  template <typename T> static TypeID get() { static char id; return TypeID(&id); }
  template <template <typename> class Trait> struct TraitKey {};
  template <template <typename> class Trait> static TypeID get() { return get<TraitKey<Trait>>(); }
  bool operator==(TypeID o) const { return p == o.p; }
  bool operator!=(TypeID o) const { return p != o.p; }
  bool operator<(TypeID o) const { return p < o.p; }
  const void *getAsOpaquePointer() const { return p; }
private:
  const void *p = nullptr;
};
#define MLIR_DEFINE_EXPLICIT_INTERNAL_INLINE_TYPE_ID(X)
#define MLIR_DECLARE_EXPLICIT_TYPE_ID(X)
#define MLIR_DEFINE_EXPLICIT_TYPE_ID(X)

class MLIRContext; class Operation; class Block; class Region; class Value; class OpResult; class BlockArgument; class Type;
class Attribute; class Location; class OpBuilder; class PatternRewriter; class RewriterBase; class RewritePatternSet; class IRMapping;
class ValueRange; class TypeRange; class InFlightDiagnostic; class Dialect; class SymbolTable; class OpOperand; class IntegerAttr;
class StringAttr; class DictionaryAttr; class OperationName; class AsmParser; class AsmPrinter; class OpAsmParser; class OpAsmPrinter;
class DialectAsmParser; class DialectAsmPrinter; class ArrayAttr; class Pass; class OpFoldResult; class SymbolTableCollection;
class FlatSymbolRefAttr; class SymbolRefAttr; class ConversionTarget; class FunctionType; class PropertyRef; class RegionRange;

//===------------------------------------------------------- Types & attributes
struct StorageBase {
  TypeID id;
  MLIRContext *ctx = nullptr;
  std::string key; // the printed form, which identifies it
  virtual ~StorageBase() = default;
};
struct TypeStorage : StorageBase {};
struct AttributeStorage : StorageBase {};

class Type {
public:
  using ImplType = TypeStorage;
  constexpr Type() = default;
  Type(const ImplType *i) : impl(const_cast<ImplType *>(i)) {}
  Type(std::nullptr_t) {}
  bool operator==(Type o) const { return impl == o.impl; }
  bool operator!=(Type o) const { return impl != o.impl; }
  explicit operator bool() const { return impl; }
  bool operator!() const { return !impl; }
  template <typename... U> bool isa() const { return llvm::isa<U...>(*this); }
  TypeID getTypeID() const { assert(impl && "a null type or attribute is used"); return impl->id; }
  MLIRContext *getContext() const { assert(impl && "a null type or attribute is used"); return impl->ctx; }
  const void *getAsOpaquePointer() const { return impl; }
  static Type getFromOpaquePointer(const void *p) { return Type((const ImplType *)p); }
  ImplType *getImpl() const { return impl; }
  Dialect &getDialect() const;
  bool isInteger() const; bool isInteger(unsigned w) const; bool isSignlessInteger() const; bool isSignlessInteger(unsigned w) const;
  bool isSignedInteger() const; bool isSignedInteger(unsigned w) const; bool isUnsignedInteger() const; bool isUnsignedInteger(unsigned w) const;
  bool isIndex() const; bool isF16() const; bool isBF16() const; bool isF32() const; bool isF64() const; bool isFloat() const;
  bool isIntOrFloat() const; bool isIntOrIndex() const; bool isIntOrIndexOrFloat() const; bool isSignlessIntOrIndex() const;
  unsigned getIntOrFloatBitWidth() const;
  void print(raw_ostream &os) const; void dump() const;
  friend llvm::hash_code hash_value(Type t) { return llvm::hash_value(t.impl); }
protected:
  ImplType *impl = nullptr;
};
inline raw_ostream &operator<<(raw_ostream &os, Type t) { t.print(os); return os; }

class Attribute {
public:
  using ImplType = AttributeStorage;
  constexpr Attribute() = default;
  Attribute(const ImplType *i) : impl(const_cast<ImplType *>(i)) {}
  Attribute(std::nullptr_t) {}
  bool operator==(Attribute o) const { return impl == o.impl; }
  bool operator!=(Attribute o) const { return impl != o.impl; }
  explicit operator bool() const { return impl; }
  bool operator!() const { return !impl; }
  TypeID getTypeID() const { assert(impl && "a null type or attribute is used"); return impl->id; }
  MLIRContext *getContext() const { assert(impl && "a null type or attribute is used"); return impl->ctx; }
  const void *getAsOpaquePointer() const { return impl; }
  static Attribute getFromOpaquePointer(const void *p) { return Attribute((const ImplType *)p); }
  ImplType *getImpl() const { return impl; }
  void print(raw_ostream &os, bool elideType = false) const; void dump() const;
  friend llvm::hash_code hash_value(Attribute t) { return llvm::hash_value(t.impl); }
protected:
  ImplType *impl = nullptr;
};
inline raw_ostream &operator<<(raw_ostream &os, Attribute t) { t.print(os); return os; }
} // namespace mlir
#include "casting.h"
namespace mlir {

class LocationAttr : public Attribute { public: using Attribute::Attribute; };
class Location {
public:
  Location(Attribute a) : a(a) {}
  operator Attribute() const { return a; }
  operator LocationAttr() const { return LocationAttr(a.getImpl()); }
  MLIRContext *getContext() const { return a.getContext(); }
  void print(raw_ostream &os) const { a.print(os); }
  bool operator==(Location o) const { return a == o.a; }
private:
  Attribute a;
};
inline raw_ostream &operator<<(raw_ostream &os, Location l) { l.print(os); return os; }
class UnknownLoc : public LocationAttr { public: using LocationAttr::LocationAttr; static Location get(MLIRContext *c); operator Location() const { return Location(*this); } };

// a unique storage per printed form
template <typename S> S *unique(MLIRContext *ctx, TypeID id, const std::string &key, llvm::function_ref<S *()> make);
TypeStorage *lookupType(MLIRContext *, const std::string &);
AttributeStorage *lookupAttr(MLIRContext *, const std::string &);
TypeStorage *internType(MLIRContext *, TypeID, std::string key, TypeStorage *);
AttributeStorage *internAttr(MLIRContext *, TypeID, std::string key, AttributeStorage *);
std::string str(Type t);
std::string str(Attribute a);
inline std::string miniKey(Type t) { return t ? str(t) : "-"; }
inline std::string miniKey(Attribute t) { return t ? str(t) : "-"; }
inline std::string miniKey(ArrayRef<Type> v) { std::string r = "("; for (Type t : v) r += miniKey(t) + ","; return r + ")"; }
inline std::string miniKey(std::optional<ArrayRef<int64_t>> v) { if (!v) return "*"; std::string r = "["; for (int64_t t : *v) r += std::to_string(t) + ","; return r + "]"; }

#define MINI_TYPE(X, Base, S)                                                                                          \
  using Base::Base;                                                                                                    \
  using StorageType = S;                                                                                               \
  const S *st() const { return static_cast<const S *>(this->impl); }                                                   \
  static bool classof(::mlir::Type t) { return t.getTypeID() == ::mlir::TypeID::get<X>(); }
#define MINI_ATTR(X, Base, S)                                                                                          \
  using Base::Base;                                                                                                    \
  using StorageType = S;                                                                                               \
  const S *st() const { return static_cast<const S *>(this->impl); }                                                   \
  static bool classof(::mlir::Attribute t) { return t.getTypeID() == ::mlir::TypeID::get<X>(); }

struct IntegerTypeStorage : TypeStorage { unsigned width; unsigned sign; };
class IntegerType : public Type {
public:
  MINI_TYPE(IntegerType, Type, IntegerTypeStorage)
  enum SignednessSemantics { Signless, Signed, Unsigned };
  static IntegerType get(MLIRContext *, unsigned width, SignednessSemantics s = Signless);
  unsigned getWidth() const { return st()->width; }
  SignednessSemantics getSignedness() const { return (SignednessSemantics)st()->sign; }
  bool isSignless() const { return st()->sign == Signless; }
  bool isSigned() const { return st()->sign == Signed; }
  bool isUnsigned() const { return st()->sign == Unsigned; }
};
class IndexType : public Type { public: MINI_TYPE(IndexType, Type, TypeStorage) static IndexType get(MLIRContext *); };
class NoneType : public Type { public: MINI_TYPE(NoneType, Type, TypeStorage) static NoneType get(MLIRContext *); };
struct FloatTypeStorage : TypeStorage { const llvm::fltSemantics *sem; unsigned width; };
class FloatType : public Type {
public:
  using Type::Type;
  static bool classof(Type t);
  unsigned getWidth() const { return static_cast<const FloatTypeStorage *>(impl)->width; }
  const llvm::fltSemantics &getFloatSemantics() const { return *static_cast<const FloatTypeStorage *>(impl)->sem; }
  static FloatType getBF16(MLIRContext *c); static FloatType getF16(MLIRContext *c); static FloatType getF32(MLIRContext *c);
  static FloatType getF64(MLIRContext *c);
};
#define MINI_FLOAT(X, txt, sem, w)                                                                                     \
  class X : public FloatType { public: using FloatType::FloatType;                                                     \
    static bool classof(Type t) { return t.getTypeID() == TypeID::get<X>(); } static X get(MLIRContext *); };
#define MINI_FLOATS                                                                                                    \
  MINI_FLOAT(Float16Type, "f16", IEEEhalf, 16) MINI_FLOAT(BFloat16Type, "bf16", BFloat, 16)                            \
  MINI_FLOAT(Float32Type, "f32", IEEEsingle, 32) MINI_FLOAT(Float64Type, "f64", IEEEdouble, 64)                        \
  MINI_FLOAT(Float80Type, "f80", x87DoubleExtended, 80) MINI_FLOAT(Float128Type, "f128", IEEEquad, 128)                \
  MINI_FLOAT(Float8E5M2Type, "f8E5M2", Float8E5M2, 8) MINI_FLOAT(Float8E4M3FNType, "f8E4M3FN", Float8E4M3FN, 8)        \
  MINI_FLOAT(Float8E5M2FNUZType, "f8E5M2FNUZ", Float8E5M2FNUZ, 8)                                                      \
  MINI_FLOAT(Float8E4M3FNUZType, "f8E4M3FNUZ", Float8E4M3FNUZ, 8)                                                      \
  MINI_FLOAT(Float4E2M1FNType, "f4E2M1FN", Float8E5M2, 4) MINI_FLOAT(Float8E8M0FNUType, "f8E8M0FNU", Float8E5M2, 8)         \
  MINI_FLOAT(Float8E4M3B11FNUZType, "f8E4M3B11FNUZ", Float8E4M3B11FNUZ, 8)
MINI_FLOATS
#undef MINI_FLOAT
struct ContainedStorage : TypeStorage { std::vector<Type> types; };
class ComplexType : public Type {
public:
  MINI_TYPE(ComplexType, Type, ContainedStorage)
  static ComplexType get(Type elt);
  Type getElementType() const { return st()->types[0]; }
};
struct FunctionTypeStorage : TypeStorage { std::vector<Type> ins, outs; };
class FunctionType : public Type {
public:
  MINI_TYPE(FunctionType, Type, FunctionTypeStorage)
  static FunctionType get(MLIRContext *, TypeRange ins, TypeRange outs);
  ArrayRef<Type> getInputs() const { return st()->ins; }
  ArrayRef<Type> getResults() const { return st()->outs; }
  unsigned getNumInputs() const { return st()->ins.size(); }
  unsigned getNumResults() const { return st()->outs.size(); }
  Type getInput(unsigned i) const { return st()->ins[i]; }
  Type getResult(unsigned i) const { return st()->outs[i]; }
};
class TupleType : public Type {
public:
  MINI_TYPE(TupleType, Type, ContainedStorage)
  static TupleType get(MLIRContext *, TypeRange);
  ArrayRef<Type> getTypes() const { return st()->types; }
};
struct ShapedStorage : TypeStorage { std::vector<int64_t> shape; Type elt; Attribute enc; bool ranked; };
class ShapedType : public Type {
public:
  using Type::Type;
  static constexpr int64_t kDynamic = std::numeric_limits<int64_t>::min();
  static bool classof(Type t);
  const ShapedStorage *sst() const { return static_cast<const ShapedStorage *>(impl); }
  Type getElementType() const { return sst()->elt; }
  bool hasRank() const { return sst()->ranked; }
  ArrayRef<int64_t> getShape() const { assert(hasRank()); return sst()->shape; }
  int64_t getRank() const { return getShape().size(); }
  bool hasStaticShape() const { return hasRank() && llvm::none_of(getShape(), isDynamic); }
  int64_t getDimSize(unsigned i) const { return getShape()[i]; }
  bool isDynamicDim(unsigned i) const { return isDynamic(getShape()[i]); }
  int64_t getNumElements() const { assert(hasStaticShape()); return getNumElements(getShape()); }
  static bool isDynamic(int64_t d) { return d == kDynamic; }
  static bool isDynamicShape(ArrayRef<int64_t> s) { return llvm::any_of(s, isDynamic); }
  static int64_t getNumElements(ArrayRef<int64_t> s) { int64_t n = 1; for (int64_t d : s) n *= d; return n; }
  unsigned getElementTypeBitWidth() const { return getElementType().getIntOrFloatBitWidth(); }
  ShapedType clone(ArrayRef<int64_t> shape, Type elt) const; ShapedType clone(ArrayRef<int64_t> shape) const; ShapedType clone(Type elt) const;
};
class TensorType : public ShapedType { public: using ShapedType::ShapedType; static bool classof(Type t) { return ShapedType::classof(t); } };
class RankedTensorType : public TensorType {
public:
  using TensorType::TensorType;
  static bool classof(Type t) { return t.getTypeID() == TypeID::get<RankedTensorType>(); }
  static RankedTensorType get(ArrayRef<int64_t> shape, Type elt, Attribute enc = {});
  Attribute getEncoding() const { return sst()->enc; }
};
class UnrankedTensorType : public TensorType {
public:
  using TensorType::TensorType;
  static bool classof(Type t) { return t.getTypeID() == TypeID::get<UnrankedTensorType>(); }
  static UnrankedTensorType get(Type elt);
};

//===---------------------------------------------------------- builtin attributes
struct StringAttrStorage : AttributeStorage { std::string value; Type type; };
class StringAttr : public Attribute {
public:
  MINI_ATTR(StringAttr, Attribute, StringAttrStorage)
  using ValueType = StringRef;
  static StringAttr get(MLIRContext *, const Twine &t = ""); static StringAttr get(const Twine &, Type);
  StringRef getValue() const { return st()->value; }
  StringRef strref() const { return st()->value; }
  std::string str() const { return st()->value; }
  operator StringRef() const { return getValue(); }
  bool empty() const { return getValue().empty(); }
  size_t size() const { return getValue().size(); }
};
class TypedAttr : public Attribute {
public:
  using Attribute::Attribute;
  static bool classof(Attribute);
  Type getType() const;
};
struct IntegerAttrStorage : AttributeStorage { Type type; APInt value; };
class IntegerAttr : public TypedAttr {
public:
  MINI_ATTR(IntegerAttr, TypedAttr, IntegerAttrStorage)
  using ValueType = APInt;
  static IntegerAttr get(Type, const APInt &); static IntegerAttr get(Type, int64_t); static IntegerAttr get(MLIRContext *, const APSInt &);
  APInt getValue() const { return st()->value; }
  Type getType() const { return st()->type; }
  int64_t getInt() const; int64_t getSInt() const; uint64_t getUInt() const; APSInt getAPSInt() const;
};
class BoolAttr : public IntegerAttr {
public:
  using IntegerAttr::IntegerAttr;
  using ValueType = bool;
  static bool classof(Attribute a) { return IntegerAttr::classof(a) && IntegerAttr(a.getImpl()).getType().isSignlessInteger(1); }
  static BoolAttr get(MLIRContext *, bool);
  bool getValue() const { return st()->value.getBoolValue(); }
};
struct FloatAttrStorage : AttributeStorage { Type type; APFloat value; FloatAttrStorage(APFloat v) : value(v) {} };
class FloatAttr : public TypedAttr {
public:
  MINI_ATTR(FloatAttr, TypedAttr, FloatAttrStorage)
  using ValueType = APFloat;
  static FloatAttr get(Type, const APFloat &); static FloatAttr get(Type, double);
  APFloat getValue() const { return st()->value; }
  double getValueAsDouble() const { return getValueAsDouble(st()->value); }
  static double getValueAsDouble(APFloat v);
  Type getType() const { return st()->type; }
};
class UnitAttr : public Attribute { public: MINI_ATTR(UnitAttr, Attribute, AttributeStorage) static UnitAttr get(MLIRContext *); };
struct TypeAttrStorage : AttributeStorage { Type type; };
class TypeAttr : public Attribute {
public:
  MINI_ATTR(TypeAttr, Attribute, TypeAttrStorage)
  static TypeAttr get(Type); Type getValue() const { return st()->type; }
};
struct ArrayAttrStorage : AttributeStorage { std::vector<Attribute> v; };
class ArrayAttr : public Attribute {
public:
  MINI_ATTR(ArrayAttr, Attribute, ArrayAttrStorage)
  static ArrayAttr get(MLIRContext *, ArrayRef<Attribute>);
  ArrayRef<Attribute> getValue() const { return st()->v; }
  size_t size() const { return st()->v.size(); } bool empty() const { return st()->v.empty(); }
  Attribute operator[](unsigned i) const { return st()->v[i]; }
  using iterator = const Attribute *;
  iterator begin() const { return getValue().begin(); } iterator end() const { return getValue().end(); }
  template <typename T> auto getAsRange() const { return llvm::map_range(getValue(), [](Attribute a) { return llvm::cast<T>(a); }); }
  template <typename T, typename UnderlyingT> auto getAsValueRange() const { return llvm::map_range(getValue(), [](Attribute a) { return llvm::cast<T>(a).getValue(); }); }
  template <typename T> auto getAsValueRange() const { return llvm::map_range(getValue(), [](Attribute a) { return llvm::cast<T>(a).getValue(); }); }
};
class NamedAttribute {
public:
  NamedAttribute(StringAttr n, Attribute v) : n(n), v(v) {}
  NamedAttribute(StringRef name, Attribute v);
  StringAttr getName() const { return n; }
  Attribute getValue() const { return v; }
  void setValue(Attribute x) { v = x; }
  void setName(StringAttr x) { n = x; }
  bool operator<(const NamedAttribute &o) const { return n.getValue() < o.n.getValue(); }
  bool operator==(const NamedAttribute &o) const { return n == o.n && v == o.v; }
private:
  StringAttr n; Attribute v;
};
struct DictStorage : AttributeStorage { std::vector<NamedAttribute> v; };
class DictionaryAttr : public Attribute {
public:
  MINI_ATTR(DictionaryAttr, Attribute, DictStorage)
  static DictionaryAttr get(MLIRContext *, ArrayRef<NamedAttribute> = {});
  ArrayRef<NamedAttribute> getValue() const { return st()->v; }
  Attribute get(StringRef n) const; Attribute get(StringAttr n) const { return get(n.getValue()); }
  bool contains(StringRef n) const { return (bool)get(n); }
  std::optional<NamedAttribute> getNamed(StringRef n) const;
  template <typename T, typename N> T getAs(N n) const { return llvm::dyn_cast_or_null<T>(get(n)); }
  size_t size() const { return st()->v.size(); } bool empty() const { return st()->v.empty(); }
  auto begin() const { return getValue().begin(); } auto end() const { return getValue().end(); }
};
struct SymbolRefStorage : AttributeStorage { StringAttr root; std::vector<FlatSymbolRefAttr> nested; };
class SymbolRefAttr : public Attribute {
public:
  MINI_ATTR(SymbolRefAttr, Attribute, SymbolRefStorage)
  static FlatSymbolRefAttr get(MLIRContext *, StringRef); static FlatSymbolRefAttr get(StringAttr); static FlatSymbolRefAttr get(Operation *);
  static SymbolRefAttr get(StringAttr root, ArrayRef<FlatSymbolRefAttr> nested);
  StringAttr getRootReference() const { return st()->root; }
  StringAttr getLeafReference() const;
  ArrayRef<FlatSymbolRefAttr> getNestedReferences() const;
};
class FlatSymbolRefAttr : public SymbolRefAttr {
public:
  using SymbolRefAttr::SymbolRefAttr;
  static bool classof(Attribute a) { return SymbolRefAttr::classof(a) && SymbolRefAttr(a.getImpl()).st()->nested.empty(); }
  static FlatSymbolRefAttr get(MLIRContext *c, StringRef s) { return SymbolRefAttr::get(c, s); }
  static FlatSymbolRefAttr get(StringAttr s) { return SymbolRefAttr::get(s); }
  static FlatSymbolRefAttr get(Operation *o) { return SymbolRefAttr::get(o); }
  StringRef getValue() const { return st()->root.getValue(); }
  StringAttr getAttr() const { return st()->root; }
};
inline ArrayRef<FlatSymbolRefAttr> SymbolRefAttr::getNestedReferences() const { return st()->nested; }
struct OpaqueAttrStorage : AttributeStorage {};
class AffineMap { friend raw_ostream &operator<<(raw_ostream &os, const AffineMap &m) { return os << "affine_map<" << m.text << ">"; } public: std::string text; unsigned dims = 0, syms = 0, results = 0; unsigned getNumSymbols() const { return syms; } unsigned getNumDims() const { return dims; } unsigned getNumResults() const { return results; } };
class AffineMapAttr : public Attribute {
public:
  struct S : AttributeStorage { AffineMap m; };
  MINI_ATTR(AffineMapAttr, Attribute, S)
  AffineMap getValue() const { return st()->m; } AffineMap getAffineMap() const { return st()->m; }
  static AffineMapAttr get(MLIRContext *, StringRef text, unsigned dims, unsigned syms, unsigned results);
};
class DenseArrayAttrBase : public Attribute { public: using Attribute::Attribute; };
class DenseI64ArrayAttr : public Attribute { public: struct S : AttributeStorage { std::vector<int64_t> v; }; MINI_ATTR(DenseI64ArrayAttr, Attribute, S) ArrayRef<int64_t> asArrayRef() const { return st()->v; } static DenseI64ArrayAttr get(MLIRContext *, ArrayRef<int64_t>); };

//===------------------------------------------------------------- dense elements
// the elements as bit patterns of the element type's width; complex ones as two
struct DenseStorage : AttributeStorage {
  ShapedType type; std::vector<APInt> bits; bool splat; std::vector<std::string> strings;
  mutable std::vector<char> raw;
};
template <typename T, typename = void> struct EltConv;
class ElementsAttr : public TypedAttr {
public:
  using TypedAttr::TypedAttr;
  static bool classof(Attribute a);
  ShapedType getShapedType() const { return llvm::cast<ShapedType>(TypedAttr::getType()); }
  Type getElementType() const { return getShapedType().getElementType(); }
  ShapedType getType() const { return getShapedType(); }
  int64_t getNumElements() const { return getShapedType().getNumElements(); }
  int64_t size() const { return getNumElements(); }
  bool isSplat() const;
  template <typename T> auto getValues() const;
  template <typename T> auto tryGetValues() const;
  template <typename T> T getSplatValue() const;
};
class DenseElementsAttr : public ElementsAttr {
public:
  using ElementsAttr::ElementsAttr;
  static bool classof(Attribute a) { return a.getTypeID() == TypeID::get<DenseElementsAttr>(); }
  const DenseStorage *st() const { return static_cast<const DenseStorage *>(impl); }
  static DenseElementsAttr getBits(ShapedType, std::vector<APInt> bits, bool splat);
  static DenseElementsAttr get(ShapedType, ArrayRef<Attribute>);
  static DenseElementsAttr get(ShapedType, ArrayRef<StringRef>);
  static DenseElementsAttr get(ShapedType, ArrayRef<bool>);
  static DenseElementsAttr get(ShapedType, ArrayRef<APInt>);
  static DenseElementsAttr get(ShapedType, ArrayRef<APFloat>);
  template <typename T, typename = std::enable_if_t<std::is_arithmetic<T>::value && !std::is_same<T, bool>::value>>
  static DenseElementsAttr get(const ShapedType &t, ArrayRef<T> v) {
    std::vector<APInt> b;
    unsigned w = t.getElementType().getIntOrFloatBitWidth();
    assert(w == sizeof(T) * 8 && "expected element type of the width of the values");
    for (T x : v) {
      if constexpr (std::is_same<T, float>::value) b.push_back(APFloat(x).bitcastToAPInt());
      else if constexpr (std::is_same<T, double>::value) b.push_back(APFloat(x).bitcastToAPInt());
      else b.push_back(APInt(w, (uint64_t)x, std::is_signed<T>::value));
    }
    return checkedBits(t, b);
  }
  template <typename T> static DenseElementsAttr get(const ShapedType &t, const SmallVectorImpl<T> &v) { return get(t, ArrayRef<T>(v)); }
  template <typename T, unsigned N> static DenseElementsAttr get(const ShapedType &t, const SmallVector<T, N> &v) { return get(t, ArrayRef<T>(v)); }
  template <typename T> static DenseElementsAttr get(const ShapedType &t, const std::vector<T> &v) { return get(t, ArrayRef<T>(v)); }
  template <typename T> static DenseElementsAttr get(const ShapedType &t, std::initializer_list<T> v) { return get(t, ArrayRef<T>(v)); }
  template <typename T, typename = std::enable_if_t<(std::is_arithmetic<T>::value && !std::is_same<T, bool>::value) || std::is_same<T, APInt>::value || std::is_same<T, APFloat>::value>>
  static DenseElementsAttr get(const ShapedType &t, T v) { return get(t, ArrayRef<T>(v)); }
  static DenseElementsAttr get(const ShapedType &t, bool v) { return get(t, ArrayRef<bool>(v)); }
  template <typename T, typename = std::enable_if_t<std::is_base_of<Attribute, T>::value>, typename = void>
  static DenseElementsAttr get(const ShapedType &t, T v) { return get(t, ArrayRef<Attribute>(Attribute(v))); }
  static DenseElementsAttr getFromRawBuffer(ShapedType, ArrayRef<char> raw);
  static DenseElementsAttr checkedBits(ShapedType, std::vector<APInt>);
  ArrayRef<char> getRawData() const;
  DenseElementsAttr reshape(ShapedType) const;
  DenseElementsAttr resizeSplat(ShapedType) const;
  bool isSplat() const { return st()->splat; }
  std::vector<APInt> all() const;
  template <typename T> T getSplatValue() const { assert(isSplat() && "expected the attribute to be a splat"); return EltConv<T>::get(*this, 0); }
  template <typename T> std::vector<T> vec() const {
    std::vector<T> r; size_t n = isSplat() ? getNumElements() : st()->type.getNumElements();
    for (size_t i = 0; i < n; i++) r.push_back(EltConv<T>::get(*this, isSplat() ? 0 : i));
    return r;
  }
  template <typename T> auto getValues() const;
  template <typename T> auto value_begin() const { return getValues<T>().begin(); }
  DenseElementsAttr mapValues(Type newElt, function_ref<APInt(const APInt &)>) const;
  DenseElementsAttr mapValues(Type newElt, function_ref<APInt(const APFloat &)>) const;
};
template <typename T> struct EltRange {
  std::shared_ptr<std::vector<T>> v;
  struct iterator {
    using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = ptrdiff_t; using pointer = const T *; using reference = T;
    std::shared_ptr<std::vector<T>> v; size_t i = 0;
    T operator*() const { return (*v)[i]; } T operator[](ptrdiff_t k) const { return (*v)[i + k]; }
    iterator &operator++() { ++i; return *this; } iterator operator++(int) { auto c = *this; ++i; return c; } iterator &operator--() { --i; return *this; }
    iterator operator+(ptrdiff_t k) const { return {v, i + k}; } iterator operator-(ptrdiff_t k) const { return {v, i - k}; } iterator &operator+=(ptrdiff_t k) { i += k; return *this; }
    ptrdiff_t operator-(const iterator &o) const { return i - o.i; }
    bool operator==(const iterator &o) const { return i == o.i; } bool operator!=(const iterator &o) const { return i != o.i; } bool operator<(const iterator &o) const { return i < o.i; }
  };
  iterator begin() const { return {v, 0}; } iterator end() const { return {v, v->size()}; }
  size_t size() const { return v->size(); } bool empty() const { return v->empty(); }
  T operator[](size_t i) const { return (*v)[i]; }
};
template <typename T> auto DenseElementsAttr::getValues() const { return EltRange<T>{std::make_shared<std::vector<T>>(vec<T>())}; }
template <> struct EltConv<APInt> { static APInt get(DenseElementsAttr d, size_t i) { return d.st()->bits[i]; } };
template <> struct EltConv<APSInt> { static APSInt get(DenseElementsAttr d, size_t i) { return APSInt(d.st()->bits[i], d.getElementType().isUnsignedInteger()); } };
template <> struct EltConv<APFloat> { static APFloat get(DenseElementsAttr d, size_t i) { return APFloat(llvm::cast<FloatType>(d.getElementType()).getFloatSemantics(), d.st()->bits[i]); } };
template <> struct EltConv<StringRef> { static StringRef get(DenseElementsAttr d, size_t i) { return d.st()->strings[i]; } };
template <> struct EltConv<bool> { static bool get(DenseElementsAttr d, size_t i) { return d.st()->bits[i].getBoolValue(); } };
template <typename T> struct EltConv<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
  static T get(DenseElementsAttr d, size_t i) { assert(d.getElementType().getIntOrFloatBitWidth() == sizeof(T) * 8 && "element type and C++ type differ in width"); const APInt &b = d.st()->bits[i]; return (T)(std::is_signed<T>::value ? b.getSExtValue() : (int64_t)b.getZExtValue()); }
};
template <> struct EltConv<float> { static float get(DenseElementsAttr d, size_t i) { return EltConv<APFloat>::get(d, i).convertToFloat(); } };
template <> struct EltConv<double> { static double get(DenseElementsAttr d, size_t i) { return EltConv<APFloat>::get(d, i).convertToDouble(); } };
template <typename T> struct EltConv<T, std::enable_if_t<std::is_base_of<Attribute, T>::value>> {
  static T get(DenseElementsAttr d, size_t i) {
    Type e = d.getElementType();
    if (llvm::isa<FloatType>(e)) return llvm::cast<T>(Attribute(FloatAttr::get(e, EltConv<APFloat>::get(d, i))));
    if (!d.st()->strings.empty()) return llvm::cast<T>(Attribute(StringAttr::get(d.getContext(), d.st()->strings[i])));
    return llvm::cast<T>(Attribute(IntegerAttr::get(e, d.st()->bits[i])));
  }
};
class DenseIntOrFPElementsAttr : public DenseElementsAttr {
public:
  using DenseElementsAttr::DenseElementsAttr;
  static bool classof(Attribute a) { return DenseElementsAttr::classof(a) && DenseElementsAttr(a.getImpl()).st()->strings.empty(); }
};
class DenseIntElementsAttr : public DenseIntOrFPElementsAttr {
public:
  using DenseIntOrFPElementsAttr::DenseIntOrFPElementsAttr;
  static bool classof(Attribute a) { return DenseIntOrFPElementsAttr::classof(a) && DenseElementsAttr(a.getImpl()).getElementType().isIntOrIndex(); }
  template <typename... A> static DenseIntElementsAttr get(A &&...a) { return llvm::cast<DenseIntElementsAttr>(Attribute(DenseElementsAttr::get(std::forward<A>(a)...))); }
  auto begin() const { return getValues<APInt>().begin(); } auto end() const { return getValues<APInt>().end(); }
};
class DenseFPElementsAttr : public DenseIntOrFPElementsAttr {
public:
  using DenseIntOrFPElementsAttr::DenseIntOrFPElementsAttr;
  static bool classof(Attribute a) { return DenseIntOrFPElementsAttr::classof(a) && llvm::isa<FloatType>(DenseElementsAttr(a.getImpl()).getElementType()); }
  template <typename... A> static DenseFPElementsAttr get(A &&...a) { return llvm::cast<DenseFPElementsAttr>(Attribute(DenseElementsAttr::get(std::forward<A>(a)...))); }
  auto begin() const { return getValues<APFloat>().begin(); } auto end() const { return getValues<APFloat>().end(); }
};
class SplatElementsAttr : public DenseElementsAttr {
public:
  using DenseElementsAttr::DenseElementsAttr;
  static bool classof(Attribute a) { return DenseElementsAttr::classof(a) && DenseElementsAttr(a.getImpl()).isSplat(); }
  template <typename... A> static SplatElementsAttr get(A &&...a) { return llvm::cast<SplatElementsAttr>(Attribute(DenseElementsAttr::get(std::forward<A>(a)...))); }
};
class DenseStringElementsAttr : public DenseElementsAttr { public: using DenseElementsAttr::DenseElementsAttr; static bool classof(Attribute a) { return DenseElementsAttr::classof(a) && !DenseElementsAttr(a.getImpl()).st()->strings.empty(); } };
struct AsmResourceBlob { std::vector<char> data; ArrayRef<char> getData() const { return data; } template <typename T> ArrayRef<T> getDataAs() const { return ArrayRef<T>((const T *)data.data(), data.size() / sizeof(T)); } };
struct DenseResourceElementsHandle { std::shared_ptr<AsmResourceBlob> blob; std::string name; const AsmResourceBlob *getBlob() const { return blob.get(); } AsmResourceBlob *getBlob() { return blob.get(); } StringRef getKey() const { return name; } };
struct ResourceStorage : AttributeStorage { ShapedType type; DenseResourceElementsHandle handle; };
class DenseResourceElementsAttr : public ElementsAttr {
public:
  using ElementsAttr::ElementsAttr;
  static bool classof(Attribute a) { return a.getTypeID() == TypeID::get<DenseResourceElementsAttr>(); }
  DenseResourceElementsHandle getRawHandle() const { return static_cast<const ResourceStorage *>(impl)->handle; }
  static DenseResourceElementsAttr get(ShapedType, DenseResourceElementsHandle);
};
template <typename T> auto ElementsAttr::getValues() const { return llvm::cast<DenseElementsAttr>(Attribute(*this)).getValues<T>(); }
template <typename T> auto ElementsAttr::tryGetValues() const { return FailureOr<EltRange<T>>(llvm::cast<DenseElementsAttr>(Attribute(*this)).getValues<T>()); }
template <typename T> T ElementsAttr::getSplatValue() const { return llvm::cast<DenseElementsAttr>(Attribute(*this)).getSplatValue<T>(); }
inline bool ElementsAttr::isSplat() const { return DenseElementsAttr::classof(*this) && static_cast<const DenseStorage *>(impl)->splat; }

} // namespace mlir
namespace mini { struct AllTorchOps; void registerTorchOps(mlir::Dialect *); }
#include "ir.h"
#include "rewrite.h"
#endif
