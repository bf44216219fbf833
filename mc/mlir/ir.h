#ifndef MINI_MLIR_IR_H
#define MINI_MLIR_IR_H
namespace mini { std::set<mlir::Operation *> &live(); extern int order; extern long rewriteCap; extern std::map<std::string, long> fired; extern std::map<std::string, std::string> patterns; }
namespace mlir {
//===--------------------------------------------------------------------- Value
namespace detail {
struct ValueImpl {
  Type type; OpOperand *firstUse = nullptr; Operation *op = nullptr; Block *block = nullptr; unsigned index = 0;
  Attribute loc;
};
using OpResultImpl = ValueImpl;
} // namespace detail

template <typename It, typename Use> struct UseIter {
  using iterator_category = std::forward_iterator_tag; using difference_type = ptrdiff_t; using value_type = Use; using pointer = Use *; using reference = Use &;
  Use *u = nullptr;
};

class Value {
public:
  using ImplType = detail::ValueImpl;
  constexpr Value(detail::ValueImpl *i = nullptr) : impl(i) {}
  Value(std::nullptr_t) {}
  explicit operator bool() const { return impl; }
  bool operator==(const Value &o) const { return impl == o.impl; }
  bool operator!=(const Value &o) const { return impl != o.impl; }
  template <typename... U> bool isa() const { return llvm::isa<U...>(*this); }
  Type getType() const { assert(impl && "a null value is used"); return impl->type; }
  MLIRContext *getContext() const { return getType().getContext(); }
  void setType(Type t) { assert(t && "null type"); impl->type = t; }
  Operation *getDefiningOp() const { assert(impl && "a null value is used"); return impl->op; }
  template <typename OpTy> OpTy getDefiningOp() const { return llvm::dyn_cast_or_null<OpTy>(getDefiningOp()); }
  Location getLoc() const;
  Region *getParentRegion(); Block *getParentBlock();
  void dropAllUses(); void replaceAllUsesWith(Value v); void replaceAllUsesExcept(Value v, Operation *except);
  void replaceAllUsesExcept(Value v, const SmallPtrSetImpl<Operation *> &except);
  void replaceUsesWithIf(Value v, function_ref<bool(OpOperand &)> f);
  bool isUsedOutsideOfBlock(Block *b);
  struct use_iterator;
  struct user_iterator;
  use_iterator use_begin() const; use_iterator use_end() const;
  iterator_range<use_iterator> getUses() const;
  bool hasOneUse() const; bool use_empty() const { return !impl->firstUse; }
  unsigned getNumUses() const;
  user_iterator user_begin() const; user_iterator user_end() const;
  iterator_range<user_iterator> getUsers() const;
  void print(raw_ostream &os) const; void dump() const;
  void *getAsOpaquePointer() const { return impl; }
  static Value getFromOpaquePointer(const void *p) { return (detail::ValueImpl *)p; }
  detail::ValueImpl *getImpl() const { return impl; }
  friend llvm::hash_code hash_value(Value t) { return llvm::hash_value(t.impl); }
protected:
  detail::ValueImpl *impl = nullptr;
};
inline raw_ostream &operator<<(raw_ostream &os, Value v) { v.print(os); return os; }
class BlockArgument : public Value {
public:
  using Value::Value;
  static bool classof(Value v) { return v.getImpl()->block; }
  Block *getOwner() const { return impl->block; }
  unsigned getArgNumber() const { return impl->index; }
};
class OpResult : public Value {
public:
  using Value::Value;
  static bool classof(Value v) { return v.getImpl()->op; }
  Operation *getOwner() const { return impl->op; }
  unsigned getResultNumber() const { return impl->index; }
};
template <typename Ty> struct TypedValue : Value {
  using Value::Value;
  static bool classof(Value v) { return llvm::isa<Ty>(v.getType()); }
  Ty getType() const { return llvm::cast<Ty>(Value::getType()); }
  void setType(Ty t) { Value::setType(t); }
};
class OpOperand {
public:
  OpOperand() = default;
  OpOperand(const OpOperand &) = delete;
  ~OpOperand() { drop(); }
  Value get() const { return value; }
  void set(Value v) { drop(); value = v; link(); }
  void assign(Value v) { set(v); }
  Operation *getOwner() const { return owner; }
  unsigned getOperandNumber() const;
  void drop() { if (back) { *back = next; if (next) next->back = back; back = nullptr; next = nullptr; } value = Value(); }
  void link() { if (!value) return; auto *i = value.getImpl(); next = i->firstUse; if (next) next->back = &next; back = &i->firstUse; i->firstUse = this; }
  bool is(Value v) const { return value == v; }
  Operation *owner = nullptr; Value value; OpOperand *next = nullptr; OpOperand **back = nullptr;
};
struct Value::use_iterator {
  using iterator_category = std::forward_iterator_tag; using difference_type = ptrdiff_t; using value_type = OpOperand; using pointer = OpOperand *; using reference = OpOperand &;
  OpOperand *u = nullptr;
  OpOperand &operator*() const { return *u; } OpOperand *operator->() const { return u; }
  use_iterator &operator++() { u = u->next; return *this; } use_iterator operator++(int) { auto c = *this; u = u->next; return c; }
  bool operator==(const use_iterator &o) const { return u == o.u; } bool operator!=(const use_iterator &o) const { return u != o.u; }
  Operation *getUser() const { return u->owner; }
};
struct Value::user_iterator {
  using iterator_category = std::forward_iterator_tag; using difference_type = ptrdiff_t; using value_type = Operation *; using pointer = Operation **; using reference = Operation *;
  OpOperand *u = nullptr;
  Operation *operator*() const { return u->owner; } Operation *operator->() const { return u->owner; }
  user_iterator &operator++() { u = u->next; return *this; } user_iterator operator++(int) { auto c = *this; u = u->next; return c; }
  bool operator==(const user_iterator &o) const { return u == o.u; } bool operator!=(const user_iterator &o) const { return u != o.u; }
};
inline Value::use_iterator Value::use_begin() const { return {impl->firstUse}; }
inline Value::use_iterator Value::use_end() const { return {nullptr}; }
inline Value::user_iterator Value::user_begin() const { return {impl->firstUse}; }
inline Value::user_iterator Value::user_end() const { return {nullptr}; }
inline iterator_range<Value::use_iterator> Value::getUses() const { return {use_begin(), use_end()}; }
inline iterator_range<Value::user_iterator> Value::getUsers() const { return {user_begin(), user_end()}; }
inline bool Value::hasOneUse() const { return impl->firstUse && !impl->firstUse->next; }
} // namespace mlir
namespace llvm {
template <typename To, typename From>
struct CastInfo<To, From, std::enable_if_t<std::is_same_v<mlir::Value, std::remove_const_t<From>> || std::is_base_of_v<mlir::Value, From>>>
    : NullableValueCastFailed<To>, DefaultDoCastIfPossible<To, From, CastInfo<To, From>> {
  static inline bool isPossible(mlir::Value v) {
    if constexpr (std::is_base_of_v<To, From>) return true;
    else return To::classof(v);
  }
  static inline To doCast(mlir::Value v) { return To(v.getImpl()); }
};
MINI_HANDLE_INFO(mlir::Value, )
template <> struct PointerLikeTypeTraits<mlir::Value> {
  static void *getAsVoidPointer(mlir::Value v) { return v.getAsOpaquePointer(); }
  static mlir::Value getFromVoidPointer(void *p) { return mlir::Value::getFromOpaquePointer(p); }
  static constexpr int NumLowBitsAvailable = 3;
};
template <> struct PointerLikeTypeTraits<mlir::Type> {
  static void *getAsVoidPointer(mlir::Type v) { return const_cast<void *>(v.getAsOpaquePointer()); }
  static mlir::Type getFromVoidPointer(void *p) { return mlir::Type::getFromOpaquePointer(p); }
  static constexpr int NumLowBitsAvailable = 3;
};
template <> struct PointerLikeTypeTraits<mlir::Attribute> {
  static void *getAsVoidPointer(mlir::Attribute v) { return const_cast<void *>(v.getAsOpaquePointer()); }
  static mlir::Attribute getFromVoidPointer(void *p) { return mlir::Attribute::getFromOpaquePointer(p); }
  static constexpr int NumLowBitsAvailable = 3;
};
template <> struct DenseMapInfo<mlir::TypeID> {
  static mlir::TypeID getEmptyKey() { return mlir::TypeID(DenseMapInfo<void *>::getEmptyKey()); }
  static mlir::TypeID getTombstoneKey() { return mlir::TypeID(DenseMapInfo<void *>::getTombstoneKey()); }
  static unsigned getHashValue(mlir::TypeID v) { return DenseMapInfo<const void *>::getHashValue(v.getAsOpaquePointer()); }
  static bool isEqual(mlir::TypeID a, mlir::TypeID b) { return a == b; }
};
} // namespace llvm
namespace mlir {
//===---------------------------------------------------------------------- ranges
class OperandRange final : public llvm::detail::indexed_accessor_range_base<OperandRange, OpOperand *, Value, Value, Value> {
public:
  using RangeBaseT::RangeBaseT;
  OperandRange() : RangeBaseT(nullptr, 0) {}
  TypeRange getTypes() const; TypeRange getType() const;
  unsigned getBeginOperandIndex() const { return empty() ? 0 : base->getOperandNumber(); }
private:
  static OpOperand *offset_base(OpOperand *o, ptrdiff_t i) { return o + i; }
  static Value dereference_iterator(OpOperand *o, ptrdiff_t i) { return o[i].get(); }
  friend RangeBaseT;
};
class ResultRange final : public llvm::detail::indexed_accessor_range_base<ResultRange, detail::ValueImpl *, OpResult, OpResult, OpResult> {
public:
  using RangeBaseT::RangeBaseT;
  TypeRange getTypes() const; TypeRange getType() const;
  bool use_empty() const { return llvm::all_of(*this, [](OpResult r) { return r.use_empty(); }); }
  void replaceAllUsesWith(ValueRange v) const; void replaceAllUsesWith(Operation *op) const;
  SmallVector<Operation *> getUsers() const; SmallVector<OpOperand *> getUsesVec() const;
private:
  static detail::ValueImpl *offset_base(detail::ValueImpl *o, ptrdiff_t i) { return o + i; }
  static OpResult dereference_iterator(detail::ValueImpl *o, ptrdiff_t i) { return OpResult(o + i); }
  friend RangeBaseT;
};
class ValueRange final : public llvm::detail::indexed_accessor_range_base<ValueRange, PointerUnion<const Value *, OpOperand *, detail::ValueImpl *>, Value, Value, Value> {
public:
  using OwnerT = PointerUnion<const Value *, OpOperand *, detail::ValueImpl *>;
  using RangeBaseT::RangeBaseT;
  ValueRange() : RangeBaseT(OwnerT((const Value *)nullptr), 0) {}
  template <typename Arg, typename = std::enable_if_t<std::is_constructible<ArrayRef<Value>, Arg>::value && !std::is_convertible<Arg, Value>::value>>
  ValueRange(Arg &&arg) : ValueRange(ArrayRef<Value>(std::forward<Arg>(arg))) {}
  ValueRange(const Value &v) : ValueRange(&v, 1) {}
  ValueRange(const std::initializer_list<Value> &v) : ValueRange(ArrayRef<Value>(v)) {}
  ValueRange(OperandRange v) : RangeBaseT(OwnerT(v.empty() ? (OpOperand *)nullptr : v.getBase()), v.size()) {}
  ValueRange(ResultRange v) : RangeBaseT(OwnerT(v.empty() ? (detail::ValueImpl *)nullptr : v.getBase()), v.size()) {}
  ValueRange(ArrayRef<BlockArgument> v) : ValueRange(ArrayRef<Value>(v.data(), v.size())) {}
  ValueRange(ArrayRef<Value> v) : RangeBaseT(OwnerT(v.data()), v.size()) {}
  TypeRange getTypes() const; TypeRange getType() const;
private:
  static OwnerT offset_base(const OwnerT &o, ptrdiff_t i) {
    if (auto *v = llvm::dyn_cast_if_present<const Value *>(o)) return {v + i};
    if (auto *v = llvm::dyn_cast_if_present<OpOperand *>(o)) return {v + i};
    if (auto *v = llvm::dyn_cast_if_present<detail::ValueImpl *>(o)) return {v + i};
    return o;
  }
  static Value dereference_iterator(const OwnerT &o, ptrdiff_t i) {
    if (auto *v = llvm::dyn_cast_if_present<const Value *>(o)) return v[i];
    if (auto *v = llvm::dyn_cast_if_present<OpOperand *>(o)) return v[i].get();
    return Value(llvm::cast<detail::ValueImpl *>(o) + i);
  }
  friend RangeBaseT;
};
class TypeRange : public llvm::detail::indexed_accessor_range_base<TypeRange, PointerUnion<const Value *, const Type *, OpOperand *, detail::ValueImpl *>, Type, Type, Type> {
public:
  using OwnerT = PointerUnion<const Value *, const Type *, OpOperand *, detail::ValueImpl *>;
  using RangeBaseT::RangeBaseT;
  TypeRange() : RangeBaseT(OwnerT((const Type *)nullptr), 0) {}
  TypeRange(ArrayRef<Type> t) : RangeBaseT(OwnerT(t.data()), t.size()) {}
  explicit TypeRange(OperandRange v) : TypeRange(ValueRange(v)) {}
  explicit TypeRange(ResultRange v) : TypeRange(ValueRange(v)) {}
  explicit TypeRange(ArrayRef<Value> v) : TypeRange(ValueRange(v)) {}
  explicit TypeRange(ValueRange v) : RangeBaseT(conv(v.getBase()), v.size()) {}
  template <typename Arg, typename = std::enable_if_t<std::is_constructible<ArrayRef<Type>, Arg>::value>>
  TypeRange(Arg &&arg) : TypeRange(ArrayRef<Type>(std::forward<Arg>(arg))) {}
  TypeRange(std::initializer_list<Type> t) : TypeRange(ArrayRef<Type>(t)) {}
private:
  static OwnerT conv(ValueRange::OwnerT o) {
    if (auto *v = llvm::dyn_cast_if_present<const Value *>(o)) return v;
    if (auto *v = llvm::dyn_cast_if_present<OpOperand *>(o)) return v;
    if (auto *v = llvm::dyn_cast_if_present<detail::ValueImpl *>(o)) return v;
    return (const Type *)nullptr;
  }
  static OwnerT offset_base(OwnerT o, ptrdiff_t i) {
    if (auto *v = llvm::dyn_cast_if_present<const Value *>(o)) return {v + i};
    if (auto *v = llvm::dyn_cast_if_present<const Type *>(o)) return {v + i};
    if (auto *v = llvm::dyn_cast_if_present<OpOperand *>(o)) return {v + i};
    if (auto *v = llvm::dyn_cast_if_present<detail::ValueImpl *>(o)) return {v + i};
    return o;
  }
  static Type dereference_iterator(OwnerT o, ptrdiff_t i) {
    if (auto *v = llvm::dyn_cast_if_present<const Value *>(o)) return v[i].getType();
    if (auto *v = llvm::dyn_cast_if_present<const Type *>(o)) return v[i];
    if (auto *v = llvm::dyn_cast_if_present<OpOperand *>(o)) return v[i].get().getType();
    return Value(llvm::cast<detail::ValueImpl *>(o) + i).getType();
  }
  friend RangeBaseT;
};
inline bool operator==(ArrayRef<Type> a, const TypeRange &b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
inline raw_ostream &operator<<(raw_ostream &os, const TypeRange &t) { llvm::interleaveComma(t, os); return os; }
inline TypeRange OperandRange::getTypes() const { return TypeRange(*this); }
inline TypeRange OperandRange::getType() const { return TypeRange(*this); }
inline TypeRange ResultRange::getTypes() const { return TypeRange(*this); }
inline TypeRange ResultRange::getType() const { return TypeRange(*this); }
inline TypeRange ValueRange::getTypes() const { return TypeRange(*this); }
inline TypeRange ValueRange::getType() const { return TypeRange(*this); }
class MutableOperandRange {
public:
  MutableOperandRange(Operation *o, unsigned s, unsigned n) : o(o), s(s), n(n) {}
  MutableOperandRange(Operation *o);
  MutableOperandRange(OpOperand &op) : o(op.getOwner()), s(op.getOperandNumber()), n(1) {}
  unsigned size() const { return n; } bool empty() const { return !n; }
  operator OperandRange() const; OperandRange getAsOperandRange() const { return *this; }
  void append(ValueRange v); void assign(ValueRange v); void assign(Value v) { assign(ValueRange(v)); } void erase(unsigned sub, unsigned len = 1); void clear() { assign(ValueRange()); }
  OpOperand &operator[](unsigned i) const; OpOperand *begin() const; OpOperand *end() const;
  MutableOperandRange slice(unsigned st, unsigned len) const { return {o, s + st, len}; }
private:
  Operation *o; unsigned s, n;
};

class NamedAttrList {
public:
  NamedAttrList() = default;
  NamedAttrList(ArrayRef<NamedAttribute> a) : v(a.begin(), a.end()) {}
  NamedAttrList(DictionaryAttr d) : v(d.getValue().begin(), d.getValue().end()) {}
  void append(StringRef n, Attribute a) { set(n, a); }
  void append(StringAttr n, Attribute a) { set(n.getValue(), a); }
  void append(NamedAttribute a) { set(a.getName().getValue(), a.getValue()); }
  template <typename R> void append(R &&r) { for (NamedAttribute a : r) append(a); }
  void push_back(NamedAttribute a) { append(a); }
  Attribute get(StringRef n) const { for (auto &a : v) if (a.getName().getValue() == n) return a.getValue(); return {}; }
  Attribute set(StringRef n, Attribute a) { for (auto &x : v) if (x.getName().getValue() == n) { Attribute o = x.getValue(); x.setValue(a); return o; } v.push_back(NamedAttribute(n, a)); return {}; }
  Attribute set(StringAttr n, Attribute a) { return set(n.getValue(), a); }
  Attribute erase(StringRef n) { for (auto it = v.begin(); it != v.end(); ++it) if (it->getName().getValue() == n) { Attribute a = it->getValue(); v.erase(it); return a; } return {}; }
  Attribute erase(StringAttr n) { return erase(n.getValue()); }
  ArrayRef<NamedAttribute> getAttrs() const { return v; }
  operator ArrayRef<NamedAttribute>() const { return v; }
  DictionaryAttr getDictionary(MLIRContext *c) const { return DictionaryAttr::get(c, v); }
  bool empty() const { return v.empty(); } size_t size() const { return v.size(); }
  auto begin() const { return v.begin(); } auto end() const { return v.end(); }
  SmallVector<NamedAttribute, 4> v;
};

//===----------------------------------------------------------------- Diagnostics
enum class DiagnosticSeverity { Note, Warning, Error, Remark };
class Diagnostic {
public:
  std::string text; DiagnosticSeverity severity = DiagnosticSeverity::Error;
  template <typename T> Diagnostic &operator<<(T &&v) { llvm::raw_string_ostream os(text); put(os, v); os.flush(); return *this; }
  Diagnostic &operator<<(Operation &op); Diagnostic &operator<<(Operation *op); Diagnostic &operator<<(OperationName n);
  template <typename R> Diagnostic &appendRange(const R &r, const char *sep = ", ") { bool f = true; for (auto &&x : r) { if (!f) text += sep; f = false; *this << x; } return *this; }
  template <typename... A> Diagnostic &append(A &&...a) { ((*this << a), ...); return *this; }
  Diagnostic &attachNote(std::optional<Location> = std::nullopt) { text += "\n note: "; return *this; }
  std::string str() const { return text; }
  operator LogicalResult() const { return failure(); }
private:
  template <typename T> static void put(raw_ostream &os, const T &v) {
    if constexpr (std::is_base_of_v<Type, T> || std::is_base_of_v<Attribute, T> || std::is_base_of_v<Value, T>) { if (v) v.print(os); else os << "<<NULL>>"; }
    else if constexpr (std::is_convertible_v<T, Twine>) os << Twine(v);
    else if constexpr (std::is_arithmetic_v<T>) os << v;
    else if constexpr (std::is_base_of_v<llvm::detail::indexed_accessor_range_base<TypeRange, TypeRange::OwnerT, Type, Type, Type>, T>) llvm::interleaveComma(v, os);
    else if constexpr (std::is_same_v<T, OperandRange> || std::is_same_v<T, ResultRange> || std::is_same_v<T, ValueRange>) llvm::interleaveComma(v, os);
    else if constexpr (std::is_convertible_v<T, ArrayRef<Type>>) llvm::interleaveComma(ArrayRef<Type>(v), os);
    else os << v;
  }
};
class InFlightDiagnostic {
public:
  InFlightDiagnostic() = default;
  InFlightDiagnostic(MLIRContext *c, DiagnosticSeverity s) : c(c) { d.severity = s; }
  InFlightDiagnostic(InFlightDiagnostic &&o) : c(o.c), d(std::move(o.d)) { o.c = nullptr; }
  ~InFlightDiagnostic() { report(); }
  template <typename T> InFlightDiagnostic &operator<<(T &&v) & { d << std::forward<T>(v); return *this; }
  template <typename T> InFlightDiagnostic &&operator<<(T &&v) && { d << std::forward<T>(v); return std::move(*this); }
  template <typename... A> InFlightDiagnostic &append(A &&...a) & { ((d << a), ...); return *this; }
  template <typename... A> InFlightDiagnostic &&append(A &&...a) && { ((d << a), ...); return std::move(*this); }
  Diagnostic &attachNote(std::optional<Location> l = std::nullopt) { return d.attachNote(l); }
  void report(); void abandon() { c = nullptr; }
  operator LogicalResult() const { return failure(); }
  operator ParseResult() const { return failure(); }
  template <typename T> operator FailureOr<T>() const { return failure(); }
private:
  MLIRContext *c = nullptr; Diagnostic d;
};
InFlightDiagnostic emitError(Location, const Twine & = ""); InFlightDiagnostic emitWarning(Location, const Twine & = ""); InFlightDiagnostic emitRemark(Location, const Twine & = "");

//===---------------------------------------------------------------- OpInfo & names
using OpFoldResultBase = PointerUnion<Attribute, Value>;
class OpFoldResult : public PointerUnion<Attribute, Value> {
public:
  using PointerUnion<Attribute, Value>::PointerUnion;
  OpFoldResult() = default;
  OpFoldResult(Attribute a) : PointerUnion(a) {}
  OpFoldResult(Value v) : PointerUnion(v) {}
  OpFoldResult(std::nullptr_t) : PointerUnion() {}
  MLIRContext *getContext() const;
};
} // namespace mlir
namespace llvm {
template <typename To> struct CastInfo<To, mlir::OpFoldResult> : public CastInfo<To, mlir::OpFoldResult::PointerUnion> {};
template <typename To> struct CastInfo<To, const mlir::OpFoldResult> : public CastInfo<To, const mlir::OpFoldResult::PointerUnion> {};
} // namespace llvm
namespace mlir {
struct OpInfo {
  std::string name; MLIRContext *ctx = nullptr; bool registered = false; TypeID id;
  std::set<TypeID> traits;
  LogicalResult (*fold)(Operation *, ArrayRef<Attribute>, SmallVectorImpl<OpFoldResult> &) = nullptr;
  void (*canon)(RewritePatternSet &, MLIRContext *) = nullptr;
  LogicalResult (*verify)(Operation *) = nullptr;
  std::map<TypeID, bool (*)(Operation *)> ifaces; // membership
  unsigned nRegions = 0;
  unsigned (*effects)(Operation *) = nullptr; // 65536 times its effects, and how many of them are writes
};
class OperationName {
public:
  OperationName(StringRef name, MLIRContext *c);
  explicit OperationName(OpInfo *i) : info(i) {}
  StringRef getStringRef() const { return info->name; }
  StringRef stripDialect() const { return getStringRef().split('.').second; }
  StringRef getDialectNamespace() const { return getStringRef().split('.').first; }
  StringAttr getIdentifier() const { return StringAttr::get(info->ctx, info->name); }
  Dialect *getDialect() const;
  bool isRegistered() const { return info->registered; }
  template <template <typename T> class Trait> bool hasTrait() const { return info->traits.count(TypeID::get<Trait>()); }
  bool hasTrait(TypeID t) const { return info->traits.count(t); }
  bool operator==(OperationName o) const { return info == o.info; } bool operator!=(OperationName o) const { return info != o.info; }
  TypeID getTypeID() const { return info->id; }
  MLIRContext *getContext() const { return info->ctx; }
  void print(raw_ostream &os) const { os << getStringRef(); }
  OpInfo *info;
  const void *getAsOpaquePointer() const { return info; }
};
using RegisteredOperationName = OperationName;
inline raw_ostream &operator<<(raw_ostream &os, OperationName n) { return os << n.getStringRef(); }

class Region {
public:
  Region() = default; explicit Region(Operation *c) : container(c) {} ~Region();
  Region(const Region &) = delete;
  using BlockListType = llvm::simple_ilist<Block>;
  using iterator = BlockListType::iterator;
  BlockListType &getBlocks() { return blocks; }
  iterator begin() { return blocks.begin(); } iterator end() { return blocks.end(); }
  bool empty() { return blocks.empty(); } Block &front() { return blocks.front(); } Block &back() { return blocks.back(); }
  bool hasOneBlock() { return !empty() && std::next(begin()) == end(); }
  void push_back(Block *b); void push_front(Block *b); Block &emplaceBlock();
  Operation *getParentOp() { return container; } Region *getParentRegion(); MLIRContext *getContext(); Location getLoc();
  template <typename P> P getParentOfType();
  unsigned getRegionNumber();
  bool isProperAncestor(Region *o); bool isAncestor(Region *o) { return this == o || isProperAncestor(o); }
  MutableArrayRef<BlockArgument> getArguments(); unsigned getNumArguments(); BlockArgument getArgument(unsigned i); TypeRange getArgumentTypes();
  BlockArgument addArgument(Type t, Location l);
  void takeBody(Region &o); void cloneInto(Region *dest, IRMapping &m); void cloneInto(Region *dest, iterator before, IRMapping &m);
  void dropAllReferences();
  Block *findAncestorBlockInRegion(Block &b); Operation *findAncestorOpInRegion(Operation &op);
  auto getOps(); template <typename OpT> auto getOps();
  template <typename F> auto walk(F &&f);
  Operation *container = nullptr;
  BlockListType blocks;
};
struct OperationState {
  Location location; OperationName name; SmallVector<Value, 4> operands; SmallVector<Type, 4> types; NamedAttrList attributes;
  SmallVector<std::unique_ptr<Region>, 1> regions; SmallVector<Block *> successors;
  OperationState(Location l, OperationName n) : location(l), name(n) {}
  OperationState(Location l, StringRef n) : location(l), name(n, l.getContext()) {}
  OperationState(Location l, StringRef n, ValueRange ops, TypeRange types, ArrayRef<NamedAttribute> a = {}) : OperationState(l, n) { addOperands(ops); addTypes(types); addAttributes(a); }
  void addOperands(ValueRange v) { operands.append(v.begin(), v.end()); }
  void addTypes(ArrayRef<Type> t) { types.append(t.begin(), t.end()); }
  void addTypes(TypeRange t) { types.append(t.begin(), t.end()); }
  void addTypes(std::initializer_list<Type> t) { types.append(t.begin(), t.end()); }
  void addTypes(Type t) { types.push_back(t); }
  template <typename T> std::enable_if_t<!std::is_convertible<T, ArrayRef<Type>>::value && !std::is_convertible<T, Type>::value> addTypes(T &&t) { for (Type x : t) types.push_back(x); }
  void addAttribute(StringRef n, Attribute a) { attributes.append(n, a); }
  void addAttribute(StringAttr n, Attribute a) { attributes.append(n.getValue(), a); }
  void addAttributes(ArrayRef<NamedAttribute> a) { attributes.append(a); }
  Region *addRegion() { regions.push_back(std::make_unique<Region>()); return regions.back().get(); }
  MLIRContext *getContext() { return location.getContext(); }
};

//===------------------------------------------------------------------- walking
enum class WalkOrder { PreOrder, PostOrder };
class WalkResult {
public:
  enum R { Interrupt, Advance, Skip };
  WalkResult(R r = Advance) : r(r) {}
  WalkResult(LogicalResult l) : r(failed(l) ? Interrupt : Advance) {}
  WalkResult(InFlightDiagnostic &&) : r(Interrupt) {}
  static WalkResult interrupt() { return Interrupt; } static WalkResult advance() { return Advance; } static WalkResult skip() { return Skip; }
  bool wasInterrupted() const { return r == Interrupt; } bool wasSkipped() const { return r == Skip; }
  bool operator==(const WalkResult &o) const { return r == o.r; }
private:
  R r;
};
WalkResult walkImpl(Operation *op, WalkOrder o, function_ref<WalkResult(Operation *)> f);

class Block : public llvm::ilist_node<Block> {
public:
  using OpListType = llvm::simple_ilist<Operation>;
  using iterator = OpListType::iterator; using reverse_iterator = OpListType::reverse_iterator;
  ~Block();
  OpListType &getOperations() { return ops; }
  iterator begin() { return ops.begin(); } iterator end() { return ops.end(); }
  reverse_iterator rbegin() { return ops.rbegin(); } reverse_iterator rend() { return ops.rend(); }
  bool empty() { return ops.empty(); } Operation &front() { return ops.front(); } Operation &back() { return ops.back(); }
  void push_back(Operation *o); void push_front(Operation *o); void insertOp(iterator it, Operation *o);
  Region *getParent() const { return region; } Operation *getParentOp() { return region ? region->getParentOp() : nullptr; }
  bool isEntryBlock() { return this == &region->front(); }
  void insertBefore(Block *b); void insertAfter(Block *b); void moveBefore(Block *b); void erase();
  using BlockArgListType = MutableArrayRef<BlockArgument>;
  BlockArgListType getArguments() { return args; } unsigned getNumArguments() { return args.size(); } BlockArgument getArgument(unsigned i) { return args[i]; }
  TypeRange getArgumentTypes() { return TypeRange(ValueRange(ArrayRef<BlockArgument>(args))); }
  bool args_empty() { return args.empty(); } auto args_begin() { return args.begin(); } auto args_end() { return args.end(); }
  BlockArgument addArgument(Type t, Location l); BlockArgument insertArgument(unsigned i, Type t, Location l);
  iterator_range<BlockArgument *> addArguments(TypeRange t, ArrayRef<Location> l);
  void eraseArgument(unsigned i); void eraseArguments(const llvm::BitVector &b); void eraseArguments(unsigned st, unsigned n); void eraseArguments(function_ref<bool(BlockArgument)>);
  Operation *getTerminator(); bool mightHaveTerminator(); bool hasNoPredecessors() { return true; } unsigned getNumSuccessors() { return 0; }
  iterator_range<iterator> without_terminator() { if (begin() == end()) return {begin(), end()}; return {begin(), --end()}; }
  Block *splitBlock(iterator it); Block *splitBlock(Operation *op);
  void dropAllReferences();
  Operation *findAncestorOpInBlock(Operation &op);
  template <typename OpT> auto getOps() { return llvm::map_range(llvm::make_filter_range(ops, [](Operation &o) { return llvm::isa<OpT>(o); }), [](Operation &o) { return llvm::cast<OpT>(o); }); }
  template <typename F> auto walk(F &&f);
  bool isOpOrderValid() { return false; }
  MLIRContext *getContext();
  Region *region = nullptr; OpListType ops; std::vector<BlockArgument> args;
};

class Operation final : public llvm::ilist_node<Operation> {
public:
  static Operation *create(const OperationState &state); // takes the regions of the state
  static Operation *create(Location, OperationName, TypeRange, ValueRange, ArrayRef<NamedAttribute>, unsigned nRegions);
  ~Operation(); void destroy() { delete this; }
  OperationName getName() { return name; } MLIRContext *getContext() { return name.getContext(); } Dialect *getDialect() { return name.getDialect(); }
  bool isRegistered() { return name.isRegistered(); }
  Location getLoc() { return loc; } void setLoc(Location l) { loc = l; }
  Block *getBlock() { return block; } Region *getParentRegion() { return block ? block->getParent() : nullptr; }
  Operation *getParentOp() { return block ? block->getParentOp() : nullptr; }
  template <typename OpTy> OpTy getParentOfType() { Operation *o = this; while ((o = o->getParentOp())) if (auto p = llvm::dyn_cast<OpTy>(o)) return p; return OpTy(); }
  template <template <typename> class Trait> Operation *getParentWithTrait() { Operation *o = this; while ((o = o->getParentOp())) if (o->hasTrait<Trait>()) return o; return nullptr; }
  bool isProperAncestor(Operation *o) { while ((o = o->getParentOp())) if (o == this) return true; return false; } bool isAncestor(Operation *o) { return this == o || isProperAncestor(o); }
  bool isBeforeInBlock(Operation *o); void erase(); void remove(); void moveBefore(Operation *o); void moveBefore(Block *b, Block::iterator it); void moveAfter(Operation *o);
  Operation *clone(); Operation *clone(IRMapping &m); Operation *cloneWithoutRegions(); Operation *cloneWithoutRegions(IRMapping &m);
  void setOperands(ValueRange v); void setOperands(unsigned st, unsigned len, ValueRange v); void insertOperands(unsigned i, ValueRange v); void eraseOperand(unsigned i) { eraseOperands(i, 1); } void eraseOperands(unsigned i, unsigned n = 1); void eraseOperands(const llvm::BitVector &b);
  unsigned getNumOperands() { return nOps; } Value getOperand(unsigned i) { assert(i < nOps && "operand index out of range"); return operands[i].get(); } void setOperand(unsigned i, Value v) { assert(i < nOps); operands[i].set(v); }
  OperandRange getOperands() { return OperandRange(operands.get(), nOps); } auto operand_begin() { return getOperands().begin(); } auto operand_end() { return getOperands().end(); }
  MutableArrayRef<OpOperand> getOpOperands() { return MutableArrayRef<OpOperand>(operands.get(), nOps); } OpOperand &getOpOperand(unsigned i) { assert(i < nOps); return operands[i]; }
  auto getOperandTypes() { return getOperands().getTypes(); } ResultRange getResults() { return ResultRange(results.get(), nRes); } OpResult getResult(unsigned i) { assert(i < nRes && "result index out of range"); return OpResult(&results[i]); }
  OpResult getOpResult(unsigned i) { return getResult(i); } ResultRange getOpResults() { return getResults(); } unsigned getNumResults() { return nRes; } TypeRange getResultTypes() { return getResults().getTypes(); }
  auto result_begin() { return getResults().begin(); } auto result_end() { return getResults().end(); }
  void dropAllUses() { for (OpResult r : getResults()) r.dropAllUses(); } void dropAllDefinedValueUses() { dropAllUses(); } void dropAllReferences();
  bool use_empty() { return getResults().use_empty(); } bool hasOneUse();
  SmallVector<Operation *> getUsers() { return getResults().getUsers(); }
  auto getUses() { return llvm::make_pointee_range(uses()); }
  SmallVector<OpOperand *> &uses();
  template <typename V> void replaceAllUsesWith(V &&v) { getResults().replaceAllUsesWith(std::forward<V>(v)); }
  void replaceUsesOfWith(Value a, Value b);
  MutableArrayRef<Region> getRegions() { return MutableArrayRef<Region>(regions.get(), nReg); } unsigned getNumRegions() { return nReg; } Region &getRegion(unsigned i) { assert(i < nReg); return regions[i]; }
  unsigned getNumSuccessors() { return 0; }
  ArrayRef<NamedAttribute> getAttrs() { return attrs; } DictionaryAttr getAttrDictionary() { return attrs.getDictionary(getContext()); } ArrayRef<NamedAttribute> getDiscardableAttrs() { return attrs; }
  Attribute getAttr(StringRef n) { return attrs.get(n); } Attribute getAttr(StringAttr n) { return attrs.get(n.getValue()); } template <typename A, typename N> A getAttrOfType(N n) { return llvm::dyn_cast_or_null<A>(getAttr(n)); }
  Attribute getInherentAttrOr(StringRef n) { return attrs.get(n); }
  bool hasAttr(StringRef n) { return (bool)attrs.get(n); } bool hasAttr(StringAttr n) { return hasAttr(n.getValue()); } template <typename A, typename N> bool hasAttrOfType(N n) { return (bool)getAttrOfType<A>(n); }
  void setAttr(StringRef n, Attribute a) { attrs.set(n, a); } void setAttr(StringAttr n, Attribute a) { attrs.set(n, a); } void setAttrs(DictionaryAttr d) { attrs = NamedAttrList(d); } void setAttrs(ArrayRef<NamedAttribute> a) { attrs = NamedAttrList(a); }
  Attribute removeAttr(StringRef n) { return attrs.erase(n); } Attribute removeAttr(StringAttr n) { return attrs.erase(n); }
  template <template <typename T> class Trait> bool hasTrait() { return name.hasTrait<Trait>(); } template <template <typename T> class Trait> bool mightHaveTrait() { return hasTrait<Trait>(); }
  LogicalResult fold(ArrayRef<Attribute> ops, SmallVectorImpl<OpFoldResult> &results); LogicalResult fold(SmallVectorImpl<OpFoldResult> &results);
  InFlightDiagnostic emitError(const Twine &m = ""); InFlightDiagnostic emitWarning(const Twine &m = ""); InFlightDiagnostic emitRemark(const Twine &m = ""); InFlightDiagnostic emitOpError(const Twine &m = "");
  void print(raw_ostream &os); void dump();
  Block::iterator getBlockIterator() { return Block::iterator(*this); }
  Operation *getNextNode() { auto it = std::next(Block::iterator(*this)); return it == block->end() ? nullptr : &*it; } Operation *getPrevNode() { Block::iterator it(*this); return it == block->begin() ? nullptr : &*std::prev(it); }
  template <WalkOrder Order = WalkOrder::PostOrder, typename F> auto walk(F &&f);
  Operation *getOperation() { return this; }
  Block::iterator getIterator() { return Block::iterator(*this); }
  bool isUsedOutsideOfBlock(Block *b) { return llvm::any_of(getResults(), [b](OpResult r) { return r.isUsedOutsideOfBlock(b); }); }

  OperationName name; Location loc; Block *block = nullptr; NamedAttrList attrs;
  std::unique_ptr<OpOperand[]> operands; unsigned nOps = 0; std::unique_ptr<detail::ValueImpl[]> results; unsigned nRes = 0; std::unique_ptr<Region[]> regions; unsigned nReg = 0;
  SmallVector<OpOperand *> usesTmp;
private:
  Operation(Location l, OperationName n) : name(n), loc(l) {}
};
inline raw_ostream &operator<<(raw_ostream &os, Operation &op) { op.print(os); return os; }
inline unsigned OpOperand::getOperandNumber() const { return this - &owner->getOpOperands()[0]; }
inline auto Region::getOps() { return llvm::make_range(front().begin(), front().end()); }
template <typename OpT> auto Region::getOps() { return front().getOps<OpT>(); }
template <typename P> P Region::getParentOfType() { Region *r = this; while (r) { Operation *o = r->getParentOp(); if (!o) return P(); if (auto p = llvm::dyn_cast<P>(o)) return p; r = o->getParentRegion(); } return P(); }

namespace detail {
template <typename Arg, typename F> WalkResult callWalk(F &f, Operation *o) {
  auto invoke = [&](Arg a) -> WalkResult {
    if constexpr (std::is_void_v<decltype(f(a))>) { f(a); return WalkResult::advance(); } else return WalkResult(f(a));
  };
  if constexpr (std::is_same_v<Arg, Operation *>) return invoke(o);
  else { if (auto a = llvm::dyn_cast<Arg>(o)) return invoke(a); return WalkResult::advance(); }
}
} // namespace detail
template <WalkOrder Order, typename F> auto Operation::walk(F &&f) {
  using Arg = std::remove_const_t<std::remove_reference_t<typename llvm::function_traits<std::decay_t<F>>::template arg_t<0>>>;
  using R = decltype(f(std::declval<Arg>()));
  WalkResult r = walkImpl(this, Order, [&](Operation *o) { return detail::callWalk<Arg>(f, o); });
  if constexpr (!std::is_void_v<R>) return r;
}
template <typename F> auto Block::walk(F &&f) {
  using Arg = std::remove_const_t<std::remove_reference_t<typename llvm::function_traits<std::decay_t<F>>::template arg_t<0>>>;
  for (Operation &o : llvm::make_early_inc_range(ops)) if (walkImpl(&o, WalkOrder::PostOrder, [&](Operation *x) { return detail::callWalk<Arg>(f, x); }).wasInterrupted()) return WalkResult::interrupt();
  return WalkResult::advance();
}
template <typename F> auto Region::walk(F &&f) {
  for (Block &b : blocks) if (b.walk(f).wasInterrupted()) return WalkResult::interrupt();
  return WalkResult::advance();
}
class IRMapping {
public:
  void map(Value a, Value b) { values[a] = b; }
  void map(Block *a, Block *b) { blocks[a] = b; } void map(Operation *a, Operation *b) { opsm[a] = b; }
  template <typename S, typename T, std::enable_if_t<!std::is_convertible<S, Value>::value && !std::is_pointer_v<std::decay_t<S>>> * = nullptr> void map(S &&a, T &&b) { for (auto p : llvm::zip(a, b)) map(Value(std::get<0>(p)), Value(std::get<1>(p))); }
  Value lookup(Value v) const { auto r = lookupOrNull(v); assert(r && "expected a mapped value"); return r; }
  Value lookupOrNull(Value v) const { auto it = values.find(v); return it == values.end() ? Value() : it->second; } Value lookupOrDefault(Value v) const { auto r = lookupOrNull(v); return r ? r : v; }
  Block *lookupOrNull(Block *b) const { auto it = blocks.find(b); return it == blocks.end() ? nullptr : it->second; } Block *lookupOrDefault(Block *b) const { auto r = lookupOrNull(b); return r ? r : b; }
  bool contains(Value v) const { return values.count(v); } void erase(Value v) { values.erase(v); } void clear() { values.clear(); blocks.clear(); opsm.clear(); }
  auto &getValueMap() const { return values; }
private:
  DenseMap<Value, Value> values; DenseMap<Block *, Block *> blocks; DenseMap<Operation *, Operation *> opsm;
};

//===------------------------------------------------------------------- OpState
class OpState {
public:
  OpState(Operation *s = nullptr) : state(s) {}
  explicit operator bool() { return state; }
  operator Operation *() const { return state; }
  Operation *operator->() const { assert(state && "a null operation is used"); return state; }
  Operation *getOperation() const { return state; }
  MLIRContext *getContext() { return state->getContext(); } Location getLoc() { return state->getLoc(); }
  bool use_empty() { return state->use_empty(); } void erase() { state->erase(); } void print(raw_ostream &os) { state->print(os); } void dump() { state->dump(); }
  InFlightDiagnostic emitError(const Twine &m = "") { return state->emitError(m); } InFlightDiagnostic emitOpError(const Twine &m = "") { return state->emitOpError(m); }
  InFlightDiagnostic emitWarning(const Twine &m = "") { return state->emitWarning(m); } InFlightDiagnostic emitRemark(const Twine &m = "") { return state->emitRemark(m); }
  Operation *clone() { return state->clone(); }
  template <WalkOrder Order = WalkOrder::PostOrder, typename F> auto walk(F &&f) { return state->walk<Order>(std::forward<F>(f)); }
  bool operator==(OpState o) const { return state == o.state; } bool operator!=(OpState o) const { return state != o.state; }
  Operation *getParentOp() { return state->getParentOp(); } template <typename P> P getParentOfType() { return state->getParentOfType<P>(); }
  template <typename A, typename N> A getAttrOfType(N n) { return state->getAttrOfType<A>(n); }
  DictionaryAttr getAttributes() { return state->getAttrDictionary(); } ArrayRef<NamedAttribute> getAttrs() { return state->getAttrs(); }
  OperandRange getOperands() { return state->getOperands(); } Value getOperand(unsigned i) { return state->getOperand(i); } unsigned getNumOperands() { return state->getNumOperands(); }
  auto getOperandTypes() { return state->getOperandTypes(); } auto operand_begin() { return state->operand_begin(); } auto operand_end() { return state->operand_end(); } void setOperand(unsigned i, Value v) { state->setOperand(i, v); }
  unsigned getNumResults() { return state->getNumResults(); } TypeRange getResultTypes() { return state->getResultTypes(); } unsigned getNumRegions() { return state->getNumRegions(); }
protected:
  Operation *state;
};
inline raw_ostream &operator<<(raw_ostream &os, OpState op) { op.print(os); return os; }
} // namespace mlir
namespace llvm {
template <typename To, typename From>
struct CastInfo<To, From, std::enable_if_t<std::is_base_of_v<mlir::OpState, std::remove_const_t<From>>>>
    : NullableValueCastFailed<To>, DefaultDoCastIfPossible<To, From, CastInfo<To, From>> {
  static inline bool isPossible(From op) { return To::classof(const_cast<std::remove_const_t<From> &>(op).getOperation()); }
  static inline To doCast(From op) { return To(const_cast<std::remove_const_t<From> &>(op).getOperation()); }
};
} // namespace llvm
namespace mlir {
namespace OpTrait {
template <typename C, template <typename> class T> class TraitBase { public: Operation *getOperation() { return static_cast<C *>(this)->getOperation(); } };
#define MINI_TRAIT(X) template <typename C> class X {};
MINI_TRAIT(ConstantLike) MINI_TRAIT(IsTerminator) MINI_TRAIT(IsIsolatedFromAbove) MINI_TRAIT(ReturnLike) MINI_TRAIT(SymbolTable) MINI_TRAIT(SameVariadicOperandSize)
MINI_TRAIT(IsCommutative) MINI_TRAIT(SingleBlock) MINI_TRAIT(NoTerminator) MINI_TRAIT(AlwaysSpeculatable) MINI_TRAIT(MemoryEffectFree) MINI_TRAIT(HasParentKey) MINI_TRAIT(AutomaticAllocationScope) MINI_TRAIT(AttrSizedOperandSegments)
MINI_TRAIT(HasRecursiveMemoryEffects)
template <typename... P> struct HasParent { template <typename C> class Impl {}; };
template <typename P> struct SingleBlockImplicitTerminator { template <typename C> class Impl {}; };
} // namespace OpTrait
struct EmptyProperties {};
template <typename Concrete> class OpBase : public OpState {
public:
  using OpState::OpState;
  static bool classof(Operation *op) { return op->getName().getTypeID() == TypeID::get<Concrete>(); }
  static TypeID resolveTypeID() { return TypeID::get<Concrete>(); }
  template <template <typename> class Trait> static bool hasTrait() { return Concrete::miniTraits().count(TypeID::get<Trait>()); }
  ResultRange getResults_() { return this->state->getResults(); }
};
// ops of dialects other than torch and interfaces
class SymbolOpInterface : public OpState {
public:
  using OpState::OpState;
  static bool classof(Operation *op);
  StringRef getName(); StringAttr getNameAttr(); void setName(StringRef n); void setName(StringAttr n) { setName(n.getValue()); }
  enum class Visibility { Public, Private, Nested };
  bool isPrivate() { return vis() == "private"; } bool isPublic() { return vis() == "public"; } void setPrivate(); void setPublic();
  bool isDeclaration();
private:
  StringRef vis();
};
struct SymbolTableUse { Operation *user; SymbolRefAttr ref; Operation *getUser() const { return user; } SymbolRefAttr getSymbolRef() const { return ref; } };
class SymbolTable {
public:
  explicit SymbolTable(Operation *op);
  Operation *lookup(StringRef n) const; Operation *lookup(StringAttr n) const { return lookup(n.getValue()); } template <typename T, typename N> T lookup(N n) const { return llvm::dyn_cast_or_null<T>(lookup(n)); }
  void erase(Operation *op); void remove(Operation *op); StringAttr insert(Operation *op, Block::iterator it = {});
  Operation *getOp() const { return table; }
  static StringRef getSymbolAttrName() { return "sym_name"; } static StringRef getVisibilityAttrName() { return "sym_visibility"; }
  enum class Visibility { Public, Private, Nested };
  static StringAttr getSymbolName(Operation *); static void setSymbolName(Operation *, StringAttr); static void setSymbolName(Operation *, StringRef);
  static Visibility getSymbolVisibility(Operation *); static void setSymbolVisibility(Operation *, Visibility);
  static Operation *getNearestSymbolTable(Operation *from); static Operation *lookupSymbolIn(Operation *op, StringRef n); static Operation *lookupSymbolIn(Operation *op, StringAttr n) { return lookupSymbolIn(op, n.getValue()); }
  static Operation *lookupSymbolIn(Operation *op, SymbolRefAttr n) { return lookupSymbolIn(op, n.getRootReference().getValue()); }
  static Operation *lookupNearestSymbolFrom(Operation *from, StringAttr n); static Operation *lookupNearestSymbolFrom(Operation *from, SymbolRefAttr n) { return lookupNearestSymbolFrom(from, n.getRootReference()); }
  template <typename T, typename N> static T lookupNearestSymbolFrom(Operation *from, N n) { return llvm::dyn_cast_or_null<T>(lookupNearestSymbolFrom(from, n)); }
  using UseRange = std::vector<SymbolTableUse>;
  using SymbolUse = SymbolTableUse;
  static std::optional<UseRange> getSymbolUses(Operation *sym, Operation *from); static std::optional<UseRange> getSymbolUses(Operation *from); static std::optional<UseRange> getSymbolUses(Operation *sym, Region *from); static std::optional<UseRange> getSymbolUses(Region *from);
  static std::optional<UseRange> getSymbolUses(StringAttr sym, Operation *from); static std::optional<UseRange> getSymbolUses(StringAttr sym, Region *from);
  static bool symbolKnownUseEmpty(Operation *sym, Operation *from); static bool symbolKnownUseEmpty(Operation *sym, Region *from);
  static LogicalResult replaceAllSymbolUses(StringAttr o, StringAttr n, Operation *from); static LogicalResult replaceAllSymbolUses(Operation *o, StringAttr n, Operation *from); static LogicalResult replaceAllSymbolUses(Operation *o, StringAttr n, Region *from);
  LogicalResult rename(Operation *op, StringAttr to);
private:
  Operation *table; std::map<std::string, Operation *> symbols;
};
class SymbolTableCollection {
public:
  SymbolTable &getSymbolTable(Operation *op) { auto &p = tables[op]; if (!p) p = std::make_unique<SymbolTable>(op); return *p; }
  Operation *lookupSymbolIn(Operation *op, SymbolRefAttr n) { return getSymbolTable(op).lookup(n.getRootReference()); }
  Operation *lookupNearestSymbolFrom(Operation *from, SymbolRefAttr n) { return lookupSymbolIn(SymbolTable::getNearestSymbolTable(from), n); }
  template <typename T, typename N> T lookupNearestSymbolFrom(Operation *from, N n) { return llvm::dyn_cast_or_null<T>(SymbolTable::lookupNearestSymbolFrom(from, n)); }
  template <typename T, typename N> T lookupSymbolIn(Operation *op, N n) { return llvm::dyn_cast_or_null<T>(SymbolTable::lookupSymbolIn(op, n)); }
  std::map<Operation *, std::unique_ptr<SymbolTable>> tables;
};
class SymbolUserMap {
public:
  SymbolUserMap(SymbolTableCollection &, Operation *op) : root(op) {}
  SmallVector<Operation *> getUsers(Operation *sym) const; bool useEmpty(Operation *sym) { return getUsers(sym).empty(); }
private:
  Operation *root;
};
#define MINI_OP_INTERFACE(X) class X : public OpState { public: using OpState::OpState; static bool classof(Operation *op); };
class FunctionOpInterface; class CallableOpInterface;
class RegionBranchPoint; class RegionSuccessor;
class SymbolUserOpInterface : public OpState { public: using OpState::OpState; static bool classof(Operation *op); };
MINI_OP_INTERFACE(CastOpInterface)
class CallOpInterface : public OpState { public: using OpState::OpState; static bool classof(Operation *op); OperandRange getArgOperands(); PointerUnion<SymbolRefAttr, Value> getCallableForCallee() ; };
class RegionBranchOpInterface : public OpState { public: using OpState::OpState; static bool classof(Operation *op); };
class RegionBranchTerminatorOpInterface : public OpState { public: using OpState::OpState; static bool classof(Operation *op); };
class InferTypeOpInterface : public OpState { public: using OpState::OpState; static bool classof(Operation *op); };
class MemoryEffectOpInterface : public OpState { public: using OpState::OpState; static bool classof(Operation *op); bool hasNoEffect() const { return isNoEffect(state); } static bool isNoEffect(Operation *op); };
class RegionBranchPoint {
public:
  static RegionBranchPoint parent() { return RegionBranchPoint(); }
  RegionBranchPoint(Region *r) : r(r) {} RegionBranchPoint(Region &r) : r(&r) {} RegionBranchPoint(Operation *term) : t(term) {}
  RegionBranchPoint(OpState term) : t(term.getOperation()) {}
  bool isParent() const { return !r && !t; } Region *getRegionOrNull() const { return r; }
  bool operator==(RegionBranchPoint o) const { return r == o.r && t == o.t; } bool operator!=(RegionBranchPoint o) const { return !(*this == o); }
  bool operator==(Region &o) const { return r == &o; } bool operator==(Region *o) const { return r == o; } bool operator!=(Region *o) const { return r != o; }
  Operation *getTerminatorPredecessorOrNull() const { return t; }
private:
  RegionBranchPoint() = default; Region *r = nullptr; Operation *t = nullptr;
};
class RegionSuccessor {
public:
  RegionSuccessor(Region *r, ValueRange v = {}) : r(r), v(v) {} RegionSuccessor(ResultRange v) : v(ValueRange(v)) {} RegionSuccessor() = default;
  static RegionSuccessor parent(ValueRange v = {}) { RegionSuccessor s; s.v = v; return s; }
  static RegionSuccessor parent(Operation *) { return RegionSuccessor(); }
  RegionSuccessor(Operation *) {} RegionSuccessor(Operation *, ResultRange v) : v(v) {}
  bool isParent() const { return !r; } bool isOperation() const { return !r; } Region *getSuccessor() const { return r; } ValueRange getSuccessorInputs() const { return v; }
  bool operator==(const Region *o) const { return r == o; } bool operator!=(const Region *o) const { return r != o; }
private:
  Region *r = nullptr; ValueRange v;
};
namespace MemoryEffects { struct Effect {}; struct Read : Effect { static Read *get() { static Read r; return &r; } }; struct Write : Effect { static Write *get() { static Write r; return &r; } }; struct Allocate : Effect { static Allocate *get() { static Allocate r; return &r; } }; struct Free : Effect { static Free *get() { static Free r; return &r; } };
struct EffectInstance { Effect *e; EffectInstance(Effect *e) : e(e) {} EffectInstance(Effect *e, Value) : e(e) {} EffectInstance(Effect *e, OpOperand *) : e(e) {} EffectInstance(Effect *e, OpResult) : e(e) {} bool isWrite() const { return e == Write::get(); } Effect *getEffect() const { return e; } }; }
namespace SideEffects { using DefaultResource = int; template <typename E> struct EffectInstance : MemoryEffects::EffectInstance { using E_ = MemoryEffects::EffectInstance; using E_::E_; EffectInstance(MemoryEffects::Effect *e, int) : E_(e) {} }; }
bool isMemoryEffectFree(Operation *op); bool isPure(Operation *op); bool isOpTriviallyDead(Operation *op); bool wouldOpBeTriviallyDead(Operation *op); bool isSpeculatable(Operation *op);

//===---------------------------------------------------------------- Dialect/context
class Dialect {
public:
  Dialect(StringRef n, MLIRContext *c, TypeID) : ns(n), ctx(c) {}
  virtual ~Dialect();
  StringRef getNamespace() const { return ns; } MLIRContext *getContext() const { return ctx; }
  virtual Operation *materializeConstant(OpBuilder &, Attribute, Type, Location) { return nullptr; }
  virtual Type parseType(DialectAsmParser &) const { return Type(); } virtual void printType(Type, DialectAsmPrinter &) const {}
  virtual LogicalResult verifyRegionArgAttribute(Operation *, unsigned, unsigned, NamedAttribute) { return success(); }
  virtual LogicalResult verifyOperationAttribute(Operation *, NamedAttribute) { return success(); }
  virtual void getCanonicalizationPatterns(RewritePatternSet &) const {}
  template <typename... Ops> void addOperations() { (registerOp<Ops>(), ...); }
  template <typename... T> void addTypes() {} template <typename... T> void addAttributes() {} template <typename... T> void addInterfaces() {} template <typename... T> void declarePromisedInterfaces() {}
  template <typename Op> void registerOp();
protected:
  std::string ns; MLIRContext *ctx;
};
template <typename D> class DialectInterfaceBase { public: DialectInterfaceBase(Dialect *) {} };
class DialectInlinerInterface { public: DialectInlinerInterface(Dialect *) {} virtual ~DialectInlinerInterface() = default;
  virtual bool isLegalToInline(Operation *, Operation *, bool) const { return false; } virtual bool isLegalToInline(Region *, Region *, bool, IRMapping &) const { return false; } virtual bool isLegalToInline(Operation *, Region *, bool, IRMapping &) const { return false; } virtual bool shouldAnalyzeRecursively(Operation *) const { return true; } };
class DialectRegistry { public: template <typename... D> void insert() { ins.push_back([](MLIRContext *c) { (load<D>(c), ...); }); } std::vector<std::function<void(MLIRContext *)>> ins; template <typename D> static void load(MLIRContext *c); };
class MLIRContext {
public:
  MLIRContext(); ~MLIRContext();
  template <typename D> D *getOrLoadDialect() { auto &d = dialects[D::getDialectNamespace().str()]; if (!d) d.reset(new D(this)); return static_cast<D *>(d.get()); }
  template <typename... D> void loadDialect() { (getOrLoadDialect<D>(), ...); }
  Dialect *getLoadedDialect(StringRef n) { auto it = dialects.find(n.str()); return it == dialects.end() ? nullptr : it->second.get(); }
  template <typename D> D *getLoadedDialect() { return static_cast<D *>(getLoadedDialect(D::getDialectNamespace())); }
  Dialect *getOrLoadDialect(StringRef n) { return getLoadedDialect(n); }
  void allowUnregisteredDialects(bool = true) {} bool allowsUnregisteredDialects() { return true; } void disableMultithreading(bool = true) {} bool isMultithreadingEnabled() { return false; }
  std::map<std::string, std::unique_ptr<Dialect>> dialects; std::map<std::string, std::unique_ptr<OpInfo>> ops;
  std::map<std::string, std::unique_ptr<TypeStorage>> types; std::map<std::string, std::unique_ptr<AttributeStorage>> attrs;
  std::vector<std::pair<DiagnosticSeverity, std::string>> diags; std::function<void(Diagnostic &)> handler;
  using DiagnosticEngine = MLIRContext; DiagnosticEngine &getDiagEngine() { return *this; }
};
template <typename D> void DialectRegistry::load(MLIRContext *c) { c->getOrLoadDialect<D>(); }
class ScopedDiagnosticHandler { public: template <typename F> ScopedDiagnosticHandler(MLIRContext *c, F &&) : c(c) {} MLIRContext *c; };
template <typename T> struct miniIface { static void add(OpInfo &) {} };
template <typename Op> void Dialect::registerOp() {
  auto &p = ctx->ops[Op::getOperationName().str()];
  if (!p) p = std::make_unique<OpInfo>();
  p->name = Op::getOperationName().str(); p->ctx = ctx; p->registered = true; p->id = TypeID::get<Op>();
  Op::miniRegister(*p);
}
template <> inline void Dialect::registerOp<mini::AllTorchOps>() { mini::registerTorchOps(this); }
class BuiltinDialect : public Dialect { public: BuiltinDialect(MLIRContext *c); static StringRef getDialectNamespace() { return "builtin"; } static bool classof(const Dialect *d) { return d->getNamespace() == "builtin"; } };

//===------------------------------------------------------------------- OpBuilder
class Builder {
public:
  explicit Builder(MLIRContext *c) : context(c) {} explicit Builder(Operation *op) : Builder(op->getContext()) {}
  MLIRContext *getContext() const { return context; }
  Location getUnknownLoc() { return UnknownLoc::get(context); }
  FloatType getF16Type() { return Float16Type::get(context); } FloatType getBF16Type() { return BFloat16Type::get(context); } FloatType getF32Type() { return Float32Type::get(context); } FloatType getF64Type() { return Float64Type::get(context); }
  IndexType getIndexType() { return IndexType::get(context); } IntegerType getI1Type() { return IntegerType::get(context, 1); } IntegerType getI8Type() { return IntegerType::get(context, 8); } IntegerType getI16Type() { return IntegerType::get(context, 16); } IntegerType getI32Type() { return IntegerType::get(context, 32); } IntegerType getI64Type() { return IntegerType::get(context, 64); }
  IntegerType getIntegerType(unsigned w) { return IntegerType::get(context, w); } IntegerType getIntegerType(unsigned w, bool sign) { return IntegerType::get(context, w, sign ? IntegerType::Signed : IntegerType::Unsigned); }
  FunctionType getFunctionType(TypeRange i, TypeRange o) { return FunctionType::get(context, i, o); }
  NoneType getNoneType() { return NoneType::get(context); } TupleType getTupleType(TypeRange t) { return TupleType::get(context, t); }
  template <typename Ty, typename... A> Ty getType(A &&...a) { return Ty::get(context, std::forward<A>(a)...); }
  template <typename At, typename... A> At getAttr(A &&...a) { return At::get(context, std::forward<A>(a)...); }
  NamedAttribute getNamedAttr(StringRef n, Attribute a) { return NamedAttribute(StringAttr::get(context, n), a); }
  UnitAttr getUnitAttr() { return UnitAttr::get(context); } BoolAttr getBoolAttr(bool b) { return BoolAttr::get(context, b); } DictionaryAttr getDictionaryAttr(ArrayRef<NamedAttribute> a) { return DictionaryAttr::get(context, a); }
  IntegerAttr getIntegerAttr(Type t, int64_t v) { return IntegerAttr::get(t, v); } IntegerAttr getIntegerAttr(Type t, const APInt &v) { return IntegerAttr::get(t, v); }
  FloatAttr getFloatAttr(Type t, double v) { return FloatAttr::get(t, v); } FloatAttr getFloatAttr(Type t, const APFloat &v) { return FloatAttr::get(t, v); }
  StringAttr getStringAttr(const Twine &s) { return StringAttr::get(context, s); } ArrayAttr getArrayAttr(ArrayRef<Attribute> a) { return ArrayAttr::get(context, a); }
  IntegerAttr getI64IntegerAttr(int64_t v) { return getIntegerAttr(getI64Type(), v); } IntegerAttr getI32IntegerAttr(int32_t v) { return getIntegerAttr(getI32Type(), v); } IntegerAttr getI8IntegerAttr(int8_t v) { return getIntegerAttr(getI8Type(), v); } IntegerAttr getI16IntegerAttr(int16_t v) { return getIntegerAttr(getI16Type(), v); } IntegerAttr getIndexAttr(int64_t v) { return getIntegerAttr(getIndexType(), v); }
  IntegerAttr getSI64IntegerAttr(int64_t v) { return getIntegerAttr(getIntegerType(64, true), v); } IntegerAttr getSI32IntegerAttr(int32_t v) { return getIntegerAttr(getIntegerType(32, true), v); } IntegerAttr getUI32IntegerAttr(uint32_t v) { return getIntegerAttr(getIntegerType(32, false), (int64_t)v); }
  FloatAttr getF64FloatAttr(double v) { return getFloatAttr(getF64Type(), v); } FloatAttr getF32FloatAttr(float v) { return FloatAttr::get(getF32Type(), APFloat(v)); }
  ArrayAttr getI64ArrayAttr(ArrayRef<int64_t> v); ArrayAttr getStrArrayAttr(ArrayRef<StringRef> v); TypedAttr getZeroAttr(Type t); TypedAttr getOneAttr(Type t);
  DenseI64ArrayAttr getDenseI64ArrayAttr(ArrayRef<int64_t> v) { return DenseI64ArrayAttr::get(context, v); }
protected:
  MLIRContext *context;
};
class OpBuilder : public Builder {
public:
  struct Listener { virtual ~Listener() = default; virtual void notifyOperationInserted(Operation *) {} virtual void notifyOperationErased(Operation *) {} virtual void notifyOperationModified(Operation *) {} virtual void notifyOperationReplaced(Operation *, ValueRange) {} };
  explicit OpBuilder(MLIRContext *c, Listener *l = nullptr) : Builder(c), listener(l) {}
  explicit OpBuilder(Region *r, Listener *l = nullptr) : OpBuilder(r->getContext(), l) { if (!r->empty()) setInsertionPoint(&r->front(), r->front().begin()); }
  explicit OpBuilder(Region &r, Listener *l = nullptr) : OpBuilder(&r, l) {}
  explicit OpBuilder(Operation *op, Listener *l = nullptr) : OpBuilder(op->getContext(), l) { setInsertionPoint(op); }
  OpBuilder(Block *b, Block::iterator it, Listener *l = nullptr) : OpBuilder(b->getParent()->getContext(), l) { setInsertionPoint(b, it); }
  static OpBuilder atBlockBegin(Block *b, Listener *l = nullptr) { return OpBuilder(b, b->begin(), l); } static OpBuilder atBlockEnd(Block *b, Listener *l = nullptr) { return OpBuilder(b, b->end(), l); } static OpBuilder atBlockTerminator(Block *b, Listener *l = nullptr) { auto *t = b->getTerminator(); return OpBuilder(b, Block::iterator(t), l); }
  class InsertPoint { public: InsertPoint() = default; InsertPoint(Block *b, Block::iterator p) : b(b), p(p) {} bool isSet() const { return b; } Block *getBlock() const { return b; } Block::iterator getPoint() const { return p; } Block *b = nullptr; Block::iterator p; };
  class InsertionGuard { public: InsertionGuard(OpBuilder &b) : b(&b), ip(b.saveInsertionPoint()) {} ~InsertionGuard() { b->restoreInsertionPoint(ip); } InsertionGuard(const InsertionGuard &) = delete; OpBuilder *b; InsertPoint ip; };
  InsertPoint saveInsertionPoint() const { return {block, it}; } void restoreInsertionPoint(InsertPoint p) { block = p.b; it = p.p; } void clearInsertionPoint() { block = nullptr; it = {}; }
  void setInsertionPoint(Block *b, Block::iterator i) { block = b; it = i; } void setInsertionPoint(Operation *op) { setInsertionPoint(op->getBlock(), Block::iterator(op)); }
  void setInsertionPointAfter(Operation *op) { setInsertionPoint(op->getBlock(), std::next(Block::iterator(op))); } void setInsertionPointAfterValue(Value v);
  void setInsertionPointToStart(Block *b) { setInsertionPoint(b, b->begin()); } void setInsertionPointToEnd(Block *b) { setInsertionPoint(b, b->end()); }
  Block *getInsertionBlock() const { return block; } Block *getBlock() const { return block; } Block::iterator getInsertionPoint() const { return it; }
  Block *createBlock(Region *r, Region::iterator before = {}, TypeRange types = {}, ArrayRef<Location> locs = {}); Block *createBlock(Block *before, TypeRange types = {}, ArrayRef<Location> locs = {});
  Operation *insert(Operation *op); Operation *create(const OperationState &s) { return insert(Operation::create(s)); }
  Operation *create(Location l, StringAttr name, ValueRange ops, TypeRange types = {}, ArrayRef<NamedAttribute> a = {}) { return create(OperationState(l, name.getValue(), ops, types, a)); }
  template <typename OpTy, typename... A> OpTy create(Location l, A &&...a) { return OpTy::create(*this, l, std::forward<A>(a)...); }
  LogicalResult tryFold(Operation *op, SmallVectorImpl<Value> &results);
  template <typename OpTy, typename... A> auto createOrFold(Location l, A &&...a) {
    OpTy op = OpTy::create(*this, l, std::forward<A>(a)...);
    if constexpr (OpTy::kSingleResult) {
      SmallVector<Value> r;
      if (succeeded(tryFold(op.getOperation(), r)) && !r.empty()) { eraseCreated(op.getOperation()); return r.front(); }
      return Value(op.getOperation()->getResult(0));
    } else return op;
  }
  void eraseCreated(Operation *op);
  Operation *clone(Operation &op); Operation *clone(Operation &op, IRMapping &m); Operation *cloneWithoutRegions(Operation &op, IRMapping &m); Operation *cloneWithoutRegions(Operation &op); template <typename OpT> OpT cloneWithoutRegions(OpT op) { return llvm::cast<OpT>(cloneWithoutRegions(*op.getOperation())); }
  Listener *getListener() const { return listener; } void setListener(Listener *l) { listener = l; }
  Listener *listener = nullptr;
protected:
  Block *block = nullptr; Block::iterator it;
};
class ImplicitLocOpBuilder : public OpBuilder {
public:
  template <typename... T> ImplicitLocOpBuilder(Location l, T &&...o) : OpBuilder(std::forward<T>(o)...), loc(l) {}
  ImplicitLocOpBuilder(Location l, const OpBuilder &b) : OpBuilder(b), loc(l) {}
  static ImplicitLocOpBuilder atBlockBegin(Location l, Block *b) { return ImplicitLocOpBuilder(l, b, b->begin()); } static ImplicitLocOpBuilder atBlockEnd(Location l, Block *b) { return ImplicitLocOpBuilder(l, b, b->end()); }
  Location getLoc() const { return loc; } void setLoc(Location l) { loc = l; }
  template <typename OpTy, typename... A> OpTy create(A &&...a) { return OpTy::create(*this, loc, std::forward<A>(a)...); }
  template <typename OpTy, typename... A> auto createOrFold(A &&...a) { return OpBuilder::createOrFold<OpTy>(loc, std::forward<A>(a)...); }
private:
  Location loc;
};

//===------------------------------------------------------------------- Matchers
namespace detail {
template <typename M> using has_match_value = decltype(std::declval<M &>().match(std::declval<Value>()));
template <typename M> using has_match_op = decltype(std::declval<M &>().match(std::declval<Operation *>()));
struct constant_op_matcher { bool match(Operation *op) { return op->hasTrait<OpTrait::ConstantLike>(); } };
template <typename A> struct constant_op_binder { A *bind; bool match(Operation *op); };
template <typename OpT> struct op_matcher { bool match(Operation *op) { return llvm::isa<OpT>(op); } };
template <typename OpT, typename... M> struct rec_matcher;
} // namespace detail
inline detail::constant_op_matcher m_Constant() { return {}; }
template <typename A> detail::constant_op_binder<A> m_Constant(A *a) { return {a}; }
template <typename OpT> detail::op_matcher<OpT> m_Op() { return {}; }
template <typename P> bool matchPattern(Operation *op, P &&p) { return const_cast<std::remove_reference_t<P> &>(p).match(op); }
template <typename P> bool matchPattern(Value v, P &&p) {
  assert(v && "null value");
  auto &q = const_cast<std::remove_const_t<std::remove_reference_t<P>> &>(p);
  if constexpr (llvm::is_detected<detail::has_match_op, std::remove_reference_t<decltype(q)>>::value) { if (Operation *op = v.getDefiningOp()) return q.match(op); return false; }
  else return q.match(v);
}
template <typename A> bool detail::constant_op_binder<A>::match(Operation *op) {
  if (!op->hasTrait<OpTrait::ConstantLike>()) return false;
  SmallVector<OpFoldResult, 1> r;
  if (failed(op->fold({}, r)) || r.empty()) return false;
  if (auto a = llvm::dyn_cast_if_present<Attribute>((PointerUnion<Attribute, Value> &)r[0])) if (auto x = llvm::dyn_cast<A>(a)) { if (bind) *bind = x; return true; }
  return false;
}

//===------------------------------------------------------------- printing, parsing
class AsmPrinter {
public:
  explicit AsmPrinter(raw_ostream &os) : os(os) {} virtual ~AsmPrinter() = default;
  raw_ostream &getStream() const { return os; }
  void printType(Type t) { t.print(os); } void printAttribute(Attribute a) { a.print(os); } void printAttributeWithoutType(Attribute a) { a.print(os, true); }
  void printString(StringRef s) { os << '"'; llvm::printEscapedString(s, os); os << '"'; } void printSymbolName(StringRef s) { os << '@' << s; } void printNewline() { os << "\n"; }
  void increaseIndent() {} void decreaseIndent() {} void printFloat(const APFloat &) {}
  template <typename R> void printStrippedAttrOrType(R) {}
protected:
  raw_ostream &os;
};
class OpAsmPrinter : public AsmPrinter {
public:
  using AsmPrinter::AsmPrinter;
  void printOperand(Value v) { v.print(os); } template <typename R> void printOperands(const R &r) { llvm::interleaveComma(r, os, [&](Value v) { printOperand(v); }); }
  void printOptionalAttrDict(ArrayRef<NamedAttribute>, ArrayRef<StringRef> = {}) {} void printOptionalAttrDictWithKeyword(ArrayRef<NamedAttribute>, ArrayRef<StringRef> = {}) {} void printRegion(Region &, bool = true, bool = true, bool = false) {} void printOptionalArrowTypeList(TypeRange) {} template <typename A, typename B> void printFunctionalType(A &&, B &&) {} void printFunctionalType(Operation *) {}
};
class DialectAsmPrinter : public AsmPrinter { public: using AsmPrinter::AsmPrinter; };
template <typename P, typename T, std::enable_if_t<std::is_base_of_v<AsmPrinter, P>> * = nullptr> P &operator<<(P &p, const T &v) {
  if constexpr (std::is_base_of_v<Type, T> || std::is_base_of_v<Attribute, T> || std::is_base_of_v<Value, T>) v.print(p.getStream());
  else p.getStream() << v;
  return p;
}
class OptionalParseResult {
public:
  OptionalParseResult() = default; OptionalParseResult(LogicalResult r) : v(r.succeeded()) {} OptionalParseResult(ParseResult r) : v(r.succeeded()) {} OptionalParseResult(const InFlightDiagnostic &) : v(false) {} OptionalParseResult(std::nullopt_t) {}
  bool has_value() const { return v.has_value(); } ParseResult value() const { return success(*v); } ParseResult operator*() const { return value(); }
private:
  std::optional<bool> v;
};
class AsmParser {
public:
  AsmParser(StringRef text, MLIRContext *c, size_t pos = 0) : text(text), c(c), pos(pos) {} virtual ~AsmParser() = default;
  MLIRContext *getContext() const { return c; } Builder &getBuilder() { if (!bld) bld = std::make_shared<Builder>(c); return *bld; }
  SMLoc getCurrentLocation() { return SMLoc::getFromPointer(text.data() + pos); } SMLoc getNameLoc() const { return SMLoc::getFromPointer(text.data()); } Location getEncodedSourceLoc(SMLoc) { return UnknownLoc::get(c); }
  InFlightDiagnostic emitError(SMLoc, const Twine &m = "") { return InFlightDiagnostic(c, DiagnosticSeverity::Error) << m.str(); }
  void skip() { while (pos < text.size() && isspace(text[pos])) pos++; }
  bool eat(StringRef t) { skip(); if (text.substr(pos).starts_with(t)) { pos += t.size(); return true; } return false; }
  ParseResult need(StringRef t) { return success(eat(t)); }
#define MINI_TOKEN(N, T) ParseResult parse##N() { return need(T); } ParseResult parseOptional##N() { return need(T); }
  MINI_TOKEN(Less, "<") MINI_TOKEN(Greater, ">") MINI_TOKEN(LParen, "(") MINI_TOKEN(RParen, ")") MINI_TOKEN(LSquare, "[") MINI_TOKEN(RSquare, "]") MINI_TOKEN(LBrace, "{") MINI_TOKEN(RBrace, "}") MINI_TOKEN(Comma, ",") MINI_TOKEN(Colon, ":") MINI_TOKEN(Equal, "=") MINI_TOKEN(Arrow, "->") MINI_TOKEN(Question, "?") MINI_TOKEN(Star, "*")
  ParseResult parseKeyword(StringRef *kw); ParseResult parseKeyword(StringRef kw, const Twine & = "") { StringRef k; size_t p = pos; if (!parseKeyword(&k) && k == kw) return success(); pos = p; return failure(); } ParseResult parseOptionalKeyword(StringRef kw) { return parseKeyword(kw); } ParseResult parseOptionalKeyword(StringRef *kw) { return parseKeyword(kw); }
  ParseResult parseString(std::string *s); ParseResult parseOptionalString(std::string *s) { return parseString(s); }
  template <typename I> ParseResult parseInteger(I &r) { skip(); size_t e = pos; if (e < text.size() && text[e] == '-') e++; while (e < text.size() && isdigit(text[e])) e++; long long v; if (text.slice(pos, e).getAsInteger(10, v)) return failure(); pos = e; r = (I)v; return success(); }
  template <typename I> OptionalParseResult parseOptionalInteger(I &r) { size_t p = pos; if (parseInteger(r)) { pos = p; return std::nullopt; } return success(); }
  ParseResult parseType(Type &t); ParseResult parseAttribute(Attribute &a); template <typename T> ParseResult parseType(T &t) { Type x; if (parseType(x)) return failure(); t = llvm::dyn_cast<T>(x); return success((bool)t); } template <typename T> ParseResult parseAttribute(T &t) { Attribute x; if (parseAttribute(x)) return failure(); t = llvm::dyn_cast<T>(x); return success((bool)t); }
  template <typename T> ParseResult parseAttribute(T &t, Type) { return parseAttribute(t); } template <typename T> ParseResult parseAttribute(T &, StringRef, NamedAttrList &) { return failure(); } template <typename T> ParseResult parseAttribute(T &, Type, StringRef, NamedAttrList &) { return failure(); }
  ParseResult parseDimensionList(SmallVectorImpl<int64_t> &d, bool allowDynamic = true, bool withTrailingX = true);
  ParseResult parseTypeList(SmallVectorImpl<Type> &r) { do { Type t; if (parseType(t)) return failure(); r.push_back(t); } while (eat(",")); return success(); }
  enum class Delimiter { None, Paren, Square, LessGreater, Braces, OptionalParen, OptionalSquare };
  ParseResult parseCommaSeparatedList(Delimiter d, function_ref<ParseResult()> f, StringRef = ""); ParseResult parseCommaSeparatedList(function_ref<ParseResult()> f) { return parseCommaSeparatedList(Delimiter::None, f); }
  template <typename T, typename... A> T getChecked(SMLoc, A &&...a) { return T::getChecked([&] { return emitError({}); }, std::forward<A>(a)...); }
  template <typename T, typename... A> T getChecked(A &&...a) { return T::get(std::forward<A>(a)...); }
  StringRef text; MLIRContext *c; size_t pos; std::shared_ptr<Builder> bld;
};
class DialectAsmParser : public AsmParser { public: using AsmParser::AsmParser; };
class OpAsmParser : public AsmParser {
public:
  using AsmParser::AsmParser;
  struct UnresolvedOperand {}; struct Argument { UnresolvedOperand ssaName; Type type; };
  template <typename... A> ParseResult parseOperandList(A &&...) { return failure(); } template <typename... A> ParseResult parseOperand(A &&...) { return failure(); } template <typename... A> ParseResult parseOptionalAttrDict(A &&...) { return failure(); } template <typename... A> ParseResult resolveOperands(A &&...) { return failure(); } template <typename... A> ParseResult resolveOperand(A &&...) { return failure(); }
  ParseResult parseRegion(Region &, ArrayRef<Argument> = {}, ArrayRef<Type> = {}, bool = false) { return failure(); } ParseResult parseRegion(Region &, ArrayRef<Argument>, bool) { return failure(); } ParseResult parseOptionalRegion(Region &, ArrayRef<Argument> = {}) { return failure(); } template <typename... A> ParseResult parseOptionalArrowTypeList(A &&...) { return failure(); } template <typename... A> ParseResult parseSymbolName(A &&...) { return failure(); } template <typename... A> ParseResult parseColonType(A &&...) { return failure(); } template <typename... A> ParseResult parseColonTypeList(A &&...) { return failure(); } template <typename... A> ParseResult parseAffineMap(A &&...) { return failure(); } template <typename... A> ParseResult parseArrowTypeList(A &&...) { return failure(); } template <typename... A> ParseResult addTypeToList(A &&...) { return failure(); } template <typename... A> ParseResult addTypesToList(A &&...) { return failure(); }
};
class OpAsmOpInterface : public OpState { public: using OpState::OpState; };
using OpAsmSetValueNameFn = function_ref<void(Value, StringRef)>;

//===---------------------------------------------------------------- builtin & func ops
#define MINI_FOREIGN_OP(X, NAME, SINGLE)                                                                               \
  using OpBase<X>::OpBase;                                                                                             \
  static StringRef getOperationName() { return NAME; }                                                                 \
  static constexpr bool kSingleResult = SINGLE;                                                                        \
  static std::set<TypeID> miniTraits();                                                                                \
  static void miniRegister(OpInfo &i);
class ModuleOp : public OpBase<ModuleOp> {
public:
  MINI_FOREIGN_OP(ModuleOp, "builtin.module", false)
  static ModuleOp create(Location l, std::optional<StringRef> n = std::nullopt); static ModuleOp create(OpBuilder &b, Location l);
  Block *getBody() { return &state->getRegion(0).front(); } Region &getBodyRegion() { return state->getRegion(0); } Region &getRegion() { return state->getRegion(0); }
  template <typename T> auto getOps() { return getBody()->getOps<T>(); } auto getOps() { return llvm::make_range(getBody()->begin(), getBody()->end()); }
  Operation *lookupSymbol(StringRef n) { return SymbolTable::lookupSymbolIn(state, n); } template <typename T, typename N> T lookupSymbol(N n) { return llvm::dyn_cast_or_null<T>(SymbolTable::lookupSymbolIn(state, n)); }
  void push_back(Operation *o) { getBody()->push_back(o); } void insert(Block::iterator it, Operation *o) { getBody()->insertOp(it, o); } void insert(Operation *p, Operation *o) { insert(Block::iterator(p), o); }
  auto begin() { return getBody()->begin(); } auto end() { return getBody()->end(); }
};
template <typename T> class OwningOpRef {
public:
  OwningOpRef(std::nullptr_t = nullptr) {} OwningOpRef(T o) : op(o) {} OwningOpRef(OwningOpRef &&o) : op(o.release()) {} ~OwningOpRef() { if (op) op->erase(); } OwningOpRef &operator=(OwningOpRef &&o) { if (op) op->erase(); op = o.release(); return *this; }
  T get() const { return op; } T operator*() const { return op; } T *operator->() { return &op; } explicit operator bool() const { return const_cast<T &>(op).getOperation(); } T release() { T o = op; op = T(); return o; }
private:
  T op;
};
class UnrealizedConversionCastOp : public OpBase<UnrealizedConversionCastOp> {
public:
  MINI_FOREIGN_OP(UnrealizedConversionCastOp, "builtin.unrealized_conversion_cast", false)
  static UnrealizedConversionCastOp create(OpBuilder &b, Location l, TypeRange t, ValueRange v) { return llvm::cast<UnrealizedConversionCastOp>(b.create(OperationState(l, getOperationName(), v, t))); }
  static UnrealizedConversionCastOp create(OpBuilder &b, Location l, Type t, ValueRange v) { return create(b, l, TypeRange(t), v); }
  ValueRange getInputs() { return state->getOperands(); } ResultRange getOutputs() { return state->getResults(); } ResultRange getResults() { return state->getResults(); } OpResult getResult(unsigned i) { return state->getResult(i); }
};
class FunctionOpInterface : public OpState {
public:
  using OpState::OpState;
  static bool classof(Operation *op);
  FunctionType getFunctionType() { return llvm::cast<FunctionType>(llvm::cast<TypeAttr>(state->getAttr("function_type")).getValue()); } void setFunctionType(Type t) { state->setAttr("function_type", TypeAttr::get(t)); } void setType(Type t) { setFunctionType(t); }
  TypeAttr getFunctionTypeAttr() { return llvm::cast<TypeAttr>(state->getAttr("function_type")); } void setFunctionTypeAttr(TypeAttr t) { state->setAttr("function_type", t); }
  ArrayRef<Type> getArgumentTypes() { return getFunctionType().getInputs(); } ArrayRef<Type> getResultTypes() { return getFunctionType().getResults(); } unsigned getNumArguments() { return getFunctionType().getNumInputs(); } unsigned getNumResults() { return getFunctionType().getNumResults(); }
  Region &getFunctionBody() { return state->getRegion(0); } Region &getBody() { return state->getRegion(0); } Region *getCallableRegion() { return isExternal() ? nullptr : &getBody(); } bool isExternal() { return getBody().empty(); } bool empty() { return isExternal(); } bool isDeclaration() { return isExternal(); }
  Block &front() { return getBody().front(); } auto begin() { return getBody().begin(); } auto end() { return getBody().end(); } MutableArrayRef<BlockArgument> getArguments() { return getBody().getArguments(); } BlockArgument getArgument(unsigned i) { return getArguments()[i]; } auto &getBlocks() { return getBody().getBlocks(); }
  Block *addEntryBlock(); Block *addBlock();
  template <typename T> auto getOps() { return getBody().getOps<T>(); }
  StringRef getName() { return state->getAttrOfType<StringAttr>("sym_name").getValue(); } StringRef getSymName() { return getName(); } StringAttr getNameAttr() { return state->getAttrOfType<StringAttr>("sym_name"); } StringAttr getSymNameAttr() { return getNameAttr(); } void setName(StringRef n) { state->setAttr("sym_name", StringAttr::get(getContext(), n)); } void setName(StringAttr n) { state->setAttr("sym_name", n); } void setSymName(StringRef n) { setName(n); }
  bool isPrivate() { auto a = state->getAttrOfType<StringAttr>("sym_visibility"); return a && a.getValue() == "private"; } bool isPublic() { auto a = state->getAttrOfType<StringAttr>("sym_visibility"); return !a || a.getValue() == "public"; } void setPrivate() { setVisibility(SymbolTable::Visibility::Private); } void setPublic() { setVisibility(SymbolTable::Visibility::Public); } void setVisibility(SymbolTable::Visibility v) { SymbolTable::setSymbolVisibility(state, v); } SymbolTable::Visibility getVisibility() { return SymbolTable::getSymbolVisibility(state); }
  ArrayAttr getArgAttrsAttr() { return state->getAttrOfType<ArrayAttr>("arg_attrs"); } ArrayAttr getAllArgAttrs() { return getArgAttrsAttr(); } ArrayAttr getResAttrsAttr() { return state->getAttrOfType<ArrayAttr>("res_attrs"); }
  DictionaryAttr getArgAttrDict(unsigned i); ArrayRef<NamedAttribute> getArgAttrs(unsigned i); Attribute getArgAttr(unsigned i, StringRef n); template <typename A> A getArgAttrOfType(unsigned i, StringRef n) { return llvm::dyn_cast_or_null<A>(getArgAttr(i, n)); } void setArgAttr(unsigned i, StringRef n, Attribute a); void setArgAttrs(unsigned i, ArrayRef<NamedAttribute> a); Attribute removeArgAttr(unsigned i, StringRef n); void setAllArgAttrs(ArrayRef<DictionaryAttr> a); void setAllArgAttrs(ArrayAttr a) { state->setAttr("arg_attrs", a); } ArrayRef<NamedAttribute> getResultAttrs(unsigned) { return {}; } void getAllArgAttrs(SmallVectorImpl<DictionaryAttr> &r); void removeArgAttrsAttr() { state->removeAttr("arg_attrs"); }
  void setAllResultAttrs(ArrayRef<DictionaryAttr>) {} LogicalResult eraseArgument(unsigned i) { llvm::BitVector b(getNumArguments()); b.set(i); return eraseArguments(b); } LogicalResult eraseArguments(const llvm::BitVector &b); LogicalResult eraseResults(const llvm::BitVector &b); LogicalResult eraseResult(unsigned i) { llvm::BitVector b(getNumResults()); b.set(i); return eraseResults(b); } LogicalResult insertArgument(unsigned i, Type t, DictionaryAttr a, Location l);
};
namespace func {
class FuncDialect : public Dialect { public: FuncDialect(MLIRContext *c); static StringRef getDialectNamespace() { return "func"; } };
class FuncOp : public FunctionOpInterface {
public:
  using FunctionOpInterface::FunctionOpInterface;
  static StringRef getOperationName() { return "func.func"; } static constexpr bool kSingleResult = false;
  static bool classof(Operation *op) { return op->getName().getTypeID() == TypeID::get<FuncOp>(); } static std::set<TypeID> miniTraits() { return {TypeID::get<OpTrait::IsIsolatedFromAbove>()}; } static void miniRegister(OpInfo &i) { i.traits = miniTraits(); i.nRegions = 1; }
  static FuncOp create(Location l, StringRef n, FunctionType t, ArrayRef<NamedAttribute> a = {}); static FuncOp create(OpBuilder &b, Location l, StringRef n, FunctionType t, ArrayRef<NamedAttribute> a = {});
  FuncOp clone() { return llvm::cast<FuncOp>(state->clone()); } FuncOp clone(IRMapping &m) { return llvm::cast<FuncOp>(state->clone(m)); }
};
class CallOp : public OpBase<CallOp> {
public:
  MINI_FOREIGN_OP(CallOp, "func.call", false)
  static CallOp create(OpBuilder &b, Location l, FuncOp f, ValueRange v = {}); static CallOp create(OpBuilder &b, Location l, StringRef n, TypeRange t, ValueRange v = {}); static CallOp create(OpBuilder &b, Location l, StringAttr n, TypeRange t, ValueRange v = {}) { return create(b, l, n.getValue(), t, v); } static CallOp create(OpBuilder &b, Location l, SymbolRefAttr n, TypeRange t, ValueRange v = {}) { return create(b, l, n.getRootReference().getValue(), t, v); } static CallOp create(OpBuilder &b, Location l, TypeRange t, SymbolRefAttr n, ValueRange v = {}) { return create(b, l, n, t, v); } static CallOp create(OpBuilder &b, Location l, TypeRange t, StringRef n, ValueRange v = {}) { return create(b, l, n, t, v); }
  StringRef getCallee() { return getCalleeAttr().getValue(); } FlatSymbolRefAttr getCalleeAttr() { return state->getAttrOfType<FlatSymbolRefAttr>("callee"); } void setCallee(StringRef n) { state->setAttr("callee", SymbolRefAttr::get(getContext(), n)); } OperandRange getArgOperands() { return state->getOperands(); } ResultRange getResults() { return state->getResults(); } OpResult getResult(unsigned i) { return state->getResult(i); } OperandRange operands() { return state->getOperands(); } FunctionType getCalleeType() { return FunctionType::get(getContext(), TypeRange(state->getOperands()), state->getResultTypes()); }
  template <typename R> struct GA { GA(R v, DictionaryAttr a = {}) : v(v), a(a) {} template <typename O> GA(R v, O op) : v(v), a(op->getAttrDictionary()) {} R getOperands() { return v; } R v; DictionaryAttr a; }; using Adaptor = GA<ValueRange>;
};
class CallIndirectOp : public OpBase<CallIndirectOp> {
public:
  MINI_FOREIGN_OP(CallIndirectOp, "func.call_indirect", false)
  Value getCallee() { return state->getOperand(0); } OperandRange getArgOperands() { return state->getOperands().drop_front(); } OperandRange getCalleeOperands() { return getArgOperands(); } ResultRange getResults() { return state->getResults(); }
};
class ConstantOp : public OpBase<ConstantOp> { public: MINI_FOREIGN_OP(ConstantOp, "func.constant", true) StringRef getValue() { return state->getAttrOfType<FlatSymbolRefAttr>("value").getValue(); } Value getResult() { return state->getResult(0); } };
class ReturnOp : public OpBase<ReturnOp> {
public:
  MINI_FOREIGN_OP(ReturnOp, "func.return", false)
  static ReturnOp create(OpBuilder &b, Location l, ValueRange v = {}) { return llvm::cast<ReturnOp>(b.create(OperationState(l, getOperationName(), v, TypeRange()))); } static ReturnOp create(OpBuilder &b, Location l, TypeRange, ValueRange v) { return create(b, l, v); }
  OperandRange operands() { return state->getOperands(); } MutableOperandRange getOperandsMutable() { return MutableOperandRange(state); }
  template <typename R> struct GA { GA(R v, DictionaryAttr a = {}) : v(v), a(a) {} template <typename O> GA(R v, O op) : v(v), a(op->getAttrDictionary()) {} R getOperands() { return v; } R v; DictionaryAttr a; }; using Adaptor = GA<ValueRange>;
};
} // namespace func
class VerifiableTensorEncoding : public Attribute { public: using Attribute::Attribute; static bool classof(Attribute) { return false; } LogicalResult verifyEncoding(ArrayRef<int64_t>, Type, function_ref<InFlightDiagnostic()>) { return success(); } };
namespace sparse_tensor { class SparseTensorEncodingAttr : public Attribute { public: using Attribute::Attribute; static bool classof(Attribute) { return false; } }; }
namespace arith { class ArithDialect : public Dialect { public: ArithDialect(MLIRContext *c); static StringRef getDialectNamespace() { return "arith"; } }; }
LogicalResult verifyCompatibleShape(ArrayRef<int64_t>, ArrayRef<int64_t>); std::optional<int64_t> getConstantIntValue(OpFoldResult); OpFoldResult getAsOpFoldResult(Value); SmallVector<OpFoldResult> getAsOpFoldResult(ValueRange); OpFoldResult getAsIndexOpFoldResult(MLIRContext *, int64_t);
} // namespace mlir
namespace llvm {
template <typename T> struct DenseMapInfo<T, std::enable_if_t<std::is_base_of<mlir::OpState, T>::value>> {
  static T getEmptyKey() { return T((mlir::Operation *)DenseMapInfo<void *>::getEmptyKey()); } static T getTombstoneKey() { return T((mlir::Operation *)DenseMapInfo<void *>::getTombstoneKey()); }
  static unsigned getHashValue(T v) { return DenseMapInfo<const void *>::getHashValue(v.getOperation()); } static bool isEqual(T a, T b) { return a.getOperation() == b.getOperation(); }
};
template <> struct DenseMapInfo<mlir::OperationName> {
  static mlir::OperationName getEmptyKey() { return mlir::OperationName((mlir::OpInfo *)DenseMapInfo<void *>::getEmptyKey()); } static mlir::OperationName getTombstoneKey() { return mlir::OperationName((mlir::OpInfo *)DenseMapInfo<void *>::getTombstoneKey()); }
  static unsigned getHashValue(mlir::OperationName v) { return DenseMapInfo<const void *>::getHashValue(v.info); } static bool isEqual(mlir::OperationName a, mlir::OperationName b) { return a == b; }
};
} // namespace llvm
#endif
