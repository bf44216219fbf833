// Runtime of the stand-in: storage, operations, symbols, text forms.
#include "core.h"
using namespace mlir;
std::set<mlir::Operation *> &mini::live() { static auto *s = new std::set<mlir::Operation *>; return *s; }
void mini::unreachable(const std::string &m, const char *f, int l) { unreachable(m.c_str(), f, l); }
void mini::unreachable(const char *msg, const char *file, int line) {
  std::string f = file; auto p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1);
  throw mini::Crash(f + ": " + msg);
}
//===------------------------------------------------------------ uniquing & text
namespace mlir {
TypeStorage *lookupType(MLIRContext *c, const std::string &k) { auto it = c->types.find(k); return it == c->types.end() ? nullptr : it->second.get(); }
AttributeStorage *lookupAttr(MLIRContext *c, const std::string &k) { auto it = c->attrs.find(k); return it == c->attrs.end() ? nullptr : it->second.get(); }
TypeStorage *internType(MLIRContext *c, TypeID id, std::string k, TypeStorage *s) { s->id = id; s->ctx = c; s->key = k; c->types[k].reset(s); return s; }
AttributeStorage *internAttr(MLIRContext *c, TypeID id, std::string k, AttributeStorage *s) { s->id = id; s->ctx = c; s->key = k; c->attrs[k].reset(s); return s; }
std::string str(Type t) { return t.getImpl()->key; }
std::string str(Attribute a) { return a.getImpl()->key; }
} // namespace mlir
#define TY(X, S, KEY, FILL) { std::string k = KEY; if (auto *s = lookupType(ctx, k)) return X(s); auto *x = new S(); FILL; return X(internType(ctx, TypeID::get<X>(), k, x)); }
#define AT(X, S, KEY, FILL) { std::string k = KEY; if (auto *s = lookupAttr(ctx, k)) return X(s); auto *x = new S(); FILL; return X(internAttr(ctx, TypeID::get<X>(), k, x)); }
void Type::print(raw_ostream &os) const {
  if (!impl) { os << "<<NULL TYPE>>"; return; }
  if (StringRef(impl->key).starts_with("!torch.")) { os << "!torch."; DialectAsmPrinter p(os); getDialect().printType(*this, p); return; }
  if (auto f = llvm::dyn_cast<FunctionType>(*this)) { os << "("; llvm::interleaveComma(f.getInputs(), os, [&](Type t) { t.print(os); }); os << ") -> ("; llvm::interleaveComma(f.getResults(), os, [&](Type t) { t.print(os); }); os << ")"; return; }
  os << impl->key;
}
void Type::dump() const { print(llvm::errs()); }
void Attribute::print(raw_ostream &os, bool) const { if (!impl) os << "<<NULL ATTRIBUTE>>"; else if (auto t = llvm::dyn_cast<TypeAttr>(*this)) { os << "type "; t.getValue().print(os); } else os << impl->key; }
void Attribute::dump() const { print(llvm::errs()); }
Dialect &Type::getDialect() const { auto *d = impl->ctx->getLoadedDialect(StringRef(impl->key).starts_with("!torch.") ? "torch" : "builtin"); return *d; }
#define INT(t) llvm::dyn_cast<IntegerType>(t)
bool Type::isInteger() const { return (bool)INT(*this); } bool Type::isInteger(unsigned w) const { auto i = INT(*this); return i && i.getWidth() == w; }
bool Type::isSignlessInteger() const { auto i = INT(*this); return i && i.isSignless(); } bool Type::isSignlessInteger(unsigned w) const { return isSignlessInteger() && INT(*this).getWidth() == w; }
bool Type::isSignedInteger() const { auto i = INT(*this); return i && i.isSigned(); } bool Type::isSignedInteger(unsigned w) const { return isSignedInteger() && INT(*this).getWidth() == w; }
bool Type::isUnsignedInteger() const { auto i = INT(*this); return i && i.isUnsigned(); } bool Type::isUnsignedInteger(unsigned w) const { return isUnsignedInteger() && INT(*this).getWidth() == w; }
bool Type::isIndex() const { return llvm::isa<IndexType>(*this); } bool Type::isF16() const { return llvm::isa<Float16Type>(*this); } bool Type::isBF16() const { return llvm::isa<BFloat16Type>(*this); } bool Type::isF32() const { return llvm::isa<Float32Type>(*this); } bool Type::isF64() const { return llvm::isa<Float64Type>(*this); } bool Type::isFloat() const { return llvm::isa<FloatType>(*this); }
bool Type::isIntOrFloat() const { return isInteger() || isFloat(); } bool Type::isIntOrIndex() const { return isInteger() || isIndex(); } bool Type::isIntOrIndexOrFloat() const { return isIntOrFloat() || isIndex(); } bool Type::isSignlessIntOrIndex() const { return isSignlessInteger() || isIndex(); }
unsigned Type::getIntOrFloatBitWidth() const { assert(isIntOrFloat() && "only integers and floats have a bitwidth"); if (auto i = INT(*this)) return i.getWidth(); return llvm::cast<FloatType>(*this).getWidth(); }
IntegerType IntegerType::get(MLIRContext *ctx, unsigned w, SignednessSemantics s) TY(IntegerType, IntegerTypeStorage, (s == Signless ? "i" : s == Signed ? "si" : "ui") + std::to_string(w), (x->width = w, x->sign = s))
IndexType IndexType::get(MLIRContext *ctx) TY(IndexType, TypeStorage, "index", )
NoneType NoneType::get(MLIRContext *ctx) TY(NoneType, TypeStorage, "none", )
#define MINI_FLOAT(X, txt, s, w) X X::get(MLIRContext *ctx) TY(X, FloatTypeStorage, txt, (x->sem = &APFloat::s(), x->width = w))
MINI_FLOATS
#undef MINI_FLOAT
bool FloatType::classof(Type t) { TypeID i = t.getTypeID();
#define MINI_FLOAT(X, txt, s, w) if (i == TypeID::get<X>()) return true;
  MINI_FLOATS
#undef MINI_FLOAT
  return false; }
FloatType FloatType::getBF16(MLIRContext *c) { return BFloat16Type::get(c); } FloatType FloatType::getF16(MLIRContext *c) { return Float16Type::get(c); } FloatType FloatType::getF32(MLIRContext *c) { return Float32Type::get(c); } FloatType FloatType::getF64(MLIRContext *c) { return Float64Type::get(c); }
ComplexType ComplexType::get(Type e) { auto *ctx = e.getContext(); TY(ComplexType, ContainedStorage, "complex<" + str(e) + ">", x->types = {e}) }
template <typename R> static std::string join(R &&r) { std::string s; for (Type t : r) { if (!s.empty()) s += ", "; s += str(t); } return s; }
FunctionType FunctionType::get(MLIRContext *ctx, TypeRange i, TypeRange o) TY(FunctionType, FunctionTypeStorage, "(" + join(i) + ") -> (" + join(o) + ")", (x->ins.assign(i.begin(), i.end()), x->outs.assign(o.begin(), o.end())))
TupleType TupleType::get(MLIRContext *ctx, TypeRange t) TY(TupleType, ContainedStorage, "tuple<" + join(t) + ">", x->types.assign(t.begin(), t.end()))
bool ShapedType::classof(Type t) { return llvm::isa<RankedTensorType, UnrankedTensorType>(t); }
RankedTensorType RankedTensorType::get(ArrayRef<int64_t> sh, Type e, Attribute enc) { auto *ctx = e.getContext(); std::string key = "tensor<"; for (int64_t d : sh) { if (d < 0 && d != ShapedType::kDynamic) mini::unreachable("invalid tensor dimension size", "", 0); key += (d == ShapedType::kDynamic ? std::string("?") : std::to_string(d)) + "x"; } key += str(e); if (enc) key += ", " + str(enc); TY(RankedTensorType, ShapedStorage, key + ">", (x->shape = sh.vec(), x->elt = e, x->enc = enc, x->ranked = true)) }
UnrankedTensorType UnrankedTensorType::get(Type e) { auto *ctx = e.getContext(); TY(UnrankedTensorType, ShapedStorage, "tensor<*x" + str(e) + ">", (x->elt = e, x->ranked = false)) }
ShapedType ShapedType::clone(ArrayRef<int64_t> s, Type e) const { return RankedTensorType::get(s, e); } ShapedType ShapedType::clone(ArrayRef<int64_t> s) const { return clone(s, getElementType()); } ShapedType ShapedType::clone(Type e) const { return hasRank() ? clone(getShape(), e) : ShapedType(UnrankedTensorType::get(e).getImpl()); }

static std::string quote(StringRef s) { std::string r; llvm::raw_string_ostream os(r); os << '"'; llvm::printEscapedString(s, os); os << '"'; return os.str(); }
Location UnknownLoc::get(MLIRContext *ctx) { auto f = [&]() -> UnknownLoc AT(UnknownLoc, AttributeStorage, "loc(unknown)", ); return Location(Attribute(f())); }
StringAttr StringAttr::get(MLIRContext *ctx, const Twine &t) { std::string v = t.str(); AT(StringAttr, StringAttrStorage, quote(v), (x->value = v, x->type = NoneType::get(ctx))) }
StringAttr StringAttr::get(const Twine &t, Type ty) { auto *ctx = ty.getContext(); std::string v = t.str(); AT(StringAttr, StringAttrStorage, quote(v) + " : " + mlir::str(ty), (x->value = v, x->type = ty)) }
bool TypedAttr::classof(Attribute a) { return llvm::isa<IntegerAttr, FloatAttr, ElementsAttr, StringAttr>(a); }
Type TypedAttr::getType() const { Attribute a = *this; if (auto i = llvm::dyn_cast<IntegerAttr>(a)) return i.getType(); if (auto i = llvm::dyn_cast<FloatAttr>(a)) return i.getType(); if (auto i = llvm::dyn_cast<StringAttr>(a)) return i.st()->type; if (auto d = llvm::dyn_cast<DenseElementsAttr>(a)) return d.st()->type; return static_cast<const ResourceStorage *>(impl)->type; }
static std::string intKey(Type t, const APInt &v) { llvm::SmallString<40> s; if (t.isSignlessInteger(1)) return v.getBoolValue() ? "true" : "false"; v.toString(s, 10, !t.isUnsignedInteger()); return (s + " : " + str(t)).str(); }
IntegerAttr IntegerAttr::get(Type t, const APInt &v) { auto *ctx = t.getContext(); assert((t.isIndex() ? v.getBitWidth() == 64 : v.getBitWidth() == t.getIntOrFloatBitWidth()) && "integer attribute of another width than its type"); AT(IntegerAttr, IntegerAttrStorage, intKey(t, v), (x->type = t, x->value = v)) }
IntegerAttr IntegerAttr::get(Type t, int64_t v) { if (t.isIndex()) return get(t, APInt(64, v)); auto i = llvm::cast<IntegerType>(t); return get(t, APInt(i.getWidth(), v, i.isSignless() || i.isSigned())); }
IntegerAttr IntegerAttr::get(MLIRContext *c, const APSInt &v) { return get(IntegerType::get(c, v.getBitWidth(), v.isSigned() ? IntegerType::Signed : IntegerType::Unsigned), v); }
int64_t IntegerAttr::getInt() const { assert((getType().isIndex() || getType().isSignlessInteger()) && "must be signless integer"); return getValue().getSExtValue(); }
int64_t IntegerAttr::getSInt() const { assert(getType().isSignedInteger() && "must be signed integer"); return getValue().getSExtValue(); }
uint64_t IntegerAttr::getUInt() const { assert(getType().isUnsignedInteger() && "must be unsigned integer"); return getValue().getZExtValue(); }
APSInt IntegerAttr::getAPSInt() const { return APSInt(getValue(), getType().isUnsignedInteger()); }
BoolAttr BoolAttr::get(MLIRContext *c, bool b) { return BoolAttr(IntegerAttr::get(IntegerType::get(c, 1), APInt(1, b)).getImpl()); }
static std::string hex(const APInt &v) { llvm::SmallString<40> s; v.toString(s, 16, false); return s.str().str(); }
FloatAttr FloatAttr::get(Type t, const APFloat &v) { auto *ctx = t.getContext(); assert(&llvm::cast<FloatType>(t).getFloatSemantics() == &v.getSemantics() && "FloatAttr type doesn't match the type implied by its value"); std::string k = "0fx" + hex(v.bitcastToAPInt()) + " : " + str(t); if (auto *s = lookupAttr(ctx, k)) return FloatAttr(s); auto *x = new FloatAttrStorage(v); x->type = t; return FloatAttr(internAttr(ctx, TypeID::get<FloatAttr>(), k, x)); }
FloatAttr FloatAttr::get(Type t, double d) { APFloat f(d); bool lost; if (!t.isF64()) f.convert(llvm::cast<FloatType>(t).getFloatSemantics(), APFloat::rmNearestTiesToEven, &lost); return get(t, f); }
double FloatAttr::getValueAsDouble(APFloat v) { bool lost; if (&v.getSemantics() != &APFloat::IEEEdouble()) v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost); return v.convertToDouble(); }
UnitAttr UnitAttr::get(MLIRContext *ctx) AT(UnitAttr, AttributeStorage, "unit", )
TypeAttr TypeAttr::get(Type t) { auto *ctx = t.getContext(); AT(TypeAttr, TypeAttrStorage, "type " + str(t), x->type = t) }
ArrayAttr ArrayAttr::get(MLIRContext *ctx, ArrayRef<Attribute> v) { std::string key = "["; for (auto a : v) { if (key.size() > 1) key += ", "; key += str(a); } AT(ArrayAttr, ArrayAttrStorage, key + "]", x->v = v.vec()) }
NamedAttribute::NamedAttribute(StringRef name, Attribute v) : n(StringAttr::get(v.getContext(), name)), v(v) {}
DictionaryAttr DictionaryAttr::get(MLIRContext *ctx, ArrayRef<NamedAttribute> v) { std::vector<NamedAttribute> w(v.begin(), v.end()); std::sort(w.begin(), w.end()); std::string key = "{"; for (auto a : w) { if (key.size() > 1) key += ", "; key += quote(a.getName().getValue()) + " = " + str(a.getValue()); } AT(DictionaryAttr, DictStorage, key + "}", x->v = w) }
Attribute DictionaryAttr::get(StringRef n) const { if (!impl) return {}; for (auto &a : getValue()) if (a.getName().getValue() == n) return a.getValue(); return {}; }
std::optional<NamedAttribute> DictionaryAttr::getNamed(StringRef n) const { for (auto &a : getValue()) if (a.getName().getValue() == n) return a; return std::nullopt; }
SymbolRefAttr SymbolRefAttr::get(StringAttr root, ArrayRef<FlatSymbolRefAttr> nested) { auto *ctx = root.getContext(); std::string key = "@" + root.str(); for (auto n : nested) key += "::@" + n.getValue().str(); AT(SymbolRefAttr, SymbolRefStorage, key, (x->root = root, x->nested = nested.vec())) }
FlatSymbolRefAttr SymbolRefAttr::get(StringAttr s) { return FlatSymbolRefAttr(get(s, {}).getImpl()); } FlatSymbolRefAttr SymbolRefAttr::get(MLIRContext *c, StringRef s) { return get(StringAttr::get(c, s)); } FlatSymbolRefAttr SymbolRefAttr::get(Operation *op) { return get(op->getAttrOfType<StringAttr>("sym_name")); }
StringAttr SymbolRefAttr::getLeafReference() const { return st()->nested.empty() ? st()->root : st()->nested.back().getAttr(); }
AffineMapAttr AffineMapAttr::get(MLIRContext *ctx, StringRef t, unsigned d, unsigned s, unsigned r) AT(AffineMapAttr, AffineMapAttr::S, "affine_map<" + t.str() + ">", (x->m.text = t.str(), x->m.dims = d, x->m.syms = s, x->m.results = r))
DenseI64ArrayAttr DenseI64ArrayAttr::get(MLIRContext *ctx, ArrayRef<int64_t> v) { std::string key = "array<i64"; for (auto x : v) key += ", " + std::to_string(x); AT(DenseI64ArrayAttr, DenseI64ArrayAttr::S, key + ">", x->v = v.vec()) }
bool ElementsAttr::classof(Attribute a) { return llvm::isa<DenseElementsAttr, DenseResourceElementsAttr>(a); }
static unsigned bytesOf(Type e) { return (e.getIntOrFloatBitWidth() + 7) / 8; }
DenseElementsAttr DenseElementsAttr::getBits(ShapedType t, std::vector<APInt> b, bool splat) {
  assert(t.hasStaticShape() && "type must have static shape"); auto *ctx = t.getContext(); if (!splat && b.size() >= 1 && llvm::all_equal(b)) { splat = true; b.resize(1); }
  std::string key = splat ? "splat<" : "dense<"; bool f = true; for (auto &x : b) { if (!f) key += ","; f = false; key += hex(x); } AT(DenseElementsAttr, DenseStorage, key + "> : " + str(t), (x->type = t, x->bits = b, x->splat = splat))
}
DenseElementsAttr DenseElementsAttr::checkedBits(ShapedType t, std::vector<APInt> b) { assert((b.size() == 1 || (int64_t)b.size() == t.getNumElements()) && "expected as many values as the type has elements"); return getBits(t, b, b.size() == 1); }
static APInt bitsOf(Attribute a) { if (auto i = llvm::dyn_cast<IntegerAttr>(a)) return i.getValue(); return llvm::cast<FloatAttr>(a).getValue().bitcastToAPInt(); }
DenseElementsAttr DenseElementsAttr::get(ShapedType t, ArrayRef<Attribute> v) { std::vector<APInt> b; for (auto a : v) { assert(llvm::cast<TypedAttr>(a).getType() == t.getElementType() && "expected the attribute to have the element type"); b.push_back(bitsOf(a)); } return checkedBits(t, b); }
DenseElementsAttr DenseElementsAttr::get(ShapedType t, ArrayRef<StringRef> v) { auto *ctx = t.getContext(); std::string key = "dense<"; for (auto s : v) key += quote(s) + ","; AT(DenseElementsAttr, DenseStorage, key + "> : " + str(t), (x->type = t, x->splat = false, x->strings = {}, [&] { for (auto s : v) x->strings.push_back(s.str()); }())) }
DenseElementsAttr DenseElementsAttr::get(ShapedType t, ArrayRef<bool> v) { assert(t.getElementType().isInteger(1)); std::vector<APInt> b; for (bool x : v) b.push_back(APInt(1, x)); return checkedBits(t, b); }
DenseElementsAttr DenseElementsAttr::get(ShapedType t, ArrayRef<APInt> v) { for (auto &x : v) assert((t.getElementType().isIndex() ? 64 : t.getElementType().getIntOrFloatBitWidth()) == x.getBitWidth() && "expected values of the element width"); return checkedBits(t, v.vec()); }
DenseElementsAttr DenseElementsAttr::get(ShapedType t, ArrayRef<APFloat> v) { std::vector<APInt> b; for (auto &x : v) { assert(&llvm::cast<FloatType>(t.getElementType()).getFloatSemantics() == &x.getSemantics()); b.push_back(x.bitcastToAPInt()); } return checkedBits(t, b); }
DenseElementsAttr DenseElementsAttr::getFromRawBuffer(ShapedType t, ArrayRef<char> raw) {
  Type e = t.getElementType(); unsigned w = e.getIntOrFloatBitWidth(); int64_t n = t.getNumElements(); std::vector<APInt> b;
  if (w == 1) { if (raw.size() == 1 && (raw[0] == 0 || (unsigned char)raw[0] == 0xff)) return getBits(t, {APInt(1, raw[0] != 0)}, true); assert((int64_t)raw.size() == n && "raw data of another size than the type's"); for (char c : raw) b.push_back(APInt(1, c & 1)); return getBits(t, b, false); }
  unsigned k = bytesOf(e); assert(((int64_t)raw.size() == n * k || raw.size() == k) && "raw data of another size than the type's");
  for (size_t i = 0; i + k <= raw.size(); i += k) { uint64_t v = 0; memcpy(&v, raw.data() + i, k); b.push_back(APInt(w, v)); } return getBits(t, b, b.size() == 1 && n != 1);
}
ArrayRef<char> DenseElementsAttr::getRawData() const { auto *s = st(); if (s->raw.empty()) { unsigned k = bytesOf(getElementType()); for (auto &b : s->bits) { uint64_t v = b.getZExtValue(); s->raw.insert(s->raw.end(), (char *)&v, (char *)&v + k); } } return s->raw; }
DenseElementsAttr DenseElementsAttr::reshape(ShapedType t) const { assert(t.getElementType() == getElementType() && t.getNumElements() == getNumElements() && "reshape keeps the element type and count"); return getBits(t, st()->bits, isSplat()); }
DenseElementsAttr DenseElementsAttr::resizeSplat(ShapedType t) const { assert(isSplat() && t.getElementType() == getElementType()); return getBits(t, st()->bits, true); }
std::vector<APInt> DenseElementsAttr::all() const { if (!isSplat()) return st()->bits; return std::vector<APInt>(getNumElements(), st()->bits[0]); }
DenseElementsAttr DenseElementsAttr::mapValues(Type e, function_ref<APInt(const APInt &)> f) const { std::vector<APInt> b; for (auto &x : st()->bits) b.push_back(f(x)); return getBits(st()->type.clone(e), b, isSplat()); }
DenseElementsAttr DenseElementsAttr::mapValues(Type e, function_ref<APInt(const APFloat &)> f) const { std::vector<APInt> b; for (auto &x : st()->bits) b.push_back(f(APFloat(llvm::cast<FloatType>(getElementType()).getFloatSemantics(), x))); return getBits(st()->type.clone(e), b, isSplat()); }
DenseResourceElementsAttr DenseResourceElementsAttr::get(ShapedType t, DenseResourceElementsHandle h) { auto *ctx = t.getContext(); AT(DenseResourceElementsAttr, ResourceStorage, "dense_resource<" + h.name + "> : " + str(t), (x->type = t, x->handle = h)) }

//===----------------------------------------------------------------------- values
Location Value::getLoc() const { if (impl->op) return impl->op->getLoc(); return impl->loc ? Location(impl->loc) : UnknownLoc::get(getContext()); }
Block *Value::getParentBlock() { return impl->op ? impl->op->getBlock() : impl->block; }
Region *Value::getParentRegion() { Block *b = getParentBlock(); return b ? b->getParent() : nullptr; }
void Value::dropAllUses() { while (impl->firstUse) impl->firstUse->drop(); }
void Value::replaceAllUsesWith(Value v) { assert(v && "null replacement"); if (v == *this) return; while (impl->firstUse) impl->firstUse->set(v); }
void Value::replaceUsesWithIf(Value v, function_ref<bool(OpOperand &)> f) { std::vector<OpOperand *> us; for (auto &u : getUses()) us.push_back(&u); for (auto *u : us) if (f(*u)) u->set(v); }
void Value::replaceAllUsesExcept(Value v, Operation *e) { replaceUsesWithIf(v, [&](OpOperand &u) { return u.getOwner() != e; }); }
void Value::replaceAllUsesExcept(Value v, const SmallPtrSetImpl<Operation *> &e) { replaceUsesWithIf(v, [&](OpOperand &u) { return !e.count(u.getOwner()); }); }
bool Value::isUsedOutsideOfBlock(Block *b) { return llvm::any_of(getUsers(), [b](Operation *u) { return u->getBlock() != b; }); }
unsigned Value::getNumUses() const { return std::distance(use_begin(), use_end()); }
void Value::print(raw_ostream &os) const { if (!impl) os << "<<NULL VALUE>>"; else if (impl->op) impl->op->print(os); else os << "<block argument> of type '" << getType() << "' at index: " << impl->index; }
void Value::dump() const { print(llvm::errs()); }
void ResultRange::replaceAllUsesWith(ValueRange v) const { assert(v.size() == size() && "expected one value per result"); SmallVector<Value> c(v); for (size_t i = 0; i < size(); i++) (*this)[i].replaceAllUsesWith(c[i]); }
void ResultRange::replaceAllUsesWith(Operation *op) const { replaceAllUsesWith(ValueRange(op->getResults())); }
SmallVector<Operation *> ResultRange::getUsers() const { SmallVector<Operation *> r; for (OpResult x : *this) for (Operation *u : x.getUsers()) r.push_back(u); return r; }
SmallVector<OpOperand *> ResultRange::getUsesVec() const { SmallVector<OpOperand *> r; for (OpResult x : *this) for (OpOperand &u : x.getUses()) r.push_back(&u); return r; }
MutableOperandRange::MutableOperandRange(Operation *o) : o(o), s(0), n(o->getNumOperands()) {}
MutableOperandRange::operator OperandRange() const { return o->getOperands().slice(s, n); }
void MutableOperandRange::append(ValueRange v) { o->insertOperands(s + n, v); n += v.size(); } void MutableOperandRange::assign(ValueRange v) { o->setOperands(s, n, v); n = v.size(); } void MutableOperandRange::erase(unsigned sub, unsigned len) { o->eraseOperands(s + sub, len); n -= len; }
OpOperand &MutableOperandRange::operator[](unsigned i) const { return o->getOpOperand(s + i); } OpOperand *MutableOperandRange::begin() const { return o->getOpOperands().data() + s; } OpOperand *MutableOperandRange::end() const { return begin() + n; }
//===-------------------------------------------------------------------- operations
OperationName::OperationName(StringRef n, MLIRContext *c) { auto &p = c->ops[n.str()]; if (!p) { p = std::make_unique<OpInfo>(); p->name = n.str(); p->ctx = c; } info = p.get(); }
Dialect *OperationName::getDialect() const { return info->ctx->getLoadedDialect(getDialectNamespace()); }
Operation *Operation::create(Location l, OperationName n, TypeRange t, ValueRange v, ArrayRef<NamedAttribute> a, unsigned nr) { OperationState s(l, n); s.addTypes(t); s.addOperands(v); s.addAttributes(a); for (unsigned i = 0; i < nr; i++) s.addRegion(); return create(s); }
Operation *Operation::create(const OperationState &s) {
  auto *op = new Operation(s.location, s.name); mini::live().insert(op); op->attrs = s.attributes; op->nRes = s.types.size(); op->results.reset(new detail::ValueImpl[op->nRes]);
  for (unsigned i = 0; i < op->nRes; i++) { assert(s.types[i] && "null result type"); op->results[i].type = s.types[i]; op->results[i].op = op; op->results[i].index = i; }
  op->setOperands(ValueRange(ArrayRef<Value>(s.operands))); op->nReg = s.regions.size(); op->regions.reset(new Region[op->nReg]);
  for (unsigned i = 0; i < op->nReg; i++) { op->regions[i].container = op; if (s.regions[i]) op->regions[i].takeBody(*s.regions[i]); }
  return op;
}
Operation::~Operation() { mini::live().erase(this); for (unsigned i = 0; i < nReg; i++) regions[i].dropAllReferences(); }
void Operation::dropAllReferences() { for (auto &o : getOpOperands()) o.drop(); for (auto &r : getRegions()) r.dropAllReferences(); }
void Operation::setOperands(ValueRange v) { SmallVector<Value> c(v); operands.reset(); nOps = c.size(); operands.reset(new OpOperand[nOps]); for (unsigned i = 0; i < nOps; i++) { assert(c[i] && "null operand"); operands[i].owner = this; operands[i].set(c[i]); } }
void Operation::setOperands(unsigned st, unsigned len, ValueRange v) { SmallVector<Value> c(getOperands()); SmallVector<Value> n(v); c.erase(c.begin() + st, c.begin() + st + len); c.insert(c.begin() + st, n.begin(), n.end()); setOperands(ValueRange(c)); }
void Operation::insertOperands(unsigned i, ValueRange v) { setOperands(i, 0, v); } void Operation::eraseOperands(unsigned i, unsigned n) { setOperands(i, n, ValueRange()); } void Operation::eraseOperands(const llvm::BitVector &b) { SmallVector<Value> c; for (unsigned i = 0; i < nOps; i++) if (!b.test(i)) c.push_back(getOperand(i)); setOperands(ValueRange(c)); }
bool Operation::hasOneUse() { unsigned n = 0; for (OpResult r : getResults()) n += r.getNumUses(); return n == 1; }
SmallVector<OpOperand *> &Operation::uses() { usesTmp = getResults().getUsesVec(); return usesTmp; }
void Operation::replaceUsesOfWith(Value a, Value b) { for (auto &o : getOpOperands()) if (o.get() == a) o.set(b); }
bool Operation::isBeforeInBlock(Operation *o) { assert(block == o->block && "operations of different blocks"); for (Operation &x : *block) { if (&x == o) return false; if (&x == this) return true; } return false; }
void Operation::remove() { if (block) { block->ops.remove(*this); block = nullptr; } }
void Operation::erase() { assert(use_empty() && "expected 'op' to have no uses"); remove(); delete this; }
void Operation::moveBefore(Block *b, Block::iterator it) { if (it != b->end() && &*it == this) return; remove(); b->insertOp(it, this); } void Operation::moveBefore(Operation *o) { moveBefore(o->block, Block::iterator(o)); } void Operation::moveAfter(Operation *o) { moveBefore(o->block, std::next(Block::iterator(o))); }
Operation *Operation::cloneWithoutRegions(IRMapping &m) { OperationState s(loc, name); for (Value v : getOperands()) s.operands.push_back(m.lookupOrDefault(v)); s.addTypes(getResultTypes()); s.attributes = attrs; for (unsigned i = 0; i < nReg; i++) s.addRegion(); auto *n = create(s); for (unsigned i = 0; i < nRes; i++) m.map(Value(getResult(i)), Value(n->getResult(i))); m.map(this, n); return n; }
Operation *Operation::clone(IRMapping &m) { auto *n = cloneWithoutRegions(m); for (unsigned i = 0; i < nReg; i++) regions[i].cloneInto(&n->regions[i], m); return n; }
Operation *Operation::clone() { IRMapping m; return clone(m); } Operation *Operation::cloneWithoutRegions() { IRMapping m; return cloneWithoutRegions(m); }
LogicalResult Operation::fold(ArrayRef<Attribute> o, SmallVectorImpl<OpFoldResult> &r) { if (!name.info->fold) return failure(); return name.info->fold(this, o, r); }
LogicalResult Operation::fold(SmallVectorImpl<OpFoldResult> &r) { SmallVector<Attribute> c(nOps); for (unsigned i = 0; i < nOps; i++) { Attribute a; if (matchPattern(getOperand(i), m_Constant(&a))) c[i] = a; } return fold(c, r); }
InFlightDiagnostic mlir::emitError(Location l, const Twine &m) { InFlightDiagnostic d(l.getContext(), DiagnosticSeverity::Error); d << m.str(); return d; } InFlightDiagnostic mlir::emitWarning(Location l, const Twine &m) { InFlightDiagnostic d(l.getContext(), DiagnosticSeverity::Warning); d << m.str(); return d; } InFlightDiagnostic mlir::emitRemark(Location l, const Twine &m) { InFlightDiagnostic d(l.getContext(), DiagnosticSeverity::Remark); d << m.str(); return d; }
void InFlightDiagnostic::report() { if (!c) return; auto *x = c; c = nullptr; if (x->handler) x->handler(d); else x->diags.push_back({d.severity, d.text}); }
Diagnostic &Diagnostic::operator<<(Operation &op) { text += op.getName().getStringRef(); return *this; } Diagnostic &Diagnostic::operator<<(Operation *op) { return *this << *op; } Diagnostic &Diagnostic::operator<<(OperationName n) { text += n.getStringRef(); return *this; }
InFlightDiagnostic Operation::emitError(const Twine &m) { return mlir::emitError(loc, m); } InFlightDiagnostic Operation::emitWarning(const Twine &m) { return mlir::emitWarning(loc, m); } InFlightDiagnostic Operation::emitRemark(const Twine &m) { return mlir::emitRemark(loc, m); } InFlightDiagnostic Operation::emitOpError(const Twine &m) { return mlir::emitError(loc, "'" + name.getStringRef() + "' op " + m); }
void Operation::print(raw_ostream &os) { os << name.getStringRef() << "(" ; llvm::interleaveComma(getOperandTypes(), os); os << ") -> ("; llvm::interleaveComma(getResultTypes(), os); os << ")"; } void Operation::dump() { print(llvm::errs()); }
WalkResult mlir::walkImpl(Operation *op, WalkOrder o, function_ref<WalkResult(Operation *)> f) {
  if (o == WalkOrder::PreOrder) { auto r = f(op); if (r.wasSkipped()) return WalkResult::advance(); if (r.wasInterrupted()) return r; }
  for (Region &rg : op->getRegions()) for (Block &b : llvm::make_early_inc_range(rg.blocks)) for (Operation &x : llvm::make_early_inc_range(b.ops)) if (walkImpl(&x, o, f).wasInterrupted()) return WalkResult::interrupt();
  if (o == WalkOrder::PostOrder) return f(op).wasInterrupted() ? WalkResult::interrupt() : WalkResult::advance();
  return WalkResult::advance();
}
//===----------------------------------------------------------------- blocks, regions
Block::~Block() { while (!ops.empty()) { Operation &o = ops.back(); o.dropAllUses(); ops.remove(o); o.block = nullptr; delete &o; } for (auto a : args) { a.dropAllUses(); delete a.getImpl(); } }
void Block::push_back(Operation *o) { insertOp(end(), o); } void Block::push_front(Operation *o) { insertOp(begin(), o); } void Block::insertOp(iterator it, Operation *o) { assert(!o->block && "already in a block"); ops.insert(it, *o); o->block = this; }
void Block::insertBefore(Block *b) { b->region->blocks.insert(Region::iterator(*b), *this); region = b->region; } void Block::insertAfter(Block *b) { b->region->blocks.insert(std::next(Region::iterator(*b)), *this); region = b->region; } void Block::moveBefore(Block *b) { region->blocks.remove(*this); insertBefore(b); } void Block::erase() { if (region) region->blocks.remove(*this); delete this; }
static BlockArgument mkArg(Block *b, Type t, Location l, unsigned i) { auto *v = new detail::ValueImpl(); v->type = t; v->block = b; v->index = i; v->loc = l; return BlockArgument(v); }
BlockArgument Block::insertArgument(unsigned i, Type t, Location l) { args.insert(args.begin() + i, mkArg(this, t, l, i)); for (unsigned k = 0; k < args.size(); k++) args[k].getImpl()->index = k; return args[i]; } BlockArgument Block::addArgument(Type t, Location l) { return insertArgument(args.size(), t, l); }
iterator_range<BlockArgument *> Block::addArguments(TypeRange t, ArrayRef<Location> l) { size_t n = args.size(); for (size_t i = 0; i < t.size(); i++) addArgument(t[i], l[i]); return {args.data() + n, args.data() + args.size()}; }
void Block::eraseArgument(unsigned i) { assert(args[i].use_empty() && "erasing a block argument which is used"); delete args[i].getImpl(); args.erase(args.begin() + i); for (unsigned k = 0; k < args.size(); k++) args[k].getImpl()->index = k; }
void Block::eraseArguments(const llvm::BitVector &b) { for (int i = args.size() - 1; i >= 0; i--) if (b.test(i)) eraseArgument(i); } void Block::eraseArguments(unsigned st, unsigned n) { while (n--) eraseArgument(st); } void Block::eraseArguments(function_ref<bool(BlockArgument)> f) { for (int i = args.size() - 1; i >= 0; i--) if (f(args[i])) eraseArgument(i); }
Operation *Block::getTerminator() { assert(!ops.empty() && ops.back().hasTrait<OpTrait::IsTerminator>() && "block has no terminator"); return &ops.back(); } bool Block::mightHaveTerminator() { return !ops.empty() && ops.back().hasTrait<OpTrait::IsTerminator>(); }
Block *Block::splitBlock(iterator it) { auto *n = new Block(); n->insertAfter(this); while (it != end()) { Operation &o = *it++; o.remove(); n->push_back(&o); } return n; } Block *Block::splitBlock(Operation *op) { return splitBlock(iterator(op)); }
void Block::dropAllReferences() { for (auto &o : ops) o.dropAllReferences(); } Operation *Block::findAncestorOpInBlock(Operation &op) { Operation *o = &op; while (o && o->getBlock() != this) o = o->getParentOp(); return o; } MLIRContext *Block::getContext() { return getParentOp()->getContext(); }
Region::~Region() { dropAllReferences(); while (!blocks.empty()) { Block &b = blocks.back(); blocks.remove(b); b.region = nullptr; delete &b; } } void Region::dropAllReferences() { for (auto &b : blocks) b.dropAllReferences(); }
void Region::push_back(Block *b) { blocks.push_back(*b); b->region = this; } void Region::push_front(Block *b) { blocks.push_front(*b); b->region = this; } Block &Region::emplaceBlock() { auto *b = new Block(); push_back(b); return *b; }
Region *Region::getParentRegion() { return container ? container->getParentRegion() : nullptr; } MLIRContext *Region::getContext() { return container->getContext(); } Location Region::getLoc() { return container->getLoc(); } unsigned Region::getRegionNumber() { return this - container->getRegions().data(); } bool Region::isProperAncestor(Region *o) { while ((o = o->getParentRegion())) if (o == this) return true; return false; }
MutableArrayRef<BlockArgument> Region::getArguments() { return empty() ? MutableArrayRef<BlockArgument>() : front().getArguments(); } unsigned Region::getNumArguments() { return getArguments().size(); } BlockArgument Region::getArgument(unsigned i) { return getArguments()[i]; } TypeRange Region::getArgumentTypes() { return front().getArgumentTypes(); } BlockArgument Region::addArgument(Type t, Location l) { return front().addArgument(t, l); }
void Region::takeBody(Region &o) { while (!blocks.empty()) { Block &b = blocks.back(); blocks.remove(b); delete &b; } while (!o.blocks.empty()) { Block &b = o.blocks.front(); o.blocks.remove(b); push_back(&b); } }
void Region::cloneInto(Region *d, IRMapping &m) { cloneInto(d, d->end(), m); }
void Region::cloneInto(Region *d, iterator before, IRMapping &m) { std::vector<std::pair<Block *, Block *>> bs; for (Block &b : blocks) { auto *n = new Block(); d->blocks.insert(before, *n); n->region = d; for (auto a : b.getArguments()) if (!m.contains(a)) m.map(Value(a), Value(n->addArgument(a.getType(), a.getLoc()))); m.map(&b, n); bs.push_back({&b, n}); } for (auto [b, n] : bs) for (Operation &o : *b) n->push_back(o.clone(m)); }
Block *Region::findAncestorBlockInRegion(Block &b) { Block *x = &b; while (x && x->getParent() != this) { auto *p = x->getParentOp(); x = p ? p->getBlock() : nullptr; } return x; } Operation *Region::findAncestorOpInRegion(Operation &op) { Operation *o = &op; while (o && o->getParentRegion() != this) o = o->getParentOp(); return o; }
MLIRContext *OpFoldResult::getContext() const { PointerUnion<Attribute, Value> p = *this; if (auto v = llvm::dyn_cast_if_present<Value>(p)) return v.getContext(); return llvm::cast<Attribute>(p).getContext(); }
//===------------------------------------------------------------------------ builders
ArrayAttr Builder::getI64ArrayAttr(ArrayRef<int64_t> v) { SmallVector<Attribute> a; for (auto x : v) a.push_back(getI64IntegerAttr(x)); return getArrayAttr(a); } ArrayAttr Builder::getStrArrayAttr(ArrayRef<StringRef> v) { SmallVector<Attribute> a; for (auto x : v) a.push_back(getStringAttr(x)); return getArrayAttr(a); }
TypedAttr Builder::getZeroAttr(Type t) { if (llvm::isa<FloatType>(t)) return getFloatAttr(t, 0.0); if (t.isIntOrIndex()) return getIntegerAttr(t, 0); if (auto s = llvm::dyn_cast<RankedTensorType>(t)) { auto e = getZeroAttr(s.getElementType()); return e ? TypedAttr(DenseElementsAttr::get(s, ArrayRef<Attribute>(Attribute(e))).getImpl()) : TypedAttr(); } return {}; } TypedAttr Builder::getOneAttr(Type t) { if (llvm::isa<FloatType>(t)) return getFloatAttr(t, 1.0); return getIntegerAttr(t, 1); }
void OpBuilder::setInsertionPointAfterValue(Value v) { if (auto *o = v.getDefiningOp()) setInsertionPointAfter(o); else setInsertionPointToStart(llvm::cast<BlockArgument>(v).getOwner()); }
Operation *OpBuilder::insert(Operation *op) { if (block) block->insertOp(it, op); if (listener) listener->notifyOperationInserted(op); return op; }
void OpBuilder::eraseCreated(Operation *op) { if (listener) listener->notifyOperationErased(op); op->erase(); }
Block *OpBuilder::createBlock(Region *r, Region::iterator before, TypeRange t, ArrayRef<Location> l) { auto *b = new Block(); b->addArguments(t, l); if (before == Region::iterator()) r->push_back(b); else { r->blocks.insert(before, *b); b->region = r; } setInsertionPointToEnd(b); return b; } Block *OpBuilder::createBlock(Block *before, TypeRange t, ArrayRef<Location> l) { return createBlock(before->getParent(), Region::iterator(*before), t, l); }
Operation *OpBuilder::clone(Operation &op, IRMapping &m) { auto *n = op.clone(m); insert(n); if (listener) for (auto &r : n->getRegions()) r.walk([&](Operation *x) { listener->notifyOperationInserted(x); }); return n; } Operation *OpBuilder::clone(Operation &op) { IRMapping m; return clone(op, m); } Operation *OpBuilder::cloneWithoutRegions(Operation &op, IRMapping &m) { return insert(op.cloneWithoutRegions(m)); } Operation *OpBuilder::cloneWithoutRegions(Operation &op) { return insert(op.cloneWithoutRegions()); }
LogicalResult OpBuilder::tryFold(Operation *op, SmallVectorImpl<Value> &res) {
  SmallVector<OpFoldResult> r; SmallVector<Value> out; if (op->hasTrait<OpTrait::ConstantLike>()) return failure(); if (failed(op->fold(r))) return failure(); if (r.empty()) return success();
  SmallVector<Operation *> made; InsertionGuard g(*this); setInsertionPoint(op);
  for (auto [f, t] : llvm::zip(r, op->getResultTypes())) { PointerUnion<Attribute, Value> p = f; if (auto v = llvm::dyn_cast_if_present<Value>(p)) { if (v == op->getResult(out.size())) return success(); if (v.getType() != t) { for (auto *m : made) eraseCreated(m); return failure(); } out.push_back(v); continue; } auto *c = op->getDialect()->materializeConstant(*this, llvm::cast<Attribute>(p), t, op->getLoc()); if (!c) { for (auto *m : made) eraseCreated(m); return failure(); } if (c->getResult(0).getType() != Type(t)) mini::unreachable("materialised constant of another type than the folded result", "OperationFolder", 0); made.push_back(c); out.push_back(c->getResult(0)); }
  res.append(out.begin(), out.end()); return success();
}
//===-------------------------------------------------------------------- dialects
Dialect::~Dialect() = default;
BuiltinDialect::BuiltinDialect(MLIRContext *c) : Dialect("builtin", c, TypeID::get<BuiltinDialect>()) { registerOp<ModuleOp>(); registerOp<UnrealizedConversionCastOp>(); }
func::FuncDialect::FuncDialect(MLIRContext *c) : Dialect("func", c, TypeID::get<func::FuncDialect>()) { addOperations<func::FuncOp, func::CallOp, func::CallIndirectOp, func::ConstantOp, func::ReturnOp>(); }
arith::ArithDialect::ArithDialect(MLIRContext *c) : Dialect("arith", c, TypeID::get<arith::ArithDialect>()) {}
MLIRContext::MLIRContext() { getOrLoadDialect<BuiltinDialect>(); getOrLoadDialect<func::FuncDialect>(); } MLIRContext::~MLIRContext() = default;
#define REG(X, NR, ...) std::set<TypeID> X::miniTraits() { return {__VA_ARGS__}; } void X::miniRegister(OpInfo &i) { i.traits = miniTraits(); i.nRegions = NR; }
REG(ModuleOp, 1, TypeID::get<OpTrait::IsIsolatedFromAbove>(), TypeID::get<OpTrait::SymbolTable>()) REG(UnrealizedConversionCastOp, 0, TypeID::get<OpTrait::MemoryEffectFree>()) REG(func::CallOp, 0, ) REG(func::CallIndirectOp, 0, ) REG(func::ReturnOp, 0, TypeID::get<OpTrait::IsTerminator>(), TypeID::get<OpTrait::ReturnLike>(), TypeID::get<OpTrait::MemoryEffectFree>())
std::set<TypeID> func::ConstantOp::miniTraits() { return {TypeID::get<OpTrait::ConstantLike>(), TypeID::get<OpTrait::MemoryEffectFree>()}; } void func::ConstantOp::miniRegister(OpInfo &i) { i.traits = miniTraits(); i.fold = [](Operation *o, ArrayRef<Attribute>, SmallVectorImpl<OpFoldResult> &r) -> LogicalResult { r.push_back(o->getAttr("value")); return success(); }; }
ModuleOp ModuleOp::create(Location l, std::optional<StringRef> n) { OperationState s(l, getOperationName()); s.addRegion()->emplaceBlock(); if (n) s.addAttribute("sym_name", StringAttr::get(l.getContext(), *n)); return llvm::cast<ModuleOp>(Operation::create(s)); } ModuleOp ModuleOp::create(OpBuilder &b, Location l) { auto m = create(l); b.insert(m); return m; }
bool FunctionOpInterface::classof(Operation *op) { return op->getName().getStringRef() == "func.func"; }
Block *FunctionOpInterface::addBlock() { return &getBody().emplaceBlock(); } Block *FunctionOpInterface::addEntryBlock() { Block *b = addBlock(); for (Type t : getArgumentTypes()) b->addArgument(t, getLoc()); return b; }
DictionaryAttr FunctionOpInterface::getArgAttrDict(unsigned i) { auto a = getArgAttrsAttr(); return a ? llvm::cast<DictionaryAttr>(a[i]) : DictionaryAttr(); } ArrayRef<NamedAttribute> FunctionOpInterface::getArgAttrs(unsigned i) { auto d = getArgAttrDict(i); return d ? d.getValue() : ArrayRef<NamedAttribute>(); } Attribute FunctionOpInterface::getArgAttr(unsigned i, StringRef n) { auto d = getArgAttrDict(i); return d ? d.get(n) : Attribute(); }
void FunctionOpInterface::setArgAttrs(unsigned i, ArrayRef<NamedAttribute> a) { SmallVector<Attribute> v; for (unsigned k = 0; k < getNumArguments(); k++) { auto d = getArgAttrDict(k); v.push_back(k == i ? DictionaryAttr::get(getContext(), a) : d ? d : DictionaryAttr::get(getContext())); } state->setAttr("arg_attrs", ArrayAttr::get(getContext(), v)); }
void FunctionOpInterface::setArgAttr(unsigned i, StringRef n, Attribute a) { NamedAttrList l(getArgAttrs(i)); l.set(n, a); setArgAttrs(i, l); } Attribute FunctionOpInterface::removeArgAttr(unsigned i, StringRef n) { NamedAttrList l(getArgAttrs(i)); auto r = l.erase(n); if (r) setArgAttrs(i, l); return r; }
void FunctionOpInterface::setAllArgAttrs(ArrayRef<DictionaryAttr> a) { SmallVector<Attribute> v(a.begin(), a.end()); for (auto &x : v) if (!x) x = DictionaryAttr::get(getContext()); if (llvm::all_of(v, [](Attribute x) { return llvm::cast<DictionaryAttr>(x).empty(); })) state->removeAttr("arg_attrs"); else state->setAttr("arg_attrs", ArrayAttr::get(getContext(), v)); } void FunctionOpInterface::getAllArgAttrs(SmallVectorImpl<DictionaryAttr> &r) { for (unsigned i = 0; i < getNumArguments(); i++) { auto d = getArgAttrDict(i); r.push_back(d ? d : DictionaryAttr::get(getContext())); } }
LogicalResult FunctionOpInterface::eraseArguments(const llvm::BitVector &b) { SmallVector<DictionaryAttr> as, keep; getAllArgAttrs(as); SmallVector<Type> t; for (unsigned i = 0; i < getNumArguments(); i++) if (!b.test(i)) { t.push_back(getArgumentTypes()[i]); keep.push_back(as[i]); } SmallVector<Type> rs(getResultTypes()); if (!isExternal()) front().eraseArguments(b); setFunctionType(FunctionType::get(getContext(), t, rs)); setAllArgAttrs(keep); return success(); }
LogicalResult FunctionOpInterface::eraseResults(const llvm::BitVector &b) { SmallVector<Type> t; for (unsigned i = 0; i < getNumResults(); i++) if (!b.test(i)) t.push_back(getResultTypes()[i]); SmallVector<Type> as(getArgumentTypes()); setFunctionType(FunctionType::get(getContext(), as, t)); return success(); }
LogicalResult FunctionOpInterface::insertArgument(unsigned i, Type t, DictionaryAttr a, Location l) { SmallVector<DictionaryAttr> as; getAllArgAttrs(as); as.insert(as.begin() + i, a ? a : DictionaryAttr::get(getContext())); SmallVector<Type> ts(getArgumentTypes()), rs(getResultTypes()); ts.insert(ts.begin() + i, t); if (!isExternal()) front().insertArgument(i, t, l); setFunctionType(FunctionType::get(getContext(), ts, rs)); setAllArgAttrs(as); return success(); }
func::FuncOp func::FuncOp::create(Location l, StringRef n, FunctionType t, ArrayRef<NamedAttribute> a) { OperationState s(l, getOperationName()); s.addRegion(); s.addAttribute("sym_name", StringAttr::get(l.getContext(), n)); s.addAttribute("function_type", TypeAttr::get(t)); s.addAttributes(a); return llvm::cast<func::FuncOp>(Operation::create(s)); } func::FuncOp func::FuncOp::create(OpBuilder &b, Location l, StringRef n, FunctionType t, ArrayRef<NamedAttribute> a) { auto f = create(l, n, t, a); b.insert(f); return f; }
func::CallOp func::CallOp::create(OpBuilder &b, Location l, StringRef n, TypeRange t, ValueRange v) { OperationState s(l, getOperationName(), v, t); s.addAttribute("callee", SymbolRefAttr::get(l.getContext(), n)); return llvm::cast<func::CallOp>(b.create(s)); } func::CallOp func::CallOp::create(OpBuilder &b, Location l, FuncOp f, ValueRange v) { return create(b, l, f.getName(), TypeRange(f.getResultTypes()), v); }
//===-------------------------------------------------------------------- interfaces
static bool has(Operation *op, TypeID t) { auto it = op->getName().info->ifaces.find(t); return it != op->getName().info->ifaces.end() && (!it->second || it->second(op)); }
bool SymbolOpInterface::classof(Operation *op) { return op->getName().getStringRef() == "func.func" || has(op, TypeID::get<SymbolOpInterface>()); } StringRef SymbolOpInterface::vis() { auto a = state->getAttrOfType<StringAttr>("sym_visibility"); return a ? a.getValue() : "public"; } StringRef SymbolOpInterface::getName() { return getNameAttr().getValue(); } StringAttr SymbolOpInterface::getNameAttr() { return SymbolTable::getSymbolName(state); } void SymbolOpInterface::setName(StringRef n) { SymbolTable::setSymbolName(state, n); } void SymbolOpInterface::setPrivate() { state->setAttr("sym_visibility", StringAttr::get(getContext(), "private")); } void SymbolOpInterface::setPublic() { state->removeAttr("sym_visibility"); } bool SymbolOpInterface::isDeclaration() { return state->getNumRegions() && state->getRegion(0).empty(); }
#define IF(X) bool X::classof(Operation *op) { return has(op, TypeID::get<X>()); }
IF(SymbolUserOpInterface) IF(CastOpInterface) IF(RegionBranchOpInterface) IF(RegionBranchTerminatorOpInterface) IF(InferTypeOpInterface) bool MemoryEffectOpInterface::classof(Operation *op) { return op->hasTrait<OpTrait::MemoryEffectFree>() || op->getName().info->effects || has(op, TypeID::get<MemoryEffectOpInterface>()); } bool MemoryEffectOpInterface::isNoEffect(Operation *op) { if (op->hasTrait<OpTrait::MemoryEffectFree>()) return true; return op->getName().info->effects && op->getName().info->effects(op) == 0; }
bool CallOpInterface::classof(Operation *op) { return op->getName().getStringRef() == "func.call" || op->getName().getStringRef() == "func.call_indirect"; } OperandRange CallOpInterface::getArgOperands() { return llvm::isa<func::CallOp>(state) ? state->getOperands() : state->getOperands().drop_front(); }
bool mlir::isMemoryEffectFree(Operation *op) { if (op->getName().info->effects) return op->getName().info->effects(op) == 0; if (op->hasTrait<OpTrait::MemoryEffectFree>()) return true; if (!op->hasTrait<OpTrait::HasRecursiveMemoryEffects>()) return false; for (Region &r : op->getRegions()) for (Block &b : r) for (Operation &x : b) if (!isMemoryEffectFree(&x)) return false; return true; }
bool mlir::isSpeculatable(Operation *op) { return op->hasTrait<OpTrait::AlwaysSpeculatable>(); } bool mlir::isPure(Operation *op) { return isSpeculatable(op) && isMemoryEffectFree(op); } static bool writeFree(Operation *op) { if (op->getName().info->effects) return op->getName().info->effects(op) % 65536 == 0; if (op->hasTrait<OpTrait::MemoryEffectFree>()) return true; if (!op->hasTrait<OpTrait::HasRecursiveMemoryEffects>()) return false; for (Region &r : op->getRegions()) for (Block &b : r) for (Operation &x : b) if (!writeFree(&x)) return false; return true; }
bool mlir::wouldOpBeTriviallyDead(Operation *op) { if (op->hasTrait<OpTrait::IsTerminator>() || llvm::isa<SymbolOpInterface>(op) || llvm::isa<ModuleOp>(op)) return false; return writeFree(op); } bool mlir::isOpTriviallyDead(Operation *op) { return op->use_empty() && wouldOpBeTriviallyDead(op); }
std::optional<int64_t> mlir::getConstantIntValue(OpFoldResult r) { PointerUnion<Attribute, Value> p = r; Attribute a; if (auto v = llvm::dyn_cast_if_present<Value>(p)) { if (!matchPattern(v, m_Constant(&a))) return std::nullopt; } else a = llvm::cast<Attribute>(p); if (auto i = llvm::dyn_cast<IntegerAttr>(a)) return i.getValue().getSExtValue(); return std::nullopt; }
OpFoldResult mlir::getAsOpFoldResult(Value v) { if (!v) return OpFoldResult(); Attribute a; if (matchPattern(v, m_Constant(&a))) return a; return v; } SmallVector<OpFoldResult> mlir::getAsOpFoldResult(ValueRange v) { SmallVector<OpFoldResult> r; for (Value x : v) r.push_back(getAsOpFoldResult(x)); return r; }
LogicalResult mlir::verifyCompatibleShape(ArrayRef<int64_t> a, ArrayRef<int64_t> b) { if (a.size() != b.size()) return failure(); for (auto [x, y] : llvm::zip(a, b)) if (!ShapedType::isDynamic(x) && !ShapedType::isDynamic(y) && x != y) return failure(); return success(); }
//===----------------------------------------------------------------------- symbols
StringAttr SymbolTable::getSymbolName(Operation *op) { auto a = op->getAttrOfType<StringAttr>("sym_name"); assert(a && "expected valid symbol name"); return a; } void SymbolTable::setSymbolName(Operation *op, StringAttr a) { op->setAttr("sym_name", a); } void SymbolTable::setSymbolName(Operation *op, StringRef n) { op->setAttr("sym_name", StringAttr::get(op->getContext(), n)); }
SymbolTable::Visibility SymbolTable::getSymbolVisibility(Operation *op) { auto a = op->getAttrOfType<StringAttr>("sym_visibility"); if (!a) return Visibility::Public; return a.getValue() == "private" ? Visibility::Private : a.getValue() == "nested" ? Visibility::Nested : Visibility::Public; } void SymbolTable::setSymbolVisibility(Operation *op, Visibility v) { if (v == Visibility::Public) op->removeAttr("sym_visibility"); else op->setAttr("sym_visibility", StringAttr::get(op->getContext(), v == Visibility::Private ? "private" : "nested")); }
SymbolTable::SymbolTable(Operation *op) : table(op) { for (Operation &o : op->getRegion(0).front()) if (auto a = o.getAttrOfType<StringAttr>("sym_name")) symbols[a.str()] = &o; } Operation *SymbolTable::lookup(StringRef n) const { auto it = symbols.find(n.str()); return it == symbols.end() ? nullptr : it->second; } void SymbolTable::remove(Operation *op) { symbols.erase(getSymbolName(op).str()); } void SymbolTable::erase(Operation *op) { remove(op); op->erase(); }
StringAttr SymbolTable::insert(Operation *op, Block::iterator it) { Block &b = table->getRegion(0).front(); if (!op->getBlock()) { if (it == Block::iterator()) b.push_back(op); else b.insertOp(it, op); } std::string n = getSymbolName(op).str(), m = n; int k = 0; while (symbols.count(m) && symbols[m] != op) m = n + "_" + std::to_string(k++); if (m != n) setSymbolName(op, m); symbols[m] = op; return getSymbolName(op); }
Operation *SymbolTable::getNearestSymbolTable(Operation *op) { while (op && !op->hasTrait<OpTrait::SymbolTable>()) op = op->getParentOp(); return op; } Operation *SymbolTable::lookupSymbolIn(Operation *op, StringRef n) { for (Operation &o : op->getRegion(0).front()) if (auto a = o.getAttrOfType<StringAttr>("sym_name")) if (a.getValue() == n) return &o; return nullptr; } Operation *SymbolTable::lookupNearestSymbolFrom(Operation *f, StringAttr n) { auto *t = getNearestSymbolTable(f); return t ? lookupSymbolIn(t, n) : nullptr; }
static void refs(Attribute a, function_ref<void(SymbolRefAttr)> f) { if (auto s = llvm::dyn_cast_or_null<SymbolRefAttr>(a)) f(s); else if (auto v = llvm::dyn_cast_or_null<ArrayAttr>(a)) for (auto x : v) refs(x, f); else if (auto d = llvm::dyn_cast_or_null<DictionaryAttr>(a)) for (auto x : d) refs(x.getValue(), f); }
static SymbolTable::UseRange symUses(MutableArrayRef<Region> rs, std::optional<StringRef> n) { SymbolTable::UseRange r; for (Region &g : rs) g.walk([&](Operation *op) { for (auto &na : op->getAttrs()) refs(na.getValue(), [&](SymbolRefAttr s) { if (!n || s.getRootReference().getValue() == *n) r.push_back({op, s}); }); }); return r; }
std::optional<SymbolTable::UseRange> SymbolTable::getSymbolUses(Operation *s, Operation *f) { return symUses(f->getRegions(), getSymbolName(s).getValue()); } std::optional<SymbolTable::UseRange> SymbolTable::getSymbolUses(Operation *f) { return symUses(f->getRegions(), std::nullopt); } std::optional<SymbolTable::UseRange> SymbolTable::getSymbolUses(Operation *s, Region *f) { return symUses(MutableArrayRef<Region>(f, 1), getSymbolName(s).getValue()); } std::optional<SymbolTable::UseRange> SymbolTable::getSymbolUses(Region *f) { return symUses(MutableArrayRef<Region>(f, 1), std::nullopt); } std::optional<SymbolTable::UseRange> SymbolTable::getSymbolUses(StringAttr s, Operation *f) { return symUses(f->getRegions(), s.getValue()); } std::optional<SymbolTable::UseRange> SymbolTable::getSymbolUses(StringAttr s, Region *f) { return symUses(MutableArrayRef<Region>(f, 1), s.getValue()); }
bool SymbolTable::symbolKnownUseEmpty(Operation *s, Operation *f) { return getSymbolUses(s, f)->empty(); } bool SymbolTable::symbolKnownUseEmpty(Operation *s, Region *f) { return getSymbolUses(s, f)->empty(); }
static Attribute ren(Attribute a, StringAttr o, StringAttr n) { if (auto s = llvm::dyn_cast_or_null<SymbolRefAttr>(a)) return s.getRootReference() == o ? Attribute(SymbolRefAttr::get(n, s.getNestedReferences())) : a; if (auto v = llvm::dyn_cast_or_null<ArrayAttr>(a)) { SmallVector<Attribute> r; for (auto x : v) r.push_back(ren(x, o, n)); return ArrayAttr::get(a.getContext(), r); } if (auto d = llvm::dyn_cast_or_null<DictionaryAttr>(a)) { SmallVector<NamedAttribute> r; for (auto x : d) r.push_back({x.getName(), ren(x.getValue(), o, n)}); return DictionaryAttr::get(a.getContext(), r); } return a; }
static LogicalResult renAll(MutableArrayRef<Region> rs, StringAttr o, StringAttr n) { for (Region &g : rs) g.walk([&](Operation *op) { for (auto &na : op->attrs.v) na.setValue(ren(na.getValue(), o, n)); }); return success(); }
LogicalResult SymbolTable::replaceAllSymbolUses(StringAttr o, StringAttr n, Operation *f) { return renAll(f->getRegions(), o, n); } LogicalResult SymbolTable::replaceAllSymbolUses(Operation *o, StringAttr n, Operation *f) { return renAll(f->getRegions(), getSymbolName(o), n); } LogicalResult SymbolTable::replaceAllSymbolUses(Operation *o, StringAttr n, Region *f) { return renAll(MutableArrayRef<Region>(f, 1), getSymbolName(o), n); } LogicalResult SymbolTable::rename(Operation *op, StringAttr to) { remove(op); (void)replaceAllSymbolUses(op, to, table); setSymbolName(op, to); symbols[to.str()] = op; return success(); }
SmallVector<Operation *> SymbolUserMap::getUsers(Operation *s) const { SmallVector<Operation *> r; llvm::SmallPtrSet<Operation *, 8> seen; for (auto &u : *SymbolTable::getSymbolUses(s, root)) if (seen.insert(u.user).second) r.push_back(u.user); return r; }
//===---------------------------------------------------------------------- parsing
ParseResult AsmParser::parseKeyword(StringRef *kw) { skip(); size_t e = pos; while (e < text.size() && (isalnum(text[e]) || text[e] == '_' || text[e] == '.' || text[e] == '$')) e++; if (e == pos) return failure(); *kw = text.slice(pos, e); pos = e; return success(); }
ParseResult AsmParser::parseString(std::string *s) {
  skip(); if (pos >= text.size() || text[pos] != '"') return failure(); size_t e = pos + 1; s->clear();
  while (e < text.size() && text[e] != '"') { if (text[e] == '\\' && e + 1 < text.size()) { if (text[e + 1] == '\\' || text[e + 1] == '"') { s->push_back(text[e + 1]); e += 2; } else { s->push_back((char)std::stoi(text.substr(e + 1, 2).str(), nullptr, 16)); e += 3; } } else s->push_back(text[e++]); }
  pos = e + 1; return success();
}
ParseResult AsmParser::parseCommaSeparatedList(Delimiter d, function_ref<ParseResult()> f, StringRef) { const char *o = "", *c = ""; switch (d) { case Delimiter::Paren: o = "("; c = ")"; break; case Delimiter::Square: o = "["; c = "]"; break; case Delimiter::LessGreater: o = "<"; c = ">"; break; case Delimiter::Braces: o = "{"; c = "}"; break; default: break; } if (*o) { if (!eat(o)) return failure(); if (eat(c)) return success(); } do { if (f()) return failure(); } while (eat(",")); if (*c && !eat(c)) return failure(); return success(); }
ParseResult AsmParser::parseDimensionList(SmallVectorImpl<int64_t> &d, bool dyn, bool x) { while (true) { skip(); if (pos < text.size() && text[pos] == '?') { if (!dyn) return failure(); pos++; d.push_back(ShapedType::kDynamic); } else if (pos < text.size() && isdigit(text[pos])) { size_t e = pos; int64_t v = 0; while (isdigit(text[e])) v = v * 10 + (text[e++] - '0'); pos = e; d.push_back(v); } else return success(); if (!eat("x")) return success(!x); } }
ParseResult AsmParser::parseType(Type &t) {
  skip(); if (eat("!torch.")) { auto *d = c->getLoadedDialect("torch"); DialectAsmParser p(text, c, pos); t = d->parseType(p); pos = p.pos; return success((bool)t); }
  if (eat("(")) { SmallVector<Type> i, o; if (!eat(")")) { if (parseTypeList(i) || !eat(")")) return failure(); } if (!eat("->")) return failure(); if (eat("(")) { if (!eat(")")) { if (parseTypeList(o) || !eat(")")) return failure(); } } else { Type x; if (parseType(x)) return failure(); o.push_back(x); } t = FunctionType::get(c, i, o); return success(); }
  StringRef k; size_t p0 = pos; if (parseKeyword(&k)) return failure();
  if (k == "index") { t = IndexType::get(c); return success(); } if (k == "none") { t = NoneType::get(c); return success(); }
  if (k == "complex") { Type e; if (!eat("<") || parseType(e) || !eat(">")) return failure(); t = ComplexType::get(e); return success(); }
  if (k == "tensor") { if (!eat("<")) return failure(); SmallVector<int64_t> d; Type e; if (eat("*x")) { if (parseType(e) || !eat(">")) return failure(); t = UnrankedTensorType::get(e); return success(); } if (parseDimensionList(d) || parseType(e)) return failure(); Attribute enc; if (eat(",") && parseAttribute(enc)) return failure(); if (!eat(">")) return failure(); t = RankedTensorType::get(d, e, enc); return success(); }
#define MINI_FLOAT(X, txt, s, w) if (k == txt) { t = X::get(c); return success(); }
  MINI_FLOATS
#undef MINI_FLOAT
  unsigned w; auto num = [&](StringRef pre) { return k.starts_with(pre) && !k.drop_front(pre.size()).getAsInteger(10, w); };
  if (num("si")) t = IntegerType::get(c, w, IntegerType::Signed); else if (num("ui")) t = IntegerType::get(c, w, IntegerType::Unsigned); else if (num("i")) t = IntegerType::get(c, w); else { pos = p0; return failure(); } return success();
}
ParseResult AsmParser::parseAttribute(Attribute &a) {
  skip(); if (pos >= text.size()) return failure(); char ch = text[pos];
  if (ch == '"') { std::string s; if (parseString(&s)) return failure(); a = StringAttr::get(c, s); return success(); }
  if (ch == '[') { SmallVector<Attribute> v; if (parseCommaSeparatedList(Delimiter::Square, [&]() -> ParseResult { Attribute x; if (parseAttribute(x)) return failure(); v.push_back(x); return success(); })) return failure(); a = ArrayAttr::get(c, v); return success(); }
  if (ch == '{') { SmallVector<NamedAttribute> v; if (parseCommaSeparatedList(Delimiter::Braces, [&]() -> ParseResult { std::string k; Attribute x; if (parseString(&k) || !eat("=") || parseAttribute(x)) return failure(); v.push_back(NamedAttribute(StringRef(k), x)); return success(); })) return failure(); a = DictionaryAttr::get(c, v); return success(); }
  if (ch == '@') { pos++; StringRef k; std::string q; if (pos < text.size() && text[pos] == '"') { if (parseString(&q)) return failure(); k = q; } else { size_t e = pos; while (e < text.size() && (isalnum(text[e]) || strchr("_.$-", text[e]))) e++; k = text.slice(pos, e); pos = e; } a = SymbolRefAttr::get(c, k); return success(); }
  if (eat("true")) { a = BoolAttr::get(c, true); return success(); } if (eat("false")) { a = BoolAttr::get(c, false); return success(); } if (eat("unit")) { a = UnitAttr::get(c); return success(); }
  if (eat("type ")) { Type t; if (parseType(t)) return failure(); a = TypeAttr::get(t); return success(); }
  if (eat("affine_map<")) { size_t e = text.find(">>", pos); (void)e; return failure(); }
  auto hexdig = [&](std::string &s) { skip(); size_t e = pos; while (e < text.size() && isxdigit(text[e])) e++; s = text.slice(pos, e).str(); pos = e; return !s.empty(); };
  if (eat("0fx")) { std::string s; Type t; if (!hexdig(s) || !eat(":") || parseType(t)) return failure(); auto f = llvm::dyn_cast<FloatType>(t); if (!f) return failure(); a = FloatAttr::get(t, APFloat(f.getFloatSemantics(), APInt(f.getWidth(), s, 16))); return success(); }
  bool splat = eat("splat<"); if (splat || eat("dense<")) { std::vector<std::string> xs; std::vector<std::string> strs; while (!eat(">")) { std::string s; skip(); if (text[pos] == '"') { if (parseString(&s)) return failure(); strs.push_back(s); } else { if (!hexdig(s)) return failure(); xs.push_back(s); } eat(","); } Type t; if (!eat(":") || parseType(t)) return failure(); auto sh = llvm::dyn_cast<ShapedType>(t); if (!sh) return failure(); if (!strs.empty()) { SmallVector<StringRef> v(strs.begin(), strs.end()); a = DenseElementsAttr::get(sh, ArrayRef<StringRef>(v)); return success(); } unsigned w = sh.getElementType().isIndex() ? 64 : llvm::isa<ComplexType>(sh.getElementType()) ? 128 : sh.getElementType().getIntOrFloatBitWidth(); std::vector<APInt> b; for (auto &s : xs) b.push_back(APInt(w, s, 16)); a = DenseElementsAttr::getBits(sh, b, splat); return success(); }
  if (eat("resource<")) { std::string name, raw; if (parseString(&name) || !eat(",") ) return failure(); hexdig(raw); Type t; if (!eat(">") || !eat(":") || parseType(t)) return failure(); DenseResourceElementsHandle h; h.name = name; h.blob = std::make_shared<AsmResourceBlob>(); for (size_t i = 0; i + 1 < raw.size(); i += 2) h.blob->data.push_back((char)std::stoi(raw.substr(i, 2), nullptr, 16)); a = DenseResourceElementsAttr::get(llvm::cast<ShapedType>(t), h); return success(); }
  if (isdigit(ch) || ch == '-') { size_t e = pos + 1; while (e < text.size() && isdigit(text[e])) e++; std::string s = text.slice(pos, e).str(); pos = e; Type t = IntegerType::get(c, 64); if (eat(":")) { if (parseType(t)) return failure(); } unsigned w = t.isIndex() ? 64 : t.getIntOrFloatBitWidth(); a = IntegerAttr::get(t, APInt(w < 70 ? 70 : w, s, 10).trunc(w)); return success(); }
  return failure();
}
Type mlir::parseType(StringRef s, MLIRContext *c) { AsmParser p(s, c); Type t; if (p.parseType(t)) return Type(); return t; } Attribute mlir::parseAttribute(StringRef s, MLIRContext *c) { AsmParser p(s, c); Attribute a; if (p.parseAttribute(a)) return Attribute(); return a; }
