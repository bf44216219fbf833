#ifndef MINI_MLIR_CASTING_H
#define MINI_MLIR_CASTING_H
namespace mlir { class Value; class OpState; class Operation; }
namespace llvm {
template <typename To, typename From>
struct CastInfo<To, From, std::enable_if_t<std::is_same_v<mlir::Type, std::remove_const_t<From>> || std::is_base_of_v<mlir::Type, From>>>
    : NullableValueCastFailed<To>, DefaultDoCastIfPossible<To, From, CastInfo<To, From>> {
  static inline bool isPossible(mlir::Type ty) {
    if constexpr (std::is_base_of_v<To, From>) return true;
    else return To::classof(ty);
  }
  static inline To doCast(mlir::Type ty) { return To(ty.getImpl()); }
};
template <typename To, typename From>
struct CastInfo<To, From, std::enable_if_t<std::is_same_v<mlir::Attribute, std::remove_const_t<From>> || std::is_base_of_v<mlir::Attribute, From>>>
    : NullableValueCastFailed<To>, DefaultDoCastIfPossible<To, From, CastInfo<To, From>> {
  static inline bool isPossible(mlir::Attribute ty) {
    if constexpr (std::is_base_of_v<To, From>) return true;
    else return To::classof(ty);
  }
  static inline To doCast(mlir::Attribute ty) { return To(ty.getImpl()); }
};
template <typename T>
struct CastInfo<T, ::mlir::Operation *> : public ValueFromPointerCast<T, ::mlir::Operation, CastInfo<T, ::mlir::Operation *>> {
  static bool isPossible(::mlir::Operation *op) { return T::classof(op); }
};
template <typename T>
struct CastInfo<T, const ::mlir::Operation *> : public ConstStrippingForwardingCast<T, const ::mlir::Operation *, CastInfo<T, ::mlir::Operation *>> {};
template <typename T>
struct CastInfo<T, ::mlir::Operation> : public NullableValueCastFailed<T>, public DefaultDoCastIfPossible<T, ::mlir::Operation &, CastInfo<T, ::mlir::Operation>> {
  static bool isPossible(::mlir::Operation &val) { return T::classof(&val); }
  static T doCast(::mlir::Operation &val) { return T(&val); }
};
template <typename T>
struct CastInfo<T, const ::mlir::Operation> : public ConstStrippingForwardingCast<T, const ::mlir::Operation, CastInfo<T, ::mlir::Operation>> {};
template <> struct CastInfo<::mlir::Operation *, ::mlir::Operation *> : public NullableValueCastFailed<::mlir::Operation *>,
      public DefaultDoCastIfPossible<::mlir::Operation *, ::mlir::Operation *, CastInfo<::mlir::Operation *, ::mlir::Operation *>> {
  static bool isPossible(::mlir::Operation *) { return true; }
  static ::mlir::Operation *doCast(::mlir::Operation *op) { return op; }
};
#define MINI_HANDLE_INFO(T, EMPTY)                                                                                     \
  template <typename X> struct DenseMapInfo<X, std::enable_if_t<std::is_same_v<T, X> || (std::is_base_of_v<T, X>)>> {  \
    static X getEmptyKey() { return X(static_cast<typename T::ImplType *>(DenseMapInfo<void *>::getEmptyKey())); }     \
    static X getTombstoneKey() { return X(static_cast<typename T::ImplType *>(DenseMapInfo<void *>::getTombstoneKey())); } \
    static unsigned getHashValue(X v) { return DenseMapInfo<const void *>::getHashValue(v.getAsOpaquePointer()); }     \
    static bool isEqual(X a, X b) { return a == b; }                                                                   \
  };
MINI_HANDLE_INFO(mlir::Type, )
MINI_HANDLE_INFO(mlir::Attribute, )
} // namespace llvm
#endif
