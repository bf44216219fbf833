// Patterns, the greedy driver, dialect conversion and passes.
#ifndef MINI_MLIR_REWRITE_H
#define MINI_MLIR_REWRITE_H
namespace mlir {
class PatternBenefit {
public:
  PatternBenefit() = default; PatternBenefit(unsigned b) : b(b) {}
  unsigned getBenefit() const { return b; } bool operator<(PatternBenefit o) const { return b < o.b; }
private:
  unsigned b = 1;
};
class RewriterBase : public OpBuilder {
public:
  using OpBuilder::OpBuilder;
  RewriterBase(const RewriterBase &) = delete;
  virtual ~RewriterBase() = default;
  struct Listener : OpBuilder::Listener {};
  virtual void replaceOp(Operation *op, ValueRange v);
  void replaceOp(Operation *op, Operation *n) { SmallVector<Value> v(n->getResults()); replaceOp(op, ValueRange(v)); }
  virtual void eraseOp(Operation *op);
  virtual void eraseBlock(Block *b);
  template <typename OpTy, typename... A> OpTy replaceOpWithNewOp(Operation *op, A &&...a) { auto n = OpTy::create(*this, op->getLoc(), std::forward<A>(a)...); replaceOp(op, n.getOperation()); return n; }
  virtual void replaceAllUsesWith(Value a, Value b);
  void replaceAllUsesWith(ValueRange a, ValueRange b) { SmallVector<Value> x(a), y(b); for (size_t i = 0; i < x.size(); i++) replaceAllUsesWith(x[i], y[i]); }
  void replaceAllUsesWith(Operation *a, ValueRange b) { replaceAllUsesWith(ValueRange(a->getResults()), b); }
  void replaceAllOpUsesWith(Operation *a, ValueRange b) { replaceAllUsesWith(a, b); } void replaceAllOpUsesWith(Operation *a, Operation *b) { replaceAllUsesWith(a, ValueRange(b->getResults())); }
  void replaceAllUsesExcept(Value a, Value b, Operation *e) { a.replaceAllUsesExcept(b, e); touched(); }
  void replaceUsesWithIf(Value a, Value b, function_ref<bool(OpOperand &)> f, bool * = nullptr) { a.replaceUsesWithIf(b, f); touched(); }
  virtual void startOpModification(Operation *) {} virtual void finalizeOpModification(Operation *op) { modified(op); } virtual void cancelOpModification(Operation *) {}
  template <typename F> void modifyOpInPlace(Operation *op, F &&f) { startOpModification(op); f(); finalizeOpModification(op); }
  LogicalResult notifyMatchFailure(Location, function_ref<void(Diagnostic &)>) { return failure(); } LogicalResult notifyMatchFailure(Location, const Twine &m) { note(m); return failure(); } LogicalResult notifyMatchFailure(Location, const char *m) { note(m); return failure(); }
  LogicalResult notifyMatchFailure(Operation *, function_ref<void(Diagnostic &)>) { return failure(); } LogicalResult notifyMatchFailure(Operation *, const Twine &m) { note(m); return failure(); } LogicalResult notifyMatchFailure(Operation *, const char *m) { note(m); return failure(); }
  void inlineRegionBefore(Region &r, Region &parent, Region::iterator before); void inlineRegionBefore(Region &r, Block *before) { inlineRegionBefore(r, *before->getParent(), Region::iterator(*before)); }
  void cloneRegionBefore(Region &r, Region &parent, Region::iterator before); void cloneRegionBefore(Region &r, Region &parent, Region::iterator before, IRMapping &m); void cloneRegionBefore(Region &r, Block *before);
  void inlineBlockBefore(Block *src, Block *dst, Block::iterator before, ValueRange args = {}); void inlineBlockBefore(Block *src, Operation *op, ValueRange args = {}) { inlineBlockBefore(src, op->getBlock(), Block::iterator(op), args); }
  void mergeBlocks(Block *src, Block *dst, ValueRange args = {}) { inlineBlockBefore(src, dst, dst->end(), args); }
  Block *splitBlock(Block *b, Block::iterator it) { return b->splitBlock(it); }
  void moveOpBefore(Operation *op, Operation *x) { op->moveBefore(x); } void moveOpAfter(Operation *op, Operation *x) { op->moveAfter(x); }
  virtual void modified(Operation *) {} virtual void touched() {}
  void note(const Twine &m) { lastFailure = m.str(); }
  std::string lastFailure;
};
class PatternRewriter : public RewriterBase { public: using RewriterBase::RewriterBase; explicit PatternRewriter(MLIRContext *c) : RewriterBase(c) {} };
class IRRewriter : public PatternRewriter { public: using PatternRewriter::PatternRewriter; explicit IRRewriter(Operation *op) : PatternRewriter(op->getContext()) { setInsertionPoint(op); } explicit IRRewriter(const OpBuilder &b) : PatternRewriter(b.getContext()) { restoreInsertionPoint(b.saveInsertionPoint()); } };

class Pattern {
public:
  struct MatchAnyOpTypeTag {}; struct MatchInterfaceOpTypeTag {};
  virtual ~Pattern() = default;
  Pattern(StringRef root, PatternBenefit b, MLIRContext *c, ArrayRef<StringRef> = {}) : root(root.str()), benefit(b), ctx(c) {}
  Pattern(MatchAnyOpTypeTag, PatternBenefit b, MLIRContext *c, ArrayRef<StringRef> = {}) : benefit(b), ctx(c) {}
  virtual bool appliesTo(Operation *op) const { return root.empty() || op->getName().getStringRef() == root; }
  std::optional<OperationName> getRootKind() const { if (root.empty()) return std::nullopt; return OperationName(root, ctx); }
  PatternBenefit getBenefit() const { return benefit; } MLIRContext *getContext() const { return ctx; }
  void setDebugName(StringRef n) { debug = n.str(); } StringRef getDebugName() const { return debug; }
  void setHasBoundedRewriteRecursion(bool b = true) { bounded = b; } bool hasBoundedRewriteRecursion() const { return bounded; }
  void initialize() {}
  std::string root, debug; PatternBenefit benefit; MLIRContext *ctx; bool bounded = false;
};
class RewritePattern : public Pattern {
public:
  using Pattern::Pattern;
  virtual LogicalResult matchAndRewrite(Operation *op, PatternRewriter &rewriter) const = 0;
  virtual LogicalResult match(Operation *) const { return failure(); } virtual void rewrite(Operation *, PatternRewriter &) const {}
};
template <typename OpTy> struct OpRewritePattern : RewritePattern {
  OpRewritePattern(MLIRContext *c, PatternBenefit b = 1, ArrayRef<StringRef> = {}) : RewritePattern(OpTy::getOperationName(), b, c) {}
  LogicalResult matchAndRewrite(Operation *op, PatternRewriter &rewriter) const final { return matchAndRewrite(llvm::cast<OpTy>(op), rewriter); }
  virtual LogicalResult matchAndRewrite(OpTy op, PatternRewriter &rewriter) const = 0;
};
template <typename I> struct OpInterfaceRewritePattern : RewritePattern {
  OpInterfaceRewritePattern(MLIRContext *c, PatternBenefit b = 1) : RewritePattern(Pattern::MatchAnyOpTypeTag(), b, c) {}
  bool appliesTo(Operation *op) const override { return llvm::isa<I>(op); }
  LogicalResult matchAndRewrite(Operation *op, PatternRewriter &rewriter) const final { return matchAndRewrite(llvm::cast<I>(op), rewriter); }
  virtual LogicalResult matchAndRewrite(I op, PatternRewriter &rewriter) const = 0;
};
template <typename T> struct OpTraitRewritePattern;
class RewritePatternSet {
public:
  explicit RewritePatternSet(MLIRContext *c) : c(c) {}
  MLIRContext *getContext() const { return c; }
  template <typename... Ts, typename A, typename... As, typename = std::enable_if_t<sizeof...(Ts) != 0>> RewritePatternSet &add(A &&a, As &&...as) { (addOne<Ts>(a, as...), ...); return *this; }
  template <typename... Ts, typename A, typename... As, typename = std::enable_if_t<sizeof...(Ts) != 0>> RewritePatternSet &insert(A &&a, As &&...as) { (addOne<Ts>(a, as...), ...); return *this; }
  template <typename OpTy> struct FnPattern : OpRewritePattern<OpTy> {
    LogicalResult (*f)(OpTy, PatternRewriter &);
    FnPattern(LogicalResult (*f)(OpTy, PatternRewriter &), MLIRContext *c, PatternBenefit b) : OpRewritePattern<OpTy>(c, b), f(f) {}
    LogicalResult matchAndRewrite(OpTy op, PatternRewriter &r) const override { return f(op, r); }
  };
  template <typename OpTy> RewritePatternSet &add(LogicalResult (*f)(OpTy, PatternRewriter &), PatternBenefit b = 1, ArrayRef<StringRef> = {}) { patterns.push_back(std::make_shared<FnPattern<OpTy>>(f, c, b)); return *this; }
  RewritePatternSet &add(std::unique_ptr<RewritePattern> p) { patterns.push_back(std::move(p)); return *this; }
  void clear() { patterns.clear(); }
  std::vector<std::shared_ptr<RewritePattern>> patterns;
private:
  template <typename T, typename... A> void addOne(A &&...a) {
    auto p = std::make_shared<T>(std::forward<A>(a)...);
    p->initialize();
    if (p->debug.empty()) p->debug = llvm::getTypeName<T>().str();
    patterns.push_back(p);
  }
  MLIRContext *c;
};
class FrozenRewritePatternSet {
public:
  FrozenRewritePatternSet() = default;
  FrozenRewritePatternSet(RewritePatternSet &&s, ArrayRef<std::string> = {}, ArrayRef<std::string> = {});
  std::vector<std::shared_ptr<RewritePattern>> patterns; // by descending benefit
  std::map<std::string, std::vector<RewritePattern *>> byRoot; std::vector<RewritePattern *> any;
  std::vector<RewritePattern *> forOp(Operation *op) const;
};
enum class GreedyRewriteStrictness { AnyOp, ExistingAndNewOps, ExistingOps };
enum class GreedySimplifyRegionLevel { Disabled, Normal, Aggressive };
class GreedyRewriteConfig {
public:
  static constexpr int64_t kNoLimit = -1;
  bool topDown = true; int64_t maxIterations = 10, maxNumRewrites = kNoLimit; bool foldEnabled = true, cse = true; GreedyRewriteStrictness strictness = GreedyRewriteStrictness::AnyOp;
  GreedyRewriteConfig &setUseTopDownTraversal(bool b = true) { topDown = b; return *this; } bool getUseTopDownTraversal() const { return topDown; }
  GreedyRewriteConfig &setMaxIterations(int64_t n) { maxIterations = n; return *this; } GreedyRewriteConfig &setMaxNumRewrites(int64_t n) { maxNumRewrites = n; return *this; }
  GreedyRewriteConfig &setStrictness(GreedyRewriteStrictness s) { strictness = s; return *this; } GreedyRewriteConfig &setRegionSimplificationLevel(GreedySimplifyRegionLevel) { return *this; }
  GreedyRewriteConfig &enableFolding(bool b = true) { foldEnabled = b; return *this; } GreedyRewriteConfig &enableConstantCSE(bool b = true) { cse = b; return *this; } GreedyRewriteConfig &setListener(RewriterBase::Listener *) { return *this; }
};
LogicalResult applyPatternsGreedily(Region &r, const FrozenRewritePatternSet &p, GreedyRewriteConfig c = {}, bool *changed = nullptr);
LogicalResult applyPatternsGreedily(Operation *op, const FrozenRewritePatternSet &p, GreedyRewriteConfig c = {}, bool *changed = nullptr);
LogicalResult applyOpPatternsGreedily(ArrayRef<Operation *> ops, const FrozenRewritePatternSet &p, GreedyRewriteConfig c = {}, bool *changed = nullptr, bool *allErased = nullptr);
void walkAndApplyPatterns(Operation *op, const FrozenRewritePatternSet &p);

//===-------------------------------------------------------- dialect conversion
class TypeConverter {
public:
  struct SignatureConversion {
    explicit SignatureConversion(unsigned n) : map(n) {}
    void addInputs(unsigned i, ArrayRef<Type> t) { map[i] = {(unsigned)types.size(), (unsigned)t.size(), Value()}; types.append(t.begin(), t.end()); } void addInputs(ArrayRef<Type> t) { types.append(t.begin(), t.end()); }
    void remapInput(unsigned i, Value v) { map[i] = {0, 0, v}; }
    ArrayRef<Type> getConvertedTypes() const { return types; }
    struct In { unsigned start = 0, n = 0; Value v; }; SmallVector<In> map; SmallVector<Type> types;
  };
  virtual ~TypeConverter() = default;
  using Conv = std::function<std::optional<LogicalResult>(Type, SmallVectorImpl<Type> &)>; using Mat = std::function<Value(OpBuilder &, Type, ValueRange, Location)>;
  template <typename F> void addConversion(F &&f) {
    using T = std::decay_t<typename llvm::function_traits<std::decay_t<F>>::template arg_t<0>>;
    if constexpr (llvm::function_traits<std::decay_t<F>>::num_args == 1)
      convs.push_back([f](Type t, SmallVectorImpl<Type> &r) -> std::optional<LogicalResult> { T x = llvm::dyn_cast<T>(t); if constexpr (std::is_same_v<T, Type>) x = t; if (!x) return std::nullopt; std::optional<Type> o = f(x); if (!o) return std::nullopt; if (*o) r.push_back(*o); return success((bool)*o); });
    else
      convs.push_back([f](Type t, SmallVectorImpl<Type> &r) -> std::optional<LogicalResult> { T x = llvm::dyn_cast<T>(t); if constexpr (std::is_same_v<T, Type>) x = t; if (!x) return std::nullopt; return f(x, r); });
  }
  template <typename F> static Mat mat(F f) {
    using T = std::decay_t<typename llvm::function_traits<std::decay_t<F>>::template arg_t<1>>;
    return [f](OpBuilder &b, Type t, ValueRange v, Location l) -> Value { T x; if constexpr (std::is_same_v<T, Type>) x = t; else x = llvm::dyn_cast<T>(t); if (!x) return Value(); return f(b, x, v, l); };
  }
  template <typename F> void addSourceMaterialization(F &&f) { source.push_back(mat(f)); } template <typename F> void addTargetMaterialization(F &&f) { target.push_back(mat(f)); } template <typename F> void addArgumentMaterialization(F &&f) { source.push_back(mat(f)); }
  LogicalResult convertType(Type t, SmallVectorImpl<Type> &r) const; Type convertType(Type t) const; LogicalResult convertTypes(TypeRange t, SmallVectorImpl<Type> &r) const; bool isLegal(Type t) const { return convertType(t) == t; } bool isLegal(Operation *op) const; template <typename R> std::enable_if_t<!std::is_convertible_v<R, Type> && !std::is_convertible_v<R, Operation *>, bool> isLegal(R &&r) const { for (Type t : r) if (!isLegal(t)) return false; return true; }
  bool isSignatureLegal(FunctionType f) const { return isLegal(f.getInputs()) && isLegal(f.getResults()); } LogicalResult convertSignatureArg(unsigned i, Type t, SignatureConversion &c) const; LogicalResult convertSignatureArgs(TypeRange t, SignatureConversion &c, unsigned off = 0) const;
  Value materializeSource(OpBuilder &b, Location l, Type t, ValueRange v) const; Value materializeTarget(OpBuilder &b, Location l, Type t, ValueRange v) const;
  std::vector<Conv> convs; std::vector<Mat> source, target;
};
class ConversionPatternRewriter : public PatternRewriter {
public:
  using PatternRewriter::PatternRewriter;
  void replaceOp(Operation *op, ValueRange v) override; using RewriterBase::replaceOp;
  void eraseOp(Operation *op) override;
  void replaceAllUsesWith(Value a, Value b) override; using RewriterBase::replaceAllUsesWith;
  Block *applySignatureConversion(Block *b, TypeConverter::SignatureConversion &c, const TypeConverter *t = nullptr);
  Value getRemappedValue(Value v);
  LogicalResult legalize(Region *r) { return success(); }
  Operation *current = nullptr; std::vector<Operation *> created; std::vector<std::pair<Operation *, std::vector<Value>>> replaced; const TypeConverter *tc = nullptr;
};
class ConversionPattern : public RewritePattern {
public:
  ConversionPattern(StringRef root, PatternBenefit b, MLIRContext *c) : RewritePattern(root, b, c) {} ConversionPattern(const TypeConverter &t, StringRef root, PatternBenefit b, MLIRContext *c) : RewritePattern(root, b, c), typeConverter(&t) {}
  ConversionPattern(MatchAnyOpTypeTag m, PatternBenefit b, MLIRContext *c) : RewritePattern(m, b, c) {} ConversionPattern(const TypeConverter &t, MatchAnyOpTypeTag m, PatternBenefit b, MLIRContext *c) : RewritePattern(m, b, c), typeConverter(&t) {}
  virtual LogicalResult matchAndRewrite(Operation *op, ArrayRef<Value> operands, ConversionPatternRewriter &rewriter) const { llvm_unreachable("unimplemented"); }
  LogicalResult matchAndRewrite(Operation *op, PatternRewriter &rewriter) const override;
  const TypeConverter *getTypeConverter() const { return typeConverter; } template <typename T> const T *getTypeConverter() const { return static_cast<const T *>(typeConverter); }
  const TypeConverter *typeConverter = nullptr;
};
template <typename OpTy> class OpConversionPattern : public ConversionPattern {
public:
  using OpAdaptor = typename OpTy::Adaptor;
  OpConversionPattern(MLIRContext *c, PatternBenefit b = 1) : ConversionPattern(OpTy::getOperationName(), b, c) {} OpConversionPattern(const TypeConverter &t, MLIRContext *c, PatternBenefit b = 1) : ConversionPattern(t, OpTy::getOperationName(), b, c) {}
  LogicalResult matchAndRewrite(Operation *op, ArrayRef<Value> operands, ConversionPatternRewriter &rewriter) const final { auto o = llvm::cast<OpTy>(op); return matchAndRewrite(o, OpAdaptor(ValueRange(operands), o), rewriter); }
  virtual LogicalResult matchAndRewrite(OpTy op, OpAdaptor adaptor, ConversionPatternRewriter &rewriter) const { llvm_unreachable("unimplemented"); }
  using ConversionPattern::matchAndRewrite;
};
class ConversionTarget {
public:
  ConversionTarget(MLIRContext &c) : c(c) {}
  enum class LegalizationAction { Legal, Dynamic, Illegal }; using Fn = std::function<std::optional<bool>(Operation *)>;
  struct Rule { LegalizationAction a; Fn f; };
  template <typename F> static Fn fn(F f) {
    using Arg = std::decay_t<typename llvm::function_traits<F>::template arg_t<0>>;
    return [f](Operation *op) -> std::optional<bool> { if constexpr (std::is_same_v<Arg, Operation *>) return f(op); else return f(llvm::cast<Arg>(op)); };
  }
  template <typename... T> void addLegalOp() { ((ops[T::getOperationName().str()] = {LegalizationAction::Legal, nullptr}), ...); } template <typename... T> void addIllegalOp() { ((ops[T::getOperationName().str()] = {LegalizationAction::Illegal, nullptr}), ...); }
  template <typename... T, typename F> void addDynamicallyLegalOp(F &&f) { ((ops[T::getOperationName().str()] = {LegalizationAction::Dynamic, fn<std::decay_t<F>>(f)}), ...); }
  void addLegalOp(OperationName n) { ops[n.getStringRef().str()] = {LegalizationAction::Legal, nullptr}; } void addIllegalOp(OperationName n) { ops[n.getStringRef().str()] = {LegalizationAction::Illegal, nullptr}; } template <typename F> void addDynamicallyLegalOp(OperationName n, F &&f) { ops[n.getStringRef().str()] = {LegalizationAction::Dynamic, fn<std::decay_t<F>>(f)}; }
  void setOpAction(OperationName n, LegalizationAction a) { ops[n.getStringRef().str()] = {a, nullptr}; }
  template <typename... D> void addLegalDialect() { ((dialects[D::getDialectNamespace().str()] = {LegalizationAction::Legal, nullptr}), ...); } template <typename... D> void addIllegalDialect() { ((dialects[D::getDialectNamespace().str()] = {LegalizationAction::Illegal, nullptr}), ...); }
  template <typename... D, typename F> void addDynamicallyLegalDialect(F &&f) { ((dialects[D::getDialectNamespace().str()] = {LegalizationAction::Dynamic, fn<std::decay_t<F>>(f)}), ...); }
  template <typename F> void markUnknownOpDynamicallyLegal(F &&f) { unknown = {LegalizationAction::Dynamic, fn<std::decay_t<F>>(f)}; hasUnknown = true; }
  template <typename... T> void markOpRecursivelyLegal() {}
  std::optional<bool> legal(Operation *op) const; // nothing if the target does not say
  std::optional<bool> isLegal(Operation *op) const { auto r = legal(op); if (r && *r) return true; if (r) return false; return std::nullopt; } bool isIllegal(Operation *op) const { auto r = legal(op); return r && !*r; }
  MLIRContext &c; std::map<std::string, Rule> ops, dialects; Rule unknown; bool hasUnknown = false;
};
LogicalResult applyPartialConversion(Operation *op, const ConversionTarget &t, const FrozenRewritePatternSet &p); LogicalResult applyFullConversion(Operation *op, const ConversionTarget &t, const FrozenRewritePatternSet &p);
void populateFunctionOpInterfaceTypeConversionPattern(StringRef, RewritePatternSet &, const TypeConverter &);

//===----------------------------------------------------------------------- passes
class OpPassManager; class AnalysisManager;
class Pass {
public:
  explicit Pass(TypeID) {} Pass() = default; Pass(const Pass &) {} virtual ~Pass() = default;
  virtual void runOnOperation() = 0; virtual StringRef getName() const { return ""; } virtual StringRef getArgument() const { return ""; } virtual StringRef getDescription() const { return ""; }
  virtual void getDependentDialects(DialectRegistry &) const {} virtual LogicalResult initialize(MLIRContext *) { return success(); } virtual std::unique_ptr<Pass> clonePass() const { return nullptr; }
  template <typename T> struct Option { T v{}; template <typename P, typename... A> Option(P &, StringRef, A &&...a) { (set(a), ...); } template <typename I> void set(const llvm::cl::initializer<I> &i) { v = T(i.Init); } template <typename X> void set(const X &) {} operator T() const { return v; } T getValue() const { return v; } Option &operator=(const T &x) { v = x; return *this; } const T *operator->() const { return &v; } const T &operator*() const { return v; } };
  template <typename T> struct ListOption { std::vector<T> v; template <typename P, typename... A> ListOption(P &, StringRef, A &&...) {} template <typename R> ListOption &operator=(const R &x) { v.assign(x.begin(), x.end()); return *this; } operator ArrayRef<T>() const { return v; } auto begin() const { return v.begin(); } auto end() const { return v.end(); } size_t size() const { return v.size(); } bool empty() const { return v.empty(); } };
  Operation *getOperation() { return op; } MLIRContext &getContext() { return *op->getContext(); } void signalPassFailure() { failed_ = true; } void markAllAnalysesPreserved() {}
  LogicalResult runPipeline(OpPassManager &pm, Operation *op); LogicalResult runOn(Operation *o) { op = o; failed_ = false; if (mlir::failed(initialize(o->getContext()))) return failure(); runOnOperation(); return success(!failed_); }
  virtual bool schedulable(Operation *) const { return true; }
  Operation *op = nullptr; bool failed_ = false;
};
template <typename OpT = void> class OperationPass : public Pass { public: using Pass::Pass; OperationPass(TypeID t) : Pass(t) {} OperationPass() = default; OpT getOperation() { return llvm::cast<OpT>(op); } bool schedulable(Operation *o) const override { return llvm::isa<OpT>(o); } };
template <> class OperationPass<void> : public Pass { public: using Pass::Pass; OperationPass(TypeID t) : Pass(t) {} OperationPass() = default; };
template <typename P, typename B> class PassWrapper : public B { public: PassWrapper() : B(TypeID::get<P>()) {} };
template <typename I> using InterfacePass = OperationPass<I>;
class OpPassManager {
public:
  OpPassManager() = default; OpPassManager(StringRef n) : name(n.str()) {} OpPassManager(OpPassManager &&) = default;
  void addPass(std::unique_ptr<Pass> p) { items.push_back({std::move(p), nullptr}); }
  template <typename OpT> void addNestedPass(std::unique_ptr<Pass> p) { nest(OpT::getOperationName()).addPass(std::move(p)); }
  OpPassManager &nest(StringRef n) { items.push_back({nullptr, std::make_unique<OpPassManager>(n)}); return *items.back().second; } template <typename OpT> OpPassManager &nest() { return nest(OpT::getOperationName()); }
  LogicalResult run(Operation *op); bool empty() { return items.empty(); } size_t size() { return items.size(); }
  std::string name; std::vector<std::pair<std::unique_ptr<Pass>, std::unique_ptr<OpPassManager>>> items;
};
class PassManager : public OpPassManager { public: PassManager(MLIRContext *) {} PassManager(MLIRContext *, StringRef n) : OpPassManager(n) {} template <typename T> static PassManager on(MLIRContext *c) { return PassManager(c); } void enableVerifier(bool = true) {} };
template <typename T> struct PassPipelineRegistration { template <typename... A> PassPipelineRegistration(A &&...) {} };
template <typename T> struct PassPipelineOptions { template <typename X> using Option = Pass::Option<X>; template <typename X> using ListOption = Pass::ListOption<X>; };
std::unique_ptr<Pass> createCanonicalizerPass(const GreedyRewriteConfig & = {}, ArrayRef<std::string> = {}, ArrayRef<std::string> = {}); std::unique_ptr<Pass> createInlinerPass(); std::unique_ptr<Pass> createCSEPass(); std::unique_ptr<Pass> createSymbolDCEPass();
inline void registerPass(const std::function<std::unique_ptr<Pass>()> &) {}
struct BackwardSliceOptions { std::function<bool(Operation *)> filter; bool inclusive = false, omitBlockArguments = false, omitUsesFromAbove = true; };
using SliceOptions = BackwardSliceOptions;
LogicalResult getBackwardSlice(Operation *op, SetVector<Operation *> *s, const BackwardSliceOptions &o = {}); LogicalResult getBackwardSlice(Value v, SetVector<Operation *> *s, const BackwardSliceOptions &o = {}); SetVector<Operation *> topologicalSort(const SetVector<Operation *> &s);
LogicalResult verify(Operation *op);
template <typename T> OwningOpRef<T> parseSourceString(StringRef, MLIRContext *) { return nullptr; }
template <typename T = ModuleOp> OwningOpRef<T> parseSourceString(StringRef s, const class ParserConfig &c);
class ParserConfig { public: ParserConfig(MLIRContext *c) : c(c) {} MLIRContext *c; };
Type parseType(StringRef, MLIRContext *); Attribute parseAttribute(StringRef, MLIRContext *);

//===------------------------------------------------- what the generated code needs
class PropertyRef { public: PropertyRef(const void *p = nullptr) : p(p) {} template <typename T> T as() const { return (T)(p); } explicit operator bool() const { return p; } const void *p; };
class RegionRange { public: RegionRange(MutableArrayRef<Region> r = {}) { for (auto &x : r) v.push_back(&x); } RegionRange(ArrayRef<std::unique_ptr<Region>> r) { for (auto &x : r) v.push_back(x.get()); } template <typename R> RegionRange(const SmallVectorImpl<R> &r) : RegionRange(ArrayRef<R>(r)) {} auto begin() const { return v.begin(); } auto end() const { return v.end(); } size_t size() const { return v.size(); } bool empty() const { return v.empty(); } Region *operator[](size_t i) const { return v[i]; } Region *front() const { return v.front(); } std::vector<Region *> v; };
} // namespace mlir
#endif
