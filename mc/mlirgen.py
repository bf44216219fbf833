"""C++ declarations of the Torch dialect, generated from its .td files.

The records come from ``llvm-tblgen --dump-json``; what is generated from them
is what MLIR's own TableGen back ends generate as far as torch-mlir's sources
use it, on top of the stand-in runtime in ``mc/mlir``.
"""
import json, os, re, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
NS = '::mlir::torch::Torch'


def dump(repo, td):
    tb = next(p for p in ('/usr/bin/llvm-tblgen-18', '/usr/bin/llvm-tblgen', '/usr/lib/llvm-18/bin/llvm-tblgen') if os.path.exists(p))
    r = subprocess.run([tb, '--no-warn-on-unused-template-args', '--dump-json', '-I', os.path.join(HERE, 'mlir', 'td'), '-I', os.path.join(repo, 'include'), td], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('llvm-tblgen %s: %s' % (td, r.stderr[:2000]))
    return json.loads(r.stdout)


def camel(n):
    parts = n.split('_')
    s = ''.join(p[:1].upper() + p[1:] if i == 0 or p else '_' for i, p in enumerate(parts))
    return s[:1].upper() + s[1:]


class Op:
    def __init__(self, d, rec):
        self.d, self.rec = d, rec
        self.cls = rec['!name'].split('_', 1)[1]
        self.name = 'torch.' + rec['opName']
        self.operands, self.attrs, self.args, self.results, self.regions = [], [], [], [], []
        for a, n in rec['arguments']['args']:
            r = d[a['def']]
            if 'Attr' in r['!superclasses']:
                self.attrs.append((n, r)); self.args.append(('a', n, r))
            else:
                self.operands.append((n, r)); self.args.append(('o', n, r))
        self.results = [(n or 'result', d[a['def']]) for a, n in rec['results']['args']]
        self.regions = [(n, d[a['def']]) for a, n in rec['regions']['args']]
        self.traits = [d[t['def']] for t in rec['traits']]

    def trait(self, n):
        return any(t.get('trait') == n for t in self.traits)

    def iface(self, n):
        return next((t for t in self.traits if t.get('trait') == n and ('OpInterface' in t['!superclasses'] or 'DeclareOpInterfaceMethods' in t['!superclasses'])), None)


def variadic(r):
    return 'Variadic' in r['!superclasses'] or 'Optional' in r['!superclasses']


def isopt(r):
    return 'Optional' in r['!superclasses']


def cpp(r):
    return 'Value' if r['cppType'] == '::mlir::Type' else 'TypedValue<%s>' % r['cppType']


def base(d, r):
    return d[r['baseType']['def']] if variadic(r) else r


def buildable(d, r):
    if variadic(r) or 'TypeDef' not in r['!superclasses']:
        return None
    return None if r['parameters']['args'] else r['cppType']


def pred(d, r, v):
    """C++ expression for a type constraint on the Type expression v."""
    if 'AnyTypeOf' in r['!superclasses']:
        return '(' + ' || '.join(pred(d, d[t['def']], v) for t in r['anyOf']) + ')'
    p = d[r['predicate']['def']]
    e = '(' + p['predExpr'].replace('$_self', v) + ')' if 'predExpr' in p else 'true'
    if 'ContainerType' in r['!superclasses']:
        el = d[r['elementType']['def']]
        e = '(%s && [&](::mlir::Type t) { return %s; }(%s))' % (e, pred(d, el, 't'), r['getElement'].replace('$_self', v))
    return e


def posn(op, which, i):
    """(start, length) C++ expressions of the i-th operand/result group; length None when single. `N` is the total."""
    lst = op.operands if which == 'o' else op.results
    var = [k for k, (n, r) in enumerate(lst) if variadic(r)]
    before = [k for k in var if k < i]
    if not var or (not before and i not in var):
        return str(i), None
    if len(var) == 1:
        size = '(N - %d)' % (len(lst) - 1)
    else:
        assert op.trait('SameVariadicOperandSize'), op.name
        size = '((N - %d) / %d)' % (len(lst) - len(var), len(var))
    start = str(i - len(before)) + ''.join(' + %s' % size for _ in before)
    return start, (size if i in var else None)


def op_class(op):
    d, c = op.d, op.cls
    o = []
    w = o.append
    w('class %s : public ::mlir::OpBase<%s> {\npublic:\n  using OpBase::OpBase;' % (c, c))
    w('  static constexpr ::llvm::StringLiteral getOperationName() { return ::llvm::StringLiteral("%s"); }' % op.name)
    single = len(op.results) == 1 and not variadic(op.results[0][1])
    w('  static constexpr bool kSingleResult = %s; static std::set<::mlir::TypeID> miniTraits(); static void miniRegister(::mlir::OpInfo &i);' % ('true' if single else 'false'))
    # adaptors
    props = ''.join('%s p%s; %s get%s() const { return p%s; } ' % (r['storageType'], n, r['storageType'], camel(n), n) for n, r in op.attrs)
    w('  struct Properties { %s};' % props)
    w('  template <typename RangeT> class GenericAdaptor { public:')
    w('    GenericAdaptor(RangeT v, ::mlir::DictionaryAttr a = {}) : v(v), a(a) {} template <typename O, typename = std::enable_if_t<std::is_base_of_v<::mlir::OpState, O>>> GenericAdaptor(RangeT v, O op) : v(v), a(op->getAttrDictionary()) {}')
    w(('' if any(camel(n) == 'Operands' for n, r in op.operands) else '    RangeT getOperands() { return v; }') + ' ::mlir::DictionaryAttr getAttributes() { return a; }')
    for i, (n, r) in enumerate(op.operands):
        s, l = posn(op, 'o', i)
        body = 'auto N = v.size(); (void)N; '
        if l is None:
            w('    auto get%s() { %sreturn v[%s]; }' % (camel(n), body, s))
        elif isopt(r):
            w('    auto get%s() { %sreturn %s ? v[%s] : std::decay_t<decltype(v[0])>(); }' % (camel(n), body, l, s))
        else:
            w('    RangeT get%s() { %sreturn v.slice(%s, %s); }' % (camel(n), body, s, l))
    for n, r in op.attrs:
        C = camel(n)
        w('    %s get%sAttr() { return ::llvm::dyn_cast_or_null<%s>(a.get("%s")); }' % (r['storageType'], C, r['storageType'], n))
        w('    %s get%s() { auto x = get%sAttr(); %s }' % (r['returnType'], C, C, conv(r)))
    w('    RangeT v; ::mlir::DictionaryAttr a;\n  };\n  using Adaptor = GenericAdaptor<::mlir::ValueRange>; using FoldAdaptor = GenericAdaptor<::llvm::ArrayRef<::mlir::Attribute>>;')
    # operands
    for i, (n, r) in enumerate(op.operands):
        s, l = posn(op, 'o', i)
        C = camel(n)
        body = 'unsigned N = state->getNumOperands(); (void)N; '
        if l is None:
            t = cpp(r)
            w('  ::mlir::%s get%s() { %sreturn ::llvm::cast<::mlir::%s>(::mlir::Value(state->getOperand(%s))); } ::mlir::OpOperand &get%sMutable() { %sreturn state->getOpOperand(%s); }' % (t, C, body, t, s, C, body, s))
        elif isopt(r):
            w('  ::mlir::Value get%s() { %sreturn %s ? state->getOperand(%s) : ::mlir::Value(); }' % (C, body, l, s))
        else:
            w('  ::mlir::OperandRange get%s() { %sreturn state->getOperands().slice(%s, %s); } ::mlir::MutableOperandRange get%sMutable() { %sreturn ::mlir::MutableOperandRange(state, %s, %s); }' % (C, body, s, l, C, body, s, l))
    if len(op.operands) == 1 and not variadic(op.operands[0][1]) and camel(op.operands[0][0]) != 'Operand':
        w('  ::mlir::%s getOperand() { return ::llvm::cast<::mlir::%s>(::mlir::Value(state->getOperand(0))); } ::mlir::Value getOperand(unsigned i) { return state->getOperand(i); }' % (cpp(op.operands[0][1]), cpp(op.operands[0][1])))
    # results
    names = {camel(n) for n, r in op.results}
    for i, (n, r) in enumerate(op.results):
        s, l = posn(op, 'r', i)
        C = camel(n)
        body = 'unsigned N = state->getNumResults(); (void)N; '
        if l is None:
            t = cpp(r)
            w('  ::mlir::%s get%s() { %sreturn ::llvm::cast<::mlir::%s>(::mlir::Value(state->getResult(%s))); }' % (t, C, body, t, s))
        elif C != 'Results':
            w('  ::mlir::ResultRange get%s() { %sreturn state->getResults().slice(%s, %s); }' % (C, body, s, l))
    if not any(camel(n) == 'Results' for n, r in op.operands):
        w('  ::mlir::ResultRange getResults() { return state->getResults(); }')
    if single:
        t = cpp(op.results[0][1])
        if 'Result' not in names:
            w('  ::mlir::%s getResult() { return ::llvm::cast<::mlir::%s>(::mlir::Value(state->getResult(0))); }' % (t, t))
        if not any(camel(n) == 'Type' for n, r in op.attrs + op.operands):
            w('  %s getType() { return ::llvm::cast<%s>(state->getResult(0).getType()); }' % (op.results[0][1]['cppType'], op.results[0][1]['cppType']) if t != 'Value' else '  ::mlir::Type getType() { return state->getResult(0).getType(); }')
        w('  operator ::mlir::Value() { return state->getResult(0); } operator ::mlir::%s() { return getResult(); }' % t if t != 'Value' else '  operator ::mlir::Value() { return state->getResult(0); }')
    elif op.results:
        w('  ::mlir::OpResult getResult(unsigned i) { return state->getResult(i); } ::mlir::Type getType(unsigned i) { return state->getResult(i).getType(); }' if 'Result' not in names else '')
    # attributes
    for n, r in op.attrs:
        C, st = camel(n), r['storageType']
        w('  %s get%sAttr() { return ::llvm::dyn_cast_or_null<%s>(state->getAttr("%s")); } void set%sAttr(%s x) { if (x) state->setAttr("%s", x); else state->removeAttr("%s"); } ::mlir::Attribute remove%sAttr() { return state->removeAttr("%s"); } ::mlir::StringAttr get%sAttrName() { return ::mlir::StringAttr::get(getContext(), "%s"); }' % (st, C, st, n, C, st, n, n, C, n, C, n))
        w('  %s get%s() { auto x = get%sAttr(); %s }' % (r['returnType'], C, C, conv(r)))
        if r['valueArg']:
            w('  void set%s(%s x) { state->setAttr("%s", %s); }' % (C, r['valueArg'], n, r['build'].replace('$ctx', 'getContext()').replace('$v', 'x')) if 'UnitAttr' not in st else '  void set%s(bool x) { if (x) state->setAttr("%s", ::mlir::UnitAttr::get(getContext())); else state->removeAttr("%s"); }' % (C, n, n))
    for i, (n, r) in enumerate(op.regions):
        w('  ::mlir::Region &get%s() { return state->getRegion(%d); }' % (camel(n), i))
    if (op.trait('SingleBlock') or op.trait('SingleBlockImplicitTerminator')) and op.regions and not any(camel(n) == 'Body' for n, r in op.regions):
        w('  ::mlir::Block *getBody(unsigned i = 0) { return &state->getRegion(i).front(); }')
    # symbols
    if op.iface('SymbolOpInterface'):
        w('  ::llvm::StringRef getName() { return ::mlir::SymbolTable::getSymbolName(state).getValue(); } bool isPrivate() { return ::mlir::SymbolTable::getSymbolVisibility(state) == ::mlir::SymbolTable::Visibility::Private; } bool isPublic() { return ::mlir::SymbolTable::getSymbolVisibility(state) == ::mlir::SymbolTable::Visibility::Public; } ::mlir::SymbolTable::Visibility getVisibility() { return ::mlir::SymbolTable::getSymbolVisibility(state); } void setVisibility(::mlir::SymbolTable::Visibility v) { ::mlir::SymbolTable::setSymbolVisibility(state, v); } void setName(::llvm::StringRef n) { ::mlir::SymbolTable::setSymbolName(state, n); } ::mlir::StringAttr getNameAttr() { return ::mlir::SymbolTable::getSymbolName(state); }')
    # builders
    for sig, body in builders(op):
        decl = ''.join(', ' + s for s in sig)
        call = ''.join(', ' + re.match(r'.*?(\w+)( = .*)?$', s).group(1) for s in sig)
        w('  static void build(::mlir::OpBuilder &b, ::mlir::OperationState &s%s) { %s }' % (decl, body))
        w('  static %s create(::mlir::OpBuilder &b, ::mlir::Location l%s) { ::mlir::OperationState s(l, getOperationName()); build(b, s%s); return ::llvm::cast<%s>(b.create(s)); }' % (c, decl, call, c))
        w('  static %s create(::mlir::ImplicitLocOpBuilder &b%s) { return create(b, b.getLoc()%s); }' % (c, decl, call))
    r = op.rec
    if r['hasCanonicalizer'] or r['hasCanonicalizeMethod']:
        w('  static void getCanonicalizationPatterns(::mlir::RewritePatternSet &results, ::mlir::MLIRContext *context);')
    if r['hasCanonicalizeMethod']:
        w('  static ::llvm::LogicalResult canonicalize(%s op, ::mlir::PatternRewriter &rewriter);' % c)
    if r['hasFolder']:
        w('  ::mlir::OpFoldResult fold(FoldAdaptor adaptor);' if single else '  ::llvm::LogicalResult fold(FoldAdaptor adaptor, ::llvm::SmallVectorImpl<::mlir::OpFoldResult> &results);')
    if r['hasVerifier']:
        w('  ::llvm::LogicalResult verify();')
    if r['hasCustomAssemblyFormat']:
        w('  static ::llvm::ParseResult parse(::mlir::OpAsmParser &parser, ::mlir::OperationState &result); void print(::mlir::OpAsmPrinter &printer); using OpState::print;')
    if op.iface('SymbolUserOpInterface'):
        w('  ::llvm::LogicalResult verifySymbolUses(::mlir::SymbolTableCollection &symbolTable);')
    t = op.iface('RegionBranchOpInterface')
    if t:
        w('  void getSuccessorRegions(::mlir::RegionBranchPoint point, ::llvm::SmallVectorImpl<::mlir::RegionSuccessor> &regions);')
        for m in t['methods']:
            w({'getEntrySuccessorOperands': '  ::mlir::OperandRange getEntrySuccessorOperands(::mlir::RegionSuccessor successor);', 'getSuccessorInputs': '  ::mlir::ValueRange getSuccessorInputs(::mlir::RegionSuccessor successor);'}[m])
    if op.iface('RegionBranchTerminatorOpInterface'):
        w('  ::mlir::MutableOperandRange getMutableSuccessorOperands(::mlir::RegionSuccessor successor);')
    if op.iface('OpAsmOpInterface'):
        w('  void getAsmResultNames(::mlir::OpAsmSetValueNameFn setNameFn);')
    if op.iface('CastOpInterface'):
        w('  static bool areCastCompatible(::mlir::TypeRange inputs, ::mlir::TypeRange outputs);')
    t = op.iface('InferTypeOpInterface')
    if t:
        w('  static ::llvm::LogicalResult inferReturnTypes(::mlir::MLIRContext *context, std::optional<::mlir::Location> location, ::mlir::ValueRange operands, ::mlir::DictionaryAttr attributes, ::mlir::PropertyRef properties, ::mlir::RegionRange regions, ::llvm::SmallVectorImpl<::mlir::Type> &inferredReturnTypes);')
        if 'isCompatibleReturnTypes' in t['methods'] and 'isCompatibleReturnTypes' not in r['extraClassDeclaration']:
            w('  static bool isCompatibleReturnTypes(::mlir::TypeRange inferred, ::mlir::TypeRange actual);')
    if op.iface('MemoryEffectOpInterface'):
        w('  void getEffects(::llvm::SmallVectorImpl<::mlir::SideEffects::EffectInstance<::mlir::MemoryEffects::Effect>> &effects);')
    if r['extraClassDeclaration'].strip():
        w(r['extraClassDeclaration'])
    w('};')
    return '\n'.join(x for x in o if x)


def conv(r):
    e = r['conv'].replace('$_self', 'x')
    if r['storageType'] == '::mlir::UnitAttr':
        return 'return x != nullptr;'
    if 'OptionalAttr' in r['!superclasses']:
        return 'if (!x) return std::nullopt; return %s;' % e
    return 'return %s;' % e


def builders(op):
    """[(params, body)] of the default builders."""
    d = op.d
    out, seen = [], set()
    regions = '(void)s.addRegion(); ' * len(op.regions)

    def add(params, body):
        key = tuple(re.sub(r'\s*\w+( = .*)?$', '', p) for p in params)
        if key in seen:
            return
        if params and params[-1].endswith('= {}') and key[:-1] in seen:
            params = params[:-1] + [params[-1][:-5]]
        seen.add(key)
        out.append((params, body + regions))

    infer = op.iface('InferTypeOpInterface') is not None
    forms = []  # result forms
    res_sep = [('::mlir::TypeRange ' if variadic(r) else '::mlir::Type ') + 'r_' + n for n, r in op.results]
    forms.append((res_sep, ''.join('s.addTypes(r_%s); ' % n for n, r in op.results)))
    allb = op.results and all(buildable(d, r) for n, r in op.results)
    if allb:
        forms.append(([], ''.join('s.addTypes(b.getType<%s>()); ' % buildable(d, r) for n, r in op.results)))
    if infer:
        forms.append(([], '@infer '))
    forms.append((['::mlir::TypeRange r_types'], 's.addTypes(r_types); '))
    for raw in (False, True):
        if raw and not any(r['valueArg'] and 'OptionalAttr' not in r['!superclasses'] for n, r in op.attrs):
            continue
        for ps, b0 in forms:
            ps, body = list(ps), b0
            trail = True
            tail = []
            late = ''
            for kind, n, r in op.args:
                if kind == 'o':
                    if isopt(r):
                        tail.append('::mlir::Value o_' + n); body += 'if (o_%s) s.addOperands(o_%s); ' % (n, n)
                    elif variadic(r):
                        tail.append('::mlir::ValueRange o_' + n); body += 's.addOperands(o_%s); ' % n
                    else:
                        tail.append('::mlir::Value o_' + n); body += 's.addOperands(o_%s); ' % n
                elif raw and r['valueArg'] and 'OptionalAttr' not in r['!superclasses']:
                    tail.append('%s a_%s' % (r['valueArg'], n) + (' = false' if r['storageType'] == '::mlir::UnitAttr' and (kind, n, r) == op.args[-1] else ''))
                    e = r['build'].replace('$ctx', 'b.getContext()').replace('$v', 'a_' + n)
                    late += ('if (a_%s) ' % n if r['storageType'] == '::mlir::UnitAttr' else '') + 's.addAttribute("%s", %s); ' % (n, 'b.getUnitAttr()' if r['storageType'] == '::mlir::UnitAttr' else e)
                else:
                    tail.append('%s a_%s' % (r['storageType'], n)); late += 'if (a_%s) s.addAttribute("%s", a_%s); ' % (n, n, n)
            # defaults for the trailing optional attributes
            k = len(tail)
            while not raw and k and tail[k - 1].split()[-1].startswith('a_') and 'OptionalAttr' in dict((('a_' + n), r) for n, r in op.attrs)[tail[k - 1].split()[-1]]['!superclasses']:
                tail[k - 1] += ' = nullptr'; k -= 1
            if '@infer' in body:
                body = body.replace('@infer ', '') + late
                body += '::llvm::SmallVector<::mlir::Type> ts; Properties p; %s if (::llvm::failed(inferReturnTypes(b.getContext(), s.location, s.operands, s.attributes.getDictionary(b.getContext()), ::mlir::PropertyRef(&p), ::mlir::RegionRange(), ts))) ::mini::unreachable("inferring the result type of a %s failed", "", 0); s.addTypes(::llvm::ArrayRef<::mlir::Type>(ts)); ' % (''.join('p.p%s = ::llvm::dyn_cast_or_null<%s>(s.attributes.get("%s")); ' % (n, r['storageType'], n) for n, r in op.attrs), op.name)
            else:
                body += late
            add(ps + tail, body)
    generic = 's.addOperands(ops); s.addAttributes(attrs); s.addTypes(r_types); '
    add(['::mlir::TypeRange r_types', '::mlir::ValueRange ops', '::llvm::ArrayRef<::mlir::NamedAttribute> attrs = {}'], generic)
    if allb:
        add(['::mlir::ValueRange ops', '::llvm::ArrayRef<::mlir::NamedAttribute> attrs = {}'], 's.addOperands(ops); s.addAttributes(attrs); ' + ''.join('s.addTypes(b.getType<%s>()); ' % buildable(d, r) for n, r in op.results))
    return out


TRAITS = {'Pure': ['MemoryEffectFree', 'AlwaysSpeculatable'], 'NoMemoryEffect': ['MemoryEffectFree']}
IFACES = ('SymbolUserOpInterface', 'SymbolOpInterface', 'RegionBranchOpInterface', 'RegionBranchTerminatorOpInterface', 'CastOpInterface', 'InferTypeOpInterface', 'MemoryEffectOpInterface')


def op_defs(op):
    d, c = op.d, op.cls
    o = []
    ids = []
    for t in op.traits:
        n = t.get('trait')
        if n in IFACES and op.iface(n):
            ids.append('::mlir::TypeID::get<::mlir::%s>()' % n)
        elif n == 'OpAsmOpInterface':
            continue
        elif n in ('HasParent', 'SingleBlockImplicitTerminator', 'MemoryEffects'):
            continue
        elif 'TorchOpTrait' in t['!superclasses']:
            ids.append('::mlir::TypeID::get<%s::OpTrait::%s>()' % (NS, n))
        else:
            for x in TRAITS.get(n, [n]):
                if x in ('TypesMatchWith', 'RecursivelySpeculatable'):
                    continue
                ids.append('::mlir::TypeID::get<::mlir::OpTrait::%s>()' % x)
    w = o.append
    w('std::set<::mlir::TypeID> %s::miniTraits() { return {%s}; }' % (c, ', '.join(ids)))
    r = op.rec
    b = 'i.traits = miniTraits(); i.nRegions = %d; ' % len(op.regions)
    if r['hasFolder']:
        if len(op.results) == 1 and not variadic(op.results[0][1]):
            b += 'i.fold = [](::mlir::Operation *o, ::llvm::ArrayRef<::mlir::Attribute> a, ::llvm::SmallVectorImpl<::mlir::OpFoldResult> &r) -> ::llvm::LogicalResult { auto op = ::llvm::cast<%s>(o); auto x = op.fold(%s::FoldAdaptor(a, op)); if (!x) return ::llvm::failure(); if (auto v = ::llvm::dyn_cast_if_present<::mlir::Value>((::llvm::PointerUnion<::mlir::Attribute, ::mlir::Value> &)x)) if (v == o->getResult(0)) return ::llvm::success(); r.push_back(x); return ::llvm::success(); }; ' % (c, c)
        else:
            b += 'i.fold = [](::mlir::Operation *o, ::llvm::ArrayRef<::mlir::Attribute> a, ::llvm::SmallVectorImpl<::mlir::OpFoldResult> &r) -> ::llvm::LogicalResult { auto op = ::llvm::cast<%s>(o); return op.fold(%s::FoldAdaptor(a, op), r); }; ' % (c, c)
    if r['hasCanonicalizer'] or r['hasCanonicalizeMethod']:
        b += 'i.canon = &%s::getCanonicalizationPatterns; ' % c
    if op.iface('MemoryEffectOpInterface'):
        b += 'i.effects = [](::mlir::Operation *o) { ::llvm::SmallVector<::mlir::SideEffects::EffectInstance<::mlir::MemoryEffects::Effect>> e; ::llvm::cast<%s>(o).getEffects(e); return (unsigned)(e.size() * 65536 + ::llvm::count_if(e, [](auto &x) { return x.isWrite(); })); }; ' % c
    # the generated verifier: counts and type constraints
    v = []
    no, nr = len(op.operands), len(op.results)
    vo = any(variadic(x) for n, x in op.operands); vr = any(variadic(x) for n, x in op.results)
    v.append('if (o->getNumOperands() %s %d) return o->emitOpError("has the wrong number of operands");' % ('<' if vo else '!=', no - sum(variadic(x) for n, x in op.operands)))
    v.append('if (o->getNumResults() %s %d) return o->emitOpError("has the wrong number of results");' % ('<' if vr else '!=', nr - sum(variadic(x) for n, x in op.results)))
    v.append('if (o->getNumRegions() != %d) return o->emitOpError("has the wrong number of regions");' % len(op.regions))
    for n, x in op.attrs:
        if not x['isOptional']:
            v.append('if (!::llvm::isa_and_nonnull<%s>(o->getAttr("%s"))) return o->emitOpError("requires attribute %s");' % (x['storageType'], n, n))
    for which, lst, total in (('o', op.operands, 'getNumOperands'), ('r', op.results, 'getNumResults')):
        for i, (n, x) in enumerate(lst):
            s, l = posn(op, which, i)
            p = d_pred(d, base(d, x))
            if p is None:
                continue
            get = 'o->getOperand(k)' if which == 'o' else 'o->getResult(k)'
            v.append('{ unsigned N = o->%s(); (void)N; for (unsigned k = %s, e = k + %s; k < e; ++k) if (!%s(%s.getType())) return o->emitOpError("%s #") << k << " must be %s, but got " << %s.getType(); }' % (total, s, l or '1', p, get, 'operand' if which == 'o' else 'result', base(d, x)['summary'].replace('"', "'"), get))
    if r['hasVerifier']:
        v.append('return ::llvm::cast<%s>(o).verify();' % c)
    else:
        v.append('return ::llvm::success();')
    b += 'i.verify = [](::mlir::Operation *o) -> ::llvm::LogicalResult { %s }; ' % ' '.join(v)
    w('void %s::miniRegister(::mlir::OpInfo &i) { %s}' % (c, b))
    return '\n'.join(o)


_preds = {}


def d_pred(d, r):
    n = r['!name']
    if n == 'AnyType':
        return None
    name = 'is_' + re.sub(r'\W', '_', n)
    _preds[name] = pred(d, r, 'ty')
    return name


def type_defs(d):
    types = [v for k, v in d.items() if isinstance(v, dict) and 'TypeDef' in v.get('!superclasses', [])]
    h = ['#ifdef GET_TYPEDEF_CLASSES\n#undef GET_TYPEDEF_CLASSES', 'namespace mlir { class AsmParser; class AsmPrinter; namespace torch { namespace Torch {']
    cc = ['namespace mlir { namespace torch { namespace Torch {']
    h += ['class %s;' % t['cppClassName'] for t in types]
    fixed = []
    for t in types:
        c = t['cppClassName']
        ps = []
        for a, n in t['parameters']['args']:
            cty, alloc = (a, None) if isinstance(a, str) else (d[a['def']]['cppType'], d[a['def']])
            ps.append((cty, n))
        store = {'::llvm::StringRef': 'std::string', '::llvm::ArrayRef<::mlir::Type>': 'std::vector<::mlir::Type>', '::std::optional<::llvm::ArrayRef<int64_t>>': 'std::optional<std::vector<int64_t>>'}
        b = t['cppBaseClassName']
        h.append('namespace detail { struct %sStorage : ::mlir::TypeStorage { %s}; }' % (c, ''.join('%s %s; ' % (store.get(p, p), n) for p, n in ps)))
        plist = ''.join(', %s %s' % (p, n) for p, n in ps)
        alist = ''.join(', %s' % n for p, n in ps)
        h.append('class %s : public %s { public: using %s::%s; using StorageType = detail::%sStorage; const StorageType *st() const { return static_cast<const StorageType *>(this->impl); } StorageType *getImpl() const { return static_cast<StorageType *>(this->impl); } static bool classof(::mlir::Type t) { return t.getTypeID() == ::mlir::TypeID::get<%s>(); }' % (c, b, b, b.split('::')[-1], c, c))
        h.append('  struct Base { static %s get(::mlir::MLIRContext *c%s) { return getRaw(c%s); } };' % (c, plist, alist))
        h.append('  static %s getRaw(::mlir::MLIRContext *context%s);' % (c, plist))
        h.append('  static constexpr ::llvm::StringLiteral getMnemonic() { return ::llvm::StringLiteral("%s"); } static constexpr ::llvm::StringLiteral name = "torch.%s"; static constexpr ::llvm::StringLiteral dialectName = "torch";' % (t['mnemonic'], t['mnemonic']))
        sigs = set()
        gets = []
        if not t['skipDefaultBuilders']:
            gets.append((['::mlir::MLIRContext *context'] + ['%s %s' % p for p in ps], 'return getRaw(context%s);' % alist))
        for bd in t['builders']:
            bd = d[bd['def']]
            pp = [] if bd['hasInferredContextParam'] else ['::mlir::MLIRContext *context']
            for a, n in bd['dagParams']['args']:
                pp.append('%s %s' % (a, n) if isinstance(a, str) else '%s %s = %s' % (d[a['def']]['type'], n, d[a['def']]['defaultValue']))
            gets.append((pp, bd['body'].replace('$_get', 'getRaw').replace('$_ctxt', 'context')))
        for pp, body in gets:
            h.append('  static %s get(%s);' % (c, ', '.join(pp)))
            cc.append('%s %s::get(%s) { %s }' % (c, c, ', '.join(re.sub(r' = .*', '', p) for p in pp), body))
            args = ', '.join(re.match(r'.*?(\w+)( = .*)?$', p).group(1) for p in pp)
            h.append('  static %s getChecked(::llvm::function_ref<::mlir::InFlightDiagnostic()> emitError%s) { %s return get(%s); }' % (c, ''.join(', ' + p for p in pp), ('if (::llvm::failed(verify(emitError%s))) return %s(); ' % (alist, c)) if t['genVerifyDecl'] else '', args))
        if t['genVerifyDecl']:
            h.append('  static ::llvm::LogicalResult verify(::llvm::function_ref<::mlir::InFlightDiagnostic()> emitError%s);' % plist)
            h.append('  static ::llvm::LogicalResult verifyInvariants(::llvm::function_ref<::mlir::InFlightDiagnostic()> e%s) { return verify(e%s); }' % (plist, alist))
        if t['hasCustomAssemblyFormat']:
            h.append('  static ::mlir::Type parse(::mlir::AsmParser &odsParser); void print(::mlir::AsmPrinter &odsPrinter) const; using ::mlir::Type::print;')
        for p, n in ps:
            if p == '::std::optional<::llvm::ArrayRef<int64_t>>':
                h.append('  %s get%s() const { if (!st()->%s) return std::nullopt; return ::llvm::ArrayRef<int64_t>(*st()->%s); }' % (p, camel(n), n, n))
            else:
                h.append('  %s get%s() const { return st()->%s; }' % (p, camel(n), n))
        h.append(t['extraClassDeclaration'] or '')
        h.append('};')
        # storage: uniqued by its printed parameters
        key = '"!torch.%s"' % t['mnemonic']
        fill = ''
        for p, n in ps:
            if p == '::llvm::StringRef':
                key += ' + std::string("|") + %s.str()' % n; fill += 'x->%s = %s.str(); ' % (n, n)
            elif p == '::llvm::ArrayRef<::mlir::Type>':
                key += ' + ::mlir::miniKey(%s)' % n; fill += 'x->%s.assign(%s.begin(), %s.end()); ' % (n, n, n)
            elif 'optional' in p:
                key += ' + ::mlir::miniKey(%s)' % n; fill += 'if (%s) x->%s = std::vector<int64_t>(%s->begin(), %s->end()); ' % (n, n, n, n)
            else:
                key += ' + std::string("|") + ::mlir::miniKey(%s)' % n; fill += 'x->%s = %s; ' % (n, n)
        ver = 'if (::llvm::failed(verify([&] { return ::mlir::emitError(::mlir::UnknownLoc::get(context)); }%s))) ::mini::unreachable("invalid parameters for %s", "", 0); ' % (alist, c) if t['genVerifyDecl'] else ''
        cc.append('%s %s::getRaw(::mlir::MLIRContext *context%s) { std::string key = %s; if (auto *s = ::mlir::lookupType(context, key)) return %s(s); %sauto *x = new detail::%sStorage(); %sreturn %s(::mlir::internType(context, ::mlir::TypeID::get<%s>(), key, x)); }' % (c, c, plist, key, c, ver, c, fill, c, c))
    h.append('} } }\n#endif')
    cc.append('static ::mlir::OptionalParseResult generatedTypeParser(::mlir::AsmParser &parser, ::llvm::StringRef *mnemonic, ::mlir::Type &value) { if (parser.parseKeyword(mnemonic)) return ::llvm::failure();')
    for t in types:
        if t['hasCustomAssemblyFormat']:
            cc.append('  if (*mnemonic == "%s") { value = %s::parse(parser); return ::llvm::success((bool)value); }' % (t['mnemonic'], t['cppClassName']))
        else:
            cc.append('  if (*mnemonic == "%s") { value = %s::get(parser.getContext()); return ::llvm::success(); }' % (t['mnemonic'], t['cppClassName']))
    cc.append('  return std::nullopt; }')
    cc.append('static ::llvm::LogicalResult generatedTypePrinter(::mlir::Type def, ::mlir::AsmPrinter &printer) {')
    for t in types:
        c = t['cppClassName']
        cc.append('  if (auto t = ::llvm::dyn_cast<%s>(def)) { printer << %s::getMnemonic(); %s return ::llvm::success(); }' % (c, c, 't.print(printer);' if t['hasCustomAssemblyFormat'] else ''))
    cc.append('  return ::llvm::failure(); }')
    cc.append('} } }')
    return '\n'.join(h), '#ifdef GET_TYPEDEF_CLASSES\n#undef GET_TYPEDEF_CLASSES\n' + '\n'.join(cc) + '\n#endif\n#ifdef GET_TYPEDEF_LIST\n#undef GET_TYPEDEF_LIST\n' + ', '.join('%s::%s' % (NS, t['cppClassName']) for t in types) + '\n#endif\n'


def pass_defs(d):
    ps = [v for k, v in d.items() if isinstance(v, dict) and 'Pass' in v.get('!superclasses', [])]
    o = []
    for p in ps:
        n = p['!name']
        U = n.upper()
        opts = [d[x['def']] for x in p['options']]
        st = ''.join('%s %s%s; ' % ('::llvm::SmallVector<%s>' % q['type'] if q['isList'] else q['type'], q['cppName'], ' = ' + q['defaultValue'] if q['defaultValue'] else '') for q in opts)
        o.append('#if defined(GEN_PASS_DECL) || defined(GEN_PASS_DECL_%s)\n#ifndef MINI_PASS_DECL_%s\n#define MINI_PASS_DECL_%s\nstruct %sOptions { %s};\n#endif\n#undef GEN_PASS_DECL_%s\n#endif' % (U, U, U, n, st, U))
        opt = ''.join('  ::mlir::Pass::%s<%s> %s{*this, "%s"%s};\n' % ('ListOption' if q['isList'] else 'Option', q['type'], q['cppName'], q['argument'], ', ::llvm::cl::init(%s)' % q['defaultValue'] if q['defaultValue'] else '') for q in opts)
        base_ = '::mlir::OperationPass<%s>' % p['opType'] if p['opType'] else '::mlir::OperationPass<>'
        ctor = '  %sBase(%sOptions options) : %sBase() { %s}\n' % (n, n, n, ''.join('%s = options.%s; ' % (q['cppName'], q['cppName']) for q in opts)) if opts else ''
        o.append('''#ifdef GEN_PASS_DEF_%s
#undef GEN_PASS_DEF_%s
namespace impl {
template <typename DerivedT> class %sBase : public %s {
public:
  using Base = %sBase;
  %sBase() : %s(::mlir::TypeID::get<DerivedT>()) {}
  %sBase(const %sBase &o) : %s(o) {}
%s  ::llvm::StringRef getArgument() const override { return "%s"; }
  ::llvm::StringRef getName() const override { return "%s"; }
  std::unique_ptr<::mlir::Pass> clonePass() const override { return std::make_unique<DerivedT>(*static_cast<const DerivedT *>(this)); }
protected:
%s};
}
#endif''' % (U, U, n, base_, n, n, base_, n, n, base_, ctor, p['argument'], n, opt))
    o.append('#undef GEN_PASS_DECL')
    o.append('#ifdef GEN_PASS_REGISTRATION\n#undef GEN_PASS_REGISTRATION\n' + '\n'.join('inline void register%s() {}' % p['!name'] for p in ps) + '\ninline void registerTorchPasses() {} inline void registerTorchOnnxToTorchPasses() {}\n#endif')
    return '\n'.join(o)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, 'w').write(text)


HEADERS_RE = re.compile(r'#\s*include\s+"((?:mlir|llvm)/[^"]+)"')


def forward(out, sources):
    """A header for every mlir/... (and missing llvm/...) include of the sources."""
    names = {'llvm/Support/LogicalResult.h', 'mlir/IR/BuiltinOps.h'}
    for s in sources:
        names.update(HEADERS_RE.findall(open(s, errors='replace').read()))
    for n in names:
        if n.startswith('llvm/') and os.path.exists('/usr/include/llvm-18/' + n):
            continue
        write(os.path.join(out, 'inc', n), '#include "core.h"\n')


def generate(repo, out, chunks=4):
    inc = os.path.join(repo, 'include', 'torch-mlir')
    d = dump(repo, os.path.join(inc, 'Dialect/Torch/IR/TorchOps.td'))
    ops = [Op(d, v) for k, v in d.items() if isinstance(v, dict) and 'Op' in v.get('!superclasses', [])]
    g = os.path.join(out, 'inc', 'torch-mlir')
    ir = os.path.join(g, 'Dialect/Torch/IR')
    h = '#ifdef GET_OP_CLASSES\n#undef GET_OP_CLASSES\nnamespace mlir { namespace torch { namespace Torch {\n' + '\n'.join('class %s;' % o.cls for o in ops) + '\n' + '\n'.join(op_class(o) for o in ops) + '\n} } }\n#endif\n'
    write(os.path.join(ir, 'TorchOps.h.inc'), h)
    write(os.path.join(ir, 'TorchOps.cpp.inc'), '#ifdef GET_OP_LIST\n#undef GET_OP_LIST\n::mini::AllTorchOps\n#endif\n#undef GET_OP_CLASSES\n')
    tus = []
    per = (len(ops) + chunks - 1) // chunks
    for k in range(chunks):
        _preds.clear()
        part = ops[k * per:(k + 1) * per]
        body = '\n'.join(op_defs(o) for o in part)
        regs = ' '.join('d->registerOp<%s>();' % o.cls for o in part)
        f = os.path.join(out, 'TorchOpsDefs%d.cpp' % k)
        write(f, '#include "torch-mlir/Dialect/Torch/IR/TorchOps.h"\nusing namespace mlir; using namespace mlir::torch::Torch;\nnamespace mlir { namespace torch { namespace Torch {\n' + '\n'.join('static bool %s(::mlir::Type ty) { return %s; }' % x for x in _preds.items()) + '\n' + body + '\nvoid miniRegisterOps%d(::mlir::Dialect *d) { %s }\n} } }\n' % (k, regs))
        tus.append(f)
    f = os.path.join(out, 'TorchOpsReg.cpp')
    write(f, '#include "core.h"\nnamespace mlir { namespace torch { namespace Torch { %s } } }\nvoid mini::registerTorchOps(::mlir::Dialect *d) { %s }\n' % (' '.join('void miniRegisterOps%d(::mlir::Dialect *);' % k for k in range(chunks)), ' '.join('::mlir::torch::Torch::miniRegisterOps%d(d);' % k for k in range(chunks))))
    tus.append(f)
    write(os.path.join(out, 'ops.json'), json.dumps({o.name: [bool(o.rec['hasFolder']), bool(o.rec['hasCanonicalizer'] or o.rec['hasCanonicalizeMethod']), bool(o.rec['hasVerifier'])] for o in ops}))
    td = dump(repo, os.path.join(inc, 'Dialect/Torch/IR/TorchTypes.td'))
    th, tc = type_defs(td)
    write(os.path.join(ir, 'TorchTypes.h.inc'), th)
    write(os.path.join(ir, 'TorchTypes.cpp.inc'), tc)
    dd = d['Torch_Dialect']
    write(os.path.join(ir, 'TorchDialect.h.inc'), '''namespace mlir { namespace torch { namespace Torch {
class TorchDialect : public ::mlir::Dialect { void initialize();
public: explicit TorchDialect(::mlir::MLIRContext *c) : Dialect("torch", c, ::mlir::TypeID::get<TorchDialect>()) { initialize(); }
  static constexpr ::llvm::StringLiteral getDialectNamespace() { return ::llvm::StringLiteral("torch"); }
  ::llvm::LogicalResult verifyRegionArgAttribute(::mlir::Operation *op, unsigned regionIndex, unsigned argIndex, ::mlir::NamedAttribute attribute) override;
  ::mlir::Operation *materializeConstant(::mlir::OpBuilder &builder, ::mlir::Attribute value, ::mlir::Type type, ::mlir::Location loc) override;
  %s
}; } } }
''' % dd['extraClassDeclaration'])
    write(os.path.join(ir, 'TorchDialect.cpp.inc'), '')
    write(os.path.join(g, 'Dialect/Torch/Transforms/Passes.h.inc'), pass_defs(dump(repo, os.path.join(inc, 'Dialect/Torch/Transforms/Passes.td'))))
    write(os.path.join(g, 'Conversion/TorchOnnxToTorch/Passes.h.inc'), pass_defs(dump(repo, os.path.join(inc, 'Conversion/TorchOnnxToTorch/Passes.td'))))
    return ops, tus


if __name__ == '__main__':
    ops, tus = generate(sys.argv[1], sys.argv[2])
    print(len(ops), tus)
