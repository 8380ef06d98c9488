"""Thin read-only ctypes view of LLVM IR (libLLVM 18 C API)."""
import ctypes as C
import ctypes.util
import os

_CANDIDATES = ['/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so',
               '/usr/lib/llvm-18/lib/libLLVM.so', '/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1']
L = None
for p in _CANDIDATES:
    if os.path.exists(p):
        L = C.CDLL(p)
        break
if L is None:
    raise RuntimeError('libLLVM-18 not found')

P = C.c_void_p


def fn(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = args
    return f


ctx_create = fn('LLVMContextCreate', P)
membuf_file = fn('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
parse_ir = fn('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
first_function = fn('LLVMGetFirstFunction', P, P)
next_function = fn('LLVMGetNextFunction', P, P)
first_global = fn('LLVMGetFirstGlobal', P, P)
next_global = fn('LLVMGetNextGlobal', P, P)
named_function = fn('LLVMGetNamedFunction', P, P, C.c_char_p)
first_bb = fn('LLVMGetFirstBasicBlock', P, P)
next_bb = fn('LLVMGetNextBasicBlock', P, P)
first_inst = fn('LLVMGetFirstInstruction', P, P)
next_inst = fn('LLVMGetNextInstruction', P, P)
opcode = fn('LLVMGetInstructionOpcode', C.c_int, P)
num_operands = fn('LLVMGetNumOperands', C.c_int, P)
operand = fn('LLVMGetOperand', P, P, C.c_uint)
typeof = fn('LLVMTypeOf', P, P)
type_kind = fn('LLVMGetTypeKind', C.c_int, P)
element_type = fn('LLVMGetElementType', P, P)
vector_size = fn('LLVMGetVectorSize', C.c_uint, P)
array_length = fn('LLVMGetArrayLength', C.c_uint, P)
int_width = fn('LLVMGetIntTypeWidth', C.c_uint, P)
struct_count = fn('LLVMCountStructElementTypes', C.c_uint, P)
struct_type_at = fn('LLVMStructGetTypeAtIndex', P, P, C.c_uint)
is_const_int = fn('LLVMIsAConstantInt', P, P)
is_const_fp = fn('LLVMIsAConstantFP', P, P)
is_constant = fn('LLVMIsConstant', C.c_int, P)
is_const_expr = fn('LLVMIsAConstantExpr', P, P)
is_global_var = fn('LLVMIsAGlobalVariable', P, P)
is_function = fn('LLVMIsAFunction', P, P)
is_argument = fn('LLVMIsAArgument', P, P)
is_undef = fn('LLVMIsUndef', C.c_int, P)
is_poison = fn('LLVMIsPoison', C.c_int, P)
is_null = fn('LLVMIsNull', C.c_int, P)
is_inst = fn('LLVMIsAInstruction', P, P)
const_sext = fn('LLVMConstIntGetSExtValue', C.c_longlong, P)
const_zext = fn('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
const_real = fn('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
aggregate_element = fn('LLVMGetAggregateElement', P, P, C.c_uint)
const_opcode = fn('LLVMGetConstOpcode', C.c_int, P)
_value_name = fn('LLVMGetValueName2', C.c_void_p, P, C.POINTER(C.c_size_t))
called_value = fn('LLVMGetCalledValue', P, P)
num_args = fn('LLVMGetNumArgOperands', C.c_uint, P)
num_succ = fn('LLVMGetNumSuccessors', C.c_uint, P)
succ = fn('LLVMGetSuccessor', P, P, C.c_uint)
is_conditional = fn('LLVMIsConditional', C.c_int, P)
condition = fn('LLVMGetCondition', P, P)
count_incoming = fn('LLVMCountIncoming', C.c_uint, P)
incoming_value = fn('LLVMGetIncomingValue', P, P, C.c_uint)
incoming_block = fn('LLVMGetIncomingBlock', P, P, C.c_uint)
icmp_pred = fn('LLVMGetICmpPredicate', C.c_int, P)
fcmp_pred = fn('LLVMGetFCmpPredicate', C.c_int, P)
num_mask = fn('LLVMGetNumMaskElements', C.c_uint, P)
mask_value = fn('LLVMGetMaskValue', C.c_int, P, C.c_uint)
gep_source_type = fn('LLVMGetGEPSourceElementType', P, P)
data_layout = fn('LLVMGetModuleDataLayout', P, P)
offset_of = fn('LLVMOffsetOfElement', C.c_ulonglong, P, P, C.c_uint)
abi_size = fn('LLVMABISizeOfType', C.c_ulonglong, P, P)
alignment = fn('LLVMGetAlignment', C.c_uint, P)
num_indices = fn('LLVMGetNumIndices', C.c_uint, P)
indices = fn('LLVMGetIndices', C.POINTER(C.c_uint), P)
allocated_type = fn('LLVMGetAllocatedType', P, P)
is_volatile = fn('LLVMGetVolatile', C.c_int, P)
count_params = fn('LLVMCountParams', C.c_uint, P)
get_param = fn('LLVMGetParam', P, P, C.c_uint)
initializer = fn('LLVMGetInitializer', P, P)
is_global_const = fn('LLVMIsGlobalConstant', C.c_int, P)
is_thread_local = fn('LLVMIsThreadLocal', C.c_int, P)
linkage = fn('LLVMGetLinkage', C.c_int, P)
is_declaration = fn('LLVMIsDeclaration', C.c_int, P)
bb_parent = fn('LLVMGetInstructionParent', P, P)
terminator = fn('LLVMGetBasicBlockTerminator', P, P)
_print_value = fn('LLVMPrintValueToString', C.c_void_p, P)
dispose_msg = fn('LLVMDisposeMessage', None, C.c_void_p)
debug_loc = fn('LLVMInstructionGetDebugLoc', P, P)
dil_line = fn('LLVMDILocationGetLine', C.c_uint, P)
dil_scope = fn('LLVMDILocationGetScope', P, P)
dil_inlined = fn('LLVMDILocationGetInlinedAt', P, P)
di_scope_file = fn('LLVMDIScopeGetFile', P, P)
di_file_name = fn('LLVMDIFileGetFilename', C.c_void_p, P, C.POINTER(C.c_uint))
di_file_dir = fn('LLVMDIFileGetDirectory', C.c_void_p, P, C.POINTER(C.c_uint))
md_kind = fn('LLVMGetMDKindIDInContext', C.c_uint, P, C.c_char_p, C.c_uint)
get_metadata = fn('LLVMGetMetadata', P, P, C.c_uint)
md_num_operands = fn('LLVMGetMDNodeNumOperands', C.c_uint, P)
md_operands = fn('LLVMGetMDNodeOperands', None, P, C.POINTER(P))
get_subprogram = fn('LLVMGetSubprogram', P, P)
disub_line = fn('LLVMDISubprogramGetLine', C.c_uint, P)
get_attr_count = fn('LLVMGetAttributeCountAtIndex', C.c_uint, P, C.c_uint)
enum_attr_kind = fn('LLVMGetEnumAttributeKindForName', C.c_uint, C.c_char_p, C.c_size_t)
get_enum_attr = fn('LLVMGetEnumAttributeAtIndex', P, P, C.c_uint, C.c_uint)
global_value_type = fn('LLVMGlobalGetValueType', P, P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv',
       16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and',
       24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext',
       32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext',
       39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp',
       44: 'phi', 45: 'call', 46: 'select', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence',
       56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 49: 'va_arg', 67: 'callbr', 4: 'indirectbr'}
TK = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'x86_fp80', 5: 'fp128', 7: 'label', 8: 'int',
      9: 'func', 10: 'struct', 11: 'array', 12: 'ptr', 13: 'vector', 14: 'metadata', 16: 'token'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno',
        9: 'ueq', 10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}


def name(v):
    n = C.c_size_t()
    p = _value_name(v, C.byref(n))
    return C.string_at(p, n.value).decode() if p else ''


def text(v):
    p = _print_value(v)
    s = C.string_at(p).decode(errors='replace')
    dispose_msg(p)
    return s.strip()


class Module:
    def __init__(self, path):
        self.ctx = ctx_create()
        buf = P()
        msg = C.c_char_p()
        if membuf_file(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError('cannot read %s: %s' % (path, msg.value))
        m = P()
        if parse_ir(self.ctx, buf, C.byref(m), C.byref(msg)):
            raise RuntimeError('cannot parse %s: %s' % (path, msg.value))
        self.m = m
        self.td = data_layout(m)
        self.kscope = md_kind(self.ctx, b'alias.scope', 11)
        self.knoalias = md_kind(self.ctx, b'noalias', 7)

    def functions(self):
        f = first_function(self.m)
        while f:
            yield f
            f = next_function(f)

    def globals(self):
        g = first_global(self.m)
        while g:
            yield g
            g = next_global(g)

    def function(self, nm):
        return named_function(self.m, nm.encode())


def blocks(f):
    b = first_bb(f)
    while b:
        yield b
        b = next_bb(b)


def insts(b):
    i = first_inst(b)
    while i:
        yield i
        i = next_inst(i)


def op(i):
    return OPC.get(opcode(i), 'op%d' % opcode(i))


def kind(t):
    return TK.get(type_kind(t), 'tk%d' % type_kind(t))


def succs(b):
    t = terminator(b)
    return [succ(t, k) for k in range(num_succ(t))]


def loc_chain(i):
    """[(file, line)] innermost first."""
    out = []
    d = debug_loc(i)
    while d:
        line = dil_line(d)
        f = di_scope_file(dil_scope(d))
        fname = ''
        if f:
            n = C.c_uint()
            p = di_file_name(f, C.byref(n))
            fname = C.string_at(p, n.value).decode() if p else ''
        out.append((fname, line))
        d = dil_inlined(d)
    return out


def md_ops(v):
    n = md_num_operands(v)
    arr = (P * n)()
    md_operands(v, arr)
    return [arr[k] for k in range(n)]


def scopes(i, kid):
    md = get_metadata(i, kid)
    if not md:
        return ()
    return tuple(md_ops(md))
