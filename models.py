"""What each property's check consists of, besides the recorded sessions of harness/src/plan.rs."""

LEVEL = 'model_checking'


def calc(module, kind, what):
    return dict(module=module, cfg='%s_%s' % (module, kind), generates=True,
                what='all histories of calls on registers holding boundary operands; ' + what + '; every state reached is replayed in the library')


def text(kind, what):
    return dict(module='MCText', cfg='MCText_' + kind, generates=True, what='every string over an alphabet up to a length: ' + what)


def matrix(kind, what):
    return dict(module='MCMatrix', cfg='MCMatrix_' + kind, generates=True, what=what)


UAdd = calc('MCUint', 'Add', 'laws of addition, subtraction and absolute difference')
UMul = calc('MCUint', 'Mul', 'laws of multiplication, powers and shifts')
UDiv = calc('MCUint', 'Div', 'Euclidean division laws')
UOrder = calc('MCUint', 'Order', 'total order laws')
UMachine = calc('MCUint', 'Machine', 'conversion ranges')
UText = calc('MCUint', 'Text', 'printed text parses back')
UFuncs = calc('MCUint', 'Funcs', 'definitions of sqrt, log2, gcd')
IInt = calc('MCInt', 'Int', 'laws of signed arithmetic')
IOrder = calc('MCInt', 'Order', 'total order laws')
IMachine = calc('MCInt', 'Machine', 'conversion ranges')
IText = calc('MCInt', 'Text', 'printed text parses back')
IFuncs = calc('MCInt', 'Funcs', 'definitions of the integer functions')
RRatio = calc('MCRatio', 'Ratio', 'field axioms')
RRound = calc('MCRatio', 'Round', 'inequalities of floor, truncate, round, frac')
ROrder = calc('MCRatio', 'Order', 'total order laws')
RMachine = calc('MCRatio', 'Machine', 'conversion ranges')
RText = calc('MCRatio', 'Text', 'printed text parses back')
BigNum = dict(module='BigNumCheck', cfg='BigNumCheck', what='the Java evaluation of the BigNum operators agrees with their TLA+ definitions')
RealFn = dict(module='HRealCheck', cfg='HRealCheck', what='the fixed-point enclosures of the real functions satisfy their functional equations')

FArith = calc('MCF192', 'Arith', 'the correctly rounded result is accepted, results off by 64 units are refused; the order is that of the rationals')
FRound = calc('MCF192', 'Round', 'inequalities of floor, ceil, round, truncate; sqrt; elementary functions')
FConv = calc('MCF192', 'Conv', 'exact conversion to and from rationals')
Float = dict(module='MCFloat', cfg='MCFloat', generates=True,
             what='a walk over the boundary bit patterns of f32 and f64: exact values, only the nearest pattern accepted at and around every midpoint')
Funcs = dict(module='MCFuncs', cfg='MCFuncs', generates=True,
             what='every n up to a limit from several bases: recurrences of factorial and Fibonacci, primality by definition, one factorisation')
Series = dict(module='MCSeries', cfg='MCSeries', generates=True,
              what='every k/q in a span and every number of terms: real values accepted, values outside the remainder bound refused, bounds shrink')

def limbs(kind, what):
    return dict(module='Limbs', cfg='Limbs_' + kind, generates=True, what='the algorithm as a step machine on digits in a small base, all operands: ' + what)


LAdd = limbs('add', 'carry and borrow chains, loop invariants, termination')
LMul = limbs('mul', 'deferred carries, bound on the cells')
LKara = limbs('kara', "Karatsuba's recursion")
LDiv = limbs('div', 'estimated quotients and their correction, words do not overflow, the rest shrinks')
LSqrt = limbs('sqrt', 'first guess, Newton steps, final search')
LGcd = limbs('gcd', "Euclid's invariant")

# property -> TLC models explored by its check
MODELS = {
    'C01': [BigNum, UAdd, LAdd],
    'C02': [BigNum, UMul, LMul, LKara],
    'C03': [BigNum, UDiv, LDiv],
    'C04': [UAdd, IInt, RRatio],
    'C05': [UMul, UDiv, IInt],
    'C06': [IInt],
    'C07': [UOrder, IOrder, ROrder],
    'C08': [RRatio],
    'C09': [RRound],
    'C10': [UMachine, IMachine, RMachine],
    'C11': [UText, IText, text('int', 'integer literals'), text('int2', 'integer literals with radix prefixes')],
    'C12': [RText, text('rat', 'decimal literals'), text('rat2', 'decimal literals in other radices and with separators')],
    'C13': [RText],
    'C14': [Float],
    'C15': [UFuncs, IFuncs, LSqrt, LGcd],
    'C16': [Funcs],
    'C17': [RealFn, Series],
    'C18': [FArith],
    'C19': [FConv, text('flt', 'float literals'), text('flt2', 'float literals')],
    'C20': [RealFn, FRound],
    'C21': [matrix('two', 'all 2x2 matrices over a set of rationals'), matrix('three', '3x3 matrices'), matrix('ob', 'non-square shapes')],
    'C22': [dict(module='MCPoly', cfg='MCPoly', generates=True, what='all polynomials over a set of coefficients up to a degree, and all point sets to interpolate')],
}

RULES = {
    '': 'sessions of calls on the real library: exhaustive pairs of boundary values, sweeps over operand lengths, seeded random '
        'boundary-biased operands and operation histories, and the sessions TLC generated from the models; a call is distinct by '
        'operation and operand values (within one trace)',
}
