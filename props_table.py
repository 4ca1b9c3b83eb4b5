"""Which sessions each property is decided with, and which clauses of the specification belong to it.

families: generator families (spec/Gen.tla), flags h (history), c (order of construction), v (without values)
random:   (profile, flags, sessions quick, sessions thorough) of the random client (spec/Client.tla)
concern:  operations |-> clauses ('*': all); a crash or hang of one of the operations always counts
"""
ARITH = {'add', 'sub', 'mul', 'div', 'iadd', 'isub', 'imul', 'idiv', 'neg', 'pos'}
POWERS = {'pow', 'sqrt'}
FCTS = {'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2'}
REWRITES = {'expand', 'simplify', 'normal'}
LEAVES = {'int', 'rat', 'dbl', 'zero', 'pi', 'euler', 'str', 'sym', 'psym', 'big'}
MAKES = ARITH | POWERS | FCTS
VALUED = MAKES | REWRITES | {'subst', 'diff', 'rebuild', 'roundtrip'}
VAL = {'value', 'undefined', 'leak', 'exception', 'exact', 'lowest', 'crash'}
ALL = '*'

# operations that may legitimately take long on large operands: running out of time in a random session proves nothing
HEAVY = {'simplify', 'normal', 'frac', 'numer', 'denom', 'gcd', 'divide', 'expand', 'simpcx', 'det', 'solve', 'inv', 'rebuild', 'pdivide', 'ldivide', 'poly', 'diff', 'subst', 'ptok', 'roundtrip', 'sin', 'cos', 'tan', 'log', 'pow'}

PROPS = {
    'C01': dict(families=['arith', 'arithdbl', 'triple', 'trigkin', 'trigrel', 'wide', 'blocks'], random=[('kin', '', 500, 12000), ('arith', '', 250, 6000), ('trigarith', '', 250, 6000), ('rootarith', '', 250, 6000), ('dblarith', '', 150, 3000)], concern=[(ARITH, VAL | {'domain'})]),
    'C02': dict(families=['pow', 'nest', 'numpow', 'fracpow', 'constpow'], random=[('kinpow', '', 500, 12000), ('power', '', 400, 10000), ('rootarith', '', 300, 6000)], concern=[(POWERS, VAL | {'domain'})]),
    'C03': dict(families=['order:cv', 'ordersums:cv', 'namepair:cv', 'wide:cv', 'blocks:cv', 'numorder:cv'], random=[('canon', 'cv', 600, 10000)], concern=[({'add', 'mul'}, {'order'}), ({'rebuild'}, ALL), (VALUED, {'shape'}), ({'eq'}, {'structure', 'hash'})]),
    'C04': dict(families=['eq', 'twin', 'nearby', 'namepair', 'wide', 'numorder'], random=[('kineq', '', 300, 8000), ('number', '', 200, 4000), ('eq', '', 400, 8000)], concern=[({'eq'}, ALL)]),
    'C05': dict(families=['expand2', 'expand3', 'expandpow', 'deepsimp', 'simpof'], random=[('kinexpand', '', 300, 8000), ('expand', '', 300, 6000), ('ident', '', 150, 4000)], concern=[({'expand'}, ALL)]),
    'C06': dict(families=['rat2', 'rat3', 'mix2', 'fracsum', 'fracpair', 'deepsimp', 'chain', 'simpof'], random=[('kinsimp', '', 300, 8000), ('rational', '', 200, 4000), ('mixed', '', 200, 4000), ('ident', '', 150, 4000)], concern=[({'simplify', 'normal', 'simpcx'}, ALL)]),
    'C07': dict(families=['rat2', 'rat3', 'mix2', 'fracsum', 'fracpair', 'deepsimp', 'chain', 'simpof'], random=[('kinsimp', '', 300, 8000), ('rational', '', 200, 4000), ('mixed', '', 200, 4000)], concern=[({'frac', 'numer', 'denom'}, ALL)]),
    'C08': dict(families=['poly3', 'poly1', 'bigcoeffs'], random=[('gcd', '', 300, 6000)], concern=[({'gcd', 'pgcd', 'quot', 'rem', 'divide', 'lquot', 'lrem', 'ldivide'}, ALL)]),
    'C09': dict(families=['subst', 'substpos', 'deepcalc', 'wide', 'substof'], random=[('kinsubst', '', 400, 8000), ('subst', '', 400, 8000)], concern=[({'subst'}, ALL)]),
    'C10': dict(families=['diff', 'difffct', 'diffall', 'diffatan2', 'deepcalc', 'wide', 'diffof'], random=[('kindiff', '', 400, 8000), ('diff', '', 400, 8000)], concern=[({'diff'}, ALL)]),
    'C11': dict(families=['trig', 'compose', 'composesym', 'atan2', 'log2', 'constpow', 'edge', 'signof'], random=[('kinfct', '', 400, 8000), ('fct', '', 500, 12000), ('signfct', '', 200, 4000)], concern=[(FCTS, VAL | {'domain', 'halfturn'})]),
    'C12': dict(families=['num2', 'numexp', 'perfect', 'frac2', 'nearroot', 'dblconv', 'numcmp'], random=[('number', '', 400, 8000), ('rootarith', '', 200, 4000)], concern=[(ARITH | POWERS | LEAVES, ALL), ({'sign'}, {'number'}), ({'eq'}, {'structure', 'hash', 'number'}), ({'ncmp'}, ALL)]),
    'C13': dict(families=['sign2', 'signfct', 'signof', 'deepcalc', 'nearroot', 'edge', 'wide'], random=[('kinsign', '', 300, 6000), ('sign', '', 300, 6000), ('signfct', '', 300, 6000)], concern=[({'sign'}, ALL)]),
    'C14': dict(families=['conv2', 'conv1', 'dblconv', 'nearroot', 'edge'], random=[('conv', '', 400, 8000), ('dblarith', '', 200, 4000)], concern=[({'todouble', 'toint', 'dbl', 'int'}, ALL)]),
    'C15': dict(families=['parse', 'parseframe', 'parsemore'], random=[('parse', '', 400, 8000)], concern=[({'ptok'}, ALL)]),
    'C16': dict(families=['print', 'print1', 'deeptext', 'wide', 'textof'], random=[('kinprint', '', 300, 6000), ('print', '', 400, 8000)], concern=[({'roundtrip', 'print'}, ALL)]),
    'C17': dict(families=['lin2', 'lin3', 'lin3sing', 'linskip', 'linnum', 'linx', 'linbig'], random=[('lin', '', 150, 3000), ('linnum', '', 150, 3000)], concern=[({'solve'}, ALL)]),
    'C18': dict(families=['lin2', 'lin3', 'lin3sing', 'linskip', 'linnum', 'linx', 'linbig'], random=[('lin', '', 150, 3000), ('linnum', '', 150, 3000)], concern=[({'det', 'inv'}, ALL)]),
    'C19': dict(families=['und1', 'und2', 'dom', 'pow', 'edge', 'undwide', 'undwidesym'], random=[('undef', '', 300, 6000), ('domain', '', 400, 8000)], concern=[(VALUED, {'absorb', 'undefined', 'domain', 'crash'}), ({'det', 'solve', 'inv', 'ptok', 'denom'}, {'undefined'}), ({'eq', 'sign'}, {'undefined'})]),
    'C20': dict(families=['deepsimp:h', 'chain:h'], random=[('hist', 'hv', 400, 8000)], concern=[('*', {'history', 'frozen', 'leak'})]),
    'C21': dict(families=['query', 'deepcalc', 'wide', 'textof'], random=[('kinquery', '', 250, 5000), ('query', '', 250, 5000), ('twinquery', '', 250, 5000)], concern=[({'has', 'query', 'op', 'complexity'}, ALL)]),
    'C22': dict(families=['stream1', 'stream', 'deeptext', 'wide', 'textof'], random=[('kinstream', '', 300, 6000), ('stream', '', 300, 6000)], concern=[({'stream'}, ALL)]),
    'C23': dict(families=['names', 'texts'], random=[('named', '', 400, 6000)], concern=[({'vstr'}, ALL)]),
    'C24': dict(families=['pseudo'], random=[('poly', '', 400, 8000)], concern=[({'pquot', 'prem', 'poly', 'pdivide'}, ALL)]),
}
