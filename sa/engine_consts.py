PIP = frozenset('ptypes.' + n for n in ('Scalar', 'Pattern', 'List', 'Range', 'Block', 'Nil'))
SCALAR, PATTERN, LIST, RANGE, BLOCK, NIL = ('ptypes.' + n for n in
                                            ('Scalar', 'Pattern', 'List', 'Range', 'Block', 'Nil'))
LVAL = 'execution.Lval'
NUM = frozenset(['int', 'float', 'bool'])
INT = frozenset(['int'])
STR = frozenset(['str'])
BOOL = frozenset(['bool'])
