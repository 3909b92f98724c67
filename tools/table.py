T_TEST = 'The test suite covers list append/extend and range methods only; '

P('C01', 'Every operator yields a Pip value',
  'Whatever the operands, evaluating any built-in operator yields a Pip value (scalar, pattern, list, range, block or nil) '
  'or a reference to a variable, and every element of a list it builds is itself a Pip value; a raw host-language object '
  '(None, int, str, bool, Python list, ...) never escapes as a result.',
  ['inputs', 'programs'], 'all operators x all operand type combinations x all operand values',
  T_TEST + 'about 230 operator implementations times six operand types per operand are never called by any test.',
  ['execution.py', 'ptypes.py', 'operators.py'],
  [('operator implementations', 'execution.py ProgramState'), ('conversion to values', 'ptypes.py toPipType'),
   ('operator table', 'operators.py precedenceTable')], AI, NOTE_AI, ['result of an expression'])

P('C12', 'Operands of unsupported types never crash an operator',
  'Applying any built-in operator or command to operands of any types never fails with a host-language type, attribute, name '
  'or key error: an unsupported combination gives an optional warning and the value nil, and the program continues. '
  'Converting, comparing, hashing and printing any value never fails that way either.',
  ['inputs', 'programs'], 'all operators, commands and value methods x all operand type combinations',
  T_TEST + 'no operator or command is exercised with an unsupported operand.',
  ['execution.py', 'ptypes.py'],
  [('isinstance dispatch and warn-and-nil branches', 'execution.py ProgramState'),
   ('value classes', 'ptypes.py')], AI, NOTE_AI, ['stderr "Fatal error during execution"', 'exit status'])

P('C13', 'Operands outside an operator\'s domain give nil, not a fatal error',
  'An operator or command applied to operands of supported types but outside its domain (division or modulo by zero, roots '
  'and logarithms of unsuitable numbers, empty strings, lists or ranges, indices past the end, ranges without an upper bound, '
  'invalid character codes) gives an optional warning and a value such as nil; no arithmetic, value or index exception '
  'terminates the program.',
  ['inputs', 'programs'], 'all operators, commands and value methods x all operand values, including zero, negative, empty and infinite',
  T_TEST + 'no operator is exercised on an operand outside its domain.',
  ['execution.py', 'ptypes.py'],
  [('guards and except clauses', 'execution.py ProgramState'), ('value classes', 'ptypes.py')], AI,
  NOTE_AI + ' Interval and length facts are non-relational apart from recorded comparisons.',
  ['stderr "Fatal error during execution"', 'exit status'])

WORLD = ('abstract interpretation of the evaluator on a concrete parse tree over opaque (symbolic) operands, with the history of '
         'calls recorded on every path and compared with the rule; nothing is executed')
NOTE_W = ('Holds for all operand values at the enumerated tree / container shapes (bounded: lists of 0-3 items, nesting to depth 3, '
          'deeper in the thorough tier); shapes the abstraction cannot follow are counted as undecided, not reported.')
T_EVAL = 'The test suite never evaluates a program; '

P('C07', 'Function calls leave the call stack balanced',
  'When a function call ends - with a result or with an error raised at any statement or in the return expression - the call '
  'depth, the stack of scopes and the current scope are exactly what they were before the call, and the caller\'s local '
  'variables are unchanged; nothing other than a function call opens, closes, replaces or switches scopes.',
  ['programs', 'fault_sequences'], 'all function bodies, all arguments, every statement as the point of failure',
  T_EVAL + 'an unbalanced scope shows only when an error is raised inside a function and the session goes on (REPL).',
  ['execution.py'], [('scope stack', 'execution.py functionCall / openScope / closeScope')],
  WORLD + '; plus a write-effect analysis of the scope fields over every function', NOTE_W, ['later values of local variables'],
  [('scope stack', 'scopes, localScope and callDepth describe the calls in progress', 'execution.py ProgramState')])

P('C10', 'Operands are evaluated once, left to right, before the operator is applied',
  'Evaluating an operator evaluates each of its operands exactly once, in order from left to right, and then applies the '
  'operator once to those values; its result is the value of the expression. The exceptions are the short-circuit operators: '
  '& and | evaluate the right operand only if the left is true resp. false and yield the deciding operand, ? evaluates the '
  'condition and exactly one branch, and a chain of comparisons evaluates each operand at most once, stops at the first '
  'comparison that fails, and is true exactly if all hold.',
  ['programs', 'inputs'], 'all operators x all operand expressions (with side effects) x all operand values',
  T_EVAL + 'the order and number of evaluations is only visible for operands with side effects, on every operator.',
  ['execution.py', 'operators.py'], [('evaluator', 'execution.py evaluate / getRval'),
                                     ('short-circuit operators', 'execution.py AND, OR, IFTE, CHAIN')],
  WORLD, NOTE_W, ['order of side effects'])

P('C23', 'Fold, scan, map and compute-and-assign follow their definitions',
  'For every binary operator op, $op of an iterable combines its items in the direction of op\'s associativity, one '
  'application per adjacent pair (an empty iterable gives the operator\'s default value or nil, a single item gives that item), '
  '\\$op gives the list of all partial results of that fold, op* applies a unary operator to every item in order, and '
  'x op: y assigns the value of x op y to x (whole or indexed) evaluating the target and y once; combined meta-operators '
  'compose. Chaining comparison operators fold and scan like the chain. The item order and every application is as stated for '
  'every operator.',
  ['inputs', 'programs'], 'all operators x all iterables (lists, ranges, text) x all item values',
  T_EVAL + 'no meta-operator is exercised by any test.',
  ['execution.py', 'operators.py'], [('meta-operators', 'execution.py FOLDMETA, SCANMETA, MAPMETA, evaluate'),
                                     ('defaults and associativity', 'operators.py')], WORLD, NOTE_W, ['result of an expression'])

P('C25', 'Operators on functions build a function without running or changing them',
  'An operator that can take part in a lambda expression, applied to one or more functions, applies nothing: it yields a new '
  'function whose statements are those of the function operands in order and whose return expression is the operator over the '
  'operands\' return expressions and the values of the other operands; the operand functions, also those stored in variables, '
  'stay as they were. Fold, scan and map of an operator over a function likewise give a new function, and keep the operator '
  'and its flags.',
  ['programs', 'inputs'], 'all operators x all combinations of function and non-function operands',
  T_EVAL + 'lambda construction is not exercised at all.',
  ['execution.py'], [('lambda construction', 'execution.py evaluate, FOLDMETA, SCANMETA, MAPMETA')], WORLD, NOTE_W,
  ['value of a lambda expression', 'the operand functions afterwards'])

P('C26', 'Item-wise operators apply to every item and keep the list structure',
  'An operator that works item-wise, applied to lists (or ranges, where it does so), gives a list of the same structure: a '
  'unary operator, or a binary one with one scalar operand, is applied to every item, recursively; with two lists, items are '
  'paired in order and the surplus items of the longer one are kept unchanged at the end. Items are never skipped, repeated, '
  'reordered or swapped between the sides, and the operands are not modified. Operators without item-wise behaviour get the '
  'list itself.',
  ['inputs'], 'all operators x all nested operand shapes x all item values',
  T_EVAL + 'item-wise behaviour depends on the shapes of both operands, for 100+ operators.',
  ['execution.py', 'operators.py'], [('item-wise application', 'execution.py evaluate'), ('flags', 'operators.py')], WORLD, NOTE_W,
  ['result of an expression'])

P('C27', 'A call binds its arguments and returns the value of the return expression',
  'When a function is called, its local variables are exactly: a to e, the first five arguments (those beyond the number given '
  'are undefined, i.e. nil), f the function itself and g the list of all arguments; they are copies, so nothing the function '
  'does to them reaches the caller\'s values. The statements run once each in order and the result is the value of the return '
  'expression, evaluated after them in the function\'s own scope, or nil if there is none.',
  ['programs', 'inputs'], 'all argument lists x all argument values x all function bodies',
  T_EVAL + 'sharing between an argument and a local shows only after a later modification of either.',
  ['execution.py'], [('argument binding', 'execution.py LocalScope, functionCall')], WORLD, NOTE_W, ['locals a to g', 'result of a call'])

P('C30', 'Assignment changes exactly the named variables to copies of the values',
  'Assignment to a variable makes it hold the assigned value and changes no other variable: a to g and $_ $__ $___ are local '
  'to the running call, every other name is global. Assigning to an index (positive, negative or past the end, which wrap '
  'around; any depth) replaces that item only and turns a range into a list; assigning to an index of something undefined or '
  'not subscriptable changes nothing. Assigning to a list of targets assigns the items in order, nil where values are missing. '
  'All right-hand values are taken before any target changes, so [x y]:[y x] and the swap operator exchange values. A stored '
  'value is a copy: later changes to it never show through another variable. Reading gives a copy of the value, or nil when '
  'undefined.',
  ['programs', 'inputs'], 'all target forms x all variable names x all values',
  T_EVAL + 'aliasing and clobbering need a sequence of assignments to two variables to show.',
  ['execution.py'], [('assignment', 'execution.py assign, ASSIGN, SWAP'), ('lookup', 'execution.py getRval, varTable')], WORLD, NOTE_W,
  ['variable values'], [('variable tables', 'vars (global) and localScope.vars', 'execution.py ProgramState')])

P('C31', 'History variables hold the values of the last three expression statements',
  'Before each statement of a function, $_, $__ and $___ are the values of the last, second-to-last and third-to-last '
  'expression statement of that call so far, and undefined while there are fewer; command statements leave them alone, and '
  'every call has its own.',
  ['programs', 'histories'], 'all sequences of expression and command statements x all values',
  T_EVAL + 'the shifting order matters only from the third expression statement on.',
  ['execution.py'], [('history update', 'execution.py updateHistoryVars, functionCall')], WORLD, NOTE_W, ['$_ $__ $___'])

EFF = ('effect analysis over the abstract interpretation of every operator, command and value method: each effect on every path is '
       'collected with the object or function it reaches, and classified by where that object came from')
NOTE_E = ('All operand type combinations; the origin of an object is tracked through fields, items, iteration and copies. An effect '
          'inside a construct the analysis has no model of is counted as undecided, not reported.')

P('C08', 'Operators never change their operands in place',
  'Evaluating any operator, and any method of a value, leaves its operands as they were: no list, range, scalar, pattern, function '
  'or part of one that was passed in, no shared constant (nil, literals), no class and no interpreter state is modified. '
  'Whatever an operator modifies it made itself. Variables change only through assignment, WIPEGLOBALS and function calls.',
  ['inputs', 'programs'], 'all operators and value methods x all operand types and values',
  'An operand changed in place shows only when another variable still refers to it; no test looks at an operand afterwards.',
  ['execution.py', 'ptypes.py'], [('operator functions', 'execution.py ProgramState'), ('value classes', 'ptypes.py')], EFF, NOTE_E,
  ['operand values after an operation'])

P('C09', 'Running a program never changes its code, operators or shared tables',
  'Evaluating an expression, calling a function or running a command leaves the parse tree it runs, the operators in that tree '
  '(with their fold, scan, map and assign marks), the operator and command tables and shared constants as they were, so that a '
  'loop body, a condition or a function behaves the same every time it runs.',
  ['programs', 'histories'], 'all operators plain and under every meta-operator, all commands, function calls x operand forms',
  T_EVAL + 'such a change shows only from the second execution of the same code on.',
  ['execution.py', 'operators.py'], [('evaluation', 'execution.py evaluate and the meta-operators'), ('operator copies', 'operators.py Operator.copy'),
                                     ('commands', 'execution.py FOR, IF, LOOP, LOOPREGEX, TILL, WHILE')], WORLD, NOTE_W,
  ['result of running the same code again'])

P('C14', 'Only printing reaches standard output, once and exactly',
  'The only writes to standard output while an expression is evaluated are those of the operators P and O: each writes the display '
  'text of its operand once, P followed by one newline and O by nothing, nil writes nothing, and the value of the expression is the '
  'operand. No other operator, command or value method writes to standard output; warnings and error messages go to standard error.',
  ['inputs', 'programs'], 'all operators and commands x all operand types; P and O x all operand types, direct and through variables',
  'No test captures the output of a program.',
  ['execution.py', 'errors.py'], [('printing', 'execution.py PRINT, OUTPUT'), ('messages', 'errors.py ErrorReporter')], EFF, NOTE_E,
  ['standard output', 'standard error'])

P('C17', 'A Pip program cannot reach the host system',
  'No operator, command, variable or value method evaluates text as Python code, opens a file the program names or writes any file, '
  'starts a process, uses the network, ends the interpreter, or selects a Python attribute by a name the program controls. A Pip '
  'program acts on the outside only through its printed output and reading standard input (q).',
  ['inputs', 'programs'], 'all operators, commands and value methods x all operand types and values',
  'A way out needs a particular operand; tests exercise a handful.',
  ['execution.py', 'ptypes.py', 'parsing.py'], [('operator functions', 'execution.py'), ('text to value conversions', 'ptypes.py')], EFF, NOTE_E,
  ['host effects of a program'])

P('C18', 'Results are deterministic apart from the random operators',
  'The result of every operator, command and value method depends only on its operands: none draws random numbers, or depends on '
  'the clock, the environment, object identities or the iteration order of a hash set, except the random operators (RR, RC, SH) '
  'and the variable r, which draw from the one generator that assigning to r seeds; nothing else seeds it.',
  ['inputs', 'schedules'], 'all operators, commands and value methods x all operand types',
  'Hash order and identities differ between runs, so a test that passes says nothing about the next run.',
  ['execution.py', 'ptypes.py'], [('operator functions', 'execution.py'), ('hashing', 'ptypes.py')], EFF, NOTE_E,
  ['results over repeated runs'])

P('C28', 'Global variables start with, and WG restores, their documented initial values',
  'When a program starts, and again after the command WG however variables were changed before, every pre-initialised global variable '
  '(_ h i k l m n o p s t u v w x y z B G AZ CZ PA PI VD VN VW VY XA XC XD XI XL XN XU XV XW XX XY) has its initial value, \\a to \\e and '
  '\\g hold copies of the program\'s arguments, \\f the main program, and no other global variable is defined. Local variables '
  'and the call stack are not affected, and no two variables share an object, so that changing one never shows in another or '
  'in the values restored the next time.',
  ['programs', 'histories'], 'all initial variables x changes to them before WG, repeated x 0-6 arguments',
  'Sharing with a constant or with the arguments shows only after a change and a second WG.',
  ['execution.py'], [('initial values', 'execution.py WIPEGLOBALS, ProgramState.__init__')], WORLD, NOTE_W, ['global variables'],
  [('global variables', 'name to value table', 'execution.py ProgramState.vars')])

P('C32', 'Commands run the right statements, in order and the right number of times',
  'I runs its condition once and then exactly the statements of one branch; W and T evaluate the condition before every round and '
  'run the body while it is true / until it is true; L evaluates its count once and runs the body that many times (an integer, the '
  'length of a list or range, nil for none); F evaluates its iterable once and runs the body once per item, in order, with the item '
  'assigned to the loop variable (also destructured or indexed), whatever the body does to that variable or list; LR runs the body '
  'once per match from left to right with the match variables set. Truth is that of Pip (0, "", (), [] and zero-valued text are '
  'false). Commands have no value, and a command inside a body is run as a command.',
  ['programs', 'inputs'], 'all commands x condition, count and item values by kind x opaque bodies of two statements and nested commands',
  T_EVAL + 'no command is ever run.',
  ['execution.py'], [('commands', 'execution.py FOR, IF, LOOP, LOOPREGEX, TILL, WHILE, executeStatement')], WORLD, NOTE_W,
  ['order of effects of a program'])

P('C33', 'A program runs once with its arguments and prints its last expression',
  'Running a program resets the globals, binds the arguments (a to e and \\a to \\e the first five, g and \\g all of them, as copies, '
  'f and \\f the whole program), runs its statements once in order, and then prints the display text of the value of its last '
  'statement and a newline, if that is an expression and its value is not nil; nothing else is printed, and an empty program does '
  'nothing. A function literal is the list of its statements with the last one, if an expression, as its return expression; making '
  'it runs nothing.',
  ['programs', 'inputs'], 'all sequences of expression and command statements up to 5 x 0-6 arguments x kinds of result',
  'No test runs a program.',
  ['execution.py'], [('program execution', 'execution.py executeProgram, BLOCK')], WORLD, NOTE_W, ['standard output', 'a to g, \\a to \\g'])

T_PARSE = 'The test suite never scans or parses a program; '

P('C02', 'Operators and commands dispatch as the language defines them',
  'Every operator symbol of the language exists with each of its numbers of operands and performs its own operation, which can be '
  'called with exactly that many operands; its precedence relative to all other operators, associativity, value when folding an '
  'empty list, operand mode (evaluated values, references or unevaluated code), treatment of list and range operands (itemwise or '
  'whole) and use in building functions from functions are those of the language. Every command symbol performs its own command and '
  'takes its own kinds of arguments in order.',
  ['configurations'], 'all 234 operator entries and 7 commands',
  T_PARSE + 'no test looks an operator up in the tables.',
  ['operators.py', 'execution.py'], [('tables', 'operators.py precedenceTable, cmdTable')],
  'constant propagation through the module initialisation of operators.py, comparison of the resulting tables with a reference '
  'table, and resolution of every entry against the signatures of the interpreter\'s methods',
  'The reference table was transcribed from the pinned tree, so that a table that was wrong there is not noticed.',
  ['results of programs'])

P('C03', 'Every program text is split into the tokens the language defines',
  'Scanning yields, for every text, the tokens the language defines: the longest operator at each place; runs of uppercase letters '
  'in pairs, with a single first letter if the number is odd (PIP alone is one token, and EI is EL followed by I); string, pattern, '
  'character and escaped-string literals, numbers and names verbatim and each of its own kind. Line comments (after two spaces, or '
  'lines starting with ;) and block comments {; ;} are skipped up to the end of the line resp. the first ;}, whitespace and unknown '
  'characters are skipped, and an unterminated literal or block comment is reported as incomplete input. Scanning always makes '
  'progress and ends.',
  ['programs'], 'all program texts (lexical expressions); all texts up to 3 (4) characters over one character per class (control flow)',
  T_PARSE + 'the number of texts and adjacent token pairs is unbounded.',
  ['scanning.py', 'tokens.py', 'operators.py'], [('lexical expressions', 'scanning.py tokenRgx and others'), ('scanner', 'scanning.py tokenize')],
  'equivalence of the scanner\'s regular expressions with reference expressions by comparing ordered automata built from both; '
  'constant propagation through the scanner for one text per class of texts, compared with a reference scanner',
  'Automata range over ASCII and seven other representative characters; control flow of the scanner is decided on the enumerated texts.',
  ['tokens of a program'])

P('C04', 'Expressions group by precedence and associativity',
  'The parse tree of every expression groups operators by the precedence and associativity of the operator table: tighter operators '
  'first, equal levels to the left or to the right, comparisons of equal level joined into one chain, a ternary operator\'s middle '
  'operand on its own, a unary operator (also a fold $, scan \\$ or map * form) applying to the longest operand that binds more tightly, and '
  'any compute-and-assign form (:) with the precedence and right associativity of assignment; parentheses, lists and blocks are '
  'atoms. Parsing an expression never changes the operator table.',
  ['programs'], 'all pairs of binary operators and levels, all triples of levels, all unary, ternary, chained and meta-operator forms around them',
  T_PARSE + 'grouping depends on combinations of two or three of 234 operators and four meta-operators.',
  ['parsing.py', 'operators.py'], [('expression parser', 'parsing.py parseExpr, bubble, parseOperand')],
  'abstract interpretation of the parser on token lists (one per combination of operator levels), compared with a reference grammar '
  'that climbs precedences; nothing is executed', 'Bounded to the enumerated operator combinations (up to three binary operators).',
  ['value of an expression'])

P('C05', 'The parser accepts exactly the language and reports incomplete input as such',
  'Every sequence of tokens either parses into the statements the grammar defines, in order, with every token used (semicolons '
  'optional; missing EL branches empty; a single statement as a body like a block of one; one expression in parentheses grouped, '
  'several a call, none nil; names in escaped strings interpolated) or is rejected: as incomplete exactly if the tokens ended where more '
  'was needed, otherwise as bad syntax. The parser never fails in any other way and never looks past the end of the program.',
  ['programs', 'fault_sequences'], 'all token sequences up to 3 (4) token kinds, all truncations and one-token changes of programs with every construct',
  T_PARSE + 'rejections and truncations are unbounded in number; the REPL relies on the distinction.',
  ['parsing.py'], [('parser', 'parsing.py parse and parse*')],
  'abstract interpretation of the parser on all short sequences of token kinds, compared with a reference grammar; nothing is executed',
  'Bounded to the enumerated token sequences.', ['syntax errors', 'REPL continuation prompt'])

P('C29', 'The text of a function is code for the same function',
  'Showing a block or function (PRINT, REPR, STR) gives text that scans and parses back into the same statements: every operator '
  'with its meta-operators, grouping, separators between operands, statements and command arguments, literals verbatim, also for '
  'functions composed from others.',
  ['programs', 'inputs'], 'all operators x meta-operators x operand constructs; all commands x argument constructs; literals of all kinds',
  T_PARSE + 'losslessness fails on particular neighbours (two expressions that join into one, symbols that merge into another operator).',
  ['parsing.py', 'operators.py', 'ptypes.py'], [('printing of code', 'parsing.py unparse, unparseExpr'), ('operator text', 'operators.py Operator.__str__')],
  'abstract interpretation of the parser and of unparse one after the other on enumerated constructs; the resulting constant text is '
  'read by a reference scanner and parser and compared with the tree', 'Bounded to the enumerated constructs; equality is up to grouping parentheses.',
  ['text of a function'])

T_LISTS = 'The test suite covers append, extend and range methods only; '

P('C35', 'List and text operators arrange their items exactly',
  'The operators that rearrange items - reverse (RV, R), reflect and palindromize (RF, PZ, QR, QP), zip (Z, ZD, ZJ), weave and unweave '
  '(WV, UW), group and chop (<>, CH: exactly n pieces as even as possible, the remainder where the sign says), split at indices (^@) or text (^), '
  'flatten (FL, FA), enumerate (EN), permutations and combinations (PM, CB), product and grids (CP, CG, ZG, OG, EY), append/prepend/join lists (AE, PE, AL), '
  'repeat (RL, X), unique (UQ), find and count (@?, @*, N), replace at (RA), join (J, JW, ., WR), trim, strip, delete, remove, transliterate and change case - give '
  'exactly the documented arrangement of the given items: none lost, duplicated, altered or out of order, for lists, finite ranges and texts of any length, '
  'also empty ones, negative and oversized arguments.',
  ['inputs'], 'lists of up to 6 (8) opaque items, ranges, nested lists, grids of unequal rows, texts, all small positive and negative arguments',
  T_LISTS + 'an arrangement is right for all values only if it never looks at them.',
  ['execution.py', 'ptypes.py'], [('list operators', 'execution.py handlers of the list operators'), ('list methods', 'ptypes.py List, Range, Scalar')],
  'abstract interpretation of the operator handlers on lists of opaque values; the resulting structure of values is compared with a reference '
  'arrangement, so it holds for whatever the values are; nothing is executed', 'Bounded list lengths; items are opaque scalars; texts are constants.',
  ['result order', 'lost or repeated items'])

P('C37', 'Indexing wraps around and slices select exactly the window asked for',
  'x@i gives item i, wrapping around in both directions (nil for something empty, or a negative index into an open range); x@(a,b) (a range index), x@<i, x@>i, xHi and xSi give '
  'the window of x seen as repeating forever, a negative bound counting from the end once; an open range gives the shifted range; a list of indices gives the '
  'list of results. Texts, lists, finite and open ranges agree, the unary forms mean first item and all but last/first, and it makes no difference whether the subject is written out, '
  'held in a variable or itself indexed.',
  ['inputs'], 'lists of up to 4 (5) opaque items, ranges, texts; indices -7..7 (-9..9), all pairs of bounds, lists of indices; pairs of index steps',
  T_LISTS + 'correctness at the boundaries (length, negative, twice the length, empty) is a matter of all combinations.',
  ['execution.py', 'ptypes.py'], [('index operators', 'execution.py AT, LEFTOF, RIGHTOF, PREFIX, SUFFIX, getRval'), ('selection', 'ptypes.py __getitem__ of Scalar, List, Range')],
  'abstract interpretation of the index operators and of variable access on subjects of opaque items, compared with a reference selection; nothing is executed',
  'Bounded subjects and indices.', ['indexing', 'slicing'])

P('C36', 'Mapping, filtering and sorting call the function once per item, in order',
  'M, MC, ME, MJ, MM, MP, MS, MU, MF, MR, MZ, FI, FN, FE, FU, FX, FJ, SK and DK call the given function (or each of the given functions) exactly '
  'once for each item (coordinate, pair, match), in order, with exactly the documented arguments, whichever side the function is on, '
  'and build exactly the documented result from the results of the calls: all of them in order, flattened, joined or added, the items (or indices) '
  'whose result is truthy resp. falsy, or the items in stable order of their keys. Without a function the items themselves decide.',
  ['programs', 'inputs'], 'lists of up to 3 (4) opaque items, ranges, texts, nested lists; all combinations of truthy and falsy results, all orders of keys with ties',
  T_EVAL + 'the number, order and arguments of calls only show in functions with side effects.',
  ['execution.py'], [('mapping and filtering', 'execution.py MAP*, FILTER*'), ('sorting', 'execution.py SORT*, DESCENDING*')],
  'abstract interpretation of the operators on opaque items with the function calls recorded and answered by the analysis, compared with a reference; nothing is executed',
  'Bounded list lengths; sorting keys are constants in all orders.', ['results and side effects of functions'])

P('C34', 'In-place operators change exactly their variable, to exactly the right value',
  'x PU v and x PB v put v at the front resp. back of the list, range or text in x (nil counts as empty list) and give x; PO x, DQ x and x PK i '
  'remove the first, last or i-th item (wrapping around) from the list, range or text in x and give that item, or change nothing and give nil if there is none; '
  '++x and --x add and subtract one, Y v stores v in y, and assigning to a slice x@(a,b), x@<n or x@>n replaces exactly those items by the items of the value. '
  'This holds for global, local and indexed variables alike: no other variable changes, stored items are copies, and on an operand that is not a variable '
  'the result is the same and nothing changes.',
  ['inputs', 'programs'], 'lists of opaque items, ranges (finite, open, empty), texts, nil in global, local and indexed variables; indices -4..4 (-7..7); all small slices',
  T_EVAL + 'a wrong remainder or a change to the wrong place only shows for particular lengths, indices and kinds of variable.',
  ['execution.py', 'ptypes.py'], [('in-place operators', 'execution.py PUSH, PUSHBACK, POP, DEQUEUE, PICK, INC, DEC, YANK'), ('assignment', 'execution.py assign')],
  'abstract interpretation of the evaluator on variables holding opaque items; variable tables and result afterwards are compared with a reference; nothing is executed',
  'Bounded lengths and indices; texts are constants.', ['values of variables'])

P('C22', 'Pattern operators process exactly the matches and set the match variables',
  'Operators that match a pattern in a text (~, ~=, @, @?, @*, N, NI, R, RM, ^, ||, |>, <|, MR and LR) work on exactly the non-overlapping matches from left to right (the first, the whole text, '
  'or those at the ends, where they say so), with group numbers and back-references as written, literal text taken literally, & and \\n standing for the match and its groups, and functions '
  'called once per match with the match and its groups. Where match variables are set, $0 is the match, $1 to $9 its groups (nil if absent), $$ all groups, $( and $) its start and end, $` and $\' the text '
  'before and after, $[ and $] the starts and ends of the groups, before the function or loop body runs and after the last match; without a match they stay as they were.',
  ['inputs'], 'constant patterns with no, optional, nested and more than nine groups, flags, empty matches, back-references; texts with none to many matches',
  T_EVAL + 'group numbering and the variables only go wrong for particular numbers of groups and matches.',
  ['execution.py', 'ptypes.py'], [('match variables', 'execution.py assignRegexVars'), ('compilation and back-references', 'ptypes.py Pattern.asRegex, asReplacement, asSeparator'),
   ('operators', 'execution.py FIRSTMATCH, FULLMATCH, FIND, FINDALL, IN, REPLACE, SPLIT, MAPREGEX, STRIP')],
  'abstract interpretation of the operators on constant patterns and texts with opaque old variables and recorded calls, compared with a reference; nothing of the program is executed',
  'Bounded to the enumerated patterns and texts (constants folded through the regular expression library).', ['match variables', 'results'])

P('C38', 'Operators on patterns build the pattern they promise',
  'p+q matches what p matches followed by what q matches, p,q what either matches, p*n n repetitions, Kp any number and +p at least one, p.q and pXn and p WR t the written expressions joined, '
  'Cp the same with one more capture group around it, and X and K of texts, numbers, ranges and lists the literal texts (or one of them). The unary -, A, , and . toggle the flags for case, ASCII, '
  'lines and dot; combined patterns have the flags of both operands, and all other operators keep flags and capture groups.',
  ['inputs', 'programs'], 'all pattern-building operators x patterns with and without alternatives, groups and flags; for all texts matched',
  T_EVAL + 'a missing group around an operand only shows for patterns with alternatives or several characters.',
  ['execution.py', 'ptypes.py'], [('operators', 'execution.py ADD, MUL, RANGE, KLEENESTAR, POS, NEG, ASC, CHR, DOT, REGEX, STRMUL, CAT, WRAP'), ('pattern values', 'ptypes.py Pattern')],
  'abstract interpretation gives the resulting regular expression as a constant; it is compared with the reference by ordered automata, for all texts; nothing is executed',
  'Bounded to the enumerated operand patterns.', ['matches'])

T_SHELL = 'The test suite never runs the command line or the REPL; '

P('C11', 'Every failure is reported on stderr and never escapes as a crash',
  'Whatever goes wrong while the code file is read, or the code or an argument (-x) is scanned, parsed or evaluated, or the program runs - a syntax error, code nested too deeply, an unexpected internal '
  'error, an interrupt - a message with the reason goes to standard error, nothing else is run or printed, and a FatalError is raised, so that the pip command ends with a nonzero exit status and run() simply returns. '
  'In the REPL the failure is reported and the loop continues with the next line, its variables and history intact.',
  ['fault_sequences', 'inputs'], 'every stage of the command line and the REPL x every kind of failure (FatalError, RecursionError, other exceptions, KeyboardInterrupt, OSError), with and without arguments, -x, -r, -i, -f',
  T_SHELL + 'failures that do not come from ordinary syntax errors cannot be provoked one by one.',
  ['pip.py'], [('command line', 'pip.py pip, main, run'), ('REPL', 'pip.py repl')],
  'abstract interpretation of main, run, pip and repl with stand-ins for input, files and the stages of the interpreter that succeed or fail as the analysis chooses; nothing is executed',
  'The stages themselves (scan, parse, execution) are represented by their interface: succeed or raise.', ['standard error', 'exit status'])

P('C15', 'Warnings appear on stderr exactly when switched on and change nothing else',
  'A warning is written to standard error if warnings are switched on (-w, -d, the REPL command ;warnings) and not otherwise; it never goes to standard output, '
  'never ends the program and never changes a result: apart from the messages, a program behaves the same with warnings on and off. A fatal error raised by the interpreter always raises, with its message, '
  'whether warnings are on or off.',
  ['programs', 'inputs'], 'every call site of the warning reporter and every reader of the switch; the reporters x switch x number and kind of message arguments',
  T_SHELL + 'an operator that behaves differently when warnings are on only shows for operands that cause a warning.',
  ['errors.py', 'execution.py', 'ptypes.py', 'pip.py'], [('reporter', 'errors.py ErrorReporter'), ('switch', 'pip.py options, REPL command')],
  'abstract interpretation of the reporter, and an inventory of all uses of the switch in the source; nothing is executed',
  'The call sites are enumerated from the syntax tree.', ['standard error'])

P('C39', 'The command line selects the code, arguments and options it documents',
  'The code comes from the code parameter, -e, -f, -i (standard input), or else the file named by the first argument; the remaining arguments are the program\'s arguments in order, as texts, or the lines of standard input with -r, '
  'or the values of the code in them with -x (evaluated before the program, nil if an argument has no code). A text given as arguments is split at spaces outside single or double quotes. -V, -R, -h and an empty command line do what they say and '
  'run no program; conflicting options are rejected; -v prints the sizes, the tokens and the tree before the program\'s own output, and -d means -p, -v and -w.',
  ['inputs'], 'all combinations of code source, argument source and options; all argument strings of up to 7 characters over a set of representatives',
  T_SHELL + 'combinations of options and quoting cases are too many to sample.',
  ['pip.py'], [('option handling', 'pip.py pip')],
  'abstract interpretation of pip() with the option definitions read off the source and stand-ins for input, files and the stages of the interpreter; nothing of the program is executed',
  'The argument parser of the standard library is used as the model of itself; argument strings are bounded.', ['program arguments', 'code'])

P('C40', 'The REPL runs each input once and shows and remembers its value',
  'Each line at the prompt is scanned, parsed and executed once, statement by statement in order; the value of each expression is shown in REPR form and becomes the newest of the three history values; an incomplete line is '
  'continued with the next one. A line that starts with ; is a command: ;quit and ;exit end the loop, ;help prints the help text, ;warnings [on|off] switches or toggles warnings, each may be shortened, and any other such line is a comment. '
  'End of input ends the loop, and an interrupt only abandons the current line or statement.',
  ['histories'], 'histories of up to 3 lines: complete, incomplete, failing, empty, expressions, commands in all abbreviations, end of input and interrupts at every point',
  T_SHELL + 'continuation, history and interrupts interact over several lines.',
  ['pip.py'], [('REPL', 'pip.py repl')],
  'abstract interpretation of repl with stand-ins for the input and the stages of the interpreter; the sequence of steps is compared with a reference; nothing is executed',
  'Bounded to short histories; the loop keeps no other state.', ['standard output', 'history variables'])

P('C24', 'The chosen list format decides exactly how lists are printed',
  'Without an option a list (of texts, numbers, patterns, nested lists and ranges, at any depth) is printed with its items joined on nothing, with -n on newlines, -s on spaces, -p as its REPR, and with -l, -S and -P each item of the outer list on its own line '
  'with the items inside joined on nothing, on spaces or shown as REPR. A finite range prints exactly like the list of its numbers, except as an item of a list under -p and -P, where it shows as code, as open ranges always do; nil prints as nothing except in REPR. '
  'ST gives the text that would be printed; RP and J give the same in every format.',
  ['inputs', 'configurations'], 'all list formats x lists of up to 3 items, nested to depth 3, with ranges, patterns, blocks and nil, items opaque',
  'The test suite never prints anything; formats differ only for nested lists, ranges and empty lists.',
  ['execution.py', 'ptypes.py', 'pip.py'], [('formatting', 'ptypes.py List.__str__, Range; execution.py PRINT, executeProgram'), ('option', 'pip.py listFormat')],
  'abstract interpretation of the print operators on opaque items in each list format; the text produced is compared part by part with a reference; nothing is executed',
  'Bounded nesting and length; items are opaque scalars.', ['standard output'])

P('C16', 'Each use of q reads one line and each use of r draws one number',
  'Every evaluation of the name q in a program reads exactly one line of standard input, whose text is its value (nil at the end of the input), and every evaluation of r draws exactly one random number, '
  'no matter what operator, index, slice, assignment target or call it is an operand of. Assigning to q changes nothing and reads nothing, assigning to r seeds the generator with the value, and nothing else in a program reads standard input.',
  ['programs'], 'all operators with q and r as any operand, indices and slices of them, as statements, in commands, in calls, in lists and as assignment targets',
  T_EVAL + 'a second read only shows if the input has further lines, and in the particular operator that looks twice.',
  ['execution.py'], [('special variables', 'execution.py getRval, assign, specialNames'), ('operands', 'execution.py evaluate')],
  'abstract interpretation of programs given as trees with input and random numbers as recorded opaque events, compared with a reference count and order; nothing is executed',
  'Bounded to one or two special names per expression; the order between names and computed items within one list is not promised.', ['standard input'])

T_FORM = 'The test suite never evaluates an operator; '
TECH_FORM = ('abstract interpretation of the handlers on opaque operands with value numbering: every path yields a formula over the operands and its conditions, compared with '
             'the reference function at the boundaries found in the source and at representative operands; nothing is executed')

P('C41', 'Arithmetic operators compute the number they name',
  'The numeric operators (+ - * / // % ** E EE AD, unary - + / ** EE %, AB SG SQ DB HV HU, the roots RT, EX, logarithms LN LB LD, trigonometric functions, AT with one and two operands, rounding |< >| RZ RN with and without a unit, '
  'bitwise BN BA BO BX BL) give the number their name promises: exact for integers of any size, 64-bit floating point otherwise, an integral result written without ".0", halves rounded to even by RN, // and % rounding down. Outside the domain (division by zero, root or logarithm of a '
  'negative number, zero to a negative power) the result is nil. A text stands for the number it begins with (leading blanks ignored), or 0; bitwise operators and ranges take its whole part. x,y is the range from x up to but not including y, '
  '\\, includes the end; adding or subtracting a whole number shifts a range, an open one too, a fraction gives the list of numbers; lists are computed item by item.',
  ['inputs'], 'all arithmetic operators on opaque texts, lists and ranges with opaque bounds; numbers of any size and sign, fractions, texts that only begin with a number',
  T_FORM + 'boundaries (ties, zero, signs, large integers, open ranges) are a matter of all values.',
  ['execution.py', 'ptypes.py'], [('arithmetic', 'execution.py handlers of the numeric operators'), ('numbers', 'ptypes.py Scalar.__init__, toNumber, __int__')],
  TECH_FORM, 'Equality of formulas is decided at finitely many points; floating-point functions are those of the host.', ['computed numbers'])

P('C19', 'Comparisons, extremes and sorting follow one order of numbers resp. texts',
  '< > = <= >= != compare texts as numbers; ranges by lower, then upper bound (no lower bound counts as 0, no upper bound as infinite); lists and ranges item by item, then by length; different kinds are never < or >, and equal only if identical. '
  'LT GT Q LE GE NE compare the texts themselves, lists item by item, then by length, and hold of anything else only if it is identical (Q LE GE) or not (NE). #< #= #> compare lengths, an open range being longer than anything finite; == is identity of values; CM gives -1, 0 or 1 in agreement with < and >. '
  'MX and MN give the (first) item of extreme number, SN and SS the items in stable numeric resp. text order. Each result is 1 or 0; operands without a length or items give nil with #< #= #>, MX and MN.',
  ['inputs'], 'all comparison operators x scalars, flat and nested lists, ranges with opaque bounds, nil and functions; items opaque, all orders',
  T_FORM + 'twelve hand-written comparisons have to agree in all cases of kinds, ties and lengths.',
  ['execution.py', 'ptypes.py'], [('comparisons', 'execution.py NUM*, STR*, LEN*, OBJEQUAL'), ('sorting', 'execution.py MAX, MIN, SORTNUM, SORTSTRING')],
  TECH_FORM, 'Lists of up to 3 items; equality of formulas is decided at finitely many points.', ['comparison results'])

P('C20', 'A value is false exactly if it is nil, empty or a form of zero',
  'In every place that decides on a value - ! \\! & | \\& \\| ? I EI W T FI FN - the empty text, texts made of zeros with at most one decimal point (0, 00, 0.0, .0, 0.), the empty list, empty ranges and nil are false, and everything else is true, also '
  '-0, a blank, "0a", lists of false items, open ranges and functions. & and | give the operand that decides, ? exactly the chosen branch, W and T run their body as long as resp. until it is true.',
  ['inputs', 'programs'], 'all constructs that decide x opaque texts, lists, ranges with opaque bounds, nil, functions',
  T_FORM + 'the forms of zero are an infinite set.',
  ['execution.py', 'ptypes.py'], [('truth', 'ptypes.py __bool__ of each type, zeroRgx'), ('decisions', 'execution.py NOT, AND, OR, IFTE, IF, WHILE, TILL, FILTER')],
  'abstract interpretation of programs with opaque variables: every path yields its conditions and result, compared with the reference; nothing is executed',
  'Conditions are regular expressions and bounds; they are compared at representative texts.', ['conditions'])

P('C42', 'Conversions between numbers, digits, codes, texts and code are exact',
  'TB and TD write a whole number of any sign in any base from 2 (TB up to 36) as text resp. list of digits, FB and FD read it back (base 2 if none is given; nil for a base or text that is not valid); A gives the code of the first character, C the character of a code (nil outside Unicode or for an empty text); '
  'LC UC SC TC IC change exactly the case of letters; RP gives code for the text: numbers bare, other texts quoted, escaped if they contain a quote, and for a pattern: its flag operators and the literal, backticks escaped; ST, . J JW, X, RV, R, RM, strip and trim operators, character index, N, NI and @? build, cut and search texts exactly, '
  'whatever the characters are.',
  ['inputs'], 'all conversion and text operators on opaque texts; bases -1 to 100; numbers up to 2047 in full, otherwise representatives; lists of up to 3 opaque digits',
  T_FORM + 'every digit and sign boundary matters.',
  ['execution.py', 'ptypes.py'], [('conversions', 'execution.py TOBASE, TODIGITS, FROMBASE, FROMDIGITS, ASC, CHR, LOWERCASE ...'), ('code', 'ptypes.py Scalar.__repr__')],
  TECH_FORM, 'Equality of formulas is decided at finitely many points; loops over digits are unrolled to 12 digits.', ['converted values'])

P('C43', 'V runs code with the variables of its place; RE and f call the current function',
  'V on a text or a block runs all its statements, in order, where it stands: it reads and assigns the local and global variables of the calling place and gives the value of the last statement (nil if that is not an expression or there is none; an error for text that is not a program). '
  'V with a list or range of arguments (either operand order) calls the code as a function in a scope of its own. V RP x gives x back for numbers, texts, lists and ranges. '
  'RE x and (f x) call the innermost running function with the one argument x, whatever x is, and g holds the arguments.',
  ['inputs'], 'about 100 programs over opaque texts a and b that nest V, RE, f, g, functions and blocks',
  T_FORM + 'which scope a name belongs to depends on how calls and evaluations nest.',
  ['execution.py', 'parsing.py'], [('evaluation', 'execution.py EVAL, RECURSE, functionCall, BLOCK'), ('blocks', 'ptypes.py Block')],
  TECH_FORM, 'A fixed set of program shapes; values of a and b are arbitrary texts (compared at finitely many).', ['programs'])

P('C44', 'Random operators can give exactly the results they promise',
  'RR b can give each whole number from 0 up to but not including b and nothing else, a RR b each from a up to but not including b (nil if there is none; fractions are cut off), for lists and ranges item by item with separate draws; '
  'RC x can give each item of a list or range and each character of a text and nothing else (nil if there is none or the range has no end); SH x can give each arrangement of the items of a list or range (as a list) or characters of a text and nothing else, '
  'leaving x itself as it is; a value once drawn stays the same.',
  ['inputs'], 'about 100 programs with RR, RC and SH on numbers of all signs, empty and nonempty texts, lists of opaque items, nested lists, ranges, nil; every outcome of every draw',
  'A test sees one outcome of a draw; that an outcome is impossible, or a forbidden one possible, needs all of them.',
  ['execution.py'], [('draws', 'execution.py RANDRANGE, RANDRANGETO, RANDCHOICE, SHUFFLE')],
  'abstract interpretation in which every draw forks into one path per outcome; the set of results over all paths is compared with the promised set; nothing is executed',
  'Draws from more than eight values are represented by both ends and the middle; shuffles of up to four items. Probabilities are not decided (C06).', ['results'])

P('C46', 'Literals, interpolated texts and list literals denote exactly what is written',
  'A text "..." denotes the characters between the quotes, \'c the one character c (a blank, quote or newline too), a number the digits as written (leading and trailing zeros kept), `...` the pattern with \\` standing for a backtick and everything else kept, '
  '\\"...\\" the text with \\\\ standing for a backslash and \\name (one lower-case letter or up to two capitals) replaced by the text of that variable at the time, any number of times; all other characters, quotes and newlines included, are kept. '
  '[x;y z] is the list of the values in order (semicolons only separate), () is nil, (x) is x, and the value of several expressions in a row is the last one; comments and white space between them change nothing.',
  ['inputs'], 'all literals of up to 2 to 3 representatives of the character classes of their kind, spliced variables holding arbitrary texts; list and grouping forms',
  'The number of characters, escapes and splices that can meet is unlimited; the test suite evaluates no literal.',
  ['scanning.py', 'parsing.py', 'ptypes.py', 'tokens.py'], [('interpolation', 'parsing.py parseOperand'), ('conversion', 'ptypes.py toPipType'), ('tokens', 'scanning.py newToken')],
  'abstract interpretation of scanner, parser and evaluator on constant literal texts with opaque variables; the resulting formula is compared with the characters written; nothing is executed',
  'Bounded literal lengths (class representatives). A backslash escape directly before a name is not decided.', ['values of literals'])

# ---------------------------------------------------------------- not decidable by static analysis
P('C06', 'Random operators draw uniformly and independently',
  'r, RR, RC and SH give each of their possible results with the same probability (r: uniform on 0 to 1), independently of earlier draws.',
  ['histories'], 'all sequences of draws', 'A distribution cannot be read off a handful of runs.',
  ['execution.py'], [('draws', 'execution.py RANDRANGE, RANDCHOICE, SHUFFLE, getRval')], '', '', claim=False,
  reason='A statement about the distribution of the numbers produced by the generator of the Python library, i.e. about run-time frequencies. From the source only the number and origin of draws can be decided (C16, C18), '
         'not that a set of results is equally likely.')
P('C21', 'Floating-point functions are accurate to the last digits',
  'SI CO TG and their inverses, SQ, RT, EX, LN and E with fractional operands give the nearest representable number.',
  ['inputs'], 'all numbers', 'Accuracy has to hold for every float.',
  ['execution.py'], [('functions', 'execution.py SIN, COS, TANGENT, SQRT, EXPONENTIAL, LN, POW')], '', '', claim=False,
  reason='The error of a floating-point computation depends on run-time magnitudes and on the C library; no sound bound on it can be derived from this source. That the right library function is applied to the right operand is decided by C41.')
P('C45', 'Programs run in time and memory proportional to their work',
  'Every operator on finite operands ends, in time and memory polynomial in the size of its operands and result.',
  ['inputs'], 'all operands', 'Needs a bound for every size.',
  ['execution.py', 'ptypes.py'], [('operators', 'execution.py'), ('infinite ranges', 'ptypes.py Range')], '', '', claim=False,
  reason='Ranges without upper bound and lazily consumed operands make the number of steps depend on run-time values that no static argument in reach can bound; C13 decides the cases in which an infinite range must be refused.')
