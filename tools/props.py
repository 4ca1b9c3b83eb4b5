import json
def P(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or ["public API of tsym/tsym.h"],
      state=state or [],hook_needed=None))
L=[]
L.append(P("C01","Sums, differences, products and quotients keep their value",
 "For any two expressions, +, -, *, / (also as compound assignments and unary minus) return an expression with the same real value as the operation applied to the values of the operands, at every assignment of real numbers to the symbols for which the operands and the result are defined. The automatic contraction of like terms, numeric powers, roots, logarithms and trigonometric factors never changes that value, and the operation always terminates without a crash. The result is Undefined only if an operand is Undefined or the operation has no value anywhere (a zero divisor).",
 ["inputs","programs"],"all pairs of expressions that can be built by any sequence of operations, all real assignments of their symbols",
 "The unit tests compare some 300 hand-picked sums and products with hand-written results; the contraction rules interact pairwise and through re-sorting, and the space of operand pairs is unbounded.",
 ["src/sum.cpp","src/sumsimpl.cpp","src/product.cpp","src/productsimpl.cpp","src/numpowersimpl.cpp","src/var.cpp","src/number.cpp"],
 [("SumSimpl pairwise contraction and merge","src/sumsimpl.cpp"),("ProductSimpl pairwise contraction and merge","src/productsimpl.cpp"),("NumPowerSimpl","src/numpowersimpl.cpp")]))
L.append(P("C02","Powers and roots keep their real value",
 "For any base and exponent, the power (and sqrt) has the same real value as the mathematical power wherever base, exponent and result are defined, including nested powers, roots of negative or sign-unknown bases, powers of products, numeric prime-factor extraction and exponents that are symbols. No rule that is valid only for non-negative bases is applied to a base that may be negative. A power of rational numbers is exact, and is Undefined if it has no real value (0 to a negative power, negative base with a non-integer exponent); x^0 is 1 for every x.",
 ["inputs","programs"],"all base/exponent pairs incl. numeric ones with any integer factorisation, all real assignments",
 "Tests sample about a hundred powers; correctness depends on the prime factorisation of the base, the sign knowledge about the base, and the parity of inner and outer exponents.",
 ["src/power.cpp","src/powersimpl.cpp","src/primefac.cpp","src/number.cpp","src/numpowersimpl.cpp"],
 [("PowerSimpl rule selection","src/powersimpl.cpp"),("PrimeFac","src/primefac.cpp"),("Number::toThe","src/number.cpp")]))
L.append(P("C03","Sums and products do not depend on the order of construction",
 "Adding the same terms, or multiplying the same symbols, numbers, functions and powers, in any order and with any grouping gives structurally equal results, that print identically and have the same hash. Rebuilding a sum or product from its own operands in any order gives an equal expression. All results have the canonical shape: sums (products) have at least two operands, none of them a sum (product), at most one number, and no two terms that differ in a numeric coefficient only. Not part of the guarantee are sums that contain both sine and cosine, and products with sums as factors, with two or more roots or symbolic powers of bases that are not known to be positive, or with symbolic powers of numbers, because there the contraction rules exclude each other.",
 ["inputs","programs"],"all multisets of terms, all permutations and groupings",
 "Canonical order is tested for single pairs; pairwise rules need not be confluent, and only trying all permutations of term multisets shows that.",
 ["src/order.cpp","src/sumsimpl.cpp","src/productsimpl.cpp","src/sum.cpp","src/product.cpp"],
 [("order relation","src/order.cpp"),("merge of simplified lists","src/sumsimpl.cpp, src/productsimpl.cpp")]))
L.append(P("C04","Equality is an equivalence that hashing, order and value respect",
 "Comparing expressions for equality is reflexive, symmetric and transitive for all expressions free of Undefined and floating point numbers; equal expressions have equal hashes, equal printouts, equal symbols, equal types and equal values under every assignment, while expressions with different structure compare different. Undefined compares unequal to everything. Symbols are equal only if name, sub- and superscript and positivity agree.",
 ["inputs"],"all pairs and triples of expressions",
 "Tests compare a few dozen pairs; the relation is quantified over all pairs and triples.",
 ["src/base.cpp","src/symbol.cpp","src/name.cpp","src/function.cpp","src/power.cpp","src/number.cpp","src/baseptr.cpp","src/baseptrlistfct.cpp"],
 [("isEqual / sameType / hash per class","src/*.cpp")]))
L.append(P("C05","Expansion keeps the value and multiplies everything out",
 "Expanding any expression keeps its real value wherever both are defined, is idempotent, and leaves no product with a sum as a factor and no sum raised to a positive integer power, at any depth reached by sums, products and integer powers (function arguments and the inside of roots are left alone). It terminates without a crash. Expanding the difference of two polynomials that are equal gives exactly 0.",
 ["inputs","programs"],"all expressions with bounded integer exponents",
 "Tests expand a few dozen terms; binomial and multinomial coefficients and the interplay with automatic simplification need arbitrary nests.",
 ["src/sum.cpp","src/product.cpp","src/power.cpp","src/trigonometric.cpp","src/logarithm.cpp"],
 [("expand per class","src/sum.cpp, src/product.cpp, src/power.cpp")]))
L.append(P("C06","simplify and normal keep the value and decide rational identities",
 "simplify and normal return, for any expression, an expression of the same real value wherever both are defined, and terminate without a crash. For expressions built from numbers and symbols with integer powers only, the normal form of an expression that is identically zero is free of denominators, and simplify returns 0 exactly if the expression is identically zero. simplify never returns an expression of higher complexity than the expanded one.",
 ["inputs","programs"],"all expressions; for the zero test all rational functions over the rationals",
 "Tests normalise about a hundred terms; cancelling needs polynomial gcds over arbitrary inputs, and replacing subterms by temporary symbols has to be undone for every nesting.",
 ["src/fraction.cpp","src/sum.cpp","src/product.cpp","src/power.cpp","src/powernormal.cpp","src/symbolmap.cpp","src/functions.cpp","src/gcd.cpp"],
 [("normal(SymbolMap&)","src/sum.cpp, src/product.cpp, src/power.cpp"),("Fraction","src/fraction.cpp"),("simplify loop","src/functions.cpp")]))
L.append(P("C07","numerator and denominator split an expression into a fraction",
 "For every expression, numerator(x)/denominator(x) has the value of x wherever all three are defined, and for rational functions both are free of fractions in the symbols and have no common non-constant factor. Neither leaks temporary symbols.",
 ["inputs","programs"],"all expressions",
 "Only a handful of fractions are tested.",
 ["src/functions.cpp","src/fraction.cpp","src/symbolmap.cpp"],
 [("normalToFraction","src/functions.cpp")]))
L.append(P("C08","Polynomial division and greatest common divisor are correct",
 "For all multivariate polynomials u, v (v nonzero) with rational coefficients, division gives q, r with u = q*v + r, and r = 0 if both are expanded and v divides u. The gcd divides both arguments exactly, for all algorithms, and every common factor that was multiplied into both arguments divides it; the two gcd algorithms agree up to a constant factor. gcd(u, 0) is u up to a constant and gcd of coprime polynomials is a constant.",
 ["inputs"],"all pairs and triples of multivariate polynomials over the rationals",
 "Tests use about forty polynomial pairs; the pseudo-remainder sequences depend on degrees, contents and variable choice.",
 ["src/poly.cpp","src/polyinfo.cpp","src/gcd.cpp","src/primitivegcd.cpp","src/subresultantgcd.cpp"],
 [("poly::divide, pseudoDivide, content","src/poly.cpp"),("Gcd hierarchy","src/gcd.cpp")],["internal functions tsym::poly::gcd/divide, and through normal()"]))
L.append(P("C09","Substitution replaces every occurrence and nothing else",
 "Substituting a symbol by an expression gives the value of the original with that symbol bound to the value of the replacement, wherever both are defined; if the replacement does not contain the symbol, the result does not contain it. Substituting something that does not occur returns an equal expression, and substituting an expression by itself changes nothing in value. Substituting a compound subexpression keeps the value whenever the replacement has the value of what it replaces.",
 ["inputs","programs"],"all expressions, all from/to pairs",
 "A few dozen substitutions are tested; the result is re-simplified, so every simplification rule takes part.",
 ["src/base.cpp","src/sum.cpp","src/product.cpp","src/power.cpp","src/trigonometric.cpp","src/logarithm.cpp","src/functions.cpp"],
 [("subst per class","src/*.cpp")]))
L.append(P("C10","Differentiation is the derivative",
 "For every expression and every symbol, diff returns an expression whose value is the partial derivative wherever the expression is differentiable and the result is defined; it is 0 for expressions without the symbol that have a value somewhere, and Undefined if the second argument is not a symbol. diff is never Undefined for an expression that is differentiable at generic points.",
 ["inputs","programs"],"all expressions and symbols",
 "Tests check about forty derivatives; chain, product and power rules compose without bound.",
 ["src/sum.cpp","src/product.cpp","src/power.cpp","src/trigonometric.cpp","src/logarithm.cpp","src/functions.cpp"],
 [("diffWrtSymbol per class","src/*.cpp")]))
L.append(P("C11","Trigonometric functions and logarithms evaluate exactly",
 "Creating sin, cos, tan, asin, acos, atan or log of any argument gives an expression of the same real value wherever it is defined; rational multiples of pi, negative and shifted arguments, inverse pairs and numeric arguments included. Arguments outside the real domain (asin/acos beyond [-1, 1], tan at odd multiples of pi/2, log of non-positive numbers) give Undefined, and arguments inside of it never do. Special values are recognised to double precision. atan2(y, x) agrees with the polar angle modulo 2 pi.",
 ["inputs","programs"],"all arguments, in particular all rational multiples of pi and all compositions of functions with inverses",
 "The tables have 24 entries per function and tests sample some; shifts, signs and inverse compositions multiply.",
 ["src/trigonometric.cpp","src/numtrigosimpl.cpp","src/logarithm.cpp"],
 [("NumTrigoSimpl shift and table","src/numtrigosimpl.cpp"),("Trigonometric::create*","src/trigonometric.cpp"),("Logarithm::create","src/logarithm.cpp")]))
L.append(P("C12","Number arithmetic is exact for integers and fractions of any size",
 "Arithmetic, integer powers, comparison and reduction to lowest terms of rational numbers is exact for every size, also far beyond 64 bit and beyond the range of double; fractions have a positive denominator coprime to the numerator. Roots of perfect powers are exact. Mixed double arithmetic stays within rounding error of the exact result.",
 ["inputs","programs"],"all integers, fractions and doubles",
 "Tests use a few big integers; overflow, truncation and sign handling depend on magnitude.",
 ["src/number.cpp","src/numberfct.cpp","src/int.h","src/int.cpp","src/numeric.cpp","src/primefac.cpp"],
 [("Number","src/number.cpp")]))
L.append(P("C13","Sign queries are sound",
 "isPositive (isNegative) answers true only if the expression is positive (negative) under every assignment of real values to its symbols for which it is defined, with positive symbols assigned positive values. Both are never true together, and for purely rational numbers the answers are exact.",
 ["inputs","programs"],"all expressions, all real assignments",
 "The predicates license contraction rules, and are tested on a few dozen terms each.",
 ["src/sum.cpp","src/product.cpp","src/power.cpp","src/trigonometric.cpp","src/logarithm.cpp","src/constant.cpp","src/symbol.cpp","src/numeric.cpp"],
 [("isPositive / isNegative per class","src/*.cpp")]))
L.append(P("C14","Conversion to double and to integers is right or refused",
 "If an expression is numerically evaluable (contains no symbols), its conversion to double equals its real value within rounding error; otherwise the conversion throws std::domain_error. Conversion to an integer type gives exactly the value if the expression is an integer that fits, and throws if it is a number that is no integer or does not fit, has symbols, or does not evaluate to an integer within double precision. A double that enters as input keeps its value within rounding error.",
 ["inputs","programs"],"all expressions with and without symbols, all doubles",
 "Only a handful of conversions are tested.",
 ["src/var.cpp","src/number.cpp","src/sum.cpp","src/product.cpp","src/power.cpp","src/trigonometric.cpp","src/logarithm.cpp","src/constant.cpp"],
 [("numericEval per class","src/*.cpp"),("Var explicit conversions","src/var.cpp")]))
L.append(P("C15","The parser accepts its grammar with the right meaning and rejects the rest",
 "Every string of the expression grammar (numbers, symbols with sub- and superscripts, + - * / ^, parentheses, functions, pi, euler, whitespace) parses to the expression that the usual precedence and associativity rules denote; every other string yields no result. Parsing never crashes, hangs or changes the meaning of a valid string when redundant parentheses or whitespace are inserted.",
 ["inputs"],"all strings over the token alphabet, exhaustively up to a length and by random derivation beyond",
 "Tests parse about seventy strings; precedence, unary minus and nesting combine without bound, and rejections need all malformed strings.",
 ["src/parser.cpp","src/parser.h","src/functions.cpp"],
 [("Spirit grammar","src/parser.cpp")]))
L.append(P("C16","Printed expressions read back as the same expression",
 "Printing any expression without floating point numbers and Euler's constant, in plain text, and parsing the string gives an expression of the same value (symbols of the same name taken as the same), and an equal one if there are no positive symbols in it and its sums and products are within the guarantee of C03 and it has no arctangent of a constant other than a number. Printing terminates, never emits unbalanced parentheses, and equal expressions print equally.",
 ["inputs","programs"],"all expressions",
 "Tests compare about a hundred printouts with literals; bracket placement depends on nesting and signs.",
 ["src/printer.cpp","src/plaintextprintengine.cpp","src/parser.cpp"],
 [("Printer","src/printer.cpp")]))
L.append(P("C17","Linear systems are solved and singular ones refused",
 "For every square system with symbolic entries, solve fills x with values that satisfy A*x = b as an identity wherever everything is defined, and throws std::invalid_argument exactly when the coefficient matrix is singular. The right-hand side and the matrix are left unchanged, the result does not depend on the container (access) type, and skipped rows and columns (for indirect access) are neither read into the system nor written.",
 ["inputs","configurations"],"all matrices and right-hand sides, all pivot situations, all skip sets",
 "About a dozen systems are tested; pivoting and singularity detection depend on hidden zeros.",
 ["include/tsym/solve.h","src/solve.cpp","src/directsolve.cpp"],
 [("pivoting, factorisation, back substitution","src/directsolve.cpp, src/solve.cpp")]))
L.append(P("C18","Determinant and inverse agree with their definition",
 "For every square matrix with symbolic entries, the determinant has the value of the Leibniz sum; the inverse multiplied with the matrix gives the identity; inverting a singular matrix throws std::invalid_argument, and its determinant is exactly 0 or refused with the same exception, while regular matrices are never refused. Inputs are left unchanged.",
 ["inputs"],"all square matrices with symbolic entries",
 "A few matrices are tested; row exchanges, hidden zeros and sign changes depend on the pattern of zeros.",
 ["include/tsym/solve.h","src/solve.cpp","src/directsolve.cpp"],
 [("row exchanges and pivot product","src/directsolve.cpp")]))
L.append(P("C19","Undefined is absorbing and appears only when it must",
 "Every operation with an Undefined operand gives Undefined, at any position and depth. Operations on numbers and numerically evaluable expressions without real value give Undefined, and operations on defined operands that have a real value for generic assignments never do.",
 ["inputs","programs"],"all operations and operand positions, all programs",
 "Tests check the single operations; the absorbing behaviour must survive every composition.",
 ["src/undefined.cpp","src/power.cpp","src/powersimpl.cpp","src/trigonometric.cpp","src/logarithm.cpp","src/sum.cpp","src/product.cpp"],
 [("Undefined::create branches","src/*.cpp")]))
L.append(P("C20","Results do not depend on history, and expressions are immutable",
 "The result of any operation depends only on its operands: repeating it, in any order with other operations, with internal caches warm, cold or cleared in between, and regardless of other expressions being created, copied, moved or destroyed, gives an equal result. No operation changes an expression held elsewhere, also under compound assignment and self-assignment. Temporary symbols never occur in results.",
 ["histories","programs"],"all histories of API calls",
 "Unit tests run each operation once in a fresh state; memoisation bugs need a history.",
 ["src/cache.h","src/cache.cpp","src/var.cpp","src/baseptr.cpp","src/symbol.cpp","src/symbolmap.cpp","src/options.cpp","src/trigonometric.cpp"],
 [("RegisteredCache","src/cache.h"),("SymbolMap","src/symbolmap.cpp")],None,
 [dict(name="registered caches",meaning="memo tables of pure functions",where="src/cache.h and users"),dict(name="temporary symbol counter",meaning="names of temporaries",where="src/symbol.cpp"),dict(name="maximum prime resolution",meaning="option",where="src/options.cpp")]))
L.append(P("C21","Structural queries describe the expression",
 "has(x, y) is true exactly if y occurs as a complete subexpression; collectSymbols lists each occurring symbol exactly once; operands, type and name describe the structure that rebuilds the expression; complexity is positive and strictly greater than that of every operand. Numbers, symbols, constants, functions, sums, products and powers report their own type.",
 ["inputs","programs"],"all expressions",
 "A few dozen expressions are tested.",
 ["src/functions.cpp","src/var.cpp","src/base.cpp","src/basetypestr.cpp","src/sum.cpp","src/product.cpp","src/power.cpp"],
 [("has / operands / complexity per class","src/*.cpp")]))
L.append(P("C22","Print engines receive a well-formed stream denoting the expression",
 "Printing any expression through a print engine emits a stream of tokens that is well-formed (numerator and denominator, exponent, root and parenthesis tokens are balanced and properly nested, their scalar flags agree, operators separate operands) and that, read by the usual rules of precedence where scalar numerators, denominators and exponents are not parenthesised and all others are, denotes an expression with the value and the symbols of the printed one. Symbols arrive with name, subscript and positivity, and the plain text engine (ASCII and with Greek letters) renders exactly that stream.",
 ["inputs","programs"],"all expressions, both print modes of powers, any engine",
 "Tests print some eighty expressions; whether parentheses, signs and fraction bars are right depends on the types of adjacent subexpressions at every depth.",
 ["src/printer.cpp","include/tsym/printengine.h","include/tsym/plaintextprintengine.h","src/plaintextprintengine.cpp","src/namefct.cpp","src/name.cpp"],
 [("Printer: products as fractions, powers, sums","src/printer.cpp"),("PlaintextPrintEngine","src/plaintextprintengine.cpp"),("Greek letters","src/namefct.cpp")],
 ["PrintEngine callbacks, PlaintextPrintEngine output, operator<<"]))
L.append(P("C23","Variables from text are the symbol or integer the text names",
 "A variable created from a text is the symbol of exactly that name (split into name, subscript after an underscore with or without braces) if the text is a valid name, the integer of exactly that decimal value if it is an optionally signed sequence of digits of any length, and Undefined for other texts that contain characters names and numbers cannot have. Name, printout and Unicode printout reproduce the name; positive variables are positive and differ from unspecified ones of the same name.",
 ["inputs"],"all texts, positive and unspecified sign",
 "Tests create a few dozen names; the parsing of names is a small language.",
 ["src/var.cpp","src/parser.cpp","src/name.cpp","src/namefct.cpp","src/symbol.cpp","src/symbolmap.cpp","src/plaintextprintengine.cpp"],
 [("Var(const std::string&)","src/var.cpp"),("Name, namefct","src/name.cpp, src/namefct.cpp")]))
L.append(P("C24","Polynomials in a symbol: degree, coefficients, content, pseudo-division",
 "For every expanded polynomial with rational coefficients and every symbol, the coefficients of the powers of the symbol reassemble the polynomial, degree and minimum degree are the highest and lowest power that occurs, and the leading coefficient is that of the degree; content times primitive part times unit is the polynomial, the content divides every coefficient and no other common divisor exceeds it. Pseudo-division of u by v gives a quotient q and a remainder r with lc(v)^n * u = q*v + r, r of lower degree than v, and the separately available pseudo-remainder is the same.",
 ["inputs"],"all pairs of expanded multivariate polynomials and symbols",
 "Tests divide about twenty pairs; the number of division steps and the growth of coefficients depend on degree gaps and cancellations.",
 ["src/poly.cpp","src/polyinfo.cpp","src/base.cpp","src/sum.cpp","src/product.cpp","src/power.cpp"],
 [("poly::pseudoDivide, content, unit","src/poly.cpp"),("degree, coeff, leadingCoeff","src/base.cpp, src/sum.cpp, src/product.cpp, src/power.cpp")]))
for l in L: assert len(l['title'])<=80,l['title']
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(l)+'\n' for l in L))
