#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, qtext, why, files, mech, over=("inputs", "programs"), bounds=""):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=files, mech=mech, bounds=bounds))
RUN = "modules/exec/commands.cpp"
EXP = "modules/compile/expression.cpp"
WHY = "The unit tests run a few fixed programs with fixed values; "

prop("C01", "Integer arithmetic is exact two's-complement arithmetic in the promoted type",
     "For all values of any two integer types, +, -, *, unary minus, and (for non-zero divisors, without overflow) / and % give the two's-complement result in the promoted type: operands narrower than 32 bits are promoted to int, uint with a signed operand to long, long and ulong keep 64 bits. The printed result is that value, whatever mixture of operand types is used.",
     "all operand values and all pairs of integer operand types", WHY + "the result must be right for every pair of values of every pair of types (64-bit wrap-around, sign extension, mixed signedness).",
     [RUN, "modules/core/__vtype_traits.h", EXP, "modules/core/xil.cpp"], [("typed arithmetic commands", RUN + " __new_al_command"), ("promotion table", "modules/core/__vtype_traits.h")],
     bounds="8-bit divisors for / and % in 64 bits where z3 cannot divide wider within the time limit; divisor 0 and MIN/-1 excluded")
prop("C02", "Bitwise operators and shifts act on exactly the bits of the promoted type",
     "For all integer operand values and types, &, |, ^, ~ give the bitwise result in the promoted type, and << and >> by a count smaller than the width shift the promoted left operand; >> is arithmetic for signed and logical for unsigned types.",
     "all operand values, all pairs of integer types, shift counts below the width", WHY + "every bit position of every width and signedness counts.",
     [RUN, "modules/core/__vtype_traits.h", EXP], [("bit commands", RUN + " __new_bit_command")])
prop("C03", "Comparisons order values by their mathematical value",
     "For all values of any two integer or floating-point types (also bool and char with themselves), ==, !=, <, <=, >, >= give the answer of the mathematical order after the usual promotion, NaN being unordered; results used as values and as conditions agree.",
     "all operand values, all pairs of numeric types", WHY + "sign and width mistakes show only on extreme values.",
     [RUN, "modules/core/__vtype_traits.h", EXP], [("compare commands", RUN + " __new_cmp_command")])
prop("C04", "Integer conversions keep the value, or exactly its low bits",
     "Explicit casts between integer types (and char) keep exactly the low bits of the target type; implicit widening, wherever it happens (assignment, argument, return value, field, array element, initializer, conditional, compound assignment), keeps the numeric value, sign- or zero-extending by the source type.",
     "all values and all pairs of integer types in every conversion context", WHY + "a missing or doubled conversion shows only for values that do not fit.",
     [EXP, RUN, "modules/compile/xilx.cpp", "modules/core/xil.cpp"], [("push-convert instruction", RUN + " __new_push_command"), ("conversion insertion", EXP + " __try_append_convert_xil")])
prop("C05", "Floating-point arithmetic and conversions follow IEEE 754",
     "For all float and double values, +, -, *, /, unary minus and comparisons give the IEEE result in float (both operands float or integer) or double (any operand double); conversions between integers, float and double round as IEEE prescribes and truncate toward zero in the other direction for values in range.",
     "all operand values of the floating-point types, and integers mixed with them", WHY + "rounding, NaN, infinities and negative zero are not sampled.",
     [RUN, "modules/core/__vtype_traits.h", EXP], [("typed arithmetic commands", RUN)])
prop("C06", "A constant expression has the same value as the same expression at run time",
     "Whether operands are literals (calculated by the compiler) or variables holding the same values (calculated at run time), an expression of arithmetic, bitwise, shift, comparison, logical and conditional operators gives the same value and type.",
     "all literal values with the given digits, all operators, all pairs of literal types", WHY + "folding and execution are two implementations that must agree on every value.",
     ["modules/core/expression_executor.cpp", RUN, "algorithm/numeric.cpp"], [("constant folding", "modules/core/expression_executor.cpp")],
     bounds="compiled at -O 1, where the compiler folds; literals with 1 symbolic digit each (2 in the thorough tier), in the small range and at the top of each type; shift counts below the width")
prop("C07", "Numeric literals have the value and type their text says",
     "Every decimal, hexadecimal, octal, binary and floating-point literal, with or without a suffix, has exactly the value its digits denote, in the smallest type that holds it or the type its suffix names.",
     "all digit strings up to the bounded length in every notation", WHY + "the boundary values between types and every digit position count.",
     ["algorithm/numeric.cpp", "modules/lang_cs/cs_token_reader.cpp", "modules/compile/token_reader.cpp"], [("literal parser", "algorithm/numeric.cpp parse_numeric")],
     bounds="up to 20 digits, all symbolic or the leading ones fixed")
prop("C09", "Operators bind by precedence and associativity",
     "An expression without parentheses means the same as the fully parenthesised expression that the usual C# precedence and associativity prescribe, parentheses override it, and assignment and ?: associate to the right.",
     "all pairs of binary operators, unary/postfix/cast/conditional/assignment combinations, all operand values", WHY + "each pair of operators needs operands that tell the groupings apart.",
     ["modules/compile/analyze_tree.cpp", "modules/compile/ast.cpp", "modules/lang_cs/text.src", "modules/core/core.cpp"], [("operator priorities", "modules/compile/ast.cpp expression_ast_node_t"), ("grammar", "modules/lang_cs/text.src")],
     bounds="three or four operands; small operands where products would be non-linear")
prop("C10", "Operands are evaluated once, left to right; && || ?: skip what they must skip",
     "Operands of an operator and arguments of a call are evaluated exactly once and from left to right; the right operand of && and || is evaluated exactly when the left one does not decide, and exactly one branch of ?: is evaluated, in every context (value, condition, argument, return, loop).",
     "all truth values of the operands, contexts and nestings listed", WHY + "skipped or repeated evaluation shows only for particular truth values of side-effecting operands.",
     [EXP, "modules/lang_cs/expressions.cpp", "modules/compile/statements.cpp"], [("short-circuit jumps", EXP)])
prop("C11", "Conditions, loops, break and continue execute exactly the right statements",
     "if/else, while, do-while and for execute their parts exactly as often and in the order C# prescribes, break leaves and continue continues the innermost loop, return leaves the method from any depth, also when conditions are constants, and whatever follows a statement that can end normally is reached.",
     "all loop bounds and branch values in small ranges", WHY + "off-by-one and wrong jump targets depend on trip counts and on which branch leaves the loop.",
     ["modules/compile/statements.cpp", "modules/compile/xilx.cpp", RUN, "modules/exec/exec.cpp"], [("statement compilation", "modules/compile/statements.cpp"), ("jump commands", RUN + " __new_jmp_command")],
     bounds="up to 6 iterations per loop, nesting depth 3")
prop("C12", "switch executes exactly the section whose label equals the value",
     "For every value of an int, smaller integer, uint, char or enum expression, switch executes the section labelled with that value, otherwise default wherever it is written, otherwise nothing; break, continue, return and throw leave it as written, and the expression is evaluated once.",
     "all values of the switch expression", WHY + "the table search must be right for every value and every order of labels.",
     ["modules/compile/statements.cpp", RUN, "modules/core/xil.cpp"], [("switch table", "modules/compile/statements.cpp switch_statement_t"), ("binary search", RUN + " __switch_jmp_command_t")])
prop("C13", "Method calls pass every argument and result unchanged",
     "Static and instance methods receive each argument in its parameter whatever the types and order, parameters are copies local to the call (also under recursion), the result arrives unchanged, and the overload whose parameter types match is called.",
     "all argument values of every type and mixture of sizes", WHY + "layout mistakes depend on the mixture of sizes and show on particular values.",
     [EXP, RUN, "modules/exec/parser.cpp", "modules/compile/xilx.cpp", "modules/core/core.cpp"], [("call commands", RUN + " __new_call_command"), ("parameter layout", "modules/exec/parser.cpp")])
prop("C14", "ref and out parameters alias the caller's variable",
     "A write through a ref or out parameter changes exactly the variable the caller passed, reads through it see the current value, and no other variable changes, also through several levels of calls and when two parameters alias.",
     "all values of every type", WHY + "aliasing has to hold for every type size and history of writes.", [EXP, RUN, "modules/compile/xilx.cpp"], [("address commands", RUN)])
prop("C15", "Structs are copied by value",
     "Assigning, passing, returning, storing or reading a struct copies all its fields; later changes to one copy never show in another, and neighbouring data is untouched.",
     "all field values of every type and layout", WHY + "partial copies depend on layout and size.", [EXP, RUN, "modules/core/core.cpp", "modules/rt/layout.cpp"], [("block copy", RUN + " __new_copy_command"), ("layout", "modules/rt/layout.cpp")])
prop("C16", "Local variables are independent",
     "Each local variable holds the last value assigned to it, whatever its type, scope, reuse of names in sibling scopes and the other variables of the method.",
     "all values of every type, mixtures of sizes and scopes", WHY + "overlapping storage shows only for particular mixtures and values.", ["modules/exec/parser.cpp", RUN, "modules/compile/statements.cpp"], [("local layout", "modules/exec/parser.cpp")])
prop("C17", "Objects keep their fields apart and start cleared",
     "Every field of a new object starts as zero/null/false or what its constructor assigns, holds the last value assigned to it on that object only, and references to the same object see the same fields; base and derived fields are separate.",
     "all field values of every type and layout", WHY + "layout mistakes show for particular mixtures of field sizes.", ["modules/rt/layout.cpp", RUN, "modules/mm/mm.cpp", EXP], [("field layout", "modules/rt/layout.cpp"), ("allocation", "modules/mm/mm.cpp")])
prop("C18", "Array elements are independent and indexes are checked",
     "For every element type, a[i] for 0 <= i < Length reads the value last written to that index and starts cleared; Length is the allocated length; every other index throws an exception the program can catch and changes nothing.",
     "all indexes and element values", WHY + "every index, also negative and huge ones, must be right.", [RUN, "modules/rt/rt.cpp", "modules/mm/mm.cpp", EXP], [("element commands", RUN), ("bounds test", RUN)],
     bounds="array lengths up to 31")
prop("C19", "Multi-dimensional array elements are independent and indexes are checked",
     "For two and more dimensions, each index tuple within the lengths addresses its own element, starting cleared and holding the last value written; a tuple with any index out of its range throws an exception the program can catch.",
     "all index tuples and element values", WHY + "aliasing of elements shows only for particular index tuples.", [RUN, "modules/rt/rt.cpp", EXP], [("multi-dimensional index", "modules/rt/rt.cpp")], bounds="lengths up to 3 per dimension, up to 11 dimensions")
prop("C20", "Boxing and unboxing keep value and type",
     "A value boxed to object and unboxed to its type is unchanged and independent of later changes of the variable; is, as and casts of objects to classes and built-in types succeed exactly when the object's type fits, otherwise give false/null/an exception the program can catch; two types obtained by GetType or typeof are equal exactly when they are the same type.",
     "all values of every type", WHY + "every value of every size must survive.", [EXP, RUN, "modules/rt/rt.cpp"], [("box/unbox commands", RUN)],
     bounds="that the boxed value is of the struct named in a cast to a struct is not checked by april (its own test box/custom_struct.cs unboxes an int as a struct) and not claimed")
prop("C22", "Delegates call exactly the method they were made from",
     "Invoking a delegate calls the bound static or instance method on the bound object with the given arguments of any number and type and returns its result; an exception thrown by it reaches the caller's handler.",
     "all argument values and choices of target", WHY + "the target is chosen at run time.", [EXP, RUN, "modules/rtlib/rtlib.cpp"], [("delegate invocation", RUN)])
prop("C23", "Compound assignment, ++/-- and properties read and write once",
     "x op= y, x++, ++x, x--, --x on locals, parameters, ref parameters, fields and array elements store exactly the result of the operator converted to the type of x; used as values on locals, by-value parameters, fields and array elements they, and plain assignments, yield the old or new value as written; a property or indexer read or write calls its accessor exactly once with that value and those indexes, and an automatic property keeps the value written.",
     "all values of every type and target kind", WHY + "wrap-around and conversion back to small types depend on the value.", [EXP, RUN, "modules/compile/xilx.cpp"], [("assign compilation", EXP)],
     bounds="compound operators on properties are not supported by the compiler and not claimed")

prop("C21", "Generic classes and methods keep values of every type argument",
     "Instances of a generic class, and generic methods, store and pass values of their type parameter unchanged for every type argument (each primitive type); instances with different type arguments, and two type parameters of one class, do not disturb each other.",
     "all values of every primitive type argument", WHY + "each instantiation has its own layout and every value must survive in it.",
     ["modules/rt/rt.cpp", EXP, RUN, "modules/core/core.cpp", "modules/rt/layout.cpp"], [("generic types at run time", "modules/rt/rt.cpp rt_generic_type_t"), ("layout", "modules/rt/layout.cpp")],
     bounds="fields, constructor arguments, parameters, out parameters; results of the type parameter's type are not claimed")
prop("C24", "Virtual and interface calls run the override of the object's class",
     "A call of a virtual, abstract or interface method or property runs the most derived implementation of the object's run-time class, whatever the static type of the reference, with the given arguments on that object; a non-virtual call runs the method of the static type.",
     "all choices of the object's class at run time and all argument values", WHY + "the target depends on the run-time class of the object, reached through every kind of reference.",
     ["modules/rt/rt.cpp", RUN, "modules/compile/ast.cpp", "modules/core/core.cpp"], [("virtual table", "modules/rt/rt.cpp __build_vtbl"), ("interface and virtual call commands", RUN)])
prop("C25", "Exceptions reach the first matching handler and every finally runs once",
     "A thrown exception unwinds to the innermost enclosing try whose first catch clause of the exception's class or a base class matches, across any number of calls; every finally block on the way, and on return, break and continue, runs exactly once and in order; locals and returned values keep their values; execution goes on after the try statement. Access to a field or element of null and an index out of range throw exceptions that can be caught like any other.",
     "all choices of where, whether and which exception is thrown", WHY + "each combination of throw point, handler and way of leaving a block has its own path.",
     [RUN, "modules/compile/statements.cpp", "modules/exec/parser.cpp", "include/modules/exec.h"], [("handler search", RUN + " __process_exception"), ("finally blocks", RUN + " __process_finally")], over=("inputs", "fault_sequences"),
     bounds="try nesting up to 3, call depth up to 4, loops up to 3 iterations")
prop("C26", "Enum members have their declared values",
     "Each enum member has its explicit value or one more than the member before it; conversions between an enum and int keep the value; enum variables, fields, elements, parameters, results and comparisons behave like the underlying integer.",
     "all values of the underlying type", WHY + "any integer can be converted to an enum and must survive.",
     ["modules/compile/ast.cpp", EXP, RUN], [("enum values", "modules/compile/ast.cpp"), ("enum conversion", EXP)])

LEX = "modules/lang_cs/cs_token_reader.cpp"
prop("C08", "Character and string literals denote exactly the characters written",
     "A character or string literal denotes exactly its characters: printable ASCII stands for itself, the escapes \\n \\r \\t \\b \\f \\v \\a \\0 \\\\ \\' \\\" for their characters, and in a verbatim string (@\"...\") a backslash is a backslash and \"\" is one quote. Text inside a literal is never taken for code or a comment, and literals that differ in one character stay different.",
     "all printable ASCII characters at the symbolic positions, all escapes", WHY + "each character and escape at each position must survive lexing, the string table, the assembly file and loading.",
     [LEX, "modules/compile/token_reader.cpp", "modules/core/assembly_writer.cpp", "modules/core/assembly_reader.cpp"], [("literal lexer", LEX)],
     bounds="up to 3 symbolic characters per literal; ASCII without the backquote (reserved by the language sections); \\x and \\u escapes are not claimed")
prop("C27", "System.Math functions give the value of the function they name",
     "Math.Max, Min, Abs, Sign on every numeric type and Sin, Cos, Tan, Asin, Acos, Atan, Sinh, Cosh, Tanh, Asinh, Acosh, Atanh, Log, Log10, Sqrt and Pow return what the named function gives for the arguments as passed, and leave the arguments unchanged.",
     "all argument values in the functions' domains", WHY + "a swapped argument or a wrong overload is right for some values.",
     ["modules/rtlib/math.cpp", "core_lib/System/Math.cs"], [("native math functions", "modules/rtlib/math.cpp")],
     bounds="transcendental functions are uninterpreted (congruence only); NaN, equal zeros excluded for Max/Min")
prop("C28", "Console prints exactly the values given, in order",
     "Console.Write and WriteLine of each primitive type, string and null print exactly the text of that value - nothing more, nothing less, WriteLine followed by a line end - and the texts come out in the order of the calls.",
     "all values of every primitive type", WHY + "every value must be printed as itself.",
     ["modules/rtlib/system.cpp", "core_lib/System/Console.cs"], [("console natives", "modules/rtlib/system.cpp")],
     bounds="the digits of a printed number are produced by the C++ library and not analysed; the value and formatting type handed to it are")
prop("C29", "Comments and white space separate tokens and mean nothing else",
     "Comments (// to the end of the line, /* to the first */) and any mixture of blanks, tabs and line ends between tokens do not change what a program does; the longest operator is taken; a sign after an operand is an operator, however closely it is written; two names are the same exactly when all their characters are, and a name that merely starts like a keyword is a name.",
     "all characters at the symbolic positions of comments, white space, names and operators", WHY + "the lexer must be right for every character in every state.",
     [LEX, "modules/compile/token_reader.cpp", "modules/lang_cs/text.src"], [("token reader", LEX)],
     bounds="up to 3 symbolic characters in a comment, 4 blanks, one character of a name, two operator characters")
prop("C30", "Programs that break the typing and scope rules are rejected",
     "A program with a narrowing or unrelated implicit conversion in an initializer, argument or result, an undefined or inaccessible name, wrong arguments, a missing result, a duplicate declaration or a syntax error is reported as an error and no part of it runs; the corresponding correct programs are accepted.",
     "all digits in names and values of each listed shape of program, all pairs of types", WHY + "each rule has to hold for each pair of types and each context.",
     [EXP, "modules/compile/ast.cpp", "modules/compile/statements.cpp", "modules/core/core.cpp"], [("implicit conversion rules", "modules/core/core.cpp"), ("checks", "modules/compile/ast.cpp")],
     bounds="assignment statements are not type-checked by the compiler and not claimed")
prop("C31", "The optimisation level does not change what a program does",
     "A program compiled at any optimisation level (-O 0 to 3) prints the same values in the same order: constant folding, simplified operations (x + 0, 1 * x, x << 0 ...), constants in place of variables, removed code and switches turned into ifs change neither values, types, effects, evaluation order nor exceptions.",
     "all operand values, choices and loop bounds of the programs, levels 0 to 3", WHY + "an unsound simplification is wrong only for particular types and values.",
     [EXP, "modules/compile/statements.cpp", "modules/compile/xilx.cpp", "modules/core/expression_executor.cpp", "include/modules/core.h"], [("simplified operations", EXP + " __compile_add ..."), ("unreached code, constant variables", "modules/compile/statements.cpp, modules/compile/xilx.cpp")],
     bounds="the programs of C09-C26 at level 3, and of C31 at levels 1 to 3, compared with the meaning the language gives them; level 0 is what the other checks use")
prop("C32", "A library compiled to a file of its own works like the same code in the program",
     "Classes, structs, enums, constants, interfaces, generic classes, delegates and exceptions of a library that was compiled to an .apl file behave in a program that imports it exactly as if they were compiled with it: calls pass and return every value, virtual and interface calls cross the border in both directions, fields, properties, constants and enum members have their values, exceptions cross it, and types keep their identity.",
     "all argument values and choices of the programs, for each exported kind of member and each primitive type", WHY + "each kind of member has its own encoding in the file and its own resolution when it is read.",
     ["modules/core/assembly_writer.cpp", "modules/core/assembly_reader.cpp", "modules/core/assembly_layout.cpp", "modules/core/__assembly_layout.h", "modules/rt/rt.cpp", RUN],
     [("writer", "modules/core/assembly_writer.cpp"), ("reader", "modules/core/assembly_reader.cpp")],
     bounds="one library at a time, its text concrete; generic members whose result has the type parameter's type are not claimed")
prop("C33", "A name denotes the declaration in scope, a constant its declared value and type",
     "A simple or qualified name denotes the innermost declaration in scope (local, parameter, member, type, namespace, using alias); equal names in different scopes, types and namespaces stay apart; overloads, nested types, typeof and default(T) resolve to the declared entity; a const local or field has its value converted to its declared type wherever it is used.",
     "all values of the variables in the programs, for each shape of nesting", WHY + "a wrong resolution reads another variable, which shows only when their values differ.",
     [EXP, "modules/compile/ast_utils.cpp", "modules/compile/ast.cpp", "modules/core/core.cpp", "modules/compile/xilx.cpp"],
     [("name resolution", "modules/compile/ast_utils.cpp"), ("constants", "modules/core/core.cpp field_variable_t::execute")])

def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                "observe_at": ["console output of a program run with 'april run'"], "hook_needed": None}}) + "\n")
            assert len(p["title"]) <= 80, p["id"]
            for x in p["files"]:
                if not os.path.exists("/repo/" + x): print("no such file", p["id"], x)
    TECH = "symbolic execution of the compiled repository code (LLVM IR instrumentation) with z3 deciding every branch and assertion"
    NOTE = ("Bounded: every assertion is discharged by z3 for all values of the symbolic inputs of the listed program shapes, each explored to path exhaustion; "
            "program shapes are fixed by the cases, {b}. Trusted: clang's IR, the instrumentation, z3, uninstrumented libc/libstdc++; counterexamples are replayed natively before they are reported.")
    m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": [
        {"property": p["id"], "quick_cmd": "python3-vt tools/check.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3-vt tools/check.py %s thorough" % p["id"],
         "technique": TECH, "level": "other", "level_note": NOTE.format(b="bounds: " + (p["bounds"] or "the operand and type combinations of the cases"))} for p in P],
        "not_applicable": NA, "notes": "No hooks in /repo; the checks compile /repo's working tree with their own build (tools/build.py). Commits in /repo are fixes only; see known_findings.json."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

NA = []
if __name__ == "__main__": main()
