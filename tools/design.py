#!/usr/bin/env python3
"""writes the generated parts of DESIGN.md (per-property table, planted bugs) from props.py, harness and seeded/"""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); sys.path.insert(0, HERE)
import props
HOW = {
 "C01": "for each pair of integer types a program reads both operands as symbolic values, prints every operator's result; oracle: C++ arithmetic in the promoted type, wrapping. Division/modulo: divisor != 0, MIN/-1 excluded; 64-bit divisors are 8 bits wide (z3 does not divide wider in time).",
 "C02": "as C01 for & | ^ ~ << >>, counts symbolic below the width.",
 "C03": "as C01 for the six comparisons over all pairs of numeric types, bool and char; each used as a value and as a condition.",
 "C04": "casts between every pair of integer types and char; implicit widening in 19 contexts (local, assignment, argument, result, field, element, property, constructor, ref, struct field, ?: ...) for every allowed pair.",
 "C05": "float/double operators and conversions with z3's IEEE theory; NaN compared as NaN; conversion out of range excluded.",
 "C06": "literals with symbolic digits, compiled at level 1: the program prints the folded expression and the same expression over variables; both output values must be equal for all digit values. Runs the lexer, number parser, folding executor and interpreter symbolically.",
 "C31": "programs compiled in a solution at levels 1-3: constants 0..2 (symbolic digit) with a symbolic operand of every type under every simplified operator, constant conditions, short switches, locals with constant initialisers written in every possible way; and every case of C09-C26 again at level 3.",
 "C07": "literal texts with symbolic digits in every notation and suffix; oracle: value of the digits computed by the harness; type observed through overload-independent properties (size of results).",
 "C09": "every pair of the ten binary operators without parentheses, and with both parenthesisations, over symbolic operands; unary, cast, conditional, logical and assignment mixtures.",
 "C10": "operands are calls that print their index and return a symbolic value; oracle: the same trace computed by C++ in C#'s order.",
 "C32": "a library (concrete text) is compiled to a file by the same build in a process of its own, then a program with symbolic values that imports it is compiled and run; one case per exported kind of member, per-type cases for values.",
 "C33": "programs with equal names in nested scopes, types and namespaces, aliases, overloads, nested types and constants of every declared type, every variable symbolic; oracle: the declaration the scope rules give.",
 "C11": "generated nestings of two statements around every way to leave them (unconditional, conditional, one of two; void and int methods; last and followed), executed by a reference on the same tree; and: the text of the loop is compiled both by april and, as the oracle, by clang; bounds symbolic in small ranges, so every trip count is explored.",
 "C12": "switch programs with 0..40 labels (100 in thorough) in several shapes and orders, value symbolic over the whole type; the generated nestings of C11 that contain a switch.",
 "C13": "methods with 0..25 parameters of mixed types, nested and (mutually) recursive calls, overloads; every argument symbolic.",
 "C14": "ref/out of every type, several levels, aliasing.",
 "C15": "structs of 1..24 bytes, 1..10 ints, 1..6 longs, mixtures; each copied by assignment, argument, result, class field, array element, box, with the neighbours and the source checked afterwards.",
 "C16": "up to 60 locals of mixed types, scopes and sibling scopes.",
 "C17": "up to 40 fields of mixed types, inheritance chains of 4 classes, two instances, linked objects, 40 allocations.",
 "C18": "arrays of each element type and lengths 0..31, index symbolic over the whole int range: element, neighbours, exception.",
 "C19": "2..11 dimensions, indexes symbolic (any int), all elements read back.",
 "C20": "each primitive and struct boxed/unboxed; is/as/casts over a class hierarchy with a symbolic choice of the object's class; GetType/typeof comparisons.",
 "C21": "generic class with one and two parameters and generic methods, instantiated with every primitive type.",
 "C22": "delegates to static/instance methods for every type, choice of target symbolic; mixed argument lists, no arguments, delegates as arguments, in arrays, recursive, throwing, of overloads.",
 "C23": "compound operators and ++/-- of every numeric type on every kind of target as statements and values; indexers (1..3 keys, any key and value type), auto and computed properties.",
 "C24": "class hierarchies (up to 4 levels, 20 virtual methods, 3 interfaces) with the object's class symbolic; every reference type; virtual and interface properties, generic interfaces, interface indexers.",
 "C25": "the generated nestings of C11 that contain a try statement; throw point, exception class and way of leaving a try block are symbolic choices; oracle: the same program text/trace in C++.",
 "C26": "enum declarations with explicit/implicit values; conversions over all ints.",
 "C08": "literals with 1-3 symbolic source characters (plain, escaped, verbatim) are compiled and printed; oracle: the character the text denotes.",
 "C27": "arguments symbolic; Max/Min/Abs/Sign against C++; the libm functions are uninterpreted functions of their name, so passing another argument, another function or a changed result gives a different term.",
 "C28": "each type written with symbolic values between texts; oracle: the sequence of (value, type, text) items handed to the stream.",
 "C29": "symbolic source characters inside comments, between tokens, in names and in operators; oracle: the same program without them, or 'undefined name is reported'; + and - with symbolic values right after `)`, `]`, `++`, comments and names.",
 "C30": "one program per rule, pair of types and context with a symbolic digit; output must contain the error and not the text printed by the first statement.",
}
HOW.update(getattr(props, "HOW", {}))
def main():
    s = open(os.path.join(ROOT, "tools", "design.head.md")).read()
    s += "\n## Per property\n\n"
    for p in sorted(props.P, key=lambda p: p["id"]):
        s += "- **%s %s.** %s%s\n" % (p["id"], p["title"], HOW.get(p["id"], "see harness"), (" Bounds: " + p["bounds"] + ".") if p["bounds"] else "")
    s += "\n## Planted bugs (seeded/)\n\nEach compiles, passes the stable tests, and its demo fails with it; 'caught by' is the check that reported it in the last `tools/seed.py all` run.\n\n| id | property | needs | breaks | caught |\n|---|---|---|---|---|\n"
    sd = os.path.join(ROOT, "seeded"); st = {}
    if os.path.exists(os.path.join(ROOT, "tools", "seed_status.json")): st = json.load(open(os.path.join(ROOT, "tools", "seed_status.json")))
    for i in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, i, "meta.json")))
        s += "| %s | %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], m["what_it_breaks"], st.get(i, "not run"))
    k = json.load(open(os.path.join(ROOT, "known_findings.json")))
    s += "\n## Genuine defects found\n\nRecorded, not repaired (known_findings.json; the check prints KNOWN-FINDING and exits 0 for exactly this case and message):\n\n"
    for f in k["findings"]: s += "- %s, %s case `%s`: %s\n" % (f["id"], f["property"], f["case"], f["desc"])
    s += "\nRepaired in /repo (one `fix:` commit each):\n\n"
    for f in k["fixed"]: s += "- " + f + "\n"
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)
if __name__ == "__main__": main()
