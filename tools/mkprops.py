#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand; the .jsonl is what is committed and read)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

C = "src/core/c/"; PRE = "src/core/s/prelude.min"; LIB = "src/library/"; PRV = "src/library/private/"

p("C01", "Core programs evaluate as lexically scoped, left-to-right call by value",
  "Every program built from the core forms (define-values, lambda, case-lambda, if, begin, let-values, letrec-values, set!, quote, application) produces exactly the sequence of effects and the result of a lexically scoped, call-by-value, left-to-right evaluation of its source. Compilation and optimisation never change a program's output, and a closure always sees the current value of every variable it captured, including variables assigned after capture.",
  ["programs"], "all programs over the core forms, whatever their nesting, shadowing, capture and assignment structure",
  "The tests run a few hundred fixed programs; the compiler's passes rewrite by syntactic shape, so a wrong rewrite shows up only for the nesting of forms that triggers it, and there are unboundedly many such nestings.",
  [C+"jit.c", C+"jitopt.c", C+"jitanalyze.c", C+"jitcompile.c", C+"jitcommon.c", C+"eval.c", C+"env.c", C+"check.c"],
  [("source-to-source passes L0, L1, L2", C+"jitopt.c"), ("free/bound variable analysis", C+"jitanalyze.c"), ("bytecode compiler", C+"jitcompile.c"), ("interpreter loop", C+"eval.c")],
  ["output and exit status of a program run with `minim --no-libs`", "output of the same forms at the top level and inside a procedure body"],
  [("environment", "cells of the variables in scope", C+"eval.c"), ("closure", "code plus captured cells", C+"eval.c"), ("continuation chain", "pending frames", C+"frame.c")])

p("C02", "Multiple values arrive complete, in order, and only where accepted",
  "A producer returning n values delivers exactly those n values, in order, to the receiving let-values, letrec-values, define-values or call-with-values, for every n including 0 and 1, wherever the producing and receiving expressions are nested. If the receiver's arity does not admit n, or a context that needs one value gets a different number, the program stops with an error and exit status 1 rather than continuing with wrong bindings or crashing.",
  ["programs"], "all combinations of producer expression, number of values, receiver formals and enclosing context",
  "Tests use values in a few straight-line positions; the rewriting of values/call-with-values depends on the producer's and consumer's shapes and on whether arguments are already pending in the frame.",
  [C+"jitopt.c", C+"jitcompile.c", C+"eval.c", PRE],
  [("mv-call / mv-let / mv-values rewriting", C+"jitopt.c"), ("do_values, values_to_args, force_single_value, bind_values", C+"eval.c")],
  ["output and exit status of generated programs"],
  [("value buffer", "the values last returned by `values`", C+"eval.c")])

p("C03", "Procedure calls respect arity; case-lambda and apply dispatch exactly",
  "Calling a procedure with a number of arguments it does not accept never runs its body: it stops with an arity error, for built-in and user procedures alike. An accepted call binds each parameter to the corresponding argument, collects exactly the surplus in a rest parameter, and runs the first clause of a case-lambda that accepts the count; apply behaves as the call with the list's elements appended to the preceding arguments.",
  ["programs", "inputs"], "all formals (fixed, optional rest, multi-clause), all argument counts, direct and applied calls, operators written as lambda expressions or as variables",
  "Tests call procedures with the counts they accept; arity checks are emitted per clause and dropped by optimisations for some operator shapes.",
  [C+"jitcompile.c", C+"jitopt.c", C+"jitprims.c", C+"eval.c", C+"procedure.c", C+"prim.c", PRE],
  [("arity dispatch code", C+"jitcompile.c"), ("do_apply, do_rest, arity_mismatch_exn", C+"eval.c"), ("procedure-arity", PRE)],
  ["output and exit status of generated programs", "procedure-arity of every procedure against the counts it accepts"])

p("C04", "Tail calls run in constant stack; deep recursion returns every frame intact",
  "A loop written with tail calls (through if, begin, let-values, call-with-values, apply, case-lambda or mutual recursion) runs for any number of iterations. A non-tail recursion of any depth that memory permits returns the right result, each pending frame resuming with its own arguments, local variables and environment, however often the stack is extended and unwound.",
  ["programs", "inputs"], "recursion depth, number of pending arguments per frame, argument-list length, and interleaving of growth and return",
  "No test recurses past one stack segment, so segment growth, underflow and re-growth never run in the suite.",
  [C+"eval.c", C+"frame.c", C+"jitcompile.c", "src/boot/c/boot.c"],
  [("grow_stack / check-stack / restore_frame", C+"eval.c"), ("continuation objects", C+"frame.c")],
  ["result of deep recursions with random frame shapes", "lists of many elements given to apply"],
  [("stack segments", "chain of cached segments and current frame pointer", C+"eval.c")])

p("C05", "A raised exception reaches the handler once and nothing after it runs",
  "Raising any object, calling error, or violating a checked operation transfers control to the current error handler exactly once with an object that identifies the kind of error, its origin and the offending values; under the default handler the message goes to standard error, all output produced before it is delivered, the process exits with status 1, and no later expression of the program is evaluated. (exit n) ends the program with status n in the same way.",
  ["programs"], "all raising constructs, in every evaluation context, with every installed handler",
  "The suite contains almost no failing programs: a test that must exit 0 cannot check what happens when the program errs.",
  [C+"error.c", C+"eval.c", C+"system.c", PRE],
  [("do-raise, setjmp re-entry", C+"eval.c"), ("do_error2", C+"error.c"), ("exception records and default-error-handler", PRE)],
  ["stdout, stderr and exit status of failing programs", "fields of the exception object seen by an installed handler"],
  [("current error handler", "procedure that receives raised objects", C+"thread.c")])

p("C06", "Checked procedures reject bad arguments and never crash the runtime",
  "Every procedure of the base environment, given any arguments, either returns a value of its documented kind or raises an exception; arguments of the wrong type and indices out of range always raise. No call ends the process by a signal, reads or writes outside an object, or succeeds silently on an argument outside its domain.",
  ["inputs"], "every public procedure applied to every tuple of representative arguments of every type, boundary indices included",
  "Tests apply procedures to valid arguments; the checks are hand-written per procedure in the prelude around unchecked C primitives.",
  [PRE, C+"prim.c", C+"string.c", C+"vector.c", C+"list.c", C+"number.c", C+"char.c", C+"box.c", C+"io.c", C+"record.c", C+"hashtable.c", C+"syntax.c", C+"env.c", C+"procedure.c"],
  [("type and range guards", PRE), ("raise-argument-error / raise-range-error", PRE)],
  ["value or exception kind of each call", "process exit by status, never by signal"])

p("C07", "Hashtables are exact finite maps under their equivalence",
  "After any history of set, delete, update, clear, copy and lookup, a hashtable holds exactly one entry per key (up to the table's equivalence) with the value last stored, and size, keys, values, entries, membership and lookup all agree with that map. This holds across growth, colliding hashes, user-supplied hash and equivalence procedures, and callbacks that use the table; copies are independent of the original.",
  ["histories"], "all operation histories over any number of keys, with any hash function consistent with the equivalence",
  "Tests store at most a handful of keys: growth, collisions, deletion inside a chain and re-entrant updates are never exercised together.",
  [C+"hashtable.c", PRE], [("bucket vector, find/insert/resize", C+"hashtable.c"), ("make-custom-hashtable and operations", PRE)],
  ["result of every table operation of a history", "contents after every operation"],
  [("buckets", "chains of key/value cells", C+"hashtable.c"), ("count", "number of entries", C+"hashtable.c")])

p("C08", "equal?, eq? and hashing are coherent",
  "equal? is an equivalence that coincides with structural equality of pairs, vectors, strings, boxes and hashtables (records compare by identity unless their type, or the default record equality procedure, says otherwise), eq? implies equal?, and equal? objects have equal hashes. eq? identifies exactly the same object, with numbers, characters and interned symbols identified by value.",
  ["inputs"], "all pairs and triples of data, however nested and shared",
  "Tests compare a few atoms and flat lists; symmetry, transitivity and hash agreement quantify over pairs of arbitrary structures.",
  [C+"object.c", C+"hashtable.c", C+"record.c", PRE],
  [("minim_eqp / minim_equalp", C+"object.c"), ("equal? / equal-hash dispatch", PRE)],
  ["eq?, equal?, equal-hash, eq-hash of generated data"])

p("C09", "Symbols with one spelling are one object; generated symbols are fresh",
  "Reading or converting the same spelling always yields the same symbol object, whatever the number of symbols created before, between and after, and symbol->string returns that spelling. Distinct spellings are never identified, and generated symbols differ from every interned one.",
  ["histories"], "all sequences of symbol creation, of any length",
  "A test program creates a few hundred symbols; the table is only rebuilt when thousands have been created.",
  [C+"symbol.c", C+"string.c", C+"read.c"], [("intern table and its resizing", C+"symbol.c")],
  ["eq? of symbols created from equal spellings before and after table growth"],
  [("intern table", "buckets of all interned symbols", C+"symbol.c")])

p("C10", "Reading what was written gives back the datum",
  "For every datum made of the readable kinds (booleans, integers, characters, strings, symbols, lists, improper lists, vectors, boxes where readable), reading the text produced by write yields an equal datum and consumes exactly that text. Reading is a function of the text alone: whitespace, comments (line, nested block, datum) and bracket shape never change the datum read, and malformed text raises an error instead of hanging or crashing; both readers of the system agree.",
  ["inputs"], "all readable data and all texts",
  "Tests read hand-written sources; no test generates data or malformed text, and comments inside every list position are not tried.",
  [C+"read.c", C+"print.c", PRE, LIB+"read.min", C+"io.c"],
  [("read_object", C+"read.c"), ("put-datum / write / display", PRE), ("library reader", LIB+"read.min")],
  ["text written by write/display", "datum read from a text and position after it"])

p("C11", "Fast-load serialisation returns an equal datum",
  "Any datum of the serialisable kinds written with fasl-write and read back with fasl-read, through a file, is equal to the original, for any nesting, size or byte content, and several data written to one port are read back in order. Truncated input is reported as an error.",
  ["inputs"], "all serialisable data, including boundary integers, empty and very long strings, deep nesting",
  "The unit test round-trips a fixed list of small data.",
  [C+"fasl.c", PRE], [("write_fasl / read_fasl tags and variable-length integers", C+"fasl.c")],
  ["equal? of the datum before and after", "bytes left after each datum"])

p("C12", "List procedures compute their specified sequence functions",
  "For all lists and indices the list procedures (length, reverse, append, list-ref, list-set, member, assoc, index-of, remove, remove*, filter, map, for-each, andmap, ormap, foldl, foldr, iota, make-list, cons*, first..tenth, c[ad]+r) return the sequence their definition prescribes, call their procedure argument on the elements in order and exactly as often as prescribed, and leave their arguments unchanged.",
  ["inputs"], "all lists, procedures and indices, including empty lists and boundary indices",
  "Tests check one or two examples per procedure.",
  [PRE, PRV+"list.min", C+"list.c"], [("list library", PRV+"list.min"), ("map/for-each/andmap/ormap loops", PRE)],
  ["returned list", "sequence of callback invocations", "argument lists afterwards"])

p("C13", "sort returns a stable ordered permutation and leaves its input alone",
  "For every list or vector and every strict ordering, sort returns a sequence of the same kind containing exactly the input's elements, in order, with elements that compare equal in their original relative order. The input is unchanged.",
  ["inputs"], "all sequences of any length and any strict weak ordering",
  "Tests sort a few short lists of distinct integers, which can reveal neither instability nor mutation of the input.",
  [PRV+"sort.min"], [("merge! and sort!", PRV+"sort.min")], ["sorted result, input afterwards, comparison calls"])

p("C14", "Sets and enumeration sets obey set algebra",
  "After any history of operations, a set contains exactly the elements added and not since removed; union, intersection, subtraction, symmetric difference, subset and equality agree with mathematical sets and leave their arguments unchanged. Enumeration sets obey the same laws relative to their universe, and list, index, construct and project their members in universe order.",
  ["histories", "inputs"], "all histories over all element kinds and all pairs of sets",
  "Tests evaluate a few fixed expressions; the algebraic laws quantify over all sets, and aliasing between argument and result is not tested.",
  [PRV+"set.min", PRV+"enum.min"], [("hashtable-backed set operations", PRV+"set.min"), ("enum-set operations", PRV+"enum.min")],
  ["membership, count and elements after every operation"])

p("C15", "Records keep type identity, field integrity, inheritance and genericity",
  "An instance answers true to the predicates of its own type and its ancestors and to no others, each accessor returns what the constructor or the last mutation of exactly that field stored, and accessors or mutators applied to anything else raise. Sealed types cannot be extended, opaque instances reveal nothing, types defined twice are distinct, and generic methods dispatch to the implementation attached to the instance's type, with custom equality, hashing and printing honoured.",
  ["histories", "programs"], "all type hierarchies, field layouts and access histories",
  "Tests define a few record types with at most one parent level and one or two fields.",
  [C+"record.c", PRE, PRV+"record.min", PRV+"generics.min"], [("make-record-type-descriptor, accessors", PRE), ("define-record-type", PRV+"record.min"), ("define-generics", PRV+"generics.min")],
  ["result of predicates, accessors, mutators, generic calls"])

p("C16", "Modules are instantiated once, in dependency order, exposing only exports",
  "In any acyclic import graph each module's body runs exactly once, after all modules it imports, and every importer shares the same instance. A module sees the exports (values and macros) of its direct imports and nothing else; re-exports with `all` pass on exactly the exports of that module, and using an unexported or undefined name is an error before the module's body runs.",
  ["configurations", "programs"], "all acyclic module graphs, export lists and uses",
  "The tests import the base library only; diamonds, shared state, re-export chains and name hiding are not tested.",
  [LIB+"module.min", LIB+"expander.min", "src/boot/s/boot.min"], [("module table and import/export phases", LIB+"module.min"), ("scope check", LIB+"expander.min")],
  ["order of effects of module bodies", "value or error for each name use"],
  [("module table", "path -> exports of instantiated modules", LIB+"module.min")])

p("C17", "Environments isolate and eval uses exactly the environment given",
  "Evaluating an expression in an environment reads and changes only that environment's bindings, a copied environment is independent of the original afterwards, and the caller's own bindings are in force again when eval returns. environment-ref, environment-set!, environment-symbols and current-environment agree with the definitions evaluated in the environment, for any number of bindings.",
  ["histories"], "all histories of eval, define, set!, copy, ref and set over several environments",
  "One test file evaluates a few expressions in one environment.",
  [C+"env.c", C+"eval.c", C+"jitprims.c", PRE], [("top-level environment table", C+"env.c"), ("compile_eval save/restore of the current environment", C+"jitprims.c")],
  ["result of each operation of a history"],
  [("top-level environment", "symbol -> cell table", C+"env.c")])

p("C18", "syntax-case patterns match and templates expand exactly as specified",
  "For every pattern and input form, syntax-case and syntax-rules select the first clause whose pattern matches, bind each pattern variable to exactly the corresponding part (ellipsis variables to the sequence of matches, at every nesting depth, with any fixed tail), and templates reproduce those parts in place. A form no clause matches is an error.",
  ["inputs", "programs"], "all patterns (literals, wildcards, nested ellipses, tails, improper and vector patterns), inputs and templates",
  "Tests use a few dozen patterns; matching and substitution are recursive over arbitrary nesting.",
  [PRV+"stxcase.min", PRV+"stxcase-extra.min", PRV+"template.min", PRV+"template-utils.min", PRV+"stx.min", LIB+"expander.min", C+"syntax.c"],
  [("match-pattern / pattern compilation", PRV+"stxcase.min"), ("template substitution", PRV+"template-utils.min")],
  ["datum produced by expanding a macro defined with generated patterns and templates"])

p("C19", "Derived forms evaluate each part at most once, in order, with the right scope",
  "let, let*, letrec, named let, define, cond (with =>-free clauses and else), case, and, or, when, unless and do evaluate exactly the subexpressions their definition calls for, each at most once and in order, in the right scope, and return the prescribed value. Malformed uses are rejected with a syntax error before anything is evaluated.",
  ["programs"], "all programs over the derived forms and all nestings of them",
  "Tests check single uses with constant operands; nesting, shadowing and effects in operands are untested.",
  [PRV+"let.min", PRV+"cond.min", PRV+"case.min", PRV+"and-or.min", PRV+"when-unless.min", PRV+"do.min", PRV+"define.min", LIB+"expander.min", "src/boot/s/boot.min"],
  [("macro transformers", PRV+"let.min"), ("expander body and scope handling", LIB+"expander.min")],
  ["sequence of effects and result of generated programs run with the library"])

p("C20", "A promise's body runs at most once and every force sees the same result",
  "delay evaluates nothing; the first force evaluates the body once and every later force or lazy returns that same result without evaluating again, in any interleaving of promises that force one another. lazy follows a chain of promises to its final non-promise value, promise-forced? tells truly whether the body has run, and an error in the body leaves the promise unforced.",
  ["histories"], "all histories of creating, forcing and inspecting promises, including nested and chained ones",
  "Tests force one promise at a time.",
  [PRV+"promise.min"], [("force / lazy with cache and flag", PRV+"promise.min")], ["effects of promise bodies and results of force/lazy/promise-forced?"],
  [("cache and forced flag", "per-promise state", PRV+"promise.min")])

p("C21", "Ports deliver exactly the characters written, in order, then end of file",
  "Characters, strings and data written to an output port appear in the file or string exactly once and in order, and reading a port yields exactly its contents followed by end of file forever. peek-char does not consume, reads of different kinds (char, datum) interleave at exact positions, and operations on closed or wrong-direction ports raise.",
  ["histories", "inputs"], "all interleavings of reads, peeks, writes, flushes and closes over several ports and any byte contents",
  "Tests open a file once and read one datum.",
  [C+"io.c", C+"read.c", PRE], [("port primitives", C+"io.c"), ("port guards", PRE)], ["values returned by reads, bytes of files and string ports"],
  [("port", "FILE stream with open/direction flags", C+"io.c")])

p("C22", "Strings, characters and paths behave as mutable character sequences",
  "string-ref, string-set!, substring, string-append, make-string, string<->list, string<->symbol, string<->number and char<->integer agree with operations on sequences of characters for all contents and indices, results are fresh and do not alias their arguments, and lengths never include hidden characters. build-path, split-path and path->list agree with their definition on slash-separated components.",
  ["inputs", "histories"], "all strings, indices and operation histories, embedded NUL and non-ASCII bytes included",
  "Tests check one example per operation.",
  [C+"string.c", C+"char.c", PRE, PRV+"string.min", PRV+"path.min"], [("string primitives", C+"string.c"), ("substring", PRV+"string.min"), ("paths", PRV+"path.min")],
  ["result and argument contents after every operation"])

p("C23", "Integer arithmetic is exact within the 64-bit range",
  "Whenever the mathematical result fits in a signed 64-bit integer, +, -, *, /, add1, sub1 with any number of arguments return it; / truncates, remainder has the dividend's sign, modulo the divisor's sign, and both satisfy the division identity. Comparisons with any number of arguments agree with integer order, and dividing by zero raises an error.",
  ["inputs"], "all 64-bit operands and all argument counts",
  "Tests use a handful of small operands.",
  [C+"number.c", PRE, C+"string.c", C+"read.c", C+"print.c"], [("fixnum primitives", C+"number.c"), ("variadic wrappers", PRE)], ["results of arithmetic on generated operands"])

p("C24", "The collector keeps everything reachable and reclaims each block at most once",
  "In Minim's own garbage collector, memory reachable from roots, registered blocks or other reachable memory is never reclaimed or altered by any sequence of allocations, reallocations, frees and collections. A destructor runs exactly once for each reclaimed or explicitly freed block that has one and never while the block is reachable, atomic blocks keep nothing alive, and unreachable blocks are eventually reclaimed.",
  ["histories"], "all histories of allocation, pointer mutation, rooting, realloc, free, pause/resume and collection",
  "The collector is compiled by the build but no test links or runs it.",
  ["src/gc/minim-gc/gc.c", "src/gc/minim-gc/gc-impl.c", "src/gc/minim-gc/gc-types.h", "src/gc/minim-gc/gc.h"],
  [("mark and sweep", "src/gc/minim-gc/gc-impl.c"), ("public API", "src/gc/minim-gc/gc.c")],
  ["contents of reachable blocks, destructor calls, accounting functions after each operation"],
  [("allocation table", "hash table of blocks by address", "src/gc/minim-gc/gc-impl.c"), ("mark stack", "grey set", "src/gc/minim-gc/gc-impl.c")])

p("C25", "Mutable data have identity: updates are seen by all aliases and no others",
  "A mutation of a pair, vector, box or string changes exactly that field of exactly that object: it is visible through every reference to the object and through no other object. Constructors and copying conversions (list, vector, list->vector, vector->list, append, make-vector, reverse) return fresh structure, sharing only what their definition shares.",
  ["histories"], "all histories of construction, aliasing, mutation and observation over a heap of pairs, vectors, boxes and strings",
  "Tests mutate one object and read it back; sharing between several objects is not observed.",
  [C+"list.c", C+"vector.c", C+"box.c", C+"string.c", PRE], [("mutators", C+"list.c"), ("vector operations", C+"vector.c")], ["contents of every live object after every operation"],
  [("heap", "objects and their fields", C+"list.c")])

p("C26", "The command line runs the given program with its arguments and reports status",
  "minim FILE ARG... evaluates FILE exactly once with (command-line) equal to the file name and arguments, options before the file select quiet, interactive and library-free modes and nothing else, and the process exits 0 when the program completes, with the program's own status when it calls exit, and 1 after an error. The interactive prompt evaluates each form of its input in order in one environment, printing every non-void value, until end of input.",
  ["configurations", "inputs"], "all option combinations, argument lists and interactive inputs",
  "All tests use `minim -q FILE` on a passing file.",
  ["src/boot/c/minim.c", "src/boot/c/boot.c", C+"system.c", LIB+"module.min"], [("handle_flags, main, REPL loop", "src/boot/c/minim.c"), ("exit, command-line", C+"system.c")],
  ["stdout, exit status for each invocation"])

p("C27", "The boot image rebuilt from the library sources is equivalent to the shipped one",
  "Generating the boot file from the library sources succeeds, is deterministic, and yields a boot image with which every module loads and behaves exactly as with the shipped one; generating again with the new image reproduces it (a fixed point).",
  ["programs", "configurations"], "all library sources and all programs loaded under either image",
  "One test generates the file and looks only at the exit status; the generated image is never run.",
  [LIB+"gen-boot.min", LIB+"expander.min", LIB+"module.min", LIB+"read.min", "src/boot/s/boot.min"],
  [("gen-boot", LIB+"gen-boot.min"), ("expand/module", LIB+"expander.min")],
  ["generated boot text", "conformance results of generated programs under both images"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
