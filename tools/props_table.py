prop('C01', 'A positive verdict on a problem without equality is always right',
     'Whenever the prover answers Theorem or Unsatisfiable for an untyped problem without equality, the axioms together with the negated '
     'conjecture have no model. This holds under every supported search option (inner, pre-inner or outer Skolemisation, flattening, '
     'completeness mode, deduction modulo theory, core limits, bounded or unbounded search).',
     ['inputs', 'configurations', 'schedules'],
     'all first-order problems without equality, all option combinations, all interleavings of the parallel branches',
     'The soundness job runs 64 fixed SYN non-theorems under four option sets; a wrong rule, Skolem dependency or branch agreement shows only '
     'on formulas shaped to trigger it.',
     ['src/Search/destructive.go', 'src/Search/rules.go', 'src/Search/children.go', 'src/Search/child_management.go', 'src/Core/Sko/outer-skolemization.go',
      'src/Core/Sko/inner-skolemization.go', 'src/Core/Sko/preinner-skolemization.go', 'src/Unif/matching.go', 'src/Unif/substitutions_type.go', 'src/Core/instanciation.go'],
     [('tableau rules', 'src/Search/rules.go'), ('agreement of children on a substitution', 'src/Search/destructive.go'),
      ('Skolemisation', 'src/Core/skolemisation.go'), ('unification with occurs check', 'src/Unif')],
     ['the RES and SZS status lines on standard output'],
     technique='property-based testing: generated problems vs explicit finite countermodels',
     note=T + 'a Python model evaluator that re-checks every countermodel, and the process-level verdict. Says nothing on problems larger than the generated ones.')
prop('C02', 'A positive verdict on a problem with equality is always right',
     'Whenever the prover answers Theorem or Unsatisfiable for an untyped problem that uses equality, the axioms together with the negated '
     'conjecture have no model that interprets equality as identity. This holds for every equality engine (default, eager, SAT-based, disabled) '
     'and every supported search option.',
     ['inputs', 'configurations', 'schedules'],
     'all first-order problems with equality, all equality engines and options, all interleavings',
     'The existing tests hold a few dozen valid equality problems and no invalid ones outside SYN, so an unsound equality step only makes them pass faster.',
     ['src/Mods/equality/bse/equality.go', 'src/Mods/equality/bse/equality_rules_apply.go', 'src/Mods/equality/bse/equality_problem_list.go',
      'src/Mods/equality/bse/lpo.go', 'src/Mods/equality/sateq/problem.go', 'src/Mods/equality/sateq/satbuilder.go', 'src/Search/rules.go'],
     [('rigid basic superposition', 'src/Mods/equality/bse'), ('SAT encoding of rigid E-unification', 'src/Mods/equality/sateq')],
     ['the RES and SZS status lines on standard output'],
     technique='property-based testing: generated equality problems vs explicit finite countermodels',
     note=T + 'a Python model evaluator that re-checks every countermodel, and the process-level verdict.')
SEARCH = ['src/Search/destructive.go', 'src/Search/rules.go', 'src/Search/children.go', 'src/Search/child_management.go', 'src/Search/search.go']
UNIF = ['src/Unif/code-trees.go', 'src/Unif/machine.go', 'src/Unif/matching.go', 'src/Unif/substitutions_type.go']
VERDICT = ['the RES and SZS status lines on standard output']
prop('C03', 'A theorem is never refuted',
     'Whenever the prover answers CounterSatisfiable or Satisfiable without a limit having been set on the search, the axioms together with '
     'the negated conjecture do have a model. Equality counts as identity unless the equality reasoning is disabled by option.',
     ['inputs', 'configurations', 'schedules'], 'all untyped first-order problems, all option combinations without -l, all interleavings',
     'The completeness jobs only run valid problems the prover is known to prove; a branch given up too early shows on a problem nobody listed.',
     SEARCH + UNIF, [('a branch is open only when nothing is left to apply', 'src/Search/destructive.go'),
                     ('retrieval of unifiable atoms', 'src/Unif/machine.go')], VERDICT,
     technique='property-based testing: generated problems certified unsatisfiable by z3 vs the verdict',
     note=T + 'z3 for the certificate of unsatisfiability, and the process-level verdict. Runs without a verdict in 2 s count as inconclusive.')
prop('C04', 'Small theorems are proved',
     'The prover proves every member of the families of elementary theorems it is built for: implication chains, case splits, quantifier exchanges, '
     'several instances of one axiom, nested Skolem terms, unification of deep terms, equality chains, congruence under functions and predicates. '
     'On random small theorems the share without a proof stays at a few per cent, in every Skolemisation, flattening and equality mode.',
     ['inputs', 'configurations'], 'all instances of the listed families of theorems within the generator sizes, each under several option sets',
     'Existing tests hold some hundred fixed theorems; a rule, unifier or instantiation that is lost for some shape of term leaves them provable.',
     SEARCH + UNIF + ['src/Mods/equality/bse/equality.go'],
     [('reintroduction of quantified formulas', 'src/Search/destructive.go'), ('selection of a substitution', 'src/Search/rules.go'),
      ('equality reasoning', 'src/Mods/equality')], VERDICT,
     technique='property-based testing: generated theorem schemes and z3-certified random theorems vs the verdict',
     note=T + 'z3 for the certificate; the schemes must be proved one by one, the random theorems only up to a tolerated share per family.')
prop('C05', 'Propositional problems are decided, the right way, and the search stops',
     'On every problem without terms the prover stops without any limit and answers positively exactly when the refutation set is false under all '
     'valuations, whatever the connectives, the nesting and the search options.',
     ['inputs', 'configurations', 'schedules'], 'all propositional problems, all option combinations',
     'Existing tests hold some forty propositional theorems and hardly any non-theorem; both directions for every connective under both polarities '
     'and in every nesting cannot be sampled by them.',
     ['src/Search/rules.go', 'src/AST/formula.go', 'src/Search/destructive.go'], [('alpha and beta rules', 'src/Search/rules.go')], VERDICT,
     technique='property-based testing: generated propositional problems vs truth tables', note=T + 'truth tables, the process-level verdict.')
prop('C06', 'The verdict does not depend on how the problem is presented',
     'Renaming bound variables, renaming symbols consistently, reordering axioms, renaming statements, adding tautologies, duplicating axioms, exchanging the sides of '
     'commutative connectives, or wrapping conjuncts into separate axioms never turns a positive verdict into a negative one or back.',
     ['inputs', 'configurations'], 'all untyped problems and all listed presentation changes, adversarial names included (names looking like internal ones)',
     'Existing tests run each problem in one presentation.', SEARCH + ['src/Parser/tptp_parse.y', 'src/AST/maker.go'],
     [('name-independent identity of symbols and variables', 'src/AST')], VERDICT,
     technique='property-based testing: metamorphic relation between presentations of one problem', note=T + 'the relation itself; runs without a verdict are inconclusive.')
prop('C07', 'The verdict does not depend on the schedule or on output options',
     'Repeated runs of one problem, with any number of processors, any core limit, and any choice of proof-output option, never give opposite verdicts; '
     'a problem that stops with a verdict under one schedule stops under the others, without deadlock.',
     ['schedules', 'configurations', 'inputs'], 'all untyped problems, all interleavings of the parallel branches, all output options',
     'A test run samples one interleaving per problem on one machine.', SEARCH + ['src/Glob/errors.go'],
     [('agreement between father and children', 'src/Search/child_management.go'), ('messages of children', 'src/Search/children.go')], VERDICT,
     technique='property-based testing: metamorphic relation between schedules and output options', note=T + 'the operating system scheduler, varied by GOMAXPROCS, CPU pinning and core limits.')
prop('C08', 'Verdict line, SZS status, proof block and exit code agree',
     'Each finished run prints exactly one verdict and one SZS status, for the file given, and they agree: Theorem or Unsatisfiable according to whether there is a '
     'conjecture, CounterSatisfiable or Satisfiable likewise. A proof is printed between its markers exactly when one was asked for and found.',
     ['inputs', 'configurations'], 'all accepted problems, all output options', 'The tests look at the verdict of fixed runs only.',
     ['src/main.go', 'src/Search/search.go', 'src/Glob/errors.go'], [('printing of the status', 'src/Search/search.go')], ['standard output and the exit code'],
     technique='property-based testing: generated problems and option sets vs an output grammar', note=T + 'the grammar of the output as documented.')
PROOFS = ['src/Search/proof.go', 'src/Mods/gs3/proof.go', 'src/Mods/gs3/sequent.go', 'src/Mods/gs3/dependency.go']
prop('C09', 'Rocq proofs are accepted by Rocq',
     'Every proof exported to Rocq, with its context, for a problem without equality and without theory rewriting, is accepted by the Rocq kernel and proves the problem that was given.',
     ['inputs', 'configurations'], 'all untyped theorems the prover proves, all Skolemisation modes',
     'Existing tests compare a few exported proofs with golden files; nobody compiles them.',
     PROOFS + ['src/Mods/rocq/proof.go', 'src/Mods/rocq/context.go'], [('translation of tableau to sequents', 'src/Mods/gs3'), ('printing in Rocq', 'src/Mods/rocq')],
     ['the text printed by the Rocq output option'],
     technique='property-based testing: generated theorems, exported proofs compiled by coqc', note=T + 'coqc 8.16, and a comparison of the exported statement with the problem.')
prop('C10', 'TPTP and SC-TPTP proofs are correct step by step',
     'In every proof exported in TPTP or SC-TPTP form each step is a correct instance of the rule it names, its parents exist, the axioms are those of the problem, and the last step proves the problem.',
     ['inputs', 'configurations'], 'all untyped theorems the prover proves, all Skolemisation modes',
     'Existing tests compare a few exported proofs with golden files; nobody checks their steps.', PROOFS + ['src/Mods/tptp/proof.go', 'src/Mods/tptp/output.go'],
     [('translation of tableau to sequents', 'src/Mods/gs3'), ('printing of steps', 'src/Mods/tptp')], ['the text printed by the TPTP output options'],
     technique='property-based testing: generated theorems, exported proofs checked by an independent checker', note=T + 'the step checker written for this check.')
prop('C11', 'The printed tableau is a correct closed tableau',
     'Every tableau printed by the proof option starts from the negated conjecture and the axioms, every rule application is correct, universal instances are terms, '
     'Skolem terms are fresh, and every branch ends with a contradiction under the final substitution.',
     ['inputs', 'configurations'], 'all untyped theorems without equality the prover proves, all Skolemisation modes', 'Existing tests never check a printed tableau.',
     ['src/Search/proof.go', 'src/Search/print_proof.go', 'src/Search/destructive.go'], [('recording of the proof', 'src/Search/proof.go')],
     ['the text printed by the proof option'], technique='property-based testing: generated theorems, printed tableaux checked by an independent checker',
     note=T + 'the tableau checker written for this check.')
prop('C12', 'The parser gives formulas their TPTP meaning',
     'For every formula in the supported TPTP syntax, whatever the spacing, comments, redundant brackets, quoting, chains of associative connectives, defined symbols and negated equalities used to write it, '
     'the formula the prover works on is the one the TPTP standard assigns to the text.',
     ['inputs', 'programs'], 'all texts in the supported fragment of TPTP FOF and TFF', 'The tests parse a fixed set of files and mostly look at the verdict.',
     ['src/Parser/tptp_parse.y', 'src/Parser/tptp_lex.go', 'src/Parser/psyntax.go'], [('grammar', 'src/Parser/tptp_parse.y'), ('lexer', 'src/Parser/tptp_lex.go')],
     ['verdict on equivalences between two ways to write a formula', 'formulas returned by the parser'],
     technique='property-based testing: generated formulas printed in random TPTP style and read back, against the generated formula', note=T + 'a TPTP writer written from the standard.')
prop('C13', 'Malformed input is rejected, never half-read',
     'A text that is not in the accepted language makes the prover stop with an error and without a verdict; it is never truncated, skipped over or silently repaired.',
     ['inputs', 'programs'], 'all texts obtained by breaking a well-formed problem', 'The tests hold a handful of ill-formed files.',
     ['src/Parser/tptp_lex.go', 'src/Parser/tptp_parse.y', 'src/Parser/psyntax.go', 'src/main.go'], [('error handling of lexer and parser', 'src/Parser')],
     ['exit code and status line'], technique='fuzzing: mutated problem texts vs an independent recogniser', note=T + 'a recogniser of the accepted fragment.')
prop('C14', 'Included files count as if their text were in place',
     'A problem split over included files, nested, selected by name, in the directory of the includer or relative to the problem, gets the verdict of the flat problem; a missing file is an error.',
     ['inputs', 'configurations'], 'all ways to split a problem over files, with and without selection', 'One existing test includes one file.',
     ['src/main.go', 'src/Parser/tptp_parse.y'], [('resolution of include directives', 'src/main.go')], VERDICT,
     technique='property-based testing: metamorphic relation between split and flat problem', note=T + 'the relation itself.')
prop('C15', 'Well-typed problems are accepted and ill-typed ones rejected',
     'A problem whose declarations give every symbol and variable a type fitting all its uses is accepted by the type checker; a problem with a term at the wrong type, the wrong number of arguments, or a non-Boolean formula is rejected with an error before any search.',
     ['inputs'], 'all monomorphic and rank-1 polymorphic TFF problems and all single type errors in them', 'The typing tests hold a few dozen fixed judgements.',
     ['src/Typing/rules.go', 'src/Typing/init.go', 'src/Typing/env-and-context.go', 'src/Engine/syntax-translation.go'], [('typing rules', 'src/Typing')],
     ['exit code and verdict'], technique='property-based testing: generated typed problems and single-fault mutants vs a reference type checker', note=T + 'a reference type checker written for this check.')
prop('C16', 'A positive verdict on a typed problem is always right',
     'Whenever the prover answers Theorem or Unsatisfiable for a typed problem, the axioms together with the negated conjecture have no many-sorted model; in particular a variable of one type is never instantiated by a term of another.',
     ['inputs', 'configurations', 'schedules'], 'all monomorphic and polymorphic TFF problems', 'The typed problems of the tests are all valid.',
     ['src/Unif/matching.go', 'src/Search/rules.go', 'src/AST/term.go', 'src/Typing/rules.go', 'src/Core/instanciation.go'], [('types in unification', 'src/Unif'), ('instantiation of types', 'src/Core/instanciation.go')],
     VERDICT, technique='property-based testing: generated typed problems vs explicit finite many-sorted countermodels', note=T + 'a many-sorted model evaluator.')
prop('C17', 'Term indexing retrieves exactly the unifiable atoms',
     'Looking an atom up in the index built from any set of atoms returns every stored atom unifiable with it, with a most general unifier, and nothing else; unification of two terms succeeds exactly when they are unifiable with occurs check.',
     ['inputs'], 'all sets of atoms and query atoms, metavariables shared or not', 'The code-tree tests hold about twenty fixed trees and queries.',
     UNIF, [('insertion', 'src/Unif/code-trees.go'), ('abstract machine', 'src/Unif/machine.go')], ['results of the exported index and unification functions'],
     technique='property-based testing: generated atom sets vs a reference unification (Robinson) in Go', note=T + 'the reference unifier.')
prop('C18', 'Merging and applying substitutions obeys the algebra',
     'Merging two substitutions fails exactly when they have no common refinement and otherwise yields the most general one; applying a substitution is applying each binding everywhere, and disagreement lists, equality and copies of substitutions behave as their bindings.',
     ['inputs'], 'all pairs of triangular or idempotent substitutions over shared metavariables', 'A few fixed merges are tested.',
     ['src/Unif/substitutions_type.go', 'src/Unif/substitution.go', 'src/Core/substitutions_search.go', 'src/Core/subst_and_form.go'], [('merge', 'src/Unif/substitutions_type.go')],
     ['results of the exported substitution functions'], technique='property-based testing: generated substitutions vs a reference solver of the union of their equations', note=T + 'the reference solver.')
prop('C19', 'Skolemisation preserves satisfiability and its symbols are fresh',
     'In every Skolemisation mode the Skolem term introduced for an existential formula on a branch uses a symbol that occurs nowhere in the problem and depends on what the mode says, so a satisfiable problem stays satisfiable, whatever names the user picked.',
     ['inputs', 'configurations', 'schedules'], 'all formulas, all modes, adversarial user names', 'Existing tests never compare symbols introduced with the ones of the problem.',
     ['src/Core/Sko/outer-skolemization.go', 'src/Core/Sko/inner-skolemization.go', 'src/Core/Sko/preinner-skolemization.go', 'src/Core/skolemisation.go'],
     [('fresh symbols', 'src/Core/Sko'), ('choice of the mode', 'src/Core/skolemisation.go')], ['terms produced by the exported Skolemisation function', 'verdicts'],
     technique='property-based testing: generated formulas Skolemised, against freshness, dependency and model-expansion oracles', note=T + 'the dependency rules of the three modes.')
prop('C20', 'Deduction modulo keeps the verdicts right',
     'Turning axioms into rewrite rules never makes a satisfiable problem refutable nor a theorem refuted, and the rewritten formula is equivalent to the original one under the axioms.',
     ['inputs', 'configurations'], 'all problems with rewritable axioms of every shape', 'The deduction-modulo tests are a few theorems.',
     ['src/Mods/dmt/dmt.go', 'src/Mods/dmt/rewrite.go', 'src/Mods/dmt/rewritten.go', 'src/Search/destructive.go'], [('registration of axioms', 'src/Mods/dmt/dmt.go'), ('rewriting', 'src/Mods/dmt/rewrite.go')],
     VERDICT, technique='property-based testing: generated theories of rewritable axioms vs countermodels and z3 certificates', note=T + 'a model evaluator and z3.')
prop('C21', 'The term ordering is a simplification ordering, constraints are judged rightly',
     'The lexicographic path ordering used by the equality reasoning is irreflexive, transitive, total on ground terms, monotone, has the subterm property and compares as its definition says. '
     'On terms with metavariables, an answer it gives holds for all ground instances, and a set of ordering constraints that has a ground solution is never refused.',
     ['inputs'], 'all pairs and triples of terms', 'About ten fixed comparisons are tested.', ['src/Mods/equality/bse/lpo.go'], [('comparison', 'src/Mods/equality/bse/lpo.go')],
     ['results of the exported comparison'], technique='property-based testing: generated terms vs order laws and a reference ordering', note=T + 'the reference definition.')
prop('C22', 'Ground equality reasoning is congruence closure',
     'On ground problems every equality engine finds a contradiction between equalities, disequalities and literals exactly when congruence closure does.',
     ['inputs', 'configurations'], 'all sets of ground literals with equality', 'The equality tests are fixed rigid problems.',
     ['src/Mods/equality/bse/equality.go', 'src/Mods/equality/bse/equality_rules_apply.go', 'src/Mods/equality/sateq/problem.go', 'src/Mods/equality/sateq/satbuilder.go'],
     [('superposition', 'src/Mods/equality/bse'), ('SAT encoding', 'src/Mods/equality/sateq')], VERDICT,
     technique='property-based testing: generated ground problems vs congruence closure', note=T + 'the reference congruence closure.')
prop('C23', 'Containers behave as their mathematical models',
     'Lists, sets, maps, pairs, triplets and options of the library behave, under every sequence of operations, as the sequences, sets and maps they stand for; copies are independent of their originals.',
     ['histories'], 'all operation sequences', 'Each operation is tested on a few values at most.', ['src/Lib', 'src/Glob/list.go', 'src/Glob/set.go', 'src/Glob/map.go', 'src/Glob/pair.go', 'src/Glob/triplet.go', 'src/Glob/int_functions.go'],
     [('balanced tree', 'src/Lib/sets.go'), ('growth of lists', 'src/Lib/list.go')], ['results of exported operations'],
     technique='property-based testing: stateful model-based sequences vs Go slices and maps', note=T + 'the models.')
prop('C24', 'Binders, free variables, substitution and renaming are capture-free',
     'Free variables and metavariables, instantiation of a quantifier, renaming of bound variables, equality up to the names of bound variables and replacement of subterms compute what their definitions say, without capture.',
     ['inputs'], 'all formulas and terms with nested and shadowing binders', 'A few fixed formulas are tested.',
     ['src/AST/formula.go', 'src/AST/term.go', 'src/AST/quantifiers.go', 'src/Core/instanciation.go'], [('renaming', 'src/AST'), ('instantiation', 'src/Core/instanciation.go')],
     ['results of exported functions'], technique='property-based testing: generated formulas vs a reference de Bruijn implementation and finite-model semantics', note=T + 'the reference implementation.')
prop('C25', 'Printed formulas read back as the same formula',
     'Every formula over the untyped syntax that the prover prints in the default TPTP form parses back to the same formula, when its names need no quotes; with the quoting option of the printer, whatever its names.',
     ['inputs'], 'all untyped formulas, over plain identifiers or, with the quoting option, over any names', 'Printing is tested on a few formulas.',
     ['src/AST/modular-printing.go', 'src/AST/formula.go'], [('printer', 'src/AST')], ['printed formulas'], technique='property-based testing: print and parse round trip', note=T + 'the parser of the check.')
prop('C26', 'An accepted problem never crashes or hangs up the prover',
     'A problem accepted by the parser and the type checker, under any supported option set, ends in a verdict or is still searching at the time limit: never in a panic, an internal anomaly, a data race abort, or a deadlock.',
     ['inputs', 'configurations', 'schedules'], 'all accepted problems, all option combinations', 'The tests run few option combinations on few problems.',
     SEARCH + ['src/Mods/gs3/proof.go', 'src/Mods/equality/sateq/problem.go'], [('anomalies', 'src/Glob/errors.go')], ['exit code, standard error'],
     technique='fuzzing: generated problems under random option sets, crash oracle', note=T + 'the exit code and the error output; known crash sites are listed by call site in known-findings.txt.')
prop('C27', 'A bounded search stops within its bound',
     'With a limit on the number of steps and iterative deepening disabled, the search of a first-order problem stops with a verdict, in every Skolemisation and flattening mode and under every schedule.',
     ['inputs', 'configurations', 'schedules'], 'all untyped problems, small limits', 'The tests use limits on a few problems only.', SEARCH,
     [('limit of destructive steps', 'src/Search/destructive.go')], VERDICT, technique='property-based testing: generated problems under small limits, termination within a generous time', note=T + 'a generous time limit.')
prop('C28', 'Output options only change the output',
     'Quiet, silent, logging, proof-file and printing options change what is written and where, not the verdict; the proof file holds the proof the standard output would have held, and logs never spill into proofs.',
     ['inputs', 'configurations'], 'all problems, all combinations of output options', 'The tests use none of these options.', ['src/main.go', 'src/options.go', 'src/Glob/errors.go', 'src/Search/search.go'],
     [('option handling', 'src/options.go')], ['standard output, proof file, log file'], technique='property-based testing: metamorphic relation between output options', note=T + 'the relation itself.')
prop('C29', 'The test runner reports exactly the problems that behave as annotated',
     'The integration-test script passes a problem exactly when the actual result, exit code and output match the annotations in the problem file, and it reports every other one.',
     ['inputs'], 'all annotated problem files and prover behaviours', 'The script is not tested.', ['devtools/run-test-suite.py'], [('comparison with annotations', 'devtools/run-test-suite.py')],
     ['exit code and report of the script'], technique='property-based testing: generated annotated files and stub provers vs a reference judge', note=T + 'the reference judge.')
prop('C30', 'Lambda-Pi proofs are accepted by Lambdapi',
     'Every proof exported in Lambda-Pi form is accepted by the Lambdapi proof checker.', ['inputs', 'configurations'], 'all theorems the prover proves', 'No test checks them.',
     ['src/Mods/lambdapi/proof.go'], [('printing in Lambda-Pi', 'src/Mods/lambdapi')], ['the text printed by the Lambda-Pi output option'],
     na='no Lambda-Pi or Dedukti checker is installed here, and writing a type checker for the lambda-Pi calculus modulo would test that checker rather than the prover')
