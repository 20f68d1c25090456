import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","At-most-one encodings admit exactly the assignments with at most one true",
"For every sequence of input literals, every at-most-one encoding produces clauses whose solutions, projected to the inputs, are exactly the assignments in which at most one input is true. Auxiliary variables are fresh, the reported variable and clause counts match what was emitted, and inputs may be added in any grouping before encoding.",
["inputs","configurations"],"all numbers of inputs, polarities and groupings of additions, all encoding types and group-size parameters",
"Tests check a handful of sizes of one polarity for a sample of assignments; boundary sizes around group splits are not all covered.",
["src/encodings/am1/mod.rs","src/encodings/am1/pairwise.rs","src/encodings/am1/ladder.rs","src/encodings/am1/bitwise.rs","src/encodings/am1/commander.rs","src/encodings/am1/bimander.rs","src/encodings/am1/twoproduct.rs"],
[("encoders","src/encodings/am1/*.rs encode"),("group splitting","commander.rs / bimander.rs")],
["clauses collected by a CollectClauses implementation","n_vars/n_clauses statistics"])

p("P02","Cardinality encodings enforce exactly the requested bounds at any point",
"After any interleaving of adding input literals, reserving, encoding bound ranges (fresh or incremental, upper, lower or both) and asking for bounds, the assumptions returned for a bound inside an encoded range admit exactly the input assignments whose number of true literals satisfies that bound, and the clauses alone exclude no input assignment. A bound that was not encoded is refused with an error instead of a wrong answer. Auxiliary variables never clash with variables used elsewhere.",
["histories","inputs","configurations"],"all operation sequences (extend, reserve, encode, incremental encode, enforce), all bounds and ranges, all input sizes, for each cardinality encoding and simulator",
"The existing tests run a few fixed histories with one or two ranges; the interplay of extension with partially encoded trees and different ranges is a history property.",
["src/encodings/card/mod.rs","src/encodings/card/totalizer/mod.rs","src/encodings/card/totalizer/referenced.rs","src/encodings/card/simulators.rs","src/encodings/totdb/mod.rs","src/encodings/nodedb.rs"],
[("node database with per-node encoded ranges","src/encodings/totdb"),("range arithmetic","src/encodings/card/mod.rs prepare_*_range"),("simulators","src/encodings/card/simulators.rs")],
["collected clauses","enforce_ub/enforce_lb/enforce_eq results"],None,
[("encoded ranges","which output literals already have clauses","src/encodings/totdb Unweighted/General nodes")])

p("P03","Pseudo-Boolean encodings enforce exactly the requested weighted bounds",
"After any interleaving of adding weighted input literals, reserving, encoding bound ranges and asking for bounds, the assumptions returned for an encoded bound admit exactly the input assignments whose weighted sum satisfies it, and the clauses alone exclude no input assignment. Adding the same literal more than once accumulates its weight. A bound that was not encoded is refused with an error instead of a wrong answer.",
["histories","inputs","configurations"],"all operation sequences, weights, bounds, ranges and literal repetitions for each pseudo-Boolean encoding and simulator",
"Tests use a few weight vectors; arithmetic over gaps between weights, repetitions and incremental growth needs exhaustive enumeration.",
["src/encodings/pb/mod.rs","src/encodings/pb/gte/mod.rs","src/encodings/pb/dpw/mod.rs","src/encodings/pb/adder.rs","src/encodings/pb/simulators.rs","src/encodings/totdb/mod.rs"],
[("generalized totalizer","src/encodings/pb/gte/mod.rs"),("binary adder and comparator","src/encodings/pb/adder.rs"),("dynamic polynomial watchdog","src/encodings/pb/dpw/mod.rs")],
["collected clauses","enforce_ub/enforce_lb/enforce_eq results"])

p("P04","Watchdog precision: coarse bounds are sound and full precision is exact",
"For every weight vector and every sequence of precision changes, range limits and bound queries, enforcing a coarsened bound with the dynamic polynomial watchdog is exact with respect to the weights rounded to the current precision, and at maximum precision it is exact for the original weights. The suggested next bounds (coarse bound, next higher, next lower value) never skip a reachable sum that respects the requested bound.",
["histories","inputs"],"all weight vectors, precision schedules and bounds",
"Tests only use two or three weight vectors.",
["src/encodings/pb/dpw/mod.rs","src/encodings/pb/mod.rs","src/encodings/pb/gte/mod.rs"],
[("precision handling","src/encodings/pb/dpw/mod.rs set_precision/next_precision"),("coarse bound","BoundUpper::coarse_ub")],
["collected clauses","enforce_ub results","coarse_ub/next_higher/next_lower"])

p("P05","One-shot constraint encodings are equivalent to the constraint",
"Encoding a clause, cardinality or pseudo-Boolean constraint into clauses, with any available encoder or the default choice, yields clauses whose solutions projected to the constraint's literals are exactly the constraint's solutions. This includes equality, trivially true, trivially false, negative-coefficient, negative-bound, repeated-literal and opposite-literal constraints.",
["inputs","configurations"],"all constraints over a few literals and coefficients, all comparison operators and bounds, all encoders",
"Tests fix a handful of constraints; degenerate bounds and duplicate or complementary literals are not covered.",
["src/encodings/card/mod.rs","src/encodings/pb/mod.rs","src/types/constraints.rs","src/encodings/pb/simulators.rs","src/encodings/card/simulators.rs"],
[("constraint normalisation","src/types/constraints.rs"),("constraint encoding defaults","BoundUpper::encode_ub_constr etc."),("degenerate case dispatch","encode_cardinality_constraint / encode_pb_constraint")],
["collected clauses"])

p("P06","Assignments can be strictly extended over an encoding's auxiliary variables",
"For every total assignment of the inputs of an encoded totalizer or generalized totalizer, the strict extension over the auxiliary variables satisfies every clause of the encoding and sets each output literal exactly to whether the bound it stands for is reached.",
["inputs","histories"],"all input assignments, sizes, weights, encoded ranges",
"Only a few concrete assignments are tested.",
["src/encodings/totdb/mod.rs","src/encodings/card/totalizer/mod.rs","src/encodings/pb/gte/mod.rs"],
[("strict extension","strictly_extend_assignment")],["returned literals versus collected clauses"])

p("P07","Certified encodings emit valid proofs and the same clauses",
"Whenever an encoding is built with proof logging, every logged proof step is valid under VeriPB rules given the input constraints, and every clause handed to the caller is implied by the proof constraint whose identifier it is paired with. The certified encoding constrains the inputs exactly like the uncertified one.",
["inputs","histories","configurations"],"all sizes, weights, bounds, ranges, operation sequences of the certified encoders",
"The tests call an external checker that is usually absent, on a few fixed inputs.",
["src/encodings/cert.rs","src/encodings/card/cert.rs","src/encodings/pb/cert.rs","src/encodings/totdb/cert.rs","src/encodings/card/totalizer/mod.rs","src/encodings/pb/gte/mod.rs","src/encodings/atomics.rs"],
[("proof derivation","src/encodings/totdb/cert.rs"),("constraint certification","src/encodings/card/cert.rs, src/encodings/pb/cert.rs")],
["proof text","pairs of clause and proof identifier"])

p("P08","Atomic reified clause building blocks have exactly the documented semantics",
"Each basic encoder for implications and equivalences between literals, clauses, cubes, and cardinality or pseudo-Boolean constraints yields clauses with exactly the solutions of the logical statement it names, for every combination of literals including repeated and complementary ones.",
["inputs"],"all literal choices over a few variables and all list lengths",
"Tests use a single instance with distinct literals per block.",
["src/encodings/atomics.rs"],[("atomic encoders","src/encodings/atomics.rs")],["returned clauses"])

p("P09","Constraint forms, conversions and evaluation preserve meaning",
"Every conversion, negation, normalisation and change of form of a clause, cardinality or pseudo-Boolean constraint preserves its set of satisfying assignments, and classification predicates (tautology, unsatisfiable, assignment, clause, cardinality) are exactly right. Evaluating a constraint under a partial assignment yields true (false) only if every completion satisfies (falsifies) it, and is decided for total assignments.",
["inputs"],"all constraints over a few literals with small positive, zero and negative coefficients and bounds, and all partial assignments",
"Tests sample a few constraints; sign and boundary arithmetic needs all combinations.",
["src/types/constraints.rs"],[("constructors","CardConstraint/PbConstraint new_*"),("conversions","into_* and as_*"),("evaluation","evaluate"),("predicates","is_tautology/is_unsat/is_clause/is_card/…")],
["public constructors, accessors, conversions"])

p("P10","Literal and variable numbering conversions are exact inverses and ordered",
"For every variable index and polarity, converting between literals, variables, signed integers, machine integers and text yields the same literal back, negation is an involution which flips only the polarity, and out-of-range values are rejected with an error instead of wrapping. Ordering, index arithmetic and iteration over variables agree with the integer numbering.",
["inputs"],"all variable indices including both ends of the range, both polarities, all integer inputs near the boundaries",
"Tests check single values; the off-by-one boundaries (smallest, largest variable and integer) are not checked for each conversion.",
["src/types/mod.rs"],[("Lit/Var representation","src/types/mod.rs"),("IPASIR conversions","Lit::from_ipasir/to_ipasir"),("iteration","RsatVec / var ranges")],
["public conversions and formatting"])

p("P11","Assignments and clauses behave as maps and sets of literals",
"Sequences of operations on assignments (assign, push, replace, truncate, extend, query, iterate, parse from value lines) behave as the corresponding finite map from variables to values, and operations on clauses (normalise, sanitize, add, remove, evaluate, union) behave as on sets of literals. Evaluating a clause under a partial assignment reports satisfied, unit, falsified or undetermined exactly.",
["histories","inputs"],"all operation sequences over a few variables and all small clauses and value lines",
"Unit tests exercise single calls with a single value.",
["src/types/mod.rs","src/types/constraints.rs"],[("assignment storage","src/types/mod.rs Assignment"),("clause operations","src/types/constraints.rs Clause")],
["public queries"])

p("P12","Satisfiability instances keep their solutions under every transformation",
"Every sequence of building, extending, normalising, sanitising, re-indexing, clause or pseudo-Boolean conversion operations on a satisfiability instance preserves the set of solutions over the original variables (up to the reported renaming). Variables introduced never clash with variables in the instance, and reported sizes match the contents.",
["histories","inputs","configurations"],"all small instances mixing clauses, cardinality and pseudo-Boolean constraints, and all short sequences of transformations",
"Tests transform a few clauses once.",
["src/instances/sat.rs","src/instances/mod.rs"],[("transformations","src/instances/sat.rs"),("variable manager handling","src/instances/mod.rs")],
["constraint iterators","conversion results"])

p("P13","Variable managers hand out only fresh variables and consistent renamings",
"In every history of requesting, reserving, combining, marking and forgetting variables, a newly handed out variable is never one already handed out or marked as used, and the reported counts and maxima match the history. Object-keyed and re-indexing managers map equal keys to equal variables and different keys to different variables, and the reverse lookup is the exact inverse.",
["histories"],"all short sequences of manager operations over a few variables and objects",
"Tests run one linear sequence per manager.",
["src/instances/mod.rs"],[("managers","src/instances/mod.rs BasicVarManager, ObjectVarManager, ReindexingVarManager, RandReindVarManager")],
["ManageVars / ReindexVars queries"])

p("P14","Objectives keep the cost of every assignment under all operations",
"For every sequence of operations building or transforming an objective (adding, increasing and replacing soft literals and clauses, changing offsets, weighting, normalising, re-indexing, converting to soft literals or clauses, combining), the cost of every assignment equals the sum that the sequence of operations describes. Conversions between weighted, unweighted, literal-only and clause forms and reported totals keep that cost.",
["histories","inputs"],"all short operation sequences over a few literals, clauses and positive or negative weights, and all assignments",
"Tests check a handful of sequences.",
["src/instances/opt.rs"],[("objective representation","src/instances/opt.rs Objective/IntObj"),("conversion","into_soft_lits/into_unweighted/…")],
["evaluate","soft literal/clause iterators","offset"])

p("P15","Optimization instances keep feasibility and cost under every transformation",
"Every conversion of a single- or multi-objective instance (decomposition into hard and soft parts, conversion to clauses and soft literals, normalising, re-indexing, extension, conversion between instance kinds) preserves for every assignment of the original variables whether it is feasible and the cost of its cheapest extension in each objective. Introduced variables are fresh with respect to constraints and objectives.",
["histories","inputs","configurations"],"all small instances with one or two objectives and all transformations",
"Tests convert single fixed instances.",
["src/instances/opt.rs","src/instances/multiopt.rs","src/instances/sat.rs"],[("decomposition","into_hard_cls_soft_lits / into_hard_cls_soft_cls / into_pbs"),("relaxation variables","src/instances/opt.rs")],
["hard clauses and soft literals returned"])

p("P16","DIMACS files written by the library read back as the same instance",
"Writing any satisfiability, single-objective or multi-objective instance in DIMACS CNF, WCNF or MCNF format and reading the file back yields an instance with the same constraints and, for each assignment, the same objective values up to the constant offset, which the formats hold only as a comment. This holds for both line-based writing and whole-instance writing, and for both old and new weighted formats.",
["inputs"],"all small clause sets, soft clauses, weights, objective counts including empty ones",
"Round-trip tests use one or two instances.",
["src/instances/fio/dimacs.rs","src/instances/sat.rs","src/instances/opt.rs","src/instances/multiopt.rs"],[("writers","src/instances/fio/dimacs.rs write_*"),("parsers","src/instances/fio/dimacs.rs parse_*")],
["bytes written","instances read"])

p("P17","OPB files read and write with exactly the constraint's meaning",
"Reading an OPB file yields constraints and objectives with exactly the meaning of the text for every relational operator, sign, coefficient, negated literal and objective direction, and writing any instance to OPB and reading it back preserves solutions and, up to the constant offset that the format only holds as a comment, objective values. This holds for every supported option of first variable index and negated-literal avoidance.",
["inputs","configurations"],"all small OPB lines over all operators and coefficients, all small instances, all writer options",
"Round-trip tests use fixed instances; operators and options are barely combined.",
["src/instances/fio/opb.rs"],[("parser","src/instances/fio/opb.rs"),("writer","write_*")],
["parsed instances","bytes written"])

p("P18","Parsers never crash and do not depend on insignificant formatting",
"Every byte sequence given to a parser of DIMACS, OPB or solver output is either parsed or rejected with an error; it never panics, hangs or exhausts resources. Insignificant formatting (comment lines, extra blanks, line endings, final newline) does not change the result, and malformed files are rejected rather than silently truncated.",
["inputs"],"all short token sequences over the format's alphabet, and all placements of formatting variations in small valid files",
"Tests parse a dozen well-formed strings.",
["src/instances/fio/dimacs.rs","src/instances/fio/opb.rs","src/instances/fio/mod.rs","src/types/mod.rs"],[("grammar","src/instances/fio/*.rs")],
["parser results"])

p("P19","Solver output is interpreted exactly",
"Reading the output of a solver yields satisfiable with exactly the reported assignment, unsatisfiable, or unknown as the status and value lines say, independent of the order and number of value lines and of comments around them. Missing or malformed status or value lines and contradictory values give an error.",
["inputs"],"all short sequences of comment, status and value lines in DIMACS, pseudo-Boolean and MaxSAT style",
"A few fixed logs are tested.",
["src/instances/fio/mod.rs","src/types/mod.rs","src/solvers/external.rs"],[("output parser","src/instances/fio/mod.rs parse_sat_solver_output"),("value line parser","Assignment::extend_from_vline")],
["parsed result"])

p("P20","Solver answers, models and cores are correct in every incremental history",
"In every history of adding clauses, solving, and solving under assumptions with any of the bundled SAT solvers, the verdict equals the truth for the clauses added so far, a returned model satisfies all clauses and assumptions, and a returned core is a set of negated assumptions which is entailed by the clauses. Reported variable and clause counts follow the history.",
["histories","inputs","configurations"],"all short incremental histories over a few variables for each solver interface",
"Tests solve a few fixed instances.",
["minisat/src/core.rs","minisat/src/simp.rs","glucose/src/core.rs","glucose/src/simp.rs","cadical/src/lib.rs","kissat/src/lib.rs","batsat/src/lib.rs","src/solvers/mod.rs"],[("literal translation","*/src: lit conversions"),("state machine","InternalSolverState")],
["solve results","models","cores","statistics"])

p("P21","Solver wrappers refuse queries in the wrong state and track statistics",
"Asking a solver for a model, core or value in a state where none is available gives a state error and never a stale or made-up answer, and state changes (adding clauses, new solve calls) are reflected at once. The statistics on solves, terminated and conflicting calls, clause counts and maximum variable equal those of the actual history.",
["histories","configurations"],"all short call sequences for every solver wrapper",
"Tests follow the intended order of calls.",
["src/solvers/mod.rs","minisat/src/core.rs","glucose/src/core.rs","cadical/src/lib.rs","kissat/src/lib.rs","batsat/src/lib.rs"],[("state machine","InternalSolverState in each solver crate"),("statistics","SolverStats")],
["results and errors of calls","stats()"])

p("P22","Simulated incremental solving and external solvers equal the real thing",
"A solver made incremental by simulation and a solver run as an external process give, for every history of clauses, assumptions and solve calls, the same verdicts, valid models and valid cores as an in-process solver on the same clauses. A failing or misbehaving external process leads to an error, never to a wrong verdict.",
["histories","fault_sequences","configurations"],"all short histories, all input/output channel combinations and all misbehaviours of the external process from a list",
"Tests run a couple of instances on one installed solver.",
["src/solvers/simulators.rs","src/solvers/external.rs"],[("clause replay","src/solvers/simulators.rs"),("process handling","src/solvers/external.rs")],
["solve results","models","cores"])

p("P23","Unit propagation interfaces report exactly the entailed assignment or a conflict",
"For every clause set and sequence of assumptions, propagation through a solver interface reports a conflict only if unit propagation under the assumptions leads to one, reports only literals entailed by clauses and assumptions, reports at least everything that unit propagation derives, and leaves the solver able to continue correctly afterwards.",
["inputs","histories"],"all small clause sets, assumption sequences and interleavings with solving",
"Tests use one clause chain.",
["minisat/src/core.rs","glucose/src/core.rs","cadical/src/lib.rs","batsat/src/lib.rs"],[("propagate","Propagate::propagate")],
["PropagateResult"])

p("P24","MaxSAT search returns an optimum or proves infeasibility",
"For every MaxSAT instance, the solution-improving search returns unsatisfiable exactly if the hard constraints are, and otherwise a feasible assignment whose cost equals the true optimum, independent of the encoding, the solver and the entry point.",
["inputs","configurations"],"all small weighted and unweighted instances",
"Tests solve two fixed files.",
["src/algs/maxsat.rs","src/instances/opt.rs","src/encodings/pb/mod.rs"],[("search loop","src/algs/maxsat.rs")],
["returned assignment and cost"])

p("P25","Termination, limits, learning callbacks, phases and flips are sound",
"Under every schedule of termination requests, interrupts and resource limits a solve call ends with interrupted or with the correct verdict and the solver stays usable with correct later answers. Every clause reported by a learning callback is entailed by the clauses added, phase hints and variable freezing never change a verdict, and a reported literal flip leaves a valid model. A limit stops a call once it is reached and not before, and phases that satisfy all clauses are the model found.",
["schedules","histories","configurations"],"all points at which termination is requested, all limits up to a bound, over small instances",
"Tests use one callback and never vary the point of interruption.",
["cadical/src/lib.rs","minisat/src/core.rs","glucose/src/core.rs","src/solvers/mod.rs","batsat/src/lib.rs","kissat/src/lib.rs"],[("callbacks","cadical/src/lib.rs, cadical/src/ffi"),("limits","LimitConflicts etc.")],
["solve results","learned clauses"])

p("P26","The proof writer emits well-formed proofs with exact constraint numbering",
"In every sequence of proof operations, the emitted text is a syntactically valid VeriPB proof with the semantics requested, and the identifier returned for a derived constraint is the identifier the checker assigns to it. Operation sequences (addition, multiplication, division, saturation, weakening) written as cutting-planes steps evaluate to what the expression denotes.",
["histories"],"all short sequences of proof rules and all small cutting-planes expressions",
"Tests compare a few snapshots of text.",
["pigeons/src/lib.rs","pigeons/src/ops.rs","pigeons/src/types.rs"],[("identifier counter","pigeons/src/lib.rs next_id"),("operation expressions","pigeons operations")],
["proof text and returned identifiers"])

p("P27","Proof tracing of the solver reports exactly the derivation",
"For every clause set and incremental history, the events delivered to a proof tracer form a consistent log: every original clause is reported as added, every derived clause is entailed by the clauses before it and follows by propagation from the reported antecedents, deleted clauses existed before, and the reported conclusion matches the verdict. No event is lost or invented when tracers are connected and disconnected. A proof file requested from the solver is in the format and variant asked for (DRAT, LRAT, FRAT, VeriPB, IDRUP, LIDRUP) and verifies the verdicts; a file that cannot be written is an error.",
["histories","inputs"],"all small clause sets and short incremental histories",
"Tests trace a few instances and check a count.",
["cadical/src/prooftracer.rs","cadical/src/lib.rs"],[("tracer trampoline","cadical/src/prooftracer.rs")],
["TraceProof callbacks"])

p("P28","Command line tools preserve the meaning of what they convert",
"Each conversion, checking, shuffling, scalarisation, propagation and enumeration tool applied to any valid input file yields output that has the same solutions and costs as the input (or the set of solutions, propagated literals, or verdict that it is supposed to report), under all its options. Erroneous input leads to an error exit and not to wrong output.",
["inputs","configurations"],"all small files of each format and all tool options",
"The tools have practically no tests.",
["tools/src/bin","tools/src"],[("conversion tools","tools/src/bin/*.rs")],
["stdout and exit code"])

p("P29","The C interface behaves exactly like the Rust interface",
"Every sequence of C calls on an encoding (create, add, reserve, encode, enforce, drop) yields the same clauses, assumptions and return codes as the corresponding Rust calls, literals cross the interface in the signed integer convention, and errors are reported by return codes and never by unwinding or memory errors.",
["histories","inputs"],"all short call sequences per C encoding type",
"The C tests run one sequence per encoding.",
["capi/src/encodings/mod.rs","capi/src/encodings/am1.rs","capi/src/encodings/card.rs","capi/src/encodings/pb.rs","capi/src/encodings/dpw.rs","capi/src/lib.rs"],[("FFI wrappers","capi/src/encodings/*.rs")],
["clauses passed to callbacks","return codes"])

p("P30","Clause collections count, filter and transform clauses faithfully",
"Every sequence of operations on a clause collection (add in all forms, extend, normalise, sanitise, shuffle, join, iterate, reduce) keeps exactly the clauses that the sequence describes, up to logical equivalence where the operation says so, and the constructors for implications and units add clauses with the meaning of their names.",
["histories","inputs"],"all short sequences of operations over small clauses",
"Tests add one clause of each kind.",
["src/instances/sat.rs","src/encodings/mod.rs"],[("Cnf","src/instances/sat.rs Cnf"),("CollectClauses","src/encodings/mod.rs")],
["iterators and lengths"])

p("P31","Problem encoders model exactly the problem they read",
"For each problem generator and reader of the tool collection (assignment, knapsack, facility location and similar), the instance produced has as solutions exactly the feasible choices of the problem and as objective values exactly the problem's values, for every input in every supported file format.",
["inputs","configurations"],"all small problem inputs",
"Tests encode one sample file.",
["tools/src/encodings"],[("problem encoders","tools/src/encodings/*")],
["encoded instance"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
