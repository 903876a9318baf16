#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Scanning delivers every token of the source exactly once, in order, and ends",
"Scanning a source text delivers exactly the tokens the text consists of - each once, in text order, with its text and kind, runs of line breaks delivered as one - and then reports the end, which is final. This holds for any text, whether scanned synchronously or concurrently with the reader, for any number of scans at once and however slowly a reader reads. A text that leaves the language is reported as an error after the tokens that precede the offence, never by hanging, looping, silently stopping or dropping the last token.",
["inputs","schedules","fault_sequences"],
"All source texts (valid, foreign characters, malformed UTF-8, open strings, no final newline), all interleavings of scanner and reader, readers that stall or walk away, several scans at once.",
"The tests print the tokens of one hand-written text without comparing them, under whatever schedule the runtime picks; they reach no slow reader, no second scan, no malformed text.",
["circuitcompiler/lexer.go","circuitcompiler/rune_stack.go"],
[("state machine goroutine that sends tokens over a channel and closes it","circuitcompiler/lexer.go Start, run, StartSync"),("pairing of next/rewind over the rune stack","circuitcompiler/lexer.go next, rewind, peek; rune_stack.go"),("reader side collapse of newline runs","circuitcompiler/lexer.go NextToken")],
[("tokens","channel between scanner and reader","circuitcompiler/lexer.go"),("start, position, rewind","what has been consumed of the text","circuitcompiler/lexer.go")],
["Lexer.NextToken","Lexer.ErrorHandler / Lexer.Err"])

p("C02","A program compiles to one constraint system, which computes what the text says",
"Compiling one program text always gives the same public inputs, the same wiring and the same constraints, no matter how the compiler's tasks are scheduled, in which order associative containers are walked, what was compiled before or is being compiled at the same time. For every input vector the compiled circuit produces the value the program text denotes over the field - functions, closures, recursion, loops, conditionals, arrays and algebraic or point-multiplication expressions alike - whichever constraint representation is used. Compiling a program whose loops and recursions end always finishes and leaves no task behind.",
["programs","inputs","schedules","histories"],
"All programs of the language, all inputs, all schedules of the lexer/parser tasks, all orders of map iteration, any number of compilations before or at the same time.",
"The tests compile a fixed list of programs and inputs, one at a time, under one schedule and never compare the result with the meaning of the text; map order and task schedule are the runtime's choice.",
["circuitcompiler/parser.go","circuitcompiler/Programm.go","circuitcompiler/circuit.go","circuitcompiler/factorHandling.go","circuitcompiler/gate.go","circuitcompiler/ER1CS.go"],
[("parser tasks connected by channels","circuitcompiler/parser.go Parse, parserTask"),("factor normal form and gate deduplication by hashes","circuitcompiler/factorHandling.go, Programm.go"),("execution of function bodies into gates","circuitcompiler/Programm.go, circuit.go"),("gates to constraints","circuitcompiler/Programm.go GatesToR1CS, GatesToSparseR1CS")],
[("computedFactors","gates already emitted, by hash of their value","circuitcompiler/Programm.go"),("globalFunctions","functions of the program","circuitcompiler/Programm.go")],
["Parse, Program.Execute, Program.GatesToR1CS, Program.GatesToSparseR1CS","CalculateWitness, CalculateSparseWitness"])

p("C03","A bad program or a failing import is refused to its own caller only",
"Given a text that is not a program of the language, or whose imports cannot be read, compilation reports that to the caller that asked for it, in bounded time (only a loop whose static condition never becomes false keeps its own caller waiting). The process and every other session go on undisturbed, no task stays behind, and the same compiler later accepts valid programs as before. It never silently accepts a part of the text: a program whose import was cut short, failed or changed on disk compiles either to the circuit of its complete text or not at all.",
["programs","fault_sequences","crash_points","schedules"],
"All malformed texts (mutations of valid programs), missing, unreadable, torn, cyclic or nested import files, crash before or after the import file became durable, any schedule, any sessions running beside.",
"The tests compile well-formed programs only; a failure in a task the compiler started cannot be observed by a test that samples one schedule, and no test makes storage fail.",
["circuitcompiler/parser.go","circuitcompiler/lexer.go","circuitcompiler/Programm.go"],
[("failure hand-over from parser tasks to the caller","circuitcompiler/parser.go Parse, parserTask"),("import splicing","circuitcompiler/parser.go"),("lexer error reporting","circuitcompiler/lexer.go Error")],
[("parser token channels","hand-over between parser tasks","circuitcompiler/parser.go")],
["Parse, Program.Execute: value or panic in the calling task","process survival, remaining tasks"])

p("C04","Sparse and dense polynomial arithmetic agree with the definition",
"Every operation on sparse polynomials and on the ordered map that holds them - build, insert, look up, remove, walk, clone, add, subtract, scale, multiply, divide with remainder, evaluate, interpolate, combine - yields what the textbook operation over the field yields on the same coefficients, and so does its dense counterpart. Results are canonical (no stored zero, coefficients reduced, keys in order), operations that return a result leave their operands as they were, and no operation hangs, leaves a task or keeps a lock. This holds for every operand including zero, constant and sparse high degree ones, for every history of operations, and when readers share an operand.",
["inputs","histories","schedules"],
"All histories of operations on all operands, with tasks that walk, read and write shared trees and share one field object, under all schedules.",
"The tests compare a few products, quotients and interpolations of random dense polynomials; no removal histories, no zero or constant operands, no concurrent walkers, no check that operands survive.",
["utils/avl.go","utils/sparsePolynomial.go","utils/polynomialField.go","utils/finiteField.go"],
[("AVL balance and locking","utils/avl.go"),("walkers that send nodes over channels","utils/avl.go ChannelNodes, allNodes"),("base polynomial caches","utils/sparsePolynomial.go, utils/polynomialField.go")],
[("root, RWMutex","the tree and its lock","utils/avl.go"),("bases, basesClassic","Lagrange base caches","utils/finiteField.go")],
["AvlTree methods","Fq and PolynomialField methods"])

p("C05","Sessions that share a process do not influence each other",
"Any number of compile, witness, setup, prove and verify sessions in one process - at the same time or one after another, with read-only artefacts such as constraint systems, keys, proofs and curve points shared between them - each obtain exactly the results they would obtain alone in a fresh process. No session changes a shared artefact, a package constant or another session's data, whatever it computes, however it fails, or whenever it is abandoned. Shared caches never make the process fail or change an answer.",
["schedules","histories","fault_sequences"],
"All mixes of sessions, all schedules, any prior history in the same process including failed and abandoned sessions.",
"Each test runs one session in a process of its own history and checks nothing about values shared with others; races on caches need a particular interleaving.",
["utils/finiteField.go","utils/sparsePolynomial.go","utils/polynomialField.go","utils/basicOperations","circuitcompiler/Programm.go","circuitcompiler/ER1CS.go","circuitcompiler/factorHandling.go","zkSNARK/wol19.go","pairing/constants.go"],
[("shared field object with caches","utils/finiteField.go Field"),("shared constants","circuitcompiler (bigOne, bigZero), pairing/constants.go"),("copy before change of inputs","circuitcompiler/ER1CS.go, zkSNARK/wol19.go")],
[("Field","process-wide field with caches","utils"),("bigOne","process-wide constant","circuitcompiler"),("curveGen, twistGen","process-wide group generators","pairing/curve.go, twist.go")],
["results of every session against a fresh process","snapshots of shared artefacts before and after"])

p("C06","Group elements: reading never changes them, aliasing never changes results",
"An operation of the elliptic-curve groups and of the target group gives the same element whether or not its destination is also an operand, and equals the group law (repeated addition, inverses, identity included). Operands other than the destination, the generators and every element that is only read - printed, serialised, used in a pairing, compared - keep their value, so elements may be shared freely by tasks that only read them. The pairing of two elements depends only on their values, not on their internal representation or history.",
["inputs","histories","schedules"],
"All histories of operations with all aliasing patterns (destination equal to one or both operands, equal operands, inverse operands, identity, scalars 0, order, beyond), several tasks sharing elements, all schedules.",
"The tests use fresh destinations and a handful of random scalars, one task at a time; aliasing patterns, identities and concurrent readers are not reached.",
["pairing/bn256.go","pairing/curve.go","pairing/twist.go","pairing/gfp2.go","pairing/gfp6.go","pairing/gfp12.go","pairing/optate.go","pairing/constants.go"],
[("Jacobian add/double/mul","pairing/curve.go, twist.go"),("conversion to affine form on output","MakeAffine in pairing/curve.go, twist.go"),("Miller loop on affine copies","pairing/optate.go")],
[("x,y,z,t","projective coordinates with cached z^2","pairing/curve.go, twist.go")],
["G1, G2, GT methods, Pair, PairingCheck, Marshal"])

p("C07","Serialised group elements survive the wire or are refused",
"Serialising a group element and reading it back gives the same element, byte for byte stable, for every element including the identity, whatever computation produced it. Bytes that are truncated, lengthened, corrupted, reordered or not canonical are refused, or describe a valid element whose serialisation is those very bytes; nothing outside the two source groups and no unreduced coordinate is ever accepted. A refused read leaves the receiving element as it was and nothing fails but that call.",
["inputs","histories","fault_sequences"],
"All elements and computation histories, all corruptions, truncations and mixes of messages on the wire, receivers with any previous value.",
"The tests round-trip one random element per group; no identity, no corrupt bytes, no receiver with a previous value, no second serialisation.",
["pairing/bn256.go","pairing/curve.go","pairing/twist.go","pairing/gfp12.go"],
[("Marshal/Unmarshal with on-curve and order check","pairing/bn256.go, curve.go IsOnCurve, twist.go IsOnCurve")],
[],["Marshal, Unmarshal of G1, G2, GT; proof elements on the network"])

p("C08","Randomness is drawn in full or the operation fails",
"Random field elements, scalars, group elements and the trusted setup's secrets depend on exactly the bytes the entropy source delivers: short reads are completed, distinct secrets use distinct bytes, and equal entropy gives equal results under any schedule. If the source fails at any point, the operation reports failure and hands out nothing - never zero, a constant, a partly filled secret or a reused one. Every secret handed out is a uniformly usable non-zero field element below the field order.",
["fault_sequences","inputs","schedules"],
"Failure, end-of-data and short reads of the entropy source at every read of every operation, any number of consumers, any schedule.",
"The tests use the operating system's generator, which never fails or falls short, and cannot see whether a failure would have been noticed.",
["utils/finiteField.go","pairing/bn256.go","zkSNARK/wol19.go"],
[("error checked reads of the entropy source","utils/finiteField.go Rand; pairing/bn256.go RandomG1, RandomG2; zkSNARK/wol19.go GenerateTrustedSetup")],
[("Toxic","secrets of a setup","zkSNARK/wol19.go")],
["Fq.Rand, RandomG1, RandomG2, GenerateTrustedSetup(Sparse)"])

p("C09","A computed witness satisfies every constraint, or an error is returned",
"For every compiled program and every input vector, the witness computed satisfies each constraint of the system it was computed for, starts with the constant one followed by the given inputs unchanged, and is the same in the dense and the sparse representation. The polynomial form built from it vanishes on the whole evaluation domain exactly when the witness satisfies the constraints. If the inputs satisfy no witness, or the input vector does not fit the program, an error is returned to the caller and no wrong, partial or unreduced witness; nothing depends on task schedule or on the order associative containers are walked.",
["programs","inputs","schedules"],
"All programs, all input vectors (satisfying or not, too short, too long, unreduced), all schedules and map orders.",
"The tests check listed programs with listed inputs, mostly satisfying ones, in one representation at a time and one map order.",
["circuitcompiler/ER1CS.go","circuitcompiler/Programm.go","utils/sparsePolynomial.go","utils/polynomialField.go","zkSNARK/wol19.go"],
[("constraint by constraint solving with inverse for unknown","circuitcompiler/ER1CS.go CalculateWitness, CalculateSparseWitness"),("Lagrange interpolation of columns","circuitcompiler/ER1CS.go ER1CSToEAP, ER1CSToEAPSparse")],
[],["CalculateWitness, CalculateSparseWitness, CombinePolynomials2, CombineSparsePolynomials"])

p("C10","Honest proofs verify, on every path and after every recoverable fault",
"For every program and every satisfying input, setup, witness, polynomial, proof and verification - dense or sparse, run by different parties that exchange keys and proofs over a network - end in acceptance within a bounded number of steps once faults stop, whatever messages were lost, repeated, delayed or reordered and whichever party crashed and restarted from its durable data. Proving and verifying never change the key, the witness, the proof or the public inputs, so that the same proof verifies again anywhere and any number of times, and equal inputs give equal proofs. No party panics or hangs on honest input.",
["programs","inputs","schedules","fault_sequences","crash_points"],
"All programs and satisfying inputs, both representations, all network faults and crash points, all schedules, any number of provers and verifiers sharing a key.",
"The tests run a few programs straight through in one task; no fault, no restart, no shared key, no repeated verification.",
["zkSNARK/wol19.go","circuitcompiler/ER1CS.go","utils/sparsePolynomial.go","utils/polynomialField.go","pairing/bn256.go"],
[("setup, proving and verification equations","zkSNARK/wol19.go"),("proof elements serialised","pairing/bn256.go Marshal, Unmarshal")],
[("Pk, Toxic","keys and secrets of a setup","zkSNARK/wol19.go"),("Proof","PiA, PiB, PiC, PiF","zkSNARK/wol19.go")],
["VerifyProof, GenerateProofs, GenerateProof_Sparse, GenerateTrustedSetup(Sparse)"])

p("C11","A proof convinces only for its own statement, key and unmodified content",
"Verification rejects a proof presented with any public input other than those it was made for, with the key of another setup or another program, with any element replaced, dropped, swapped, negated, shifted or taken from another session, and any message damaged in transit that is still readable. It rejects by answering no: a bad proof never makes the verifier panic, hang, change its key or stop accepting good proofs, and no proof can be produced for inputs that do not satisfy the program. The answer depends only on key, proof and public inputs, not on schedule or on what was verified before.",
["inputs","fault_sequences","histories","schedules"],
"All replacements and corruptions of proof elements and public inputs, mixes between sessions, keys and programs, wrong witnesses, all histories of good and bad verifications on one key, all schedules.",
"The tests assert acceptance of honest proofs and one or two wrong public inputs; they reach no corrupted element, no mixed session, no history of bad then good proofs.",
["zkSNARK/wol19.go","pairing/bn256.go","pairing/optate.go"],
[("three pairing equations","zkSNARK/wol19.go VerifyProof"),("on-curve and canonical form checks of received elements","pairing/bn256.go Unmarshal"),("remainder check in the prover","zkSNARK/wol19.go GenerateProofs")],
[],["VerifyProof, GenerateProofs, GenerateProof_Sparse"])

p("P01","Field and extension-field axioms of the arithmetic kernels",
"Addition, multiplication, inversion and exponentiation of the prime field and of the extension fields of the curve satisfy the field axioms and agree with integer arithmetic modulo the prime.",
["inputs"],"All operands.",
"Tests sample a few operands.",
["utils/finiteField.go","pairing/gfp2.go","pairing/gfp6.go","pairing/gfp12.go"],[("modular arithmetic","utils/finiteField.go, pairing/gfp*.go")])
p("P02","Bilinearity and non-degeneracy of the pairing for all elements",
"The pairing is bilinear and non-degenerate on the two source groups.",
["inputs"],"All pairs of elements and all scalars.",
"Tests sample a few scalars.",
["pairing/optate.go"],[("Miller loop and final exponentiation","pairing/optate.go")])
p("P03","Computational soundness against arbitrary provers",
"No efficient prover that does not know a satisfying assignment can produce an accepted proof.",
["inputs"],"All efficient adversaries.",
"A claim about all algorithms; no execution settles it.",
["zkSNARK/wol19.go"],[("the published proof system","zkSNARK/wol19.go, algebraicProgramSNARK.pdf")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
