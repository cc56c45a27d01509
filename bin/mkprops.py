import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
     "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}})
T="CPPQEDutils/Trajectory.h"
p("C01","A run samples the trajectory exactly on the requested schedule",
 "Running a trajectory to an end time, for a number of sampling intervals, or in every-n-steps mode, emits one output line for the initial point of a fresh run, one for every scheduled sampling point in order and one for the end point, and nothing else; the last line is at exactly the requested end time and no scheduled point is passed, repeated or skipped. If asked for, the returned record contains exactly the emitted points (time, last step, values); a zero end time emits a single line, a run whose end time is already reached emits nothing, and a run without a sampling interval is refused before anything is written. If requested, a fresh run is introduced by the command line it was given, the time it goes to and its sampling period, a continued one by where it continues from and goes to.",
 ["inputs","configurations","histories"],"all lengths, sampling intervals (commensurate or not), step-size sequences of the stepper, streaming/returning switches, fresh and continued runs",
 "No stable test calls the run loop with anything but one fixed set-up and none checks the emitted lines; the combinations of modes, remainders and step sequences are unbounded.",
 [T],[("run loop",T+": trajectory::run"),("mode selection",T+": run(TRAJ&&, Pars)")])
p("C02","State files: saved on schedule, appended, and a continued run starts from them",
 "A run writes the trajectory state to its state file at the configured multiple of output points (with or without the initial one) and always for the final point, exactly once per point. A later run with the same output name continues from the last saved state: it appends to both files, does not repeat the header or the initial point, and does nothing if the end is already reached; an initial-state file provides the starting state of a fresh run. A state belonging to a different kind of trajectory is refused before any output is changed, and a bare array can be loaded as initial state leaving the clock at zero.",
 ["histories","configurations"],"all sequences of runs over the same files with varying lengths, sampling and saving frequencies, and initial files",
 "The stable tests never write or read a state file; multi-run histories are unbounded.",
 [T,"CPPQEDutils/Trajectory.cc","CPPQEDutils/Archive.h"],[("state reading/writing",T+": readViaSStream, writeViaSStream, ReadState, WriteState"),("state files","CPPQEDutils/Trajectory.cc: openStateFileReading/Writing")])
p("C03","Interrupting and resuming a simulation does not change its results",
 "For every kind of trajectory (classical ODE, Master equation, quantum-jump, ensemble), a simulation that is run to an intermediate sampling point, saved, and resumed in a new process image produces bit-for-bit the same subsequent outputs, jump record and final state as the same simulation run without interruption. This includes the random-number stream, the adaptive step size and the step statistics. Every random engine of the library, saved at any point and loaded into another of its kind, makes that one continue with the same sequence, and arrays are filled with consecutive numbers of it.",
 ["histories","crash_points","inputs"],"all interruption points on the sampling grid, chains of several interruptions, seeds, and systems",
 "No stable test saves or restores any state; quantum trajectories are not built at all in the test configuration.",
 ["CPPQEDutils/Simulated_.h","CPPQEDcore/quantumtrajectory/Master.h","CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h","CPPQEDutils/StochasticTrajectory.h","CPPQEDutils/ODE.h","CPPQEDutils/Random.h","CPPQEDutils/Random.cc"],
 [("state serialization","stateIO members of the trajectory classes"),("ODE state","CPPQEDutils/ODE.h: Base::stateIO"),("random engine state","CPPQEDutils/Random.h: stateIO")])
p("C04","Automatic stopping fires exactly when the outputs have settled",
 "With automatic stopping requested over n repetitions, a run stops right after the first output all of whose values agree, within the given relative precision, with the average of the n preceding outputs (the first output of the run does not count, and magnitudes below the absolute threshold count as the threshold), and never earlier. With zero repetitions it never stops early. After stopping, the point has been output, the final state is saved and the run ends normally.",
 ["inputs","histories"],"all sequences of output vectors, repetition numbers and thresholds",
 "No stable test uses automatic stopping.",
 [T],[("stopping criterion",T+": AutostopHandlerGeneric"),("loop exit",T+": trajectory::run")])
p("C05","Adaptive stepping: exact landing, honest bookkeeping, no lost step size",
 "One adaptive step never moves farther than the requested interval, reports as its length exactly the time moved (also backwards), retries until the stepper accepts, and counts steps, failures and derivative evaluations correctly. Advancing by an interval ends exactly at the requested time. A step cut to less than a tenth of the current step size does not shrink the step size used afterwards.",
 ["inputs","histories","fault_sequences"],"all sequences of requested intervals, accepted/rejected attempts and step-size suggestions of the underlying stepper, forward and backward",
 "The stable tests integrate two fixed equations and compare end values within a tolerance; the step-size policy and bookkeeping are not observed.",
 ["CPPQEDutils/ODE.h","CPPQEDutils/ODE_GSL.h",T],[("step control","CPPQEDutils/ODE.h: ode_engine::Base::step"),("advance",T+": advance, advanceTo")])
p("C06","Relative and absolute tolerances mean what they are called",
 "The relative precision given to either ODE engine bounds the error relative to the solution and the absolute precision bounds it absolutely. In particular with vanishing absolute tolerance the accepted steps do not depend on the scale of the solution, and with vanishing relative tolerance tightening or loosening the absolute one by the scale of the solution leaves them unchanged.",
 ["inputs","configurations"],"all solution scales, tolerances and both engines",
 "The tests use one tolerance pair on solutions of magnitude one, where the two tolerances cannot be told apart.",
 ["CPPQEDutils/ODE.h","CPPQEDutils/ODE_GSL.h"],[("stepper construction","CPPQEDutils/ODE.h, ODE_GSL.h: MakeControlledErrorStepper")])
p("C07","Quantum-jump trajectory: every step follows the Monte Carlo wave-function rules",
 "In each step the state is evolved by the effective Hamiltonian and the exact part, renormalised, and then either left alone or subjected to exactly one jump: a jump occurs iff the drawn random number is below the total jump probability of the step, and channel i is chosen in proportion to its rate, the resulting state being normalised. If the jump probability of a step overshoots its tolerated limit the step is undone completely (state, time and interaction-picture reference) and repeated with a smaller one; otherwise the next step size is limited so that the jump probability stays below the limit. The jump log contains exactly the jumps that happened, in order, with their times and channels.",
 ["inputs","histories","schedules"],"all sequences of random draws, rate vectors (including channels whose rate is computed from the jumped state), step lengths and limits",
 "Quantum-jump trajectories are not compiled by the test build; their behaviour depends on random histories.",
 ["CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h","CPPQEDcore/quantumtrajectory/MCWF_TrajectoryLogger.h","CPPQEDcore/quantumtrajectory/MCWF_TrajectoryLogger.cc","CPPQEDcore/quantumtrajectory/QuantumTrajectory.h"],
 [("step","MCWF_Trajectory.h: step, coherentTimeDevelopment, performJump, calculateSpecialRates"),("log","MCWF_TrajectoryLogger")])
p("C08","Master equation evolves with the full Lindblad generator and keeps rho Hermitian",
 "The right-hand side used for the density operator is, for every Hermitian density operator, the effective-Hamiltonian term plus its Hermitian conjugate plus the sum of all dissipative channels, evaluated at the right time; the exact part acts from both sides. After every step the density operator is Hermitian and its trace changes only as the generator dictates. A system whose exact part or dissipation cannot be used in a Master equation is refused at construction.",
 ["inputs","configurations","histories"],"all density operators, subsystem structures, step sequences and combinations of Hamiltonian/exact/dissipative parts",
 "No stable test runs a Master equation.",
 ["CPPQEDcore/quantumtrajectory/Master.h","CPPQEDcore/structure/Liouvillean.h","CPPQEDcore/quantumtrajectory/QuantumTrajectory.h"],[("derivative and step","Master.h: derivs, step")])
p("C09","Ensembles: members advance together, results are the arithmetic mean",
 "An ensemble advances every member to the same time, its averaged state is the arithmetic mean of the members' states (for quantum-jump ensembles the mean of the projectors), and its saved state restores every member in order. Members are started from the same initial condition with mutually distinct random streams that are reproducible from seed and stream order.",
 ["inputs","histories","schedules"],"all ensemble sizes, member states, advance sequences and seeds",
 "Ensembles are not compiled by the test build.",
 ["CPPQEDutils/StochasticTrajectory.h","CPPQEDutils/Random.h","CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h"],[("ensemble","StochasticTrajectory.h: Ensemble, AverageTrajectories"),("random streams","Random.h: incrementForNextStream, EngineWithParameters")])
p("C10","Composite systems: every part acts on its own degrees of freedom and only there",
 "In a binary or composite system the Hamiltonian contribution, the exact propagator, every jump operator and every dissipative superoperator equal the sum (or for a single channel, the one member) of the parts' operators, each tensored with identities on all other degrees of freedom, wherever the part sits in the composite and whichever of its optional capabilities it has. Nothing is applied twice, omitted, or applied to other indices. The matrix calculated of a system's Hamiltonian is that of the operator applied to states.",
 ["configurations","inputs"],"all layouts of subsystems and interactions (including permuted and non-adjacent indices), dimensions, states, and subsets of parts possessing each capability",
 "The stable tests contain no composite system except one that must fail to compile.",
 ["CPPQEDcore/composites/Composite.h","CPPQEDcore/composites/Composite.tcc","CPPQEDcore/composites/BinarySystem.h","CPPQEDcore/composites/BinarySystem.cc","CPPQEDcore/composites/Act.h","CPPQEDcore/composites/SubSystem.h","CPPQEDcore/structure/MatrixOfHamiltonian.h","CPPQEDutils/SliceIterator.h"],
 [("worker loops","Composite.tcc: worker, Hamiltonian/Exact/Liouvillean"),("binary","BinarySystem.cc")])
p("C11","Composite systems: keys, averages, rates and jump channels stay aligned",
 "The number of announced averages and jump channels, the numbered key printed for them, the values calculated, post-processed and printed, the vector of rates and the channel index used for jumping all follow the same order: subsystem by subsystem, then interaction by interaction. Post-processing of one part never touches the values of another; the k-th number in an output line belongs to the k-th key entry, and channel k jumps with the operator whose rate is the k-th one.",
 ["configurations","inputs"],"all composites and all subsets of parts contributing averages and jump channels",
 "No stable test observes keys, averages or rates of composites.",
 ["CPPQEDcore/composites/Composite.tcc","CPPQEDcore/composites/BinarySystem.cc","CPPQEDcore/structure/LiouvilleanAveragedCommon.h","CPPQEDcore/structure/Averaged.h","CPPQEDcore/structure/ElementLiouvillean.h","CPPQEDcore/structure/ElementAveraged.h","CPPQEDutils/KeyPrinter.cc"],
 [("ordering","Composite.tcc, BinarySystem.cc: streamKey_v, average_v, process_v, stream_v, rates_v, actWithJ_v")])
p("C12","Structured operators behave exactly like the matrices they stand for",
 "For tridiagonal operators of any rank, with arbitrary off-diagonal distance, sums, differences, scalar multiples, Hermitian conjugates, tensor products, and application to a state equal the corresponding operations on the dense matrices they represent, and likewise for elementary transition operators and their tensor products with tridiagonals. Combinations that cannot be represented or whose dimensions disagree are refused with an exception instead of yielding a wrong operator.",
 ["inputs","histories"],"all operators, distances, dimensions, and sequences of algebraic operations",
 "No stable test constructs or applies an operator.",
 ["CPPQEDcore/quantumoperator/Tridiagonal.h","CPPQEDcore/quantumoperator/Tridiagonal.tcc","CPPQEDcore/quantumoperator/Tridiagonal.cc","CPPQEDcore/quantumoperator/Sigma.h"],
 [("algebra and application","Tridiagonal.tcc; Sigma.h")])
p("C13","Interaction-picture operators are the exactly rotated Schroedinger operators",
 "An operator furnished with frequencies and propagated to time t, directly or through any sequence of intermediate times, equals the operator conjugated with the diagonal free evolution over t, also after conjugation, tensor products and sums; a Hamiltonian evaluated at (t,t0) uses t-t0. An exact free evolution applied over zero time is the identity, and over two consecutive intervals is the evolution over their sum.",
 ["inputs","histories"],"all frequencies, times and sequences of evaluations, in any order of times",
 "No stable test uses frequencies or exact propagators.",
 ["CPPQEDcore/quantumoperator/Tridiagonal.tcc","CPPQEDcore/quantumoperator/TridiagonalHamiltonian.h","CPPQEDcore/structure/FreeExact.h","CPPQEDcore/structure/Exact.h","CPPQEDcore/structure/TimeDependence.h"],
 [("propagation","Tridiagonal.tcc: propagate, furnishWithFreqs"),("exact part","FreeExact.h: actWithU_v"),("time dispatch","TimeDependence.h")])
p("C14","Array slicing visits every slice exactly once, correctly aligned",
 "Iterating an array over any choice of retained axes, in any order, yields for every combination of the remaining indices exactly one view that aliases the original data with the retained axes in the requested order; writing through a view changes exactly the addressed elements. Two arrays sliced identically are traversed in the same order, rows and columns of (multi-)matrices are visited likewise, and multi-index counters and combination tables enumerate every index tuple exactly once in order.",
 ["inputs","configurations"],"all ranks up to the supported one, shapes, axis selections and permutations",
 "Tests sample a few fixed shapes and axis choices.",
 ["CPPQEDutils/SliceIterator.h","CPPQEDutils/SliceIterator.tcc","CPPQEDutils/MultiIndexIterator.h","CPPQEDutils/Combinatorics.h","CPPQEDutils/Combinatorics.cc"],
 [("slicing","SliceIterator.h/.tcc: Transposer, Indexer"),("multi-indices","MultiIndexIterator.h")])
p("C15","Density-operator views, partial traces and their packings agree",
 "Reading matrix elements through the common density-operator interface gives the same values whether the state is stored as a vector or as its projector. Reduction to any subset of subsystems equals the mathematical partial trace and preserves trace and Hermiticity; the real-vector packing of a density operator lists diagonals then off-diagonals in a fixed order and unpacks to the identical operator. Vector-space operations, tensor products, dyads, inner products, norms and partial transposes (with the entanglement measures built on them) obey their defining formulas, and the position-momentum transform of any axis acts on both representations alike and is undone by its reverse.",
 ["inputs","configurations"],"all states, dimensions and subsystem subsets",
 "Tests check purity, entropy and negativity on two prepared states only.",
 ["CPPQEDcore/quantumdata/LazyDensityOperator.h","CPPQEDcore/quantumdata/DensityOperator.h","CPPQEDcore/quantumdata/StateVector.h","CPPQEDcore/quantumdata/ArrayBase.h","CPPQEDcore/quantumdata/EntanglementMeasures.h","CPPQEDcore/quantumdata/LazyDensityOperatorFFT.h","CPPQEDutils/ComplexArrayExtensions.h"],
 [("partial trace","LazyDensityOperator.h: partialTrace, deflate"),("packing","DensityOperator.h: inflate, densityOperatorize")])
p("C16","The command line determines the parameters: all of it, and nothing else",
 "After parsing, every parameter has the value of its last occurrence on the command line, or its default if it does not occur; a switch and its negated form set and clear the same flag, the later one winning. Unknown names, missing prefixes, missing or malformed values and attempts to set a section title terminate the program instead of being ignored; registering a name twice is refused. The recorded command line is the one given. The parameters of drivers, elements and interactions are set under their documented names followed by the modifier they were declared with, and have their documented defaults; vectors are read as bracketed, comma-separated lists with exactly as many components as the parameter has.",
 ["inputs","histories"],"all parameter tables and command lines",
 "No stable test parses a command line with more than a fixed argument list.",
 ["CPPQEDutils/Pars.h","CPPQEDutils/Pars.cc","CPPQEDutils/BooleanNegatedProxy.h","CPPQEDutils/BooleanNegatedProxy.cc","CPPQEDutils/FormDouble.h","CPPQEDutils/IO_Manip.h","CPPQEDelements/frees/ParsMultiLevel.h"],
 [("parsing","Pars.cc: update"),("table","Pars.h: Table::add, operator[]")])
p("C17","Text output is machine-readable: comments marked, numbers separable",
 "Whatever is written to the commenting stream, in whatever pieces and flushes, appears unchanged with each non-empty line marked as a comment exactly once and empty lines untouched, and never marks data lines. Every printed number is followed by a separator within its column, so a data line always splits into exactly as many fields as there are values, each reading back to the value within the requested precision; keys are numbered consecutively from the announced start.",
 ["inputs","histories"],"all texts, chunkings and interleavings; all doubles and precisions",
 "No stable test looks at output formatting.",
 ["CPPQEDutils/CommentingStream.h","CPPQEDutils/FormDouble.h","CPPQEDutils/FormDouble.cc","CPPQEDutils/KeyPrinter.cc","CPPQEDutils/KeyPrinter.h","CPPQEDcore/structure/ElementAveraged.cc",T],
 [("commenting","CommentingStream.h"),("formatting","FormDouble")])
p("C18","Elements: rates, jumps, dissipators and effective Hamiltonians fit together",
 "For every lossy element and every state, the rate of a channel equals the squared norm produced by its jump, its Master-equation term equals the jump operator applied from both sides, and the anti-Hermitian part of the effective Hamiltonian (with the exact part) is minus half the sum of the jump operators' squares (up to truncation at the cutoff and to a multiple of the identity, which normalisation removes), while all remaining Hamiltonian parts are Hermitian. Reported averages equal the expectation values named in the key.",
 ["inputs","configurations"],"all cutoffs, parameters, temperatures, pictures and states of modes, qubits, spins, multilevel atoms and their interactions",
 "No stable test instantiates an element.",
 ["CPPQEDelements/frees/Mode.cc","CPPQEDelements/frees/Mode_.h","CPPQEDelements/frees/Qbit.cc","CPPQEDelements/frees/Spin.cc","CPPQEDelements/frees/MultiLevel.h","CPPQEDelements/frees/PumpedTwoLevelAtom.cc","CPPQEDelements/interactions/JaynesCummings_.h"],
 [("jumps and rates","Mode.cc, Qbit.cc, Spin.cc, MultiLevel.h: doActWithJ, rate, doActWithSuperoperator")])
p("C19","All quantum-mechanical pictures of an element describe the same dynamics",
 "For the same parameters, the Schroedinger, unitary-interaction and interaction-picture versions of an element or of an interaction between elements generate the same evolution: transforming the interaction-picture Hamiltonian at any time back with the exact propagator and adding the propagator's own generator gives the Schroedinger-picture effective Hamiltonian. The factory selects an implementation having exactly the terms whose parameters are nonzero.",
 ["configurations","inputs"],"all parameter values (including zero ones), pictures, cutoffs and times",
 "No stable test instantiates an element in any picture.",
 ["CPPQEDelements/frees/Mode.cc","CPPQEDelements/frees/Mode.tcc","CPPQEDelements/frees/Qbit.cc","CPPQEDelements/frees/Spin.h","CPPQEDelements/frees/Particle.cc","CPPQEDelements/interactions/JaynesCummings_.h"],
 [("pictures","Mode.tcc: make, Hamiltonian<true/false>, Exact"),("Qbit","Qbit.cc: make")])
EV="CPPQEDcore/quantumtrajectory/Evolution_.h"
p("C20","The evolution driver runs what was asked for and reports it in full",
 "A simulation started by evolve or evolveMaster with parameters from the command line uses the named method (single trajectory, ensemble or Master equation) and picture (the interaction picture being replaced by the unitary one for the Master equation). For dynamics without randomness every method and picture gives the same averages at every sample; with decay the Master equation gives the exact averages, and every jump trajectory those of the no-jump evolution or of the state after its jump. An output line consists of time, step, and the averages in the order of the key, followed, if a subsystem is designated, by the requested measures of entanglement (negativity, mutual information, purity) for Master equation and ensemble; the numbers in the key are the column numbers, and the returned record equals what is streamed. An initial state passed to a single trajectory or, as density operator, to the Master equation holds the final state afterwards, while one passed to an ensemble or, as state vector, to the Master equation is left alone. Single trajectories and ensembles from a density operator are refused. With streaming switched off nothing is printed on the standard output.",
 ["configurations","inputs","histories"],"all methods, pictures, entry points, systems, initial states, designated subsystems and sets of measures",
 "Evolution drivers are not built in the test configuration at all.",
 [EV,"CPPQEDcore/quantumtrajectory/EvolutionMethod.cc","CPPQEDcore/quantumtrajectory/DensityOperatorStreamer.h","CPPQEDcore/quantumtrajectory/Master.h","CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h","CPPQEDcore/high/QM_Picture.cc"],
 [("dispatch",EV+": evolve, evolveMaster, _::evolve"),("picture","QM_Picture.cc: updateWithPicture"),("output","DensityOperatorStreamer.h")])
p("C21","Initial states are the ones the parameters describe",
 "The initial state of an element made from its parameters is the one they describe, whatever else was given on the command line and whichever set of parameters (with whichever modifier) it belongs to: a Fock state if a nonzero Fock number is given (refused if not below the cutoff), otherwise the coherent state of the given field, whose n-th amplitude is exp(-|a|^2/2) a^n/sqrt(n!) also for large n; a normalised qubit state with the given excited amplitude; for particles a normalised Gaussian wave packet centred at the given position and momentum with the given width, measured in position or in momentum space, or, if a level is given, that eigenstate of the harmonic oscillator with the given characteristic length; a zero width of a pumped particle stands for that of the ground state of its potential. The result describes the same state in position and in momentum representation. Methods, pictures and mode functions are read as the words they are printed as, and anything else is refused leaving the value unchanged.",
 ["inputs","configurations"],"all parameter values and orders on the command line, cutoffs, grids, widths, representations",
 "No stable test makes an initial state of an element.",
 ["CPPQEDelements/frees/Mode.cc","CPPQEDelements/frees/Qbit.cc","CPPQEDelements/frees/Particle.cc","CPPQEDelements/frees/ParsParticle.cc","CPPQEDelements/frees/ParsMode.cc","CPPQEDelements/utils/ParticleInitialCondition.h","CPPQEDelements/utils/ModeFunction.cc","CPPQEDutils/MathExtensions.cc"],
 [("modes","Mode.cc: fock, coherent, init"),("particles","Particle.cc: wavePacket, hoState, init"),("high elements","MathExtensions.cc: coherentElement")])
p("C22","Wigner and Q functions and their maps are those of the state",
 "For every state of a mode, given as a state vector or as a density operator, and at every point of phase space, the Q function is the expectation value of the operator in the coherent state of that amplitude, and the Wigner function is the documented sum over the Fock-basis elements, restricted to the leading elements if a truncation below the dimension is asked for. A map contains one line for each grid point, the coordinates running from the lower limits up to but excluding the upper ones by the given step, with a blank line after each abscissa; a nonzero symmetric limit takes precedence over the individual ones.",
 ["inputs","configurations"],"all states, dimensions, points, truncations, limits and steps",
 "No stable test evaluates a distribution function.",
 ["CPPQEDcore/quantumdata/DistributionFunctions.h","CPPQEDcore/quantumdata/DistributionFunctions.cc","CPPQEDutils/MathExtensions.cc"],
 [("functions","DistributionFunctions.h: wignerFunction, qFunction"),("maps","DistributionFunctions.h: scanFunction")])
p("C23","The closed oscillator solution satisfies its equation from any starting time",
 "The closed solution furnished for the driven damped oscillator y''+2 gamma y'+y=exp(i omega t) from an amplitude and a velocity given at any time takes these values at that time and satisfies the equation at every other, its reported velocity being the derivative of its amplitude, for every damping (none, weak, nearly critical, critical, strong) and every driving frequency of either sign, the resonant one included. Starting it anew from its own amplitude and velocity at any later time does not change it.",
 ["inputs","histories"],"all dampings, frequencies, initial values, starting times and sequences of restarts",
 "The stable tests start it at time zero with a few underdamped parameter sets only.",
 ["CPPQEDutils/DrivenDampedHarmonicOscillator.h","CPPQEDutils/DrivenDampedHarmonicOscillator.cc"],
 [("solution","DrivenDampedHarmonicOscillator.cc: DDHO, DDHO_Critical, make")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
