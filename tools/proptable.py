prop("P01", "A restarted run continues exactly like the uninterrupted one",
 "For every combination of model options and every checkpointed step, a run resumed from the checkpoint file of that step produces, at every later output, the same fields, marker state, surface, time, time step and time series as the run that was never interrupted. This also holds when the resumed run asks for a different total number of steps.",
 ["configurations", "histories"], "all sets of up to two (thorough: three) option switches x all restart steps of a bounded run",
 "Tests never restart; which parts of the state must be saved depends on the combination of options.",
 ["MDLIB/InputOutput.c", "MDLIB/Main_DOODZ.c", "MDLIB/Setup.c"],
 [("MakeBreakpointParticles / LoadBreakpointParticles", "MDLIB/InputOutput.c"), ("time loop, restart branch", "MDLIB/Main_DOODZ.c")],
 ["state passed to WriteOutputHDF5 at each output step"],
 "exhaustive enumeration of option sets x restart points on the real code, differential oracle (uninterrupted run)", "exploration",
 "bounded grid and step count; every combination in the bound is executed")
prop("P02", "No crash or file error leaves a run without a usable checkpoint or with a wrong one",
 "At whatever file operation a run crashes, is cut off in the middle of a write, or sees an operation fail, the files left behind either resume to exactly the results of the uninterrupted run or are refused with an error; they never silently resume to something else. Once a checkpoint has been completed, at least one checkpoint from which the run can be resumed exists at every later moment, also when older checkpoints are being recycled.",
 ["crash_points", "fault_sequences", "histories"], "every file operation of bounded runs x {crash before it, torn write, error return, disk full from here on} and every truncation point of a checkpoint (byte grid)",
 "Tests never kill a run; the number of crash points and partial writes is far beyond a handful of samples.",
 ["MDLIB/InputOutput.c", "MDLIB/Main_DOODZ.c"],
 [("MakeBreakpointParticles, LoadBreakpointParticles, DeletePreviousBreakpoint", "MDLIB/InputOutput.c")],
 ["files in the output folder after the fault", "state at the outputs of the resumed run"],
 "exhaustive enumeration of crash points, torn writes and failing file operations (ptrace fault injection) on the real code, differential oracle", "exploration",
 "process crash, not power loss; small grids")
prop("P03", "Results do not depend on the number of threads or on their schedule",
 "For every combination of model options, any number of threads and any interleaving of them, a run produces the same fields, markers, surface and time series as the single-threaded run, up to the round-off of reordered sums. No two threads access the same data without synchronisation with one of them changing it.",
 ["schedules", "configurations"], "all option sets in the bound x thread counts x all execution orders of the threads of each parallel region, with every memory access recorded",
 "Tests are built without threads, and a data race shows only under particular schedules.",
 ["MDLIB/ParticleRoutines.c", "MDLIB/RheologyDensity.c", "MDLIB/RheologyParticles.c", "MDLIB/AdvectionRoutines.c", "MDLIB/StokesAssemblyDecoupled.c", "MDLIB/ThermalSolver.c"],
 [("OpenMP parallel regions", "MDLIB/*.c")],
 ["all memory accesses inside parallel regions", "state at each output step"],
 "stateless exploration of thread schedules on the real code under a controlled OpenMP runtime with a conflict (happens-before) oracle and a one-thread reference", "exploration",
 "absence of conflicting accesses makes all interleavings of a region equivalent to the executed one")
prop("P17", "Every run stays inside its memory and never uses undefined values",
 "For every combination of model options the program runs to its end, or stops with a message, without accessing memory outside its objects, without undefined arithmetic and without crashing; the same holds when it resumes from a checkpoint. Its results do not depend on what uninitialised memory happened to contain, so that two runs of the same input are bit-identical.",
 ["configurations", "inputs"], "all option sets up to size two (thorough: three), each under memory monitors and under three fillings of fresh memory",
 "Out-of-bounds accesses and uses of uninitialised memory usually go unnoticed in a passing test.",
 ["MDLIB/*.c"], [("all routines reachable from RunMDOODZ", "MDLIB/*.c")],
 ["address and undefined-behaviour monitors", "state at each output step"],
 "exhaustive enumeration of bounded configurations on the real code with memory-safety monitors and uninitialised-memory fill patterns", "exploration",
 "leaks not judged; external libraries not instrumented")
prop("P04", "Results in physical units do not depend on the units of the computation",
 "For every combination of model options, changing the characteristic viscosity, length, velocity or temperature used to non-dimensionalise the problem leaves every output quantity unchanged once it is expressed in SI units.",
 ["configurations", "inputs"], "all option sets up to size two x changes of each of the four characteristic scales, separately and together",
 "A missing conversion factor is invisible in a test that fixes one set of units; there are hundreds of conversions.",
 ["MDLIB/InputOutput.c", "MDLIB/FlowLaws.c", "MDLIB/RheologyDensity.c", "MDLIB/MeltingRoutines.c", "MDLIB/FreeSurface.c", "MDLIB/ThermalRoutines.c"],
 [("scaling of inputs and constants", "MDLIB/InputOutput.c"), ("dimensional constants inside the physics routines", "MDLIB/*.c")],
 ["state at each output step in SI"],
 "exhaustive enumeration of option sets x unit systems on the real code, differential oracle (reference units)", "exploration",
 "scales changed by powers of two; tolerance 2e-6")
prop("P06", "Mirrored and axis-exchanged models evolve as mirror images",
 "For every combination of model options, the mirror image (left to right) of a model evolves into the mirror image of the original evolution: fields, markers, surface, times and boundary effects. Where neither gravity nor a free surface, periodicity or a radial grid singles out a direction, the same holds for the upside-down model and for the model with exchanged axes.",
 ["configurations", "inputs"], "all option sets up to size two x reflection in x, reflection in z, exchange of the axes, on cells that are not square",
 "Errors on one side of the model, in one component of a tensor or in one of the two grid spacings leave a symmetric or square test untouched.",
 ["MDLIB/StokesAssemblyDecoupled.c", "MDLIB/ThermalRoutines.c", "MDLIB/ChemicalRoutines.c", "MDLIB/AdvectionRoutines.c", "MDLIB/ParticleRoutines.c", "MDLIB/FreeSurface.c", "MDLIB/RheologyParticles.c"],
 [("stencils, boundary rows and interpolation", "MDLIB/*.c")],
 ["state at each output step"],
 "exhaustive enumeration of option sets x symmetries on the real code, differential oracle (image of the original run)", "exploration",
 "ties in the treatment of markers exactly on moving boundaries are left out")

prop("P05", "The written flow balances forces and conserves mass in every cell",
 "For every combination of model options, in every output, stresses, pressure and gravity balance at every interior velocity node, and the divergence of the velocity in every cell equals the volume change that compressibility, plastic dilation and the imposed divergence prescribe (zero when incompressible). The strain rates, divergence and vorticity in the output are the gradients of the velocity in the output, and the body force is the weight of the material in the cell.",
 ["configurations", "inputs"], "all option sets up to size two x grids with cells that are not square; every node and cell of every output",
 "Tests look at iteration counts or a mean; an inconsistent stencil, a missing term or an update of one field after the others shows only in the balance of the written fields.",
 ["MDLIB/StokesAssemblyDecoupled.c", "MDLIB/StokesRoutines.c", "MDLIB/RheologyDensity.c", "MDLIB/Main_DOODZ.c"],
 [("momentum and continuity residuals, strain rates, body forces", "MDLIB/StokesRoutines.c")],
 ["velocity, stress, pressure, strain rate and density of each output"],
 "exhaustive enumeration of bounded configurations on the real code, every cell of every output checked against the discrete balance equations recomputed independently", "exploration",
 "runs whose iterations do not reach their tolerance are judged on kinematics only; nodes next to a stabilised free surface not judged for forces")
prop("P20", "The flow takes the prescribed velocities, slip conditions and tractions on every side",
 "Whatever admissible combination of prescribed normal velocity or traction and prescribed tangential velocity or free slip is given on the four sides, with values varying along the side, the written flow takes exactly those values at the boundary at every step. The built-in pure-shear and simple-shear conditions give the flow of the requested strain rate on the sides of the current box, also when the box deforms or is periodic.",
 ["inputs", "configurations"], "all 256 combinations of condition kinds on the eight side-component pairs (except those that leave a rigid translation undetermined) x material models; built-in conditions x all option sets",
 "Boundary rows are written once per side and component; a test uses one combination.",
 ["MDLIB/Setup.c", "MDLIB/StokesAssemblyDecoupled.c", "MDLIB/StokesRoutines.c"],
 [("boundary flags and values", "MDLIB/Setup.c"), ("boundary rows of the momentum equations", "MDLIB/StokesAssemblyDecoupled.c")],
 ["boundary velocities and tractions of each output"],
 "exhaustive enumeration of boundary-condition combinations on the real code, boundary values read off every output", "exploration",
 "tractions not combined with the Newton or anisotropic solver")
prop("P09", "Grid properties are the distance-weighted averages of the markers around them",
 "At every step, each grid field that is taken from the markers (heat capacity, heat production, conductivity, previous temperature, pressure, stress, density, composition, grain size, porosity, noise, phase fractions) equals, at every node, the average of the marker values weighted by their distance, over exactly the markers in the node's cell (or 3x3 cells), for any distribution of the markers. Phase fractions sum to one, and periodic sides hold the same values.",
 ["inputs", "configurations"], "all option sets up to size two x grids x marker layouts; every node of every step, with markers moved by the flow",
 "A test cannot enumerate marker positions; an off-by-one in a cell search or stencil shows only for markers near one edge of a cell.",
 ["MDLIB/ParticleRoutines.c", "MDLIB/Main_DOODZ.c"],
 [("P2Mastah and its uses", "MDLIB/ParticleRoutines.c"), ("phase fractions in CountPartCell_OLD", "MDLIB/ParticleRoutines.c")],
 ["marker state of one output and grid state of the next"],
 "exhaustive enumeration of bounded configurations on the real code, every grid value recomputed from the markers by an independent reference", "exploration",
 "markers between outputs are only moved, not re-created, so the previous output is the input of the interpolation")
prop("P10", "Markers and the box move with the written velocity",
 "In every step every marker moves along the trajectory of the velocity field of that step, integrated to fourth order over the time step with the chosen interpolation of the velocity (in substeps where the step exceeds what the Courant limit allows). A deforming box moves with the velocities prescribed on its sides, and in a periodic box markers that leave on one side enter on the other; no marker is displaced otherwise.",
 ["inputs", "configurations"], "all option sets up to size two x grids x marker layouts x time-step lengths; every marker of every step",
 "A test follows no individual marker; errors next to a boundary, a slip wall or air appear only for markers in one half-cell.",
 ["MDLIB/AdvectionRoutines.c", "MDLIB/ParticleRoutines.c", "MDLIB/Main_DOODZ.c"],
 [("RogerGuntherII, V2P", "MDLIB/AdvectionRoutines.c"), ("PureShearALE", "MDLIB/GridRoutines.c")],
 ["marker positions and velocities of consecutive outputs"],
 "exhaustive enumeration of bounded configurations on the real code, every displacement recomputed by an independent reference", "exploration",
 "markers created by reseeding are left out in the step of their creation")
prop("P23", "Every property carried by a marker evolves by its own law along the flow",
 "At every step every marker updates temperature, pressure and stress by the change of the grid field (or its new value), with subgrid relaxation where selected; rotates stresses and directors with the flow; and adds the strain of the step to its accumulated strains and deformation gradient. Peak temperature and pressure never decrease, and quantities no process acts on (composition, porosity, grain size, noise, initial position) keep their values.",
 ["inputs", "configurations"], "all option sets up to size two x grids x marker layouts; every marker of every step",
 "Each quantity is updated by its own routine called under its own switches; a test that looks at one mean value cannot see one that is skipped, applied twice or overwritten.",
 ["MDLIB/RheologyParticles.c", "MDLIB/ParticleRoutines.c", "MDLIB/Main_DOODZ.c", "MDLIB/ThermalRoutines.c"],
 [("UpdateParticle* and accumulation routines", "MDLIB/RheologyParticles.c")],
 ["marker and grid state of consecutive outputs"],
 "exhaustive enumeration of bounded configurations on the real code, every marker value recomputed by an independent reference", "exploration",
 "markers next to cells that become air in the step are judged only on quantities not taken from the grid")
prop("P07", "Temperature solves the heat balance of every step",
 "In every step with thermal evolution, the temperature of every cell satisfies the implicit balance of heat capacity, conduction, radiogenic heat and exactly the selected sources (dissipation of mechanical work, adiabatic heating), with the temperatures, basal heat flux, insulation or periodicity prescribed on the sides and at the free surface. No heat crosses insulated sides or enters the air.",
 ["inputs", "configurations"], "all combinations of side conditions x heat sources x surface shapes x grids; all option sets up to size two; every cell of every step",
 "A test compares one analytical solution; a wrong face, missing source or wrong side condition shows only for the combination that uses it.",
 ["MDLIB/ThermalRoutines.c", "MDLIB/Setup.c", "MDLIB/Main_DOODZ.c"],
 [("EnergyDirectSolve", "MDLIB/ThermalRoutines.c"), ("thermal boundary conditions", "MDLIB/Setup.c")],
 ["temperature of each output"],
 "exhaustive enumeration of side conditions x sources x option sets on the real code, every cell compared with an independently assembled and solved balance", "exploration",
 "heat fluxes prescribed on sides other than the base are a known finding")
prop("P08", "Composition solves the reaction and diffusion balance of every step",
 "In every step with chemical diffusion, the composition of every cell satisfies the implicit diffusion balance started from the reaction progress that the kinetics prescribe for its pressure, with the values, basal flux, insulation or periodicity prescribed on the sides and at the free surface. Nothing diffuses through insulated sides or into the air.",
 ["inputs", "configurations"], "all combinations of side conditions x kinetics of each phase x surface shapes x grids; all option sets up to size two; every cell of every step",
 "The test suite never runs the chemical solver with a free surface or kinetics.",
 ["MDLIB/ChemicalRoutines.c", "MDLIB/Setup.c", "MDLIB/FreeSurface.c", "MDLIB/RheologyDensity.c"],
 [("ChemicalDirectSolve", "MDLIB/ChemicalRoutines.c"), ("reaction progress", "MDLIB/RheologyDensity.c")],
 ["composition of each output"],
 "exhaustive enumeration of side conditions x kinetics x option sets on the real code, every cell compared with an independently assembled and solved balance", "exploration",
 "fluxes prescribed on sides other than the base are a known finding")
prop("P13", "Stress, viscosity and strain rates obey the flow laws of the phases present",
 "In every cell and vertex of every step, the strain rate is the gradient of the velocity and the stress is the one at which the active creep laws of the phase, elasticity and the yield condition (friction, cohesion, dilation, viscoplastic overstress, upper stress limit, tension cut-off) share it, within the prescribed viscosity limits and with the phases of the node averaged as prescribed. The reported strain rates by mechanism, plastic dilation, pressure correction, overstress, dissipation and composition are those of that same state.",
 ["inputs", "configurations"], "all non-empty sets of creep laws x elasticity x yield descriptions x averaging modes x isotropic or anisotropic medium x temperature fields; the flow laws of the data base; all pairs of viscosity limits; option sets up to size two; every node, trial and converged state",
 "A local law is a function of a dozen variables with branches; the test suite exercises constant and power-law creep without elasticity or yielding.",
 ["MDLIB/RheologyDensity.c", "MDLIB/AnisotropyRoutines.c", "MDLIB/FlowLaws.c", "MDLIB/StokesRoutines.c"],
 [("ViscosityConcise", "MDLIB/RheologyDensity.c"), ("ViscosityConciseAniso", "MDLIB/AnisotropyRoutines.c"), ("StrainRateComponents", "MDLIB/RheologyDensity.c")],
 ["viscosity, stress, strain rates, pressure, dissipation of each output"],
 "exhaustive enumeration of flow laws x yield x averaging x option sets on the real code, every node compared with an independently solved constitutive law", "exploration",
 "grain growth, kinetic density laws and nonlinear viscoplasticity (rejected by the program) are outside")
prop("P19", "Density, elastic moduli and strength follow the material laws of the phases",
 "Every grid density is the phase-weighted density of the selected law (temperature, pressure, composition or table dependence) at the temperature and pressure of the node, and shear modulus, compressibility, expansivity, friction, cohesion and dilation are the values prescribed for the phases present, averaged as prescribed. Strength softens with accumulated strain from its initial to its final value over exactly the prescribed strain interval, and only for the quantities whose softening is selected.",
 ["inputs", "configurations"], "all density laws x averaging modes x softening modes x strain values on both sides of each threshold x grids x surface shapes; option sets up to size two; every node at every evaluation",
 "The test suite uses the default law with no softening; each law and each threshold is a separate branch.",
 ["MDLIB/RheologyDensity.c", "MDLIB/Main_DOODZ.c", "MDLIB/MemoryAllocFree.c"],
 [("UpdateDensity, EvaluateDensity", "MDLIB/RheologyDensity.c"), ("CohesionFrictionDilationGrid", "MDLIB/RheologyDensity.c"), ("ShearModCompExpGrid", "MDLIB/RheologyDensity.c")],
 ["density, moduli and strength of each output"],
 "exhaustive enumeration of material laws x averaging x strain histories on the real code, every node compared with an independent reference", "exploration",
 "")
prop("P24", "Melt fraction and latent heat follow the melting law of each phase",
 "In every step with melting, the melt fraction of every cell is the phase-weighted fraction given by the selected melting law of each phase at the temperature and pressure of the cell, between zero and one, relaxed at the prescribed kinetic rate from its previous value. The heat capacity and expansivity used in the heat balance contain exactly the latent heat of that law.",
 ["inputs", "configurations"], "all melting laws x temperatures on both sides of solidus and liquidus x pressures on both sides of each branch x kinetics x density dependence; option sets up to size two; every cell of every evaluation",
 "The test suite never melts anything.",
 ["MDLIB/RheologyDensity.c", "MDLIB/ThermalRoutines.c", "MDLIB/Main_DOODZ.c"],
 [("PartialMelting", "MDLIB/RheologyDensity.c"), ("MeltFractionGrid, UpdateAlphaCp", "MDLIB/RheologyDensity.c")],
 ["melt fraction, heat capacity, expansivity of each output"],
 "exhaustive enumeration of melting laws x temperature and pressure classes x kinetics on the real code, every cell compared with an independent reference", "exploration",
 "")
prop("P16", "Output files show the state of the run in physical units and do not disturb it",
 "Output files are written at exactly the prescribed steps and places, and every dataset of every grid and marker file (parameters, coordinates, fields, marker averages, phase maps, flags, iteration log, time series, surface) equals the state of the run at that moment converted to physical units, up to single precision. A run that writes files passes through exactly the same states as one that writes none.",
 ["configurations", "inputs"], "all option sets up to size two x grids x output intervals; every value of every dataset of every file",
 "Each of the hundred datasets has its own source, unit and size; the test suite reads a handful.",
 ["MDLIB/HDF5Output.c", "MDLIB/Main_DOODZ.c", "MDLIB/ParticleRoutines.c"],
 [("WriteOutputHDF5, WriteOutputHDF5Particles", "MDLIB/HDF5Output.c"), ("Interp_Phase2VizGrid", "MDLIB/ParticleRoutines.c")],
 ["the written files"],
 "exhaustive enumeration of option sets on the real code, every dataset read back and compared with the state of the run; differential run without output", "exploration",
 "")
prop("P22", "Every time step has the prescribed length and the clock is the sum of the steps",
 "Each step has the prescribed constant length or, with adaptive steps, the smallest of the limits in force: the advection limit of the flow just computed, the allowed growth over the previous step, the limits of reactions and surface processes and the largest step, but not less than the smallest step; the first step of an elastic run does not exceed the shortest relaxation time. Flow law, heat balance, diffusion and the motion of markers and surface all cover exactly that length, also when the step is shortened because the solver stagnates or the motion is split into substeps, and the time of every output is the sum of the lengths.",
 ["configurations", "inputs", "histories"], "all combinations of Courant number, first step, elasticity, step limits, further limits and kind of motion; all option sets up to size two with adaptive steps; runs with stagnating solver; every step",
 "Which limit applies depends on the flow, so that most combinations never occur in a test, which uses one constant step.",
 ["MDLIB/AdvectionRoutines.c", "MDLIB/Main_DOODZ.c"],
 [("EvaluateCourantCriterion, DefineInitialTimestep", "MDLIB/AdvectionRoutines.c"), ("time loop, safe mode, substeps", "MDLIB/Main_DOODZ.c")],
 ["time and step length of each output"],
 "exhaustive enumeration of combinations of limits and option sets on the real code, every step length recomputed by an independent reference", "exploration",
 "")
prop("P12", "The free surface moves with the flow and is shaped by surface processes only",
 "In every step the height of the surface at each column boundary changes by the vertical motion of the surface markers around it, carried by the computed flow through all substeps, plus exactly the hillslope diffusion, deposition below the base level and valley incision asked for; a requested zero mean is met. Surface markers always lie on the surface, the buried initial surface follows the flow and never lies above it, no rock marker lies above the surface and none below it disappears, and cells are air or rock according to the side of the surface their centre is on. Deposited sediment fills the gap between old and new surface with cold, unstrained markers of the phase of the current million years, and the initial surface is the prescribed topography.",
 ["configurations", "inputs", "histories"], "initial topographies x surface processes x motion of the box, substeps and projection variants x grids, and option sets with a free surface; every vertex, marker and cell after every step",
 "A test sees at most one topography and process; lost increments, stale slopes or misplaced sediment appear only in combinations such as substeps with incremental updates.",
 ["MDLIB/FreeSurface.c", "MDLIB/Main_DOODZ.c"],
 [("projection, remeshing, surface processes, sediment, cell flags", "MDLIB/FreeSurface.c"), ("free-surface part of the advection loop", "MDLIB/Main_DOODZ.c")],
 ["surface heights, both surface marker chains, markers and cell flags at every output", "grid and flags before each advection substep"],
 "exhaustive enumeration of bounded surface configurations on the real code; every transition compared with an independent reference step", "exploration",
 "ties (marker counts, thresholds) within round-off are not judged; the horizontal transport of heights follows the documented incremental/total projection")
prop("P15", "A run starts from exactly what the setup file says",
 "For every parameter and every way of writing the setup file (order of the lines, spacing, tabs, comments, line ends, order of the phase blocks), the run starts from exactly the value written, converted to the scaling of the run and applied to the phase under which it is written, and from the documented value where it is absent; no other parameter changes with it. Setups that contradict themselves or lack what they need are refused before the run starts.",
 ["inputs", "configurations"], "every parameter of the model, of the phases and every text parameter x values x presence x layouts of the file x scalings; every refused combination; the complete parameter state of the run",
 "There are several hundred parameters, each with its own default, unit and conversion, and a parser that scans the file anew for each of them; the test suite reads a few files of one layout.",
 ["MDLIB/InputOutput.c", "MDLIB/Setup.c"],
 [("ReadInputFile, ReadInt2, ReadDou2, ReadMatProps, ReadChar", "MDLIB/InputOutput.c"), ("ValidatePhase and other refusals", "MDLIB/InputOutput.c")],
 ["parameters of the run right after the setup file was read"],
 "exhaustive enumeration of parameters x presence x layouts x scalings on the real reader, the whole parameter state compared with an independent table", "exploration",
 "tables of the flow-law data base are the subject of P14")
prop("P14", "Every law number supplies its published constants in the scaling of the run",
 "Every number of the data base of creep, grain-growth and reaction laws supplies its published constants, converted to the scaling of the run and with the correction from laboratory geometry to invariants (none for a negative number), to exactly the phase and mechanism that ask for it. User-defined laws reproduce the prescribed viscosity or reference stress; overriding options change only what they name; unknown numbers are refused.",
 ["inputs", "configurations"], "all law numbers x sign x scalings x phases x overriding options; all ordered pairs of numbers of a family; all pairs of numbers of two families in one phase or two; all unknown numbers up to 60; every constant of every mechanism and phase",
 "There are fifty laws with ten constants and units that depend on exponents; the test suite uses two of them.",
 ["MDLIB/FlowLaws.c", "MDLIB/InputOutput.c"],
 [("ReadDataPowerLaw, ReadDataLinear, ReadDataGBS, ReadDataExponential, ReadDataGSE, ReadDataKinetics", "MDLIB/FlowLaws.c")],
 ["parameters of the run right after the setup file was read"],
 "exhaustive enumeration of law numbers x signs x scalings x phases x options x pairs on the real reader, every constant compared with a frozen published table", "exploration",
 "linear law number 1 is a known finding")
prop("P25", "A run starts from the state its setup prescribes",
 "Before the first step, markers fill the rock regularly (displaced at most by the noise asked for) and carry exactly what the user functions give at their place, or the documented default where a function is left out; saved markers are read back unchanged. Temperature (with cooling and perturbation), stress, composition, grain size, pressure as the weight of the rock above plus the background, surface markers and directors follow from them.",
 ["configurations", "inputs"], "sets of user functions given or left out x option sets, markers per cell x noise x surface shapes, perturbations x cooling, gravity x background x density models x surfaces, rotated shapes, marker files, phase changes by temperature, all option sets and pairs; every marker, cell and surface marker",
 "Every result depends on the initial state, but tests judge a later field of a few set-ups; a wrong default, a lost row of weight or a misplaced shape shows only for particular combinations.",
 ["MDLIB/Setup.c", "MDLIB/ParticleRoutines.c", "MDLIB/GridRoutines.c", "MDLIB/FreeSurface.c", "MDLIB/ThermalRoutines.c", "MDLIB/Main_DOODZ.c"],
 [("SetParticles, geometric helpers", "MDLIB/Setup.c"), ("PutPartInBox", "MDLIB/ParticleRoutines.c"), ("ComputeLithostaticPressure", "MDLIB/GridRoutines.c"), ("SetTopoChainHorizontalCoords", "MDLIB/FreeSurface.c"), ("ThermalSteps, SetThermalPert", "MDLIB/ThermalRoutines.c"), ("initialisation before the first output", "MDLIB/Main_DOODZ.c")],
 ["markers before and after the first count", "all markers, cells and surface markers at the initial output", "saved marker file"],
 "exhaustive enumeration of bounded set-ups on the real code; the complete initial state compared with an independent construction", "exploration",
 "grain size follows the reference of the phase (the user function is overwritten, as documented in DESIGN.md); pressure with reaction-dependent density not judged")

prop("P21", "Nonlinear iterations solve the linearised balance and stop as asked",
 "In every step the flow is corrected until force and mass balance meet the absolute or relative targets asked for, the limit of corrections is reached or they stagnate, and never otherwise; the recorded history is that of the iterates. Each correction balances the equations linearised about its iterate (frozen viscosities, or exact derivatives once the criterion of the Newton iterations is met). A stagnating step in safe mode starts over as if it had been made with the divided time step.",
 ["configurations", "histories", "fault_sequences"], "targets x limits x line search x switch to Newton; every iterate of every step; rheologies x option sets and pairs of linear option sets; stagnation injected at every chosen correction",
 "Tests look at the number of iterations of a handful of set-ups; a wrong matrix entry only slows convergence for particular boundary conditions or rheologies, a premature stop leaves an unbalanced flow, an incomplete restart corrupts the step.",
 ["MDLIB/Main_DOODZ.c", "MDLIB/StokesRoutines.c", "MDLIB/StokesAssemblyDecoupled.c", "MDLIB/Solvers.c", "MDLIB/RheologyDensity.c"],
 [("nonlinear iteration cycle", "MDLIB/Main_DOODZ.c"), ("SolveStokesDefectDecoupled, LineSearchDecoupled, EvaluateStokesResidualDecoupled", "MDLIB/StokesRoutines.c"), ("BuildStokesOperatorDecoupled, BuildJacobianOperatorDecoupled", "MDLIB/StokesAssemblyDecoupled.c"), ("RheologicalOperators", "MDLIB/RheologyDensity.c")],
 ["residual of every iterate", "iterate after every correction", "residual at points along every correction", "recorded residual history"],
 "exhaustive enumeration of bounded configurations and stagnation faults on the real code; every iterate judged by differences of the real residual along the real correction", "exploration",
 "the derivative is known not to be exact with anisotropy and nonlinear creep, density variations, varying lateral velocities, and some laws below a stabilised surface (not judged)")

prop("P11", "Marker refill continues the surrounding rock and changes nothing else",
 "When markers are refilled, every quarter cell of rock below the surface that holds fewer than a quarter of the prescribed minimum gains one marker at its centre, which continues phase, history and fields of the nearest marker (across periodic sides too; sediment if it lies above the initial surface; the fields of the grid if so chosen), reusing the places of lost markers first. Where material flows in, each marker that leaves a boundary half column inwards is followed half a cell behind by a copy of itself. No other marker appears or changes, counting changes nothing, and the run stops rather than leave a quarter cell empty of neighbours or exceed the room for markers.",
 ["configurations", "fault_sequences"], "switches x grid x marker density and prescribed minimum; every rectangle of quarter cells and every thinning k mod m whose markers are lost before a refill",
 "Which cells run dry depends on the flow and the marker density; a copied property that is forgotten, or a wrong neighbour at a side or below the surface, changes a few markers only, and a test that looks at means over the box does not see them.",
 ["MDLIB/ParticleRoutines.c", "MDLIB/Main_DOODZ.c"],
 [("CountPartCell_OLD, AddPartCell2, FindClosestPhase2, AssignMarkerProperties, ParticleInflowCheck, AssignMarkerPropertiesInflow", "MDLIB/ParticleRoutines.c"), ("reseeding within the advection step", "MDLIB/Main_DOODZ.c")],
 ["all markers before and after every refill, count and inflow"],
 "exhaustive enumeration of bounded configurations and hole patterns (marker-loss faults) on the real code; every refill compared with the set of markers that must exist afterwards", "exploration",
 "the alternative reseeding mode (reseed_mode=1) does not run and is not judged; the inflow director prescribed by the user is not judged")

prop("P18", "Equivalent descriptions of a model give equal results",
 "A model whose materials are numbered differently or listed twice, or whose directors point the opposite way, gives the same results. So does one in which a process is switched on that has nothing to do: heat flow in uniform temperature without sources, melting below the solidus, compression heating without expansion, yielding at unreachable strength, infinitely stiff elasticity, anisotropy of factor one, transformations never reached, noise of zero size, surface diffusion of zero, another average of equal viscosities, another law of constant density, tracking of paths.",
 ["configurations", "histories"], "all sets of one or two input switches x 19 changes of description; fields, markers, surface, times of every output",
 "Each pair of switches meets each process somewhere in the code; a wrong index, a forgotten branch or a sum over the wrong materials shows only for particular numbers of materials or combinations, for which no reference solution exists but the other description does.",
 ["MDLIB/Main_DOODZ.c", "MDLIB/RheologyDensity.c", "MDLIB/RheologyParticles.c", "MDLIB/AnisotropyRoutines.c", "MDLIB/ParticleRoutines.c", "MDLIB/ThermalRoutines.c"],
 [("loops over materials, averages by phase fraction", "MDLIB/RheologyDensity.c"), ("director kinematics and anisotropic law", "MDLIB/AnisotropyRoutines.c"), ("transmutation, tracking, noise", "MDLIB/ParticleRoutines.c"), ("EnergyDirectSolve", "MDLIB/ThermalRoutines.c")],
 ["fields, markers, surface, times and time series of every output of both descriptions"],
 "exhaustive enumeration of bounded configurations on the real code, each run in two equivalent descriptions and compared", "exploration",
 "runs whose nonlinear iterations do not converge are not judged; uniform temperature is not judged with deposited sediment or steep surfaces (new rock starts from the temperature of the air)")

prop("P26", "A run that cannot go on says so instead of reporting success",
 "A run reports success only after it has made every step and written every output completely. Whenever it cannot go on - memory is refused at any request, an output file cannot be written or is cut in the middle of a write, the setup file ends anywhere or holds an unsupported value, time step corrections or local iterations run out - it stops with a failure status, and what it had computed until then is unimpaired. A run that does complete despite the fault gives the same results and files as one without it.",
 ["fault_sequences", "inputs", "configurations"], "option sets x every k-th request for memory refused once or from then on x every k-th write of output refused or torn; every byte at which the setup file ends; every switch and material parameter x unsupported values; every number of stagnations x the number allowed; creep laws x temperatures, rates and steps out of range",
 "Scripts that run series of models trust the exit status. No test lets a request or a write fail, and the number of points at which one can fail is in the tens of thousands.",
 ["MDLIB/Main_DOODZ.c", "MDLIB/HDF5Output.c", "MDLIB/MemoryAllocFree.c", "MDLIB/InputOutput.c", "MDLIB/RheologyDensity.c", "MDLIB/AnisotropyRoutines.c", "MDLIB/MiscFunctions.c"],
 [("DoodzCalloc and kin", "MDLIB/MemoryAllocFree.c"), ("CreateOutputHDF5, AddFieldToGroup", "MDLIB/HDF5Output.c"), ("ReadInputFile and its readers", "MDLIB/InputOutput.c"), ("time step correction", "MDLIB/Main_DOODZ.c"), ("LocalIterationViscoElastic", "MDLIB/RheologyDensity.c")],
 ["exit status", "completion of the last step", "fields and markers of every output; contents of every output file read back"],
 "exhaustive enumeration of failing memory requests, failing and torn writes, truncated and invalid setups on the real code (fault injection), differential oracle", "exploration",
 "a death by signal counts as a reported failure; solver libraries are judged only through the outcome; 1-step runs on small grids")
