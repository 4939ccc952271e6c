"""Property texts and what is claimed about them; tools/mkmeta.py writes the
committed properties.jsonl and MANIFEST.json from this."""


def P(id, title, statement, over, text, why, files, mech, note="", reason=None):
    return dict(
        id=id,
        title=title,
        statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
        note=" ".join((COMMON + note).split()),
        reason=reason,
    )


COMMON = """The real functions are executed symbolically and every assertion is
discharged by z3 for all values within the stated bounds; arithmetic is over the
reals (rounding error is outside), transcendental functions are uninterpreted
with sound axioms; a counterexample only counts once it is replayed on the
unmodified package. Trusted: the numpy shim, the explorer, z3. """

PROPS = []
NA = []

PROPS.append(P(
    "C01", "Dependency-tracked quantities never go stale",
    """Reading any dependency-tracked quantity returns exactly what a from-scratch
    recomputation from the current values of the primitive quantities would give,
    after any sequence of reads and of whole, partial, in-place or through-a-view writes,
    including for piped quantities and for values kept in sync in two representations,
    and for references to such arrays and their views that were obtained before the change.
    Assigning a quantity that is computed from others is refused rather than silently accepted. In particular, after any state variable of a simulation (positions, momenta, masses, cell, temperature, pressure, stress,
    bias, time step, thermostat, barostat or mode parameters) is changed, every energy, force, virial, stress, frequency and propagator of its beads, normal modes, cell, ensemble, forces,
    thermostats, barostats and constraints is the current one.""",
    ["histories", "inputs", "configurations"], "all sequences of read and write operations (whole, element, slice, row view, flat or reshaped view, in-place) and all written values",
    "The unit tests of the dependency framework run a handful of fixed sequences; staleness shows only for particular orders of reads, partial writes and view accesses.",
    ["ipi/utils/depend.py", "ipi/engine/beads.py", "ipi/engine/atoms.py", "ipi/engine/cell.py", "ipi/engine/normalmodes.py", "ipi/engine/ensembles.py", "ipi/engine/forces.py", "ipi/engine/thermostats.py", "ipi/engine/barostats.py", "ipi/engine/motion/dynamics.py", "ipi/utils/constrtools.py"],
    [("invalidation and recomputation", "ipi/utils/depend.py depend_base.taint/update_auto/add_dependency"), ("array views and writes", "ipi/utils/depend.py depend_array.__getitem__/__setitem__/reshape"), ("two-way synchronised values", "ipi/utils/depend.py synchronizer"), ("pipes", "ipi/utils/depend.py dpipe"), ("declared dependencies of the engine", "ipi/engine/*.py bind, depend_value and depend_array declarations")],
    "Bounds (engine): 24 kinds of systems of 2-3 atoms and 1-4 beads, one change of one variable after everything has been read. Outside: Suzuki-Chin terms outside Suzuki-Chin dynamics, quantities of contracted beads other than those of positions, multiple time stepping of bias components, a GLE thermostat with another time step. Bounds (framework): one representative graph with two roots, a synchronised pair, computed values and arrays, pipes and views; all histories of up to 3 (quick) or 4 (thorough) operations, chosen symbolically."))

PROPS.append(P(
    "C03", "Normal-mode representation is lossless and physically faithful",
    """For closed and open paths, whichever transform implementation is selected,
    writing positions or momenta in one representation and reading the other is an orthogonal
    transformation whose round trip is the identity. The spring energy equals that of harmonic
    springs between neighbouring beads of each cyclic or open path at the current temperature, the spring force is minus
    its gradient, and the kinetic energy and kinetic stress are those of the current momenta with the mode-resolved dynamical masses.""",
    ["inputs", "configurations"], "all bead positions, momenta, masses and temperatures; all sets of open-path atoms, transform implementations and mass-scaling modes",
    "Tests compare a few stored random paths at fixed bead numbers and never mix open and closed paths with mode-dependent masses.",
    ["ipi/engine/normalmodes.py", "ipi/utils/nmtransform.py"],
    [("transform matrices and FFT transform", "ipi/utils/nmtransform.py mk_nm_matrix, mk_o_nm_matrix, nm_fft, nm_trans"), ("mode-resolved energies", "ipi/engine/normalmodes.py get_kins, get_kstress, get_vspring, get_fspring")],
    "Bounds: 2 atoms, 1-8 beads; all coordinates, momenta, masses and temperature symbolic."))

PROPS.append(P(
    "C04", "Ring-polymer contraction and expansion are consistent",
    """Contracting a path to fewer beads keeps exactly its lowest-frequency modes (so centroids are preserved, and a
    path already described by those modes survives a contraction-expansion round trip), and expanding acts on each
    atom with its own cyclic or open transformation. The forces a contracted component exerts on the full path are minus the gradient of its
    contribution to the energy of the full path.""",
    ["inputs", "configurations"], "all paths, all pairs of bead numbers, all sets of open-path atoms",
    "Tests contract a handful of fixed bead-number pairs and do not contract open paths or compare contracted forces with the energy gradient.",
    ["ipi/utils/nmtransform.py", "ipi/engine/forces.py"],
    [("rescaling between bead numbers", "ipi/utils/nmtransform.py mk_rs_matrix, mk_o_rs_matrix, nm_rescale.b1tob2/b2tob1"), ("aggregation of contracted components", "ipi/engine/forces.py Forces.f_combine/pot_combine/vir_combine")],
    "Bounds: 2 atoms, bead numbers up to 8 as listed in the evidence; component potential uninterpreted or polynomial."))

PROPS.append(P(
    "C05", "Free ring-polymer evolution is the exact flow of the springs",
    """The free evolution of the internal modes over any time step is, for each mode with its own
    mass and frequency, the exact harmonic flow (or its Cayley form, or a reversible velocity-Verlet evolution, when selected): symplectic, time reversible
    and energy conserving for the exact and Cayley forms, and it uses the time step, temperature and masses
    in force at that moment. The dynamical masses give each internal mode the frequency that was asked for: the physical one (rpmd), the target (pa-cmd), the one given for the mode (manual), or (wmax-cmd) one frequency for all modes in a well of frequency wmax with the first free mode at the target.""",
    ["inputs", "histories", "configurations"], "all phase-space points, time steps, temperatures, masses, mass-scaling modes, open or closed paths, and changes of parameters between steps",
    "Regression tests run fixed trajectories with loose tolerances; they cannot tell an approximate or slightly mis-scaled propagator or a stale propagator after a parameter change.",
    ["ipi/engine/normalmodes.py"],
    [("propagator matrices", "ipi/engine/normalmodes.py get_prop_pq, get_o_prop_pq"), ("free step", "ipi/engine/normalmodes.py free_qstep, free_babstep"), ("mode masses", "ipi/engine/normalmodes.py get_nmm, get_o_nmm")],
    "Bounds: 1-2 atoms, 2-5 beads, one or two free steps."))

PROPS.append(P(
    "C06", "A dynamics step is the symmetric multiple-time-step splitting",
    """One step of constant-energy dynamics is exactly the symmetric nested splitting in which each force level acts
    with its own number of substeps, each component weighted by its coefficient at that level, bias
    potentials and Hamiltonian weights act on the outermost level, and positions are moved by the free path
    evolution; a thermostat acts at both ends or in the middle as selected, for one time step in total. Without a thermostat a step followed by
    momentum reversal and another step returns to the starting point, and a change of time step, substeps, masses
    or temperature between steps takes full effect on the next one.""",
    ["inputs", "configurations", "histories"], "all positions, momenta, forces (as arbitrary functions of the configuration), masses, time steps, substep counts per level, splittings",
    "The regression tests compare whole trajectories at a few parameter sets; an odd number of substeps, a third level, bias on multiple levels or a changed time step is not reached.",
    ["ipi/engine/motion/dynamics.py", "ipi/engine/forces.py", "ipi/engine/ensembles.py"],
    [("nested propagation", "ipi/engine/motion/dynamics.py NVEIntegrator.mtsprop_ba/mtsprop_ab, NVTIntegrator.step, SCIntegrator"), ("time steps per level", "ipi/engine/motion/dynamics.py DummyIntegrator.get_qdt/get_pdt/get_tdt"), ("level forces", "ipi/engine/forces.py Forces.mts_forces")],
    "Bounds: 1-2 atoms, 1-3 beads, up to 3 levels and 3 substeps per level; forces uninterpreted functions; one or two steps."))

PROPS.append(P(
    "C07", "Thermostats account for heat and sample the canonical distribution",
    """Whatever noise is drawn, one application of a thermostat changes its heat counter by minus the change of the kinetic energy
    it causes, and the heat given at construction is still there once everything is wired up. Each stochastic thermostat leaves the canonical
    distribution of the momenta it acts on (including the auxiliary ones) stationary at the current temperature and masses, counting only unconstrained degrees of freedom,
    for every time step and friction.""",
    ["inputs", "configurations"], "all momenta, masses, temperatures, time steps, friction parameters and noise values; every kind of thermostat, alone or combined",
    "Canonical sampling and exact heat accounting are statements about all noise values; tests run short seeded trajectories.",
    ["ipi/engine/thermostats.py"],
    [("white-noise, global, normal-mode and generalized Langevin thermostats", "ipi/engine/thermostats.py ThermoLangevin, ThermoSVR, ThermoPILE_L, ThermoPILE_G, ThermoGLE, ThermoNMGLE, ThermoNMGLEG, ThermoCL, ThermoFFL, MultiThermo")],
    "Bounds: 1-2 atoms, 1-4 beads; noise values, momenta, masses, temperature, time step symbolic."))

PROPS.append(P(
    "C10", "Total forces are the weighted sum of the components",
    """The potential, forces, virial and extras seen by the rest of the code are the weighted sum over the force components of
    what their providers return for the current (contracted) replicas, per replica and per level; each replica of each component is evaluated
    exactly once per configuration and components with zero weight are not evaluated at all. This stays true after any sequence of reads, moves of atoms or cell,
    changes of weights, queueing, and hand-over of results between two sets of forces (as done by accepted or rejected trial moves).""",
    ["inputs", "histories", "configurations"], "all positions, cells, weights, level coefficients and provider results; all short histories of changes and reads; contracted and open paths",
    "Tests have one or two components with unit weights; changes of weights, several levels with contraction, raw extras and swapped force objects are not exercised together.",
    ["ipi/engine/forces.py"],
    [("evaluation of a replica", "ipi/engine/forces.py ForceBead, ForceComponent"), ("weighted sums", "ipi/engine/forces.py Forces.f_combine, pot_combine, vir_combine, extra_combine, mts_forces"), ("hand-over", "ipi/engine/forces.py Forces.transfer_forces, dump_state, load_state")],
    "Bounds: 2 atoms, 1-4 beads, 1-3 components; histories of up to 3 changes interleaved with reads."))

PROPS.append(P(
    "C11", "Suzuki-Chin high-order terms are consistent and current",
    """The fourth-order correction to the potential is the square-force term of the factorization for the current alternation parameter, temperature
    and masses; its force contribution is the (finite-difference) directional derivative of that term, the total corrected potential, force and virial are the sums of
    their parts, and none of them is stale after a change of positions, cell, temperature or factorization parameter.""",
    ["inputs", "histories"], "all positions, masses, temperatures, factorization parameters, provider forces (arbitrary functions), and changes between reads",
    "Regression trajectories with one parameter set cannot tell a stale or wrongly weighted contribution on some replicas.",
    ["ipi/engine/forces.py"],
    [("fourth-order terms", "ipi/engine/forces.py Forces.get_potssc, get_coeffsc_part_1, get_coeffsc_part_2, get_fsc_part_1, get_fsc_part_2, get_virssc, get_vir_sc")],
    "Bounds: 1-2 atoms, 2-4 beads (even); components without contraction; histories of up to 2 changes."))

PROPS.append(P(
    "C08", "Constant-pressure dynamics follows the enthalpy and conserves its energy",
    """In constant-pressure and constant-stress dynamics the piston (scalar or matrix) is driven by exactly minus the strain derivative of the
    extended potential (potential, bias, pressure or strain energy and volume-measure term) plus the centroid kinetic stress, kicks and cell moves are
    time reversible, a cell move scales the cell, the centroids and their momenta by the exact flow of the current cell velocity and leaves internal
    modes alone, and the barostat energy entering the conserved quantity is always that of the current state and parameters. Cell components declared fixed, and the
    volume when constrained, never change, whatever noise the cell thermostat injects and whichever splitting is used; constraint forces do no work.""",
    ["inputs", "configurations", "histories"], "all cells, positions, momenta, masses, pressures or stresses, piston masses and momenta, time steps; all barostat kinds, force levels, biases, fixed-component sets and splittings",
    "Stored regression trajectories cover the isotropic barostat and one fully masked flexible cell with an ideal gas; energy conservation, reversibility and constraints hold or fail for particular cell shapes, masks, levels and biases.",
    ["ipi/engine/barostats.py", "ipi/engine/motion/dynamics.py"],
    [("piston kick", "ipi/engine/barostats.py BaroBZP.pstep, BaroSCBZP.pstep/pscstep, BaroRGB.pstep, BaroMTK.pstep, Barostat.stress_mts"), ("cell and centroid move", "ipi/engine/barostats.py qcstep"), ("conserved quantity", "ipi/engine/barostats.py get_ebaro, get_pot, get_cell_jacobian"), ("constant-pressure integrators", "ipi/engine/motion/dynamics.py NPTIntegrator, NSTIntegrator, SCNPTIntegrator")],
    "Bounds: 2 atoms, 1-3 beads, 1-2 levels; symmetric external stress; matrix cell velocities from a fixed list (including defective ones). One recorded finding: work of constraint forces is booked as heat."))

PROPS.append(P(
    "C09", "Constrained atoms, centre of mass and centroids stay constrained",
    """In constant-volume dynamics, degrees of freedom declared fixed never move (for any number of replicas) and carry no momentum after a step; with a fixed centre of
    mass the total momentum is zero after every step and the centre of mass does not move; the centroids of constrained-centroid dynamics do not move. This holds for every
    ensemble, splitting, number of substeps, propagator and thermostat noise. Free atoms move as if the fixed ones were part of an external potential, and the kinetic
    energy a momentum constraint removes is booked in the conserved quantity.""",
    ["inputs", "configurations"], "all positions, momenta, masses, forces and thermostat noise; all ensembles, splittings, multiple-time-step settings and sets of fixed degrees of freedom",
    "Regression runs fix whole atoms of collapsed paths with one integrator; a constraint that is only violated between force levels, at the end of a step or for spread-out beads is not seen.",
    ["ipi/engine/motion/dynamics.py"],
    [("momentum constraints", "ipi/engine/motion/dynamics.py DummyIntegrator.pconstraints"), ("integrators", "ipi/engine/motion/dynamics.py NVEIntegrator, NVTIntegrator, NVTCCIntegrator, SCIntegrator")],
    "Bounds: 2 atoms, 1-3 beads, 1-2 levels, 2 steps. Constant-pressure runs (which scale positions with the cell) and the rigid-bond module (which cannot be instantiated at this commit) are outside."))

PROPS.append(P(
    "C12", "Cell geometry and periodic images",
    """The inverse cell and the volume are always those of the current cell matrix; wrapping a position, or taking the separation of two particles, moves it by
    a lattice vector into the central cell; the lengths and angles reported for a cell are those of its lattice vectors and rebuild the same cell; sums of signed quantities kept as
    logarithms, the factorization of covariance matrices, random rotations and rotation quadratures are exact.""",
    ["inputs"], "all (triangular or general) cells, positions, symmetric positive matrices, signed magnitudes and random numbers",
    "Tests use a few random cells; errors show for particular combinations of shears, signs or degenerate magnitudes.",
    ["ipi/engine/cell.py", "ipi/utils/mathtools.py"],
    [("cell", "ipi/engine/cell.py Cell, GenericCell"), ("cell parameters, inverses, logarithmic sums, rotations", "ipi/utils/mathtools.py h2abc, genh2abc, abc2h, invert_ut3x3, det_ut3x3, logsumlog, stab_cholesky, quat2rot, random_rotation, get_rotation_quadrature_legendre")],
    "Bounds: cells with diagonal in [1,4] and shears in [-3/8,3/8]; 1-3 particles; matrices up to 3x3. Eigenvalue-based and unused helpers (exp_ut3x3, eigensystem_ut3x3) are outside."))

PROPS.append(P(
    "C13", "Trajectory files read back as written",
    """Any trajectory i-PI writes (xyz, json, PDB, and the bead-path variants) reads back with the same number of frames, atoms, labels, cell and, in the units recorded in
    the file, the same values, for every kind of quantity and every unit of its dimension; every cell convention of the comment line (CELL{H}, CELL{GENH}, CELL{abcABC}) gives the
    same positions and cell up to the rotation that makes the cell triangular; a file cut inside a frame is reported and never yields a frame with invented or
    missing atoms; an output file opened again with backup keeps the old contents under a name not used before.""",
    ["inputs", "crash_points"], "all coordinates, cells and number of atoms and frames; all trajectory kinds and units; files cut after any record; any number of earlier backups",
    "Tests read a few files in angstrom; columns overflow, units with compound names, cells in other orientations and truncated frames are not sampled.",
    ["ipi/utils/io"],
    [("writers and readers", "ipi/utils/io/__init__.py, ipi/utils/io/backends/io_xyz.py, io_pdb.py, io_json.py, io_binary.py"), ("units", "ipi/utils/io/io_units.py"), ("backups", "ipi/utils/io/__init__.py open_backup")],
    "Bounds: 1-3 atoms, 1-3 frames, 1-3 beads. The ASE reader and writer are outside (ASE is not available to the symbolic interpreter). One recorded finding: binary trajectories with several frames."))

PROPS.append(P(
    "C14", "Input values, units and defaults",
    """A value or array given in any unit of its dimension is delivered in internal units, is written back so that it parses to the same value, and values stored from
    a running simulation are never rescaled by units given earlier; integers, booleans, strings, tuples, dictionaries and arrays survive writing and parsing; an XML document and
    its JSON form, and a document written again, have the same content; two inputs never share a mutable default; unknown tags, attributes, options, units, missing mandatory values and
    malformed numbers are rejected, never silently ignored.""",
    ["inputs", "histories"], "all values, units and array shapes; all orders of parsing and storing; all documents of the bounded form",
    "Unit tests parse a few literals; a unit that lingers after a store, or a default shared by two systems, shows up only for particular histories.",
    ["ipi/utils/inputvalue.py", "ipi/utils/io/inputs"],
    [("values", "ipi/utils/inputvalue.py InputValue, InputArray, InputDictionary"), ("parsers", "ipi/utils/io/inputs/io_xml.py, io_json.py")],
    "Bounds: arrays up to 12 elements and 3 dimensions; one store or parse before the value under test."))

PROPS.append(P(
    "C15", "A restarted simulation continues as if it had not stopped",
    """A simulation rebuilt from its own checkpoint has the same state (positions, momenta, masses, labels, cell, thermostat and barostat variables and heat, ensemble
    parameters, elapsed time, step counter, random generators) and every option the user had set, and its next step, given the same forces and random numbers, is the step the uninterrupted
    simulation would have taken, including the conserved quantity. This holds for every ensemble, thermostat and barostat, for composite motions, and for every option of
    optimizers, path and phonon methods, force fields, outputs, replica exchange and the simulation itself. The checkpoint is always a valid input file.""",
    ["inputs", "crash_points", "configurations"], "all states, parameters, forces and random numbers; every option one at a time; checkpoint before or after a step",
    "The regression suite restarts no simulation; a quantity missing from the checkpoint only shows in a continued run that uses a non-default option.",
    ["ipi/inputs", "ipi/engine/simulation.py", "ipi/utils/prng.py"],
    [("checkpoint contents", "ipi/inputs/simulation.py, ipi/inputs/system.py, ipi/inputs/motion/*.py, ipi/inputs/thermostats.py, ipi/inputs/barostats.py, ipi/inputs/forcefields.py, ipi/inputs/outputs.py"), ("restart", "ipi/engine/simulation.py Simulation.load_from_xml")],
    "Bounds: 1-2 atoms, 1-3 beads, one restart; values carried exactly (formatting precision is a tolerance); the exponential of matrix cell velocities is replaced by a constant matrix. Outside: options a method does not use, self-consistent-phonon sampling sequences, planetary and string motions (which do not start at this commit), PLUMED, Yaff, sGDML and MPI force fields, and whether writing the checkpoint file is atomic."))

PROPS.append(P(
    "C17", "The socket protocol survives any fragmentation of the byte stream",
    """Whatever the sizes of the pieces in which the operating system delivers the bytes (a header or payload cut at any place, one byte at a time, with pauses shorter than the time out),
    i-PI and the bundled Python driver exchange exactly the structures that were sent and exactly the energies, forces, virials and extra strings that were computed, for single, batched and
    shared-memory exchanges, any number of atoms and any text in the extra string. Forces of a subset of active atoms reach those atoms, the initialisation string is delivered in full, and a driver ends by itself
    when i-PI says so or goes away.""",
    ["inputs", "schedules", "fault_sequences"], "any cut of the byte stream, positions, cells, energies, forces, virials; several extra strings including multi-byte text",
    "Tests run over a local socket, where messages arrive in one piece; a header split in two or a multi-byte extra string needs a congested network or an unusual driver.",
    ["ipi/interfaces/sockets.py", "drivers/py/driver.py"],
    [("i-PI side of the exchange", "ipi/interfaces/sockets.py Driver, Driver.get_status, Driver.recvall, Driver.getforce, Driver.send_data"), ("driver side", "drivers/py/driver.py run_driver")],
    "Bounds: 1-2 atoms, batches of up to 2, one cut anywhere or byte-by-byte delivery. Outside: pauses longer than the time out (those are a lost client, see C18), the Fortran driver, corrupted data."))

PROPS.append(P(
    "C18", "Every force request is answered once, whatever the clients do",
    """Each request handed to the socket interface is evaluated by some client and answered exactly once with the result computed for its own structure, with the energy offset subtracted once, however many clients there are,
    in whichever order they connect and reply, and in every matching mode. If a client disconnects, resets the connection, sends half a message or stops answering for longer than the time out, at any point of the exchange,
    its requests are given to another client (now or when one connects) and nothing already answered is disturbed; a client never works on two jobs, a request is never given to two clients, status goes queued, running, done and done is final.
    Remaining clients are told to exit when i-PI closes.""",
    ["inputs", "schedules", "fault_sequences", "histories"], "any latency order, client count, failure point and kind; all structures and results",
    "Losing a client at a particular byte of the protocol and then recovering cannot be provoked deterministically in a test; the suite has no faulty clients.",
    ["ipi/interfaces/sockets.py"],
    [("dispatch and recovery", "ipi/interfaces/sockets.py InterfaceSocket.poll, pool_update, pool_distribute, check_job_finished, dispatch_free_client"), ("threaded dispatch", "ipi/interfaces/sockets.py Driver.run, Driver.dispatch")],
    "Bounds: up to 3 clients, 4 requests in two rounds, one failing client per run, virtual clock. Outside: a client that stalls exactly while its status is polled with no time out, replies with wrong sizes, several failures at once."))

PROPS.append(P(
    "C19", "Force providers return each structure's own final result under any schedule",
    """For threaded, direct, batched, MPI, committee and rotated forcefields, and for any interleaving of the threads that request, evaluate and read forces: each replica gets the energy, force, virial and extras of its own structure
    (wrapped into the cell if asked, the replica itself unchanged), with the offset subtracted exactly once; a result is complete and final when the request is marked as done, and stays done; each structure is evaluated once, unchanged structures are not evaluated again;
    answered requests leave the queue; incomplete batches of a threaded provider are eventually run; nothing waits forever. Extra strings of any kind are exposed and never fatal. MPI driver ranks are shared out by name, serve only the forcefield they were launched for,
    in groups of any size, and are all sent home at the end.""",
    ["inputs", "schedules", "histories"], "all positions, offsets and results; every placement of one (thorough: two) forced thread switches; MPI reply delays and rank layouts",
    "Races between the polling and the requesting thread have windows of microseconds; MPI forcefields cannot be launched in the unit tests without an MPI runtime.",
    ["ipi/engine/forcefields.py", "ipi/engine/forces.py", "ipi/interfaces/mpi.py", "ipi/interfaces/utils.py", "drivers/py/driver.py"],
    [("request life cycle", "ipi/engine/forcefields.py ForceField.queue, poll, release, FFEval, FFDirect, FFMPI, FFCommittee.poll, FFRotations.poll"), ("waiting for results", "ipi/engine/forces.py ForceBead.queue, get_all"), ("MPI exchange", "ipi/interfaces/mpi.py InterfaceMPI, MPIWorldManager; drivers/py/driver.py run_driver_mpi"), ("extra strings", "ipi/interfaces/utils.py parse_extra")],
    "Bounds: 2-3 replicas of one atom, two rounds, one preemption (two in the thorough tier) at locks, status changes, events and thread starts; up to 3 driver ranks. Outside: preemption inside numerical statements, structures of different size in one batch, non-threaded batches that are never filled (documented to hang)."))

PROPS.append(P(
    "C22", "Forces and virials of built-in potentials are gradients of their energy",
    """For every built-in potential that i-PI can evaluate by itself (harmonic, gas, double well with and without friction or explicit bath, coupled double wells, Morse, confining spherical Lennard-Jones, Lennard-Jones,
    Debye crystal, driven pair potential, cavity photons), the force is minus the derivative of the returned energy and the virial, where defined, its strain derivative; the energy is extensive over atoms; parameters and units act as documented, by position or by
    keyword, and defaults are the documented ones; a batch of structures gives the results of the single structures.""",
    ["inputs", "configurations"], "all positions and (most) parameters within the stated ranges",
    "Gradient consistency has to hold at every configuration; the tests only compare stored numbers at a few points, or do not touch these potentials at all.",
    ["ipi/pes", "ipi/engine/forcefields.py"],
    [("Python potentials", "ipi/pes/*.py compute_structure"), ("built-in forcefields", "ipi/engine/forcefields.py FFLennardJones, FFDebye, FFdmd, PhotonDriver")],
    "Bounds: 1-4 atoms; some bath, friction and phase parameters fixed. Outside: potentials that need external packages (machine-learning models, ASE, xtb, PLUMED), the spline surface of the friction double well."))

PROPS.append(P(
    "C26", "Composite forcefields combine their members as documented",
    """A committee returns the mean energy, force and virial of its members, their values rescaled about the mean, the standard deviation of the rescaled energies as uncertainty, and the extras of all members; members packed as JSON (nested or flattened) count
    individually; with a baseline the result is the baseline plus the mean correction damped by its uncertainty, and force and virial are the exact derivatives of that energy. Structures are saved for active learning exactly when the uncertainty exceeds the
    threshold. A rotational average turns forces and virials back to the laboratory frame and averages them with the quadrature weights, for grids, inversion and random rotations, so that an invariant potential is unaffected; grids are proper rotations
    that integrate low-order functions exactly. The offset is subtracted once and the positions and cell are left alone.""",
    ["inputs", "configurations"], "all member energies, forces, virials, scaling factors, baseline uncertainties, weights, rotations about an axis (thorough: all)",
    "Members of a committee in the examples are equal or the result is averaged, so a wrong weight, lost member or missing term of the gradient leaves stored results unchanged.",
    ["ipi/engine/forcefields.py", "ipi/utils/mathtools.py"],
    [("committee", "ipi/engine/forcefields.py FFCommittee.gather"), ("rotations", "ipi/engine/forcefields.py FFRotations.queue, gather; ipi/utils/mathtools.py random_rotation, get_rotation_quadrature_*"), ("cavity", "ipi/engine/forcefields.py FFCavPhSocket.queue")],
    "Bounds: up to 4 members, 1-2 atoms, grids of up to order 5. Known finding: the weights of a committee are accepted and ignored."))

PROPS.append(P(
    "C20", "Replica exchange samples the joint ensemble and keeps its books",
    """An exchange between two systems is attempted with probability 1/stride and accepted exactly with the ratio of the joint probabilities of the two configurations in the exchanged and the original ensembles (potential, bias, Hamiltonian weights, springs, volume and
    piston terms). When accepted, temperature, pressure, stress, bias and Hamiltonian weights change places, the momenta of particles, piston and GLE thermostats (also nested in multiple thermostats or motions) are rescaled so that they stay distributed for the new temperature,
    positions and cells stay; when rejected everything is exactly as before. The conserved quantity of each system never jumps; the replica index is always the permutation relating systems and ensembles, and is written once per step with exchanges.""",
    ["inputs", "histories"], "all temperatures, pressures, weights, potentials, momenta and random numbers; sequences of attempts among up to three systems",
    "Acceptance is a matter of probability: a wrong ratio or a momentum left unscaled still gives plausible runs, and no test runs an exchange.",
    ["ipi/engine/smotion/remd.py", "ipi/engine/ensembles.py", "ipi/engine/motion/dynamics.py"],
    [("exchange", "ipi/engine/smotion/remd.py ReplicaExchange.step, gle_scale"), ("ensembles", "ipi/engine/ensembles.py ensemble_swap, Ensemble.get_lpens, get_econs")],
    "Bounds: 2-3 systems, one atom, 1-2 beads; constant volume, isotropic pressure and stress. Cells, some positions and, with more than one bead or a barostat, the temperatures are fixed numbers."))

PROPS.append(P(
    "C24", "Isotope exchange and atom swap moves obey detailed balance",
    """Each attempted Monte Carlo move picks two atoms of different listed species and is accepted exactly with the Boltzmann factor, at the ring-polymer temperature, of the complete change in energy: spring energy for isotope exchange, potential and spring energy for atom swaps.
    An accepted isotope exchange swaps name and mass and rescales the momenta so that the kinetic energy is kept, positions stay; an accepted atom swap exchanges the positions of all beads, everything else stays, and forces and potential are those of the new positions.
    Rejected attempts change nothing, several attempts in a step build on each other, and the conserved quantity is continuous throughout.""",
    ["inputs", "histories"], "all random numbers and picked pairs, potentials, temperatures, masses",
    "An acceptance rule that misses a term still accepts and rejects; the regression tests only compare one stored random sequence.",
    ["ipi/engine/motion/alchemy.py", "ipi/engine/motion/atomswap.py", "ipi/engine/forces.py"],
    [("isotope exchange", "ipi/engine/motion/alchemy.py AlchemyMC.step"), ("atom swap", "ipi/engine/motion/atomswap.py AtomSwap.step"), ("transfer of forces", "ipi/engine/forces.py Forces.transfer_forces, clone")],
    "Bounds: 3 atoms, up to 3 beads, up to two attempts. Outside: bias potentials, open paths, lists with a single species."))

PROPS.append(P(
    "C16", "Steps, outputs and restart files are consistent however a run ends",
    """A run makes exactly the steps up to the requested number, each once and in order for every system, joint moves after all systems. Each property, trajectory and checkpoint output is written at the start and at every multiple of its stride, never twice, in order, labelled with
    its step, to the file of its system and bead, and is on disk after the requested number of writes; checkpoints are numbered through. However a run ends (last step, EXIT file, wall clock, finished motion, soft exit requested by another thread before, during or after the step
    of any system, or while writing), a restart file is left that is never taken in the middle of a step and whose step number is the number of steps its state has made; continuing from it writes exactly what the uninterrupted run would have (a stop while writing may
    repeat the outputs of that one step). Running in pieces from a script is running in one go. Files of earlier runs are never overwritten.""",
    ["crash_points", "histories", "configurations"], "any output strides, stop of any kind at any step and stage, followed by a restart",
    "The tests run to completion; the interplay of step counter, saved state and appended files only shows when a run is interrupted at a particular moment and continued.",
    ["ipi/engine/simulation.py", "ipi/engine/outputs.py", "ipi/utils/softexit.py", "ipi/scripting/interactive.py", "ipi/utils/io/__init__.py"],
    [("run loop", "ipi/engine/simulation.py Simulation.run, run_step, softexit, bind"), ("outputs", "ipi/engine/outputs.py BaseOutput.active, PropertyOutput.write, TrajectoryOutput.write, CheckpointOutput.write; ipi/utils/io/__init__.py open_backup"), ("scripts", "ipi/scripting/interactive.py InteractiveSimulation.run")],
    "Bounds: up to 2 systems and 5 steps, strides up to 7, one stop. Stand-ins: motions (which count their steps), the content of checkpoints (C15), the clock, the thread pool. Outside: death of the process while a file is being written."))

PROPS.append(P(
    "C29", "Printed properties and trajectories are the documented estimators",
    """Every property and trajectory that can be printed is the documented function of the current state of the system: kinetic energies and temperatures of atoms, species, beads and normal modes add up to the total and account for constraints; potentials, forces and virials of force components are averaged over their own beads, weighted or raw, and add up to the total;
    quantum kinetic energies and tensors, stresses and pressures (a third of the trace of kinetic plus virial stress), radii of gyration, vectors of atoms, centroids and the centre of mass, isotope, displaced-path, scaled-coordinate and Suzuki-Chin estimators follow their definitions, evaluated with the current positions and cell.
    The value carries the dimension it is converted with, selections of atoms by index or label and positional or keyword arguments are equivalent, and selections that do not exist are refused.
    Asking for one quantity changes neither the state of the simulation nor the value of any other quantity. Files hold these values in the units asked for: properties in the columns the header announces, trajectories and numerical extras of each bead in the bead's own file.""",
    ["inputs", "histories", "configurations"], "all positions, momenta, potentials, forces, virials, cells and temperatures; selections; order of evaluation",
    "Output is what users analyse, and nothing else in the code depends on it; the regression tests only compare a few columns of stored runs.",
    ["ipi/engine/properties.py", "ipi/engine/outputs.py", "ipi/engine/forces.py", "ipi/engine/normalmodes.py", "ipi/engine/beads.py"],
    [("estimators", "ipi/engine/properties.py Properties"), ("trajectories", "ipi/engine/properties.py Trajectories"), ("arguments", "ipi/engine/properties.py getkey, getall"), ("files", "ipi/engine/outputs.py PropertyOutput, TrajectoryOutput"), ("component potentials", "ipi/engine/forces.py Forces.pots_component, virs_component, forces_component")],
    "Bounds: 2-3 atoms of 2 species, up to 4 beads, one or two symbolic coordinates per run. Outside: electric fields and dipoles, exchange estimators (C21), the automatic step of the finite-difference estimators."))

PROPS.append(P(
    "C21", "Bosonic exchange follows the sum over permutation cycles",
    """For particles declared indistinguishable, the ring-polymer spring energy is the effective potential of the recurrence over exchange cycles, the spring forces on every bead are minus its gradient, the probabilities of no exchange and of the longest cycle and the fermionic sign are the corresponding ratios of weights, and the primitive kinetic energy is the temperature derivative of the weight.
    Distinguishable particles keep their own springs and the totals add up; a single boson is a distinguishable particle. All of it follows changes of positions, temperature and mass.
    The Cartesian propagator of the free ring polymer makes the requested number of reversible velocity Verlet steps. Bosons of different mass, propagators that ignore exchange and estimators for part of the bosons are refused.""",
    ["inputs", "histories"], "all positions, temperatures and masses within the bounds",
    "Tests compare with a brute-force sum at a few random geometries; a wrong weight in one of the branches of the recurrence biases the statistics silently.",
    ["ipi/utils/exchange.py", "ipi/engine/normalmodes.py", "ipi/engine/properties.py"],
    [("exchange potential", "ipi/utils/exchange.py ExchangePotential"), ("spring energy and forces", "ipi/engine/normalmodes.py get_vspring_and_fspring"), ("propagator", "ipi/engine/normalmodes.py free_babstep, free_qstep"), ("estimators", "ipi/engine/properties.py get_kintd, get_kincv")],
    "Bounds: up to 3 bosons (4 in the thorough tier), 2-3 beads, one or two symbolic coordinates at a time. Outside: a single bead, the Cartesian propagator with bosons (its forces are covered)."))

PROPS.append(P(
    "C25", "Geometry optimization goes downhill, keeps fixed atoms and stops correctly",
    """Whatever energies and forces the search meets, a steepest-descent or conjugate-gradient step never ends at a higher energy than it started from, also when the line search runs out of iterations, and a step of BFGS, L-BFGS or trust-radius BFGS that is accepted by its line search lowers the energy.
    After every step of every optimizer the positions, the energy and the forces of the system are those of the accepted point, atoms declared fixed have not moved, and no step exceeds the largest step of the trust-radius and damped methods.
    Search directions are those of the method in the coordinates that can move: the force, the Polak-Ribiere conjugate direction, minus the (limited-memory) inverse Hessian times the gradient; a direction that points uphill is replaced by a downhill one; Hessian updates are symmetric and reproduce the last change of gradient (secant condition).
    The optimization is declared converged exactly when the energy change per atom, the largest force on a free coordinate and the largest displacement are all within tolerance, and nothing moves afterwards.""",
    ["inputs", "histories"], "all energies and forces met along the search, starting forces, tolerances, displacement and gradient histories, fixed atoms",
    "The search branches on the values it meets; stored optimizations sample a single smooth path through it and converge even with a wrong direction or slope.",
    ["ipi/engine/motion/geop.py", "ipi/utils/mintools.py"],
    [("line searches", "ipi/utils/mintools.py bracket, min_brent, min_approx"), ("quasi-Newton", "ipi/utils/mintools.py BFGS, BFGSTRM, TRM_UPDATE, min_trm, L_BFGS, Damped_BFGS, Powell"), ("mappers and optimizers", "ipi/engine/motion/geop.py LineMapper, GradientMapper, *Optimizer, GeopMotion")],
    "Bounds: 1-2 atoms, 1-2 beads, one or two steps from fixed starting points, up to 4 further evaluations per step, one or two arbitrary force components. Outside: fixed atoms with several beads in the (L-)BFGS and trust-radius optimizers, backtracking below the step tolerance, NEB and instanton optimizers."))

PROPS.append(P(
    "C28", "Initialization puts the requested values where they were asked for",
    """Positions, momenta, velocities, masses, labels and cell given by hand or read from a file end up, converted from their units, on exactly the atoms and beads they were asked for; everything else keeps its value.
    A path with another number of beads is resized keeping its centroid (a single frame goes on every bead), and momenta are rescaled by the square root of the ratio of the numbers of beads so that they keep their temperature; momenta given for one bead are taken as they are.
    Changing the masses afterwards keeps the kinetic energy of every degree of freedom. Thermal momenta are independent normal deviates per atom and normal mode with the variance mass x temperature x number of beads, using the mass of the mode, the system's temperature or the given one. The momenta of a GLE thermostat are those given.
    Requests that cannot be fulfilled (wrong size, missing masses or beads, other number of atoms) are refused.""",
    ["inputs", "configurations"], "all values, masses, temperatures and random deviates; numbers of beads in file and simulation; atom and bead selections",
    "A wrong factor in an initial condition equilibrates away in most tests or is compared with output produced by the same code.",
    ["ipi/engine/initializer.py", "ipi/utils/nmtransform.py", "ipi/engine/beads.py"],
    [("initializer", "ipi/engine/initializer.py Initializer.init_stage1, init_stage2, set_vector, init_beads, init_vector"), ("resizing", "ipi/utils/nmtransform.py nm_rescale")],
    "Bounds: 2 atoms, 1-4 beads, 1-4 frames, one unit per dimension. File parsing is replaced by arbitrary frames (C13 covers the readers). Outside: thermal momenta with open paths, checkpoint files (C03)."))

PROPS.append(P(
    "C23", "Numbers with units mean the physical quantity they say",
    """For every dimension, unit and metric prefix, a number given with units becomes the same physical quantity in atomic units and converting back returns the number; an input field with units gives the internal value and keeps it when it is written and read again.
    Units that do not exist or belong to another dimension are refused, and element symbols have their atomic mass.""",
    ["inputs", "configurations"], "all numbers; every dimension and unit of the tables",
    "Conversion factors are data: a wrong digit or exponent changes every result consistently, and round trips cannot see it.",
    ["ipi/utils/units.py", "ipi/utils/inputvalue.py"],
    [("tables", "ipi/utils/units.py UnitMap, UnitPrefix, Elements"), ("conversion", "ipi/utils/units.py unit_to_internal, unit_to_user"), ("fields", "ipi/utils/inputvalue.py InputValue, InputArray")],
    "Factors are compared with CODATA 2018 within 2e-6 (calorie 1e-3). Outside: the masses of the rarer elements, units declared by 'ase' or command-line tools."))

PROPS.append(P(
    "C30", "Driven dynamics follows the electric field and the Born charges",
    """A step of driven dynamics (eda-nve, eda-nvt) is a half kick by the field at the current time, the step that would be made without field, and a half kick by the field at the end of the step, for any number of beads, force levels, splittings and constraints. The field is the plane wave with the given amplitude, frequency and phase times the gaussian envelope;
    the kick of each bead is its own Born charges, of its current positions or fixed, times the field. Born charges, dipoles (of each bead, as numbers or text, with units), field and field forces that are printed are those of the current structure and time.
    Born charges that are missing, have the wrong size or violate charge conservation are refused.""",
    ["inputs", "configurations"], "all fields, times, Born charges as functions of the structure, forces, positions, momenta and time steps",
    "One regression run follows one short trajectory with a fixed pulse, one bead and one force level.",
    ["ipi/engine/motion/driven_dynamics.py", "ipi/engine/properties.py"],
    [("integrators", "ipi/engine/motion/driven_dynamics.py EDAIntegrator, EDANVEIntegrator, EDANVTIntegrator"), ("Born charges", "ipi/engine/motion/driven_dynamics.py BEC"), ("dipole", "ipi/engine/motion/driven_dynamics.py ElectricDipole"), ("field", "ipi/engine/motion/driven_dynamics.py ElectricField"), ("output", "ipi/engine/properties.py get_Efield, get_dipole, _get_bec")],
    "Bounds: 1-3 atoms, 1-3 beads, one step. Outside: the sign of the printed interaction energy, the exact tolerance of charge conservation."))

PROPS.append(P(
    "C31", "Phonons are the finite-difference dynamical matrix",
    """A phonon calculation writes the dynamical matrix made of the symmetrized central differences of the forces at the given displacement, divided by the square roots of both masses, shifted as asked; the Hessian is the same matrix without the masses, the matrix that is diagonalized is the one that is written,
    and fixed degrees of freedom are left out. Finite differences along the normal modes of an approximate matrix give the true matrix of a harmonic force field whatever the approximation was. The acoustic sum rules remove the translations and, for molecules, all the rotations, and change nothing else.
    The system is not moved, each step computes one row and keeps the others, a continued calculation gives the same matrix, and what cannot be computed (more than one bead, a matrix of the wrong size, normal modes without a matrix) is refused.""",
    ["inputs", "configurations"], "all forces, displacements, shifts, force constants and dynamical matrices",
    "The regression test compares one calculation in one mode with a reference; it has no symmetric tops, shifts, refinements or fixed atoms.",
    ["ipi/engine/motion/phonons.py", "ipi/utils/phonontools.py", "ipi/utils/hesstools.py"],
    [("finite differences", "ipi/engine/motion/phonons.py FDPhononCalculator"), ("normal modes", "ipi/engine/motion/phonons.py NMFDPhononCalculator, ENMFDPhononCalculator"), ("output and sum rules", "ipi/engine/motion/phonons.py DynMatrixMover.apply_asr, printall"), ("sum rules", "ipi/utils/phonontools.py apply_asr"), ("Hessian", "ipi/utils/hesstools.py clean_hessian")],
    "Bounds: 1-3 atoms, given geometries for the sum rules. Outside: the sum rule 'lin' (accepted but not implemented), entries of the full Hessian between fixed and free atoms, the diagonalization itself (numpy)."))

PROPS.append(P(
    "C32", "Ramps, chains of motions and replays follow their schedule",
    """A temperature or pressure ramp sets the target at step k to the linear or geometric interpolation between its end points, reaches the final value after the given number of steps, stays there, continues where it was after a restart and changes nothing else.
    A chain of motions makes one step of each member in order, advances the time by the sum of their steps, stops as soon as a member ends the run and for the reason it gave, and has the constraints (centre of mass, fixed atoms) that all its members have, as given and as read from a restart file.
    A replayed trajectory shows at step k frame k of each bead and the cell of the frame, from one file or one per bead in the order of the beads, with the units in the file or, if it says none, in the input, wherever the run starts, and ends the run with its last frame; a checkpoint is replayed as one frame.""",
    ["inputs", "histories", "configurations"], "all end points, steps, coordinates, cells, starting points, and points at which a member finishes",
    "The regression tests run one ramp inside one chain and one replay with a fixed file.",
    ["ipi/engine/motion/ramp.py", "ipi/engine/motion/multi.py", "ipi/engine/motion/replay.py", "ipi/inputs/motion/motion.py"],
    [("ramps", "ipi/engine/motion/ramp.py TemperatureRamp.step, PressureRamp.step"), ("chains", "ipi/engine/motion/multi.py MultiMotion"), ("replays", "ipi/engine/motion/replay.py Replay"), ("input", "ipi/inputs/motion/motion.py InputMotionBase, InputMotion")],
    "Bounds: ramps of up to 5 steps, chains of up to 3 members, 3 frames. Outside: trajectories in ASE formats, frames that end in the middle."))

PROPS.append(P(
    "C33", "A nudged elastic band relaxes under the band forces",
    """In a nudged elastic band calculation the optimizer minimizes with the forces of the method: for each inner image the physical force perpendicular to the band plus the difference of the distances to both neighbours times the spring constant along the tangent (plain, or the improved one of Henkelman and Jonsson), for free atoms only.
    End images and fixed atoms do not move. When, and only when, energy, force and position criteria are all met the band is converged; then, if asked for, the image with the highest energy climbs alone, under the physical force with its component along the band inverted, and an end image never climbs.
    After each step the energies and forces of the system are the physical ones of the current images. A Hessian of the right size is kept, others are refused.""",
    ["inputs", "histories", "configurations"], "all energies and forces as functions of the structure, spring constants, and energy orders of the images",
    "The regression test follows one band on one surface; it does not look at the forces of the images, at fixed atoms or at which image climbs.",
    ["ipi/engine/motion/neb.py"],
    [("band forces", "ipi/engine/motion/neb.py NEBGradientMapper"), ("climbing", "ipi/engine/motion/neb.py NEBClimbGrMapper, NEBMover.init_climb"), ("steps", "ipi/engine/motion/neb.py NEBMover.step, NEBMover.bind")],
    "Bounds: 3-4 images, 1-2 atoms, one or two steps; the optimizer is any function that moves an image (the optimizers themselves are in C25). Outside: several force components or a weight different from one (refused or not supported by the code), full-size Hessians, energies that are exactly equal, virials."))

PROPS.append(P(
    "C27", "Rigid bonds, angles and Eckart frames hold and do no spurious work",
    """In constrained dynamics, the bond lengths, angles and Eckart frames asked for are the ones held: the gradient of each constraint is the derivative of its value, targets that are not
    given are those of the first geometry, and momenta are projected to leave every constraint of its group unchanged to first order while being altered only along the mass-weighted gradients.
    After a step the positions fulfil every constraint within the tolerance in the chosen norm, or the run says that they do not. Without constraints a step is the multiple time step integrator with all
    forces and the bias; the energy the thermostat adds is what it is recorded to add; one degree of freedom is removed per constraint; combinations that are not supported are refused; and constraints survive a checkpoint.""",
    ["inputs", "configurations"], "all geometries, momenta, masses, targets and time steps; all kinds, groups and mixtures of constraints, arbitrary constraint functions, norms, tolerances, outcomes of the iteration",
    "One regression run follows one molecule; nothing compares gradients with values, and an iteration that fails to converge goes unnoticed.",
    ["ipi/utils/constrtools.py", "ipi/engine/motion/constrained_dynamics.py", "ipi/inputs/motion/constrained_dynamics.py"],
    [("constraints", "ipi/utils/constrtools.py RigidBondConstraint, AngleConstraint, EckartConstraint, ConstraintList"), ("projections and iterations", "ipi/engine/motion/constrained_dynamics.py ConstraintSolver, SparseConstraintSolver"), ("integrators", "ipi/engine/motion/constrained_dynamics.py NVEConstrainedIntegrator, NVTConstrainedIntegrator"), ("checkpoint", "ipi/inputs/motion/constrained_dynamics.py")],
    "Bounds: 3-4 atoms, one or two groups; geometries with up to two arbitrary coordinates where the constraint is not polynomial; at most 4 iterations of the solver. Outside: atoms shared between groups, unsorted Eckart indices, path integrals (refused)."))

