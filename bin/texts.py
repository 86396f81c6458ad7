"""Titles, statements and anchors of the properties (source of properties.jsonl and MANIFEST.json; see gen.py)."""


def P(title, statement, over, qtext, why, files, mech, **kw):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    a.update(kw)
    return dict(title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a)


ONE = "The repository's one test converts a single state vector to orbital elements; it never runs this code."
T = {
    "C01": P("Gravity is Newton's law for every arrangement of bodies",
             "Each body's gravitational acceleration is the vector sum over all other bodies of Newton's inverse-square attraction between the inertial positions, for any masses, positions and order of the bodies. When an integrator asks for the terms it handles itself to be left out (every pair involving the host body, or only the pair of the host with the innermost other body), exactly those pair terms are missing and all others are unchanged.",
             ["inputs", "configurations"], "all masses and positions of 2 and 3 bodies, each choice of the most massive body, each set of ignored terms",
             ONE, ["src/particles/universe.rs"], [("gravity_calculate_acceleration", "src/particles/universe.rs"), ("calculate_roche_radiuses", "src/particles/universe.rs")], observe_at="inertial acceleration of every particle"),
    "C02": P("A run is aborted exactly on collisions, Roche encounters and ejections",
             "Computing gravity stops the run if, and only if, some pair of bodies is within the sum of its radii, or within the Roche limit of the lighter body around the heavier one, (r_small/0.462)(M/m)^(1/3), or some body is more than 100 AU away from the most massive body. The outcome does not depend on the order of the bodies or on where they are in space.",
             ["inputs", "configurations"], "all masses, radii and positions in the boxes, the most massive body at any index", ONE,
             ["src/particles/universe.rs"], [("gravity_calculate_acceleration", "src/particles/universe.rs"), ("calculate_roche_radiuses", "src/particles/universe.rs")], observe_at="whether gravity_calculate_acceleration panics"),
    "C03": P("Systems start in their barycentre; heliocentric coordinates refer to the host",
             "A new universe keeps the masses, all relative positions and all relative velocities it was given, and puts the centre of mass at rest at the origin. The most massive body (the first of them when several are equally heavy) is the host. Converting to heliocentric coordinates gives, for every body, position and velocity relative to the host as they are at that moment, with the matching distance, speed and radial velocity; a new body's moment of inertia is m g^2 R^2 and its angular momentum that times its spin.",
             ["inputs", "configurations", "histories"], "all masses, positions and velocities in the boxes, the host at any index", ONE,
             ["src/particles/universe.rs", "src/particles/particle.rs", "src/tools.rs"], [("Universe::new", "src/particles/universe.rs"), ("inertial_to_heliocentric", "src/particles/universe.rs"), ("Particle::new", "src/particles/particle.rs")], observe_at="fields of the universe and its particles"),
    "C04": P("Inconsistent configurations are refused and unusable effects switched off",
             "A universe is refused when it has more than ten bodies, more than one central body for tides, for rotational flattening, for general relativity or for the disk, different central bodies for tides and rotational flattening when both are in use, or a central body for relativity that is not the most massive. An effect that is requested but for which no body has the central role (for a disk: a disk with edges; for wind and evolution: any body that has it) is switched off, an effect that is not requested stays off, and an accepted universe can then evaluate its effects without stopping.",
             ["configurations"], "every assignment of roles to 2 or 3 bodies and every combination of requested effects", ONE,
             ["src/particles/universe.rs", "src/particles/common.rs"], [("find_indices", "src/particles/universe.rs"), ("Universe::new", "src/particles/universe.rs")], observe_at="whether Universe::new panics, its consider_effects"),
    "C05": P("Constant-time-lag tides follow the published force and torque law",
             "With tides in the constant time lag model, every orbiting body with tides feels exactly the tidal force of the equilibrium tide theory (conservative and dissipative radial part plus the orthogonal parts driven by the rotation of host and planet), the host feels the opposite of the sum of those forces, and both spins change by the corresponding torques. Bodies whose tides are disabled neither feel nor cause any tidal effect.",
             ["inputs", "configurations"], "all masses, radii, Love numbers, dissipation factors, spins, positions and velocities of 2 and 3 bodies in the boxes; host in either position; any one planet without tides",
             ONE, ["src/effects/tides/constant_time_lag.rs", "src/effects/tides/common.rs", "src/particles/universe.rs"], [("tidal force and torque assembly", "src/effects/tides/"), ("calculate_additional_effects", "src/particles/universe.rs")], observe_at="additional acceleration and angular momentum derivative of every particle"),
    "C08": P("Rotational flattening (oblate spheroid) gives the published force and torques",
             "With rotational flattening in the oblate spheroid model, the acceleration of every orbiting body and of the host, and the torques on all spins, are those of the quadrupole potential of rotating spheroids with the given fluid Love numbers, for all spin directions. A body that does not rotate contributes nothing (and no undefined value), and bodies without flattening neither feel nor cause an effect.",
             ["inputs", "configurations"], "all masses, radii, Love numbers, spins (also exactly zero), positions of 2 and 3 bodies in the boxes; host in either position; any one planet without flattening",
             ONE, ["src/effects/rotational_flattening/oblate_spheroid.rs", "src/effects/rotational_flattening/common.rs"], [("oblate spheroid forces and torques", "src/effects/rotational_flattening/")], observe_at="additional acceleration and angular momentum derivative of every particle"),
    "C09": P("General relativity corrections follow the selected formulation",
             "With general relativity enabled, the additional accelerations (and for Kidder 1995 the spin precession) are those of the selected formulation: Kidder 1995 (1PN, 2PN and spin-orbit terms), Anderson 1975 (1PN in Jacobi coordinates) or Newhall 1983 (Einstein-Infeld-Hoffmann for all pairs). The result does not depend on which gravity terms the integrator leaves out, nor on whether only torques are requested, and bodies without relativity get no correction.",
             ["inputs", "configurations"], "all masses, spins, positions and velocities of 2 and 3 bodies in the boxes; the three formulations; the three sets of ignored gravity terms; any one planet without relativity",
             ONE, ["src/effects/general_relativity.rs"], [("calculate_kidder1995_general_relativity_acceleration", "src/effects/general_relativity.rs"), ("calculate_anderson1975_general_relativity_acceleration", "src/effects/general_relativity.rs"), ("calculate_newhall1983_general_relativity_acceleration", "src/effects/general_relativity.rs")], observe_at="additional acceleration and angular momentum derivative of every particle"),
    "C10": P("Stellar wind brakes the spin by the saturating Skumanich-type law",
             "A body with a wind loses angular momentum along its spin axis at the rate K |w|^3 below its saturation rotation rate and K |w| w_sat^2 at or above it, times sqrt((R/R_sun)/(M/M_sun)), independent of all other bodies. Bodies without wind lose none, and the wind never changes any acceleration.",
             ["inputs", "configurations"], "all masses, radii, spins, wind factors and saturation rates in the boxes", ONE, ["src/effects/wind.rs"], [("wind torque", "src/effects/wind.rs")], observe_at="angular momentum derivative and acceleration of every particle"),
    "C11": P("Protoplanetary disk applies the published migration and damping forces",
             "With a disk around the host, every orbiting body beyond the disk's inner edge feels the migration, eccentricity damping and inclination damping accelerations of Alibert et al. 2013 for its current orbit, with the migration timescale set by the gas radial velocity and the surface density at its distance, which decays exponentially in time and with the outer edge distance; the host feels the opposite reaction. A body inside the inner edge or without the effect gets nothing from the disk.",
             ["inputs", "configurations"], "all masses, positions and velocities of 2 (thorough: 3) bodies in the boxes, all disk parameters in the boxes", ONE, ["src/effects/disk.rs"], [("disk migration timescale and accelerations", "src/effects/disk.rs")], observe_at="additional acceleration of every particle"),
    "C12": P("Effects add up and depend only on the current state",
             "With several effects enabled at once, the additional acceleration of every body, and the rate of change of its spin angular momentum, is the sum of what each effect gives when it is enabled alone. The values depend only on the current positions, velocities, spins and time: an evaluation at some other state in between leaves no trace, and asking only for torques or only for accelerations gives the same values as asking for both.",
             ["inputs", "configurations", "histories"], "all masses, radii, parameters, spins, positions and velocities in the boxes, any preceding state", ONE,
             ["src/particles/universe.rs", "src/effects/"], [("calculate_additional_effects", "src/particles/universe.rs"), ("initialize", "src/particles/universe.rs"), ("add_additional_acceleration_corrections", "src/particles/universe.rs")], observe_at="additional acceleration, gravity and angular momentum derivative of every particle"),
    "C13": P("Evolving bodies take the tabulated properties of the current time",
             "The radius, radius of gyration, Love number and dissipation of an evolving body at any time are the linear interpolation of its evolution table at that time (the first or last row outside of the table), for the quantities its model evolves and unchanged for the others, no matter which times, earlier or later, were evaluated before. The new radius and gyration give the moment of inertia and, with the conserved angular momentum, the spin; they and the new Love number enter the tides. For models with dynamical tides the dissipation is that of Bolmont & Mathis 2016 while the current excitation frequency is below the spin rate, and the equilibrium value otherwise.",
             ["inputs", "histories"], "all table values, all times and sequences of times within the bounds, either body evolving", ONE,
             ["src/effects/evolution.rs", "src/effects/tides/constant_time_lag.rs", "src/tools.rs"], [("Evolver", "src/effects/evolution.rs"), ("linear_interpolation", "src/tools.rs"), ("pair dependent dissipation", "src/effects/tides/constant_time_lag.rs")], observe_at="values returned by the evolver, fields of the particles, tidal accelerations and torques"),
    "C14": P("Evolution tables are read correctly and must cover the simulated time",
             "For every evolution model and every tabulated mass (within the stated tolerance) the table of that mass is read, with time in days counted from the initial time and radius in AU, and with the radius of gyration, Love number and inverse tidal quality factor from their columns. A mass that is not tabulated, an initial time before the first row and a time limit after the last row are refused.",
             ["inputs", "configurations"], "all masses, initial times and time limits in the boxes, every model", ONE,
             ["src/effects/evolution.rs"], [("Evolver::new", "src/effects/evolution.rs")], observe_at="the evolver's table, or the panic"),
    "C15": P("A LeapFrog step is drift, kick, drift of the full equations of motion",
             "A step of the LeapFrog integrator moves every body half a step with its velocity, changes the velocity by a whole step of the acceleration (gravity plus all enabled effects) at the midpoint positions and time, moves it another half step with the new velocity, and advances the spin angular momentum half a step with the torque at the start of the step and half a step with the torque at the midpoint; time advances by exactly the time step. Successive steps depend only on the state they start from, and the run stops on a collision, Roche encounter or ejection.",
             ["inputs", "histories"], "all masses, parameters, spins, positions, velocities and time steps in the boxes", ONE,
             ["src/integrator/leapfrog.rs"], [("iterate", "src/integrator/leapfrog.rs")], observe_at="inertial position, velocity and angular momentum of every particle after a step"),
    "C16": P("A WHFast step is the Wisdom-Holman map of its coordinate system",
             "A step of WHFast is: half a kick by the enabled effects, half a step of Keplerian motion of each body, half a jump, a whole kick by the gravitational accelerations that the Keplerian motion leaves out, half a jump, half a step of Keplerian motion, half a kick by the effects. In Jacobi coordinates each body moves around the total mass of the bodies before and including it, in democratic heliocentric coordinates around the host mass, in WHDS around host plus body, with the coordinate changes, jumps and interactions of the respective splitting. The centre of mass moves uniformly, the order of the bodies and the position of the host among them do not matter, and the step starts and ends in inertial coordinates.",
             ["inputs", "configurations"], "all masses, positions, velocities, frames and time steps in the boxes, each coordinate system", ONE,
             ["src/integrator/whfast.rs"], [("iterate", "src/integrator/whfast.rs"), ("coordinate transformations", "src/integrator/whfast.rs"), ("jump_step, interaction_step, kepler_steps", "src/integrator/whfast.rs"), ("integrate_velocity_dependent_forces", "src/integrator/whfast.rs")], observe_at="inertial position, velocity and angular momentum of every particle after a step"),
    "C17": P("Two bodies alone follow their exact Keplerian orbit",
             "Two bodies that only attract each other move on the exact solution of the two-body problem, whatever the shape of the orbit (circular, eccentric, hyperbolic), the mass ratio and the length of the step, and seen from any inertial frame, with WHFast in Jacobi and WHDS coordinates and with IAS15; their centre of mass moves uniformly.",
             ["inputs", "configurations"], "all circular orbits in the boxes, the eight shapes of the bounds, all inertial frames in the boxes", ONE,
             ["src/integrator/whfast.rs", "src/integrator/ias15.rs"], [("kepler_individual_step", "src/integrator/whfast.rs"), ("stumpff_cs3", "src/integrator/whfast.rs"), ("step", "src/integrator/ias15.rs")], observe_at="inertial positions and velocities after each step"),
    "C18": P("Every integrator follows gravity and every enabled effect, spins included",
             "With each integrator (LeapFrog, WHFast in its three coordinate systems, IAS15) the motion of several bodies agrees with the equations of motion to the accuracy of the method, in any inertial frame and with the host at any place among the bodies. What each enabled effect (tides, flattening, relativity, disk, wind) adds to positions, velocities and spins in a few steps is there to within a small part of it, also when it is the only effect.",
             ["inputs", "configurations"], "all inertial frames in the boxes, each effect alone and all together, each integrator and coordinate system", ONE,
             ["src/integrator/leapfrog.rs", "src/integrator/whfast.rs", "src/integrator/ias15.rs"], [("iterate", "src/integrator/*.rs"), ("step", "src/integrator/ias15.rs"), ("integrate_velocity_dependent_forces", "src/integrator/whfast.rs")], observe_at="state after each step"),
    "C20": P("Snapshots are taken on schedule and the run ends at its limit",
             "For each integrator the initial state is recorded, and from then on a record is written at the first step at or after each multiple of the history period (IAS15: a history period after the last record), stamped with the time and time step at which the step starts; a recovery snapshot is asked for at the first step and whenever a recovery period has passed since the last one. The run goes on while another whole step fits before the time limit and ends otherwise (fixed-step integrators). Changing settings of a run in progress replaces those that are positive and keeps the others, and a time limit before the current time, or a later one than before that lies beyond an evolution table in use, is refused.",
             ["inputs", "histories"], "all time steps, periods and limits in the boxes, each integrator", ONE,
             ["src/integrator/leapfrog.rs", "src/integrator/whfast.rs", "src/integrator/ias15.rs"], [("iterate", "src/integrator/*.rs"), ("set_time_limit", "src/integrator/*.rs"), ("set_snapshot_periods", "src/integrator/*.rs")], observe_at="result of iterate, number and contents of the records"),
    "C21": P("A history record holds the documented, defined values of each body",
             "Each history snapshot appends, per body in order, one record of 156 little-endian bytes: time, time step, body number (32 bit integer), inertial position, spin, inertial velocity, mass, radius, squared radius of gyration, Love number (zero if the tidal model has none), scaled dissipation factor, lag angle, tidal energy loss rate and disk migration timescale, as they are in the simulation at that time. No value of a run is undefined (NaN), starting with the first record.",
             ["inputs", "histories"], "all values of all fields; every integrator", ONE,
             ["src/integrator/output.rs"], [("write_historic_snapshot", "src/integrator/output.rs"), ("initialize_physical_values", "src/integrator/*.rs")], observe_at="bytes of the history file"),
    "C22": P("Saving, restoring and resuming lose nothing",
             "Restoring a binary recovery snapshot gives an integrator of the same kind that equals the saved one in every field and then goes on exactly as the saved one does. A run interrupted after a snapshot and resumed from it leaves the same history and end state as an uninterrupted one: records written after the snapshot are dropped and written again, none is lost or doubled. A history that is shorter than the snapshot expects is refused and left alone, and so is a snapshot that was cut short.",
             ["inputs", "histories"], "all numeric field values, each integrator and coordinate system, the interruption points and cut lengths of the bounds", ONE,
             ["src/integrator/output.rs", "src/integrator/leapfrog.rs", "src/integrator/whfast.rs", "src/integrator/ias15.rs"], [("restore_snapshot", "src/integrator/output.rs"), ("write_recovery_snapshot", "src/integrator/output.rs"), ("get_universe_history_writer", "src/integrator/output.rs")], observe_at="restored integrator, bytes of the history file"),
    "C23": P("A crash while saving never costs the last recovery snapshot",
             "If the program is killed at any moment while a recovery snapshot is being written, also in the middle of a write, a complete snapshot remains on disk, the previous one or the new one, under its own name or as a backup, and nothing incomplete is ever restored. When the save finishes the new snapshot is in place. The history the new snapshot counts on is on disk before the snapshot is.",
             ["crash_points", "inputs"], "every crash point of a save, with and without a previous snapshot, each integrator", ONE,
             ["src/integrator/output.rs"], [("write_recovery_snapshot", "src/integrator/output.rs")], observe_at="files left on disk"),
    "C24": P("The command line starts, limits and resumes runs without losing data",
             "start runs a case file to its limit, writing the history and the recovery snapshots, and refuses when the case does not exist or the snapshot or history file already exists, leaving them untouched. Recovery snapshots are written on schedule whether or not the execution time is limited with --limit; when that limit is reached a snapshot and all its history are saved and the program ends well. resume continues the snapshot with the history it belongs to until the time limit, applies new time limit, history and recovery periods, and refuses a limit in the past or a history that does not match.",
             ["configurations", "histories"], "all initial positions and velocities of the case, the option combinations and existing files of the bounds", ONE,
             ["src/main.rs", "src/integrator/output.rs"], [("main", "src/main.rs")], observe_at="exit status and files after the program ends"),
    "C27": P("How often output is written does not change the simulation",
             "The positions, velocities, spins and times a run goes through are the same whatever the history and recovery periods are and however many snapshots are written, for every integrator.",
             ["inputs", "histories"], "all time steps and spins in the boxes (LeapFrog), each integrator and coordinate system", ONE,
             ["src/integrator/leapfrog.rs", "src/integrator/whfast.rs", "src/integrator/ias15.rs", "src/integrator/output.rs"], [("iterate", "src/integrator/*.rs")], observe_at="state after several steps"),
}
NA = {
    "C40": (P("Python case generator and readers agree with the Rust program",
              "A case written by the Python package, and any history or snapshot read back by it, denotes exactly the configuration and states that the Rust program uses and produced.",
              ["inputs", "programs"], "all configurations expressible in the Python package", "No Python test exists.", ["posidonius/"], [("Universe.write", "posidonius/particles/universe.py")]),
            "the Python half is dynamically typed numpy/json code outside the reach of the LLVM-level executor; symbolic execution of it here (crosshair) cannot run the numpy operations it is made of"),
}
