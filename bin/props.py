"""Which harnesses decide which property, within which bounds."""
import json, os


class H:
    def __init__(self, name, reach=(), mode="real", thorough=False, cost=1, t=300, **opts):
        self.name, self.reach, self.mode, self.thorough, self.cost, self.t, self.opts = name, list(reach), mode, thorough, cost, t, opts

    def args(self, tier):
        a = []
        if self.mode == "fp":
            a += ["--mode", "fp"]
        for k, v in self.opts.items():
            a += ["--" + k.replace("_", "-")] + ([] if v is True else [str(v)])
        return a

    def timeout(self, tier):
        return self.t if tier == "quick" else max(self.t, 3000)


COMMON_ASSUMPTIONS = [
    "unless a harness says float_model=fp, f64 arithmetic is modelled by exact real arithmetic (no rounding, overflow or NaN from finite operands); constants keep their exact binary value and equalities are accepted up to 1e-11 relative to the stated scale where constant rounding would separate them",
    "sin, cos, exp, log, acos, atan2, pow are uninterpreted except for the reduction rules listed in DESIGN.md (exact roots for rational powers, sin^2+cos^2=1)",
    "the IR is rustc's optimised output before code generation; the code generator and libm are outside the encoding (native replays go through them)",
    "printing to the terminal and the text formatting of floats are stubbed out",
]

SLICES = "parts of a symbolic double that are read as an integer (a file of one integrator tried as another) are taken to be no valid tag, flag or length"
AFFINE = "sums that are affine in the frame are kept with rounded coefficients, and a coefficient that cancels to below 1e-13 of its parts is taken to be zero"
FAST = dict(skip_unknown=True, feas_ms=300, eq_ms=3000)
D = ["done"]
BOX = "masses in [1e-6, 0.4] and [0.5, 2] solar masses for the host, radii in [1e-3, 1e-2] AU, positions of the planets in [-3,3] AU per axis around a host anywhere in [-5,5], velocities in [-0.1,0.1] AU/day around the host's, spins in [-2,2] rad/day per axis"

PROPS = {
    "C01": dict(
        harnesses=[
            H("h_gravity_n2", ["computed", "aborted"]),
            H("h_gravity_n3", ["computed", "aborted"], cost=5),
            H("h_gravity_wh1", ["computed", "aborted"], cost=5),
            H("h_gravity_wh2", ["computed", "aborted"], cost=5),
            H("h_gravity_n10", ["computed"], cost=3),
        ],
        bounds="2, 3 and 10 bodies (10: the host anywhere, box around separated reference positions), any of them the most massive; masses in [1e-9, 0.4] and [0.5, 2] solar masses, positions in [-20,20] AU per axis",
    ),
    "C02": dict(
        harnesses=[H("h_abort_n2", ["roche", "collision", "ejection"], cost=5, feas_ms=1000), H("h_abort_n3", ["roche", "collision", "ejection"], cost=3)],
        bounds="2 bodies with masses in [1e-6, 0.4] and [0.5, 2], radii in [1e-4, 1] AU, separations to 340 AU in any direction; 3 bodies of fixed masses and radii anywhere on a line of 400 AU; the most massive body at any index",
    ),
    "C03": dict(
        harnesses=[H("h_bary_n2", D), H("h_bary_n3", D), H("h_particle", D), H("h_host", D)],
        bounds="2 and 3 bodies, the host at any index, masses in [0, 0.4] and [0.5, 2], positions in [-10,10], velocities in [-1,1]; single bodies with masses in [1e-6, 2], radii in [1e-6, 1]; host selection over all masses in [1e-3, 2] of 3 bodies, ties included",
    ),
    "C04": dict(
        harnesses=[H("h_config_tides_rf", ["accepted", "rejected"], cost=4), H("h_config_gr", ["accepted", "rejected"]), H("h_config_disk", ["accepted"]), H("h_config_misc", ["accepted"])],
        bounds="every assignment of roles (disabled, central, orbiting) to 2 or 3 bodies, every value of the flags involved, host at either index",
    ),
    "C05": dict(harnesses=[H("h_ctl_n2", D), H("h_ctl_n3", D), H("h_ctl_disabled", D), H("h_ctl_n5", D), H("h_ctl_moon", D)], bounds="2, 3 and 5 bodies, either body the host (2 bodies), one of two planets without tides; " + BOX + "; Love numbers in [0,1], dissipation in [0,1] scaled by [0.1,10]"),
    "C08": dict(harnesses=[H("h_oblate_n2", D, cost=5), H("h_oblate_n3", D), H("h_oblate_disabled", D), H("h_oblate_nospin", D), H("h_oblate_n5", D), H("h_oblate_moon", D)], bounds="2, 3 and 5 bodies, either body the host (2 bodies), one of two planets without flattening, spins that are exactly zero; " + BOX),
    "C09": dict(
        harnesses=[H("h_kidder_n2", D), H("h_kidder_n3", D), H("h_kidder_dis", D), H("h_kidder_dl", D)]
        + [H(h, D, cost=5, **FAST) for h in ("h_newhall_n2", "h_newhall_n3", "h_newhall_wh1", "h_newhall_wh2", "h_newhall_dis")]
        + [H(h, D, cost=5, **FAST) for h in ("h_anderson_n2", "h_anderson_dis", "h_anderson_wh1", "h_anderson_wh2")]
        + [H("h_anderson_n3", D, cost=5, thorough=True, **FAST)],
        bounds="2 and 3 bodies; " + BOX,
    ),
    "C10": dict(harnesses=[H("h_wind", D), H("h_wind_n4", D)], bounds="1 to 4 bodies; " + BOX),
    "C11": dict(harnesses=[H("h_disk_n2", D, **FAST), H("h_disk_n3", D, cost=3, **FAST), H("h_disk_moon", D, cost=3, **FAST)], bounds="2 bodies (3 in the thorough tier); " + BOX),
    "C12": dict(harnesses=[H("h_comp_n2", D, **FAST), H("h_comp_n3", D, cost=3, **FAST), H("h_hist_n2", D, **FAST), H("h_hist_n3", D, cost=3, **FAST), H("h_flags", D, **FAST), H("h_comp_gr", D, cost=2, **FAST)], bounds="2 and 3 bodies, host first; all five effects on together (3 bodies with all three formulations of relativity: tides, flattening and relativity); bodies apart enough not to collide; " + BOX),
    "C13": dict(
        harnesses=[H("h_evo_history", D, cost=2), H("h_evo_walk", D, cost=4), H("h_evo_kinds", D), H("h_evo_apply", D), H("h_evo_dyn", ["dynamical", "equilibrium", "corotation"]), H("h_evo_dyn2", ["dynamical", "equilibrium", "corotation"])],
        bounds="tables of 14 rows with two queries at any times and of 18 rows with 18 forward or backward queries followed by one at any time, all table values symbolic; 2 bodies, either of them evolving; dynamical tide on one fixed orbit for all spins in [0,4] rad/day around one axis",
    ),
    "C14": dict(
        harnesses=[H("h_evo_load", ["loaded", "refused"]), H("h_evo_brown", ["loaded", "refused"]), H("h_evo_mass_bm", ["loaded", "refused"]), H("h_evo_mass_gb", ["loaded", "refused"]), H("h_evo_mass_b15", ["loaded", "refused"], cost=3), H("h_evo_mass_l11", ["loaded", "refused"])],
        bounds="files of 1 to 5 rows with fixed contents, all initial times and time limits in [0, 1e10] days, all masses around the tabulated ones",
    ),
    "C15": dict(
        harnesses=[H("h_lf_n2", ["done", "aborted"], **FAST), H("h_lf_n3", ["done", "aborted"], cost=2, **FAST), H("h_lf_eff", D, cost=4, **FAST), H("h_lf_eff2", D, cost=4, **FAST)],
        bounds="two successive steps of 2 and 3 bodies with gravity only and of 2 bodies with tides and wind, one step of 2 bodies with all five effects; host first; time steps in [1e-3, 5e-2] days; " + BOX,
    ),
    "C16": dict(
        harnesses=[H(h, D, cost=c, **FAST) for h, c in (("h_wh_j2", 1), ("h_wh_d2", 1), ("h_wh_w2", 1), ("h_wh_kick", 2), ("h_wh_d3", 5), ("h_wh_w3", 5))]
        + [H("h_wh_j3", D, cost=5, skip_unknown=True, feas_ms=300, eq_ms=20000), H("h_wh_j3v", D, cost=5, skip_unknown=True, feas_ms=300, eq_ms=20000)],
        bounds="one step of 2 bodies (either of them the host) and 3 bodies (Jacobi: any of them the host) in each coordinate system, with the Keplerian motion replaced by arbitrary linear stand-ins that depend on mass, time, position and velocity; masses in [1e-6, 0.1] and [0.5, 2], positions in boxes of 2 AU, velocities in boxes of 0.2 AU/day, frames in [-5,5] AU and [-1,1] AU/day, time steps in [1e-3, 5e-2] days; half kicks with conservative tides of 2 bodies",
        assumptions=["the Keplerian motion is replaced by a linear stand-in through the guarded hook (the real one is decided by C17)"],
    ),
    "C17": dict(
        harnesses=[H("h_kep_dir", D, **FAST), H("h_kep_big", D, cost=3, skip_unknown=True, feas_ms=3000, eq_ms=20000)] + [H("h_two_j", D, affine=True, **FAST), H("h_two_w", D, affine=True, **FAST), H("h_two_ias", D, cost=5, affine=True, **FAST)],
        bounds="circular orbits of any size in [0.01, 10] AU and speed in [1e-3, 1] AU/day, along each pair of axes, for all phases up to 0.3 rad and, in one plane, up to 1.2 rad; eight fixed shapes (low and high eccentricity, hyperbolic, heavy companion, more than one orbit per step) in any inertial frame with offset in [-5,5] AU and velocity in [0.05, 0.1] AU/day per axis, for 3 (IAS15: 4) steps",
        assumptions=[AFFINE],
    ),
    "C18": dict(
        harnesses=[H("h_brake_lf", D, **FAST), H("h_brake_wh", D, **FAST), H("h_brake_ias", D, **FAST)]
        + [H(h, D, cost=3, affine=True, **FAST) for h in ("h_many_wh", "h_many_lf", "h_many_ias", "h_driven_wh", "h_driven_lf", "h_driven_ias")],
        bounds="four fixed bodies (host at any index) for 3 steps with gravity, two fixed bodies for 2 steps with each of the five effects and with all together, each integrator and WHFast coordinate system, in any inertial frame with offset in [-5,5] AU and velocity in [0.05, 0.1] AU/day per axis; one body with saturated wind and any spin in [1,2] rad/day per axis (IAS15: one spin)",
        assumptions=[AFFINE],
    ),
    "C20": dict(
        harnesses=[H(h, ["done", "ended"] if h != "h_sched_ias" else D, **FAST) for h in ("h_sched_lf", "h_sched_wh", "h_sched_ias")]
        + [H(h, ["changed", "refused"], cost=2, **FAST) for h in ("h_settings_lf", "h_settings_wh", "h_settings_ias")],
        bounds="each of the three integrators, one free body, 4 steps (IAS15: 3) of any length in [0.5, 1] day with any periods in [0.1, 3] days and limits in [0.1, 5] days; changes of settings: limits in [10, 20], current times in [0, 9], new limits in [-5, 40], new periods in [-1, 5] days, with and without an evolving body",
    ),
    "C21": dict(
        harnesses=[H("h_layout_n1", D, **FAST), H("h_layout_n3", D, cost=2, **FAST)] + [H(h, D, slices=True, **FAST) for h in ("h_rt_run_lf", "h_rt_run_wh", "h_rt_run_ias")],
        bounds="1 and 3 bodies, two snapshots, all values symbolic; runs of 2 recorded steps of 3 fixed bodies with tides for each integrator and WHFast coordinate system",
        assumptions=[SLICES],
    ),
    "C22": dict(
        harnesses=[H("h_rt_bin", D, cost=2, slices=True, **FAST)] + [H(h, D, slices=True, **FAST) for h in ("h_rt_run_lf", "h_rt_run_wh", "h_rt_run_ias")]
        + [H("h_resume", D, cost=5, slices=True, **FAST), H("h_history_file", ["continued", "refused"], **FAST)]
        + [H(h, D, slices=True, **FAST) for h in ("h_torn_lf", "h_torn_wh", "h_torn_ias")],
        bounds="binary snapshots of 2 bodies with all five effects and every numeric field symbolic, for each integrator and WHFast coordinate system; runs of 3 bodies with tides saved after two steps and carried on for one; LeapFrog runs of 4 steps interrupted 0 to 2 steps after the snapshot; history files of 0 to 364 bytes; snapshots of one body cut short by 1 byte up to all of it in steps of 53 to 151 bytes",
        assumptions=[SLICES],
    ),
    "C23": dict(
        harnesses=[H(h, ["saved", "killed"], slices=True, **FAST) for h in ("h_crash_lf", "h_crash_wh", "h_crash_ias")],
        bounds="each integrator, one body with symbolic position and time, a kill before, during or after each of the first 12 changes of the file system by one save, with or without a previous snapshot",
        assumptions=[SLICES, "a write that returned is on disk in order (no reordering of writes by the kernel or device)"],
    ),
    "C24": dict(
        harnesses=[H("h_cli_start", ["completed", "refused"], slices=True, **FAST), H("h_cli_resume", ["done", "refused"], slices=True, **FAST), H("h_cli_limit", ["completed", "limited"], slices=True, **FAST)],
        bounds="the whole program on a LeapFrog case of one body with symbolic position and velocity; every combination of existing files at start; the resume options one by one and in pairs; execution time limits that are and are not reached",
        assumptions=[SLICES],
    ),
    "C27": dict(
        harnesses=[H("h_neutral_lf", D, cost=3, **FAST), H("h_neutral_wh", D, **FAST), H("h_neutral_ias", D, **FAST)],
        bounds="LeapFrog: 3 steps of 2 bodies with tides, symbolic spins and time step; WHFast in each coordinate system and IAS15: 4 steps of 3 fixed bodies with tides",
    ),
}
