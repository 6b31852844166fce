#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

SP, SC, LA, OB, MA, CF, WR = ("src/spin.rs", "src/spinchain.rs", "src/spinchain_langevin.rs",
                              "src/obs.rs", "src/main.rs", "src/config.rs", "src/writers.rs")

p("C01", "Spin precession is the exact rotation about the field",
  "Rotating a unit spin in a field B for a time t gives the exact solution of dS/dt = S x B for every field (zero, tiny and huge included) and every time, positive or negative. "
  "The result has unit length, keeps its component along the field, composes additively in time, is undone by -t, and is never NaN; a zero field leaves the spin as it is.",
  ["inputs"], "every unit spin, every field vector whose squared length is zero or a normal representable number, every finite time step, and every sequence of such rotations",
  "three tests rotate one axis-aligned spin by one angle and compare one component at 1e-3; no other field direction, no zero field, no composition, no long sequence",
  [SP], [("Rodrigues rotation with renormalisation", "Spin::rotate")], [("dir", "unit vector", SP)], ["Spin::rotate"])

p("C02", "Spin coordinates convert faithfully",
  "A spin built from Cartesian coordinates is the unit vector along them, and one built from angles, or set to angles, is the unit vector at that azimuth and polar angle; reading the azimuth and polar angle of any spin, including spins on the coordinate axes and at the poles, gives angles that reproduce it. "
  "The Gram-Schmidt direction is the unit vector orthogonal to the first argument in the plane of the two, and tilting a spin by an angle towards a direction gives the spin whose angle to the original is exactly that angle, tilted about the component of the given direction perpendicular to it.",
  ["inputs"], "every vector whose squared length is a normal representable number, every pair of angles, every pair of non-parallel directions and every tilt angle",
  "tests build two or three spins with the same convenient angles; no test reads angles back, tilts a spin, or visits an axis",
  [SP], [("constructors, theta, phi, gs, rot_perp", SP)], [("dir", "unit vector", SP)], ["Spin public API"])

p("C03", "Initial spins are a thermal sample at the requested temperature",
  "In a freshly created chain (of either kind) every spin is a unit vector, the cosine of the angle between neighbouring spins is distributed as exp(beta*c) on [-1,1] independently along the chain for every inverse temperature beta >= 0, the tilts are isotropic, and the bond energy density therefore has mean 1/beta - coth(beta). "
  "The inverse temperature computed from a target energy density e in (-1,0) satisfies 1/beta - coth(beta) = e.",
  ["inputs", "configurations"], "every chain length, every beta >= 0 (0, tiny, and beyond the range of exp included), every target energy density in (-1,0), every random stream",
  "one flaky test compares one average energy at one temperature with tolerance 0.02; no distribution, no other temperature, and the solver is not tested",
  [SC, LA], [("inverse-transform sampling of the tilt", "SpinChain::new, SpinChainLangevin::new"), ("temperature solver", "solve_beta")], [], ["spins after new", "solve_beta"])

p("C04", "Disorder is drawn as configured, afresh for every bond and site",
  "A freshly created chain has one diagonal coupling per site with mean (1,1,lambda) and one static field per site with mean hfield, plus hs on the sites of the driven subsystem only, each component of each coupling and field carrying independent normal noise of standard deviation jvar and hvar respectively (zero spread gives exactly the means). "
  "Its clock starts at -trel, and it has hsize sites.",
  ["inputs", "configurations"], "every chain size, subsystem size, mean, spread and random stream",
  "one test sums the static field of one default chain, where the spread is zero; couplings, means, hs and the start time are never looked at",
  [SC, LA, CF], [("normal sampling of J and h", "SpinChain::new, SpinChainLangevin::new")],
  [("j_couple", "couplings", SC), ("static_h", "static fields", SC)], ["j_couple, static_h, t after new"])

p("C05", "Total energy is the documented Hamiltonian",
  "The total energy density reported for a chain of any size, state, couplings, fields and time equals (- sum_j S_j J_j S_{j+1} + sum_j B_j.S_j)/hsize with periodic closure, where B_j is the static field of site j plus, on the sites of the driven subsystem only, the drive at the current time. "
  "All the ways of computing it agree, for both kinds of chain, and the Monte Carlo total energy is the same without the drive.",
  ["inputs", "configurations"], "every chain size >= 2, subsystem size, spin state, coupling, field, drive type and time",
  "tests compute s.h of three axis-aligned spins; no test compares a whole-chain energy with the Hamiltonian",
  [SC, LA], [("energy sums", "total_energy, total_energy2, mc_total_energy")], [], ["energy functions"])

p("C06", "Subsystem observables count exactly the subsystem",
  "The subsystem magnetisation is the vector sum over the first ssize spins and the total magnetisation that over all spins; the subsystem energy is the energy of the ssize-1 bonds inside the subsystem and of the first ssize-1 sites in static field plus drive, per bond; the Monte Carlo subsystem energy is that of the first ssize sites closed into a ring in the static field alone, per site. "
  "None of them depends on anything outside the subsystem.",
  ["inputs", "configurations"], "every chain and subsystem size >= 2, spin state, coupling, field, drive and time",
  "no test evaluates any of these",
  [SC, LA], [("observables", "m, m_tot, system_energy, mc_system_energy")], [], ["observable functions"])

p("C07", "The drive is periodic, of the configured shape, on the subsystem only",
  "At time t the drive is (cos p, sin p, 0), (cos p, 0, 0) or (cos p, e sin p, 0) with p = 2 pi t/tau for the circular, uniaxial and elliptic types, the constant field hs for the static type and zero for none; it acts with full strength on each of the first ssize sites and on no other, at negative times too. "
  "This same field enters the energies and the equations of motion.",
  ["inputs", "configurations"], "every drive type, period, eccentricity, time of either sign, and subsystem size",
  "tests switch the drive off",
  [SC, LA], [("drive", "h_ext")], [], ["energies and one small step of a decoupled chain"])

p("C08", "Time evolution solves the equations of motion to second order",
  "Advancing a chain of any length, odd lengths included, by n steps of dt advances its clock by n dt and converges, with error proportional to dt^2 at fixed final time, to the solution of dS_j/dt = S_j x (J_{j-1} S_{j-1} + J_j S_{j+1} - B_j(t)) on the periodic chain, with B_j the static field plus the drive on driven sites. "
  "Evolution without field solves the same equations with the static field absent.",
  ["inputs", "configurations", "histories"], "every chain length >= 2, subsystem, coupling, field, drive, initial state and time span",
  "the only evolution test has the couplings switched off and a constant field, so neither exchange, drive, splitting order nor time-centring is visible",
  [SC], [("Suzuki-Trotter even/odd splitting with midpoint drive", "SpinChain::update, update_no_field")],
  [("spins,t", "state", SC)], ["spins after update"])

p("C09", "Undriven evolution conserves energy and spin length exactly",
  "With a time-independent field, evolution of any duration and any step size conserves the total energy to rounding error and keeps every spin a unit vector; for arbitrarily large steps the spins stay unit vectors and every reported number stays finite. "
  "This holds for even and odd chain lengths and for the edge-coupled chain at zero damping (whose ends are open).",
  ["inputs", "histories"], "every chain, state, static field, step size and number of steps",
  "no test measures the energy of an evolving chain",
  [SC, LA, SP], [("sublattice rotations about instantaneous fields", "update")], [], ["energy before and after each step"])

p("C10", "Evolution is reversible and respects the symmetries of the chain",
  "Reversing the sign of the time step undoes the evolution, with the drive too. On a chain of even length, relabelling the sites so that even sites stay even (a translation by two, or the reflection j -> -j), with couplings, fields and an all-driven or undriven subsystem relabelled alike, commutes with the evolution; so do rotating all spins and fields together under isotropic couplings (for the circular drive about z, a rotation is a shift of time) and shifting time by a whole drive period.",
  ["inputs", "histories"], "every chain, state, disorder realisation and number of steps",
  "no test relates two evolutions",
  [SC], [("symmetric splitting", "update")], [], ["spins after update"])

p("C11", "Each Metropolis move is an exact heat-bath-detailed-balance step",
  "One Monte Carlo update of either kind of chain picks a site uniformly, proposes a spin uniformly on the sphere independently of the state, and accepts it with probability min(1, exp(-beta dE)) where dE is the exact change of the undriven energy (without any static field for the edge-coupled chain); every other spin, coupling, field and the clock are untouched.",
  ["inputs", "configurations"], "every chain state, size, coupling, field, inverse temperature >= 0, site and random stream",
  "tests run a million updates at beta = 1000 and look at one average energy; the field term, the acceptance rule and proposal distribution are not resolved",
  [SC, LA], [("acceptance rule", "metropolis_update")], [], ["state before and after one update with a replayed random stream"])

p("C12", "Effective-Hamiltonian samplers sample the Hamiltonians they report",
  "The four effective-ensemble updates (lab-frame Magnus, rotating-frame Magnus, first-order Magnus on the driven block, second-order Magnus) each accept with probability min(1, exp(-beta dH)) for the change of one and the same global function H of the chain, whose first-order terms are -S J S and -(1/(2 omega)) times the documented Magnus terms of the driven sites (-omega S^z plus S^x for the rotating frame); the second-order update, which needs the whole chain to be driven, adds terms proportional to 1/omega^2. "
  "The lab-frame and rotating-frame energies reported per site are exactly that H per site.",
  ["inputs", "configurations"], "every chain state, size >= 5, coupling disorder, period and temperature (no static field)",
  "no test calls any of them",
  [SC, LA], [("Magnus updates", "metropolis_update_maglab/_rot_magnus/_magnus/_mag_full"), ("Magnus energies", "mc_system_energy_maglab/_rot")], [], ["acceptance thresholds under a replayed random stream"])

p("C13", "Monte Carlo reaches the Boltzmann distribution",
  "After long Monte Carlo runs the ensemble averages are those of the Boltzmann distribution of the undriven Hamiltonian at the configured inverse temperature, from any initial state: the exact ring energy and correlations for the isotropic chain, the exact magnetisation for decoupled spins in a field, and the temperature identity relating precession field and energy for every disordered chain.",
  ["inputs", "configurations", "histories"], "every size, coupling, field, inverse temperature, initial state and random stream, in the long-run limit sampled here",
  "one test checks one energy at beta = 1000, i.e. the ground state",
  [SC, LA], [("Metropolis chain", "metropolis_update")], [], ["time averages over Monte Carlo trajectories"])

p("C14", "Edge-coupled chain: bulk precession and edge damping are as documented",
  "Without noise the edge-coupled chain follows dS_j/dt = S_j x W_j with open ends, W_j the exchange with existing neighbours minus the local static field and, on driven sites, the drive, and with W_j - gamma S_j x W_j for the two end spins only; so at zero damping it is a free open chain, and with damping its energy never increases when undriven and relaxes towards the minimum. "
  "The trajectory converges to that solution as dt goes to zero, for even and odd lengths.",
  ["inputs", "configurations", "histories"], "every length >= 2, coupling, field, damping, drive and initial state",
  "the only evolution test switches the couplings off and looks at one spin of the bulk",
  [LA], [("open-chain even/odd rotation with LLG edge term", "SpinChainLangevin::update")], [], ["spins after update"])

p("C15", "Edge noise thermalises the edge-coupled chain at the bath temperature",
  "In each step both end spins, and no others directly, feel an independent, isotropic, zero-mean gaussian random rotation of variance 2 gamma dt/beta per component, fresh each step and independent of the state. "
  "Consequently the undriven chain relaxes from any state to the Boltzmann distribution at inverse temperature beta, as dt goes to zero.",
  ["inputs", "histories"], "every damping, temperature, step, chain and random stream",
  "no test looks at the noise or at the stationary state",
  [LA], [("noise increments", "SpinChainLangevin::update")], [], ["one-step rotation vectors, long-run averages"])

p("C16", "Reported edge-coupled energy flow is the true rate of change of energy",
  "The energy-flow value reported for the edge-coupled chain (with the chain equal to its subsystem) equals the expected instantaneous rate of change of the open-chain energy: work done by the drive, minus edge damping gamma |S x W|^2, plus bath heating (2 gamma/beta) S.W at each end, where W is the full precession field including static fields. "
  "Averaged over noise, small steps change the energy at that rate. The value the ring reports for its undriven subsystem is that of the same open chain at unit damping.",
  ["inputs", "configurations"], "every length >= 2, state, coupling, static field, drive, damping and temperature",
  "no test evaluates it",
  [LA, SC], [("boundary terms", "SpinChainLangevin::boundary_term, SpinChain::boundary_term")], [], ["boundary_term, energy differences over one step"])

p("C17", "Configuration is read as written and defaults fill the gaps",
  "A configuration file sets exactly the parameters it mentions, including whole numbers for real parameters, in any order and with the documented names, and every other parameter keeps its documented default; a missing file is replaced by a written default file that reads back as the defaults; a malformed or unreadable file is rejected and left untouched. "
  "Writing a configuration and reading it back changes nothing, and the printed description is itself a valid default configuration naming every parameter.",
  ["inputs", "configurations"], "every subset and assignment of parameters, every order, and malformed inputs",
  "no test reads or writes a configuration file",
  [CF, SC, MA], [("serde defaults", CF), ("read_config", SC), ("config-desc", MA)], [("config.toml", "configuration file", "working directory")], ["read_config, sc --config-desc"])

p("C18", "Every batch gets fresh log files and settings survive",
  "Every simulation mode that logs writes each run to its own file, numbered consecutively from the stored offset, and afterwards the offset has advanced by the number of runs, so that over any sequence of invocations no data file of an earlier run is truncated or altered by a later run, sampling, fitting or averaging invocation (averages rewrite only their own output). "
  "The configuration file otherwise keeps the user's settings: command-line overrides affect only the invocation that gives them.",
  ["histories", "configurations"], "every sequence of invocations, modes, overrides, numbers of runs and threads",
  "the command-line program has no tests",
  [OB, MA, SC], [("offset numbering and config rewrite", "run_* in src/obs.rs"), ("log file creation", "SpinChain::new")],
  [("offset", "first free log number", "config.toml")], ["working directory before and after each invocation"])

p("C19", "Log rows are on the requested time grid",
  "A time-evolution log has one row for the initial time and then one per step of dt (every whole drive period when stroboscopic) from the start time -trel (from -t in response mode) up to the first step at or beyond the end time, none missing or repeated, each at t0 + n dt up to rounding. "
  "Stroboscopic rows fall on whole multiples of the period for every period that is a whole number of steps, and the period override changes only the drive.",
  ["inputs", "configurations"], "every dt, tau, t, trel for which the period is a whole number of steps, and every mode that logs",
  "the command-line program has no tests",
  [OB], [("step loop and stroboscopic test", "run_sim, run_sim_response, run_ext, run_langevin")], [], ["time column of the log files"])

p("C20", "Log rows report the state of that run at that time",
  "Each log row holds, for the state at its time, the total energy density, subsystem energy, subsystem magnetisation per site, total z magnetisation per site and two sample spins (for the edge-coupled chain both energy columns are the subsystem energy and the last is the energy-flow term; for the profile log the local energy and spin of each interior subsystem site), so consecutive rows are linked by the equations of motion in the configured fields and drive. "
  "Files of different runs of a batch are complete, statistically independent, and not mixed, whatever the number of threads.",
  ["inputs", "configurations", "schedules"], "every state, configuration, mode and thread count",
  "the command-line program and logging have no tests",
  [OB, SC, LA], [("log, log_ext", SC), ("log", LA)], [], ["log files"])

p("C21", "Sampling runs write exactly the requested number of intact samples",
  "Monte Carlo, histogram, trajectory and single-shot modes write exactly the requested number of rows, each once, complete and well formed with the documented columns, appended after any rows already present, for every positive number of samples and threads, whether or not the samples divide evenly among the threads, and however slow the disk is. "
  "Each row is a sample of the configured ensemble (unit spins, values within their physical bounds and consistent with one another).",
  ["configurations", "schedules", "fault_sequences"], "every number of points and threads, every mode, and every speed of the output device",
  "the command-line program has no tests",
  [OB, WR], [("background writer", WR), ("work split", "run_mc, run_mc_magnus, gen_hist*, run_tau")], [], ["sample files and pipes"])

p("C22", "Spatial profiles are exact averages over all samples",
  "Spatial profile files have one row per site, in order, holding the average over exactly the requested samples of the local exchange energy (half of each of the two bonds at the site) and of the three spin components, so that row averages reproduce the total exchange energy and magnetisation. "
  "Profile runs always finish, for every positive number of points, threads, period and step, and dynamical profiles are taken once per run at the step nearest each multiple of 500 periods.",
  ["configurations", "schedules"], "every chain size, number of points, runs, threads, period and step",
  "the command-line program has no tests",
  [OB, WR], [("profile accumulation", "profile_in_bg"), ("profile sampling", "run_mc_profile, run_dyn_profile")], [], ["profile files"])

p("C23", "Averages over log files are exact",
  "The average file has, for each row index, the column-wise arithmetic mean over all log files of the configured name (the name followed by a number) that have that row, and the two-point file the mean of each quantity times its value at t = 0 in the same file (the time column averaged as is; files without a row at t = 0 have no such product). "
  "All data rows of all matching files are used, headers are not data, and the logs are not changed.",
  ["inputs", "histories"], "every set of log files of any lengths, with and without header, and every file name prefix",
  "the command-line program has no tests",
  [OB], [("averaging", "average, two_point_average")], [], ["avg.dat, two-point.dat"])

p("C24", "Temperature fits return the temperature of the requested energy",
  "Each fitting mode appends one row with the inverse temperature at which the mean energy of its ensemble equals the requested energy density (clamped to the search range), to the accuracy of its Monte Carlo sampling, followed by the ensemble averages of energy and magnetisation at that temperature. "
  "The ensembles are those of the lab-frame and rotating-frame Magnus Hamiltonians (fitting that Hamiltonian), and of the undriven chain in an additional field of 1 along x on the driven sites and -omega along z everywhere (fitting either the total energy or the part without the z field). The row starts with the period and the target, or initial temperature, actually used.",
  ["inputs", "configurations"], "every target energy, period and chain",
  "the command-line program has no tests",
  [OB, MA], [("bisection on the sampled energy", "find_beta*"), ("averages", "get_obs*")], [], ["beta.dat, betat*.dat"])

p("C25", "The spin spectrum is the power spectrum of the spins",
  "The spectrum of a chain of any length, odd lengths included, has one non-negative entry per wavenumber k = 2 pi n/L, ordered from the most negative k through k = 0, equal to the sum over components of the squared modulus of the discrete Fourier transform of the spins, so that it adds up to L times the sum of squared spin lengths.",
  ["inputs"], "every chain length >= 1 and spin state",
  "no test calls it",
  [SC], [("FFT and shift", "SpinChain::energy_spectrum")], [], ["energy_spectrum"])

p("C26", "No valid configuration crashes, hangs or yields non-numbers",
  "Every mode, on every valid configuration (any drive, odd or even sizes with 2 <= ssize <= hsize, more threads than work, periods shorter than a step, infinite or tiny temperature, zero couplings and fields), terminates successfully and writes only finite numbers, without panics, arithmetic overflow, out-of-bounds access, data races or deadlock. "
  "Invalid configurations are refused without damaging existing files.",
  ["configurations", "schedules", "inputs"], "every valid configuration, mode and thread schedule; runs, threads and points are positive; a bath of infinite temperature (beta = 0 with the edge-coupled mode) is infinite noise and counts as invalid",
  "the tests construct the default configuration only",
  [MA, OB, SC, LA, WR], [("all modes", MA)], [], ["exit status, stderr, output files"])

p("C27", "A killed run loses nothing that was there",
  "Whenever the program is killed, be it in the middle of writing a file, config.toml is complete and holds the settings either of before or of after the batch, files of earlier runs and rows appended by earlier invocations are intact, and what the killed run wrote is the beginning of what it would have written. "
  "The next invocation succeeds, goes on from the stored offset and writes the same logs and averages as if the killed one had not been.",
  ["crash_points", "histories"], "every mode, configuration and moment at which it is killed, in particular before, during and after every operation that changes a file",
  "no test interrupts anything",
  [OB, CF, SC, WR], [("replacing the configuration", "Config::save"), ("update_config", OB), ("log files", "SpinChain::new, log")], [("config.toml", "configuration file", "working directory")], ["files after SIGKILL at numbered file operations"])

p("C28", "Failed writes are neither silent nor destructive",
  "When the operating system interrupts or shortens writes, the program writes the same files as undisturbed. "
  "When it refuses to open or write a file (disk full, I/O error, quota, no descriptors), once or from then on, the program ends, and successfully only if every row of every file is there and the batch is accounted for in config.toml; whatever fails, config.toml holds the complete settings of before or after, and files of earlier runs and rows of earlier invocations are intact.",
  ["fault_sequences", "configurations"], "every mode, configuration, file operation that fails and error",
  "no test injects faults",
  [OB, CF, SC, LA, WR], [("waiting for the runs", "wait_for_runs"), ("background writers", WR), ("log", "SpinChain::log, SpinChainLangevin::log")], [("config.toml", "configuration file", "working directory")], ["files and exit status under injected faults"])

p("C29", "Equivalent requests produce the same data",
  "Requests that mean the same write the same data. Every run, sampling and fitting mode starts from and uses the inverse temperature given by -b, and otherwise the one determined by the configured energy density, whatever inverse temperature the configuration holds from earlier. Simulation runs start in the thermal state of the undriven chain at that temperature (the edge-coupled chain in that of its exchange alone). "
  "The period override is the same as that period in the configuration (modes given their own periods use those, whatever the configuration and -t say); options and parameters left out are the documented defaults; parameters which a mode does not use have no influence on it. "
  "An elliptic drive of eccentricity 1 is the circular and of 0 the uniaxial one, no drive is a static one of zero, and a field on a driven subsystem that is the whole chain is a field everywhere. A stroboscopic log is the ordinary log at the start and at whole periods.",
  ["configurations", "inputs"], "every mode, configuration and override, under the same random numbers",
  "the command-line program has no tests",
  [MA, OB, CF, SC, LA], [("overrides and temperature", MA), ("modes", OB), ("drive", "SpinChain::h_ext")], [("config.toml", "configuration file", "working directory")], ["all data files of pairs of invocations"])

p("C30", "A batch runs on the configured threads, in bounded memory",
  "Every mode that spreads its work over threads (simulation runs, profiles, Monte Carlo and single-shot samples, periods given to -n) does so on exactly the configured number of them when there is that much work, and on no more. "
  "Rows are written as they are produced: however long a run or a trajectory and however many log files are averaged, the memory used does not grow with the amount of data written or read, and only the files of the runs in progress are open.",
  ["configurations", "schedules"], "every mode, number of threads and jobs, length of run and number of files",
  "tests do not look at resources",
  [OB, CF, WR, SC, LA], [("thread pools", OB), ("log", "SpinChain::log, SpinChain::log_ext, SpinChainLangevin::log"), ("averages", "average, two_point_average")], [("config.toml", "configuration file", "working directory")], ["CPU time per thread, descriptors and peak memory of the process"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
