"""Writes properties.jsonl (kept as a script so that the statements stay readable and in step)."""
import json
S = "gym_anm/simulator/simulator.py"; L = "gym_anm/simulator/solve_load_flow.py"; D = "gym_anm/simulator/components/devices.py"
B = "gym_anm/simulator/components/branch.py"; U = "gym_anm/simulator/components/bus.py"; K = "gym_anm/simulator/components/constants.py"
N = "gym_anm/simulator/check_network.py"; E = "gym_anm/envs/anm_env.py"; V = "gym_anm/envs/utils.py"
A6 = "gym_anm/envs/anm6_env/anm6.py"; AE = "gym_anm/envs/anm6_env/anm6_easy.py"; AN = "gym_anm/envs/anm6_env/network.py"
R = "gym_anm/envs/anm6_env/rendering/py/rendering.py"; W = "gym_anm/envs/anm6_env/rendering/py/servers.py"; J = "gym_anm/envs/anm6_env/rendering/js/"
M = "gym_anm/agents/mpc.py"; MC = "gym_anm/agents/mpc_constant.py"; MP = "gym_anm/agents/mpc_perfect.py"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "A reported power flow solution satisfies the AC power flow equations",
  "Whenever a transition or reset reports that the power flow converged, the reported bus voltages, bus currents and bus power injections satisfy the AC power flow equations of the network described by the input dictionary (S = V conj(YV), with branch pi-models, taps, phase shifters and line charging) to within the solver tolerance. Each non-slack bus injects exactly the sum of its devices' injections, and the slack bus is held at angle 0 and magnitude 1 p.u. for any choice of bus IDs (non-contiguous, unsorted, slack anywhere).",
  "inputs configurations histories", "every valid network (topology, impedances, taps, shifts, IDs, base) and every load/generation/set-point input and operating history",
  "The tests solve three hand-written 2/3-bus networks with contiguous IDs and slack ID 0; a wrong term (tap, shift, shunt, ordering, Jacobian, tolerance) only shows on other networks.",
  [S, L, B], [("nodal admittance matrix", S), ("Newton-Raphson load flow", L)], ["Simulator.state after transition()/reset()", "Simulator.Y_bus"])
p("C02", "The convergence flag is honest in both directions",
  "The convergence flag is False whenever the network has no power flow solution for the resulting injections (loading beyond the maximum transferable power, islanded buses), and it is True, with the high-voltage solution reported, for every operating point that has a normal (near-nominal) solution. A collapsed transition never leaves the simulator unable to solve the next one.",
  "inputs configurations histories", "all loadings on either side of the nose curve, all networks with a constructed near-nominal solution, every sequence of collapsed and normal transitions",
  "Only one collapsing example is in the tests; honesty near the nose, or after a collapse, quantifies over loadings and histories.",
  [L, S, E], [("stopping rule and non-finite detection", L), ("flat start of every solve", L)], ["pfe_converged returned by Simulator.transition()/reset()"])
p("C03", "Active and reactive power are conserved everywhere",
  "In every converged state, the injection reported for a bus equals the sum of the injections reported for its devices (slack bus included, with other devices also connected to it) and the sum of the flows reported on and implied for its branches. Summed over the network, generation minus consumption equals the series losses of the branches, which are never negative.",
  "inputs configurations histories", "all networks, device placements (several devices per bus, loads/storage at the slack bus), inputs and histories",
  "Tests check one network's numbers, with only the slack device at the slack bus; conservation must hold for every placement and operating point.",
  [S, L, B], [("bus injection aggregation", S), ("slack balance", L), ("branch flows", B)], ["Simulator.state bus_p/bus_q/dev_p/dev_q/branch_p/branch_q"])
p("C04", "Branch flows follow the pi-model, with direction, maximum of both ends and sign",
  "For every branch, the reported sending-end P, Q and current equal those of its pi-equivalent (series impedance, line charging, tap magnitude at the sending end, phase shift) evaluated at the reported bus voltages. The reported apparent power is the larger of the two ends' apparent powers, positive when active power flows from the sending end (P >= 0) and negative otherwise.",
  "inputs configurations", "all branch parameters (r, x, b, tap, shift, including defaults), orientations and voltages",
  "test_branch checks a handful of parameter sets at fixed voltages; direction reversal, reactive-only flows, off-nominal taps and charging interact.",
  [B, S], [("branch current and power flow computation", B)], ["Simulator.state branch_*"])
p("C05", "The reported state is complete and its units agree",
  "After every transition and reset, the full state reports every documented quantity for every bus, device or branch it applies to (and no other), in every documented unit. The units of one quantity always describe the same physical value (MW/MVAr/MVA/MWh = p.u. x base power, kV = p.u. x base voltage, kA = p.u. x base power / base voltage, degrees = radians x 180/pi, angles in (-180, 180]).",
  "inputs configurations histories", "all networks (mixed base voltages, base powers), inputs and histories",
  "Tests compare a few p.u. values on one base power and one base voltage.",
  [S, K], [("state dictionary construction", S)], ["Simulator.state", "return value of Simulator.transition()"])
p("C06", "Applied set-points always lie in the device's feasible region",
  "Whatever set-points, demands and potential generation are requested, the (P, Q) injection applied for each non-slack device satisfies all of its operating limits at that time: the [PMIN, PMAX] x [QMIN, QMAX] box, the current potential generation, the sloped P/Q capability limits given by P+/P-/Q+/Q-, the energy available or storable within one time step, and for loads the clipped demand at the fixed Q/P ratio.",
  "inputs configurations histories", "all device parameterizations, all requested set-points (far outside, on edges, on vertices), all SoC levels and histories",
  "Tests map a small grid of points for a few devices; limits interact (potential generation with slopes, SoC with slopes).",
  [D, S], [("set-point mapping", D)], ["Simulator.state dev_p/dev_q"])
p("C07", "Set-points are mapped to the closest feasible injection",
  "For generators and storage units, the applied (P, Q) is the feasible point closest (Euclidean) to the requested one; in particular a feasible request is applied unchanged, and mapping an applied point again changes nothing. No request makes the mapping fail.",
  "inputs configurations histories", "all device regions and requested set-points (in, out, on boundary), including regions with unbounded limits and at empty/full SoC",
  "Closest-point is an optimality claim over a continuum of requests; tests check about 10 points.",
  [D, S], [("set-point mapping", D)], ["Simulator.state dev_p/dev_q against transition() inputs"])
p("C08", "State of charge follows the storage dynamics and stays in bounds",
  "After every transition the SoC of each storage unit equals the previous SoC plus efficiency x charged energy, or minus discharged energy / efficiency, for the injection actually applied over one time step, and it always lies within [SOC_MIN, SOC_MAX]. Energy is neither created nor lost beyond the efficiency over any sequence of transitions, including collapsed ones.",
  "inputs configurations histories", "all efficiencies, time steps, capacities, set-point sequences of any length",
  "Tests apply single updates; drift, bound hits, and interplay with the set-point limits need long histories.",
  [D, S], [("SoC update", D), ("SoC-dependent P limits", D)], ["Simulator.state des_soc"])
p("C09", "The simulator's reward is minus (energy loss + penalty) of the reached state",
  "The energy loss returned equals delta_t x (total generator, slack and load injection + curtailed renewable energy), and the penalty equals delta_t x lambda x (sum of voltage-limit excesses of buses + rating excesses of branches at the larger end), both in p.u. and evaluated on the state reached; reward = -(loss + penalty). Penalty is never negative and is 0 exactly when no limit is violated.",
  "inputs configurations histories", "all networks, limits, lambda, delta_t, operating points with any set of violations",
  "Tests check a handful of states; the reward has one term per device type, bus and branch.",
  [S], [("reward computation", S)], ["reward, e_loss, penalty returned by Simulator.transition()"])
p("C10", "Environment rewards are clipped as configured and terminal states are absorbing",
  "In a non-terminal step the environment returns -(sign-preserving clip of the energy loss + clip of the penalty) with the configured clipping values, and exposes both clipped costs. A step in which the network collapses is terminal: reward -penalty_clip/(1-gamma), zero state and observation, costs at their clipping values; from then on every step returns the zero observation, reward 0 and terminated=True until reset, which restores normal operation.",
  "inputs configurations histories", "all clipping values (including none), gamma in [0,1], and action sequences before, at and after collapse and resets",
  "No stable test covers env.step(); terminal behaviour needs histories.",
  [E], [("reward clipping", E), ("terminal branch of step", E)], ["ANMEnv.step() return values, env.e_loss/penalty/terminated/state"])
p("C11", "State, action and next-variable vectors are wired to the right devices",
  "The action vector is read as [P of non-slack generators, Q of non-slack generators, P of storage, Q of storage] and the internal-variable vector as [loads, potential generation, aux], each ordered by increasing device ID; the state vector is [dev P (MW), dev Q (MVAr), SoC (MWh), potential generation (MW), aux] in the same order. This holds for any device IDs, row order and number of devices of each type.",
  "inputs configurations histories", "all device ID assignments (shuffled, non-contiguous, >10 devices), all type mixes, K >= 0",
  "Tests never step an environment with shuffled device IDs; wiring mistakes cancel on ANM6 where the order is regular.",
  [E, S], [("vector slicing in step()", E), ("device ordering", S), ("reset() slicing", S)], ["ANMEnv.state, ANMEnv.step(action), next_vars()"])
p("C12", "Observations carry exactly what was asked for",
  "For every observation specification (the whole state, a list of quantity/ids/unit tuples with 'all' and default units, or a callable), the returned observation holds the requested quantities of the current state in the requested order and units, clipped to the observation space, and always belongs to the observation space with its dtype and shape. A callable receives the current state vector.",
  "inputs configurations histories", "all observation specifications over all quantities, units and id subsets, with and without aux bounds, at reset and at every step",
  "The two observation-space test files cover few specifications and one is not reliable here.",
  [E, V, K], [("observation construction", E), ("default units", K)], ["obs returned by reset()/step()", "ANMEnv.observation_space"])
p("C13", "Declared spaces and bounds are correct and respected",
  "The action space and the declared state bounds are exactly those implied by the network specification, per device/bus/branch and in every unit (buses: the sum over their devices), and the rendering limits are the operating limits (ratings, voltage limits). Every quantity reported in a converged state lies within its declared bounds.",
  "inputs configurations histories", "all networks (including defaults/unbounded limits) and all reachable states",
  "Tests check the bounds of one network in which PMAX = QMAX; containment of reachable states is never tested.",
  [S, E, D, U], [("state space construction", S), ("action space construction", E), ("bus bounds", S)], ["Simulator.state_bounds, get_action_space(), get_rendering_specs(), env.action_space/observation_space"])
p("C14", "Reset honours the requested initial state and forgets the past",
  "After reset with an initial state, loads, generators and storage inject the (feasibility-mapped) powers given, potential generation, SoC and aux equal the given values (limited to their bounds), and the power flow is solved for them; resetting to a state reached earlier reproduces it. The result and every later transition are independent of anything that happened before the reset, including collapses.",
  "inputs histories configurations", "all initial states (feasible or not), all histories before the reset",
  "No stable test compares a reset after a history with a fresh simulator.",
  [S, E], [("reset", S), ("environment reset", E)], ["Simulator.state after reset()", "ANMEnv.state after reset()"])
p("C15", "Seeded runs are reproducible and environments are isolated",
  "Resetting with the same seed and applying the same actions yields identical observations, rewards, dates and termination, in the same process, in another process, and for a deep copy continuing from the same point. Environments running interleaved never influence one another or the global random state, and the global random state never influences them.",
  "histories schedules inputs", "all seeds, action sequences and interleavings of several environments",
  "No test runs two environments or repeats a seed.",
  [E, A6, AE, "gym_anm/envs/anm6_env/utils.py"], [("seeding through gymnasium's np_random", E)], ["step()/reset() outputs of twin environments"])
p("C16", "Caller data is never modified and returned data never changes afterwards",
  "Building, resetting and stepping never modify the network dictionary, action, initial-state or internal-variable arrays or set-point dictionaries supplied by the caller. Observations, state vectors and full-state dictionaries already handed out never change later, and modifying a returned observation does not affect the environment.",
  "histories inputs", "all call sequences with snapshots of every array handed in or out",
  "Aliasing is invisible to tests that look at one step's values.",
  [E, S], [("vector construction", E), ("state dictionary construction", S)], ["arrays passed to and returned by ANMEnv/Simulator"])
p("C17", "A network specification is accepted if and only if it is valid",
  "Constructing a simulator or environment raises the documented network-specification error class for every violation of the input rules (base power, unique slack bus/device, matching slack, unique IDs, existing buses, no parallel branches, ranges of impedances, ratings, taps, shifts, voltages, device limits, SoC and efficiency), wherever in the file it occurs, and accepts every specification that satisfies them, including boundary values and omitted optional values.",
  "inputs configurations", "all single- and multi-fault mutations of all valid network dictionaries, any row/device position",
  "Tests mutate one row of tiny networks; acceptance of valid boundary cases is not tested.",
  [N, D, B, U, "gym_anm/simulator/components/errors.py"], [("specification checks", N), ("per-component checks", D)], ["exception class raised by Simulator(network, ...)"])
p("C18", "Invalid environment arguments, vectors and actions are rejected",
  "Creating an environment with an invalid K, delta_t, lambda, gamma, observation specification, unit or aux bounds raises the matching configuration error, and valid ones are accepted. A wrongly sized initial state or internal-variable vector, an action outside the action space (shape, bounds, NaN), or 100 infeasible initial states in a row raise the documented error instead of silently continuing, and a rejected action leaves the environment unchanged.",
  "inputs configurations histories", "all argument combinations at and beyond their limits; all wrong sizes and out-of-space actions at any point of an episode",
  "No stable test constructs an ANMEnv with invalid arguments.",
  [V, E, "gym_anm/errors.py"], [("argument checks", V), ("size and action checks", E)], ["exceptions raised by ANMEnv construction, reset(), step()"])
p("C19", "ANM6Easy repeats its documented 24-hour cycle indefinitely",
  "In ANM6Easy, the aux variable advances by one 15-minute slot per step and wraps after 96, loads and potential generation follow the documented fixed daily profile for that slot (constant scenarios, linear 2-hour transitions) on every day, whatever the actions and the starting slot. The displayed date always equals the initial midnight plus the slot plus elapsed time, and the year count the number of 365-day periods elapsed.",
  "histories inputs", "all starting slots, seeds, action sequences, episodes longer than a day/a year, resets in between",
  "The tests never run ANM6Easy past its first steps against the profile nor check the date.",
  [AE, A6, AN], [("time series", AE), ("date bookkeeping", A6)], ["ANM6Easy state/obs, env.date, env.year_count"])
p("C20", "The MPC agent always returns a valid action and only observes",
  "In any environment whose problem is feasible, at any reachable non-terminal state and for every horizon, the MPC agent's action is finite, belongs to the action space, requests zero reactive power, and respects potential generation and available storage energy for the first step; acting never changes the environment or its random state. It works for any IDs, any number (including zero) of loads, generators and storage units, and unlimited ratings or powers.",
  "inputs configurations histories", "all environments (IDs, device mixes), states, horizons 1..N, safety margins",
  "The only test uses ANM6Easy (contiguous IDs, all device types present).",
  [M, MC, MP], [("DC OPF construction and action extraction", M)], ["MPCAgent.act(env)", "environment before/after act()"])
p("C21", "The MPC action is optimal for the stated DC optimal power flow",
  "The action returned is the first stage of an optimal solution of the multi-stage DC optimal power flow for the forecasts: minimal discounted sum of non-renewable and slack generation plus lambda x flow beyond the safety margin of each rating, subject to DC balance, device limits, forecasts and SoC dynamics with efficiency. No feasible plan has a lower cost than the best plan starting with the returned action.",
  "inputs configurations histories", "all forecasts, network parameters, SoC levels, horizons, gamma, lambda and safety margins",
  "Optimality is a claim over all plans; the test checks feasibility-type equalities on one network.",
  [M], [("objective and constraints", M)], ["MPCAgent.act(env) with a supplied forecast()"])
p("C22", "MPC forecasts have the promised content",
  "Constant forecasts repeat the current load injections and potential generation for every stage, in p.u. and device-ID order. Perfect forecasts in ANM6Easy equal, for every stage and across midnight and multi-day horizons, the loads and potential generation that the environment then realizes.",
  "histories inputs", "all time slots, horizons (including beyond a day), operating histories",
  "The tests never call the perfect-forecast agent.",
  [MC, MP, AE], [("constant forecast", MC), ("perfect forecast indexing", MP)], ["MPCAgent*.forecast(env) against later states"])
p("C23", "Every rendered frame reports the true state in valid JSON",
  "The messages sent to the visualization are valid JSON (no NaN/Infinity) in every state including collapse and with or without cost clipping; the init message carries the operating limits, ratings, cost ranges and title, and each update carries the current date, year count, injections, signed flows, SoC, potential generation, voltages, costs and collapse flag of the environment in device/bus/branch order. With skip_frames=n exactly one of every n+1 render calls sends an update.",
  "histories inputs configurations", "all states (normal, overloaded, collapsed, after reset), cost clipping settings, skip values and render call sequences",
  "No test renders.",
  [A6, R, S], [("render", A6), ("message construction", R), ("rendering specs", S)], ["messages received by a viewer connected to the WebSocket server"])
p("C24", "Viewers receive init first, then every update once and in order; close cleans up",
  "Every viewer connected to a rendering session, whether before or after the session was initialized, receives the init message and afterwards every update sent while connected, exactly once and in the order sent; slow, leaving or crashing viewers do not affect others or the environment. Sessions of several environments do not mix, and closing ends the server processes and frees the ports.",
  "schedules histories fault_sequences", "all connection/disconnection schedules of several viewers, several concurrent sessions, close/re-open",
  "No test starts the servers.",
  [W, R, A6], [("WebSocket server callbacks", W), ("server start/stop", R)], ["messages at WebSocket viewers, server processes, ports"])
p("C25", "Results do not depend on labels or row order",
  "Renumbering buses and devices, reordering the rows of the network dictionary and reordering branches changes nothing but the labels: every transition yields the same physical state per bus, device and branch and the same reward, and reversing which end of a plain line is the sending end only swaps the reporting end.",
  "configurations inputs histories", "all permutations and relabelings of all networks and operating histories",
  "Metamorphic: needs pairs of networks; tests have contiguous labels in row order only.",
  [S, L, E, N], [("ordering by ID", S), ("bus ordering in the load flow", L)], ["Simulator.state of twin simulators"])
p("C26", "Results do not depend on the base power or on spelling out defaults",
  "Expressing the same physical network with a different base power yields the same physical results (MW, MVAr, MWh, kV, degrees, energy loss in MWh), and replacing an omitted optional value by its documented default yields an identical simulator.",
  "configurations inputs", "all base powers and all subsets of optional values",
  "Metamorphic: tests use one base power per case and never compare.",
  [S, D, B], [("per-unit conversion", D), ("defaults", B)], ["Simulator.state and bounds of twin simulators"])
p("C27", "Any action in the action space is always safe to take",
  "From any reachable state of any valid environment, any action in the action space (including extreme corners and random long sequences) yields a step without exception, with finite observation, state and costs within clipping when not terminal, and a terminal flag otherwise. All internal-variable values, in or out of range, are likewise tolerated by clipping to device limits.",
  "inputs histories configurations", "all environments, actions, internal variables and episode lengths",
  "Robustness over all inputs and histories; no stable test steps an environment.",
  [E, S, D, L], [("input clipping and mapping", D), ("terminal handling", E)], ["ANMEnv.step()"])
p("C28", "Environments conform to the Gymnasium API",
  "reset returns (observation, info dict), step returns (observation in the observation space with its dtype, real reward, bool terminated, bool truncated=False, info dict), spaces are consistent with the vectors used, seeding follows the Gymnasium contract, the registered ANM6Easy-v0 id can be made, an action has the same effect in whatever numeric type it is given, and environments run unchanged inside standard Gymnasium wrappers and vector environments with the same results as unwrapped.",
  "histories inputs configurations", "all registered and custom environments, wrappers and episodes including terminal and post-terminal steps",
  "No test uses gymnasium's checker, wrappers or make().",
  [E, A6, AE, "gym_anm/__init__.py"], [("gymnasium.Env subclassing", E), ("registration", "gym_anm/__init__.py")], ["gymnasium.make, env_checker, wrappers"])
p("C29", "The visualization page displays each message faithfully",
  "After each update message the page shows, for every device, line, bus and storage unit of the network drawing, the numbers received (with units and limits ticks), bar heights proportional to value/limit and capped at the full height, colours and arrows according to sign, crosses exactly on the lines above rating and buses outside voltage limits, and the date, time, year count, costs and collapse mark received.",
  "inputs histories", "all init messages and sequences of update messages (signs, overloads, under/over-voltages, zero values, collapse and recovery)",
  "The JavaScript code has no tests.",
  [J + "init.js", J + "graph.js", J + "devices.js", J + "reward.js", J + "dateTime.js", J + "text.js", "gym_anm/envs/anm6_env/rendering/envs/anm6/svgLabels.js"],
  [("graph update", J + "graph.js"), ("element update", J + "devices.js")], ["SVG attributes/text after ws.onmessage"])
p("C30", "Time, horizon and penalty parameters act as documented",
  "Splitting, lengthening or re-weighting acts linearly: for the same injections, energy loss and penalty scale with delta_t, the penalty scales with lambda, and the energy loss does not depend on lambda; the storage energy exchanged and the displayed clock advance scale with delta_t, and the timestep attribute counts the transitions since the last reset. The value of gamma only affects terminal rewards and MPC discounting, never the dynamics.",
  "configurations inputs histories", "all pairs of delta_t/lambda/gamma values on the same network and inputs",
  "Metamorphic: needs pairs of environments with different parameters.",
  [S, E, A6, D], [("reward scaling", S), ("clock", A6)], ["twin simulators/environments"])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
