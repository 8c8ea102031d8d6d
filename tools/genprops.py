"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
SIM, LF, DEV, BUS, BR = ("gym_anm/simulator/simulator.py", "gym_anm/simulator/solve_load_flow.py",
    "gym_anm/simulator/components/devices.py", "gym_anm/simulator/components/bus.py", "gym_anm/simulator/components/branch.py")
CST, CHK, ENV, EU = ("gym_anm/simulator/components/constants.py", "gym_anm/simulator/check_network.py", "gym_anm/envs/anm_env.py", "gym_anm/envs/utils.py")
A6, A6E, A6N, A6U = ("gym_anm/envs/anm6_env/anm6.py", "gym_anm/envs/anm6_env/anm6_easy.py", "gym_anm/envs/anm6_env/network.py", "gym_anm/envs/anm6_env/utils.py")
MPC, MPCC, MPCP = "gym_anm/agents/mpc.py", "gym_anm/agents/mpc_constant.py", "gym_anm/agents/mpc_perfect.py"
RND, SRV = "gym_anm/envs/anm6_env/rendering/py/rendering.py", "gym_anm/envs/anm6_env/rendering/py/servers.py"
JS = "gym_anm/envs/anm6_env/rendering/js/"
P = []
def add(id, title, statement, over, text, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))

add("C01", "A converged load flow satisfies the AC network equations",
    "Whenever a simulated transition reports that the load flow converged, the reported bus voltages solve the AC power flow equations of the input network: at every bus (the slack bus included) the complex power drawn through the network equals the sum of the injections of the devices connected there, within 1e-5 p.u. in both active and reactive parts, and the slack bus is held at its specified voltage magnitude with angle 0. This holds for any connected network the simulator accepts: any bus/device numbering and row order, any slack position, radial or meshed, with resistances, reactances, line charging, off-nominal taps and phase shifts.",
    ["inputs", "configurations"], "every accepted connected network and every vector of load, generation and set-point inputs",
    "tests solve a few hand-made 2-4 bus networks with contiguous IDs, slack bus 0 and V=1; the guarantee ranges over all topologies, numberings and injections",
    [SIM, LF, BR, BUS], [("Newton-Raphson load flow", LF + ": solve_pfe_newton_raphson"), ("nodal admittance matrix", SIM + ": Simulator._build_admittance_matrix"), ("bus injections", SIM + ": Simulator._get_bus_total_injections")],
    observe_at=["Simulator.transition return value: state['bus_v_magn'|'bus_v_ang'|'bus_p'|'bus_q'|'dev_p'|'dev_q'], converged flag"])

add("C02", "Network collapse is reported when, and only when, no solution is found",
    "A transition is reported as not converged when the requested injections have no power flow solution (e.g. a load beyond the maximum power transferable over its line), and as converged when the injections admit a healthy operating point (voltages near nominal, moderate angles). In every other case the transition still returns one of the two verdicts instead of raising an exception. When it is reported as converged, every reported electrical quantity is finite.",
    ["inputs", "configurations"], "every accepted connected network and injections on both sides of its loadability limit",
    "tests only reach solvable cases of small fixed networks; the boundary between solvable and collapsed depends on continuous network and load parameters",
    [LF, SIM], [("convergence verdict", LF + ": solve_pfe_newton_raphson (stable)"), ("iteration limit and tolerance", LF + ": _newton_raphson_sparse")])

add("C03", "Branch flows follow the pi-model and energy is conserved",
    "After a converged transition, each branch's reported active and reactive flow and current are those entering the branch at its sending end under the standard pi-model (series impedance, half line charging at each end, ideal transformer of complex tap at the sending end) for the reported bus voltages; its apparent power is the larger of the apparent powers at its two ends in magnitude, and carries the sign of the active flow (positive if zero). Each bus' reported current and power are the sum of what its branches draw, the slack device supplies exactly the slack bus injection not supplied by other devices there, and the total injected power equals the non-negative losses of the branches.",
    ["inputs", "configurations"], "every accepted connected network and every converged set of injections",
    "tests check branch formulas on isolated branch objects and few fixed networks; sign, tap side, charging and conservation must hold for all parameter combinations",
    [BR, LF, SIM], [("pi-model currents and flows", BR + ": TransmissionLine.compute_currents / compute_power_flows"), ("slack device balance", LF + ": solve_pfe_newton_raphson")])

add("C04", "Generator set-points map to the nearest physically feasible point",
    "For every active/reactive set-point requested from a non-slack generator, the applied injection is the point of its physical operating region closest (Euclidean) to the request: active power between its minimum and the lesser of its maximum and its current potential, reactive power within its limits, further restricted by the straight lines that narrow the reactive range from the full limits at the upper active-power knee to the reduced limits at maximum active power. Limits left unspecified do not restrict the injection; a feasible request is applied unchanged.",
    ["inputs", "configurations"], "every accepted generator specification (optional fields present or absent), potential and set-point, at any per-unit base",
    "tests sample set-points for a couple of generator shapes; the projection must be exact in every face/vertex/corner region of every shape",
    [DEV, SIM], [("region lines", DEV + ": Generator._check_type_specific_specs"), ("projection", DEV + ": Generator.map_pq"), ("potential clipping and unit conversion", SIM + ": Simulator.transition")])

add("C05", "Storage set-points map to the nearest point allowed by power and energy limits",
    "For every active/reactive set-point requested from a storage unit, the applied injection is the closest (Euclidean) point of its operating region at that time: active and reactive limits, the straight lines narrowing the reactive range near both maximum charging and maximum discharging, and the charging/discharging powers that over one time step would exactly fill the unit to its maximum or empty it to its minimum state of charge, accounting for efficiency in both directions. A feasible request is applied unchanged.",
    ["inputs", "configurations", "histories"], "every accepted storage specification, current state of charge, time step, efficiency in (0,1] and set-point",
    "tests sample one storage shape; state-of-charge limits interact with every face of the region and with the time step and efficiency",
    [DEV, SIM], [("region and SoC limits", DEV + ": StorageUnit.map_pq"), ("region lines", DEV + ": StorageUnit._check_type_specific_specs")])

add("C06", "State of charge follows the applied power and never leaves its limits",
    "Over any history of steps, each storage unit's state of charge changes in each step by exactly the efficiency times the energy it absorbed when charging, or by the energy it delivered divided by the efficiency when discharging, and always stays within its minimum and maximum. Consequently a unit can never deliver, over any history, more than efficiency squared times the energy it absorbed plus efficiency times the usable energy initially stored.",
    ["histories", "inputs"], "every sequence of set-points, including alternating and saturating charge/discharge cycles, several storage units, any time step and base power",
    "tests perform single updates; accumulation, saturation and cross-unit mix-ups only appear over histories",
    [DEV, SIM], [("SoC update", DEV + ": StorageUnit.update_soc"), ("order of mapping and update", SIM + ": Simulator.transition")])

add("C07", "Loads and potentials are clipped to limits, loads keep their power factor",
    "The active injection of each load is the requested demand clipped to the load's own [minimum, maximum] (maximum 0 and minimum unbounded when unspecified) and its reactive injection is exactly its fixed reactive/active ratio times that; the potential of each non-slack generator is the requested potential clipped to the generator's [minimum, maximum]. Each input acts on the device it is addressed to and on no other.",
    ["inputs", "configurations"], "every accepted network with any number, order and numbering of loads and generators, any base power and any (also out-of-range) demands",
    "tests use one load type with default limits; per-unit conversion and sign errors show only with non-default limits, ratios and bases",
    [DEV, SIM], [("load mapping", DEV + ": Load"), ("potential clipping", SIM + ": Simulator.transition; " + DEV + ": Generator.p_pot")])

add("C08", "The simulator reward is minus energy loss minus constraint penalty",
    "For every converged transition, the energy loss returned is the time step times the sum (in per-unit) of all generator and load active injections, slack included and storage excluded, plus the curtailed potential of renewable generators; the penalty is the time step times the penalty factor times the sum of bus voltage-limit violations and of branch apparent-power excesses over their ratings. The reward is minus their sum, and the penalty is zero exactly when no limit is violated.",
    ["inputs", "configurations"], "every accepted network, time step, penalty factor and converged transition, with and without violations, curtailment and storage use",
    "tests check a few assembled states; each of the terms must be weighted, signed and scaled correctly in every combination",
    [SIM], [("reward", SIM + ": Simulator._compute_reward")])

add("C09", "Rewards are clipped as configured, collapse is terminal and absorbing",
    "Each step's reward is minus the sum of the energy loss clipped in magnitude to the first clipping value (sign kept) and the penalty clipped to the second, both also exposed after the step; missing clipping values mean no clipping. When the load flow does not converge the step ends the episode with reward minus the second clipping value over one minus the discount factor (minus infinity if that is unbounded), an all-zero observation, and every later step returns the same zero observation, reward 0 and terminated true, until the environment is reset, after which it behaves like a fresh one. The truncation flag is never set.",
    ["histories", "inputs", "configurations"], "every clipping configuration, discount factor in [0,1] and history of steps and resets, including steps after collapse",
    "no existing test exercises collapse, terminal behaviour, clipping combinations or recovery after reset",
    [ENV], [("reward clipping and terminal handling", ENV + ": ANMEnv.step"), ("reset of the terminal flag", ENV + ": ANMEnv.reset")])

add("C10", "State and observation vectors contain exactly the selected quantities",
    "The state vector lists, in this order and sorted by device ID, the devices' active (MW) and reactive (MVAr) injections, the storage charges (MWh), the non-slack generators' potentials (MW) and the auxiliary variables; the observation equals the state vector when fully observable, the value of the user's function of the state when a function is given, and otherwise the listed quantities of the listed elements (all of that kind, sorted by ID or in branch input order, when 'all' is given) in the given unit (the documented default unit when omitted), each clipped to its declared bounds. The observation lies in the observation space after every reset and non-terminal step.",
    ["inputs", "histories", "configurations"], "every accepted observation specification (state, list with any quantities/IDs/units, function), network, K and history",
    "tests read one hand-picked list; selection, ordering and units multiply combinatorially across quantities, IDs and networks",
    [ENV, CST], [("state/observation construction", ENV + ": _extract_state_variables, observation"), ("expansion of 'all' and default units", ENV + ": _build_observation_space, _expand_all_ids")])

add("C11", "Reported quantities respect the declared bounds, which agree across units",
    "The declared lower bound of every quantity never exceeds its upper bound, the bounds equal the limits in the network specification (in each unit, consistently), and at every time step the reported injections of every non-slack device and bus, every potential, state of charge, voltage angle and the slack voltage lie within them. The observation space has exactly these bounds for the selected quantities, the declared auxiliary bounds for auxiliary variables, and unbounded where none is declared.",
    ["inputs", "histories", "configurations"], "every accepted network (optional fields absent, negative power factors, any base) and history, including infeasible initial states",
    "tests compare the bounds of one network built from typical values; unit mix-ups cancel when limits happen to be equal",
    [SIM, ENV, DEV], [("declared bounds", SIM + ": Simulator.get_state_space"), ("bus bounds", SIM + ": Simulator._compute_bus_bounds"), ("observation space", ENV + ": ANMEnv.observation_bounds")])

add("C12", "The action space is the device limits, and actions reach the right device",
    "The action vector holds the active set-points of the non-slack generators, their reactive set-points, then the active and the reactive set-points of the storage units, each sorted by device ID in MW/MVAr, and the action space bounds are those devices' limits. Stepping with an action drives each device to the feasible point nearest to its own entries and no other device; an action outside the space or of the wrong size is rejected without changing the environment.",
    ["inputs", "configurations", "histories"], "every accepted network with any mix, order and numbering of generators and storage units and every action in or out of the space",
    "tests use networks where device order and positions coincide; permutations between the four blocks are invisible there",
    [ENV, SIM], [("action space", ENV + ": ANMEnv._build_action_space; " + SIM + ": Simulator.get_action_space"), ("action decoding", ENV + ": ANMEnv.step")])

add("C13", "User-supplied variables reach the right devices, wrong sizes are rejected",
    "At each step the user's vector of next variables is interpreted as load demands, then generation potentials, then auxiliary variables, each sorted by ID, and each entry affects exactly its own load, generator or auxiliary variable; the user's function receives the current full state. A vector of any other length is rejected with the documented error, as is an initial state of the wrong length, and in either case no transition is made.",
    ["inputs", "configurations", "histories"], "every network shape, number of auxiliary variables and vector length",
    "no test exercises custom variable generators beyond one example; mis-routing needs distinct values and non-trivial orderings to show",
    [ENV], [("next variables", ENV + ": ANMEnv.step"), ("initial state size", ENV + ": ANMEnv.reset")])

add("C14", "Reset reproduces a feasible initial state and maps an infeasible one",
    "After a reset, the state vector equals the initial state supplied by the user wherever that is physically feasible (loads, non-slack generator and storage injections, storage charge, potentials, auxiliary variables), and otherwise the nearest feasible values (charges and potentials clipped to their limits, set-points mapped to the operating region). If the supplied initial state has no load flow solution another is requested, up to 100 times, after which the documented initialization error is raised; a feasible 100th candidate is accepted.",
    ["inputs", "configurations"], "every accepted network and initial state vector, feasible or not, and any number of infeasible candidates before a feasible one",
    "tests only reset with convenient states; the retry limit and mapping of infeasible states are never reached",
    [SIM, ENV], [("simulator reset", SIM + ": Simulator.reset"), ("retry loop", ENV + ": ANMEnv.reset")])

add("C15", "Trajectories are reproducible and environments are independent",
    "Two environments built from equal arguments and reset with the same seed, or one environment reset again with that seed after an arbitrary earlier history, produce identical observations, rewards and termination flags for the same actions. Environments never influence one another however their calls are interleaved, the result of a transition depends only on the previous charge and the inputs, and neither constructing nor stepping modifies the caller's network, observation specification, actions or supplied vectors.",
    ["histories", "schedules", "inputs"], "every pair of histories, interleavings of several environments, and seeds",
    "tests run single short episodes; leaks between instances, or from the past, need particular histories to show",
    [ENV, SIM, A6E, LF], [("seeding", ENV + ": ANMEnv.reset"), ("no warm start / no shared state", SIM + ": Simulator.transition")])

add("C16", "Malformed networks are rejected, well-formed networks are accepted and simulable",
    "Building a simulator or environment from a network that breaks a documented rule (non-positive base power; not exactly one slack bus, or slack device, or their mismatch; duplicate bus or device IDs; parallel branches; references to unknown buses; missing or out-of-range bus, device or branch parameters) raises an input-network error. Every network that obeys the rules, optional fields present or absent, is accepted and can be reset and stepped without error.",
    ["inputs", "configurations"], "every single-rule mutation of every well-formed network, and every well-formed network",
    "tests try a fixed list of mutations on one network; order-dependent or combination-dependent gaps and false rejections are not sampled",
    [CHK, DEV, BUS, BR], [("network checks", CHK + ": check_network_specs"), ("component checks", DEV + ", " + BUS + ", " + BR)])

add("C17", "Physics does not depend on numbering, row order, branch direction or base power",
    "Renumbering buses and devices, permuting rows, or reversing the direction of branches without transformer yields the same voltages, device injections, charges, losses, penalties and reward for the corresponding elements (flows swap ends). Expressing the same physical grid in another base power (impedances and charging rescaled) yields the same voltages in p.u. and the same quantities in MW, MVAr and MWh, with losses and branch penalties scaled accordingly.",
    ["inputs", "configurations"], "every accepted network, every permutation/renumbering and every ratio of base powers, over multi-step histories",
    "tests have no metamorphic pairs; a dependence on position or base is invisible in a single fixed network",
    [SIM, LF, DEV], [("ordering", SIM + ": Simulator._load_case"), ("per-unit conversion", DEV + "; " + BR)])

add("C18", "Invalid environment arguments are rejected with the documented errors",
    "Constructing an environment with a negative number of auxiliary variables, non-positive time step, negative penalty factor, discount factor outside [0,1], auxiliary bounds of the wrong length, or an observation specification of the wrong type, with malformed entries, unknown quantities, elements or units, raises the corresponding documented error; every specification listed as supported is accepted, and each supported unit of each quantity yields a usable observation.",
    ["inputs", "configurations"], "every combination of arguments and every observation specification built from supported and unsupported quantities, elements and units",
    "tests barely cover argument checks; the table of quantity/unit/element combinations is never enumerated",
    [EU, ENV, CST], [("argument checks", EU + ": check_env_args"), ("supported quantities and units", CST + ": STATE_VARIABLES")])

add("C19", "The ANM6-Easy task follows its published deterministic daily schedule",
    "In the ANM6-Easy task, from any reset and under any actions, the time of day advances by one 15-minute step (wrapping after 96) and the demands and generation potentials are the published fixed daily series at that time: constant in the published scenario periods and changing linearly during the two-hour transitions, identical every day. The displayed date advances by 15 minutes per step starting at the time of day of the initial state, the year count is the number of whole 365-day years elapsed, and the task's network, discount, penalty factor, clipping and bounds are the published ones.",
    ["histories", "inputs"], "every seed, start time, reset option and action sequence over several days",
    "tests run no ANM6-Easy episode; wrap-around, day boundaries and each of 96x5 schedule entries are unchecked",
    [A6E, A6, A6N, A6U], [("daily series", A6E + ": _get_load_time_series, _get_gen_time_series"), ("time of day", A6E + ": next_vars, init_state, reset"), ("date and year count", A6 + ": ANM6.step, reset, reset_date")])

add("C20", "MPC agents return an optimal first stage of their DC optimal power flow",
    "For any network, state and forecasts for which the N-stage problem is feasible, the action returned by the MPC agents lies in the action space, sets all reactive set-points to zero, and its active set-points are an optimal first stage of the discounted N-stage linear DC power flow problem: minimise non-renewable and slack generation plus the penalty factor times branch flows above the safety margin, subject to nodal balance with linearised flows, forecast demand, generator limits and forecast potentials, and storage power, efficiency and charge limits.",
    ["inputs", "configurations", "histories"], "every accepted network (with or without loads, generators, storage; any numbering), state of charge, forecast, horizon, margin and discount",
    "tests inspect the assembled problem for one environment and horizon; optimality for arbitrary states and horizons is never compared with an independent solution",
    [MPC], [("DC OPF", MPC + ": MPCAgent._single_step_optimization_problem, _create_optimization_problem, act")])

add("C21", "MPC forecasts match the present (constant) or the actual future (perfect)",
    "The constant-forecast agent predicts for every stage the loads' present injections and the generators' present potentials, and runs in every environment. The perfect-forecast agent in ANM6-Easy predicts exactly the demands and potentials that the environment then produces, for any time of day and any horizon including several days. Acting never changes the environment's state or future.",
    ["histories", "inputs", "configurations"], "every time of day, horizon, history and environment",
    "tests call an agent from one state; off-by-one and wrap-around errors need specific times of day and horizons",
    [MPCC, MPCP, MPC], [("forecasts", MPCC + ": forecast; " + MPCP + ": forecast")])

add("C22", "Rendering messages describe the actual network and current state",
    "The first message a visualization receives describes the network (device types, maximum injections, ratings, voltage limits, storage capacity, cost ranges, title) and each later one the state, date, costs and collapse flag at the time of the corresponding render call, as strictly valid JSON even when the network has collapsed or costs are unclipped. With skipped frames n, one in every n+1 render calls produces an update, rendering never affects the simulation, and it survives resets; the date advances by one time step (of any length) per step. The page served when rendering starts connects to this environment's own message server.",
    ["histories", "configurations", "inputs"], "every sequence of steps, resets and render calls, any number of skipped frames, collapsed and non-collapsed states",
    "no test covers rendering at all",
    [A6, RND], [("render", A6 + ": ANM6.render, _init_render, _update_render"), ("messages", RND + ": start, update")])

add("C23", "Every visualization client is initialized once, then receives every update",
    "For any order of clients connecting, leaving and messages being sent, the rendering server gives each connected visualization client the initialization message exactly once (whether it connects before or after that message is sent) and every update sent while it is connected, in order, unaltered. Clients leaving never disturb the others.",
    ["schedules", "histories"], "every interleaving of client connections, departures, one initialization and updates",
    "no test starts the server; the guarantee is about interleavings",
    [SRV], [("server callbacks", SRV + ": WsServer.new_client, msg_received, client_left")])

add("C24", "The web page displays the received values",
    "After an initialization and any sequence of updates, the page shows the latest values: device injections and colours by sign, bar heights proportional to the maximum and capped, curtailed potential, branch loading percentage with an overload cross exactly above 100 %, bus voltage with a violation cross exactly outside its limits, storage level, costs, date, time, year count and collapse mark. Flow arrows point in the direction of the power flow.",
    ["inputs", "histories"], "every message sequence with in-range, boundary and out-of-range values",
    "there are no tests of the client code",
    [JS + "init.js", JS + "devices.js", JS + "graph.js", JS + "reward.js", JS + "dateTime.js", JS + "text.js", "gym_anm/envs/anm6_env/rendering/envs/anm6/svgLabels.js"],
    [("message dispatch", JS + "init.js"), ("elements", JS + "devices.js: PowerInjection, TransmissionLine, Bus, StorageUnit")])

add("C25", "Environments obey the Gymnasium contract, returned data is never altered",
    "Every environment, including the registered task obtained by name, follows the Gymnasium contract: reset returns an observation and a dict; step returns an observation of the observation space's shape and type, a real-valued reward, two booleans and a dict; episodes are never truncated; the step counter counts the transitions since the last reset; an action sampled from the space is accepted. An observation or state obtained earlier is never altered by later calls, and writing into a returned observation vector never changes the environment.",
    ["histories", "inputs", "configurations"], "every environment configuration and history of reset/step calls",
    "tests make a handful of calls and do not keep earlier results to compare",
    [ENV, "gym_anm/__init__.py"], [("step/reset", ENV + ": ANMEnv.step, reset"), ("registration", "gym_anm/__init__.py")])

add("C26", "The full state is complete and consistent across units and elements",
    "The full state returned by every converged transition lists every bus, device, storage unit, non-slack generator and branch under each supported quantity and unit, and the same quantity in different units agrees: MW, MVAr, MVA and MWh are per-unit times the base power, kV is per-unit times the bus base voltage, kA is per-unit current times base power over base voltage, degrees are radians times 180/pi with angles in [-180, 180]. A bus' reported injection is the sum of the injections of the devices connected to it.",
    ["inputs", "configurations"], "every accepted network and converged transition, any base power and base voltage",
    "tests check units on one base; a wrong factor equals 1 for typical bases",
    [SIM], [("state dictionary", SIM + ": Simulator._gather_state")])

with open(OUT, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
        if len(p["title"]) > 80: print("TITLE", p["id"], len(p["title"]))
        n = p["statement"].replace("e.g.", "eg").replace("1.e", "").count(". ") + 1
        if n > 3: print("SENT", p["id"], n)
