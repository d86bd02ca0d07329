prop("P01", "Sized plants cover the design day exactly: enough, and no more",
     "For every load shape, daily use, run-hour limit, temperature set, defrost derate and aquastat, the sized heating capacity is exactly what produces the design day's hot water (plus the loop's heat for return-to-primary plants) within the allowed run hours, and the sized storage is exactly the worst shortfall of the design day - over every hour a peak can start - divided by the usable share of the tank at the aquastat. With a load-shift schedule both also cover riding through the first shed block after load-up at the requested coverage, never less than normal sizing; swing plants account for the swing tank's preheating minute by minute, multi-pass plants for the slug of unheated water, instantaneous plants for the peak hour. The plant that is built has exactly the sized tank and heater, and sizing without the data it needs is refused.",
     ["inputs", "configurations"], "all block and pulse load shapes on the level grid x run hours; all temperature, slope, aquastat and trigger combinations on the grid; every first shed block x load-up x coverage; all seven plant types",
     "tests size a handful of buildings; a wrong window, wrap-around at midnight, or missing term shows only for particular shapes, aquastats or schedules",
     [O + "dhwsystems/DHWSystem.py", O + "dhwsystems/InstantWHSystem.py", O + "dhwsystems/recirc_systems/SwingSystem.py", O + "dhwsystems/recirc_systems/ParallelLoopSystem.py", O + "dhwsystems/rtp_systems/SinglePassRTPSystem.py", O + "dhwsystems/rtp_systems/MultiPassRTPSystem.py"],
     [("sizing", "size / from_size of every system"), ("results", "get_minimum_capacity_kbtuh / get_minimum_storage_storageT_gal")],
     "Exhaustive enumeration of design problems on the real code against a reference day balance; the sized store is also replayed hour by hour from every starting hour.")
prop("P02", "Sizing and its queries leave nothing behind",
     "Whatever was sized, queried, plotted or refused before, in any order and on the daily or the annual load profile, sizing a plant and asking for its sizing curve, load-shift curve or back-up trade-off gives the same answer as on a fresh plant and building. None of these operations - successful or refused - changes the building (daily use, load shapes, daily/annual profile), the schedules and controls handed in, or the plant's sizing results and settings. Sizing on a building switched to its annual profile gives the daily-profile result and leaves it on the annual profile.",
     ["histories"], "all histories of up to three sizing operations on eleven plants, and all pairs of plants sized alternately on one building",
     "tests size once; a daily use that is not restored, a stale intermediate or a profile left switched shows only in the next query after a particular operation",
     [O + "dhwsystems/DHWSystem.py", O + "dhwsystems/InstantWHSystem.py", O + "dhwsystems/recirc_systems/SwingSystem.py", O + "dhwsystems/recirc_systems/SwingERTrdOffSystem.py", O + "dhwsystems/recirc_systems/ParallelLoopSystem.py", O + "dhwsystems/rtp_systems/SinglePassRTPSystem.py", O + "dhwsystems/rtp_systems/MultiPassRTPSystem.py"],
     [("sizing", "size / from_size of every system"), ("queries", "get_sizing_curve / get_ls_sizing_curve / get_er_sized_points / plot_sizing_curve"), ("profile switch", "Building.set_to_daily_load_shape / set_to_annual_load_shape")],
     "Exhaustive enumeration of operation histories on the real plants; after every operation building, inputs and results are compared, and the final answers with a fresh plant's.")
prop("P03", "Sizing curves are made of true sizings and mark the sized plant",
     "Every point of a sizing curve is exactly the capacity and storage that sizing at that point's run hours gives, the points run from 24 hours through the sized run hours towards the shortest possible with falling hours, rising capacity and falling storage, and the recommended point is the sized plant. A load-shift curve has one point per percent of coverage from 25 to 100, each exactly the sizing at that coverage and never below normal sizing, recommending the requested coverage (clamped to that range). The plot shows exactly these points, marks only the recommended one and its slider selects each point in turn with its own numbers.",
     ["inputs", "configurations"], "all points of the curves of 12 load shapes x run hours x slopes x aquastats, all 76 points of load-shift curves for every shed block start, all plant types",
     "tests look at the shape of one curve per plant; a single wrong point, a shifted recommended index or a curve computed with another aquastat is not noticed",
     [O + "dhwsystems/DHWSystem.py", O + "dhwsystems/InstantWHSystem.py", O + "dhwsystems/recirc_systems/SwingSystem.py", O + "dhwsystems/recirc_systems/SwingERTrdOffSystem.py", O + "dhwsystems/recirc_systems/ParallelLoopSystem.py", O + "dhwsystems/rtp_systems/SinglePassRTPSystem.py", O + "dhwsystems/rtp_systems/MultiPassRTPSystem.py"],
     [("curves", "get_sizing_curve / get_ls_sizing_curve"), ("plot", "plot_sizing_curve")],
     "Exhaustive enumeration of curves on the real code, every point compared with the reference sizing at that point.")
prop("P05", "Temperature-maintenance equipment is sized for its loop and holds it",
     "The loop loss is flow times temperature drop; a parallel-loop tank is sized to coast through its off time between its triggers and its heaters together to the loss times the safety factor, and settings that cannot work (safety factor not above 1, off time outside 0-1 h, off trigger not above on trigger, run time of 20 minutes or less) are refused. A swing tank is the smallest published size (with its California counterpart) that covers both the loop loss and the peak minute's draw, with an element of loss times safety factor (refused unless above 1), and a loop too large for the largest size is refused. The built plant, run with no demand from any starting temperature, never lets the loop fall more than one step's drop below its on trigger nor heats above its off trigger.",
     ["inputs", "configurations", "histories"], "required volumes just below, at and above every published size; the grid of loop settings and the complete refusal grid; complete idle cycles",
     "tests size a few loops in the middle of a size class and never run them",
     [O + "dhwsystems/recirc_systems/SwingSystem.py", O + "dhwsystems/recirc_systems/ParallelLoopSystem.py", O + "dhwsystems/recirc_systems/RecircSystem.py", O + "dhwsystems/rtp_systems/RTPSystem.py", O + "dhwsystems/rtp_systems/SinglePassRTPSystem.py", O + "components/storage/MixedStorageTank.py"],
     [("loop tank", "ParallelLoopSystem.size / from_size"), ("swing tank", "SwingSystem.size"), ("results", "get_minimum_tm_volume_gal / get_minimum_tm_ca_volume_gal / get_minimum_tm_capacity_kbtuh")],
     "Exhaustive enumeration of loops around every size boundary against closed-form sizes; minute-by-minute idle cycles of the real plant from all starting temperatures on the grid.")
prop("P22", "Electric back-up of swing tanks covers the worst minute of the design days",
     "For every load shape and every (also undersized) primary plant, the back-up element is exactly the power that closes, in one minute, the largest drop below supply temperature met when two design days from the first peak are replayed minute by minute with the primary store starting empty and starting full, times its safety factor; it is added to the loop's element and changes nothing else, and the built swing heater has the total. The trade-off curve gives that total, in kW, for shares of the load from 120 % down in steps of 10 to the first share that needs no back-up, with the sized plant at 100 %, never decreasing with load. It is refused where no back-up is needed or before sizing.",
     ["inputs", "configurations", "histories"], "10 load shapes x run hours x loops sized from scratch; undersized heaters and stores, one or several heaters; all trade-off points",
     "tests check that some back-up is found; the size depends on the worst of 5760 minutes",
     [O + "dhwsystems/recirc_systems/SwingERTrdOffSystem.py", O + "dhwsystems/recirc_systems/SwingSystem.py"],
     [("element", "SwingERTrdOffSystem.size / from_size / from_components"), ("trade-off", "get_er_sized_points / get_er_sizing_curve"), ("results", "get_er_capacity_kbtuh / get_er_capacity_kw")],
     "Exhaustive enumeration of plants on the real code; the design days are replayed minute by minute in a reference model from both starting states.")
prop("P07", "Every reachable tank state has a physical temperature profile and queries that agree with it",
     "After any sequence of initialisation, draws, heating, loop return and heat loss, a stratified or energy-account tank's temperature never falls with height and stays between the cold and outlet temperatures; the usable volume at any supply temperature is exactly the part of the tank at or above it (0 to tank size, never growing for a hotter requirement), and the average temperature of a draw is the mean of the top of that profile. Drawing never warms any part of the tank and heating never cools any part. A mixed tank has a single temperature, is usable entirely or not at all, and mixing never leaves the range of the mixed streams; a slug tank's usable volume never includes the dead zone below its inlet.",
     ["inputs", "histories"], "all operation sequences up to the depth bound on all four tank kinds, sizes, slopes and charges",
     "tests apply one or two operations to a tank; wrong profiles appear only after particular sequences that leave the thermocline partly outside the tank",
     [O + "components/storage/StratifiedTank.py", O + "components/storage/EnergyTank.py", O + "components/storage/SlugOverlayTank.py", O + "components/storage/MixedStorageTank.py"],
     [("profile queries", "get_temperature_at_fraction / get_usable_volume_supplyT_gal / get_average_draw_temp_f"), ("operations", "draw / heat / add_recirc_return / draw_physical_gal / initialize")],
     "Breadth-first exploration of all operation sequences of the real tanks with duplicate-state pruning; invariants judged in every reached state.")
prop("P08", "Tank operations conserve energy",
     "For every tank kind and every sequence of operations, the heat stored changes by exactly the heat put in minus the heat delivered as long as the tank is neither empty nor full: a draw of supply-temperature water removes volume x density x (supply - inlet), heating for a time adds power x time, loop return removes flow x time x (supply - return), and it does not matter how an operation is divided into shorter steps. A tank never gains more heat than was put in, never loses more than was delivered, and never holds less than nothing or more than a full charge. Changing inlet or outlet temperature between operations carries the thermocline over unchanged, and re-initialising erases all history.",
     ["inputs", "histories"], "all operation sequences up to the depth bound, with every operation also split into 2 and 5 parts from every reached state",
     "tests check the sign of single operations; the size of the change after several operations, seasons or step lengths is not covered",
     [O + "components/storage/StratifiedTank.py", O + "components/storage/EnergyTank.py", O + "components/storage/MixedStorageTank.py"],
     [("draw", "StratifiedTank.draw / EnergyTank.draw / MixedStorageTank.draw"), ("heat", "heat / add_energy_btu / apply_fixed_heat_loss_kbtuh"), ("loop", "add_recirc_return / mix_primary_inflow")],
     "Breadth-first exploration of all operation sequences of the real tank in lock-step with a reference model in gallons and degrees; heat account of every transition checked.")
prop("P10", "Multi-pass slug cycles conserve heat and water",
     "For every history of starting and stopping the heating cycle, heating the slug and drawing water, starting a cycle changes neither stored heat nor usable volume and is idempotent, the slug occupies exactly the water below supply temperature above the inlet and its temperature is the mix of what it held, what entered and the heat added, and while a cycle runs only water already at supply temperature (or the slug once it reaches it) counts as usable. Ending the cycle leaves heat before plus heat added minus heat drawn in the tank, up to a full charge; initialising the tank ends any cycle. Incoming water enters the slug and pushes the hot layer up without changing it.",
     ["inputs", "histories"], "all sequences of start, stop, heat and draw operations up to the depth bound",
     "no test runs a cycle with more than a single heat or draw; lost or created heat needs draws during a cycle followed by its end",
     [O + "components/storage/SlugOverlayTank.py"],
     [("cycle", "activate_slug / deactivate_slug"), ("slug account", "heat_slug / draw_physical_gal"), ("queries during a cycle", "get_usable_volume_supplyT_gal / get_temperature_at_fraction / get_average_draw_temp_f")],
     "Breadth-first exploration of all operation sequences in lock-step with a reference slug model, plus conservation laws over complete cycles.")
prop("P11", "Heaters follow their aquastats and schedule with hysteresis",
     "In every state, hour and sequence of tank temperatures, a heater turns on exactly when it is off and its upper sensor reads below the on-trigger of the mode scheduled for that hour, turns off exactly when it is on and its lower sensor reads at or above the off-trigger, and otherwise keeps its state. Mode changes take effect at the start of their scheduled hour, an hour whose mode has no controls leaves the state alone, and a heater that is off reports no output and no power. Control configurations with impossible sensor positions or triggers, or schedules that are not 24 hours, are rejected.",
     ["inputs", "histories", "configurations"], "the full product of heater state x hour x mode x sensor temperatures around every trigger, and all heat/draw/hour sequences up to the depth bound",
     "tests call the heater with hand-picked temperatures; the exact trigger values, mode changes with the heater running and long on/off histories are not covered",
     [O + "components/heating/WaterHeater.py", O + "components/heating/Controls.py", O + "dhwsystems/DHWSystem.py"],
     [("hysteresis", "Controls.should_turn_on / should_turn_off; WaterHeater.update_state"), ("schedule", "WaterHeater.get_controls_for_hour")],
     "Complete product of the control relation and breadth-first exploration of heater and tank histories against a hysteresis automaton.")
prop("P12", "Every simulated step follows the plant's energy and water balance",
     "For every system type, starting state, hour, step length and season, one simulated step decides the heaters from the tank before the step, adds the reported heater output times the step length, removes the building's demand and (by system type) the loop loss, and reports the demand, outdoor and inlet temperature, mode, heater output and power actually used and the tank temperatures, usable volume and delivery temperature actually reached. This holds along every sequence of steps, so nothing is heated, drawn or lost twice or forgotten between the primary and temperature-maintenance tanks. An instantaneous system's output always equals the step's demand.",
     ["inputs", "histories", "configurations"], "all sequences of timesteps up to the depth bound and every step of complete traces, on all six system types",
     "no test runs a simulation; a wrong order of operations or a term charged to the wrong tank shows only in the state after several steps",
     [O + "dhwsystems/DHWSystem.py", O + "dhwsystems/InstantWHSystem.py", O + "dhwsystems/recirc_systems/SwingSystem.py", O + "dhwsystems/recirc_systems/ParallelLoopSystem.py", O + "dhwsystems/rtp_systems/SinglePassRTPSystem.py", O + "dhwsystems/rtp_systems/MultiPassRTPSystem.py", O + "components/storage/MixedStorageTank.py"],
     [("timestep", "simulate_step of DHWSystem, InstantWHSystem, SwingSystem, ParallelLoopSystem, SinglePassRTPSystem, MultiPassRTPSystem")],
     "Breadth-first exploration of all step sequences on the real systems in lock-step with a reference plant model, plus complete multi-day traces.")
prop("P13", "Simulations are reproducible whatever happened before",
     "Simulating a plant gives exactly the result a freshly built identical plant gives, whatever was done with it before: earlier, interrupted or failed simulations, single steps, manual switching, tank changes, sizing or curve queries, or simulations of other plants and buildings. Simulating changes neither the building nor any sizing result, and plants stepped alternately do not influence each other.",
     ["histories", "interleavings"], "all histories of up to two (thorough: three) earlier operations on eleven plants and six engine schematics, all interleavings of two plants' blocks of steps",
     "tests never simulate twice; leaks of heater, tank or building state need a particular earlier operation",
     ["src/ecoengine/interfaces/Simulator.py", "src/ecoengine/interfaces/EcosizerEngine.py", O + "dhwsystems/DHWSystem.py", O + "dhwsystems/recirc_systems/SwingSystem.py", O + "components/storage/SlugOverlayTank.py", O + "components/heating/WaterHeater.py"],
     [("initial state", "Simulator.simulate"), ("tank re-initialisation", "initialize of all tank kinds")],
     "Exhaustive enumeration of operation histories on the real plants; every history ends with the same run, compared with a fresh plant's.")
prop("P14", "The simulation record is exactly what happened, step by step",
     "A simulation covers its duration in steps of its timestep, starting with the tank charged as it is when the normal aquastat calls for heat, and records every step's report once, in order, with all series aligned. Outage minutes are the minutes of steps without usable water, success means none, and the run stops early exactly when delivery has stayed more than 5 degrees below supply for more than 10 consecutive minutes (or the configured limits). Summary, failure message, CSV export and plot agree with the recorded steps.",
     ["inputs", "histories", "schedules"], "all deficit sequences up to the length bound, all pairs of deficit bursts, all patterns of missing values, and real runs of every plant",
     "no test simulates; off-by-one in the early stop or misaligned series need specific step sequences",
     ["src/ecoengine/interfaces/Simulator.py", O + "simulation/SimulationRun.py"],
     [("run loop and initial charge", "Simulator.simulate"), ("early stop", "SimulationRun.check_outlet_deficit"), ("record, summary, export", "record_timestep / record_outage / get_summary / get_failure_message / to_csv / to_plotly")],
     "All deficit sequences against a counter automaton; scripted plants dictate every step report; real runs replayed step by step.")
prop("P15", "Tariff calendar puts every hour in exactly one correctly priced period",
     "For every valid tariff, each of the 8760 hours of the year belongs to exactly one (month, period type) and is billed at the energy and demand rates its season gives that type: peak inside the peak window, otherwise discount inside the (possibly midnight-wrapping) discount window, otherwise off-peak. Every simulation step, at any step length that divides an hour, gets the period and rate of the hour it falls in; exporting a tariff to CSV and importing it again changes no hour's period, energy rate, demand rate or the base charge. Tariffs with missing or non-numeric rates, impossible hours, or seasons that do not partition the year are rejected.",
     ["inputs", "configurations"], "all peak windows, discount windows, season partitions and steps of the year",
     "tests price a handful of hours of a few tariffs; a shifted boundary in one month or a lost hour at midnight only shows on the hours nobody sampled",
     [O + "building/UtilityCostTracker.py"],
     [("season and window to hour mapping", "UtilityCostTracker.from_params"), ("step to hour lookup", "get_energy_charge_at_step / get_demand_period_at_step"), ("CSV round trip", "to_csv / from_csv")],
     "Explicit enumeration of tariffs x all 8760 hours on the real code; reference calendar written independently; exhaustive over integer windows and season cuts listed in the evidence bounds.")
prop("P16", "All energy and cost reports of a run agree with the metered power",
     "For any recorded run and any tariff, total, monthly and peak figures count the primary and temperature-maintenance power of every step once, in the month and rate period it falls in: annual cost is the energy of every step at its rate, plus for each demand period (month and period type, or the label an hour-by-hour tariff file gives) the highest power times its demand rate, plus twelve base charges. The monthly and detailed (peak / off-peak) breakdowns, monthly energy, and the comparison of two runs add up to the same totals. Missing power counts as zero and a run that is not a year has no monthly energy.",
     ["inputs", "histories", "configurations"], "load pulses at every month and rate boundary, all patterns of missing values, several step lengths, partial and complete runs, seven tariffs, real annual runs of all plants",
     "tests price constant loads over a few steps; pulses at boundaries and loop-heater power are not covered",
     [O + "simulation/SimulationRun.py", O + "building/UtilityCostTracker.py", "src/ecoengine/interfaces/EcosizerEngine.py"],
     [("pricing", "get_annual_utility_cost / get_monthly_cost_breakdown / get_monthly_cost_breakdown_detailed"), ("energy", "get_total_energy_kwh / get_monthly_energy_kwh / get_peak_demand_kw"), ("comparison", "get_annual_utility_comparison_graph")],
     "Exhaustive placement of load pulses over the boundaries of the year on real run records; independent meter as oracle.")
prop("P17", "Building demand adds up for every building, blend and interval",
     "For every building type, magnitude, standard or custom profile, the hot-water load at any timestep equals the daily use times that hour's fraction scaled to the interval, so the loads of a day always add up to the daily use; the annual profile is indexed by hour of the year and wraps. A multi-use building's daily use and hourly load are the sums of its parts, and switching between the annual and daily profiles in any order always comes back to its own daily profiles. Profiles that are not 24 non-negative fractions (after normalising custom ones), and unusable magnitudes, types or standards, are rejected.",
     ["inputs", "configurations", "histories"], "all types, blends, profiles, interval lengths dividing an hour and steps",
     "tests check a few types at a few steps; blends, late hours, small intervals and profile switching are never combined",
     [O + "building/Building.py"],
     [("step load", "Building.get_dhw_load_supplyT_gal"), ("construction and blending", "Building.from_building_type"), ("annual/daily switching", "set_to_annual_load_shape / set_to_daily_load_shape")],
     "All 12 types, all pairs and triples, every step of the day at every interval dividing an hour, all hours of the annual profile; independent demand model.")
prop("P18", "Climate lookups return the right location's weather at every hour",
     "For every zone, zip code and weather station in the shipped tables, outdoor temperature at any timestep is that zone's value for the hour it falls in and inlet water temperature is that zone's value for the calendar month it falls in, for every interval length and wrapping at the year end; design conditions are the annual minimum outdoor temperature and the coldest monthly inlet temperature, and the temperature distribution counts each of the 365 days once in its 5-degree bucket. A location built from design conditions returns those constants always, and identifiers that are not in the tables are rejected rather than answered with another location's data.",
     ["inputs", "configurations"], "all 96 zones x 8760 hours x intervals, all zip codes, all stations",
     "tests look at a few hours of a few zones; month boundaries, the last columns and the second year are not sampled",
     [O + "building/ClimateZone.py", O + "building/Building.py"],
     [("hour and month lookup", "ClimateZone.get_oat_f / get_inlet_water_temp_f"), ("location resolution", "from_zip_code / from_weather_station / from_zone_id"), ("distribution", "get_oat_buckets")],
     "Complete enumeration of the finite space (zones, zips, stations, hours) against an independent reading of the tables.")
prop("P20", "Mixing valve conserves mass and energy at every operating point",
     "For every load, loop flow and temperature combination, the water taken from storage is between zero and the delivered flow and the heat leaving storage equals the heat delivered to the load plus the heat lost in the loop; water returned to storage is between cold and return temperature. Below the critical load the blend leaving the valve is exactly at supply temperature and storage receives all make-up plus some return water; above it storage receives only cold make-up; the two regimes agree at the boundary, no load with no loop loss draws nothing, and a depleted storage tank never causes an error.",
     ["inputs"], "all points of a dense lattice of loads, flows and four temperatures plus both sides of each critical flow",
     "tests check a handful of operating points away from the boundary",
     [O + "dhwsystems/utils.py"], [("blend and return split", "mixing_valve_behavior")],
     "Exhaustive lattice of operating points incl. the critical-flow boundary of every cell; oracle is the pair of conservation laws.")
prop("P19", "Heat-pump performance follows the published data of the chosen model everywhere",
     "For every shipped model and any outdoor, inlet and outlet temperature, capacity and power are the published values at published points and the interpolation between them elsewhere, for the number of units asked for, with an unspecified inlet meaning the design inlet, a secondary heat exchanger raising both water temperatures by its increase, and inlets above the published range treated as its end. Above the hottest published outdoor temperature the published high values hold; below the coldest the model is electric resistance (COP 1) of the nominal capacity of the fleet; gaps inside the range use the nearest published point, made up by resistance for a missing outlet temperature, else COP 1.5. COP is heat out over power in, a nominal heater has its capacity everywhere and unknown power, and an unknown model or a missing outdoor temperature is refused.",
     ["inputs", "configurations"], "all 126 models x a lattice of each map's own tabulated temperatures, points between and outside them, every published data point, several fleet sizes",
     "tests query two or three models at a handful of points; the fallback rules at the edges of each map and the other 120 models are never exercised",
     [O + "components/heating/PerformanceMap.py", O + "components/heating/WaterHeater.py"],
     [("model lookup", "PerformanceMap.from_model_name / WaterHeater.from_model_name"), ("performance", "get_capacity_kbtuh / get_power_in_kw / get_cop of all map kinds"), ("fallbacks", "PklPerformanceMap, HPWHsimPerformanceMap")],
     "Exhaustive lattice over every shipped map on the real code against a reference that reads the data files and applies the documented rules.")
prop("P21", "The engine builds exactly the plant its settings describe",
     "For every schematic (under either of its names), sized, load-shifting or pre-sized, and every change of its settings, the engine's sizing results, daily use, simulation record and sizing curve are those of the plant put together by hand from the same settings: controls at the given heights and triggers (defaulting to supply and storage temperature), shed hours where the load-shift schedule is 0 with the load-up hours just before the first, shed and load-up settings defaulting to the normal ones, pre-sized capacity shared over the heaters, the named heat-pump model, the given loop and temperature-maintenance equipment. Every accepted climate key (zip code as text or number, zone, station, design conditions) gives its own zone. Unknown schematics or climate keys and missing loop or temperature-maintenance settings are refused. The lookup functions (models, stations, outdoor-temperature buckets, output capacity, curve plots) return exactly what was asked for.",
     ["inputs", "configurations"], "all single and pairwise changes of about 30 settings on six schematics x three forms, all single shed blocks x load-up hours, all climate keys, all flag combinations of the lookups",
     "tests never construct the engine with most settings; a setting that is dropped, swapped or defaulted wrongly changes the plant silently",
     ["src/ecoengine/interfaces/EcosizerEngine.py", "src/ecoengine/interfaces/Simulator.py"],
     [("construction", "EcosizerEngine.__init__ / build"), ("results", "get_sizing_results / simulate_3day / simulate_annual / plot_sizing_curve"), ("lookups", "get_oat_buckets / get_list_of_models / get_weather_stations / get_hpwh_output_capacity / get_sizing_curve_plot")],
     "Exhaustive enumeration of engine configurations with up to two changed settings, each compared with the hand-built plant, including complete 3-day simulation records.")
prop("P23", "Sizing warns exactly when the controls would be backwards or short cycle",
     "When a storage, parallel-loop or single-pass return-to-primary plant is sized with controls, each mode's controls (normal, load-up, shed) draw exactly one warning, naming that mode, if and only if the off sensor is above the on sensor (the heater may never shut off), or else the water between the two sensors would be refilled by the sized heater in less than ten minutes at the storage-to-supply temperature rise (short cycling). Modes are judged independently of each other and of whether the schedule uses them; without controls, or with storage no hotter than supply, nothing is said. The finally sized capacity and volume, load shifting included, are the ones judged.",
     ["inputs", "configurations"], "all on/off sensor pairs of ten heights, alone and with load-up and shed modes, x plants, load shapes, run hours and temperatures",
     "tests call the private helper with three hand-picked capacities; nothing ties the advice to the plant that was actually sized",
     [O + "dhwsystems/DHWSystem.py", O + "dhwsystems/recirc_systems/ParallelLoopSystem.py", O + "dhwsystems/rtp_systems/SinglePassRTPSystem.py"],
     [("advice", "DHWSystem._warn_if_short_cycling, called at the end of DHWSystem.size")],
     "Exhaustive enumeration of sensor pairs and plants; the deadband time of the plant actually sized is recomputed from its public results.",
     observe="warnings raised by from_size / size")
