"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
SIMF = ["most_queue/sim/qs_sim.py", "most_queue/sim/batch_sim.py", "most_queue/sim/impatient_queue_sim.py",
        "most_queue/sim/queue_finite_source_sim.py", "most_queue/sim/fj_sim.py", "most_queue/sim/fj_delta_sim.py"]
TECH = "path-sensitive abstract interpretation (dataflow over relational facts) of the event handlers, per entry region"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=TECH, note="", **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, **kw))


SIM_TESTS = ("The tests run a few simulators once with fixed parameters and compare long-run averages within tens of percent; "
             "single events and most simulators (batch, impatient, finite source, fork-join variants) are never checked per event.")
ALLH = "every reachable state and every event of every simulation run, every number of servers, buffer size, distribution and seed"

prop("S01", "Jobs are conserved at every event of a simulation",
     "After every event of a single-class or fork-join simulation the population equals the jobs waiting plus the jobs in service (counted in parts for fork-join and split-join), "
     "and every job that arrived is still in the system, was served, or was lost. The arrival, served and lost counters move exactly with the events that they count: "
     "one arrival per arriving job, one service per completed job, one loss per rejected job, and a reneging job is reported once.",
     ["histories", "configurations"], ALLH, SIM_TESTS, SIMF,
     [("arrival / serving / drop_task / subtask handlers", "most_queue/sim/*_sim.py"),
      ("queue containers", "most_queue/sim/utils/qs_queue.py")])
prop("S02", "Servers are never double-booked and never idle while jobs wait",
     "The free-server count of a simulation always equals the number of servers that are idle; a service starts only on an idle server and only a busy server finishes. "
     "In the shared-queue simulators (multichannel, batch, impatient, finite-source) no job waits while a server is idle, unless a warm-up or cooling is in progress.",
     ["histories", "configurations"], ALLH, SIM_TESTS, SIMF + ["most_queue/sim/utils/servers.py"],
     [("start_service / end_service", "most_queue/sim/utils/servers.py:Server"), ("free server counter", "arrival and serving handlers")])
prop("S03", "Elapsed time is credited once, to the state that was left",
     "At every event a simulator adds the time since the previous event to the occupation time of exactly one population level, the one that held during that time, and moves its accounting clock to the event. "
     "State probabilities therefore always add up to the simulated time.",
     ["histories", "configurations"], ALLH, SIM_TESTS + " Double crediting in the batch simulator went unnoticed.", SIMF,
     [("time accounting p[...] += ... ; t_old = ...", "every event handler")])
prop("S04", "Sojourn, waiting and busy-period moments are exact running means",
     "The reported first three moments of sojourn time, waiting time and busy period are running averages of the powers 1, 2, 3 of one sample, all three updated together with the count of samples so far. "
     "Every served job contributes exactly one sojourn sample (departure minus its own arrival) and exactly one waiting sample (time spent waiting; zero when served at once).",
     ["histories", "configurations"], ALLH, SIM_TESTS, SIMF + ["most_queue/sim/utils/stats_update.py"],
     [("refresh_*_stat", "most_queue/sim/utils/stats_update.py"), ("sample sites", "arrival / serving handlers")])
prop("S05", "A finite buffer rejects exactly the jobs that do not fit",
     "With an unlimited buffer no arriving job is lost; with a buffer of size K (K = 0 included) an arriving job is lost exactly when no server can take it and K jobs already wait. "
     "In the fork-join and split-join simulators (without part delays) the buffer bounds the waiting parts: a job is lost exactly when its parts that would have to wait do not fit, that is "
     "when waiting parts + n - idle servers exceeds K (fork-join), or when the job cannot start at once and waiting parts + n exceeds K (split-join). "
     "A lost job leaves the population, the queue and the servers as they were, and is counted as lost once.",
     ["histories", "configurations"], ALLH + ", every buffer size including 0", SIM_TESTS, SIMF[:4] + ["most_queue/sim/fj_sim.py"],
     [("buffer test in arrival", "most_queue/sim/qs_sim.py, batch_sim.py, impatient_queue_sim.py, queue_finite_source_sim.py, fj_sim.py")])
prop("S06", "Shared queues are served first come, first served",
     "In the shared-queue simulators a job that has to wait joins the tail of the queue, and a server that becomes available takes the job at the head. "
     "The only other way out of the queue is reneging, which removes the job whose patience ran out and no other.",
     ["histories", "configurations"], ALLH + ", both queue containers", SIM_TESTS, SIMF[:4] + ["most_queue/sim/utils/qs_queue.py"],
     [("queue append / pop", "most_queue/sim/utils/qs_queue.py"), ("send_head_of_queue_to_channel", "most_queue/sim/qs_sim.py")])
prop("S07", "Every simulation step processes the earliest pending event",
     "A simulation step handles the earliest of all pending events (next arrival, every server's completion, end of warm-up, cooling or cooling delay, every waiting job's patience, every pending part of a delayed fork-join job, every idle source's request) "
     "and moves the clock to exactly that instant. Hence simulated time never runs backwards.",
     ["histories", "schedules", "configurations"], ALLH, SIM_TESTS, SIMF,
     [("event selection", "run_one_step of every simulator")])
prop("S08", "Warm-up, cooling and cooling delay follow their automaton",
     "An arrival at an empty idle system starts the configured warm-up, an emptied system starts the configured cooling (after its delay, which an arrival cancels), and no service starts during warm-up or cooling. "
     "When a phase ends, waiting jobs are served (or warm-up begins), and each phase lasts one draw of its distribution, is counted once when it starts and credited exactly its length when it ends.",
     ["histories", "configurations"], "every configuration of the three phases, every state and event", SIM_TESTS,
     ["most_queue/sim/qs_sim.py", "most_queue/sim/utils/phase.py"],
     [("on_end_warming / on_end_cold / on_end_cold_delay", "most_queue/sim/qs_sim.py"), ("phase start/end", "most_queue/sim/utils/phase.py")])
prop("S09", "Busy periods are sampled from first saturation to first idle server",
     "In the shared-queue simulators a busy period starts at the event that takes the last idle server and ends at the completion that frees a server with nobody waiting. "
     "It is sampled exactly once, when it ends, with the length between these two instants.",
     ["histories", "configurations"], ALLH, SIM_TESTS, SIMF[:4],
     [("start_ppnz / refresh_ppnz_stat", "arrival, serving and phase handlers")])
prop("S10", "Arrivals and services are scheduled with one fresh draw each",
     "An arrival event schedules the next arrival exactly one fresh interarrival draw later, and other events leave it alone; a service that starts at an instant ends one fresh draw of that server's service distribution later. "
     "No draw is used twice, and a server without a job has no pending completion.",
     ["histories", "configurations"], ALLH, SIM_TESTS, SIMF + ["most_queue/sim/utils/servers.py"],
     [("arrival_time update", "arrival handlers"), ("Server.start_service", "most_queue/sim/utils/servers.py")])

prop("S11", "Fork-join and split-join jobs split and complete correctly",
     "An accepted fork-join or split-join job is split into the configured number of parts, all stamped with the job's arrival time, and each part is dispatched once; in a fork-join system part i goes to server i or its queue and every server works its own queue from the head. "
     "The job leaves, exactly once, with the completion of the last part that its (n, k) or split-join rule requires.",
     ["histories", "configurations"], ALLH, SIM_TESTS, ["most_queue/sim/fj_sim.py", "most_queue/sim/fj_delta_sim.py", "most_queue/sim/utils/tasks.py"],
     [("served_subtask_in_task counter", "most_queue/sim/fj_sim.py:serving"), ("ForkJoinTask / SubTask", "most_queue/sim/utils/tasks.py")])

prop("S12", "A finite source never loses or duplicates a customer",
     "In the finite-source simulator the thinking sources plus the jobs in the system always equal the number of sources. "
     "A source whose job enters the system has no pending request until one job leaves; then exactly one source that had none draws one fresh interval. A source whose job is lost draws a fresh interval at once.",
     ["histories", "configurations"], "every reachable state and event of the finite-source simulator, every number of sources, servers, buffer", "One test compares state probabilities of one configuration within percents; lost requests are not tested.",
     ["most_queue/sim/queue_finite_source_sim.py"], [("sources_left / arrival_times", "most_queue/sim/queue_finite_source_sim.py:arrival, serving")])
prop("S13", "A configured simulator starts empty, idle and at time zero",
     "After construction and configuration every simulator (single-class, fork-join, priority) has no jobs, all servers distinct and idle with no pending completion, all counters, clocks, moments and occupation times zero, "
     "and its first arrivals one fresh, independent draw of the configured interval distribution after time zero, for each class or source.",
     ["configurations"], "every simulator class, symbolic parameters", "Tests look at long runs only, where a wrong start washes out.",
     SIMF + ["most_queue/sim/priority_queue_sim.py", "most_queue/sim/utils/servers.py"], [("__init__ / set_sources / set_servers", "every simulator")],
     technique="abstract interpretation of constructors and configuration over symbolic parameters")
prop("S14", "Reported probabilities are time fractions and runs stop on time",
     "The state probabilities that a simulator reports are the time spent in each state divided by the simulated time, for every state and class; warm-up, cooling and cooling-delay probabilities likewise. "
     "A run ends with the event that serves the last requested job, or after exactly the requested number of events.",
     ["histories", "configurations"], "every simulator class, symbolic statistics", "Tests print probabilities and compare a few within percents.",
     SIMF + ["most_queue/sim/priority_queue_sim.py", "most_queue/sim/utils/phase.py"], [("get_p / get_*_prob / run", "every simulator")],
     technique="abstract interpretation of the reporting functions to normal forms")

prop("S15", "Batches, patience, phases and part delays follow their configured laws",
     "A batch has i jobs with exactly the i-th configured probability, independently of the other batches. Every job of the impatient simulator gets one fresh draw of the configured patience, counted from its arrival, and leaves the queue no later. "
     "Warm-up, cooling and cooling delay each last a draw of the law given for that phase; a phase that was not configured is not set, none has begun before the run, and a delay without cooling is refused. "
     "Part i of a delayed fork-join job is released i delays after the job, for a constant delay and for one given by moments.",
     ["inputs", "configurations"], "every probability and parameter (symbolic), every draw; one to four batch sizes, every combination of phases", "Tests compare long-run averages of one configuration; the batch-size law and the pairing of phases with their laws are never looked at.",
     ["most_queue/sim/batch_sim.py", "most_queue/sim/impatient_queue_sim.py", "most_queue/sim/qs_sim.py", "most_queue/sim/fj_delta_sim.py", "most_queue/sim/utils/phase.py"],
     [("calc_cdf_prob, arrival", "batch_sim"), ("set_impatiens, arrival", "impatient_queue_sim"), ("set_warm / set_cold / set_cold_delay", "qs_sim"), ("task_arrival", "fj_delta_sim")],
     technique="symbolic abstract interpretation of configuration and arrivals, integrated over draws; equality with the configured law")

RDF = ["most_queue/rand_distribution.py"]
DTECH = "symbolic abstract interpretation to normal forms, integrated over draws; expression equality against the documented law"
ALLP = "every parameter value in the documented range (symbolic), every draw of the generator"
prop("D01", "Samplers and theoretical moments follow the documented law",
     "For every distribution class, the value a sampler returns has exactly the first three moments of the law that its parameters document, whatever the parameters, with and without a generator. "
     "The theoretical-moments functions return exactly those moments, as many as were asked for.",
     ["inputs", "configurations"], ALLP, "Tests sample a few distributions once and compare moments within percents; a wrong moment or a swapped parameter of an untested class or order goes unnoticed.",
     RDF, [("generate_static / calc_theory_moments", "most_queue/rand_distribution.py")], technique=DTECH)
prop("D02", "Fitting a distribution reproduces the moments it was given",
     "Fitting a distribution to given moments (or to a mean and a coefficient of variation) returns parameters whose law has exactly those moments: all the moments the family can match, "
     "for every admissible input (moments of an exactly exponential law included) and independently of the time unit. The iterative two-phase hyperexponential fit keeps the first two moments at whatever step it stops.",
     ["inputs", "configurations"], "every admissible moment vector (symbolic)", "Tests fit two or three fixed moment vectors.",
     RDF, [("get_params / get_params_by_mean_and_coev / get_a_k / get_mu_alpha", "most_queue/rand_distribution.py")], technique=DTECH)

PRF = ["most_queue/sim/priority_queue_sim.py"]
PRTEST = "Tests run the NP and PR modes once and compare mean sojourn times within tens of percent; RS, RW, buffers and the network entry points are not tested per event."
ALLPR = "every reachable state and event of a priority simulation (NP, PR, RS, RW and no priority; alone and as a network node), every number of classes and servers, buffer, distribution, seed"
prop("P01", "The priority simulator conserves the jobs of every class",
     "After every event of a priority simulation, per class, the population equals the jobs of that class waiting plus in service, and each arrived job is in the system, served or lost. "
     "Arrival, served and lost counters move by one in the class of the job concerned and in no other. A service starts only on an idle server, the free-server count always matches the idle servers, and a preempted job goes back to waiting.",
     ["histories", "configurations"], ALLPR, PRTEST, PRF,
     [("arrival / serving / start_serving / send_task_to_channel", "most_queue/sim/priority_queue_sim.py")])
prop("P02", "The priority discipline decides who is served, preempted or lost",
     "A freed server takes the head of the highest-priority non-empty class queue (of the single queue without priorities) and never idles while anyone waits. "
     "A new job preempts only in a preemptive mode, only a strictly lower class and then the lowest class in service, and waits otherwise in the queue of its class. "
     "A buffer of size K, 0 included, rejects exactly the jobs that would have to wait while K jobs already wait; no buffer rejects none.",
     ["histories", "configurations"], ALLPR, PRTEST, PRF,
     [("queue choice and preemption test", "most_queue/sim/priority_queue_sim.py:arrival, serving")])
prop("P03", "Service times obey preemptive resume, repeat and resampling",
     "In the priority simulator a job entering service for the first time gets one fresh draw of the service distribution of its own class. "
     "An interrupted job later continues with its remaining time (resume, PR), repeats its whole original time (RW) or takes a newly drawn time of its class (RS), however often it is interrupted. "
     "A server without a job has no pending completion, and the job and class recorded for a busy server are those it serves.",
     ["histories", "configurations"], ALLPR, PRTEST, PRF + ["most_queue/sim/utils/tasks.py"],
     [("start_service / time_to_end_service / is_pr", "most_queue/sim/priority_queue_sim.py")])
prop("P04", "The priority simulator credits time once per class and job",
     "At each event of a priority simulation the time since that class's (and the whole system's) previous accounting goes once to the occupation of the population level that held during it, and the accounting clock moves to the event. "
     "A job accumulates as waiting exactly the time it spends in queues, including after interruptions.",
     ["histories", "configurations"], ALLPR, PRTEST, PRF,
     [("p[k][...] += now - t_old[k]; wait_time", "most_queue/sim/priority_queue_sim.py")])
prop("P05", "Class moments of the priority simulator are running means",
     "Each served job contributes one sojourn sample (departure minus its arrival) and one waiting sample to the statistics of its own class and of no other. "
     "All three moments are updated together as running averages of powers 1, 2, 3 of the sample over the jobs counted so far; busy-period moments likewise.",
     ["histories", "configurations"], ALLPR, PRTEST, PRF,
     [("refresh_v_stat / refresh_w_stat / refresh_busy_stat", "most_queue/sim/priority_queue_sim.py")])
prop("P06", "The priority simulator processes the earliest event, one draw each",
     "A step of a priority simulation handles the earliest of all classes' next arrivals and all servers' completions and moves the clock to exactly that instant. "
     "An arrival schedules the next arrival of the same class one fresh draw of that class's interval later; all other arrivals keep their instants.",
     ["histories", "schedules", "configurations"], ALLPR, PRTEST, PRF,
     [("run_one_step", "most_queue/sim/priority_queue_sim.py")])
NF = ["most_queue/sim/priority_network.py", "most_queue/sim/priority_queue_sim.py"]
ALLN = "every reachable state and event of a network simulation, every topology, number of nodes, classes, channels and seed"
NTEST = "One test runs one five-node network and compares mean sojourn times within tens of percent."
prop("N01", "Network jobs follow the routing matrix of their class",
     "After arriving or finishing in a node, a network job moves to node j (or leaves) with exactly the probability in its class's routing matrix: row 0 for arrivals, the row of the node it leaves otherwise. "
     "The same job enters the next node at the instant of the event, as the class that has its priority there; a new job carries its class, its arrival instant and zero waiting.",
     ["histories", "configurations"], ALLN, NTEST, NF, [("choose_next_node, run_one_step", "most_queue/sim/priority_network.py")])
prop("N02", "Network counters and end-to-end moments count every job once",
     "The network's per-class arrival, served and population counters move by one exactly at external arrivals and departures of that class. "
     "Each departing job, and no other, contributes one sojourn sample (departure minus network arrival) and one waiting sample (waits added over its nodes) to running moments of its class.",
     ["histories", "configurations"], ALLN, NTEST, NF, [("refresh_v_stat / refresh_w_stat, counters", "most_queue/sim/priority_network.py")])
prop("N03", "A network step processes the earliest event of all nodes",
     "A step of the network simulation handles the earliest of all external arrivals and of the completions of every channel of every node. "
     "An external arrival schedules the next one of its class exactly one fresh draw of that class later and moves no other.",
     ["histories", "schedules", "configurations"], ALLN, NTEST, NF, [("run_one_step", "most_queue/sim/priority_network.py")])

prop("N04", "A network node serves each class by its own parameters and priority",
     "In a network whose nodes order the classes differently, the node serves the class that has a given priority there with the distribution given for that class, on its own number of channels and with its own kind of priority. "
     "External arrivals of every class come at the rate of that class, and a new network is empty and idle.",
     ["configurations"], "all rates; one to three classes with permuted priorities", "The network test uses the same exponential service for every class order and compares sojourn times within tens of percent.",
     NF, [("PriorityNetwork.__init__", "most_queue/sim/priority_network.py")])

prop("D03", "Distribution functions, tails and densities describe the documented law",
     "For the uniform, hyperexponential, Pareto, Erlang and gamma distributions the distribution function, its complement and the density have the values of the documented law at every argument, "
     "below, within and above the support: the complement is one minus the distribution function, and the density is its derivative. "
     "The residual-time parameters of the hyperexponential law and the transform of the gamma law are those of the same law.",
     ["inputs", "configurations"], "every parameter value and argument (symbolic)", "No test calls most of these functions; none looks outside the support.",
     RDF, [("get_cdf / get_tail / get_pdf / get_f / get_pls / get_residual_params", "most_queue/rand_distribution.py")], technique=DTECH)
prop("D04", "Kendall notation selects the law and the utilization of a system",
     "Each documented notation (M, H, E, Gamma, C, Pa, Uniform, Norm, D) selects its documented distribution with exactly the given parameters. "
     "The utilization that a simulator reports is arrival rate of jobs times mean service time over the number of servers for every pair of notations: batches count by their mean size, several classes add up.",
     ["inputs", "configurations"], "all 81 pairs of notations, every parameter value and number of servers (symbolic)", "Tests use the load of two or three pairs, in printed output only.",
     ["most_queue/sim/utils/distribution_utils.py", "most_queue/sim/qs_sim.py", "most_queue/sim/batch_sim.py", "most_queue/sim/priority_queue_sim.py"],
     [("create_distribution / calc_qs_load", "most_queue/sim/utils/distribution_utils.py"), ("calc_load", "most_queue/sim/qs_sim.py, priority_queue_sim.py")], technique=DTECH)
prop("R01", "All randomness of a simulation comes from its own generator",
     "Each simulator makes one random generator when it is built; every distribution it configures and every event it simulates draws from that generator and from nothing else, so that giving it a seeded generator before configuring it makes the run reproducible. "
     "A distribution that was given a generator never draws from the global one.",
     ["histories", "configurations"], "every simulator, every notation, every reachable event", "Tests never compare two runs; a draw from the global generator changes no average.",
     ["most_queue/rand_distribution.py", "most_queue/sim/qs_sim.py", "most_queue/sim/batch_sim.py", "most_queue/sim/fj_delta_sim.py", "most_queue/sim/priority_queue_sim.py",
      "most_queue/sim/priority_network.py", "most_queue/sim/utils/servers.py"],
     [("self.generator", "every simulator and distribution")], technique="effect analysis: the origin of every random draw, over all abstract paths")

THT = "symbolic abstract interpretation into rational normal forms, compared with the defining equations"
TH_OVER = "every arrival rate, service rate and service moment, for the checked numbers of servers, sources and classes"
TH_WHY = "The tests compute each model at one or two parameter points and compare averages with a simulation within tens of percent; higher moments and most parameters are never looked at."

prop("T01", "Markov models satisfy their balance equations and Little's law",
     "The state probabilities of the M/M/n/r, finite-source (Engset), batch-arrival M[X]/M/1 and impatient M/M/1 models are positive solutions of the balance equations of the model and sum to one, also when load is exactly one. "
     "Loss probability, queue and population moments follow from those probabilities by their definition, waiting and sojourn moments of the jobs that are accepted by Little's law and convolution with service; series are never cut before their largest terms.",
     ["inputs"], TH_OVER, TH_WHY,
     ["most_queue/theory/mmnr_calc.py", "most_queue/theory/engset_model.py", "most_queue/theory/batch_mm1.py", "most_queue/theory/impatience_calc.py"],
     [("get_p and the characteristics", "MMnr_calc, Engset, BatchMM1, impatience_calc")], technique=THT)
prop("T02", "M/G/1 results satisfy the Pollaczek-Khinchine equations",
     "The waiting moments of an M/G/1 queue satisfy the Pollaczek-Khinchine transform equation to every order returned, sojourn is waiting plus service, and the state probabilities solve the embedded chain with the number of arrivals during a service "
     "(gamma, uniform or Pareto service). The warm-up variant differentiates the transform of a queue whose first service is exceptional. Adding and removing an independent summand are exact and inverse for one to three moments.",
     ["inputs"], TH_OVER, TH_WHY,
     ["most_queue/theory/mg1_calc.py", "most_queue/theory/mg1_warm_calc.py", "most_queue/theory/utils/q_poisson_arrival_calc.py", "most_queue/general_utils/conv.py"],
     [("get_w, get_v, get_p", "mg1_calc"), ("get_q_*", "q_poisson_arrival_calc"), ("get_moments*", "conv")], technique=THT)
prop("T03", "GI/M/n and deterministic-service models solve their embedded chains",
     "In GI/M/1 and GI/M/n the tail parameter is a fixed point of the interarrival transform at n mu (1 - w), arrival-time probabilities solve the embedded chain and sum to one with a geometric tail, time-average probabilities follow by level crossing, and waiting and sojourn moments are those of the resulting transforms. "
     "In M/D/n and Ek/D/n the probabilities reproduce themselves over one service time, and the boundary system states the root conditions and the mean number of idle servers.",
     ["inputs"], TH_OVER, TH_WHY,
     ["most_queue/theory/gi_m_1_calc.py", "most_queue/theory/gi_m_n_calc.py", "most_queue/theory/m_d_n_calc.py", "most_queue/theory/ek_d_n_calc.py"],
     [("get_pi, get_p, get_w, get_v, get_w_param", "gi_m_1_calc, gi_m_n_calc"), ("calc_p, calc_w, boundary system", "M_D_n, Ek_D_n")], technique=THT)
prop("T04", "Fork-join approximations keep their exact and limiting cases",
     "The fork-join formulas give the exact mean for two branches, the harmonic number of services in light traffic and (where they claim to) the heavy-traffic limit; (n, k) versions combine maxima of subsets with the weights of order statistics, so that k = n is the plain formula. "
     "Invariance approximations multiply the exact two-branch value by the ratio of the auxiliary queues with n and with two servers. Moments of a maximum are those of the product of the distribution functions of all parts, each delayed by its own start, without delay too.",
     ["inputs"], "every arrival and service rate below saturation, one to seven branches, every k", TH_WHY,
     ["most_queue/theory/fj_calc.py"], [("get_v1_fj_*, get_W, get_v_fj_*, getMaxMoments*, dfr_*_Mult", "fj_calc")], technique=THT)
prop("T05", "Network calculation solves the traffic and path equations",
     "Class flows solve the traffic equations of the routing matrix, also when nodes are not visited. Every node is solved with the flows and services of its classes in the order of their priority there, its own number of channels and kind of priority; the result of a priority belongs to the class that has it. "
     "Node load is the sum over the classes of flow times mean service over the channels, and the sojourn moments of a class are derivatives of the transform of its path through the nodes.",
     ["inputs"], "every external rate and service moment; checked routing topologies with one to three nodes, permuted priorities", "One test solves one network and compares mean sojourn times within tens of percent.",
     ["most_queue/theory/network_calc.py"], [("balance_equation, network_prty_calc", "network_calc")], technique=THT)
prop("T06", "Priority formulas satisfy the transform equations of priority queues",
     "Busy periods satisfy pi(s) = B(s + l - l pi(s)) to the fifth moment; under preemptive priority the waiting, active and sojourn time moments of every class satisfy the transform equations of the delay cycle, and mean-value and Klimov formulas agree with them; under non-preemptive priority the differentiated transform is that of Cobham's queue. "
     "Results for many servers scale the single-server result of the n times faster server by the ratio of the mean queues, with the service of all classes merged by their intensities; without priority every class waits as in the merged queue.",
     ["inputs"], TH_OVER, TH_WHY, ["most_queue/theory/priority_calc.py", "most_queue/theory/mg1_calc.py"],
     [("calc_pr1, get_w_np, get_w1_*, climov_w_pr_calc, ppnz_calc*, get_*_invar", "priority_calc")], technique=THT)

prop("T07", "Iterative models solve the Markov chain of the queue they name",
     "The level matrices that the iterative (Takahashi-Takami) models build are those of the phase-type queue they name: M/H2/n with infinite and finite buffer, with warm-up, with cooling, delay and warm-up in every combination, M/M/n with cooling and warm-up, "
     "two and three classes under preemptive priority and with phase-type service. Every level has exactly the transitions between its states (equal up to the names of the states), the outflow of a state is the sum of its transitions, and busy periods of higher classes enter with the law they were fitted to.",
     ["inputs", "configurations"], "every rate and branching probability; one to four servers, every level below and at the repeating part", "Tests run each model at one point and compare the mean with a simulation within tens of percent; a wrong transition on one level moves the mean by less.",
     ["most_queue/theory/mgn_tt.py", "most_queue/theory/m_h2_h2warm.py", "most_queue/theory/mgn_with_h2_delay_cold_warm.py", "most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py",
      "most_queue/theory/mmn_prty_pnz_approx.py", "most_queue/theory/mmn3_pnz_cox_approx.py", "most_queue/theory/m_ph_n_prty.py"],
     [("buildA / buildB / buildC / buildD, build_matrices, calc_busy_periods", "the seven models")], technique=THT)
prop("T08", "Iterative models return the characteristics of the distribution they find",
     "A sweep of the iteration keeps the balance of every level, the flow across every cut and the scaling of the level below; the level probabilities it ends with are in proportion, sum to one and honour a finite top level. "
     "Waiting moments are the derivatives of the transform built from the time an arriving job waits in every state, sojourn is waiting plus service (warm service where it applies), and the probabilities of warm-up, cooling and delay are the mass of those states; for two classes Little's law gives the mean times.",
     ["inputs", "configurations"], "every rate, every probability vector found by the iteration; one to four servers", TH_WHY,
     ["most_queue/theory/mgn_tt.py", "most_queue/theory/m_h2_h2warm.py", "most_queue/theory/mgn_with_h2_delay_cold_warm.py", "most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py",
      "most_queue/theory/mmn_prty_pnz_approx.py", "most_queue/theory/mmn3_pnz_cox_approx.py", "most_queue/theory/m_ph_n_prty.py"],
     [("run, get_p, get_w, get_v, calc_w_pls, get_*_prob", "the seven models")], technique=THT)

prop("T10", "Passage times between levels solve the equations that define them",
     "For a chain of levels with any blocks of transitions, the passage-time calculation returns, for every level, the probabilities and the first three moments of the time until the level below is first entered, by states of entry: "
     "the matrices it ends with satisfy the one-step equations (leave the level down, stay, or go up and come back twice) for probabilities and for every moment; the jump probabilities and jump times are those of the rates, conditional moments are moments over the probability, "
     "and a passage over several levels is the sequence of the passages level by level.",
     ["inputs", "configurations"], "every block of rates (symbolic), one and two states per level, one to four levels", "One test compares the values of a single chain printed on the screen.",
     ["most_queue/theory/utils/passage_time.py"], [("calc, and its helpers", "most_queue/theory/utils/passage_time.py")], technique=THT)

prop("T09", "Numerical helpers compute the quantities they name",
     "Finite differences are exact for every polynomial through their points; binomial weights are the binomial law; moments by mean and coefficient of variation are those of the gamma law. "
     "Student quantiles are those of a sample of about the given size and never grow with it, and a confidence interval is the mean plus and minus quantile times deviation over the root of the size. "
     "The semi-invariants of intervals and of event counts convert into each other exactly and add up over merged flows; a merged interval of two flows ends with the earlier of an interval of one and the rest of one of the other; several flows are merged one by one, each once.",
     ["inputs", "configurations"], "every argument (symbolic); up to five points, eight weights, four moments, four flows; every sample size from 5 to 130", "No test calls these helpers except through one model each.",
     ["most_queue/theory/utils/diff5dots.py", "most_queue/theory/utils/binom_probs.py", "most_queue/theory/utils/student_stat.py", "most_queue/theory/utils/flow_sum.py", "most_queue/general_utils/vacations_paper_utils.py"],
     [("diff5dots, calc_binom_probs, get_ty, get_conf_intervals, SummatorNumeric", "most_queue/theory/utils")], technique=THT)

NA = []
