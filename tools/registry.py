"""Which harness decides which property, and how each harness is built from /repo's sources."""
CM = 'R/controller_manager/src/controller_manager.cpp'

HARNESSES = {
    'cm_seq': {'sources': [('V/harness/cm_seq.cpp', 'asan'), (CM, 'asub')]},
    # controller_manager.cpp first: its instrumented copies of inline functions are the ones linked; sched.h is the TSan run-time
    'cm_conc': {'sources': [(CM, ['-O1', '-fsanitize=thread']), ('V/harness/cm_conc_user.cpp', ['-O1', '-fsanitize=thread']), ('V/harness/cm_conc.cpp', 'plain')], 'stub_flags': 'plain', 'link_flags': ['-rdynamic']},
    'ctl_init': {'sources': [('V/harness/ctl_init.cpp', 'asan')]},
    'combined': {'sources': [('V/harness/combined.cpp', 'asan'), ('R/combined_robot_hw/src/combined_robot_hw.cpp', 'asub')]},
    'joint_limits': {'sources': [('V/harness/joint_limits.cpp', 'asan')]},
    'transmissions': {'sources': [('V/harness/transmissions.cpp', 'asan')]},
    'trans_load': {'sources': [('V/harness/trans_load.cpp', 'asan')] + [('R/transmission_interface/src/%s.cpp' % n, 'asub') for n in (
        'transmission_parser', 'transmission_loader', 'simple_transmission_loader', 'differential_transmission_loader', 'four_bar_linkage_transmission_loader', 'transmission_interface_loader',
        'joint_state_interface_provider', 'position_joint_interface_provider', 'velocity_joint_interface_provider', 'effort_joint_interface_provider',
        'bidirectional_position_joint_interface_provider', 'bidirectional_velocity_joint_interface_provider', 'bidirectional_effort_joint_interface_provider')], 'libs': ['-ltinyxml']},
    'p_utils': {'python': 'V/harness/py/p_utils.py'}, 'p_scripts': {'python': 'V/harness/py/p_scripts.py'}, 'p_rqt': {'python': 'V/harness/py/p_rqt.py'},
    'hw_iface': {'sources': [('V/harness/hw_iface.cpp', 'asan')]},
}

SEQ = ('sequential: one thread; every wait of a service call runs one control cycle whose environment is chosen by the explorer; '
       'up to 4 controllers; every execution runs the real ControllerManager and is compared step by step with a reference model')
CONC = ('concurrent: the real ControllerManager, instrumented, under a controlled scheduler; all interleavings of a control loop and 1-3 '
        'calling threads up to 1-2 (thorough 2-3) preemptions at atomics, locks and callbacks, sleeps and lock hand-overs free; happens-before race and '
        'use-after-free detection; results compared with all orders of the calls in a reference model')
INIT = ('all combinations of present, required and optional interfaces, of handles fetched and of failures, in sequences of controllers initialised on one robot, '
        'through the real Controller and MultiInterfaceController templates under AddressSanitizer, compared with a reference model')
REG = ('all histories of registrations, lookups, combinations, claims and clearings up to the bound on the real registries under AddressSanitizer, '
       'compared after every step with a model of maps and sets')
COMB = ('all assignments of interfaces, resources and failures to up to three parts and all switch lists up to the bound through the real CombinedRobotHW with '
        'recording parts, compared with a model that filters per part')
LIM = ('all sequences of commands, measurements and periods up to the bound over exact grids that straddle every limit, for all configurations of the grid, through the real handles and '
       'interfaces, each result compared with the closest admissible command computed from the documentation')
PY = ('the real scripts, run whole, with cooperative threads on stand-ins of the ROS client; all executions over outcomes of service calls, changes by others and interleavings at service calls up to the bound')
CHECKS = {
    'C01': {'harnesses': ['cm_seq', 'cm_conc'], 'method': SEQ + '; ' + CONC},
    'C02': {'harnesses': ['cm_seq'], 'method': SEQ},
    'C03': {'harnesses': ['cm_seq'], 'method': SEQ},
    'C04': {'harnesses': ['cm_seq'], 'method': SEQ},
    'C05': {'harnesses': ['cm_seq'], 'method': SEQ},
    'C06': {'harnesses': ['cm_seq', 'cm_conc'], 'method': SEQ + '; ' + CONC},
    'C07': {'harnesses': ['cm_seq'], 'method': SEQ},
    'C08': {'harnesses': ['cm_conc'], 'method': CONC},
    'C09': {'harnesses': ['cm_conc'], 'method': CONC},
    'C10': {'harnesses': ['cm_seq', 'cm_conc'], 'method': SEQ + '; ' + CONC},
    'C11': {'harnesses': ['cm_seq'], 'method': SEQ},
    'C12': {'harnesses': ['ctl_init'], 'method': INIT},
    'C13': {'harnesses': ['cm_seq', 'combined', 'joint_limits', 'transmissions'], 'method': SEQ + '; and the exhaustive histories of the combined robot and of the limits and transmission interfaces: in every real-time call of every execution the heap operations and lock acquisitions of the code itself are counted'},
    'H01': {'harnesses': ['hw_iface'], 'method': REG}, 'H02': {'harnesses': ['hw_iface'], 'method': REG}, 'H03': {'harnesses': ['hw_iface'], 'method': REG},
    'H04': {'harnesses': ['hw_iface'], 'method': 'all lists of controllers and claims up to the bound through the real RobotHW::checkForConflict, against a direct count'},
    'H05': {'harnesses': ['hw_iface'], 'method': 'every handle type: all subsets of null data, all set/get/copy histories up to the bound on the real handles against a model of the data'},
    'H06': {'harnesses': ['combined'], 'method': COMB},
    'J01': {'harnesses': ['joint_limits'], 'method': LIM}, 'J02': {'harnesses': ['joint_limits'], 'method': LIM}, 'J03': {'harnesses': ['joint_limits'], 'method': LIM},
    'J04': {'harnesses': ['joint_limits'], 'method': 'all combinations of present, absent, disabled and ill-typed parameters (by groups) onto every initial value through the real loader, against a model of the specification'},
    'T01': {'harnesses': ['transmissions'], 'method': 'all reductions, offsets and values of exact grids through the real maps, compared with exact rational formulas; round trips, integrals and power; all sequences of maps on shared data up to the bound'},
    'T02': {'harnesses': ['transmissions'], 'method': 'all lists up to length three over a grid of values through the real constructors, against the exact condition'},
    'T03': {'harnesses': ['transmissions'], 'method': 'all presence patterns and up to two spoilt data through the real handles of all eight kinds under AddressSanitizer; all histories of real registries up to the bound, against a model'},
    'T04': {'harnesses': ['trans_load'], 'method': 'all documents of a grammar with omitted, emptied, duplicated and misplaced elements up to the bound, all truncations and single-character changes of one document and all short texts through the real parser, against the structure they were printed from'},
    'T05': {'harnesses': ['trans_load'], 'method': 'all combinations of joint and actuator counts, roles, reductions, offsets and flags of the grammar through the real loaders; the maps of what they build compared with the documented formulas'},
    'T06': {'harnesses': ['trans_load'], 'method': 'all single transmissions and pairs (thorough: triples) over types, interface lists, roles, robots and pre-existing joints through the real loader and providers; names, handles and every value after each propagation compared with a model'},
    'P01': {'harnesses': ['p_utils'], 'method': 'all lists of up to three controllers over small domains of names, types, states and claims, and all arguments of every filter, on the real functions, against the documented conditions'},
    'P02': {'harnesses': ['p_utils'], 'method': 'all service and parameter tables of the grid, all changes between calls and all failures of calls, through the real functions on stand-ins of the ROS client, against a model of the tables'},
    'P03': {'harnesses': ['p_scripts'], 'method': PY + '; the manager, its controllers and the topics are models; signals and shutdowns at every service call, sleep and lock'},
    'P04': {'harnesses': ['p_scripts'], 'method': PY + '; all commands, argument lists, group tables, manager states and outcomes of calls up to the bound; requests, outputs and final states against a model'},
    'P05': {'harnesses': ['p_rqt'], 'method': 'all histories of managers, controllers, configurations, selections and menu actions up to the bound through the real plug-in on a stand-in toolkit and ROS client; rows, selections and requests against a model'},
    'J05': {'harnesses': ['joint_limits'], 'method': 'all joint types, sections, values and initial limits through the real loader, against a model of the specification'},
}
NOT_APPLICABLE = {}
