"""Which harnesses decide which property, in which float theory, within which bounds."""
PROPS = {}
NA = {}
HOOK_COMMITS = []


def H(h, mode='D', **kw):
    d = dict(h=h, mode=mode)
    d.update(kw)
    return d


def prop(pid, harnesses, **kw):
    PROPS[pid] = dict(harnesses=harnesses, **kw)


AR = ['accepted', 'refused']
BOX = 'src/system_mod/cont_cubic.rs'
BALL = 'src/system_mod/cont_circ.rs'
CYL = 'src/system_mod/cont_cyl.rs'


def anchors(files, *mech, **kw):
    d = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    d.update(kw)
    return d


prop('C01', [H('cubic_step_%d' % i, covers=AR, bounds='dimension %d; half width 1e-100..1e100, position inside, displacement up to 1e110; every boundary condition' % i) for i in (1, 2, 3, 4)]
     + [H('cubic_moderate_%d' % i, covers=['accepted'], bounds='dimension %d; displacement at most the half width' % i) for i in (1, 2, 3, 4)]
     + [H('cubic_any_double', mode='E', covers=AR, bounds='dimension 1..2; position and displacement any double, NaN and infinities included')],
     title='Moves in a rectangular system obey its boundary condition',
     statement='When a rectangular system accepts a move, the particle ends inside the box, and each coordinate is the plain sum if that stays inside, its mirror image in the crossed wall on a reflecting axis, or its translate by one period on a periodic axis (mixed conditions reflect the first axes and wrap the rest). '
               'A move of at most the half width per axis is never refused, and a move is refused only when one reflection or period is not enough.',
     over=['inputs', 'configurations'],
     quant='every half width, dimension, boundary condition, starting position inside the box and displacement, including infinite and NaN displacements for the ends-inside part',
     why='The tests move a few hand-written points; the claim is over all real positions and displacements, where mistakes sit on particular sides, axes and just beyond one image.',
     anchors=anchors([BOX], ('boundary handling of a move', BOX + ' check_bc'), ('closed-box test', BOX + ' check_inclusion'), ('vector sum', 'src/position.rs mut_add')),
     bounds='dimensions 1..3', outside='dimension 4 and more')
prop('C02', [H('circ_exact_law_1', mode='R', qtimeout=200.0, path_timeout=700.0, covers=['inside', 'reflected', 'refused'], bounds='exact reflection, dimension 1')]
     + [H('circ_safe_%d' % i, covers=AR, bounds='dimension %d; radius 1e-6..1e6, displacement up to 1e8' % i) for i in (1, 2, 3, 4)]
     + [H('circ_law_%d' % i, mode='R', covers=['inside', 'reflected', 'refused'], bounds='dimension %d; reflection law up to 1e-9' % i) for i in (1, 2, 3, 4)]
     + [H('circ_any_double', mode='U', covers=AR, bounds='dimension 1..2; position and displacement any double'),
        H('circ_free_any_double', mode='U', covers=AR, bounds='alternative reflections, dimension 2, any double displacement'),
        H('circ_exact_safe_2', covers=AR, bounds='exact reflection, dimension 2'), H('circ_first_safe_2', covers=AR, bounds='first-order reflection, dimension 2')],
     title='Moves in a circular system reflect at the wall',
     statement='When a circular system accepts a move the particle ends inside the ball: at the plain sum if that stays inside, otherwise on the same ray at distance 2R - s from the centre, where s is the distance of the plain sum. '
               'Beyond rounding, a move is refused only if the plain sum lies at least 3R from the centre, and an accepted move never yields a NaN coordinate. The alternative exact and first-order reflections also only accept moves that end inside.',
     over=['inputs', 'configurations'],
     quant='every radius, dimension, starting position in the ball and displacement (any double for the no-NaN part)',
     why='The tests check a few displacements at one radius; the claim is over all radii, positions and displacements, with rounding.',
     anchors=anchors([BALL], ('radial reflection', BALL + ' check_bc'), ('exact and first-order variants', BALL + ' check_bc_exact, check_bc_first_order')),
     bounds='dimensions 1..3', outside='the exact mirror law of the alternative reflection in dimension 2 and more (nonlinear arithmetic did not finish)')
prop('C03', [H('cyl_safe_' + s, covers=AR, bounds='circular dimension, dimension = ' + s) for s in ('1_2', '2_3', '2_2', '0_2', '1_3', '0_3', '3_3', '3_4', '1_4')]
     + [H('cyl_law_' + s, mode='R', covers=AR, bounds='circular dimension, dimension = ' + s) for s in ('1_2', '2_3', '2_2', '0_2', '1_3', '0_3', '3_3', '3_4', '1_4')]
     + [H('cyl_any_double', mode='U', covers=AR, bounds='one circular and one axial coordinate, any double')],
     title='Moves in a cylindrical system reflect radially and wrap along the axis',
     statement='When a cylindrical system accepts a move the particle ends within its radius and length: the circular coordinates are reflected along the radius to distance 2R - s if they left the disk, and each axial coordinate is translated by one period if it left the box. '
               'Beyond rounding, a move is refused only if the circular part lies at least 3R away or an axial coordinate needs more than one period.',
     over=['inputs', 'configurations'],
     quant='every radius, length, number of circular coordinates, starting position inside and displacement (any double for the no-NaN part)',
     why='The tests cover a 2-dimensional cylinder with a few points; the claim quantifies over splits of the coordinates and all displacements.',
     anchors=anchors([CYL], ('radial reflection and axial wrap', CYL + ' check_bc')),
     bounds='(circular, total) dimensions (1,2) (2,3) (2,2) (0,2) (1,3) (0,3) (3,3) (3,4) (1,4)', outside='other splits and higher dimensions')
prop('C04', [H('cubic_inclusion', mode='E', covers=['ok', 'err']), H('circ_inclusion', covers=['ok', 'err']), H('circ_boundary_closed', mode='R'),
             H('cyl_inclusion', covers=['in', 'out', 'err']), H('cyl_boundary_closed', mode='R')],
     title='Inclusion is the closed box, ball or cylinder',
     statement='A position is reported inside exactly when it lies in the closed box, ball or cylinder the system describes; a NaN coordinate is never inside. A position of another dimension is an error, not a panic and not a verdict.',
     over=['inputs', 'configurations'],
     quant='every system shape and size, every position of dimension 1..5 (any double for the box)',
     why='The tests use a handful of points per shape; a wrong comparison on one axis or at the boundary needs other points.',
     anchors=anchors([BOX, BALL, CYL], ('inclusion tests', 'check_inclusion of the three systems')),
     bounds='systems of dimension 1..4, positions of dimension 1..5; ball and cylinder up to 1e-9 relative rounding of the norm')
prop('C05', [H('cubic_random'), H('cubic_random_reaches_all', covers=['!-+', '!+-']), H('circ_random'), H('circ_random_mismatch'),
             H('circ_random_reaches_all', covers=['!left', '!right', '!up', '!down']), H('cyl_random'), H('cyl_random_mismatch'),
             H('cyl_random_reaches_all', covers=['!left', '!right', '!up', '!down'])],
     title='Random positions lie inside the system and can be anywhere in it',
     statement='For every output of the random number generator, a random position drawn from a system lies inside it, whatever the vector to fill held before, and has its dimension; filling a vector of another dimension is an error. The outer tenth of the system on every side is reachable.',
     over=['inputs', 'configurations'],
     quant='every sequence of 64-bit generator outputs, every system shape and size',
     why='The tests draw positions from a few fixed seeds; the claim is over all generator outputs, including those at the ends of the unit interval.',
     anchors=anchors([BOX, BALL, CYL, 'src/random_mod/mod.rs'], ('uniform sampling with rejection', 'random_pos, random_pos_to_vec'), ('uniform numbers', 'src/random_mod/mod.rs get_uniform_vec, get_uniform_to_vec_nonstandard')),
     bounds='dimensions 1..3; at most 7 (ball) or 6 (cylinder) generator words, i.e. at least two rejection rounds', outside='the distribution itself; longer rejection sequences')
prop('C06', [H('cubic_outside'), H('circ_outside'), H('cyl_outside')],
     title='The out-of-system position is outside',
     statement='The position a system offers as lying outside of it is never inside it, in both the returned and the fill-a-vector form; filling a vector of another dimension is an error.',
     over=['configurations'], quant='every system shape, size and dimension 1..4',
     why='Existing code relies on it to initialise searchers, no test compares it with inclusion over sizes and shapes.',
     anchors=anchors([BOX, BALL, CYL], ('outside position', 'position_out_of_system, position_out_of_system_to_vec')),
     bounds='dimensions 1..4')
prop('C07', [H('cubic_construct', mode='E', covers=['built', 'refused']), H('circ_construct', mode='E', covers=['built', 'refused']),
             H('cyl_construct', mode='E', covers=['built', 'refused']), H('cyl_construct_inconsistent')],
     title='Systems cannot be built from invalid parameters, by either route',
     statement='Building a system directly and building it from parsed arguments accept exactly the same parameters: positive sizes, positive dimension, and a number of reflecting or circular axes not above the dimension. An accepted system holds the given parameters unchanged.',
     over=['inputs', 'configurations'], quant='every size (any double but NaN), dimension 0..4 and axis count 0..6',
     why='Tests try one or two bad values per constructor; the two routes are separate code that can drift apart on a boundary value.',
     anchors=anchors([BOX, BALL, CYL], ('direct construction', 'new'), ('construction from arguments', 'convert_from')),
     bounds='dimension up to 4, axis count up to 6')
TGT = 'src/target_mod/cont_bulk.rs'
AG = ['src/agent_mod/cont_passive_indep.rs', 'src/agent_mod/cont_passive_merge.rs', 'src/agent_mod/cont_passive_exp.rs', 'src/agent_mod/cont_passive_lj.rs']
KIND = ['indep', 'merge', 'exp', 'lj']
prop('C08', [H('target_find_1', covers=['found', 'missed'], bounds='dimension 1')]
     + [H('target_find_%d' % i, mode='R', covers=['found', 'missed'], bounds='dimension %d' % i) for i in (1, 2, 3)]
     + [H('target_edge', mode='R'), H('target_mismatch'), H('target_any_double', mode='U', covers=['found', 'missed'])],
     title='A target is found exactly within its size',
     statement='A searcher has found a target exactly when its Euclidean distance to the target position is below the target size; at that distance it has not. An undefined coordinate finds nothing and a position of another dimension is an error.',
     over=['inputs', 'configurations'], quant='every target position and size, every searcher position (any double for the undefined part)',
     why='The tests use one target and two positions; a dropped coordinate, a wrong comparison or a squared size needs other points.',
     anchors=anchors([TGT, 'src/position.rs'], ('detection', TGT + ' check_find'), ('distance', 'src/position.rs distance')),
     bounds='dimensions 1..3 (mismatch: up to 4); up to 1e-9 relative rounding of the squared distance')
prop('C09', [H('place_' + k, covers=['!left of the target', '!right of the target']) for k in KIND] + [H('place2_' + k, mode='R') for k in KIND] + [H('args_' + k, covers=['some', 'none']) for k in KIND],
     title='Agents start inside the system and off the target',
     statement='An agent placed uniformly, whether newly made, re-used or made from arguments, lies inside the system and outside of the target, has the dimension of the system and can be on either side of the target. Agents made from arguments with a given position all lie there, as many as asked for.',
     over=['inputs', 'configurations'], quant='every sequence of generator outputs, every target inside the system, system size and previous agent position, for the four kinds of agents',
     why='Tests place agents with fixed seeds; leaving out the target or the old position matters only for particular generator outputs.',
     anchors=anchors(AG, ('placement with rejection', 'new_uniform, renew_uniform'), ('construction from arguments', 'convert_from')),
     bounds='boxes of dimension 1 and 2, disks and cylinders of dimension 2; at most 3 or 4 generator words')
prop('C10', [H('rel%d_%s' % (i, k), mode='R', bounds='dimension %d' % i) for k in KIND for i in (1, 2, 3)] + [H('rlaw_' + k, mode='R') for k in KIND] + [H('relmis_' + k) for k in KIND],
     title='Relative position of two agents is symmetric and consistent',
     statement='The distance of two agents is Euclidean and the same from either side; the relative displacement returns that distance and the unit direction from the first agent to the second, identically in the returned and the fill-a-vector form. Agents or vectors of another dimension are an error.',
     over=['inputs'], quant='every pair of positions at least 1e-3 apart, for the four kinds of agents',
     why='Each kind of agent has its own copy of the code; tests compare two positions per kind.',
     anchors=anchors(AG + ['src/position.rs'], ('relative geometry', 'mutual_displacement, mutual_displacement_to_vec, mutual_distance'), ('vector operations', 'src/position.rs distance, norm, sub')),
     bounds='dimensions 1..3, coordinates up to 1e6, rounding 1e-9', outside='coincident agents, whose direction is not defined')
prop('C11', [H('therm1_' + k, mode='R', covers=['returned', 'added'], bounds='dimension 1') for k in KIND] + [H('therm2_' + k, mode='R', covers=['returned', 'added'], bounds='dimension 2') for k in KIND]
     + [H('thref_' + k) for k in KIND],
     title='Thermal moves scale as sqrt(2 D dt), one deviate per coordinate',
     statement='A Brownian move over a time dt is sqrt(2 D dt) times one standard normal deviate of its own per coordinate, with the dimension of the agent; the vector form adds it to what the vector holds. Moves of a kind not provided (Levy) and vectors of another dimension are refused and change nothing.',
     over=['inputs'], quant='every diffusion coefficient, time step, vector content and normal deviate, for the four kinds of agents',
     why='Tests look at moves of one seed; a wrong scale, a shared deviate or overwriting the vector shows only against all deviates.',
     anchors=anchors(AG + ['src/random_mod/mod.rs'], ('thermal move', 'random_move, random_move_to_vec'), ('normal vectors', 'src/random_mod/mod.rs get_gaussian_vec, get_gaussian_to_vec_nonstandard')),
     bounds='dimensions 1 and 2 (refusals: 1..3)', outside='the distribution of the deviates themselves')
prop('C12', [H('lj_law', mode='R'), H('exp_law', mode='R'), H('inter_renewed', mode='R', covers=['lj', 'exp']), H('inter_refused')],
     title='Interaction forces are the slopes of their potentials',
     statement='The Lennard-Jones potential is 4 e ((s/r)^12 - (s/r)^6) and the exponential one c exp(-r/g), each force being the negative derivative of its potential, whether the agent was built directly, from arguments, or placed anew in another system. An agent cannot be built with the type or dimension of another interaction.',
     over=['inputs', 'configurations'], quant='every particle size or range, strength and distance in range',
     why='The tests compare one distance per potential; a wrong power or a coefficient not kept on one construction route shows elsewhere.',
     anchors=anchors(AG[2:], ('potential and force', 'potential, force'), ('coefficients', 'coeff, new, new_uniform, renew_uniform, convert_from')),
     bounds='s in 0.5..2, r in 0.5..4, |e| up to 10; g in 0.1..10, r in 0..10, |c| up to 10', outside='exp is an uninterpreted monotone positive function of its argument')
prop('C13', [H('merge_sizes', covers=['merged']), H('merge_renew'), H('merge_levy')],
     title='Merging clusters conserves particles and slows them by size',
     statement='Merging two clusters or adding particles gives a cluster of the summed size with diffusion coefficient size^-alpha, at the place of the first and leaving the second untouched; a renewed cluster is a single particle again with the coefficient of one. Growth of a walker that is not Brownian is refused.',
     over=['inputs', 'histories'], quant='every pair of sizes up to 1e6, every exponent and initial coefficient',
     why='Tests merge two single particles; the size law needs larger sizes and repeated merging.',
     anchors=anchors(AG[1:2], ('growth', 'merge, add_size'), ('renewal', 'renew_uniform')),
     bounds='sizes up to 2e6, alpha in -3..3', outside='pow is uninterpreted')

POS = 'src/position.rs'
prop('C14', [H('pos_linear_%d' % i, mode='E', bounds='dimension %d, any double' % i) for i in (1, 2, 3)]
     + [H('pos_metric_%d' % i, mode='R', bounds='dimension %d, coordinates up to 1e6' % i) for i in (1, 2, 3)]
     + [H('pos_int_%d' % i, mode='R', bounds='dimension %d, any 32-bit integers' % i) for i in (1, 2)]
     + [H('pos_int_linear', mode='E'), H('pos_mismatch'), H('pos_undefined', mode='U', covers=['undefined'])],
     title='Vector arithmetic is by coordinate and the metric is Euclidean',
     statement='Sums, differences and multiples of positions are taken by coordinate, identically in the returning and the in-place forms, leaving the other operand untouched. '
               'Norm, distance and inner product are the Euclidean ones, symmetric, defined for all integer positions, and never hide an undefined coordinate. Combining positions of different dimension is refused.',
     over=['inputs'], quant='every pair of positions (any double, or any 32-bit integer for norm and distance) and scalar',
     why='The tests add and measure single hand-written vectors of dimension 2; a wrong coordinate, an overflow or an asymmetry needs other values.',
     anchors=anchors([POS], ('vector operations', POS + ' add, sub, scalar_mul, mut_add, mut_sub, mut_scalar_mul'), ('metric', POS + ' norm, distance, inner_product, taxi_distance')),
     bounds='dimensions 1..3 (mismatch: up to 4), integer sums within 2000, rounding 1e-9 in the metric', outside='in-place addition of a vector of another dimension, which is not checked by the code')
RND = 'src/random_mod/mod.rs'
prop('C15', [H('uniform_range'), H('uniform_spread', covers=['!low high', '!high low']), H('uniform_nonstandard', mode='R', covers=['!low', '!high']), H('gauss_vec'), H('gauss_nonstandard', mode='R'), H('seed_injective', mode='E')],
     title='Random vectors use one number per coordinate, in range',
     statement='Uniform numbers lie in the open unit interval, uniform vectors take one generator output per coordinate and Gaussian vectors one deviate per coordinate, filled vectors keep nothing of what they held. '
               'The additive forms add a number from the given range, or mean plus deviation times deviate. A seed determines the generator and different seeds give different ones.',
     over=['inputs'], quant='every sequence of generator outputs and deviates, previous vector content, range, mean and deviation, and 128-bit seed',
     why='Tests draw ten numbers from a fixed seed and look at the range; the ends of the interval and shared outputs need particular generator outputs.',
     anchors=anchors([RND], ('uniform numbers and vectors', RND + ' get_uniform, get_uniform_vec, get_uniform_to_vec, get_uniform_to_vec_nonstandard'), ('normal vectors', RND + ' get_gaussian_vec, get_gaussian_to_vec, get_gaussian_to_vec_nonstandard'), ('seeding', RND + ' rng_seed')),
     bounds='dimensions 1..3', outside='the output function of the generator and the shape of the normal distribution, which belong to other crates')
LST = 'src/iterator.rs'
prop('C16', [H('list_history_0', mode='E', covers=['deleted', 'reconnected', 'end'], bounds='5 operations from empty'), H('list_history_3', mode='E', covers=['deleted', 'reconnected', 'end'], bounds='4 operations from 3 elements'),
             H('list_delete_while_visiting', mode='E', covers=['deleted', 'end']), H('list_change', mode='E'), H('list_clear', mode='E'), H('list_merge', mode='D', covers=['merged', 'end'])]
     + [H('list_pairs_' + k, mode='E', covers=['deleted', 'end']) for k in ('idx', 'enum', 'get')] + [H('list_pairs_empty', mode='E')],
     title='The linked list visits exactly the living elements in order',
     statement='After any history of insertions, deletions and reconnections the list links and visits exactly the living elements, in order of insertion, each with its own contents, also while elements are deleted during the visit; only living elements can be deleted. '
               'Visiting pairs yields each pair of living elements once, in order, also when the second of a pair is deleted. Merging two clusters in the list conserves the number of particles and is refused, without effect, for anything but two different living clusters.',
     over=['histories', 'inputs'], quant='every history of operations and deletion choices within the bound, and all contents and cluster sizes',
     why='The tests follow three or four fixed histories; stale links show only after particular orders of deletion at the ends and reconnection.',
     anchors=anchors([LST], ('links', LST + ' push, del, connect_all, from'), ('visiting', LST + ' get, enumerate, indicies, get_double, enumerate_double, indicies_double'), ('merging', LST + ' merge')),
     bounds='histories of up to 5 operations and 7 elements; visits of up to 5 elements with any deletions', outside='deleting other elements than the second of the pair while visiting pairs')
TIM = 'src/time_mod/mod.rs'
prop('C17', [H('time_const', covers=['stepped', 'ended'])] + [H('time_exp_' + k, covers=['stepped', 'ended', 'grown']) for k in ('1', '2', '3', '10', 'args_11')]
     + [H('time_const_build', mode='E', covers=['built', 'refused']), H('time_exp_build', mode='E', covers=['built', 'built from arguments']), H('time_set_inc', mode='E', covers=['set'])],
     title='Time advances by the step, grows as configured and ends at the end time',
     statement='Times start at zero and each is the previous one plus the step reported with it; the step is constant, or grows by the configured ratio after every run of the configured length up to its largest value and never shrinks. '
               'No time lies beyond the end time and iteration ends only beyond it (an end time of zero means none), starting anew restores the beginning, and zero steps, negative end times, inverted limits and ratios not above one are refused.',
     over=['inputs', 'configurations', 'histories'], quant='every step size, limits, end time and growth ratio',
     why='The tests print the first times for one or two step sizes; the end condition, the cap of the step and the refusals need other values.',
     anchors=anchors([TIM], ('constant steps', TIM + ' ConstStep'), ('growing steps', TIM + ' ExponentialStep'), ('time and step pairs', TIM + ' TimeDiffIterator')),
     bounds='runs of up to 12 steps; lengths 1, 2, 3, 10, 11')
TYPES = ['src/system_mod/mod.rs', 'src/target_mod/mod.rs', 'src/agent_mod/types.rs', 'src/time_mod/mod.rs', POS]
prop('C18', [H('text_' + k, mode='R', covers=['end']) for k in ('system', 'bc', 'target', 'agent', 'move', 'init', 'pos', 'inter', 'time', 'short')]
     + [H('text_wrong_' + k, mode='R', covers=['end']) for k in ('type', 'bc', 'system', 'move', 'inter', 'time', 'pos', 'init')] + [H('text_cut', mode='R', covers=['end'])],
     title='Every parameter reads back from its text form; other words are refused',
     statement='The printed form of every kind of system, boundary, target, agent, walk, starting position, interaction and time step, and of every position, is read back as the same value (time steps to the digits shown); the short forms are read as documented. '
               'Misspelt kinds, forms cut short, wrong numbers of values and words that are no numbers are answered with an error, neither read as something else nor a panic.',
     over=['inputs'], quant='every variant and every value of its parameters, every single-character misspelling of the kinds',
     why='Tests read back one value of each variant; a digit dropped, a variant confused or a misspelling accepted needs other values.',
     anchors=anchors(TYPES, ('reading', 'FromStr implementations'), ('printing', 'Display implementations')),
     bounds='positive reals in 1e-6..1e6 (coordinates -1e6..1e6), integers up to 999, positions up to 3 coordinates; misspellings of one printable character',
     outside='words that follow a complete kind, which the code ignores; printing and parsing of numbers by the standard library (a printed real is an opaque token that reads back as itself)')
ARG = 'src/argument.rs'
COMPS = ['cubic', 'circ', 'cyl', 'target', 'indep', 'merge', 'exp', 'lj', 'const', 'growing', 'sim']
prop('C19', [H('cfg_' + k, mode='R', covers=['end']) for k in COMPS + ['whole', 'broken']],
     title='The header of a data file reads back as the arguments that wrote it',
     statement='The configuration printed for any component reads back from a file as equal arguments, whatever the column width, and exactly its own lines are consumed so that the next component or the data follow. A header cut short or without its separator is an error, not a panic.',
     over=['configurations', 'inputs'], quant='every component, value of its arguments and column width',
     why='Tests read back one configuration of two components; values that contain the separator or a wrong number of lines need other configurations.',
     anchors=anchors([ARG, 'src/macros.rs'], ('reading', ARG + ' from_lines, read_args_from_lines'), ('printing', 'print_configuration of every Arguments type')),
     bounds='values as in C18; column widths 0, 12, 20, 30; at most four components in a file', outside='multi-line values')
prop('C20', [H('words_' + k, mode='R', covers=['end']) for k in COMPS + ['wrong', 'no_value', 'usage']],
     title='Command-line words become the arguments, in order, or an error',
     statement='Every component takes exactly its announced number of words, reads them in the documented order into the matching arguments, ignores blanks around them, and answers any other number of words and words that are no value with an error, not a panic. The printed usage names the words in that order.',
     over=['configurations', 'inputs'], quant='every component and every value of its arguments',
     why='Tests read one line of words for two components; an exchanged or dropped argument shows in the others.',
     anchors=anchors([ARG, 'src/macros.rs'], ('reading words', ARG + ' from_args, read_args_from_vec'), ('order of arguments', 'construct_structs! / impl_argument_trait! in the components')),
     bounds='values as in C18', outside='the process-wide argument list itself')

ANA = 'src/analysis.rs'
KINDS = ('time', 'vec', 'proc')
def kinds(mode, *names, covers=['end'], **k): return [H(n + '_' + t, mode=mode, covers=covers, **k) for n in names for t in KINDS]
prop('C21', kinds('R', 'hist_size', 'hist_ratio', 'hist_num', 'hist_nlog', covers=['inside', 'outside']) + kinds('R', 'hist_many', covers=['sizes', 'bin']) + kinds('R', 'hist_zero') + kinds('E', 'hist_ref', 'hist_refn') + kinds('U', 'hist_any'),
     title='Every value in range has its bin, no value outside has one',
     statement='A value from the least to the greatest of a histogram lies in the linear and the logarithmic bin whose limits enclose it, and the bin exists; values outside and undefined values have none, and recording any value never fails. '
               'Given the number of bins the sizes divide the range, linearly and by ratio, into that number; limits that are negative, exchanged or undefined and sizes that cannot cover the range are refused and change nothing.',
     over=['inputs', 'configurations'], quant='every value, and limits, sizes and numbers of bins within the bounds, for all three analyses',
     why='Tests fill a histogram with random numbers and look at nothing; the greatest value of the range, values on an edge and undefined ones never occur in them.',
     anchors=anchors([ANA], ('bins', ANA + ' construct_trait_bin! bin_pos, lbin_pos'), ('sizes and numbers', ANA + ' update_from_bin_size, update_from_num_bin, convert_num_bin_to_bin_size')),
     bounds='chosen limits, widths and ratios with up to 12 bins, every value; any limits and sizes for the refusals', outside='edges to closer than rounding (1e-9 of the width)')
prop('C22', kinds('R', 'stat_1', 'stat_2', 'stat_3', 'stat_eq', 'stat_clear') + kinds('E', 'stat_round', qtimeout=60),
     title='Summaries are the mean and deviation of what was recorded',
     statement='After any records the summary holds their number, and for each variable their mean and standard deviation, inside and outside the histogram alike. Equal values have deviation zero, not an undefined one, and cleared data leave no trace in later results.',
     over=['inputs', 'histories'], quant='every sequence of recorded values within the bound, for all three analyses',
     why='Tests add two fixed values, or Gaussian numbers compared within a statistical tolerance; rounding of equal values and reuse after clearing need particular histories.',
     anchors=anchors([ANA], ('records', ANA + ' add_ensemble, add_pair'), ('statistics', ANA + ' draw, clear'), ('summary', ANA + ' export_mean_stddev')),
     bounds='up to 3 records of any value within 1e3, up to 6 equal ones (rounding: 256 values); up to two records before clearing', outside='cancellation in the deviation of values that differ by less than 1e-3')
prop('C23', kinds('R', 'dist_lin', 'dist_log', 'dist_rare'),
     title='Exported distributions list every bin that has data, as recorded',
     statement='An exported distribution has one row for each bin that holds data and no other, in order, with the centre of the bin, the number of records in it and their density (or the mean and deviation of the variable), however many or few they are and whatever their sign. The export always ends.',
     over=['inputs', 'histories', 'configurations'], quant='every pair of recorded values and all bin choices within the bounds, for all three analyses',
     why='Tests write a distribution to a file that nothing reads; the last bin, rare data and negative means need particular records.',
     anchors=anchors([ANA], ('linear distribution', ANA + ' export_distribution'), ('logarithmic distribution', ANA + ' export_log_scaled_distribution'), ('density', ANA + ' draw')),
     bounds='up to two records in up to 5 bins, seven choices of limits and widths; rare data up to density 1e-18')

DATA = ['src/analysis.rs', 'src/macros.rs']
prop('C24', [H('ds_key_' + k, mode='E', covers=['same', 'different']) for k in ('circ', 'plain', 'merging')]
     + [H('ds_name_' + k, mode='R', covers=['end']) for k in ('circ', 'merging', 'plain')] + [H(k, mode='R', covers=['end']) for k in ('ds_file', 'ds_no_file')] + kinds('R', 'ds_head'),
     title='A data set is known by its parameters: equality, names, headings, files',
     statement='Two data sets are equal, and hash alike, exactly if all parameters that make up the set are equal. The name of its file and the columns of a summary give each parameter its own value under its own name, in the same order in heading and rows. '
               'A data file reads back as the data set that wrote it, up to where the data begin; anything else is an error, not a panic.',
     over=['configurations', 'inputs'], quant='every pair of parameter values, every part of the parameters in three kinds of data set',
     why='Tests compare sets of a few parameters; sets that differ in one parameter only, or in its last digits, need every parameter and every value.',
     anchors=anchors(DATA, ('data sets', 'construct_dataset! PartialEq, Eq, Hash'), ('names and columns', 'construct_dataset! export_file, export_form, export_data'), ('reading', 'construct_dataset! from_file')),
     bounds='reals that are not NaN, integers up to 2^53, for equality; positive reals in 1e-6..1e6 for names and files', outside='parameters which the code leaves out of the set by design: targets\' and starting positions, seeds, numbers of runs')
prop('C25', kinds('R', 'dir_groups', 'dir_number', 'dir_others', 'dir_again', 'dir_refused') + [H('dir_vars', mode='R', covers=['whole', 'refused'])],
     title='The analysis of a directory gives every set of parameters its own result',
     statement='Analysing a directory puts all records of data files with equal parameters, and no others, into one summary row and one distribution file. Files without data, other files and directories are left out; earlier results are neither read as data nor overwritten; what was read is not changed. '
               'Wrong words and malformed data are answered with an error.',
     over=['histories', 'configurations', 'inputs'], quant='recorded values, parameters that differ in any place and any amount, directories with foreign content, for all three analyses',
     why='Tests analyse one prepared directory and look at no result; mixing of close parameters, empty files and repeated analyses need other directories.',
     anchors=anchors([ANA], ('directory', ANA + ' analyze'), ('results', ANA + ' export'), ('words', ANA + ' read_args_from_vec')),
     bounds='up to three data files and three other entries, up to three records in a set, one to three or ten times in a record, up to 11 analyses of one directory', outside='unreadable files and full disks')
prop('C26', [H('prog_%s_%s' % (a, k), mode='R', covers=['end']) for a in ('run', 'analysis', 'refused') for k in ('circ', 'cubic', 'cyl', 'lj', 'fixed')],
     title='A simulation program runs, records and analyses what its words say',
     statement='A program made with the simulation macros finds in every variable the value of its word, and writes one file, named after its parameters, whose header reads back as its arguments and whose data follow. Given the words of an analysis it analyses the files it wrote. '
               'Any other number of words and words that are no values are an error, and then nothing is written.',
     over=['configurations', 'inputs'], quant='every value of the words, four combinations of system, agent, time step and simulation, and one program with words of its own',
     why='Tests expand the macros once with fixed words; an exchanged variable, a header that does not read back, or a stale file shows only in another combination.',
     anchors=anchors(['moledyn_proc/src/lib.rs', 'src/setup.rs', 'src/macros.rs', 'src/analysis.rs'], ('program', 'simulation! in moledyn_proc; setup_simulation!, setup_simulation_fixed!, export_simulation_info!')),
     bounds='positive reals in 0.01..100, two choices of the integers, dimensions 2 and 3', outside='the loops of a program, which its author writes; combinations other than those five')
prop('C27', kinds('R', 'fault_analysis', covers=['failed', 'written']) + [H('fault_program_' + k, mode='R', covers=['failed', 'written']) for k in ('circ', 'cubic', 'cyl', 'lj', 'fixed')] + kinds('R', 'fault_whole'),
     title='Results that cannot be written are an error, never silently missing',
     statement='If any operation by which an analysis or a simulation program creates or writes a file or directory fails, the analysis or program ends with an error, not a panic and not success; otherwise it succeeds. The data analysed are left as they were. '
               'Exported results are whole even if a writer takes only a few bytes at a time.',
     over=['fault_sequences', 'inputs'], quant='every single failing operation of an analysis or a run, every size of partial write up to three bytes',
     why='Tests run on a disk with room; a failure shows only if it hits the one operation whose result is dropped.',
     anchors=anchors(['src/analysis.rs', 'src/setup.rs', 'moledyn_proc/src/lib.rs'], ('analysis', ANA + ' analyze, export'), ('program', 'export_simulation_info!')),
     bounds='one failure (no space left) among the first 60 operations of an analysis of one file, or the first 12 of a run; fewer are needed for either to end', outside='failures while reading (a file that cannot be read is left out of an analysis)')
