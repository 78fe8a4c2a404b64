WHY_NUM = ('The claim ranges over all numbers, all placements of infinities and all shapes of expressions; the existing tests run a handful of random or fixed '
           'abstract values of one shape and mostly compare two implementations with each other.')
prop('B01', 'Interval domain: order, meet, join and widening are exact lattice operations',
     'For any two boxes, the inclusion, equality, emptiness and universality tests answer exactly what their sets of points say; meet is the intersection, join the interval hull, '
     'widening an upper bound that keeps or drops each bound; equal boxes hash equally. Operands that are not destroyed are left unchanged.',
     ['inputs'], 'for all pairs of boxes with integer and real dimensions (including empty ones and infinite bounds), functional and destructive calls',
     WHY_NUM, ['box/box_representation.c', 'box/box_meetjoin.c', 'itv/itv.c', 'itv/itv.h', 'num/bound_def.h'],
     [('box_is_leq, box_is_eq', 'box/box_representation.c'), ('box_meet, box_join, box_widening', 'box/box_meetjoin.c'), ('bound comparison and min/max', 'num/bound_def.h')])
prop('B02', 'Interval domain: assignments, substitutions and time elapse lose no state',
     'After an assignment (or time elapse) every state reachable from a point of the argument is in the result, and substitution keeps every state whose image is in the argument, for linear expressions with '
     'scalar or interval coefficients; a scalar linear assignment to a box is the best interval. Empty stays empty, and operands that are not destroyed are left unchanged.',
     ['inputs'], 'for all boxes, points, linear expressions (sparse/dense, scalar/interval coefficients), with or without a destination, functional or destructive, one or two simultaneous assignments',
     WHY_NUM, ['box/box_assign.c', 'itv/itv_linexpr.c', 'itv/itv.c', 'box/box_otherops.c', 'box/box_policy.c'],
     [('box_assign_linexpr_array, box_substitute_linexpr_array', 'box/box_assign.c'), ('itv_eval_linexpr', 'itv/itv_linexpr.c'), ('box_add_ray_array', 'box/box_otherops.c')])
prop('B03', 'Interval domain: meeting with constraints keeps every solution',
     'Meeting a box with linear constraints (equality, inequality, strict, disequality, congruence) keeps every point of the box that satisfies them, integer dimensions only being tightened to integers, and never adds a point. '
     'A functional call leaves its operand unchanged.',
     ['inputs'], 'for all boxes, points and constraints with scalar or interval coefficients',
     WHY_NUM, ['box/box_meetjoin.c', 'itv/itv_linexpr.c', 'itv/itv_linearize.c'],
     [('box_meet_lincons_array, bound propagation', 'box/box_meetjoin.c'), ('itv_boxize_lincons_array', 'itv/itv_linearize.c')])
prop('B04', 'Interval domain: dimension changes act on exactly the named dimensions',
     'Adding, removing, permuting, forgetting, expanding and folding dimensions yields exactly the box obtained by the same change on the intervals (embedding or projecting as asked), and removing inserted dimensions gives the original back. '
     'A functional call leaves its operand unchanged.',
     ['inputs'], 'for all boxes and all changes of up to two dimensions, functional and destructive', WHY_NUM,
     ['box/box_resize.c', 'box/box_otherops.c', 'apron/ap_dimension.c'],
     [('box_add_dimensions, box_remove_dimensions, box_permute_dimensions', 'box/box_resize.c'), ('box_expand, box_fold', 'box/box_otherops.c')])
prop('B05', 'Interval domain: queries and conversions agree with the set of points',
     'A positive answer of a satisfaction test is true of every point of the box; bounds of dimensions are exact; conversions to intervals and constraints describe exactly the box, and to generators give exactly its corners, rays and lines. '
     'Building a box from intervals keeps exactly their points, rounding integer dimensions inwards.',
     ['inputs'], 'for all boxes, constraints, intervals', WHY_NUM, ['box/box_representation.c', 'box/box_constructor.c', 'itv/itv_linexpr.c'],
     [('box_sat_lincons, box_sat_interval, box_is_dimension_unconstrained', 'box/box_constructor.c'), ('box_to_generator_array, box_to_lincons_array, box_of_box', 'box/box_constructor.c')])
OCTF = 'for all octagons in two dimensions (reals, and integers where marked): any bounds, the listed patterns of absent bounds, closed, unclosed and empty representations'
prop('O01', 'Octagon domain: closure, order, meet, join and extrapolations are sound',
     'Closing an octagon keeps exactly its points, yields attained bounds and reports emptiness exactly; inclusion, equality and emptiness tests answer what the sets of points say; meet is the intersection; join, widening (with or '
     'without thresholds) and perturbations contain their arguments, narrowing stays between its arguments. Operands that are not destroyed keep their points.',
     ['inputs'], OCTF, WHY_NUM, ['octagons/oct_closure.c', 'octagons/oct_closure_comp.h', 'octagons/oct_nary.c', 'octagons/oct_predicate.c', 'octagons/oct_hmat.c', 'octagons/oct_internal.h'],
     [('hmat_s_step, hmat_close, hmat_close_incremental', 'octagons/oct_closure.c'), ('oct_meet, oct_join, oct_widening, oct_narrowing', 'octagons/oct_nary.c'), ('oct_is_leq, oct_is_eq, oct_is_bottom', 'octagons/oct_predicate.c')])
prop('O02', 'Octagon domain: assignments, substitutions and time elapse lose no state',
     'After an assignment (or time elapse) every state reachable from a point of the octagon is in the result, and substitution keeps every state whose image is in it, for linear expressions with scalar or interval '
     'coefficients, with or without a destination, alone or in parallel. Results are well formed (cached closures really closed).',
     ['inputs'], OCTF, WHY_NUM, ['octagons/oct_transfer.c', 'octagons/oct_closure.c', 'octagons/oct_internal.h'],
     [('oct_assign_linexpr, oct_substitute_linexpr, hmat_assign, hmat_subst', 'octagons/oct_transfer.c'), ('oct_add_ray_array', 'octagons/oct_transfer.c')])
prop('O03', 'Octagon domain: constraints and bounds over-approximate, satisfaction is certain',
     'Meeting with a linear constraint keeps every solution and is exact for octagonal constraints; bounds of dimensions and expressions contain every value taken; a positive satisfaction or inclusion-in-interval answer is true of every point.',
     ['inputs'], OCTF, WHY_NUM, ['octagons/oct_transfer.c', 'octagons/oct_predicate.c', 'octagons/oct_internal.h'],
     [('oct_meet_lincons_array, hmat_add_lincons', 'octagons/oct_transfer.c'), ('oct_sat_lincons, oct_bound_linexpr, oct_bound_dimension', 'octagons/oct_predicate.c'), ('uexpr_of_linexpr', 'octagons/oct_internal.h')])
prop('O04', 'Octagon domain: dimension changes act on exactly the named dimensions',
     'Forgetting, adding, removing, permuting, expanding and folding dimensions contains the image of every point, and is exact where the operation is exact on octagons; results are well formed.',
     ['inputs'], OCTF, WHY_NUM, ['octagons/oct_resize.c', 'octagons/oct_hmat.c', 'octagons/oct_transfer.c'],
     [('oct_add_dimensions, oct_remove_dimensions, oct_permute_dimensions, oct_expand, oct_fold', 'octagons/oct_resize.c'), ('hmat_addrem_dimensions, hmat_permute', 'octagons/oct_resize.c')])
prop('O05', 'Octagon domain: conversions, construction and serialization keep the set',
     'Conversion to constraints describes exactly the octagon; construction from a box is exact and from generators contains them; deserializing a serialized octagon gives the same octagon.',
     ['inputs'], OCTF, WHY_NUM, ['octagons/oct_predicate.c', 'octagons/oct_representation.c', 'octagons/oct_nary.c', 'num/num_types.h'],
     [('oct_to_lincons_array, oct_to_box', 'octagons/oct_predicate.c'), ('oct_of_box', 'octagons/oct_representation.c'), ('oct_of_generator_array', 'octagons/oct_nary.c'), ('oct_serialize_raw, oct_deserialize_raw', 'octagons/oct_print.c')])
CORET = 'every value of the numbers (rationals, doubles, MPFR), every kind of coefficient and representation (dense, sparse with free slots, interval or scalar), within the listed sizes'
WHY_CORE = 'The comparison and access code is a case analysis over number kinds, infinities, empty intervals and representations; tests sample a few combinations.'
prop('C01', 'Scalars, intervals and coefficients: exact order, assignment and conversion',
     'Comparison, equality, sign and inclusion of scalars, intervals and coefficients agree with the mathematical ones across number kinds, including infinities and empty intervals; assignment and copy keep values and types; conversions round as asked and say so; equal values of one kind hash equally.',
     ['inputs'], CORET, WHY_CORE, ['apron/ap_scalar.c', 'apron/ap_interval.c', 'apron/ap_coeff.c'],
     [('ap_scalar_cmp, ap_scalar_equal, ap_scalar_set, ap_mpq_set_scalar, ap_double_set_scalar, ap_mpfr_set_scalar', 'apron/ap_scalar.c'), ('ap_interval_is_leq, ap_interval_cmp', 'apron/ap_interval.c'), ('ap_coeff_cmp, ap_coeff_equal, ap_coeff_reduce', 'apron/ap_coeff.c')])
prop('C02', 'Linear expressions: one meaning whatever the representation',
     'Reading, writing, copying, minimizing, reallocating, comparing and hashing linear expressions depend only on the expression denoted, not on its dense or sparse layout; other coefficients are never changed; order is lexicographic, and equality is compatible with it and with the hash.',
     ['inputs', 'histories'], CORET, WHY_CORE, ['apron/ap_linexpr0.c', 'apron/ap_linexpr0.h'],
     [('ap_linexpr0_coeffref, ap_linexpr0_get_coeff, ap_linexpr0_set_list', 'apron/ap_linexpr0.c'), ('ap_linexpr0_equal, ap_linexpr0_compare, ap_linexpr0_hash', 'apron/ap_linexpr0.c'), ('ap_linexpr0_minimize, ap_linexpr0_realloc, ap_linexpr0_copy', 'apron/ap_linexpr0.c')])
prop('C03', 'Constraints: constant constraints are classified exactly',
     'A constant linear constraint of any of the six types is declared satisfied only if all its values satisfy it, unsatisfiable only if none does, and is recognised when it has a single value; a constraint with a nonzero coefficient is never classified.',
     ['inputs'], CORET, WHY_CORE, ['apron/ap_lincons0.c'],
     [('ap_lincons0_is_unsat, ap_lincons0_is_sat', 'apron/ap_lincons0.c')])
prop('C04', 'Dimension changes of expressions, constraints and generators',
     'Adding dimensions to or permuting dimensions of linear expressions, and of arrays of constraints and generators, moves each coefficient to its new dimension and gives zero to the new ones; permutations compose and invert, inserted dimensions are undone by the inverse change.',
     ['inputs'], CORET, WHY_CORE, ['apron/ap_linexpr0.c', 'apron/ap_dimension.c', 'apron/ap_lincons0.c', 'apron/ap_generator0.c'],
     [('ap_linexpr0_add_dimensions_with, ap_linexpr0_permute_dimensions_with', 'apron/ap_linexpr0.c'), ('ap_dimperm_compose, ap_dimperm_invert, ap_dimchange_add_invert', 'apron/ap_dimension.c')])
prop('C05', 'Environments: sorted, duplicate-free, with correct dimension changes',
     'Environments stay sorted and without duplicates; adding, removing, renaming and taking the least common environment give exactly the expected names with the expected types, the returned change of dimensions or permutation maps each dimension to that of the same name, and invalid requests are refused without leak.',
     ['inputs', 'histories'], 'every choice of the names (any order, any equalities between them) within the listed sizes',
     'Name orders and coincidences decide the merge loops; tests use a few fixed alphabetical names.', ['apron/ap_environment.c', 'apron/ap_environment.h'],
     [('ap_environment_alloc, ap_environment_add, ap_environment_remove, ap_environment_rename', 'apron/ap_environment.c'), ('ap_environment_lce, ap_environment_lce_array, ap_environment_dimchange, ap_environment_dimchange2', 'apron/ap_environment.c')])
prop('T02', 'Tree expressions: evaluation, linearization, backward evaluation lose no value',
     'For every point of an environment, the interval evaluation of a tree expression contains its value (with real or integer-rounded operations), the linearization and quasilinearization contain it as an interval linear form, and '
     'backward evaluation of constraints and substitutions (HC4) keeps every solution, adds no point, and reports emptiness only if there is none. Constraint types are kept.',
     ['inputs'], 'for all points, all bounds of the environment (symbolic or from listed patterns), all operators and integer roundings, expressions of one or two operators', WHY_NUM,
     ['itv/itv_linearize.c', 'itv/itv_linexpr.c', 'itv/itv.c', 'itv/itv_utils.c', 'num/bound_def.h', 'num/numrat_def.h', 'apron/ap_texpr0.c'],
     [('itv_eval_ap_texpr0, itv_intlinearize_ap_texpr0, itv_quasilinearize_linexpr', 'itv/itv_linearize.c'), ('itv_meet_ap_tcons0_array, itv_subst_ap_texpr0_array, itv_intlinearize_ap_tcons0_array', 'itv/itv_linearize.c'), ('itv_mul, itv_div, itv_pow, itv_sqrt, itv_mod, itv_round', 'itv/itv.c')])
WHY_POLY = ('The double description (constraints, generators, saturation matrices, laziness, minimal forms) gives one value many internal states; tests build a few polyhedra in one way each. '
            'Here every listed polyhedron is put in several states, and the solver decides the equality of the sets of points of the result and of an exact image for all points.')
POLYT = 'for all points, over every choice of up to two or three constraints of a listed family (redundant, unsatisfiable, fractional ones included), several histories of each operand; two and three dimensions, loose and strict, lazy and eager, integer dimensions'
prop('P01', 'Polyhedra: order, meet, join and widening are exact',
     'Inclusion and equality of polyhedra are decided exactly over the reals (soundly with integer dimensions); meet is the intersection, join the closed convex hull, of two values or of arrays; widening, with or without '
     'thresholds, contains its arguments, is stable on stable sequences and keeps the thresholds both satisfy. Operands that are not destroyed keep their points, whatever representation they are in.',
     ['inputs', 'histories'], POLYT, WHY_POLY, ['newpolka/pk_meetjoin.c', 'newpolka/pk_test.c', 'newpolka/pk_widening.c', 'newpolka/pk_cherni.c', 'newpolka/pk_representation.c', 'newpolka/pk_matrix.c', 'newpolka/pk_vector.c'],
     [('pk_is_leq, pk_is_eq', 'newpolka/pk_test.c'), ('pk_meet, pk_join, pk_meet_array, pk_join_array', 'newpolka/pk_meetjoin.c'), ('pk_widening, pk_widening_threshold', 'newpolka/pk_widening.c'), ('cherni_conversion, cherni_simplify', 'newpolka/pk_cherni.c')])
prop('P02', 'Polyhedra: assignments, substitutions and time elapse are exact',
     'Linear assignments and substitutions, alone or in parallel, with or without a destination, invertible or not, give exactly the image or the inverse image of a polyhedron over the reals (and lose no state with integer '
     'dimensions); adding rays and lines gives exactly the points reached by positive combinations. Operands that are not destroyed keep their points.',
     ['inputs', 'histories'], POLYT, WHY_POLY, ['newpolka/pk_assign.c', 'newpolka/pk_meetjoin.c', 'newpolka/pk_matrix.c', 'newpolka/pk_cherni.c', 'newpolka/pk_user.c'],
     [('pk_assign_linexpr_array, pk_substitute_linexpr_array, poly_asssub_linexpr_det', 'newpolka/pk_assign.c'), ('pk_add_ray_array', 'newpolka/pk_meetjoin.c')])
prop('P03', 'Polyhedra: meets with constraints, satisfaction and bounds are exact',
     'Meeting a polyhedron with linear constraints keeps its solutions and nothing else; a constraint is reported satisfied only if all points satisfy it, and always then over the reals; bounds of linear expressions are the best ones. '
     'Integer dimensions may only tighten. Operands keep their points.',
     ['inputs', 'histories'], POLYT, WHY_POLY, ['newpolka/pk_meetjoin.c', 'newpolka/pk_test.c', 'newpolka/pk_extract.c', 'newpolka/pk_user.c', 'itv/itv_linexpr.c', 'newpolka/pk_vector.c'],
     [('pk_meet_lincons_array', 'newpolka/pk_meetjoin.c'), ('pk_sat_lincons', 'newpolka/pk_test.c'), ('pk_bound_linexpr', 'newpolka/pk_extract.c'), ('vector_normalize_constraint_int', 'newpolka/pk_vector.c'), ('itv_lincons_reduce_integer', 'itv/itv_linexpr.c')])
prop('P04', 'Polyhedra: dimension changes act on exactly the named dimensions',
     'Adding, removing, permuting, forgetting, projecting, expanding and folding dimensions of a polyhedron gives exactly the set of points changed the same way (the hull of the projections for fold), and removing inserted '
     'dimensions gives the original back. Operands that are not destroyed keep their points.',
     ['inputs', 'histories'], POLYT, WHY_POLY, ['newpolka/pk_resize.c', 'newpolka/pk_project.c', 'newpolka/pk_expandfold.c', 'newpolka/pk_matrix.c', 'newpolka/pk_vector.c'],
     [('pk_add_dimensions, pk_remove_dimensions, pk_permute_dimensions', 'newpolka/pk_resize.c'), ('pk_forget_array', 'newpolka/pk_project.c'), ('pk_expand, pk_fold', 'newpolka/pk_expandfold.c')])
prop('P05', 'Polyhedra: constraints and generators describe the same set',
     'Constraints read from a polyhedron denote exactly its points, its generators are in it and generate it; emptiness is exact, universality exact unless evaluation is lazy; bounding boxes are the best; '
     'normal forms keep the value; closure is the topological closure; approximations only enlarge, keeping the bounding box or octagon as asked; a polyhedron built from intervals has exactly their points.',
     ['inputs', 'histories'], POLYT, WHY_POLY, ['newpolka/pk_cherni.c', 'newpolka/pk_representation.c', 'newpolka/pk_extract.c', 'newpolka/pk_constructor.c', 'newpolka/pk_approximate.c', 'newpolka/pk_closure.c', 'newpolka/pk_satmat.c', 'newpolka/pk_user.c'],
     [('pk_to_lincons_array, pk_to_generator_array, pk_to_box', 'newpolka/pk_extract.c'), ('poly_chernikova, poly_minimize, pk_canonicalize', 'newpolka/pk_representation.c'), ('pk_approximate', 'newpolka/pk_approximate.c'), ('pk_closure', 'newpolka/pk_closure.c'), ('pk_of_box', 'newpolka/pk_constructor.c')])
prop('P06', 'Linear equalities: the domain is exact on affine subspaces',
     'For affine subspaces of the equality domain, order, meet, join (affine hull), assignments, substitutions, projections, dimension changes, bounds and conversions are exact; widening and time elapse contain their arguments, fold keeps the values of each folded dimension. '
     'Operands that are not destroyed keep their points.',
     ['inputs', 'histories'], 'for all points, over every choice of up to two or three equalities of a listed family (redundant, unsatisfiable, fractional ones included), several histories, two and three dimensions', WHY_POLY,
     ['newpolka/pkeq.c', 'newpolka/pk_meetjoin.c', 'newpolka/pk_assign.c', 'newpolka/pk_project.c', 'newpolka/pk_matrix.c'],
     [('pkeq_meet, pkeq_join, pkeq_meet_lincons_array, pkeq_widening', 'newpolka/pkeq.c'), ('pkeq_assign_linexpr_array, pkeq_substitute_linexpr_array, pkeq_add_ray_array', 'newpolka/pkeq.c'), ('pkeq_forget_array, pkeq_remove_dimensions, pkeq_expand, pkeq_fold', 'newpolka/pkeq.c')])

WHY_DOM = ('What a domain does with a tree expression goes through evaluation over its bounding box, linearization, quasilinearization and boxization before its own operations; tests compare a few concrete programs. '
           'Here the point, the choices of rounding and the values of divisions are free in the solver, so the containment is decided for all of them at once.')
DOMT = 'for all points of listed boxes and cut boxes, over every listed operator and rounding mode applied to dimensions and constants (nested once for assignments); boxes, octagons, polyhedra (loose, strict), linear equalities; real and integer dimensions'
prop('D01', 'Expressions over an abstract value: bounds and linear forms contain the values',
     'For every point of an abstract value, the bounds of a tree expression contain its value, and the linear forms obtained by linearization and quasilinearization over the value contain it too and have the kind asked for. '
     'Linearized constraints are implied by the original ones when they are for meets, and imply them when they are for satisfaction tests.',
     ['inputs'], DOMT, WHY_DOM, ['apron/ap_linearize.c', 'apron/ap_linearize_aux.c', 'apron/ap_generic.c', 'itv/itv_linearize.c', 'itv/itv_linexpr.c', 'apron/ap_lincons0.c'],
     [('ap_eval_texpr0, ap_intlinearize_texpr0, ap_intlinearize_tcons0_array, ap_quasilinearize_lincons0_array', 'apron/ap_linearize_aux.c'), ('ap_abstract0_bound_texpr', 'apron/ap_abstract0.c')])
prop('D02', 'Tree expressions in domains: assignment, substitution and meet lose no state',
     'For boxes, octagons, polyhedra and linear equalities, assigning a tree expression (alone or in parallel, with or without a destination) keeps every state reached, substituting keeps every state whose image is in the argument, '
     'meeting with constraints over tree expressions keeps every solution and adds no point, and a constraint declared satisfied is satisfied by every point. Operands that are not destroyed keep their points.',
     ['inputs'], DOMT, WHY_DOM, ['apron/ap_generic.c', 'apron/ap_linearize_aux.c', 'apron/ap_abstract0.c', 'box/box_assign.c', 'box/box_meetjoin.c', 'octagons/oct_transfer.c', 'newpolka/pk_assign.c', 'newpolka/pk_meetjoin.c', 'newpolka/pkeq.c', 'itv/itv_linearize.c'],
     [('ap_generic_assign_texpr_array, ap_generic_meet_intlinearize_tcons_array, ap_generic_sat_tcons', 'apron/ap_generic.c'), ('box_meet_tcons_array, box_assign_texpr', 'box/box_meetjoin.c'), ('ap_abstract0_asssub_texpr_array', 'apron/ap_abstract0.c')])
