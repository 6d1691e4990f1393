#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json,os
I='include/integratorxx/'
def P(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[I+f if not f.startswith(('src','README')) else f for f in files],
        mechanism=[dict(name=n,where=I+w if not w.startswith(('src','README')) else w) for n,w in mech],
        state=[dict(name=a,meaning=b,where=I+c) for a,b,c in (state or [])],
        observe_at=observe,hook_needed=None))
ps=[
P('P01','Angular grids integrate every spherical harmonic up to the advertised order',
 'For every supported size of every angular family (Ahrens-Beylkin, Delley, Lebedev-Laikov, Womersley), summing weight times value over the grid integrates the constant function to 4*pi and every spherical harmonic of degree 1 up to the algebraic order the look-up advertises for that size to zero, to near machine precision (1e-11 absolute).',
 ['inputs','configurations'],'every (family, size) pair of the catalogue and every harmonic degree up to the advertised order',
 'Tests sample one to three sizes per family and harmonics of degree below 10; about 230 sizes, ~300k table rows and all higher degrees are never integrated.',
 ['quadratures/s2/ahrens_beylkin.hpp','quadratures/s2/delley.hpp','quadratures/s2/lebedev_laikov.hpp','quadratures/s2/womersley.hpp','util/copy_grid.hpp'],
 [('tabulated points and weights','quadratures/s2/*/'),('size dispatch and 4*pi scaling','quadratures/s2/*.hpp: quadrature_traits::generate'),('advertised order','quadratures/s2/*.hpp: algebraic_order_by_npts')],
 ['points()/weights() of a constructed grid']),
P('P02','Angular grids are well-formed point sets on the unit sphere',
 'Every supported angular grid has exactly the requested number of points and weights, every point is a unit vector to machine precision, no two points coincide and every weight is finite and non-zero. A Womersley grid gives every point the same weight 4*pi/N.',
 ['inputs','configurations'],'every (family, size) pair of the catalogue and every point in it',
 'Tests construct only a handful of sizes and never look at individual points.',
 ['quadratures/s2/ahrens_beylkin.hpp','quadratures/s2/delley.hpp','quadratures/s2/lebedev_laikov.hpp','quadratures/s2/womersley.hpp'],
 [('tabulated points and weights','quadratures/s2/*/'),('size dispatch','quadratures/s2/*.hpp: quadrature_traits::generate')],
 ['points()/weights() of a constructed grid']),
P('P03','Angular order and size look-ups are consistent',
 'For each angular family the order-to-size and size-to-order look-ups are mutually inverse on the published catalogue, strictly increasing, and answer -1 for every order or size outside it. The next-order look-up returns the smallest catalogued order that is not below the request, and the largest catalogued order when the request exceeds all of them; every size so reached is constructible.',
 ['inputs'],'every integer order and every size, including non-catalogued, zero, negative and beyond-maximum values',
 'No test enumerates the look-ups; only the entries that the factory tests touch are ever evaluated.',
 ['quadratures/s2/ahrens_beylkin.hpp','quadratures/s2/delley.hpp','quadratures/s2/lebedev_laikov.hpp','quadratures/s2/womersley.hpp'],
 [('look-up switches','quadratures/s2/*.hpp: npts_by_algebraic_order / algebraic_order_by_npts / next_algebraic_order')],
 ['return values of the three look-up functions']),
P('P04','Unsupported angular sizes are rejected',
 'Constructing an angular grid, or any spherical grid or pruned region using one, with a size that is not in that family\'s catalogue fails with an exception; it never yields a grid of zero or partial points.',
 ['inputs'],'every size outside the catalogue (0, neighbours of valid sizes, sizes valid only for another family) through direct construction and both runtime factories',
 'No test constructs an angular grid with an unsupported size.',
 ['quadratures/s2/ahrens_beylkin.hpp','quadratures/s2/delley.hpp','quadratures/s2/lebedev_laikov.hpp','quadratures/s2/womersley.hpp','generators/impl/s2_factory.hpp','generators/impl/unpruned_grid.hpp','generators/impl/pruned_grid.hpp','README.md'],
 [('size dispatch','quadratures/s2/*.hpp: quadrature_traits::generate'),('documented contract','README.md: A Note on Angular Quadratures')],
 ['exception or object returned by the constructor / factory']),
P('P05','Gauss-Legendre rules are exact for polynomials of degree 2n-1',
 'For every number of points n >= 1, construction succeeds and yields n strictly increasing nodes inside (-1,1), symmetric about 0, with positive weights symmetric likewise, such that every polynomial of degree at most 2n-1 is integrated over [-1,1] to near machine precision.',
 ['inputs'],'every n and every polynomial degree up to 2n-1',
 'Tests sample some n and a few random polynomials or tabulated values at loose precision; most n are never built and the top degrees never integrated.',
 ['quadratures/primitive/gausslegendre.hpp','util/legendre.hpp'],
 [('Newton iteration and weight formula','quadratures/primitive/gausslegendre.hpp: quadrature_traits::generate'),('Legendre recurrence','util/legendre.hpp: eval_Pn')],
 ['points()/weights()']),
P('P06','Gauss-Lobatto rules contain the endpoints and are exact to degree 2n-3',
 'For every number of points n >= 2, construction succeeds and yields n strictly increasing symmetric nodes whose first and last are exactly -1 and 1, with positive symmetric weights, such that every polynomial of degree at most 2n-3 is integrated over [-1,1] to near machine precision.',
 ['inputs'],'every n >= 2 and every polynomial degree up to 2n-3',
 'As for Gauss-Legendre: sampled n, few random polynomials, loose tolerances.',
 ['quadratures/primitive/gausslobatto.hpp','util/legendre.hpp'],
 [('Newton iteration, end-point and mid-point handling','quadratures/primitive/gausslobatto.hpp: quadrature_traits::generate'),('Legendre recurrence','util/legendre.hpp: eval_Pn')],
 ['points()/weights()']),
P('P07','Gauss-Chebyshev rules of the first, second and third kind are the Gauss rules',
 'For every n >= 1, the nodes of each Gauss-Chebyshev rule are, in strictly increasing order, the n roots of its degree-n orthogonal polynomial on its stated interval ((-1,1), [-1,1] and (0,1)), and each weight is the corresponding Gauss weight divided by the weight function at the node, so that integrals of plain functions (unit weight) are approximated. All weights are positive.',
 ['inputs'],'every n and every node index',
 'Tests compare a few tabulated n and integrate random polynomials for n below 100; other n, both parities near the middle node and large n are unobserved.',
 ['quadratures/primitive/gausschebyshev1.hpp','quadratures/primitive/gausschebyshev2.hpp','quadratures/primitive/gausschebyshev3.hpp'],
 [('closed-form nodes/weights with reflection','quadratures/primitive/gausschebyshev[123].hpp: quadrature_traits::generate')],
 ['points()/weights()']),
P('P08','Modified Chebyshev and trapezoid rules follow their published definition',
 'For every n the modified (Perez-Jorda) Chebyshev rule has the published nodes and weights on (-1,1), increasing and symmetric with positive weights; for every n >= 2 and bounds lo < up the trapezoid rule has n equispaced nodes from lo to up and weights h, halved at both ends, hence integrates linear functions exactly, as long as up - lo is a finite number of the number type.',
 ['inputs'],'every n, and every pair of bounds for the trapezoid rule',
 'No test constructs the modified Chebyshev rule; the trapezoid rule is tested for one size and default bounds.',
 ['quadratures/primitive/gausschebyshev2modified.hpp','quadratures/primitive/uniform.hpp'],
 [('closed forms','quadratures/primitive/gausschebyshev2modified.hpp, uniform.hpp: quadrature_traits::generate')],
 ['points()/weights()']),
P('P09','Radial grids implement their transformation and its Jacobian',
 'For every radial scheme, size n, scale R and (Treutler-Ahlrichs) exponent alpha, the i-th grid point is the published map of the i-th interior node of the underlying finite-interval rule, and its weight is that node\'s weight times the exact derivative of the same map; the r^2 volume element is not included. Rules whose underlying nodes include the interval ends drop exactly those two ends.',
 ['inputs','configurations'],'every (scheme, n, R, alpha) and every node',
 'Tests use R=1 or one scale, n=10/150/350, one integrand at 1e-10, and never a non-default exponent.',
 ['quadratures/radial/becke.hpp','quadratures/radial/mhl.hpp','quadratures/radial/muraknowles.hpp','quadratures/radial/treutlerahlrichs.hpp','quadratures/radial/radial_transform.hpp'],
 [('maps and Jacobians','quadratures/radial/*.hpp: radial_transform / radial_jacobian'),('generic generator with end-point dropping','quadratures/radial/radial_transform.hpp: quadrature_traits::generate')],
 ['points()/weights()']),
P('P10','Radial grids are positive, ordered and scale with R',
 'For every radial scheme, n and R > 0 the grid has exactly n finite, strictly positive, strictly increasing points and n finite positive weights, and scaling R by a factor scales every point and every weight by the same factor. This holds as far as the exact points and weights lie in the normal range of the number type. Omitting R (and alpha) is the same as passing the documented defaults R=1 (alpha=0.6).',
 ['inputs','configurations'],'every (scheme, n, R) and every node',
 'Tests check integrals only for a few sizes; ordering, positivity and scaling are not asserted for other n or R.',
 ['quadratures/radial/becke.hpp','quadratures/radial/mhl.hpp','quadratures/radial/muraknowles.hpp','quadratures/radial/treutlerahlrichs.hpp','quadratures/radial/radial_transform.hpp'],
 [('maps','quadratures/radial/*.hpp'),('generator','quadratures/radial/radial_transform.hpp: quadrature_traits::generate')],
 ['points()/weights()']),
P('P11','Interval transforms preserve integrals and positive weights',
 'Mapping a node/weight pair from (-1,1) to a finite, half-infinite or infinite interval returns a point inside the target interval and a weight equal to the original weight times the positive derivative of the map at the node. The map is increasing, so a positive rule stays positive and ordered.',
 ['inputs'],'all four boundedness cases of (lo,up) and every node in (-1,1)',
 'No test exercises the interval transform at all.',
 ['util/bound_transform.hpp'],
 [('four-case transform','util/bound_transform.hpp: transform_minus_one_to_one')],['returned (point, weight) pair']),
P('P12','A spherical grid is the product of its radial and angular grids',
 'A spherical quadrature built from a radial and an angular rule and a centre has exactly one point per (radial, angular) pair, ordered with the radial index fastest, located at centre + r*a, with weight w_r * w_a * r^2. It reports the centre it was given (the origin by default), and generic products of two rules combine points and weights with the same ordering.',
 ['inputs','configurations'],'every pair of radial and angular rules (any sizes, any values) and every centre',
 'Tests use one or two radial/angular combinations at the origin and compare integrals, which are blind to order, centre and compensating errors.',
 ['composite_quadratures/spherical_quadrature.hpp','composite_quadratures/product_quadrature.hpp'],
 [('outer product','composite_quadratures/product_quadrature.hpp: quadrature_traits::generate'),('r^2 Jacobian and shift','composite_quadratures/spherical_quadrature.hpp: quadrature_traits::generate')],
 ['points()/weights()/center()/npts()']),
P('P13','A pruned spherical grid is the concatenation of its region products',
 'For every partition of the radial indices into consecutive non-empty regions, each with its own angular rule, the pruned grid lists region by region the product (radial index fastest, r^2 included, shifted to the centre) of that slice of the radial rule with that region\'s angular rule. Every radial point is used in exactly one region, and one region covering everything gives the unpruned grid.',
 ['inputs','configurations'],'every radial rule, every partition into regions (including single-point regions), every choice of angular rules and centre',
 'Tests build one or two fixed partitions with large regions and compare against a re-implementation for a single size.',
 ['composite_quadratures/pruned_spherical_quadrature.hpp','composite_quadratures/sub_quadrature.hpp','generators/impl/pruned_grid.hpp'],
 [('region bookkeeping','composite_quadratures/pruned_spherical_quadrature.hpp: RadialGridPartition'),('region-wise generation','composite_quadratures/pruned_spherical_quadrature.hpp: quadrature_traits::generate')],
 ['points()/weights()/center()/npts()'],
 [('partition','region start indices plus one angular rule per region','composite_quadratures/pruned_spherical_quadrature.hpp: RadialGridPartition')]),
P('P14','Pruning schemes tile the radial range with the documented sizes',
 'For every radial size n >= 1, radial scheme and angular base grid, each pruning scheme returns consecutive regions that start at 0, end at n and leave no gap or overlap: Robust splits at n/4+1 and n/2+1 with sizes for (order >= 7, order >= base-6 [base itself when base <= 6], base), Treutler at n/3+1 and n/2+1 with (order >= 7, order >= 11, base), Unpruned is one region, all in the base family. Generating a grid from such a specification succeeds and has exactly the points those regions prescribe; Robust rejects a base size outside the catalogue.',
 ['inputs','configurations'],'every (scheme, n, family, base size) including n = 1..4 where regions degenerate',
 'Tests use one radial size (99) with one angular size per family; small n, other residues mod 3/4 and other base sizes are never built.',
 ['generators/impl/robust_pruning.hpp','generators/impl/treutler_pruning.hpp','generators/impl/pruned_grid.hpp','generators/spherical_factory.hpp'],
 [('region computation','generators/impl/robust_pruning.hpp, treutler_pruning.hpp'),('dispatch','generators/impl/pruned_grid.hpp: create_pruned_spec'),('grid generation','generators/impl/pruned_grid.hpp: make_pruned_grid')],
 ['pruning_regions of the returned specification','generated grid']),
P('P15','Runtime factories produce exactly the directly constructed grids',
 'For every radial scheme with its parameters, every angular family and supported size, and every combination of them (unpruned or pruned), the grid obtained from the runtime factory is bit-identical, point by point and weight by weight, to the one obtained by constructing the corresponding types directly. Unknown scheme values, absent parameters, empty region lists and regions of different angular families are rejected with an exception.',
 ['inputs','configurations'],'every radial scheme x parameters, angular family x size, pruning scheme',
 'Tests compare only the smallest angular grid and a single radial size.',
 ['generators/impl/radial_factory.hpp','generators/impl/s2_factory.hpp','generators/impl/unpruned_grid.hpp','generators/impl/pruned_grid.hpp','generators/spherical_factory.hpp'],
 [('dispatch on scheme','generators/impl/*.hpp')],['grids returned by the factories, exceptions']),
P('P16','Scheme names resolve case-insensitively and only to their own scheme',
 'Each documented name or abbreviation of a radial or angular scheme resolves, in any letter case, to that scheme, every other string is rejected with an exception, and the scheme derived from a grid type agrees with the scheme its name resolves to.',
 ['inputs'],'every string: all names and aliases in all letter-case patterns, near misses (prefixes, extensions, padding, names of the other kind), the empty string',
 'Tests try a few exact spellings only.',
 ['generators/impl/radial_factory.hpp','generators/impl/s2_factory.hpp','generators/radial_factory.hpp','generators/s2_factory.hpp'],
 [('case folding and name table','generators/impl/*_factory.hpp: *_from_string'),('type mapping','generators/*_factory.hpp: *_from_type')],['returned scheme or exception']),
P('P17','Radial parameter objects are type-safe values',
 'Radial parameter objects report the size they were built with, compare equal exactly when scheme, size, scale and exponent are all equal, and a clone is equal to and independent of its source. Using parameters of one scheme to build another scheme\'s grid, or building parameters from arguments the scheme does not take, raises an exception and never yields a grid.',
 ['inputs','configurations'],'every ordered pair of parameter objects over all schemes and parameter values; every mismatched scheme pair',
 'Tests compare a few equal/unequal pairs of one scheme; mismatches across schemes are not exercised.',
 ['quadratures/radial/radial_transform.hpp','quadratures/radial/becke.hpp','quadratures/radial/mhl.hpp','quadratures/radial/muraknowles.hpp','quadratures/radial/treutlerahlrichs.hpp','generators/radial_factory.hpp'],
 [('compare/clone/cast','quadratures/radial/*.hpp'),('construction guard','generators/radial_factory.hpp: make_radial_traits')],['npts(), compare(), clone(), exceptions']),
P('P18','Grid specifications are independent values with componentwise equality',
 'Copying an unpruned or pruned grid specification, or assigning a pruned one, yields an independent value: later changes to either side never show through the other. Two pruned specifications are equal exactly when radial scheme, radial parameters (or their absence) and all regions are equal, and a specification without radial parameters is rejected when a grid or pruning is requested from it.',
 ['histories','inputs'],'every sequence of construct, copy, assign (including self-assignment and assignment over non-empty values), modify and compare operations',
 'Tests make a few straight-line copies and comparisons; interleavings of copy, assignment and mutation are not explored.',
 ['generators/spherical_factory.hpp','generators/impl/pruned_grid.hpp'],
 [('deep-copying copy operations and equality','generators/spherical_factory.hpp: *SphericalGridSpecification'),('null checks','generators/spherical_factory.hpp: generate_grid; generators/impl/pruned_grid.hpp: create_pruned_spec')],['operator==, fields, generated grids'],
 [('specification','scheme, owned parameters, regions','generators/spherical_factory.hpp')]),
P('P19','Recentring translates the grid rigidly and is history-independent',
 'After any sequence of recentring operations a spherical grid reports the last requested centre, every point equals that centre plus its original offset (up to rounding), and weights, count and order are unchanged; recentring to the current centre changes nothing. Recentring through a batcher and on the grid itself have the same effect.',
 ['histories','inputs'],'every sequence of recentre calls (including repeats and changes in a single coordinate) on unpruned, pruned and batched grids',
 'Tests recentre once on one grid type.',
 ['composite_quadratures/spherical_quadrature.hpp','batch/spherical_micro_batcher.hpp'],
 [('shift by difference of centres','composite_quadratures/spherical_quadrature.hpp: recenter'),('forwarding','batch/spherical_micro_batcher.hpp: recenter')],['center(), points(), weights()'],
 [('centre','current centre of the grid','composite_quadratures/spherical_quadrature.hpp: center_')]),
P('P20','Copies and clones are independent; shared batchers alias as documented',
 'Copying, moving or cloning a grid yields an object with identical content whose later modification (recentring or writing points and weights) is not visible in the source and vice versa. A batcher built from a grid value or made by clone owns its own grid, while a batcher built from a shared handle, and a copy of a batcher, refer to the same grid, so changes through any handle are visible through all of them and through nothing else.',
 ['histories'],'every interleaving of create, copy, move, clone, batch, recentre and write over several objects',
 'Tests clone or copy one object once and look at a single side; aliasing between several handles is not explored.',
 ['quadrature.hpp','composite_quadratures/spherical_quadrature.hpp','composite_quadratures/pruned_spherical_quadrature.hpp','batch/spherical_micro_batcher.hpp'],
 [('value copy/move constructors and polymorphic clone','quadrature.hpp, composite_quadratures/*.hpp'),('shared ownership in the batcher','batch/spherical_micro_batcher.hpp')],['points(), weights(), center() of every live object'],
 [('ownership graph','which handles share which grid','batch/spherical_micro_batcher.hpp: quad_')]),
P('P21','Batching is a lossless partition of the grid',
 'For every spherical grid and every maximum batch size, batching only reorders the grid: the multiset of (point, weight) pairs is unchanged, each weight stays with its point, and the batches are non-empty, consecutive, disjoint and together contain every point exactly once. The batches concatenated in order are exactly the underlying grid\'s points and weights.',
 ['inputs','configurations'],'every finite point set (including coincident and collinear points) and every maximum batch size',
 'Tests only count points and batches for one or two grids and batch sizes.',
 ['batch/spherical_micro_batcher.hpp'],
 [('box partition and index bookkeeping','batch/spherical_micro_batcher.hpp: generate_batches / partition_box')],['batches from iteration and indexing, grid points()/weights()'],
 [('batch boundaries','start index of each batch','batch/spherical_micro_batcher.hpp: partition_idx_')]),
P('P22','Batching terminates and respects the maximum batch size',
 'Batching terminates for every non-empty finite point set and every maximum batch size, and no batch exceeds the maximum size unless its points cannot be separated because they coincide in every coordinate (to floating-point resolution). The batcher reports the maximum it was given and the number of batches it delivers.',
 ['inputs','configurations'],'every finite point set and every maximum batch size, including 0, 1 and sizes above the grid size',
 'Tests use a few large batch sizes on regular grids; small maxima and coincident points are never tried.',
 ['batch/spherical_micro_batcher.hpp'],
 [('refinement loop','batch/spherical_micro_batcher.hpp: generate_batches')],['nbatches(), batch sizes, max_batch_size(), termination']),
P('P23','Batch boxes are tight and spatially separated',
 'The bounding box delivered with each batch is the tightest axis-aligned box containing its points, also after recentring or modifying the grid. As partitioned, any two batches are separated by an axis-aligned plane (their boxes at most touch), so batches are spatially local.',
 ['inputs','histories'],'every grid, every maximum batch size and every later recentring',
 'Tests check that points lie in the box for a sample, not tightness, separation or behaviour after modification.',
 ['batch/spherical_micro_batcher.hpp'],
 [('box bounds','batch/spherical_micro_batcher.hpp: get_box_bounds, get_box_bounds_points'),('space partition','batch/spherical_micro_batcher.hpp: partition_box')],['box corners of each batch']),
P('P24','Batch access by index and by iteration agree and are bounds-checked',
 'Indexing batch i, for const and non-const batchers, delivers the same box, points and weights as the i-th step of iteration (const or not, pre- or post-increment); iteration visits exactly the reported number of batches, and an index at or beyond that number is rejected with an exception. A batcher constructed with explicit batch boundaries uses exactly those boundaries and leaves the grid order untouched.',
 ['inputs','histories'],'every batcher, every index including out of range, every traversal style, every explicit boundary list',
 'Tests use one traversal and never the const path, explicit boundaries or out-of-range indices.',
 ['batch/spherical_micro_batcher.hpp'],
 [('iterators and at()','batch/spherical_micro_batcher.hpp: iterator, const_iterator, at')],['delivered batches, exceptions']),
P('P25','Compiled library and header-only builds give identical, reproducible grids',
 'A program using the compiled library and one using the header-only form obtain bit-identical grids, regions and errors for the same requests, and repeating a request (in any order, interleaved with other requests) always gives bit-identical results.',
 ['configurations','histories'],'both build forms; every request; every order and repetition of requests',
 'Each build form is tested only against its own expectations with tolerances; the two are never compared and requests are not repeated.',
 ['generators/impl/impl.hpp','generators/spherical_factory.hpp','src/spherical_factory.cxx','src/radial_factory.cxx','src/s2_factory.cxx'],
 [('shared implementation headers','generators/impl/impl.hpp'),('compiled translation units','src/*.cxx')],['grids from both builds']),
P('P26','Single-precision instantiations agree with double precision',
 'Instantiating the angular grids with single-precision numbers yields the same points and weights as double precision rounded to single precision (to a few units in the last place), and single-precision composite grids and batches obey the same structure as double-precision ones.',
 ['inputs','configurations'],'every (family, size) pair instantiated with float',
 'Every test instantiates double precision only.',
 ['quadratures/s2/ahrens_beylkin.hpp','quadratures/s2/delley.hpp','quadratures/s2/lebedev_laikov.hpp','quadratures/s2/womersley.hpp','util/copy_grid.hpp'],
 [('templated tables','quadratures/s2/*/')],['points()/weights()']),
P('P27','Sub-range rules and element access are exact and bounds-checked',
 'The rule over an index range [b,e) of another rule has exactly its points and weights b..e-1, in order. Element access by index, on any rule, returns the same value as the bulk containers and raw pointers and raises an exception when the index is out of range; bulk containers and the reported count always have equal length.',
 ['inputs','histories'],'every rule, every range 0 <= b < e <= n, every index including out of range',
 'Tests take at most one sub-range and never an out-of-range element.',
 ['composite_quadratures/sub_quadrature.hpp','quadrature.hpp'],
 [('range copy','composite_quadratures/sub_quadrature.hpp: quadrature_traits::generate'),('checked access','quadrature.hpp: points(i), weights(i)')],['points()/weights(), points(i)/weights(i), exceptions']),
P('P28','Single-precision one-dimensional and radial rules are accurate',
 'Instantiated with single-precision points and weights (or one of the two in single, the other in double precision), every one-dimensional rule (n >= 1, n >= 2 for Gauss-Lobatto and trapezoid), every radial grid and every interval transform is constructed without an exception and satisfies the same requirements as in double precision, to single-precision accuracy: nodes ordered and inside the interval, each node and weight the exact one of the rule (or of the transformed rule) up to a few units of single-precision rounding, weights positive.',
 ['inputs','configurations'],'every rule and radial scheme instantiated with float, every n, every scale and exponent in single-precision range, every node',
 'Every test instantiates double precision only; the templates are advertised for any floating type.',
 ['quadratures/primitive/gausslegendre.hpp','quadratures/primitive/gausslobatto.hpp','quadratures/primitive/gausschebyshev1.hpp','quadratures/primitive/gausschebyshev2.hpp','quadratures/primitive/gausschebyshev3.hpp','quadratures/primitive/uniform.hpp','quadratures/radial/radial_transform.hpp','quadratures/radial/becke.hpp','quadratures/radial/mhl.hpp','quadratures/radial/muraknowles.hpp','quadratures/radial/treutlerahlrichs.hpp','util/bound_transform.hpp'],
 [('Newton iteration in the point type','quadratures/primitive/gausslegendre.hpp, gausslobatto.hpp: quadrature_traits::generate'),('templated maps','quadratures/radial/*.hpp')],
 ['points()/weights(), exceptions']),
P('P29','Radial grid partitions are values that tile the radial range',
 'A radial grid partition built region by region, in one construction from all regions, or by copying, moving or assigning another one holds its own region starts and its own angular rules; once finalised its regions, in order, tile the radial range from 0 to the number of radial points without gaps or overlaps, each with the angular rule that was given for it. Iterating it, const or not and with pre- or post-increment, delivers exactly these regions, finalising twice changes nothing, and later changes to another partition or to the rules it was built from do not show.',
 ['inputs','histories'],'every partition, every program of additions, finalisations, copies, moves, assignments and changes over several partitions',
 'Tests build one or two partitions, finalise them and hand them to a grid; copies, assignments, repeated finalisation and const traversal are never used.',
 ['composite_quadratures/pruned_spherical_quadrature.hpp'],
 [('region list and rules','composite_quadratures/pruned_spherical_quadrature.hpp: RadialGridPartition::add_quad, finalize'),('iteration','composite_quadratures/pruned_spherical_quadrature.hpp: rgp_iterator')],
 ['regions delivered by iteration, grids built from the partition, exceptions'],
 [('partition','region starts (closed by the radial size) and angular rules','composite_quadratures/pruned_spherical_quadrature.hpp: partition_idx_, quads_')]),
P('P30','Concurrent requests get the answers they would get alone, without races',
 'Threads may generate rules, grids, pruning schemes and batches, resolve names, look up orders, compare parameters and provoke errors at the same time, each with its own objects, and may read the same constant rules, grids, partitions, batchers, parameters and specifications (including cloning and copying them) at the same time. Each request gets bit-identically the answer it gets on its own, whatever runs beside it and whether or not it is the first request of its kind, and no two threads race on memory.',
 ['schedules','inputs','histories'],'every pair of kinds of requests running in four threads at once, first use and repeated use, shared constant objects and private ones',
 'Every test is single-threaded; hidden shared state (caches, static scratch memory, lazily computed members) is invisible to them.',
 ['generators/impl/impl.hpp','generators/spherical_factory.hpp','generators/radial_factory.hpp','quadrature.hpp','quadratures/radial/radial_transform.hpp','quadratures/primitive/gausslegendre.hpp','quadratures/s2/lebedev_laikov.hpp','composite_quadratures/spherical_quadrature.hpp','composite_quadratures/pruned_spherical_quadrature.hpp','batch/spherical_micro_batcher.hpp'],
 [('stateless generation','generators/impl/impl.hpp, quadratures/*: quadrature_traits::generate'),('const access without hidden writes','quadrature.hpp, composite_quadratures/*.hpp, batch/spherical_micro_batcher.hpp')],
 ['answers of every request (points, weights, regions, errors); memory accesses of the threads']),
P('P31','User-defined rules, maps and combinations work as the library\'s own',
 'A one-dimensional rule, a radial map (a RadialTraits type) or a product combination defined by the user is used exactly as given: a radial grid asks the rule for n points, or for n+2 when the rule includes the ends of its interval and these are dropped, and consists of the mapped interior nodes with weights multiplied by the map\'s derivative at the unmapped node, in order; built from its own parameters, from the generic parameter interface, from arguments or by copy it is the same grid, and parameters of another type are rejected. A product applies the user\'s combination to every pair, the index of the first rule running fastest, with the point and weight types the combination returns. Spherical, pruned and batched grids over such rules contain exactly these nodes.',
 ['inputs','configurations'],'every user rule and map, inclusive or not, every size, every composite built on them',
 'Tests only use the built-in rules, maps and combinations.',
 ['quadratures/radial/radial_transform.hpp','composite_quadratures/product_quadrature.hpp','quadrature.hpp','composite_quadratures/spherical_quadrature.hpp','composite_quadratures/pruned_spherical_quadrature.hpp','batch/spherical_micro_batcher.hpp'],
 [('dropping the ends and mapping','quadratures/radial/radial_transform.hpp: quadrature_traits::generate'),('type-deduced combination','composite_quadratures/product_quadrature.hpp')],
 ['points()/weights(), sizes the user rule is asked for, exceptions']),
P('P32','Quadrature rules are independent values',
 'Every rule (one-dimensional, radial, angular, sub-range, product, spherical, pruned) is a value: copying, moving, slicing to its generic form, storing in growing containers and handing around by value keep its points and weights, and writing through any of its mutable accessors changes exactly the addressed entry of that object and of no other; a sub-range taken from a rule or its generic form has the content that part has at that time; building the rule again gives the original content.',
 ['inputs','histories'],'every rule type, every program of constructions, copies, moves, container operations and writes over several objects',
 'Tests never write to a rule, and copy or move only one or two types once.',
 ['quadrature.hpp','composite_quadratures/spherical_quadrature.hpp','composite_quadratures/pruned_spherical_quadrature.hpp','composite_quadratures/sub_quadrature.hpp'],
 [('storage of points and weights','quadrature.hpp: QuadratureBase'),('copy and move','quadrature.hpp: Quadrature; composite_quadratures/*.hpp')],
 ['points()/weights(), points(i)/weights(i), points_data()/weights_data() of every live object']),
]
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in ps: f.write(json.dumps(p)+'\n')
for p in ps:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
print(len(ps))
