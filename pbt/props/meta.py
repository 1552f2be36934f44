"""Per property: module, numbers of generated cases, and what the evidence calls non-trivial."""
OBJ = ('Cases are drawn by Hypothesis: 1-3 axes, degrees up to 5/4/3, up to 5/3/2 spans of equal or irregular width on 12 fixed or a random '
       'domain, interior multiplicities 1..degree, ends clamped, partly clamped, unclamped or periodic, weights none/mild/two decades, '
       '0-2 fields, coordinates of size 1, 1e4 or 1e-3; ')
def m(module, quick, rule, **kw):
    return dict(dict(module=module, quick=quick, thorough=600000, rule=rule), **kw)
META = {
 'C01': m('evalp', 16000, OBJ + 'parameters scalar, list, array or default, on knots, a few ulp from knots, at ends, elsewhere. Non-trivial: rational, a degree above one and more than one span.'),
 'C02': m('evalp', 16000, OBJ + 'orders 1-4 through gradient/hessian/derivative, of the points, stored or supplied fields, plain or mapped. Non-trivial: rational with a degree above the order, or (mapped) at least one point with an invertible Jacobian.'),
 'C03': m('edit', 16000, OBJ + 'one insertion or refinement on one axis. Non-trivial: several values, or a value that is a knot already.'),
 'C04': m('edit', 16000, OBJ + 'one elevation by 0-4. Non-trivial: by at least one on an axis with interior knots.'),
 'C05': m('edit', 16000, OBJ + 'a removal of copies inserted before, of any knot with some allowed deviation, or with the default one. Non-trivial: the value removed is an interior knot.'),
 'C06': m('edit', 16000, OBJ + 'clamp or unclamp of one or both ends with some continuity. Non-trivial: degree above one and, for clamp, an end that is not clamped.'),
 'C07': m('edit', 16000, OBJ + 'a slice, extraction or boundary. Non-trivial: a proper sub-range, an interior parameter, or a boundary.'),
 'C08': m('edit', 16000, OBJ + 'a reversal, permutation, swap or remap. Non-trivial: it moves something (axes permuted, an axis reversed an odd number of times, an interval that differs).'),
 'C09': m('misc', 16000, OBJ + 'chains of 1-6 translate/move/scale/rotate/compose/invert/copy/clone/inverse steps in every argument form. Non-trivial: at least two matrices and a rational object.'),
 'C10': m('history', 12000, OBJ + 'programs of editing operations with arguments relative to the current state. Non-trivial: at least three different operations took effect.'),
 'C11': m('misc', 8000, OBJ + '1-4 operations of a table of 55 on shared objects, with lists, plain, strided and Fortran ordered arrays. Non-trivial: two different operations.'),
 'C12': m('shape', 16000, '1-4 objects of equal dimension made like those of the other checks, same or different domains, and an axis selection. Non-trivial: at least two objects.'),
 'C13': m('shape', 24000, 'Circles with radius, centre and angle (none, one, pair with None, negative sweeps), lines and patches with points in 1-3 dimensions or default. Non-trivial: circles with an angle pair or centre; all patches.'),
 'C14': m('shape', 20000, 'Shapes, degrees, continuities (negative too), limits and wrap flags, scalar or per axis, as lists, tuples and arrays; and knot vectors directly. Non-trivial: a wrapped axis or a given continuity.'),
 'C15': m('shape', 14000, OBJ + 'an extrusion, ruled object or sweep. Non-trivial: extrusions all; ruled: different degrees or knots; sweep: a rational partner.'),
 'C16': m('shape', 16000, OBJ + 'revolved about an axis index or vector through a point, by an angle or pair. Non-trivial: a vector axis or a point off the origin.'),
 'C17': m('shape', 14000, 'Four boundary curves meeting at the corners with degrees, knots and weights of their own. Non-trivial: knot vectors that differ.'),
 'C18': m('shape', 16000, 'Two objects sharing a face, with changes of degree and parametrisation of either. Non-trivial: at least one such change.'),
 'C19': m('shape', 16000, OBJ + 'refinement factors (per axis or per span), degrees and continuities. Non-trivial: at least one is given.'),
 'C20': m('files', 16000, OBJ + 'configurations, options and objects written as a PetIGA file. Non-trivial: not the default configuration, or fields, or options.'),
 'C21': m('files', 12000, 'Vectors, sparse matrices and geometry files in six configurations, intact, truncated at any byte, with wrong identifiers. Non-trivial: geometry files with options, matrices with more than one entry, vectors with a geometry.'),
 'C22': m('files', 14000, OBJ + 'samplers, structured or rectilinear output, scalars and vectors. Non-trivial: a selection of components on a surface or volume.'),
 'C23': m('kernels', 20000, 'A knot vector (degree up to 7), 1-5 parameters on, next to or between knots. Non-trivial: degree above one and more than one span.'),
 'C24': m('kernels', 20000, 'Objects with degrees up to 7. Non-trivial: an axis of degree above one with more than one span.'),
 'C25': m('kernels', 14000, 'A knot vector (degree up to 7), a number of points 1-10 and a derivative order. Non-trivial: enough points to integrate the spline, degree above one, more than one element.'),
 'C26': m('plots', 12000, OBJ + '1-4 plot calls on a recording backend, on matplotlib with recording axes or on the mayavi backend over stand-ins for mayavi. Non-trivial: a surface or volume, or rational.'),
 'C27': m('misc', 5000, OBJ + '1-3 operations in an address-sanitised, poisoned build with Fortran bounds checks, each run twice on differently filled memory. Non-trivial: an object with interior knots or an unclamped axis.', variant='asan'),
 'C28': m('misc', 2400, OBJ + '3-6 threads running operations on clones of shared objects, with a short switch interval. Non-trivial: at least two different operations.', workers=3),
 'C29': m('misc', 20000, OBJ + 'a form of control array (plain, weighted, homogeneous, tuple, none), consistent or with one inconsistency. Non-trivial: not the plain form, or fields.'),
 'C30': m('history', 16000, OBJ + 'several of some 200 requests that cannot be met, one after another on the same object. Non-trivial: all.'),
}
