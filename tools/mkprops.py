#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))
N, F, C, IO = 'igakit/nurbs.py', 'igakit/igalib.f90', 'igakit/cad.py', 'igakit/io.py'
PYF, T, PL = 'igakit/igalib.pyf', 'igakit/transform.py', 'igakit/plot.py'
ST = [('array', 'homogeneous control points, weights and weighted fields', N),
      ('knots', 'one nondecreasing knot vector per parametric axis', N)]

p('C01', 'Evaluation equals the NURBS definition',
  'Evaluating a curve, surface or volume at any parameters of its domain (scalars, arrays, or the default Greville points, the end points included) returns the value of the rational B-spline defined by its knots, control points and weights, for the geometry and for stored or supplied fields. The result has one axis per array-valued parameter (scalar parameters drop theirs), and parameters outside the domain or not a number are rejected.',
  ['inputs'], 'every dimension 1-3, degree, valid knot vector (clamped, unclamped, repeated interior knots), weights, fields and parameter tuple',
  'The tests compare a handful of objects against themselves after an operation; none compares values with the definition, and none uses unclamped volumes, mixed scalar/array parameters or parameters one ulp from a knot.',
  [N, F, PYF], [('evaluation', 'NURBS.__call__, NURBS.evaluate'), ('span search and basis functions', 'bspline FindSpan/BasisFuns'), ('kernels', 'Evaluate0..3')], ST, ['nrb(u,v,w)', 'nrb.evaluate'])
p('C02', 'Derivatives are the partial derivatives of the evaluated function',
  'First to fourth parametric derivatives of the geometry or of any field, at any parameters of the domain, equal the corresponding partial derivatives of the rational B-spline (from the right at a knot, from the left at the end of the domain), with every index permutation in its place. With mapping requested, first derivatives are with respect to the physical coordinates; a combination the library does not support raises an exception and never ends the process.',
  ['inputs'], 'every dimension, degree, knots, weights, field shape, parameter tuple and derivative order 1-4',
  'Tests check shapes and a few sums of derivatives on one or two fixed objects; orders 3 and 4 values, mixed partials of rational volumes and the mapped gradient of a deformed map are never compared with a reference.',
  [N, F, PYF], [('derivatives', 'NURBS.gradient/hessian/derivative'), ('quotient rule', 'bspeval Rationalize'), ('tensor products', 'bspeval TensorProd1..3'), ('mapping', 'bspeval GeometryMap')], ST, ['gradient', 'hessian', 'derivative'])
p('C03', 'Knot insertion and refinement change no point',
  'Inserting a knot any admissible number of times, or refining with any admissible list of values in any order, leaves geometry and fields the same at every parameter. The new knot vector is the old one with exactly the requested values merged in, the degree and the other axes are untouched, and a request that would raise a multiplicity above the degree or lies outside the domain is rejected.',
  ['inputs'], 'every object, axis, value (on, near or between knots, at the ends), count and value list',
  'Tests insert a few fixed values in one clamped cubic; near-knot values, unclamped ends, repeated values, unsorted lists and fields are not reached.',
  [N, F], [('insertion', 'NURBS.insert, InsertKnot'), ('refinement', 'NURBS.refine, RefineKnotVector'), ('multiplicity', 'FindMult, FindSpanMult')], ST, ['insert', 'refine'])
p('C04', 'Degree elevation changes no point',
  'Elevating the degree along an axis by any amount leaves geometry and fields the same at every parameter, for clamped and unclamped axes. The degree grows by exactly that amount, the domain and the breaks stay, each interior knot gains exactly that multiplicity (continuity is kept), and the other axes are untouched.',
  ['inputs'], 'every object, axis and number of elevations',
  'Tests elevate a few clamped objects with simple knots; the removal branch depends on the multiplicities of neighbouring knots and on the parity of degrees, which fixed examples do not cover.',
  [N, F, PYF], [('elevation', 'NURBS.elevate, DegreeElevate'), ('output size', 'CountSpans')], ST, ['elevate'])
p('C05', 'Knot removal stays within the stated deviation',
  'Removing a knot moves no point of the geometry by more than the given deviation (per removal) and changes the fields in the same proportion, removes only copies of that knot, at most as many as asked for and present, and touches nothing else. Knots that are redundant, for instance because they were just inserted, are all removed with the original object recovered, and a knot whose removal would change the geometry or the fields stays.',
  ['inputs', 'histories'], 'every object, axis, value, count and deviation, after any admissible insertions',
  'Tests remove what they just inserted in one unweighted curve; rational weights, fields, partial removals, non-removable knots and larger deviations are not exercised.',
  [N, F], [('removal', 'NURBS.remove, RemoveKnot'), ('tolerance', 'TOL from weights and control points in NURBS.remove')], ST, ['remove'])
p('C06', 'Clamping and unclamping change no point',
  'Clamping or unclamping either or both ends of an axis, with any admissible continuity, leaves geometry and fields the same at every parameter of the unchanged domain. Afterwards a clamped end has full multiplicity; an unclamped end has the requested continuity and its outer knots are the periodic extension of the inner ones; clamping an unclamped object recovers the clamped one.',
  ['inputs', 'histories'], 'every object, axis, side, continuity; clamped, unclamped and partly clamped ends',
  'Tests use uniform knots and one continuity sweep on a grid; repeated or irregular knots next to the ends, single-span axes, one side at a time on partly clamped axes and rational objects are not covered.',
  [N, F], [('clamp', 'NURBS.clamp, ClampKnot'), ('unclamp', 'NURBS.unclamp, UnclampKnot')], ST, ['clamp', 'unclamp'])
p('C07', 'Slices, extractions and boundaries restrict the original',
  'A slice is an object of the same dimension over exactly the requested sub-domain that agrees there with the original, geometry and fields alike; extracting at a parameter gives the lower-dimensional object that agrees with the original at that parameter, down to a single point; a boundary is the extraction at that end. The original is not changed, and ranges outside the domain or empty ranges are rejected.',
  ['inputs'], 'every object, axis and parameter or range: at ends, on knots of any multiplicity, a rounding error away from a knot, in between',
  'Tests slice and extract clamped objects at a few round values, so near-knot values, unclamped ends and multiplicities between one and the degree are missed.',
  [N, F], [('slice', 'NURBS.slice'), ('corner cutting', 'NURBS.extract, CurvePntByCornerCut'), ('boundary', 'NURBS.boundary')], ST, ['slice', 'extract', 'boundary'])
p('C08', 'Reversing, permuting and remapping axes only relabel parameters',
  'Reversing axes, transposing or swapping axes and linearly remapping an axis yield an object that takes the same values at correspondingly relabelled parameters, with fields, weights and knot multiplicities carried along. The domain of a remapped axis is exactly the requested interval and that of a reversed axis exactly the old one, both ends included, and applying the inverse relabelling restores the object.',
  ['inputs'], 'every object, axis choice (negative indices included), permutation and target interval',
  'Tests use unit intervals and exact binary fractions where rounding cannot show.',
  [N], [('reverse', 'NURBS.reverse'), ('permute', 'NURBS.transpose, NURBS.swap'), ('remap', 'NURBS.remap')], ST, ['reverse', 'transpose', 'swap', 'remap'])
p('C09', 'Affine transforms act pointwise and compose as matrices',
  'Translating, scaling, rotating or applying any affine map to an object maps every point of its geometry by that map and leaves fields, weights and knots alone. Transform objects built by any chain of calls act as the product of the elementary matrices in call order, rotations are right-handed about the given axis, and the inverse undoes the transform.',
  ['inputs', 'programs'], 'every chain of translate/move/scale/rotate/compose/invert calls, argument form (scalar, vector, axis index or vector) and object',
  'Tests apply a few single transforms; chains, arbitrary axes, inverse and clone aliasing, and objects with fields or weights are not covered.',
  [T, N], [('matrices', 'transform class'), ('application', 'NURBS.transform')], ST, ['transform', 'NURBS.translate/scale/rotate'])
p('C10', 'Any sequence of edits keeps describing the same shape',
  'After any sequence of insertions, refinements, removals of redundant knots, elevations, clampings, unclampings, reversals, permutations, remaps, slices, copies and affine transforms, the object is valid and every point and field value still equals that of the original object, up to the accumulated relabelling of parameters and affine map.',
  ['histories'], 'every sequence of editing operations with arguments drawn relative to the current state',
  'Tests apply one operation to a fresh object; states such as partly unclamped axes, high multiplicities after elevation or reversed ghost knots arise only from sequences.',
  [N, F], [('editing operations', 'NURBS methods'), ('kernels', 'bspline module')], ST, ['every editing method'])
p('C11', 'Operations do not change their inputs or other objects',
  'No operation modifies an array, list or object passed to it, or any other object than the one it is called on: not the source of a clone or copy, not objects handed to a constructor function, reader or writer, nor arrays the caller passed. Changing the arrays of a copy, slice, boundary or constructed shape in place, or the points, fields, breaks and values an object hands out, never shows in the original, nor in the outcome of later calls.',
  ['inputs', 'histories'], 'every public operation, argument container and dtype, and every sharing relation made by clone, copy and construction',
  'Tests look at the result of an operation and not at what was passed in, and pass lists and floats (which get converted) rather than arrays of the native type.',
  [N, C, T, IO], [('copy/clone', 'NURBS.copy, NURBS.clone'), ('rebinding instead of writing', 'NURBS methods'), ('argument conversion', 'np.asarray calls')], ST, ['all public functions'])
p('C12', 'Making objects compatible unifies structure and keeps each shape',
  'Making any number of objects of equal dimension compatible returns, on the selected axes, the same degree, the same domain and the same knot vector for all of them, and each returned object equals its original up to the linear map between the domains. Axes not selected and the inputs are untouched.',
  ['inputs'], 'every list of objects with different degrees, domains, knots and multiplicities, and every axis selection',
  'Tests use two or three objects on the unit domain; domains of different length, coincident knots with different multiplicities and three-way merges are not covered.',
  [C, N], [('compat', 'cad.compat SameBounds/SameDegree/MergeKnots')], ST, ['cad.compat'])
p('C13', 'Elementary shapes are exact',
  'A circular arc of any radius, centre and signed angle range lies on the circle, starts and ends at the requested angles and sweeps monotonically; lines, linear, bilinear and trilinear patches interpolate their corner points (multi)linearly. Every parameter of them runs over [0,1], clamped at both ends.',
  ['inputs'], 'every radius, centre, angle or angle pair up to a full turn in either direction, and every set of corner points in 2 or 3 dimensions',
  'Tests sample a few angles and default corner points.',
  [C], [('circle', 'cad.circle'), ('patches', 'cad.line/linear/bilinear/trilinear')], [], ['cad.circle', 'cad.line', 'cad.linear', 'cad.bilinear', 'cad.trilinear'])
p('C14', 'Grids are the identity map with the requested structure',
  'A grid of any shape, degree, continuity, limits and wrapping is the identity map on its box, has the requested number of equal elements, degree and inter-element continuity per axis, and periodic outer knots exactly on wrapped axes. The knot vector generator behind it agrees. Requests out of range (no elements, degree below one, continuity of the degree or more, or below minus the degree, more than three axes) or with lists of the wrong length raise an exception.',
  ['inputs', 'configurations'], 'every combination of shape, degree, continuity (negative values count from the degree), limits and wrap, scalar or per axis',
  'Tests check array shapes of some combinations, not the map nor the knots.',
  [C, F], [('grid', 'cad.grid'), ('knots', 'iga KnotVector'), ('Greville', 'bsp Greville')], [], ['cad.grid', 'iga.KnotVector'])
p('C15', 'Extrusion, ruling and sweeping build the stated surface or volume',
  'Extruding gives the point of the section plus the linearly growing displacement; ruling gives at its two ends the two given objects and in between points of the segment joining corresponding points (linear for equal weights); sweeping gives section point plus trajectory point. The parameter added by extruding or ruling runs over [0,1], clamped at both ends. All hold at every parameter, for rational and polynomial objects.',
  ['inputs'], 'every section, displacement (vector, or scalar along an axis), pair of objects with different structure, and trajectory',
  'Tests build a few and check shapes or one point.',
  [C], [('extrude', 'cad.extrude'), ('ruled', 'cad.ruled'), ('sweep', 'cad.sweep')], [], ['cad.extrude', 'cad.ruled', 'cad.sweep'])
p('C16', 'Revolving rotates every point about the axis',
  'Revolving a curve or surface about any axis through any point by any angle range gives, at every parameter pair, the section point rotated about that axis: distance to the axis and height along it are kept, the rotation angle depends on the last parameter only, starts and ends at the requested angles and grows monotonically. The last parameter runs over [0,1], clamped at both ends.',
  ['inputs'], 'every section (points on the axis included), point, axis index or vector (any direction), and angle or angle pair',
  'Tests revolve about a few coordinate axes and compare one volume or area.',
  [C, T], [('revolve', 'cad.revolve'), ('frame', 'transform.rotate')], [], ['cad.revolve'])
p('C17', 'A Coons patch interpolates its four boundary curves',
  'A patch built from four boundary curves meeting at the corners has exactly those curves as its four boundaries (up to the linear map of parameters), whatever their degrees, knots and domains, and for polynomial curves equals the bilinearly blended Coons formula everywhere.',
  ['inputs'], 'every quadruple of compatible boundary curves, polynomial or rational with unit corner weights',
  'Tests build one patch from arcs and lines.',
  [C], [('coons', 'cad.coons'), ('compat', 'cad.compat'), ('ruled', 'cad.ruled')], [], ['cad.coons'])
p('C18', 'Joining concatenates two objects',
  'Joining two objects that share a face along an axis gives one object that follows the first over its domain and then the second, shifted to start where the first ends, for any degrees, knots, domains, clamped or not, with fields. The inputs stay as they were and the result is a valid object of the larger degree; parts cut from one object join again without redundant knots at the seam (one knot, or as many as the object had there).',
  ['inputs'], 'every pair of objects with a common face, any axis',
  'Tests join objects on unit domains and check shapes.',
  [C, N], [('join', 'cad.join'), ('removal at the seam', 'NURBS.remove')], [], ['cad.join'])
p('C19', 'Structured refinement keeps the shape and meets the request',
  'Refining with any element factors (one number or one per span), target degrees and continuities returns a new object with the same geometry and fields, degree at least the requested one, every original span divided into the requested number of equal parts, and across every break the requested continuity or the lower one the object already had. The input is unchanged.',
  ['inputs', 'configurations'], 'every object and every combination of factor, degree and continuity, scalar, per axis or None',
  'Tests check resulting shapes on a linear grid only.',
  [C, N], [('refine', 'cad.refine'), ('breaks', 'NURBS.breaks')], [], ['cad.refine'])
p('C20', 'PetIGA files round-trip and follow the binary layout',
  'Writing an object and reading it back with the same precision, scalar type and index width gives the same knots bit for bit (rounded once in single precision), degree, control points, weights and fields. The bytes follow the documented big-endian layout, so an independent reader recovers the same data, also when control points or fields are left out or the number of space dimensions is chosen.',
  ['inputs', 'configurations'], 'every object, with and without fields, all precisions, scalar types, index widths and option combinations',
  'Tests round-trip a few objects in three of the configurations through the library itself, so a mistake shared by reader and writer is invisible.',
  [IO], [('writer', 'PetIGA.write'), ('reader', 'PetIGA.read')], [], ['PetIGA.write', 'PetIGA.read'])
p('C21', 'PETSc vectors and matrices round-trip; damaged files are rejected',
  'A vector written and read back, with or without an object giving its shape, returns the same numbers in the same places, and a matrix file yields exactly its rows, columns and values. A geometry, vector or matrix file that is truncated anywhere, carries a wrong identifier, or announces a negative number of entries or more than it holds raises an exception and never yields data, and files are closed in every case.',
  ['inputs', 'fault_sequences'], 'every array shape, configuration, matrix sparsity pattern, and every truncation point or identifier corruption',
  'Tests round-trip two vectors; read_mat and damaged files are not tested at all.',
  [IO], [('vectors', 'PetIGA.write_vec/read_vec'), ('matrices', 'PetIGA.read_mat'), ('length checks', 'assertions after reads')], [], ['PetIGA.read', 'PetIGA.read_vec', 'PetIGA.read_mat'])
p('C22', 'VTK files contain the sampled geometry and fields',
  'A VTK file written from any object parses as legacy binary VTK: its dimensions match the sampled grid, its points or axis coordinates are the sampled values in VTK point order, and every named scalar and vector holds the selected field components at those points.',
  ['inputs', 'configurations'], 'every object, sampler, structured or rectilinear output, scalar and vector selections as dict or sequence, stored or supplied fields',
  'Tests only check that writing does not raise.',
  [IO], [('writer', 'VTK.write')], [], ['VTK.write'])
p('C23', 'Basis functions and their derivatives follow the recursion',
  'For any knot vector and parameter the reported span contains the parameter, the multiplicity is the number of equal knots, and the values and derivatives of the basis functions are those of the Cox-de Boor recursion: nonnegative, summing to one, derivatives summing to zero. Collocation data at arbitrary points agree with them.',
  ['inputs'], 'every degree, valid knot vector and parameter (on knots, next to knots, at the ends) and derivative order up to the degree',
  'Tests check spans and multiplicities of a few fixed vectors and only the shapes of basis data.',
  [F, PYF], [('search', 'FindSpan, FindMult'), ('basis', 'BasisFuns, DersBasisFuns'), ('collocation', 'BasisDataCol')], [], ['igalib.bsp', 'igalib.iga'])
p('C24', 'Structure queries describe the knot vector',
  'Breaks are the distinct knots of the domain with their multiplicities (end multiplicities capped at the degree), spans index exactly the nonempty knot intervals, Greville points are the knot averages, and Lagrange and Lobatto abscissae subdivide every element at the equispaced or Gauss-Lobatto nodes of the degree, all for clamped and unclamped axes.',
  ['inputs'], 'every object and axis, knot multiplicity and end condition',
  'Tests look at shapes and one or two fixed knot vectors.',
  [N, F], [('queries', 'NURBS.breaks/spans/greville/lagrange/lobatto')], ST, ['breaks', 'spans', 'greville', 'lagrange', 'lobatto'])
p('C25', 'Quadrature rules are exact and element data are consistent',
  'The Gauss-Legendre and Gauss-Lobatto rules integrate every polynomial of degree up to 2q-1 and 2q-3 exactly (to rounding) with positive weights and symmetric points, for every supported number of points. Element data place the points, Jacobians, first basis index and basis values of every nonempty element so that they integrate any spline over the domain exactly.',
  ['inputs', 'configurations'], 'every supported rule, every polynomial, every knot vector, number of points and derivative order',
  'Tests check output shapes only.',
  [F, PYF], [('rules', 'GaussLegendreRule, GaussLobattoRule'), ('element data', 'BasisData')], [], ['igalib.iga'])
p('C26', 'Plots draw points of the plotted object',
  'Every point handed to the drawing backend for a curve, surface or volume lies on the object (on its boundary for the surfaces of a volume or the outlines of a surface), knot markers and knot lines lie at the breaks, control markers and lines are the control points, and the full range between the domain ends is covered. The segments and polygons a backend makes of a grid of points join neighbouring points of that grid, all of them.',
  ['inputs', 'configurations'], 'every object, plot kind, axis selection and mode',
  'There are no tests of plotting.',
  [PL, 'igakit/plot_nul.py', 'igakit/plot_mpl.py', 'igakit/plot_myv.py'], [('plotter', 'Plotter methods'), ('backends', 'plot_nul, plot_mpl, plot_myv')], [], ['igakit.plot'])
p('C27', 'Numerical kernels stay inside their arrays',
  'No operation on valid objects and arguments reads or writes outside the arrays involved, and none leaves part of a result uninitialised, whatever the degrees, multiplicities, end conditions and counts.',
  ['inputs', 'histories'], 'every operation and sequence over every valid object',
  'Out-of-bounds accesses of a few elements rarely change a tested value; the ordinary build has no checks.',
  [F, PYF], [('explicit array bounds', 'igalib.f90 declarations'), ('output sizes', 'igalib.pyf')], [], ['instrumented build of the extension'])
p('C28', 'Concurrent use gives the results of serial use',
  'Threads that evaluate, differentiate, copy and edit their own clones of shared objects at the same time obtain exactly the results they obtain one after another, and shared objects are unchanged afterwards.',
  ['schedules', 'inputs'], 'every set of objects and operations run by several threads, in every interleaving the scheduler produces',
  'Tests are single-threaded, while the kernels release the interpreter lock.',
  [F, PYF, N], [('lock release', 'threadsafe declarations in igalib.pyf'), ('no shared kernel state', 'igalib.f90 locals')], [], ['all NURBS methods from threads'])
p('C29', 'Construction stores what was given and rejects what is inconsistent',
  'An object built from knots with plain, weighted or homogeneous control points, with or without fields, reports exactly those knots, degrees and shape, and points, weights and fields equal to the given ones (missing coordinates zero, missing weights one); without control points it is the identity map. Inputs whose shapes, sizes or weights do not fit together are rejected.',
  ['inputs'], 'every combination of knots, control array form, weights and fields, consistent or not',
  'Tests construct consistent objects and a few ill-shaped ones.',
  [N], [('constructor', 'NURBS.__init__'), ('views', 'NURBS properties')], ST, ['NURBS()', 'points', 'weights', 'fields', 'control', 'shape', 'degree'])
p('C30', 'A rejected operation leaves the object as it was',
  'Requests with parameters or ranges outside the domain, too high multiplicities, negative counts, unknown axes or sides, or mismatched objects raise an exception (so do creating, transforming and writing functions given arguments of the wrong shape, size or range), and after the failed call the object (and any other object involved) has the same knots, control points and fields as before and can still be used.',
  ['inputs', 'histories'], 'every object, operation and inadmissible argument',
  'Tests check few rejections and never the state after one.',
  [N, C], [('argument assertions', 'NURBS methods'), ('assign last', 'NURBS methods')], ST, ['every editing method'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fh:
    for d in P: fh.write(json.dumps(d) + '\n')
print(len(P), 'properties')
