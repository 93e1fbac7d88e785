#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os, sys

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=['x7/geom/' + f for f in files],
                          mechanism=[dict(name=n, where='x7/geom/' + w) for n, w in mechanism],
                          hook_needed=None))
    if observe:
        d['anchors']['observe_at'] = observe
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where='x7/geom/' + w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

I, H, C = 'inputs', 'histories', 'configurations'

# ---------------------------------------------------------------- geom
prop('C01', 'Point/vector arithmetic is an affine algebra',
     'For all coordinates: point minus point is a vector, point plus or minus vector is a point, vector plus or minus '
     'vector and scalar times, or over, vector are vectors, negation flips both coordinates, and the midpoint of two points is '
     'their coordinate-wise average; every result has exactly the coordinates of real-number arithmetic and none of the operands is changed. '
     'Adding two points is rejected.',
     [I], 'all real coordinates and scalars (non-zero divisors); every pairing of absolute, relative and computed points and plain or derived vectors',
     'Tests sample a few literal coordinates for each operator; the laws quantify over all coordinates and all operand classes.',
     ['geom.py'], [('operators delegate to xy()', 'geom.py Vector/BasePoint operators')])

prop('C02', 'Vector metrics agree with Euclidean geometry',
     'Dot product, cross product, length, perpendicular, unit vector, rotation and heading of a vector satisfy the Euclidean identities: '
     'length squared equals dot with itself, the perpendicular is the vector turned 90 degrees clockwise, unit vectors have length one and keep '
     'the direction, rotating by an angle preserves dot and cross products and composes additively, and the heading is the counter-clockwise angle from the positive x axis in degrees. '
     'Only the zero vector is false, and asking for its unit vector is an error.',
     [I], 'all real vectors and all angles',
     'Equalities over all reals/angles; tests evaluate a handful of right angles.',
     ['geom.py'], [('Vector metric methods', 'geom.py Vector.length/unit/normal/rotate/angle/dot/cross')])

prop('C03', 'Dependent points and vectors follow the points they depend on',
     'A relative point is always its base plus its own offset, a computed point is always its anchor plus a multiple of the relative offset, and a difference vector is '
     'always the current difference of its two ends, no matter how often the underlying points are moved or the offsets changed, also through chains of dependent points and their copies. '
     'A fixed version taken at some moment keeps the value of that moment, and writing to a difference vector is rejected.',
     [I, H], 'all coordinates, all sequences of up to 3 moves of the underlying points',
     'Depends on the history of mutations; tests check one move with literals.',
     ['geom.py'], [('xy() recomputed on every read', 'geom.py PointRelative/PointCalc/VectorRelative'),
                   ('fixed()', 'geom.py BasePoint.fixed/Vector.fixed')])

prop('C04', 'Equality, closeness and copies of geometric values behave as values',
     'Equality of points, vectors, boxes, lines and control points is reflexive and symmetric, holds exactly when the class and every defining component agree, and closeness holds '
     'exactly when the distance is below the tolerance. '
     'A copy is equal to an unnamed original and shares no mutable coordinates with it: changing either afterwards never changes the other (a copy of a relative or computed point keeps following the same base point).',
     [I, H], 'all coordinates; mutation of copy or original after copying',
     'Needs all values (including the near-equal ones) and later mutation; tests compare literals.',
     ['geom.py', 'bezier.py'], [('__eq__/close/copy', 'geom.py, bezier.py')])

prop('C05', 'Rounding is coordinate-wise to the nearest representable value',
     'Rounding a point, vector, box or control point to a number of digits changes each coordinate to the nearest multiple of that power of ten (at most half a step away), '
     'independently of the other coordinates, and leaves the original untouched; boxes stay boxes, control points stay control points, and relative or computed points become plain points. A vector defined as a difference of two points rounds those two points. Rounding twice gives the same result as rounding once.',
     [I], 'all coordinates, digits in 0..3',
     'All coordinates including ties; tests sample a few.',
     ['geom.py', 'bezier.py'], [('round methods', 'geom.py Vector/Point/BBox.__round__, bezier.py ControlPoint.round')])

prop('C06', 'Boxes are normalised, however they are built',
     'Whichever way a box is built (four numbers, one tuple, two points in any order), its low edges never exceed its high edges and they are the minimum and maximum of the given '
     'coordinates; width, height, area, size, corners and centre agree with the edges. A box with no coordinates has zero size and area, and asking for its corners is an error.',
     [I], 'all real coordinates in any order, all constructor forms',
     'All orderings of coordinates times all constructor forms.',
     ['geom.py'], [('BBox constructor and accessors', 'geom.py BBox')])

prop('C07', 'Box union is the least enclosing box',
     'The union of two boxes is the smallest box containing both: it is commutative, associative, idempotent, contains both operands, and is contained in every box that contains both; the box with no coordinates is neutral. '
     'Growing a box by a point gives the smallest box containing the old box and the point, and neither operand of a union is changed or aliased.',
     [I, H], 'all boxes (including degenerate and coordinate-less), all points',
     'Lattice laws over all boxes; tests evaluate literal boxes.',
     ['geom.py'], [('BBox.__add__ / grow', 'geom.py BBox')])

prop('C08', 'Box predicates are mutually consistent',
     'For boxes with positive area: containment, overlap, touching and intersection agree with the coordinates and with one another - overlap is symmetric and holds exactly when the intersection has positive area, containment is a partial order and holds exactly when the '
     'intersection is the contained box, touching holds exactly when they share boundary but no area, and a point is inside, on the border, or outside but never two at once. '
     'The intersection is the largest box inside both, or coordinate-less when they are disjoint. Containment, mutual containment and intersection agree with the coordinates for flat boxes and single points as well, and every box contains itself.',
     [I], 'all pairs of boxes, all points',
     'Relations over all pairs of boxes; tests check literal configurations.',
     ['geom.py'], [('BBox.contains/overlaps/touches/intersection', 'geom.py BBox')])

prop('C09', 'Expanding and transforming boxes stays sound',
     'Expanding a box moves every edge outwards by the requested amount, shrinking never goes past the centre, and the centre is unchanged. '
     'Transforming a box yields the tightest axis-aligned box of its four transformed corners, hence contains the image of every point inside it.',
     [I], 'all boxes, all expansion amounts, all affine transforms, all points of the box',
     'All amounts (including over-shrinking) and all matrices.',
     ['geom.py'], [('BBox.expand/transformed', 'geom.py BBox')])

prop('C10', 'Line projection and intersection are geometrically correct',
     'The closest point of an infinite line to a point lies on the line and the offset to it is perpendicular to the line; the intersection of two non-parallel lines lies on both; '
     'parallel lines, and only those, are reported as parallel. Moving a line by a vector moves its origin and keeps its direction. '
     'Points worked out from a line are independent of it: changing them never moves the line.',
     [I], 'all lines with non-zero direction, all points',
     'All lines and points; tests check a few literal lines.',
     ['geom.py'], [('Line.closest/intersection/parallel', 'geom.py Line')])

prop('C11', 'Segment intersection is sound and finds every proper crossing',
     'When two segments are reported to intersect, the reported point lies on both, at the reported fraction of each, and both fractions are within 0 and 1; every pair of segments that properly cross in their interiors is reported, and so is every pair of which one ends on the interior of the other while the bounding boxes of both have positive area. '
     'Segments with disjoint bounding boxes are never reported.',
     [I], 'all pairs of segments',
     'All pairs of segments; tests check a few.',
     ['geom.py'], [('Line.segment_intersection', 'geom.py Line')])

prop('C12', 'Signed polygon area is correct and orientation-aware',
     'The signed area of a polygon equals the shoelace sum: it is positive for counter-clockwise order, negates when the order is reversed, is unchanged by translation and by starting from another vertex, and scales with the determinant of an affine map.',
     [I], 'all polygons of 1 to 6 vertices with arbitrary real coordinates',
     'All vertex positions; tests use squares.',
     ['geom.py'], [('polygon_area', 'geom.py polygon_area')])

prop('C13', 'Parsing of point sequences accepts exactly the documented mixtures',
     'A sequence mixing point objects, coordinate pairs and runs of two bare numbers is parsed into one entry per point, in order, with the coordinates given and point objects kept as they are. '
     'A missing second number, a non-number after a number, or a tuple of the wrong length is rejected with an error; triples are accepted only when allowed.',
     [I], 'all mixtures of up to 3 items of each form with arbitrary numbers',
     'All mixtures in all orders; tests check a few sequences.',
     ['geom.py'], [('BasePoint.parse', 'geom.py BasePoint.parse')])

# ---------------------------------------------------------------- transform
prop('C14', 'All ways of mapping points through a transform agree',
     'For an affine transform (a,b,c,d,e,f) every mapping entry point - single pair, point object, list of points, list of pairs, flattened list - sends (x,y) to (a x+b y+c, d x+e y+f), in order, and returns the documented kind of result.',
     [I], 'all six matrix entries, all points, lists of 1 to 3 points',
     'All matrices and points.',
     ['transform.py'], [('Transformer.transform*', 'transform.py Transformer/Transform')])

prop('C15', 'Untransform inverts transform after any history',
     'After any sequence of transform updates (translate, scale, rotations, composition on either side, fit, assignment, reset, push, pop), whether or not the inverse was asked for in between, untransforming a transformed point gives back the point whenever the current matrix is invertible, and a '
     'non-invertible matrix is rejected. Untransforming lists and point objects agrees with untransforming each pair; lists always come back as new lists of pairs.',
     [I, H], 'all invertible start matrices, all update sequences of length up to 3 with inverse queries interleaved',
     'Depends on the interleaving of inverse queries and updates; tests check one update of each kind at most.',
     ['transform.py'], [('inverse cache invalidated on update', 'transform.py Transform')],
     state=[('cached inverse', 'inverse matrix kept until the next update', 'transform.py Transform')])

prop('C16', 'Composition order of transforms is as documented',
     'Translate, scale and the rotations act after the existing transform; composing with another transform applies the other first, outer composition applies the other last; identity is neutral and composition is associative. '
     'Copies are equal and independent of their originals, also when taken while states are pushed, and updates return the transform itself so calls can be chained.',
     [I, H], 'all matrices, all operation parameters, all points',
     'All matrices; tests check literals.',
     ['transform.py'], [('pre/post multiplication', 'transform.py Transform/Matrix')])

prop('C17', 'Push and pop restore the exact transform, even when errors escape',
     'Each pop brings back exactly the transform that was current at the matching push, last in first out, whatever updates happened in between; leaving a with-block does the same, also when an exception escapes, which is propagated. '
     'Popping, or entering a block, with nothing pushed is an error.',
     [I, H], 'all push/pop/update sequences of length up to 5, all matrices',
     'All nesting histories; tests check one or two nestings.',
     ['transform.py'], [('matrix stack', 'transform.py Transform.push/pop/__enter__/__exit__')])

prop('C18', 'Box fitting, canvas fitting and rotation about a centre hit their targets',
     'Fitting one box into another maps corner to corner exactly; keeping the aspect ratio scales both axes equally, stays inside the target, is centred and touches it in at least one dimension. '
     'The canvas fit flips y with the origin offset and zoom given, and rotating about a centre keeps that centre fixed and preserves all distances to it.',
     [I, H], 'all boxes with non-zero size, all targets, existing transforms, angles and centres',
     'All boxes and aspect ratios; tests use a few.',
     ['transform.py'], [('scale_bbox/canvas_fit/rotate_about', 'transform.py Transform')])

prop('C19', 'Rotations are rigid and the two directions are inverse',
     'Rotating a transform by any angle preserves all distances and areas, composes additively in the angle, is undone by the rotation of the opposite direction with the same angle, and matches vector rotation for the counter-clockwise form.',
     [I], 'all angles, all points',
     'All angles; tests use right angles.',
     ['transform.py'], [('rotate/rotate_ccw matrices', 'transform.py Transform')])

prop('C20', 'Decomposing a transform loses nothing',
     'Splitting a transform into a simple part and a residual gives two transforms whose composition is the original; the residual has no translation, the simple part maps axis-aligned boxes to axis-aligned boxes, and a transform that is already simple leaves an identity residual.',
     [I], 'all matrices whose non-zero linear entries are at least 1e-6 in size',
     'All matrices including the 90-degree family.',
     ['transform.py'], [('simplify/is_simple', 'transform.py Transform')])

prop('C21', 'Width scaling and scale extraction follow the matrix columns',
     'The extracted scales are the lengths of the images of the unit x and y steps, non-negative, and unaffected by translation or by a rotation applied afterwards; a width is scaled by their average, proportionally to the width, so a similarity with factor k turns width w into k w.',
     [I], 'all matrices, all widths',
     'All matrices; tests check literals.',
     ['transform.py'], [('scale_vals/transform_width', 'transform.py')])

# ---------------------------------------------------------------- bezier
prop('C22', 'Sampled Bezier points lie on the cubic in order',
     'Sampling a cubic with n steps gives exactly n+1 points: the first and last control points exactly, and for each k the cubic evaluated at k/n, whichever input and output format is used; hence samples lie in the bounding box of the control points and transform with them.',
     [I], 'all control points, step counts 1..6',
     'All control points; tests check literal curves.',
     ['bezier.py'], [('bez', 'bezier.py bez')])

prop('C23', 'Splitting a Bezier segment never changes the curve',
     'Splitting a segment at t gives a left part that traces the original on [0,t] and a right part that traces it on [t,1]; the three new control points join smoothly, the outer handles and end points are kept, and the inputs are not modified.',
     [I], 'all segments, all t in [0,1], all positions on either part',
     'Polynomial identity in control points, t and the position; tests compare one split numerically.',
     ['bezier.py'], [('bez_split (de Casteljau)', 'bezier.py bez_split')])

prop('C24', 'Control points reverse, copy, restore, bound and transform consistently',
     'Reversing a control point swaps its handles and is an involution, reversing a list reverses the traced curve; the bounding box contains the point and both handles tightly; copying, fixing and restoring reproduce all components and share nothing. '
     'Transforming a control point maps its point and both handle ends by the transform and keeps its kind, and under a non-linear transform a smooth point whose transformed handles differ keeps them opposite in direction.',
     [I, H], 'all control points, all affine transforms, arbitrary non-linear transforms',
     'All control points and transforms.',
     ['bezier.py'], [('ControlPoint methods', 'bezier.py ControlPoint')])

prop('C25', 'A Bezier path is the concatenation of its segments',
     'The flattened path of a list of control points lists the transformed samples of each segment in order, with shared end points listed once; closed paths end where they start, open paths end at the last control point, and an empty list gives an empty path.',
     [I], 'all lists of 0 to 3 control points, open and closed, all affine transforms, steps 1..3',
     'All control points, transforms and step counts.',
     ['bezier.py', 'model.py'], [('bez_path', 'bezier.py bez_path'), ('ElemCurve.paths', 'model.py ElemCurve.paths')])

prop('C26', 'Adding a control point never changes the curve',
     'Adding one control point to a curve increases the number of control points by exactly one and leaves the traced shape unchanged: the longest segment (chord) that the curve actually draws is split in the middle, every other segment is untouched, and the kinds of existing control points are kept.',
     [I, H], 'all curves of 2 to 3 control points, open and closed, repeated additions',
     'All curves, including open ones whose closing chord is the longest; tests check a closed literal.',
     ['model.py', 'bezier.py'], [('ElemCurve.add_one', 'model.py ElemCurve.add_one')])

prop('C27', 'Reported curve intersections match the requested form',
     'Whatever parameter pairs the underlying curve library reports, every reported intersection point is the first curve evaluated at its parameter, pairs where the end of one curve meets the start of the other are left out unless asked for, no other pair is lost or reordered, '
     'point form and parameter form describe the same intersections, and giving up by the library yields no intersections instead of an error.',
     [I], 'all curves, any 0..2 parameter pairs returned by the library (stubbed)',
     'Depends on arbitrary library answers; tests use four literal curves.',
     ['bezier.py'], [('bez_intersect/bez_intersect_new', 'bezier.py')])

prop('C28', 'Breaking up a self-crossing curve keeps every piece of it',
     'When a closed curve crosses itself (two of its segments crossing each other once or twice, or one segment looping), it is replaced by closed curves whose segments together trace exactly the original curve pieces between crossings, each piece once, and which meet at the crossing with a sharp corner; a curve without crossings gives no replacement. The curves that replace a curve of a model lie where it was drawn, its own transform applied once, are closed and styled like it and have names of their own. The control points passed in are left as they were.',
     [I], 'closed curves of two to four points with one crossing of any two segments, two-point curves with two crossings or a loop, at arbitrary parameters from 1/20 to 19/20 (library answers stubbed)',
     'Tests check two literal curves.',
     ['bezier.py'], [('bez_self_intersect', 'bezier.py')])

# ---------------------------------------------------------------- model
prop('C29', 'Transforming an element transforms everything it draws',
     'For every kind of element, the element transformed by a matrix draws (paths and control paths) the same outlines as the original under that matrix, also when the element has its own transform (closed outlines may start elsewhere or run the other way); the original and the matrix passed in are left as they were. '
     'Name, pen/brush and closedness are kept.',
     [I], 'all element kinds with arbitrary coordinates, own transforms and matrices (two-corner elements: invertible matrices; rounded rectangles: matrices that are not upright, or scale both directions equally)',
     'All matrices x element kinds; tests check literal snapshots.',
     ['model.py'], [('Elem.transform for each kind', 'model.py ElemCurve/ElemP1P2/Group/ElemWithHoles.transform')])

prop('C30', 'The bounding box of an element encloses everything it draws',
     'For every kind of element, every point of every path it draws lies within its bounding box, including its own transform, nested groups and holes; for rectangles and curves made of straight handles the box is tight. The centre is the centre of that box, and setting the internal box of a two-corner element makes it so.',
     [I], 'all element kinds with arbitrary coordinates and axis-preserving or general transforms',
     'All coordinates and transforms.',
     ['model.py'], [('bbox/bbox_int', 'model.py Elem.bbox and bbox_int')])

prop('C31', 'Drawing leaves the drawing context as it found it',
     'Asking any element for its paths, control paths, transformed copy or iteration leaves the transform of the drawing context exactly as before, with nothing left pushed, also when an element raises an error midway; hidden groups contribute no paths. Drawing a shadow draws filled shapes in the shadow colour onto the shadow only, and leaves the context drawing onto its layer in the usual colours, also when it fails.',
     [I, H], 'all element kinds, nested to depth 2, with arbitrary context transforms; failing element at any position',
     'Error paths and nesting; tests check results only.',
     ['model.py'], [('draw_space push/pop', 'model.py Elem.draw_space')])

prop('C32', 'Copy and restore give an exact undo for every element',
     'For every kind of element, a copy is equal to the original and independent of it, and after any in-place change of the original, restoring from the copy makes the original equal to the copy again, with later changes to either not affecting the other. A group\'s copy has its own membership, transform and flags but shares the members. Elements transformed and elements turned into curves are equally independent of the original. Restoring a curve from one with another number of control points is refused.',
     [I, H], 'all element kinds, all coordinates, all in-place mutations of coordinates, transform, name, pens and flags, then restore, then mutate again',
     'Aliasing shows only after a particular sequence of mutations.',
     ['model.py', 'bezier.py', 'geom.py'], [('copy/restore', 'model.py')])

prop('C33', 'Dumped models evaluate back to equal models',
     'For every element (nested groups, holes with the shape\'s pen, own transforms, curves, rectangles) the dumped Python text, evaluated with the imports it lists, produces an element equal to the original with the members of groups in the same order, with or without variables for shared pens and transforms; the textual form of points, vectors, boxes, lines, control points, transforms, pens and brushes evaluates to an equal object.',
     [I, C], 'all element kinds with arbitrary coordinates, names, pens and transforms',
     'All coordinates and structures; tests compare dumped text with snapshots.',
     ['model.py', 'geom.py', 'colors.py', 'transform.py', 'bezier.py'], [('dump/dump_elem/__repr__', 'model.py DumpContext, Elem.dump_elem')])

prop('C34', 'Ellipses are ellipses',
     'The control points generated for an ellipse given by centre and radii, or by two opposite corners in any order, form a closed curve that passes through the four extreme points, is symmetric about both axes, and deviates from the true ellipse by less than 0.03 percent of its radii everywhere.',
     [I], 'all centres, radii and corners; all positions on the curve',
     'Every position on the curve and all radii.',
     ['model.py'], [('make_ellipse_cps', 'model.py make_ellipse_cps')])

prop('C35', 'Rounded rectangles stay inside their box with the right corners',
     'The outline generated for a rounded rectangle stays inside the rectangle of its two corners, touches all four sides, has straight sides and corner arcs of the requested radius limited to half the shorter side, is symmetric about both centre lines, and radius zero gives the plain rectangle.',
     [I], 'all corners in any order and all radii >= 0',
     'All radii including the clipped ones and all corner orders.',
     ['model.py'], [('make_rounded_rect_cps', 'model.py make_rounded_rect_cps')])

prop('C36', 'Offsetting moves each control location by the requested distance',
     'Offsetting a point between two directions moves it so that it keeps the requested signed distance from both adjoining lines, on the side given by the sign, limited in length at very sharp corners without changing side; straight runs move perpendicular by exactly the distance, and a zero-length direction leaves the point in place. '
     'Offsetting a convex closed polygon moves every corner and handle inward by the distance if it is positive and outward if it is negative, whichever way the polygon is oriented, and keeps kinds of corners, pens and closedness.',
     [I], 'all directions, points and distances',
     'All corner angles and signs.',
     ['model.py'], [('ElemCurve.offset_pt/offset', 'model.py ElemCurve')])

prop('C37', 'Groups keep names unique and lookups exact',
     'Every element added to a group can be looked up by its (possibly adjusted) name and carries that name, names are unique within a group, dotted names reach into nested groups, parts of shapes with holes are found by exactly their own names, and unknown names are errors. '
     'Replacing an element exchanges exactly the matching elements throughout nested groups, reports how many (every one of several equal parts of a shape with holes), and leaves all others as they were.',
     [I, H], 'all add/replace/lookup sequences up to length 3 over clashing and dotted names, nested groups',
     'Sequences of adds with clashes; tests check a few.',
     ['model.py'], [('Group.add/lookup/replace', 'model.py Group')])

prop('C38', 'Traversal visits every element once with its full transform',
     'Iterating a model deeply yields each leaf exactly once, in order, with its qualified name and the accumulated transform of all enclosing groups; shallow iteration yields each direct member transformed by it. Yielded transforms keep their value after the iteration moves on, whether collected or used step by step, and the starting transform is unchanged once finished.',
     [I], 'all trees of depth up to 3 with arbitrary transforms',
     'All nestings and transforms; tests check snapshots with identity transforms.',
     ['model.py'], [('iter_elems/iter_elems_transformed', 'model.py')])

prop('C39', 'Converting elements to curves keeps the outline',
     'Converting any element to plain curves yields curves whose control points, drawn with no further transform, trace the same outline the element draws, with name, pens and closedness kept; groups and shapes with holes yield the curves of all members with the enclosing transforms applied.',
     [I], 'all element kinds with arbitrary coordinates and transforms',
     'All transforms x kinds.',
     ['model.py'], [('as_curves/as_digi_points', 'model.py')])

prop('C40', 'Shapes with holes draw every edge once and fill once',
     'A shape with holes draws its outer edge and each hole edge exactly once with the pen only, preceded, when it has a brush, by one fill path with the brush only that runs along the outside and then each hole in order, returning to the outside after each. '
     'All edges follow the transforms of shape, outside and holes.',
     [I, C], 'shapes with 0 to 3 holes, holes drawing one or several paths, with/without pen and brush, arbitrary transforms',
     'Holes that draw several paths, missing brushes; tests check one snapshot.',
     ['model.py'], [('ElemWithHoles.paths, Path.extend', 'model.py')])

# ---------------------------------------------------------------- anim
prop('C41', 'Animated points follow their formula from the original position',
     'At every time t an animated point is at the position its animation defines relative to the position it had when the animation was created (linear interpolation, eased linear, sinusoidal there-and-back, circle of the given radius), independent of earlier updates; several animations are applied in the order they were added; linear ends exactly on its target, and only plain points can be animated.',
     [I, H], 'all points, targets, times, frequencies, offsets; all sequences of up to 2 updates',
     'All times and earlier updates; tests check a few times.',
     ['anim.py'], [('Animation*.update', 'anim.py')])

prop('C42', 'Morphing interpolates control points and can be undone',
     'At progress t every control point and handle of the morphing curve is the linear interpolation between source and target, independent of earlier updates: the source at 0, the target at 1; hidden means moved off-screen, after which later updates recover fully. '
     'Different control-point counts are equalised without changing either shape, restoring puts the source back in the model, and a source missing from the model is an error.',
     [I, H], 'all curves with 2..3 control points, all t, update sequences of length 2',
     'All coordinates and times; tests check literals.',
     ['anim.py'], [('Morph', 'anim.py Morph')])

prop('C43', 'Multi-step morphing passes through every target at its time',
     'The morphing curve equals each target at that target\'s time, interpolates linearly between neighbouring targets, and stays at the first or last shape outside the time range, independent of earlier updates; hidden means moved off-screen. Aligning control points changes neither shape, and restoring puts the source back.',
     [I, H], 'one to three targets at arbitrary increasing times, all t, curves with 1 to 3 control points, open and closed',
     'All times including exact step times; tests check literals.',
     ['anim.py'], [('MorphMultiStep.update', 'anim.py MorphMultiStep')])

prop('C44', 'Timing functions have the documented shape',
     'Ramps are 0 (or 1) before the start, 1 (or 0) after the end and linear in between; interpolation passes through every given point, is linear in between and constant outside; periodic functions return the trigonometric function of frequency times t plus the offset in degrees, scaled and shifted; pairs are handled per coordinate; hiding returns nothing exactly when the value is below the threshold.',
     [I, C], 'all times, starts, ends, frequencies, offsets, scales',
     'All parameters, including non-zero offsets combined with frequencies; tests check a few.',
     ['anim.py'], [('Animation.ramp_up/ramp_down/interpolate/periodic/hide_if', 'anim.py Animation')])

prop('C45', 'Animations draw one frame per step with the right viewport',
     'Running a simple animation of n steps calls the drawing function exactly n+1 times at equally spaced times from the start to the end time and stores exactly one image per call, in order; in every frame the drawing box maps onto the image with its top-left corner at the top left of the image and its bottom-right at the bottom right. Building an animation of n steps updates the animated points to k/n before drawing the model for frame k and stores one image per step over the unchanged base image; a frame built again shows the model as it is then.',
     [I, C], 'all time ranges, drawing boxes and image sizes, 1..4 steps',
     'All boxes including those not centred on the origin; there are no tests for it.',
     ['anim_simple.py', 'anim.py'], [('SimpleAnimation.animate/next_step', 'anim_simple.py'), ('Builder.build_all', 'anim.py')])

# ---------------------------------------------------------------- colors, drawing
prop('C46', 'Pens, brushes and shape styles resolve as documented',
     'A pen/brush combination reports filled exactly when it has a brush and stroked exactly when it has a pen, with the colours given however they were specified; stroke width is the given width when positive and the width scaled by the transform when zero or negative; replacing a part changes only that part in a new object. '
     'Shape styles map each shape kind as documented for draft and production and reject unknown kinds.',
     [I, C], 'all widths and transforms, all ways to specify pens and brushes, all shape kinds',
     'All widths x transforms x specification forms.',
     ['colors.py'], [('PenBrush/Pen/PensByShape/ColorsByShape', 'colors.py')])

prop('C47', 'Drawing maps model space to pixels consistently',
     'Scaling a point to pixels and back gives the point; lines and polygons are drawn at the scaled positions of their points; crops become ordered pixel boxes of the scaled corners; elements with a pen are stroked with it, at least one pixel wide, and those with a brush filled with it, before the stroke, and nothing is painted without pen or brush; drawing a shadow restores the normal drawing target and colours even when drawing fails.',
     [I, H], 'all points, invertible transforms, crops, pens; failing models',
     'All transforms and failure paths.',
     ['drawing.py', 'model.py'], [('DrawingContext', 'drawing.py'), ('Elem.draw', 'model.py')])

# ---------------------------------------------------------------- utils
prop('C48', 'The minimal rotation is minimal and correct',
     'The smallest rotation between two angles lies in the half-open range from -180 up to but excluding 180 degrees, differs from the plain difference by a whole number of turns, is therefore the smallest such rotation, and is unchanged by adding whole turns to either angle.',
     [I], 'all real angles',
     'All angles; tests check a dozen.',
     ['utils.py'], [('min_rotation', 'utils.py min_rotation')])

prop('C49', 'Generated outlines have the documented geometry',
     'Every point of a circle or arc is at the given radius from the centre, at equally spaced angles from start to end in the requested direction with the requested number of steps; crosses and pluses are centred with arms of the given radius; path helpers rotate, translate and convert every point, in order, and return points exactly when asked to.',
     [I], 'all radii, centres, angles (integer degrees for arcs within +-720), steps 1..4; all paths of up to 3 points',
     'All radii/centres/angles and directions.',
     ['utils.py'], [('arc/circle/cross/plus/path_*', 'utils.py')])

prop('C50', 'Two-point arcs use a centre at the given radius on the requested side',
     'For two distinct points no further apart than the diameter, the arc is generated about a centre at exactly the given radius from both, on the side selected by the sign; all generated points are at that radius from the centre, and the arc starts at the first and ends at the second point. Points that coincide or are too far apart are rejected.',
     [I], 'all point pairs and radii, both sides, steps 1..2',
     'All point pairs.',
     ['utils.py'], [('arc2p', 'utils.py arc2p')])

# ---------------------------------------------------------------- vector fields
prop('C51', 'Vector fields displace points by the interpolated field',
     'Looking up the mesh point (coord_x[i], coord_y[j]) returns the vector stored at [i, j], between mesh points the bilinear interpolation; every way of transforming points through the field - single pair, point object, list - adds the looked-up vector to the point. '
     'A field of zeros is the identity.',
     [I], 'meshes of 2x2 and 3x3 with arbitrary field values and boxes, all points inside the box',
     'All field values and points; tests use one random field.',
     ['vec_field.py', 'transform.py'], [('VectorField.lookup/transform_np_pts', 'vec_field.py')])

prop('C52', 'Field construction, scaling, normalising and smoothing are sound',
     'A mesh covers its box evenly with the requested number of steps in each direction; random fields stay within the magnitude asked for; scaling multiplies each component by its factor; normalising divides by the largest magnitude so that the largest becomes one and directions stay (fields that are not zero everywhere); smoothing keeps uniform fields uniform up to normalisation and treats mirrored fields alike. '
     'Copies are equal and independent and no operation changes the original field.',
     [I], 'meshes of 2x2 and 3x3, arbitrary field values and factors, arbitrary random numbers within range',
     'All field values.',
     ['vec_field.py'], [('Mesh, VectorField.scaled/normalized/smoothed', 'vec_field.py')])

prop('C53', 'Test-support matchers judge geometric values by closeness',
     'Comparing points, vectors and control points in the test-support matchers succeeds for values that agree within the tolerance in every component and fails, with an explanation, when any component differs by more; mismatch explanation accepts exactly the close values and never fails on valid data. '
     'Pickled elements and lists of elements evaluate back to equal ones.',
     [I], 'all coordinate pairs, all kinds',
     'All coordinates; tests check literals.',
     ['testing.py'], [('Extended matchers and pickler', 'testing.py')])

prop('C54', 'Rasterised images and encoded animations match the model',
     'The pixels written for a drawing and the frames, palette and timing of an encoded animation file correspond to the paths, fills and frame times of the model.',
     [I], 'all models and images',
     'Pixel-level outcome for all inputs.',
     ['drawing.py', 'anim.py', 'imagehelp.py'], [('PIL rasteriser and GIF encoder', 'anim.py Builder.save_animation, drawing.py')])

prop('C55', 'Curve intersection finds all crossings of two cubics',
     'All crossings of two cubic segments are found, to floating-point accuracy.',
     [I], 'all pairs of cubic segments',
     'All pairs of curves.',
     ['bezier.py'], [('third-party bezier library (compiled)', 'bezier.py bez_intersect_new')])

prop('C56', 'Floating-point error of geometric operations stays bounded',
     'For coordinates of moderate size the floating-point results of the geometric operations differ from the exact real-number results by a small multiple of machine precision.',
     [I], 'all IEEE doubles of moderate size',
     'All doubles.',
     ['geom.py', 'transform.py', 'bezier.py'], [('IEEE double arithmetic throughout', 'geom.py, transform.py, bezier.py')])

prop('C57', 'A group draws exactly its visible members, in order, under its transform',
     'The paths and control paths of a group are those of its members in the order they were added, each under the transform of the group, and drawing paints them in that order. A hidden group - hidden when made, later, or through its builder, on any level of nesting - contributes nothing and does not change what the other members draw; making it visible again restores the picture. '
     'Drawing through the builder draws the group.',
     [I, H], 'nested groups of up to three levels with arbitrary affine transforms and coordinates, every combination of hidden flags, every kind of element',
     'All transforms, nestings and hidden combinations; tests draw one image of one model.',
     ['model.py'], [('Group.paths/control_paths/hidden', 'model.py Group'), ('GroupBuilder.hide/draw', 'model.py GroupBuilder')])

prop('C58', 'Group builders create what was asked for in the style asked for',
     'A group builder adds exactly one element of the requested kind, name and geometry at the end of its group and returns it. Its style is the pen given, else the pen of the shape kind given, else of the default shape kind of the builder; builders of sub-groups inherit pens and default shape kind from their parent wherever they are not given their own, on any level. Curves are closed as asked, by default exactly when they are filled; unknown kinds are refused and add nothing. '
     'Rotating an element about its centre adds a copy, rotated about the centre of the bounding box by the given angle, in the same style and leaves the original as it was. Points, lookups, dumps, iteration and replacement go to the group of the builder; hiding a builder hides its group and changes nothing else.',
     [I, C], 'all coordinates, angles and widths, every kind and style, three levels of builders with every combination of own and inherited pens and kinds',
     'All combinations over nesting levels; tests build one model.',
     ['model.py'], [('GroupBuilder', 'model.py GroupBuilder')])

prop('C59', 'Finished frames are cropped, scaled and saved together, none lost',
     'The extent of an animation is the least box around everything visible in any frame; frames with nothing visible do not matter. Scaling crops every frame to the same box, divides both sides by the factor rounded down, leaves every pixel either wholly visible (if it was) or wholly transparent, keeps the order and leaves the original frames as they were. '
     'Saving writes every frame once in order, cropped to one box that lies within the image and contains everything visible in any frame; the display time per frame is the whole number of milliseconds that fits: the requested display time, or the duration of the animation divided by the number of frames.',
     [I], 'all frame sizes, visible parts, crop boxes, durations and display times; frames with nothing visible anywhere in the sequence',
     'Needs every combination of visible parts; the saving code has no tests.',
     ['anim.py', 'anim_simple.py', 'drawing.py'], [('Builder.max_bbox', 'anim.py Builder.max_bbox'), ('Builder.save_animation', 'anim.py Builder.save_animation'), ('SimpleAnimation.save_animation', 'anim_simple.py')])

prop('C60', 'Looking never changes geometry, and answers describe its current state',
     'Asking for anything - coordinates, boxes, centres, paths, control paths, curves, transformed or plain copies, traversals, lookups, comparisons, inverse transforms, descriptions, dumps and displays - leaves points, vectors, lines, boxes, control points, '
     'transforms, elements and groups exactly as they were, and asking again gives the same answer. After any change of what was asked about - moved points, changed handles, kinds, radii, names, pens or transforms, added, replaced or restored members - the answer is that of an object newly built in the new state, whatever was asked before. '
     'Copies, transformed elements, curves and the results of arithmetic share nothing that can be changed with what they were made from, and elements nothing with the lists and corner points they were built from, except that copies of groups hold the same members.',
     [I, H], 'all coordinates and affine transforms, every kind of value and element, every query before and after every kind of change',
     'Staleness and aliasing show only for particular orders of asking and changing; tests build an object, ask once and stop.',
     ['geom.py', 'bezier.py', 'transform.py', 'model.py'], [('Transform._inverse is dropped on every change', 'transform.py Transform'), ('queries of elements', 'model.py Elem'), ('value classes', 'geom.py')])

prop('C61', 'An operation that is refused changes nothing',
     'When an operation raises because it cannot be done, everything it was given is as it was before: values without an answer (zero vectors, empty boxes, parallel lines, unreadable points), transforms fitted from boxes without extent or composed with what is no transform, popping more than was pushed, '
     'names in use or with dots, lookups of what is not there, replacements that one of the groups of the model has to refuse, restoring a curve from one with another number of control points, elements transformed by something that fails on the way, animations of what cannot be animated or with timing functions that fail, pens, styles and builders asked for what they do not have.',
     [I, C], 'all coordinates and transforms, every listed kind of refusal, nested groups and shapes with holes that share members',
     'Tests check that an exception is raised, never what is left behind; a half-made change needs a refusal after the first step.',
     ['geom.py', 'transform.py', 'model.py', 'anim.py', 'colors.py'], [('Group.replace', 'model.py Group.replace'), ('ElemCurve.restore', 'model.py ElemCurve.restore'), ('Transform.scale_bbox', 'transform.py Transform.scale_bbox')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    print(len(P), 'properties')
