#!/usr/bin/env python3
"""The catalogue of properties.  `python3 bin/catalogue.py` rewrites
properties.jsonl and MANIFEST.json for the properties that have a check."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
from props import PROPS  # noqa: E402

P = {}


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), note=""):
    P[id] = dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=None))
    P[id]["_note"] = note


PCA = "attitude/orientation/pca.py"
BASE = "attitude/orientation/base.py"
GRP = "attitude/orientation/grouped.py"
REC = "attitude/orientation/reconstructed.py"
AXES = "attitude/error/axes.py"
NET = "attitude/stereonet.py"
HYP = "attitude/display/hyperbola.py"
CON = "attitude/geom/conics.py"
UTIL = "attitude/geom/util.py"

prop("C01", "A planar fit is the total-least-squares plane of its points",
     "For every point cloud of at least three points, the fit's center is the mean of the points, its axes are "
     "orthonormal principal directions of the centred cloud with singular values in descending order, and its upward "
     "unit normal minimises the sum of squared perpendicular distances over all planes. The centred data, eigenvalues, "
     "rotated data, residuals (the out-of-plane part of each point) and the full decomposition all describe that same "
     "fit, with optional per-coordinate weights dividing the data before the decomposition and rescaling the singular "
     "values after it. Clouds of fewer than three points are rejected.",
     ["inputs", "configurations"], "every finite n x 3 cloud (any size, scale, offset, shape, element type and memory layout) and weight vector",
     "The tests fit a few random planes and one recorded outcrop; optimality and the agreement of derived quantities must hold for every cloud, including exactly planar, collinear, very thin, tiny, huge and far-from-origin ones.",
     [PCA, "attitude/coordinates/__init__.py"],
     [("singular value decomposition of the centred, weighted array", PCA), ("derived parameters", PCA)],
     state=[("axes, singular_values, mean, arr", "the fit", PCA)], observe=["Orientation(array)", "rotated()", "residuals()", "eigenvalues"])

prop("C02", "Fits move with the data under translation, rotation and scaling",
     "Translating, rotating, reflecting or uniformly scaling a point cloud, or permuting its points, changes the fit in "
     "exactly the corresponding way: the center moves with the points, axes, normal and residuals rotate, singular values "
     "scale, eigenvalues and hyperbolic error axes scale with the square, and angular errors and explained variance do not "
     "change. This holds for any sequence of such changes.",
     ["inputs", "histories"], "every cloud and every finite sequence of frame changes",
     "The tests look at single clouds in one frame; equivariance relates unboundedly many frames of the same data.",
     [PCA, AXES], [("centering and SVD", PCA), ("error axes from eigenvalues", AXES)],
     observe=["Orientation(array) before and after each change"])

prop("C03", "Strike, dip, dip direction and rake describe the fitted plane",
     "For every fitted plane, strike in [0, 360] and dip in [0, 90] name that plane by the right-hand rule (azimuth "
     "clockwise from +y, dip direction 90 degrees clockwise of strike) and its normal is the upward one, whatever the sign or orientation of the "
     "computed axes, including horizontal, vertical and overturned presentations. Rake, in [0, 180], is the angle "
     "between the plane's dip line taken up dip (dip_dr) and the first axis, and slope, azimuth and the linear-regression variant agree with the same plane.",
     ["inputs"], "every non-degenerate plane and every sign choice of its axes",
     "The tests sample a few random planes; quadrant, sign and boundary cases (cardinal strikes, horizontal, vertical) are measure-zero for random sampling.",
     [PCA, BASE, "attitude/orientation/linear"],
     [("strike_dip quadrant logic", PCA), ("rake from dip direction", PCA), ("dip_direction", BASE)],
     observe=["strike_dip()", "strike_dip_rake()", "dip_direction()", "gradient()"])

prop("C04", "Error axes and angular errors follow the documented statistics",
     "For every cloud, method (noise, sampling, Francq, Babamoradi, variance), confidence level and option, the hyperbolic "
     "error axes are the documented function of the eigenvalues, the number of points and the quantile: in-plane axes "
     "shrink and the normal axis grows by the error, with Fisher quantile by default and chi-squared on request. Minimum and "
     "maximum angular errors are the opening half-angles of those axes, in degrees by default, and for well-constrained "
     "planes the minimum does not exceed the maximum and both grow with the confidence level. The explained variance is the in-plane share of the fit's covariance.",
     ["inputs", "configurations"], "every cloud x method x confidence level x option combination",
     "The tests compare one or two configurations on one dataset.",
     [AXES, "attitude/error/__init__.py", PCA],
     [("noise/sampling covariance, Fisher statistic", AXES), ("method slot of a fit", PCA)],
     observe=["attitude.error.axes functions", "hyperbolic_axes", "angular_errors()"])

prop("C05", "A fit is recovered from its saved scaled principal axes",
     "For every fit whose cloud is not degenerate, the matrix of principal axes (each axis, as a column, scaled by its "
     "singular value) together with the points is enough to restore the fit: constructing an orientation from those axes "
     "gives back the same center, axes, singular values, normal, eigenvalues, strike, dip, rake, error axes, angular errors, "
     "explained variance, rotated data, residuals and left singular vectors. Saving and loading again any number of times "
     "changes nothing.",
     ["inputs", "histories"], "every non-degenerate cloud and every chain of save/load steps",
     "The tests round-trip one fit once; the restored object takes a separate code path for every derived quantity.",
     [PCA], [("axes= branch of the constructor, principal_axes, lazy U", PCA)],
     observe=["Orientation(arr).principal_axes", "Orientation(arr, axes=...)"])

prop("C06", "A plane reconstructed from published values is that plane",
     "For every strike, dip, rake and pair of angular errors, a ReconstructedPlane has the upward unit normal of that "
     "strike and dip (right-hand rule), an orthonormal frame whose third axis is the normal and one of whose in-plane axes "
     "(the second) pitches at the rake from the strike line, hyperbolic axes equal to the normal error over the tangent of half "
     "of each stated error (the first error on the rake direction, the second across it), and a diagonal covariance holding those axes; "
     "it reports back exactly the values it was given. "
     "Reconstructing a fit from its own strike, dip and rake gives the plane of the fit.",
     ["inputs"], "every strike x dip x rake x error pair, including cardinal, horizontal and vertical ones",
     "The tests reconstruct a few fits; the sign and quadrant conventions must hold everywhere on the sphere.",
     [REC], [("rotations by strike, dip and rake; error axes from angles", REC)],
     observe=["ReconstructedPlane(...)", "normal, axes, hyperbolic_axes, covariance_matrix, strike_dip_rake(), angular_errors()"])

prop("C07", "Queries are pure: answers never depend on what was asked before",
     "Asking anything of an orientation, in any order and any number of times (strike and dip, errors, error girdles and "
     "ellipses, mappings, conics, hyperbolas, residuals, display paths, standard errors of a linear fit), leaves the object, "
     "the array it was built from, its group and its members unchanged, so every answer equals the one a freshly built "
     "object gives. Altering a returned mapping does not alter the object.",
     ["histories", "inputs"], "every sequence of queries on every kind of orientation (fit, weighted, restored, grouped, linear, reconstructed)",
     "Tests ask one question of one object; interference between queries needs particular orders.",
     [PCA, BASE, GRP, REC, NET, "attitude/orientation/linear", "attitude/display/polar.py", "attitude/display/stereonet.py"],
     [("lazy properties and shared arrays", PCA), ("in-place sign changes of axes", NET)],
     observe=["all public query methods"])

prop("C08", "Each plane belongs to at most one group, and links agree both ways",
     "After any sequence of create_groups calls, every plane of the returned list is in at most one group, each group holds "
     "exactly the planes requested (in order), members name their group and groups name their members, groups never hold "
     "groups, and the mappings report the same links. A request naming an unknown identifier raises KeyError; one naming a "
     "group, a plane twice, or a plane that is already grouped raises GroupedPlaneError; every other request that gives each group at least one fitted plane succeeds.",
     ["histories", "inputs"], "every sequence of grouping requests, with and without copying, interleaved with disabling, reordering and dropping planes",
     "Tests group two or three planes once; membership is an invariant of histories.",
     [GRP], [("create_groups, GroupedOrientation, copy_orientations", GRP)],
     state=[("member_of / members", "links between planes and groups", GRP)], observe=["create_groups(...)", "to_mapping()"])

prop("C09", "Grouping with copies never touches the originals; failures change nothing",
     "With copying (the default) create_groups leaves the given list and every object in it exactly as they were and returns "
     "objects of its own that are equal in content and carry over earlier groups; without copying it keeps the same objects "
     "and changes only the new links. A request that fails (unknown or already grouped identifiers, or a group that cannot be fitted) changes nothing at all, and "
     "disable_orientations disables exactly the planes it is given, in place.",
     ["histories", "inputs"], "every sequence of grouping and disabling requests, successful or refused",
     "Tests check one successful call; partial effects appear only in particular failing requests and reorderings.",
     [GRP], [("copy_orientations relinks copies; create_groups resolves before changing", GRP)],
     observe=["create_groups(..., copy=...)", "disable_orientations(...)"])

prop("C10", "A group is the fit of its members' pooled points",
     "For all member planes, a GroupedOrientation is the planar fit of all members' points taken together: each member "
     "centred on its own mean by default, or in common coordinates when they are the same plane (same_plane=True); its center is the mean "
     "of all points, its axes, singular values, strike, dip, residuals and error statistics are those of the pooled cloud with its total number of points, with any axis weights asked for. The order of "
     "members does not matter and grouping leaves every member's own fit unchanged.",
     ["inputs", "configurations"], "every set of member clouds (sizes, offsets, scales) and both pooling modes",
     "The tests pool one or two synthetic sets.",
     [GRP, PCA], [("stacking of members' arrays", GRP)], observe=["GroupedOrientation(*planes, same_plane=...)", "create_groups(...)"])

prop("C11", "A plane's identifier is a stable, distinguishing function of its fit",
     "The identifier of a plane is eight lowercase hexadecimal digits that depend only on the fit: refitting the same data, querying, disabling, "
     "grouping, copying, or fitting in another process gives the same identifier, and the mapping carries it. Fits of different "
     "clouds (other shape, scale, orientation or number of points) have different identifiers.",
     ["histories", "inputs"], "every history of a plane and every pair of distinct fits",
     "The tests check the identifier of a single fit; stability is over histories and processes, distinctness over pairs.",
     [BASE], [("hash of axes and error axes", BASE)], observe=["hash", "to_mapping()['uid']"],
     note="Distinctness is checked among the fits of one run (no 32-bit collision among them), not for all clouds. ")

prop("C12", "A plane's mapping is valid JSON saying exactly what the plane says",
     "For every fit, group and reconstructed plane, to_mapping returns plain JSON data with exactly the documented keys, whose "
     "values are the plane's own identifier, axes, error axes, angular errors, strike, dip, rake, disabled flag, center and centred "
     "points. Values given by the caller are added and take precedence, except the links members and member_of, which always "
     "describe the real grouping; a group names its members and has no points of its own. The printed form of a reconstructed plane states the same strike, dip, rake and errors.",
     ["inputs", "configurations", "histories"], "every kind of plane x grouping state x set of overriding keys",
     "The tests dump one mapping to JSON.",
     [BASE, PCA, GRP], [("to_mapping and its overrides", BASE), ("members / member_of", GRP)], observe=["to_mapping(**values)"])

prop("C13", "A notebook page hands the viewer exactly the data it was given",
     "For every list of planes and mappings, with any text in names and keys, plot_interactive displays one page whose script "
     "is closed where it was written, runs, and calls the viewer exactly once, on an element of that page that no other page uses, with "
     "data identical to the mappings given. No text in the data can end the script or alter the page, and init_notebook_mode loads the viewer library on its first call only.",
     ["inputs"], "every string over a hostile alphabet (quotes, backslashes, newlines, script and comment delimiters, template markers, non-BMP characters) and every list of planes",
     "The tests never evaluate the page; escaping must hold for all text.",
     ["attitude/display/nbextension.py"], [("template substitution and escaping", "attitude/display/nbextension.py")],
     observe=["plot_interactive(attitudes)", "init_notebook_mode()"])

prop("C14", "Error girdles drawn for a plane are its error bands on the sphere",
     "For every set of axes (whatever their signs), axis-aligned error axes, level and number of points, plane_errors returns for each sheet the "
     "directions unit(cos u d1 A1 + sin u d2 A2) tilted by 2 level d3 along the upward normal (below the plane for upper, above for "
     "lower, none for nominal), u running once around, in the traditional or the north-up layout asked for. iterative_plane_errors (traditional layout) and error_coords (in degrees, keyed by level) give the same "
     "girdles, and the stereonet and cartopy bands drawn for fits, groups and reconstructed planes are the area between upper and lower. Exactly vertical planes are excluded.",
     ["inputs", "configurations"], "all axes, sign choices, error axes, levels, sheets, layouts and numbers of points",
     "The tests compare one fixed plane and one picture; signs, layouts and sheets combine into many cases.",
     [NET, "attitude/display/stereonet.py", "attitude/display/cartopy.py"], [("plane_errors, error_coords", NET), ("girdle patches", "attitude/display/stereonet.py")],
     observe=["plane_errors", "iterative_plane_errors", "error_coords", "girdle_error", "uncertain_plane", "cartopy_girdle"])

prop("C15", "Error ellipses drawn for a pole surround its upward normal",
     "For every set of axes (whatever their signs), axis-aligned error axes and level, normal_errors and iterative_normal_errors return a closed curve around the upward "
     "normal: at parameter u the normal is tilted away from the in-plane direction cos u A1 + sin u A2 by twice the normal error (times the level) over the in-plane error length. The same curve, at level 1, is "
     "drawn on stereonets, polar plots and maps for fits, groups and reconstructed planes, in the layout asked for. A pole of given strike and dip is "
     "drawn on a polar plot at its dip direction and dip.",
     ["inputs", "configurations"], "all axes, sign choices, error axes, layouts and numbers of points",
     "The tests compare one fixed plane; the ellipse must not depend on arbitrary axis signs.",
     [NET, "attitude/display/polar.py", "attitude/display/stereonet.py", "attitude/display/cartopy.py"],
     [("normal_errors", NET), ("pole patches", "attitude/display/polar.py")],
     observe=["normal_errors", "iterative_normal_errors", "pole_error", "uncertain_pole", "cartopy_normal", "pole"])

prop("C16", "Error bands in profile views are the view's hyperbolic slice",
     "For all error axes, pairs of orthonormal viewing axes (the first not vertical), rotations of the error axes, offsets and distances, the band returned by hyperbolic_errors "
     "has half width r2 sqrt(1 + (x/r1)^2) at distance x, where r1 and r2 are the radii of the error ellipsoid along the two viewing axes (the axes themselves in two dimensions); nominal line, lower side and upper side "
     "(listed backwards) are all turned by the apparent dip of the first viewing axis (the other way if reversed) and shifted by the offset. A drawn band always shows exactly the last data given to it, whatever "
     "the sequence of plots and updates, and the aligned-residual and error-comparison figures draw these bands. hyperbola_values and the parametric ellipse and hyperbola lie on the curves they name.",
     ["inputs", "configurations", "histories"], "all error axes x views x rotations x offsets x reversal, and all histories of a drawn band",
     "The tests look at two axis-aligned views without rotation, offset, reversal or updates.",
     [HYP, CON, "attitude/display/parametric.py", "attitude/display/pca_aligned.py", "attitude/display/error_comparison.py"],
     [("slicing of the dual quadric, apparent dip correction", HYP), ("polygon updates", HYP)],
     state=[("data, poly", "what is drawn", HYP)],
     observe=["hyperbolic_errors", "HyperbolicErrors", "hyperbola_values", "parametric.ellipse", "parametric.hyperbola", "plot_aligned", "error_comparison"])

prop("C17", "Conics and quadrics obey their algebra under every operation",
     "A conic or quadric is the set of points where its quadratic form vanishes, its inside where the form is negative. Translating by a vector, transforming by a matrix, slicing with a plane (default or given in-plane axes), projecting from a viewpoint, "
     "and taking duals, polar planes and poles change the form exactly as the algebra says and leave the operand unchanged, in any sequence and in two and three dimensions; center, containment, principal axes of ellipsoids and "
     "ellipse/parabola/hyperbola type describe the resulting set. The half angles subtended by spheres and by ellipsoids seen along an axis, from the origin or any viewpoint, are the geometric ones, and the symbolic counterparts of centre, dual and polar plane agree.",
     ["inputs", "histories"], "all nondegenerate 2-D and 3-D conics, planes, viewpoints, vectors and sequences of operations",
     "The tests check a few centred spheres and ellipsoids; the algebra is quantified over all conics and compositions.",
     [CON, UTIL], [("Conic methods", CON), ("Plane", UTIL)], observe=["Conic methods", "angle_subtended", "Plane.normal/offset/hessian_normal"])

prop("C18", "Linear regression is the ordinary least-squares plane of its points",
     "For every cloud with at least three points not in one vertical plane, given as points or as three coordinate rows, the regression's coefficients solve the normal equations of the centred data, predictions and residuals are those of that plane, the "
     "covariance is the residual sum of squares times the inverse normal matrix (zero for three points), and the standard errors, also those of the linear orientation in its dip-direction frame, follow from it. "
     "Answers do not depend on which quantity is asked first or how often, and the input is not changed. The error ellipse of a two-dimensional covariance is the closed curve at the given number of standard deviations around the given center.",
     ["inputs", "histories"], "all clouds x layouts x orders of queries; all covariances, centers and levels",
     "The existing regression tests are not collected or fail; they sample one random plane.",
     ["attitude/orientation/linear/regression.py", "attitude/orientation/linear/__init__.py", BASE, "attitude/error/ellipse.py"],
     [("lazily computed coefficients and covariance", "attitude/orientation/linear/regression.py"), ("rotated covariance", BASE)],
     state=[("cached coefficients, covariance, inverse normal matrix", "lazy results", "attitude/orientation/linear/regression.py")],
     observe=["Regression(...) properties", "LinearOrientation.errors()", "ellipse(...)"])

prop("C19", "Coordinate conversions and rotations are exact and mutually inverse",
     "For every vector and every pair of vectors, including axis-aligned, parallel and antiparallel ones of any length: spherical/cartesian and to/from-stereonet conversions describe the same direction and undo one another, the rotation between two vectors is the "
     "least proper rotation taking one direction to the other, angles lie in [0, 180] degrees and are never NaN, and perpendicular, unit and homogeneous vectors, planes in Hessian form (normal, offset point), 2-D and 3-D turns and composed affine maps are what they name. "
     "Centring removes the mean of every coordinate without touching its input, and the angle between two fits is the angle between their normals in degrees.",
     ["inputs"], "all vectors, pairs of vectors, angles, planes and clouds",
     "The tests touch a few of these helpers on single values; quadrants and parallel vectors are measure-zero cases.",
     ["attitude/coordinates/__init__.py", "attitude/coordinates/rotations.py", UTIL, "attitude/geom/__init__.py", "attitude/geom/transform.py", NET, PCA],
     [("spherical, cartesian, centered", "attitude/coordinates/__init__.py"), ("transform, stereonet conversions", "attitude/coordinates/rotations.py"), ("angle, Plane, perpendicular_vector", UTIL)],
     observe=["coordinates.*", "coordinates.rotations.*", "geom.util.*", "fit_angle", "rotate_2D", "sph2cart"])

prop("C20", "Elevations extracted from a raster are those of the raster at those places",
     "Extracting an area (a polygon, with holes or in several parts, inside or overlapping the raster) returns exactly once every pixel with an elevation whose centre lies in the area, at that centre and with that elevation, for every affine transform, data type, band and marking of missing data. Extracting a line, "
     "multi-part line or point within the raster returns its vertices, and if subdivided further points on it no more than the interval of pixels apart, each with the bilinear interpolation of the surrounding pixel centres whatever window is read, and NaN where an elevation it needs is missing; nearest and bilinear interpolation of "
     "geometries do the same in pixel coordinates. extract_shape picks the right one and drops the rows with NaN; clean_coordinates drops exactly those, in order, and offset_mask returns the minimum bounding rectangle with its row and column offset.",
     ["inputs"], "all rasters x transforms x geometries x options",
     "The repository has no test of its raster helpers.",
     ["attitude/helpers/dem.py", "attitude/helpers/interpolation.py"],
     [("windowed reads, mask offset", "attitude/helpers/dem.py"), ("pixel-centre convention", "attitude/helpers/interpolation.py")],
     observe=["extract_area", "extract_line", "extract_shape", "offset_mask", "clean_coordinates", "nearest", "bilinear"])

VM = "frontend/packages/attitude/src/math.ts"
VF = "frontend/packages/attitude/src/functions.ts"
VU = "frontend/packages/attitude/src/util.ts"
VH = "frontend/packages/attitude/src/hyperbola.ts"
VS = "frontend/packages/attitude/src/stereonet/index.ts"

prop("C21", "The viewer's stereonet curves are a plane's error cone and its poles",
     "For every plane with axes A (rows, any signs) and positive error axes h, any number of points and either layout, the viewer's planeErrors goes once around, and closes, the cone of directions "
     "x A1 + y A2 + z A3 with x^2/h1 + y^2/h2 = z^2/h3 (the half below the plane for upper, above for lower; the plane itself for nominal), and normalErrors the cone of poles of the planes touching it, "
     "h1 x^2 + h2 y^2 = level^2 h3 z^2 (around A3 for upper, opposite for lower). "
     "combinedErrors, nominalPlane, errorSurface (the area of the error band, not its complement) and errorEllipse (the areas within the two ellipses, for one level or each of a list, each carrying its level) are made of exactly these curves, leave "
     "the data they are given unchanged and give the same answer every time. "
     "A plane stated by its strike, dip, rake and full angular errors is drawn as the plane of that strike and dip, the cone opening by the largest error along the line at the rake and by the smallest across it.",
     ["inputs", "configurations"], "all axes, sign choices, error axes, levels, sheets, layouts and numbers of points",
     "The viewer's only tests need packages that are not installed and look at a random plane; no Python test runs it at all.",
     [VM, VF, VU], [("planeErrors, normalErrors, cart2sph", VM), ("polygons and their winding", VF)],
     observe=["math.planeErrors", "math.normalErrors", "math.combinedErrors", "math.cart2sph", "math.deconvolveAxes", "functions.errorSurface", "functions.nominalPlane", "functions.errorEllipse"])

prop("C22", "The viewer's side views show planes as seen from the current viewpoint",
     "For every plane, offset, viewpoint and pair of linear scales, createTransform and hyperbolicErrors put the plane at its offset's distance along the view and its elevation, turned to its apparent dip "
     "on the screen, and the error outline has half width sqrt(h3) at the plane and asymptotes of slope sqrt(h3)/r, r being the radius of the error ellipse (h1, h2) where the view cuts it, whatever the signs of the axes; "
     "PlaneData's mean, centred points, dip and apparent dips, the centres of sets of planes and digitized lines are the geometric ones. "
     "After any sequence of changes of azimuth the side view (planes at different places and elevations) shows every plane exactly once, back to front, in equal scales that hold them all, each member also with its group's plane, and always as seen from the current azimuth, with axes that read elevations and distances: each outline fades out at half the width along its error asymptotes under a mask of its own, less certain planes are never more opaque, and exactly the traces pointed at are marked.",
     ["inputs", "configurations", "histories"], "all planes, offsets, viewpoints and scales, and all sequences of turns of a view",
     "The viewer has no tests of its side views.",
     [VH, VU, "frontend/packages/notebook-ui/src/components/side-view.ts"],
     [("apparentDip, createTransform, hyperbolicErrors", VH), ("join, redraw and sort at each turn", "frontend/packages/notebook-ui/src/components/side-view.ts")],
     state=[("singlePlanes, scales", "what is drawn", "frontend/packages/notebook-ui/src/components/side-view.ts")],
     observe=["PlaneData", "createTransform", "hyperbolicErrors", "digitizedLine", "computeCentroidAverage", "computeCentroidExtrema", "SideViewComponent"])

NB = "frontend/packages/notebook-ui/src/"
prop("C23", "The viewer's page always shows the current selection and pointer",
     "After any sequence of clicks on listed attitudes, pointing at list entries or drawn errors, leaving the page, clearing the selection, zooming to it and switching groups, planes and poles, the list names every attitude in order (without the groups if they are switched off) and marks exactly those selected and pointed at; "
     "the stereonet draws, in order and once each, the planes and/or poles of all attitudes, or when zoomed of the selected ones, marked as group or member and without the band where the error exceeds 45 degrees, and over them what is pointed at. Clicking selects an attitude or, clicked again, deselects it (a group only if allowed); "
     "pointing at a member points at its group, and at a group also at those of its members that are on the page; the panel names what is pointed at with its number of members, strike, dip and errors to a tenth of a degree, the copied text is the list of the selected identifiers in order of selection, and the attitudes given to the page are never changed.",
     ["histories", "configurations"], "all sequences of user actions on all sets of attitudes, grouped or not, complete or not",
     "The viewer has no tests of its page, and only sequences of actions show whether what is drawn follows what was done.",
     [NB + "index.ts", NB + "components/stereonet.ts", NB + "components/list.ts", NB + "components/data-panel.ts"],
     [("state, selection, pointing", NB + "index.ts"), ("redrawing on changed properties", NB + "components/stereonet.ts")],
     state=[("selection, hovered, zoomedToSelection, showGroups", "the page's state", NB + "index.ts"), ("drawPlanes, drawPoles", "switches", NB + "components/stereonet.ts")],
     observe=["createUI", "AttitudeUI"])

VN = "frontend/packages/attitude/src/stereonet/"
prop("C24", "A stereonet's drawing always follows its size, rotation and data",
     "After any sequence of configuring, mounting, rotating, recentring, dragging and drawing on one or several stereonets of a page, each projects directions equal-area about the middle of its square, turned as last asked (dragging turns only the net the pointer was pressed on, by a third of a degree per pixel from where it then was, up to 90 degrees of latitude), "
     "at the scale given by its size, margin and clip angle ((size/2 - margin)/sin(angle), or size/2.5 - margin for a hemisphere), and tells its listeners of every turn. Its graticule has meridians and parallels at the steps asked for (10 degrees if none), only the four quarter meridians reaching the poles. Every path on the page is that of its datum in the current projection as soon as anything is drawn or turned, each plane given to planes() is one error band between the sheets of its error cone (marked unconstrained if h3 > h2) and one nominal line, and each given to ellipses() one pair of ellipses around its poles, of the level asked for in that call (1 if none), in order and in the color asked for; "
     "global labels stand at the directions they name (north at longitude 180, east at 90, up at latitude 90) and show only where these are in sight, and the fixed compass and dip labels of vertical and horizontal nets name the directions and dips where they stand.",
     ["histories", "configurations", "inputs"], "all sequences of operations on one or two nets, sizes, margins, clip angles, rotations and planes",
     "The viewer has no tests of its stereonet; what is drawn depends on the whole history of calls.",
     [VN + "index.ts", VN + "interaction.ts", VN + "labels.ts", VN + "vertical.ts", VN + "horizontal.ts", VF],
     [("projection, redraw and dispatch", VN + "index.ts"), ("dragging", VN + "interaction.ts"), ("labels", VN + "labels.ts")],
     state=[("scale, margin, clipAngle, proj", "the projection", VN + "index.ts"), ("m0, o0", "the drag", VN + "interaction.ts")],
     observe=["Stereonet", "globalLabels"])

WA = "frontend/packages/webapp/src/"
prop("C25", "The plotter plots exactly the complete rows of its sheet",
     "After any sequence of edits (of one or many cells, to numbers or other text), adding rows, resets and reloads, the sheet holds in every cell the text last entered there, except that a row's greatest and least error are exchanged as soon as both are numbers and the greatest is smaller; adding rows appends empty rows up to the next multiple of ten past ten more, a reset restores the initial rows, and a reload changes nothing. "
     "Both charts always show exactly the rows whose strike, dip, rake and two errors are all numbers, in order, with those numbers and with the row's color where that is a valid color, and every cell is marked empty, ok or invalid accordingly.",
     ["histories", "inputs"], "all sequences of edits, added rows, resets and reloads",
     "The plotter has no tests; a single edit shows neither lost cells nor charts left behind.",
     [WA + "app.ts", WA + "sheet.ts", "frontend/packages/plots/src/vertical.ts"],
     [("constructOrientation", WA + "app.ts"), ("onCellsChanged, finalizeRow, addEmptyRows", WA + "sheet.ts"), ("redrawing on changed data", "frontend/packages/plots/src/vertical.ts")],
     state=[("data", "rows of cells", WA + "app.ts")],
     observe=["App"])

prop("C26", "Quadrics, error ellipse and figures of a fit describe that fit",
     "For every planar fit (of points or of a group), the covariance matrix is diagonal in the fit's own frame, and the error hyperboloid and the error ellipsoid are the quadrics of that covariance: the hyperboloid in the fit's frame, or "
     "turned into the data's on request; the ellipsoid of the given level standing off along the upward pole, growing with the level. The error ellipse consists of the trends and plunges of the directions that touch this ellipsoid, "
     "once around it, and its figure draws them for levels 1, 2 and 3. The aligned figure draws the data in the fit's coordinates (all points, or an even selection of at most 10 000), with bars spanning them and titles stating their extent, "
     "the angular error of each section and the largest residual; the comparison figure draws them in the short section in the requested window with its nominal line and error bands.",
     ["inputs", "configurations"], "all clouds, groups, error levels and figure options",
     "The tests only call the functions, or check one shape.",
     ["attitude/orientation/pca.py", "attitude/display/pca_aligned.py", "attitude/display/error_comparison.py", "attitude/display/plot/__init__.py"],
     [("covariance_matrix, as_hyperbola, as_conic, error_ellipse", "attitude/orientation/pca.py"), ("plot_aligned", "attitude/display/pca_aligned.py"), ("error_comparison", "attitude/display/error_comparison.py"), ("error_ellipse", "attitude/display/plot/__init__.py")],
     observe=["Orientation.as_conic/as_hyperbola/error_ellipse", "plot_aligned", "error_comparison", "display.error_ellipse"])

# --- more properties are added below this line ---


def main():
    ids = [i for i in sorted(P) if i in PROPS]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for i in ids:
            d = {k: v for k, v in P[i].items() if not k.startswith("_")}
            assert len(d["title"]) <= 80, (i, len(d["title"]))
            f.write(json.dumps(d) + "\n")
    checks = []
    for i in ids:
        mods = ", ".join(m["module"] for m in PROPS[i].get("mc", []))
        checks.append(dict(
            property=i,
            quick_cmd="python3 bin/check.py %s" % i,
            thorough_cmd="VERIF_TIER=thorough python3 bin/check.py %s" % i,
            evidence_file="evidence/%s.json" % i,
            technique="TLA+ model (%s) checked by TLC; its behaviours replayed into the code and the recorded trace validated by TLC against %s" % (mods, PROPS[i]["trace"]),
            level="model_checking",
            level_note=("TLC explores the model exhaustively within the bounds of its cfg and generates the cases; the real code is run on them and on seeded random inputs, and every recorded call is judged by the specification. "
                        "Exhaustive for the model, bounded/sampled for the code. " + P[i]["_note"]).strip()))
    man = dict(version=1,
               setup_cmd="python3 -c \"import sys; sys.path.insert(0, 'harness'); import tlc; tlc.build()\"",
               checks=checks, not_applicable=[],
               notes="TLA+ with TLC. No hooks in /repo: the checks import the package from /repo's working tree and use its public API. See DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
