"""The properties, as published in properties.jsonl, with what MANIFEST.json says of their checks"""


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                why_tests_cant=why, technique=technique, note=note,
                anchors=dict(files=list(files), mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=list(observe), hook_needed=None))


PROPS = [
    P("V01", "Selecting by position gives the right data at the right coordinates",
      "Selecting from a field by position (integers, slices of any sign and step, index lists, masks, new axes, ellipses, "
      "a vector component), spelled as Python objects, text or named axes, returns exactly the elements NumPy-style per-axis "
      "indexing would pick, and never changes the field selected from. The remaining axes keep their names, order and "
      "coordinates (node coordinates, or cell centers together with the edges of the selected cells), the centering is "
      "kept, and axes removed by an integer are recorded with their location. A list or mask selects along its own axis "
      "only; a selection of a single value is that value.",
      ["inputs"], "all selections within the bounds, for every centering, layout, and uniform or non-uniform grid",
      "tests slice a handful of selections of one field and compare a few of the results; wrong coordinates at one end, "
      "negative steps, index lists next to integers and new axes are not reached",
      ["viscid/field.py", "viscid/coordinate.py", "viscid/sliceutil.py"],
      [("selection parsing and standardising", "viscid/sliceutil.py: raw_sel2sel_list, standardize_sel, std_sel_list2index"),
       ("coordinates of a selection", "viscid/coordinate.py: make_slice, slice_and_transform"),
       ("data of a selection", "viscid/field.py: _finalize_slice, __getitem__")],
      "bounded exhaustive enumeration of selections on the real code against an index-set model",
      "every selection within the bounds agrees with an independent model of per-axis index sets; larger axes and values "
      "outside the menus are not covered", ["Field.__getitem__"]),
    P("V02", "Assigning to a selection changes exactly the selected elements",
      "Assigning a scalar or an array to a positional selection of a field changes exactly the elements that reading the "
      "same selection returns, gives each the value at its position, and leaves every other element and component as it was.",
      ["inputs"], "all selections within the bounds, for every centering and layout, scalars and arrays",
      "tests assign to almost no selections", ["viscid/field.py", "viscid/sliceutil.py"],
      [("assignment", "viscid/field.py: __setitem__, set_slice"), ("orthogonal index arrays", "viscid/sliceutil.py")],
      "bounded exhaustive enumeration of assignments on the real code against an element map",
      "every assignment within the bounds changes exactly the modelled elements", ["Field.__setitem__"]),
    P("V03", "Keeping and reducing slices differ from plain slices only in their axes",
      "slice_and_keep gives the same data as plain selection but keeps every axis selected by an integer with length one "
      "at the selected coordinate; slice_and_reduce gives the same data but additionally drops every axis along which the "
      "field has a single point, and records where it was.",
      ["inputs"], "all selections within the bounds on shapes with axes of length one, for both centerings",
      "tests check one or two selections of one shape", ["viscid/field.py", "viscid/coordinate.py"],
      [("keep", "viscid/coordinate.py: slice_and_keep"), ("reduce", "viscid/field.py: slice_and_reduce")],
      "bounded exhaustive enumeration on the real code against an index-set model",
      "every selection within the bounds agrees with the model", ["Field.slice_and_keep", "Field.slice_and_reduce"]),
    P("V04", "A slice split into a forward read and a re-slice equals the slice itself",
      "For every shape, every selection of integers, slices and new axes and every choice of axes stored in reverse, the "
      "pair of selections produced for file readers only goes forward in its first part, and applying the two in turn "
      "to the stored array gives what applying the selection to the correctly oriented array gives. The arguments, be they "
      "numbers, lists, tuples or arrays, are left as they were.",
      ["inputs"], "all slices with start and stop up to two past either end and steps of either sign, per axis",
      "tests try a few slices of one length; the arithmetic of strides that do not divide the length is easy to get wrong",
      ["viscid/sliceutil.py"], [("forward slices", "viscid/sliceutil.py: make_fwd_slice")],
      "bounded exhaustive enumeration on the real code against NumPy indexing",
      "complete for axes up to the length bound in one dimension; menus in 2-D and 3-D", ["sliceutil.make_fwd_slice"]),
    P("V05", "Selecting by location gives exactly the region asked for",
      "Selecting a range of locations along ascending coordinates gives all and only the points between the two locations, "
      "both inclusive, walked in the direction and by the stride of the step, whatever the spelling (imaginary numbers, text with "
      "j or f, named axes, loc, dates and timedeltas) and also mixed with integer endpoints. A single location, or each of "
      "a list of locations, gives a nearest point. Cell centered fields are selected by cell centers.",
      ["inputs"], "all pairs of endpoints before, on, between and past the coordinates, all steps in the menu",
      "tests select a few interior regions; endpoints on a coordinate, past an end, or with a negative step decide "
      "off-by-one errors", ["viscid/sliceutil.py", "viscid/coordinate.py", "viscid/field.py"],
      [("value to index", "viscid/sliceutil.py: std_sel2index, _closest_ind"), ("loc", "viscid/field.py: loc")],
      "bounded exhaustive enumeration on the real code against a region model",
      "complete up to order type of endpoints relative to the coordinates, for the axis lengths in the bounds",
      ["Field.__getitem__", "Field.loc"]),    P("V06", "A bucket of items keeps exactly the handles and references it was given",
      "After any sequence of stores and removals a bucket (what the registry of open files is made of) finds each stored item by "
      "every handle last bound to it and by no other, hands out automatic numbers that are never reused, forgets an item "
      "when it is removed, when its last handle is rebound to another item or when its last reference is given back, keeps "
      "it otherwise, lists the items (in order of storing, if ordered), and never touches the caller's list of handles.",
      ["histories"], "all sequences of operations up to the depth bound on three items and colliding handles",
      "tests store two items and look them up again; rebinding, references and collisions are not reached",
      ["viscid/bucket.py"], [("items, handles and references", "viscid/bucket.py: Bucket")],
      "breadth-first explicit-state exploration of operation sequences on the real object against a model",
      "every sequence within the depth bound agrees with the model; states are merged by the model's state",
      ["Bucket"]),
    P("V07", "Open files are shared, numbered, reloaded and unloaded exactly as asked",
      "After any sequence of load, reload and unload calls, loading a path that is open gives the same object however the "
      "path is spelled, a path not open gives a new one with a new number; get_file finds exactly the open files by path "
      "and number; a stored file that several open files refer to stays open exactly as long as one of them is open; "
      "the data of an open file are those on disk at some time since it was last loaded or reloaded, and after a reload "
      "never older ones; a file that cannot be read leaves no trace and can be loaded once it is repaired.",
      ["histories"], "all sequences of loads, reloads, unloads and rewrites on disk up to the depth bound on three files",
      "tests load each file once; sharing between containers, reloads after a change on disk and unloading in another "
      "order than loading are not reached",
      ["viscid/readers/vfile_bucket.py", "viscid/readers/vfile.py", "viscid/readers/__init__.py", "viscid/bucket.py"],
      [("bucket of files", "viscid/readers/vfile_bucket.py: VFileBucket, ContainerFile"),
       ("loading and unloading", "viscid/readers/vfile.py: VFile.load, reload, unload"),
       ("module interface", "viscid/readers/__init__.py: load_file, unload_file, reload_file")],
      "breadth-first explicit-state exploration of operation sequences on the real readers against a model",
      "every sequence within the depth bound agrees with the model; states are merged by the model's state",
      ["viscid.load_file", "viscid.unload_file", "viscid.get_file"]),
    P("V08", "What is read of a field on disk is what the loaded field has there",
      "Selecting from a field that has not been read yet (whole, or a vector component) gives the data, coordinates, "
      "axes and dropped axes that the same selection gives after the field is loaded, for data stored in either axis "
      "order, components first, last, in separate data sets or inside a larger data set, for cell and node centers, and "
      "for simulation files whose x and y axes are mirrored on read; and selecting changes nothing about the field.",
      ["inputs"], "all selections from per-axis menus for every kind of source, centering and component layout",
      "tests select from few files, and mostly from fields already loaded",
      ["viscid/field.py", "viscid/readers/hdf5.py", "viscid/readers/openggcm.py", "viscid/readers/numpy_binary.py",
       "viscid/coordinate.py", "viscid/sliceutil.py"],
      [("reading part of a field", "viscid/field.py: _finalize_slice"),
       ("hdf5 data", "viscid/readers/hdf5.py: H5pyDataWrapper"),
       ("mirrored axes", "viscid/coordinate.py: reflect_slices; viscid/readers/openggcm.py: mhd2gse_field_vector")],
      "bounded exhaustive enumeration of selections on real files against an index-set model and the loaded field",
      "every selection within the bounds agrees", ["Field.__getitem__"]),
    P("V13", "A saved field loads back as it was",
      "Saving fields (one, under its own or another name, as a list, dict or list of pairs, or a grid of them) to an npz or "
      "h5 file, compressed or not, and loading the file gives fields of those names with the same data (component by "
      "component), number type (booleans may become bytes in h5), centering, axes, node coordinates and, for h5, time; "
      "also after saving what was loaded again, and when an earlier file is overwritten. Saving does not change the field.",
      ["inputs", "histories"], "all shapes within the bounds, both centerings, all layouts, eight number types, pairs of "
      "fields in one file, pairs of saves to one path; h5 for 3-D x, y, z fields",
      "tests save one or two fields and compare the data",
      ["viscid/readers/hdf5.py", "viscid/readers/numpy_binary.py", "viscid/readers/xdmf.py", "viscid/readers/vfile.py"],
      [("hdf5 and xdmf writer", "viscid/readers/hdf5.py: FileHDF5.save_fields"), ("xdmf reader", "viscid/readers/xdmf.py"),
       ("npz", "viscid/readers/numpy_binary.py: FileNumpyNPZ")],
      "bounded exhaustive enumeration of save and load histories on real files",
      "every history within the bounds round-trips", ["viscid.save_field", "viscid.save_fields", "viscid.load_file"]),
    P("V20", "Coordinates give one consistent story through every accessor",
      "Uniform or non-uniform coordinates, however built (limits and counts, full arrays, detected), give through every "
      "accessor (by name, index, suffix, shaped, list, extent, length, smallest spacing, shape, points, iteration, "
      "meshgrid, and through fields) values that agree with the node positions given: cell centers are midpoints, faces "
      "and edges combine nodes and centers by component, points run over the axes in order (last axis fastest), "
      "mirrored axes are negated and reversed once, units are kept, arrays are detected as uniform exactly when they are, "
      "and points turned into cells get edges half way to their neighbours (extended by one node spacing at the ends).",
      ["inputs"], "all grids of 1 to 3 axes of up to 4 points, ascending or descending, even, uneven, tiny, huge, far from "
      "zero, dates and durations, and mirrored",
      "tests use a few ascending grids and look at node coordinates",
      ["viscid/coordinate.py", "viscid/field.py"],
      [("structured coordinates", "viscid/coordinate.py: StructuredCrds, UniformCrds, NonuniformCrds"),
       ("detection", "viscid/coordinate.py: arrays2crds, _evenly_spaced"), ("fields", "viscid/field.py: get_crds, meshgrid")],
      "bounded exhaustive enumeration of grids on the real code against a midpoint model",
      "every grid within the bounds agrees", ["wrap_crds", "arrays2crds", "Field.get_crds"]),
    P("V10", "Converting a field keeps its numbers and where they are",
      "Converting a field -- its layout (flat, interlaced), its centering (as cells or as nodes), transposes, contiguity, "
      "number type, shell copies, wrapping its data, reversal, scaled or renamed axes, added axes (atleast_3d) and dropped "
      "axes (atmost_nd, selection), components taken and put together -- gives in any order of such steps a field whose data, axes, "
      "coordinates, centering, layout, time, name and number type are those of the original put through the conversion; "
      "only the conversion's own part changes. This does not depend on whether data were read before, on "
      "caches cleared in between, or on the storage order of the source, and no conversion changes the "
      "field it came from nor any other on the way.",
      ["histories"], "all sequences of three of some 25 steps (four when thorough), from fields in memory, lists of "
      "components and unread fields of files, node and cell centered, scalar, flat and interlaced, of 1 to 3 axes",
      "tests convert once and from fields in memory; the interplay of laziness, storage order and conversions is not reached",
      ["viscid/field.py", "viscid/coordinate.py"],
      [("layouts", "viscid/field.py: as_layout, _src_data_to_ndarray, _detect_layout"),
       ("centering", "viscid/field.py: as_cell_centered, as_node_centered"), ("transposes", "viscid/field.py: transpose, transpose_crds"),
       ("caches", "viscid/field.py: shell_copy, clear_cache, _parent_field"), ("components", "viscid/field.py: component_fields")],
      "explicit-state breadth-first search over operation sequences on the real code against a model field",
      "every history within the bounds agrees with the model at every step; fields whose layout cannot be told from their "
      "shape (known finding layout-guess) are left out", ["Field.as_layout", "Field.as_centered", "Field.transpose"]),
    P("V11", "Arithmetic with fields is arithmetic on their data",
      "Every operator (binary, reflected, in-place spelling, comparison, divmod, unary, methods), NumPy ufunc, reduction (whole "
      "or along any axis, positive or negative, dimensions kept or not) and integral along an axis (trapz, cumtrapz), "
      "between fields, reduced fields, arrays and numbers, in single steps and in expressions of two, "
      "gives the values NumPy gives component by component -- whatever the layout, storage order and laziness of "
      "the operands, mixed layouts and scalar with vector included -- on the grid, time, and centering of the left field. "
      "Reduced axes are kept as one point by scalar fields by default and dropped otherwise. Operands are not changed.",
      ["inputs"], "all operators between all pairs of operands of 1 to 3 axes: scalar and vector, flat and interlaced, node and cell, "
      "in memory and unread, and all pairs of steps", "tests use a few operators on one layout",
      ["viscid/field.py"],
      [("operators", "viscid/field.py: Field.wrap, __array_wrap__, _ow"), ("reductions", "viscid/field.py: wrap npkwargs"),
       ("integrals", "viscid/field.py: trapz, cumtrapz")],
      "bounded exhaustive enumeration of expressions on the real code against NumPy, component by component",
      "every expression within the bounds agrees", ["Field.__add__", "Field.sum", "Field.trapz"]),
    P("V12", "Time steps are found, ordered, selected, activated and released as asked",
      "A collection of time steps -- nested, deferred or loaded, whatever the order they were added in -- presents them by "
      "increasing time; every selection of times (by index, place in time, date, duration, list, slice, with or without "
      "end point or interior) through counting, iterating, getting a grid or a field, activating, or a list of slices gives the same "
      "steps, those a plain list of times gives; the active step is the one last activated, fields are looked up in "
      "it, and the caches of steps passed over are released.",
      ["histories"], "all sets of up to 4 time steps in all orders, all selections with starts, stops and steps from "
      "small sets, and sequences of activations", "tests select a few times of one file",
      ["viscid/dataset.py", "viscid/sliceutil.py"],
      [("temporal datasets", "viscid/dataset.py: DatasetTemporal"), ("deferred children", "viscid/dataset.py: DeferredChild"),
       ("selection", "viscid/sliceutil.py: standardize_sel, std_sel2index, selection2values")],
      "bounded exhaustive enumeration of selections and activation histories on the real code against a list-of-times model",
      "every selection and history within the bounds agrees", ["DatasetTemporal.iter_times", "DatasetTemporal.get_times", "DatasetTemporal.activate_time"]),
    P("V14", "Divided work is complete, in order, and leaves nothing behind",
      "Dividing a list, a range or an interleaved set of elements into a number of chunks, or into chunks of at most a size, gives consecutive (or "
      "interleaved) chunks that hold every element exactly once, are as even as the documentation says, and have the sizes announced.  A "
      "parallel map returns every task's result in the order of the arguments whatever order tasks finish in, with threads, processes or "
      "in place, passes the given keyword arguments, raises an error of one of the tasks, leaves pools it was given usable, and no "
      "workers of its own.",
      ["schedules", "histories"], "all divisions within bounds; all finishing orders of up to four tasks by up to four workers",
      "tests map once and hope for an order", ["viscid/parallel.py"],
      [("chunking", "viscid/parallel.py: chunk_slices, chunk_interslices, chunk_sizes, chunk_list"), ("map", "viscid/parallel.py: map, map_async")],
      "stateless model checking: depth-first exploration of all completion orders of the real thread and process pools under a controller, "
      "and bounded exhaustive enumeration of divisions",
      "every division and finishing order within the bounds gives the ordered, complete result", ["chunk_slices", "map"]),
    P("V15", "Each streamline is that of its seed, whatever else is traced",
      "The line and topology of a seed are bit for bit the same whether it is traced alone or among others, before or after them, "
      "with however many workers, threads or processes, and chunks, whichever outputs are asked for, on one grid or on "
      "patches; results come in the order of the seeds and the wrapped topology lies at the seeds' coordinates; and a call that fails "
      "does not affect the next.",
      ["histories", "schedules"], "all ordered choices of up to three seeds from seven, all divisions of up to seven seeds among 1..8 workers and 1..3 "
      "chunks each", "tests trace one set of seeds with one division",
      ["viscid/cython/streamline.pyx", "viscid/cython/cyamr.pyx", "viscid/parallel.py"],
      [("division", "viscid/cython/streamline.pyx: calc_streamlines"), ("cached places", "viscid/cython/cycalc.pyx: closest_preceeding_ind"),
       ("active patch", "viscid/cython/cyamr.pyx: activate_patch")],
      "bounded exhaustive enumeration of seed sequences and work divisions on the real code, each compared with isolated traces",
      "every sequence and division within the bounds gives the lines of the seeds alone", ["calc_streamlines", "activate_patch"]),
    P("V16", "Interpolated values depend only on the field and the place",
      "Interpolation (nearest or linear, on node, cell, face or edge centered fields of any supported layout, number of axes and number type, including integers) "
      "gives at each place the value at the nearest point, or the linear combination of the values at the corners of the surrounding box; beyond the "
      "ends the value at the end, however far; independent of which places were asked before; on patches, the value of a patch holding the "
      "place, always of the same; and results wrapped on seeds lie at the seeds' coordinates.",
      ["histories", "inputs"], "all grids of up to 3 axes of 1..4 points, all combinations of places relative to the points",
      "tests compare one smooth field within an error", ["viscid/cython/cycalc.pyx", "viscid/cython/cyfield.pyx", "viscid/cython/cyamr.pyx"],
      [("lookup", "viscid/cython/cycalc.pyx: closest_ind, closest_preceeding_ind"), ("weights", "viscid/cython/cycalc.pyx: trilin_interp"),
       ("patches", "viscid/cython/cyamr.pyx: activate_patch")],
      "bounded exhaustive enumeration of grids, places and orders of places on the real code against an exact reference",
      "every interpolated value within the bounds agrees", ["interp_trilin", "interp_nearest"]),
    P("V17", "Every step of a streamline follows the field, and it ends where and why it says",
      "On fields of any centering, layout, number type and grid of two or three axes: every step of a streamline is one step of the chosen method's formula in the "
      "interpolated field, of the set or an allowed size, in the asked direction; the seed is on the line; every point but the last lies within all "
      "limits (boundaries, radii, number of steps, length, time), the length and time do not exceed theirs, and the last point is where one of "
      "the limits applies or the field vanishes; the topology is the union of both ends' reasons, mapped to the "
      "magnetospheric classes if asked.",
      ["inputs", "histories"], "all combinations of 9 fields, 6 grids, 6 methods, 3 directions and 16 sets of limits, every step up to 100 per direction",
      "tests compare the number of segments with recorded values", ["viscid/cython/streamline.pyx", "viscid/cython/integrate.pyx"],
      [("steps", "viscid/cython/integrate.pyx: _c_euler1 .. _c_rk45"), ("limits", "viscid/cython/streamline.pyx: classify_endpoint"),
       ("topology", "viscid/cython/streamline.pyx: end_flags_to_topology_generic, end_flags_to_topology_msphere")],
      "bounded exhaustive enumeration of configurations; every transition (step) of every line is checked against the method's transition relation "
      "and the end conditions, on the real code", "every step and end of every line within the bounds is allowed", ["calc_streamlines", "classify_endpoint"]),
    P("V18", "A field made of patches acts like its patches",
      "Arithmetic, comparisons and NumPy functions on a field made of patches, with numbers, NumPy scalars, arrays that fit every patch, and "
      "fields with the same number of patches or just one, give the field of the patches' results, whichever operand comes first, and "
      "never change the operands; a reduction over everything is that of the values of all patches. Selecting by location "
      "gives the selections of just those patches that hold a part of it, one plain field if there is one such patch, "
      "and a selection no patch holds is refused. The extent of each patch, of the whole, and which patches touch are right "
      "also when the layout of another grid is offered for reuse.",
      ["inputs"], "all operators and operand kinds, reductions, selections within the menus, for all sets of patches, centerings and layouts in the bounds",
      "tests use one data set of equal patches, and look at plots", ["viscid/amr_field.py", "viscid/amr_grid.py"],
      [("operators", "viscid/amr_field.py: wrap_field_method"), ("selections", "viscid/amr_field.py: _prepare_amr_slice, patch_indices"),
       ("layout of patches", "viscid/amr_grid.py: AMRSkeleton")],
      "bounded exhaustive enumeration on the real code against the patches' arrays",
      "every case within the bounds agrees with a model on the patches' arrays; a place where patches touch may come from either",
      ["AMRField.slice", "AMRField.__add__"]),
    P("V21", "An operation gives the right result whichever backend computes it",
      "The operations of the calculator (negation, sums, differences, products, linear combinations, absolute values and their extremes, "
      "magnitude, dot and cross products, projections, normalization) give the field of the point by point results, with the "
      "coordinates, centering, layout, precision and time of the first operand, whichever of the available backends computes it, and never "
      "change their operands. An unknown backend is refused if it is the only one allowed, and otherwise another one is used.",
      ["inputs"], "all operations, backends, shapes, centerings, layouts, types of values and kinds of second operand in the bounds",
      "tests compare the backends for one random vector field", ["viscid/calculator/calc.py", "viscid/calculator/necalc.py"],
      [("choice of a backend", "viscid/calculator/calc.py: Operation._get_imp"), ("implementations", "viscid/calculator/necalc.py")],
      "bounded exhaustive enumeration on the real code against array arithmetic",
      "every case within the bounds agrees with array arithmetic", ["viscid.magnitude", "viscid.dot"]),
    P("V22", "Derivatives are central differences in the field's own coordinates",
      "Gradient, divergence, curl and convective derivative are central differences in the (not necessarily even) coordinates of the "
      "field, one sided at the ends, located at the points of the field, or at its inner points if boundaries are "
      "left out, with its centering and time, for both backends. Jacobian, divergence and curl at a point or index have the derivative of each component "
      "in its place. Extending a field by a number of cells on either side of some axes "
      "repeats or extrapolates data and coordinates, and keeps everything else. Face and edge centered fields average to, and face centered "
      "fields diverge at, the cell centers between their faces and edges, for any number of axes.",
      ["inputs"], "all shapes, grids, centerings, layouts, backends, extensions within the bounds",
      "tests take derivatives of one smooth function on cells and compare with a tolerance", ["viscid/calculator/calc.py", "viscid/calculator/necalc.py", "viscid/calculator/ecfc.py"],
      [("differences", "viscid/calculator/necalc.py: grad, div, curl; viscid/calculator/calc.py: _grad_np, _div_np, _curl_np, convective_deriv"),
       ("extension", "viscid/calculator/calc.py: extend_boundaries"), ("staggered fields", "viscid/calculator/ecfc.py: fc2cc, ec2cc, div_fc")],
      "bounded exhaustive enumeration on the real code against finite differences of arrays",
      "every case within the bounds agrees with the model; corners of extensions and staggered results of a single value are not judged", ["viscid.grad", "viscid.div", "viscid.curl"]),
    P("V23", "Integrals and projections along lines",
      "The integral of a field along each of a list of lines is the trapezoidal sum over the segments of that line of the value, the "
      "component along the line, or the magnitude, no matter what other lines are in the list, and zero for a line of one point. The projection of "
      "a field on a line has the sign and size of its component along the line. Resampling a line keeps its ends, follows "
      "it, and gives the documented number of points. None of them changes the lines.",
      ["inputs"], "all lists of up to three lines from the menu, all reductions, layouts and centerings, resampling factors and kinds",
      "tests integrate along no lines", ["viscid/calculator/calc.py"],
      [("integrals", "viscid/calculator/calc.py: integrate_along_lines"), ("projection", "viscid/calculator/calc.py: project_along_line"),
       ("resampling", "viscid/calculator/calc.py: resample_lines")],
      "bounded exhaustive enumeration on the real code against sums over segments",
      "every case within the bounds agrees with the model, for fields that change linearly", ["viscid.integrate_along_lines"]),
    P("V24", "Seed generators give the points they describe, always the same",
      "A seed generator made of a list of points, a line, spline, plane, volume, sphere, cap, circle or spherical patch has exactly the points that "
      "its arguments describe: the number and order of points asked for, on the line, plane or sphere, with the ends or poles included or "
      "not as asked. Iterating, taking them as an array or a mesh, wrapping values on them, interpolating onto them, and mapping between "
      "parameters and space all agree with those points, with and without a cache, in every order of requests, and no request changes later ones.",
      ["inputs", "histories"], "every generator with arguments from a menu, every sequence of up to three requests to one object",
      "tests trace or plot a few generators and compare none of their points", ["viscid/seed.py"],
      [("generators", "viscid/seed.py: SeedGen and its subclasses")],
      "bounded exhaustive enumeration of arguments and request sequences on the real code against points computed from the arguments",
      "every sequence of requests within the bounds gives the points of the model", ["viscid.Line", "viscid.Plane", "viscid.Sphere"]),
    P("V25", "Rotations in every representation are the same rotation",
      "Rotation matrices, Euler angles in any order of axes, quaternions, and axis with angle convert into each other, in degrees or radians, "
      "as single values or stacks, without changing the rotation, including degenerate ones (no turn, half turns, gimbal lock). Composing "
      "quaternions and rotating vectors agrees with products of matrices. a2b_rot makes a rotation that takes a to b, for parallel and opposite vectors too, "
      "turned by roll around b. Angles between vectors are between 0 and pi. None of them changes its arguments.",
      ["inputs"], "all orders of axes, angles on a grid with the degenerate ones, vectors from a menu in pairs, units, single values and stacks, compositions of up to three",
      "the self test uses random angles and compares round trips only", ["viscid/rotation.py"],
      [("matrices and angles", "viscid/rotation.py: angle2rot, rot2angle, wxyz2rot, rot2wxyz"), ("quaternions", "viscid/rotation.py: rot2quat, quat2rot, quatmul, quat_rotate"),
       ("vectors", "viscid/rotation.py: a2b_rot, angle_between")],
      "bounded exhaustive enumeration on the real code against matrices built from axis and angle",
      "every case within the bounds agrees with the model within 1e-7", ["viscid.eul2rot", "viscid.rot2quat", "viscid.a2b_rot"]),
    P("V26", "Transforms between coordinate systems of the Earth, and the dipole",
      "At any time, given in any form, transforms between any two of gei, geo, gse, gsm, sm, mag and mhd are those of Hapgood (1992): rotations that "
      "undo each other and compose, with the dipole along z in sm. The dipole moment points from north to south at the tilt and gsm angles, and making it from angles, "
      "or angles from it, agrees. A dipole tilt or angle given by hand, and the OpenGGCM no-tilt time, override the time as documented. Results do not depend "
      "on what was asked of the object before, nor on what was done with earlier results. as_cotr and as_crd_system understand everything they document.",
      ["inputs", "histories"], "all pairs of systems, a menu of times and forms, given dipoles, three and four dimensions, all sequences of up to three requests",
      "no test transforms anything", ["viscid/cotr.py"],
      [("matrices", "viscid/cotr.py: Cotr.get_transform_matrix"), ("dipole", "viscid/cotr.py: get_dipole_moment, dipole_moment2cotr"), ("conversion", "viscid/cotr.py: as_cotr, as_crd_system")],
      "bounded exhaustive enumeration of inputs and request sequences on the real code against matrices from the formulas of the paper",
      "every case within the bounds agrees with the model within 1e-8", ["viscid.Cotr", "viscid.cotr_transform"]),
    P("V19", "Dates and durations keep their value in every form and unit",
      "Converting dates and durations between strings, numbers, datetime, timedelta, datetime64 and timedelta64, single or in lists, keeps their value, down to "
      "the microsecond for Python's types and to nanoseconds, or better if they are short, for numbers. Regularizing gives one unit that all times fit in, the finest if asked; rounding goes by less than a unit; whatever "
      "does not fit or is lost is reported when asked, never silently wrong. Sums, differences and even spacing are exact and do not overflow. Formats and the tests "
      "for what is like a time agree with the values. Times of nodes are the same however they are set.",
      ["inputs"], "all pairs of times from a menu, in all units, with all options of regularizing, rounding, summing and subtracting",
      "tests convert a dozen times and compare few values", ["viscid/npdatetime.py", "viscid/tree.py"],
      [("conversions", "viscid/npdatetime.py: as_datetime64, as_timedelta64, as_datetime, as_timedelta"), ("units", "viscid/npdatetime.py: regularize_time, round_time"),
       ("arithmetic", "viscid/npdatetime.py: time_sum, time_diff, linspace_datetime64"), ("text", "viscid/npdatetime.py: format_time"), ("nodes", "viscid/tree.py: Node.time")],
      "bounded exhaustive enumeration on the real code against exact rational arithmetic",
      "every case within the bounds agrees with exact arithmetic", ["viscid.as_datetime64", "viscid.time_sum", "viscid.format_time"]),
    P("V28", "What a node of the tree does not know, it knows from its nearest ancestor",
  "Looking up an info key, an attribute, the time or the basetime of a dataset, grid or field gives the node's own, else "
  "that of the nearest ancestor level by level (the first listed parent first), else the default or an error; it ends also "
  "when parents form a cycle. All info together is what single lookups give. Updating a key changes it where it was found "
  "and nowhere else, or sets it on the node; setting changes the node alone. Children know the info of what they were added "
  "to until they are removed; fields derived from a field find what it finds. Times set as numbers, dates or durations are "
  "seconds since the basetime.",
  ["histories", "inputs"], "all parent graphs of up to four nodes, all histories of adding, removing and setting in the bounds",
  "tests read a few keys of one file", ["viscid/tree.py", "viscid/dataset.py", "viscid/grid.py", "viscid/field.py"],
  [("search", "viscid/tree.py: _parent_bfs, find_info, find_info_owner, find_attr, update_info, get_all_info"),
   ("times", "viscid/tree.py: time, basetime, time_as_*"), ("children", "viscid/dataset.py: add, remove_all_items")],
  "explicit-state search over parent graphs and histories on the real classes against a graph model",
  "every graph and history within the bounds agrees with the model", ["Node.find_info", "Node.time"]),
    P("V30", "Files that simulations write are read with the values and grids they hold",
  "For every well-formed file of the formats: gnuplot ascii (columns against the first), nda text, athena history, athena tab and bin (either byte order, single or double precision, conserved or primitive variables, any number of scalars, 1 to 3 dimensions, axes of one cell included), and openggcm fortran-binary and jrrle (3d files, planes, ionosphere), viscid.load_file gives exactly the fields that the file holds, by their names, and each has the values of the file at their places (jrrle to within its own precision), the centering, nodes and axes of the file's grid (openggcm from the .grid2 file beside it), and the time of the file. With GGCMGrid.mhd_to_gse_on_read, openggcm fields on 3d files and planes are given in gse: x and y axes reversed and negated along with their data, and the x and y components of vectors negated. Values of openggcm log files in the watched classes show up in the info with their types. Several files (a list in any order, or a glob) are one time series in order of time, whose every time gives the data of its own file. None of this depends on the order in which fields are read, on reading fields in part or as a whole, on earlier reads or clear_cache; vectors and derived fields (v, speed, T of openggcm; rr, b, v, bmag, speed, momenta of athena) equal their definitions on the file's values, and the grids that get_times gives can be read like those of iter_times.",
  ["for every well-formed file in the formats, shapes and types in the bounds", "for every order of reads"],
  "viscid.readers: ascii, athena_hst, athena_tab, athena_bin, openggcm, ggcm_fortbin, ggcm_jrrle", "the tests read a handful of sample files once each and compare few values",
  ["viscid/readers/ascii.py", "viscid/readers/athena_tab.py", "viscid/readers/athena_bin.py", "viscid/readers/athena_hst.py", "viscid/readers/athena.py", "viscid/readers/openggcm.py", "viscid/readers/ggcm_fortbin.py", "viscid/readers/ggcm_jrrle.py", "viscid/readers/_fortfile_wrapper.py", "viscid/dataset.py"],
  [("FileASCII._parse", "viscid/readers/ascii.py"), ("FileAthenaTab", "viscid/readers/athena_tab.py"), ("AthenaBinFileWrapper", "viscid/readers/athena_bin.py"), ("GGCMFile", "viscid/readers/openggcm.py"), ("GGCMFortbinFileWrapper", "viscid/readers/ggcm_fortbin.py"), ("JrrleFileWrapper", "viscid/readers/ggcm_jrrle.py")],
  "explicit-state enumeration of files from an independent writer, and of all sequences of reads to a depth, on the real readers",
  "every enumerated file and sequence of reads gives the written values, grids, times and info",
  ["load_file", "FileASCII", "FileNDASCII", "FileAthenaTab", "FileAthenaBin", "FileAthenaHST", "GGCMGrid", "GGCMFileFortbin", "GGCMFileJRRLE", "get_times"]),
    P("V31", "XDMF documents are read as they say",
  "For every well-formed XDMF document of structured grids (3DRectMesh with VXVYVZ or X_Y_Z, 3DCoRectMesh with ORIGIN_DXDYDZ and Dimensions or NumberOfElements, 2DSMesh; XML or HDF data items of Float, Int and UInt in every supported precision, on nodes or cells, scalars and vectors, with any white space), viscid.load_file gives the fields of the document with its names, values, number types, nodes and centering; the document's order z, y, x is turned to x, y, z. Every grid has the time which the document gives it: by Time on the grid or its spatial collection, or by the List or HyperSlab of its temporal collection; several files are one series in order of time, and activate_time, iter_times and get_times give the data of their time. Information (attribute, text or DataItem) is found from a field at its own or the nearest enclosing element, and nowhere else. Included documents are read in place, and missing ones are left out; names of hdf5 files are taken relative to the document, or h5_root_dir, or absolute. Spatial collections of several grids are AMR grids whose patches, extent and nearest values are those of their own time, however the patches change from time to time. Reading in part, in any order, or after clear_cache gives the same.",
  ["for every well-formed document in the bounds", "for every order of reads"],
  "viscid.readers.xdmf, viscid.readers.hdf5, viscid.amr_grid", "the tests read a few sample documents",
  ["viscid/readers/xdmf.py", "viscid/readers/hdf5.py", "viscid/readers/ggcm_xdmf.py", "viscid/amr_grid.py", "viscid/compat/_xdmf_include.py"],
  [("FileXDMF._parse_grid", "viscid/readers/xdmf.py"), ("FileXDMF._parse_geometry", "viscid/readers/xdmf.py"), ("H5pyDataWrapper", "viscid/readers/hdf5.py"), ("AMRSkeleton.compatable_with", "viscid/amr_grid.py")],
  "explicit-state enumeration of documents from an independent writer, and of all sequences of reads to a depth, on the real reader",
  "every enumerated document and sequence of reads gives the written values, grids, times and info",
  ["FileXDMF", "FileLazyHDF5", "H5pyDataWrapper", "dataset_to_amr_grid", "GGCMFileXDMF"]),
    P("V33", "Face and edge centered fields, flux functions and beta keep to their places",
  "A number on a face (component c on the lower sides of cells along c) or an edge (component c on the lower edges along c) stays at its place in space. fc2cc gives at every cell the mean of the two faces around it, ec2cc the mean of the four edges, div_fc the differences of the opposite faces over the widths of the cell, at the cells' own nodes; axes of one cell count as invariant; with bnd=True one layer is added around, whose values copy the nearest. With or without numexpr the results are equal to rounding, they are linear, arguments keep their data, and the divergence of any curl of a field on edges is nothing to rounding. For openggcm files the same holds for b_fc, b, b_cc, bx.. (from bx1.. or bx2..) and e_ec, e, e_cc (from eflx..) for both staggerings which the log file can name (leading and trailing steppers), and in mhd as well as in gse (axes x and y reversed, x and y components negated); names that can not be derived from the file raise KeyError. calc_psi gives in every plane the flux function of the two components in the plane (h0 = -dA/dx1, h1 = dA/dx0 by the trapezoidal rule), zero at the first corner, or at the last with rev. calc_beta is scale * 2 p / B^2.",
  ["for every place and basis vector", "for every shape, stagger and frame in the bounds"],
  "viscid.calculator.ecfc, viscid.calculator.plasma, viscid.readers.openggcm", "one test takes norms of one sample file",
  ["viscid/calculator/ecfc.py", "viscid/calculator/plasma.py", "viscid/readers/openggcm.py", "viscid/field.py"],
  [("make_ecfc_field_leading", "viscid/calculator/ecfc.py"), ("fc2cc", "viscid/calculator/ecfc.py"), ("ec2cc", "viscid/calculator/ecfc.py"), ("div_fc", "viscid/calculator/ecfc.py"), ("GGCMGrid._ecfc_vector_setmeta", "viscid/readers/openggcm.py"), ("calc_psi, calc_beta", "viscid/calculator/plasma.py")],
  "explicit-state enumeration of staggered fields and of all basis vectors of small grids on the real code, against numbers tied to places",
  "every place of every enumerated field agrees",
  ["fc2cc", "ec2cc", "div_fc", "make_ecfc_field_leading", "calc_psi", "calc_beta", "GGCMGrid"]),
    P("V29", "Maps of a sphere keep every value at its place",
  "Wherever a field lies on (part of) a sphere, as_mapfield, as_spherefield and every chain of the two leave each value at its point of the sphere: theta and lat are turned into each other as 90 deg - x (or pi / 2 - x), values, nodes and cells along that axis are reversed with them (axes stay increasing), longitudes and phi are equal, order and units of the axes come out as asked for, units may be one string or one for each axis (lists of callers are not changed), and components and other axes are untouched, for every centering, layout and unit. as_polar_mapfield puts a hemisphere down at radius = distance to its pole with the values of that hemisphere within bounding_lat, and make_periodic closes the circle with a copy of the first value. Conversion of points (cart2sph, sph2cart, cart2latlon, latlon2cart, lat2theta, theta2lat, phi2lon, lon2phi, pts2polar_mapfield) inverts, keeps arguments, keeps single points single, and takes integers and degrees; great_circle gives n points on the sphere (about the origin named) which begins at p1, ends at p2 and stays in their plane along the shorter way.",
  ["for every place of every field", "for every chain of two conversions", "for every point of the menu"],
  "viscid.mapfield", "tests plot one ionosphere file",
  ["viscid/mapfield.py", "viscid/coordinate.py"],
  [("as_mapfield", "viscid/mapfield.py"), ("as_spherefield", "viscid/mapfield.py"), ("as_polar_mapfield", "viscid/mapfield.py"), ("_fld_xform_common", "viscid/mapfield.py"), ("cart2sph", "viscid/mapfield.py"), ("great_circle", "viscid/mapfield.py")],
  "explicit-state enumeration of fields on a sphere and of chains of conversions on the real code, against the places of all values",
  "every value of every enumerated field stays at its place through every chain",
  ["as_mapfield", "as_spherefield", "as_polar_mapfield", "great_circle", "cart2sph"]),
P("V34", "Dipole fields, masks and mapping follow the dipole's formula at every place",
  "fill_dipole and make_dipole give at every place of every component (nodes, cells, faces or edges) 3 r (m.r) / r^5 - m / r^3, rescaled to strength when it is given, in the type of the field, and with mask only where the mask is true (the rest keeps its values); calc_dip gives the same at one or any number of points without changing them. With or without numexpr the results are equal to rounding. make_spherical_mask is true exactly where rmin <= r < rmax, at the places of the field's own values (three components for face and edge centered vectors). set_in_region gives alpha a + beta b where the mask is true and out elsewhere, in out, leaving a and b alone. make_dipole carries a coordinate system and a dipole orientation which give back its moment. xyz2lsrlp gives shell, radius, latitude and longitude in SM; dipole_map takes every point along its line to radius r in the same hemisphere and longitude, in the caller's system, or nan when the line does not get that far; dipole_map_value gives the field's value there, fillna where there is none.",
  ["for every place", "for every number of points", "for every moment and orientation in the bounds"],
  "viscid.dipole", "tests plot mapped values only",
  ["viscid/dipole.py", "viscid/cotr.py"],
  [("fill_dipole", "viscid/dipole.py"), ("calc_dip", "viscid/dipole.py"), ("set_in_region", "viscid/dipole.py"), ("make_spherical_mask", "viscid/dipole.py"), ("dipole_map", "viscid/dipole.py"), ("dipole_map_value", "viscid/dipole.py")],
  "explicit-state enumeration of grids, points, masks and orientations on the real code, against the formula at every place",
  "every place of every enumerated field agrees",
  ["fill_dipole", "calc_dip", "dipole_map", "make_spherical_mask", "set_in_region"]),
    P("V32", "Separators, clusters, null points and minimum variance are found where they are",
  "find_clusters gives one point for each set of neighbouring points (diagonals count or not; periodic directions wrap around, also across corners), in any order of the points: the mean of its points laid side by side, within the map; multiple=False gives the mean of all. topology_bitor_clusters gives the clusters of all windows of d x d cells (the least d from min_depth to max_depth that has one) whose values or'ed are sep_val, with values along pt_bnds counted as neighbours, and leaves the topology as it was. Wherever the topologies around one separator are four sectors, get_sep_pts_bisect finds it to within its last quadrant, and get_sep_pts_bitor within a cell and a half, in the plane of the seeds and in space. find_nulls gives exactly the cells in which a linear field, or a product of linear fields, vanishes, nothing for fields without a null or within ibound, for either precision, layout and centering; find_classified_nulls calls it A or B by the signs of the eigenvalues. minvar_series gives variances in increasing order with unit eigenvectors, dropping samples that are not finite (nan below 3); minvar and minvar_around sample the field evenly on the line; LMN frames are right handed, orthonormal, with N along least variance and L along the part of l_basis across N, or largest variance when that is None or along N. topology2color looks every value up.",
  ["for every set of points on small maps and every boundary", "for every place of a separator on a lattice", "for every small matrix and place of the null", "for every short series"],
  "viscid.calculator.separator, cluster, topology, minvar_tools; viscid.cython.null_tools", "tests trace one separator and one set of nulls",
  ["viscid/calculator/separator.py", "viscid/calculator/cluster.py", "viscid/calculator/minvar_tools.py", "viscid/calculator/topology.py", "viscid/cython/null_tools.pyx", "viscid/seed.py"],
  [("find_clusters", "viscid/calculator/cluster.py"), ("topology_bitor_clusters", "viscid/calculator/separator.py"), ("get_sep_pts_bisect", "viscid/calculator/separator.py"), ("find_nulls", "viscid/cython/null_tools.pyx"), ("minvar_series", "viscid/calculator/minvar_tools.py"), ("topology2color", "viscid/calculator/topology.py")],
  "explicit-state enumeration of maps, point sets, places and matrices on the real code, against independent models",
  "every enumerated map, set, place, matrix and series gives what the model gives",
  ["find_clusters", "topology_bitor_clusters", "get_sep_pts_bisect", "find_nulls", "minvar"]),
    P("V27", "Equations, json with comments, settings files and option text mean what they say",
  "With the evaluator enabled, grid[\"name = equation\"], get_field (also with slc) and evaluate give the value of the equation over the grid's fields, to rounding the same with and without numexpr, for scalars and vectors (flat or interlaced, node or cell centered): python's operators and precedence, numbers in every spelling, functions of arrays and of viscid's calculator (also where a field has the name of a function), parentheses and spaces as they please; the result is a field of that name with the grid's coordinates, time and centering (a vector when an operand is one), sliced as slc says, or a number for reductions; the grid's own fields stay as they were. While it is disabled every such equation is refused with RuntimeError. vjson.loads gives what json gives for the document without its # and // comments and trailing commas, which can be anywhere between tokens, and leaves strings as they are; dumps and loads are inverse. An rc file (yaml or json; with ~ and variables in its name) sets exactly the attributes it names to the values it gives, skips those that do not exist, and can be empty. pyeval gives numbers, strings, lists, tuples, dicts, true, false and none of option text, takes bare words as strings, and evaluates no calls, attributes or operators.",
  ["for every equation of up to two operations on every pair of operands", "for every place of a comment or comma", "for every option text in the bounds"],
  "viscid.calculator.evaluator, vjson, _rc, pyeval", "tests evaluate three equations",
  ["viscid/calculator/evaluator.py", "viscid/vjson.py", "viscid/_rc.py", "viscid/pyeval.py"],
  [("evaluate", "viscid/calculator/evaluator.py"), ("_evaluate_numexpr", "viscid/calculator/evaluator.py"), ("_evaluate_numpy", "viscid/calculator/evaluator.py"), ("loads", "viscid/vjson.py"), ("load_rc_file", "viscid/_rc.py"), ("parse", "viscid/pyeval.py")],
  "explicit-state enumeration of equations, documents and option texts on the real code, against arrays and python's own json",
  "every enumerated text gives the value it stands for",
  ["evaluate", "loads", "load_rc_file", "parse"]),
    P("V09", "Wildcards and slices in names find exactly the files and items they stand for",
  "A file name with wildcards gives exactly the existing files it matches, with ~, variables and relative directories resolved; with one slice in brackets (indices or values marked f or j, both ends and step optional, or one index or value) at the place of a number it gives those of the matching files that the slice picks from their numbers in increasing order (not the order of their names), in the slice's order: values include both ends, one value gives the nearest. load_files loads exactly these, for one name or several. Without any match glob2 gives an empty list and slice_globbed_filenames raises IOError. resolve_path, find_items and find_item find every item (with first or find_item one of them) of a tree of dicts, or of groups and datasets in an hdf5 file, whose path matches a path of patterns, where an exact name goes before wildcards, and raise KeyError exactly when there is none, also when patterns go beyond the leaves.",
  ["for every slice of every set of names in the bounds", "for every pattern up to three parts on every tree"],
  "viscid.vutil, viscid.readers.load_files", "tests glob one set of names",
  ["viscid/vutil.py", "viscid/readers/__init__.py", "viscid/sliceutil.py"],
  [("slice_globbed_filenames", "viscid/vutil.py"), ("glob2", "viscid/vutil.py"), ("resolve_path", "viscid/vutil.py"), ("find_item", "viscid/vutil.py"), ("load_files", "viscid/readers/__init__.py")],
  "explicit-state enumeration of names, slices, patterns and trees on the real code",
  "every enumerated name and pattern gives exactly what it stands for",
  ["slice_globbed_filenames", "glob2", "resolve_path", "load_files"]),
    P("V35", "Plots show the values of fields and lines where they are, and change neither", "A plot of a field shows each value at its own place: pcolor and pcolormesh fill the cell of a value (of a node centered field, the one that reaches halfway to its neighbours), contours pass just where the values, taken as linear between neighbouring places, cross their levels (those of a cell centered field are drawn out to the edge), lines go through each pair of place and value, maps put a value at its longitude and distance from the pole of their hemisphere, arrows and streamlines take both components in the plane at their own places, and colored lines and points take the colors and values given for them, on every patch of a field, for times as for numbers, and after a selection. The options of doc/plot_options.rst (scale, mod, flip_plot, x, y, tightlim, vmin, vmax, clim, lin, log, loglog, symmetric, norescale, levels, labels, titles, color bar, legend) do what they say, alone and together, the same as keywords and as plot_opts strings; and no plot changes the values or coordinates of the field, the lines, the scalars or the options it was given.",
  ["every combination of an option for the scale of values with one for geometry, each style and centering", "every type of values, with and without NaN", "lines of every length with every kind of scalars, subsampling, plane and flip", "every hemisphere, units and kind of map"],
  "2-D and 1-D plots, maps, arrows, streamlines, lines and points of viscid.plot.vpyplot with matplotlib's Agg backend", "the tests draw plots without looking at what they show", ["viscid/plot/vpyplot.py", "viscid/vutil.py", "viscid/mapfield.py"],
  [("plot2d_field, plot1d_field, plot_opts_to_kwargs", "viscid/plot/vpyplot.py"), ("plot2d_lines, plot3d_lines, scatter_2d, plot2d_quiver, streamplot", "viscid/plot/vpyplot.py"), ("plot2d_mapfield, plot_iono", "viscid/plot/vpyplot.py"), ("prepare_lines, subset_lines", "viscid/vutil.py"), ("as_polar_mapfield", "viscid/mapfield.py")],
  "bounded exhaustive enumeration of plots, read back from matplotlib's own objects", "the same cells, crossings, places, values, colors and limits as those computed from the arrays, and unchanged arguments", ["plot2d_field", "plot1d_field", "plot2d_lines", "plot2d_mapfield", "prepare_lines"]),
]

NOT_APPLICABLE = []
