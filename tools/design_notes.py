"""What DESIGN.md says of each property besides what the checks' own attributes say"""
NOTES = {
    "V01": ["Oracle: NumPy's basic indexing of the array and of every axis' nodes or cell bounds, spelled out in the check; the outcome "
            "of every accepted spelling of one selection must be the same.",
            "Beyond tests: they select a dozen times; here every start, stop and step, in every combination of axes, is taken."],
    "V02": ["Oracle: the same assignment on a plain array of indices; every element not named keeps its value."],
    "V05": ["Oracle: the set of places (nodes, or cells' centers, or cells which hold a place) inside of the range, from the field's coordinates "
            "alone. Ends lie on, between and beyond the coordinates, with and without units and time steps.",
            "Not judged: what rounding decides (a place within 1e-9 of an end)."],
    "V06": ["Explicit-state breadth-first search: states are the items, handles and counts; the model is a list of (item, handles, count)."],
    "V07": ["Explicit-state breadth-first search over loading, reloading and unloading real files; the model counts references by true path."],
    "V08": ["The model is the whole array as written; every partial read, in every order with cached reads, is compared with it."],
    "V12": ["Explicit-state search over activation, iteration and clearing; times are enumerated with ties, and between and beyond steps."],
    "V13": ["Known: layout-guess (below): a loaded vector field on a grid whose axes all have three values can not be told apart."],
    "V14": ["Schedules: gates (pipes) in the tasks make them finish in every order; threads, processes and in place, and with failing tasks. "
            "Chunking is enumerated by numbers of elements and chunks."],
    "V15": ["The lines of every division of the seeds are compared with those of the seeds traced alone; which worker is first cannot matter if "
            "each chunk's lines depend on its own seeds only, which is what is enumerated."],
    "V16": ["Oracle: interpolation in plain NumPy. Places follow one another in a walk that has every ordered pair, since the compiled "
            "code starts its search at the cell found last (hidden state): the schedule of queries is what is enumerated."],
    "V17": ["Every step of every line is recomputed, and the end compared with the reason reported."],
    "V18": ["Not judged: selections at a place where one patch begins while others end there elsewhere (the documented treatment of shared faces)."],
    "V19": ["Oracle: exact fractions of seconds since 1970 (fractions.Fraction)."],
    "V21": ["Every backend that is installed must agree with the operation on plain arrays."],
    "V22": ["Oracle: central differences written element by element with the field's own nodes; polynomials for which they are exact."],
    "V25": ["Known: a2b-inplace (below). The angles have those at which representations degenerate."],
    "V26": ["Oracle: the textbook rotations between the systems in plain Python, at a menu of times (leap days, epochs, before 1900, fractions)."],
    "V28": ["Graphs of ordered parent lists with every placement of a key; then a search over sequences of changes to a real tree."],
    "V29": ["Not judged: places on the very edge of bounding_lat."],
    "V30": ["Files are written by the check itself, not with the library."],
    "V31": ["The check composes each document from choices, which are also what it expects of it."],
    "V32": ["Not claimed: get_sep_pts_bisect where several separators cross one map (a heuristic); topology_bitor_clusters of periodic maps "
            "deeper than 1; the mean place of clusters that wind around the torus."],
    "V33": ["Polynomial fields for which the differences are exact."],
    "V35": ["What was drawn is read from matplotlib (corners and colors of cells, vertices of contours, segments, offsets, norms, limits, labels), never from pixels; streamplot and the like are compared through the arguments that reach matplotlib.", "Square sets of colors and lines with as many points as an rgb color has parts are ambiguous in the code itself and left out."],
    "V27": ["The oracle works on plain arrays with components first, and knows nothing of layouts."],
    "V09": ["With fractions in names, a star just before the slice can take part of the number: not judged."],
    "V34": ["A linear field is interpolated exactly, so that dipole_map_value has one right answer at each place."],
}
# id: (caught by, at first)
SEEDS = {s: (p, "missed; the check was strengthened") for s, p in (
    ("s04", "V06"), ("s07", "V28"), ("s09", "V10"), ("s13", "V21"), ("s14", "V18"), ("s16", "V20"), ("s19", "V28"), ("s24", "V29"), ("s25", "V30"),
    ("s26", "V31, V18"), ("s27", "V32"), ("s29", "V13"), ("s30", "V34"))}
