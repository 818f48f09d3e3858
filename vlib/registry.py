"""Which group of checks decides which property."""
GROUPS = {
    "C01": "segmentation", "C02": "segmentation",
    "C03": "candidates", "C04": "candidates",
    "C05": "correspondence", "C06": "correspondence", "C07": "correspondence",
    "C08": "pixelsearch", "C09": "pixelsearch",
    "C10": "tracking", "C11": "tracking", "C12": "tracking", "C13": "tracking", "C14": "tracking", "C15": "tracking",
    "C16": "files", "C17": "files", "C18": "files", "C19": "params", "C20": "params",
    "C21": "calibration", "C22": "grid", "C23": "orient", "C31": "orient",
    "C24": "triangulation", "C25": "refraction", "C26": "conversions", "C27": "mmlut", "C28": "volume",
    "C29": "ring", "C30": "isolation",
    "C32": "accessors", "C33": "images", "C34": "blocks", "C35": "pipeline",
}
LEVEL = {}
# technique and level note per group
NOTES = {
    "segmentation": (
        "TLA+ specification of spots as a state machine, exhaustively model-checked with TLC; recorded calls of the "
        "detector decided record by record by TLC against it",
        "Exhaustive for the specification on all small images; for the code: every recorded call (hundreds of images "
        "per run, with limits placed exactly on occurring values) is compared with the specified target list. "
        "Trusts the driver that records results and the fixed-point rounding of centres (0.002 pixel)."),
    "candidates": (
        "TLA+ specification of candidate search (exact integer geometry) model-checked with TLC, with a model of the "
        "truncated binary search over every list length class; recorded searches and pair lists decided by TLC",
        "Exhaustive for the specification on a small lattice and for the search start on the listed sizes; for the "
        "code: every recorded search is compared with the specified candidates. End points of pair-list lines come "
        "from an independent ray tracer (trusted); targets within 4 micrometres of a limit are undecided there."),
    "correspondence": (
        "TLA+ specification of matching (cliques, ratings, greedy order) model-checked with TLC; recorded whole runs "
        "and single stages of the matching decided by TLC as legal results",
        "Exhaustive for the specification over all small candidate graphs of three cameras and sampled ones of four; "
        "for the code: every recorded result is judged complete against all possible matches of its candidate lists. "
        "The lists of whole runs are those the code's own pairing returns (decided separately by C03 and C04)."),
    "pixelsearch": (
        "TLA+ specification of window search and merging as state machines, model-checked with TLC (the truncated "
        "binary search over every list length class); recorded searches and merges decided by TLC",
        "Exhaustive for the specification on small images; for the code: every recorded search and merge is compared "
        "with the specified result, each target of long lists is searched for."),
    "tracking": (
        "TLA+ specification of a tracking step (search, rating, competition, adding), of the sliding window of frames and "
        "of backward tracking, model-checked with TLC; recorded steps, runs and backward runs decided by TLC",
        "Exhaustive for the specification on small frames; for the code: every recorded step is re-derived from the "
        "frames before it. Projections and triangulations of the records come from an independent ray tracer (trusted); "
        "particles whose searches or limits are closer than the numerical margin are counted as undecided."),
    "files": (
        "TLA+ specification of the result and target files as a state machine over stored lines (write, read, damage), "
        "model-checked with TLC; recorded histories of writing, damaging and reading files decided by TLC step by step",
        "Exhaustive for the specification over short histories of small frames; for the code: every read of hundreds of "
        "histories is compared with what the specified files hold then. Damage is by whole lines or whole fields."),
    "params": (
        "TLA+ specification of the layouts of all parameter files, of their defaults and of equality, model-checked with "
        "TLC; recorded reading, writing, conversion and comparison of parameters decided by TLC field by field",
        "Exhaustive for the specification over all kinds and camera counts; for the code: every kind, reader and camera "
        "count with distinct values in all fields, every single field varied in comparisons."),
    "calibration": (
        "TLA+ specification of calibrations as a state machine (setters, refreshed matrix, files, comparison), model-checked "
        "with TLC; recorded histories of calibrations decided by TLC step by step",
        "Exhaustive for the specification over short histories of two calibrations; for the code: every getter of every "
        "calibration after each step of hundreds of histories. Rotation matrices are compared with exact integer ones for "
        "Pythagorean angles and with the written-out product of three rotations otherwise."),
    "grid": (
        "TLA+ specification of sorting dots to known points (window, nearest dot, each dot once), model-checked with TLC; "
        "recorded sortings decided by TLC",
        "Exhaustive for the specification on small grids; for the code: every recorded sorting is compared with the "
        "specified one. Projections come from an independent ray tracer (trusted); near-equal distances are undecided."),
    "ring": (
        "TLA+ specification of the frame buffer (ring, queue and disk) model-checked with TLC; recorded histories of "
        "the real buffers decided by TLC step by step",
        "all histories within the model's bounds; random longer histories of the real buffers"),
    "accessors": (
        "TLA+ specification of the data objects as records with setters, getters and comparison, model-checked with TLC; "
        "recorded histories of real objects, sortings and views of frames decided by TLC step by step",
        "Exhaustive for the specification over short histories of two objects of each kind; for the code: every field of "
        "every object after each step of hundreds of histories, and every single field in which two objects may differ."),
    "images": (
        "TLA+ specification of image preparation in exact integer arithmetic, model-checked with TLC on all small images; "
        "recorded prepared images decided by TLC pixel by pixel",
        "Exhaustive for the specification on 3x3 images; for the code: every pixel of hundreds of images. Means may differ "
        "by the two roundings, so an error below two grey values in a mean is not seen."),
    "pipeline": (
        "TLA+ specification of what the whole chain owes (unambiguous scenes, groups of images, steps of trajectories), matching and "
        "following as state machines model-checked with TLC; whole runs of the real program on rendered images, through its files, "
        "decided by the specification",
        "Exhaustive for the specification on small scenes; for the code: every rendered scene from images to trajectories."),
    "blocks": (
        "TLA+ specification of blocks and choices of points, with the search of the choice as state machine, model-checked "
        "with TLC; recorded reading of generated files decided by TLC",
        "Exhaustive for the specification on small blocks and all choices; for the code: every generated file."),
    "isolation": (
        "TLA+ specification of separate objects and repeated computations, with a twin that shares state, "
        "model-checked with TLC; recorded histories of real objects and calls decided by TLC",
        "all public records and about 50 public functions, random histories"),
    "orient": (
        "TLA+ specification of orientation (selection of points, free parameters, work on a copy, least squares optimum) "
        "model-checked with TLC together with a twin run; recorded orientations decided by TLC",
        "Exhaustive for the specification on a reduced camera; for the code: every recorded orientation is judged by what "
        "must not change, by a twin run with other unused dots, and by the objective against an independent optimiser "
        "(trusted). Accuracies below the stated tolerances are not judged."),
    "triangulation": (
        "TLA+ specification of positions from rays in exact integer geometry (midpoints of skew lines, pairs of seeing cameras), "
        "model-checked with TLC; recorded reconstructions decided by TLC",
        "Exhaustive for the specification over all small ray sets and visibilities; for the code: lattice scenes compared "
        "exactly, scenes with refraction with rational angles; the order of cameras, subsets and batches varied."),
    "refraction": (
        "TLA+ specification of refraction with Pythagorean angles (exact sines, tangents and positions) model-checked with TLC; "
        "recorded rays, transformations and projections decided by TLC",
        "Exhaustive for the specification over all listed angles and thicknesses; for the code: hundreds of scenes with exact "
        "integer answers, and hundreds of general scenes against an independent ray tracer (trusted). Projections are judged "
        "to 0.003 mm in the object space, since the code iterates to 0.001 mm."),
    "conversions": (
        "TLA+ specification of pixel, metric and flat coordinates and of the sorted coordinate list in exact rationals, "
        "model-checked with TLC; recorded conversions and lists decided by TLC",
        "Exhaustive for the specification over small images, distortions and lists; for the code: exact rational images and "
        "distortion terms one by one, general distortion against an independent model (trusted)."),
    "mmlut": (
        "TLA+ specification of the table lookup (cells, bounds, bilinear weights in exact sixteenths), model-checked with TLC over "
        "a position that wanders across all small tables; recorded lookups and table builds decided by TLC",
        "Exhaustive for the specification over all tables up to 3 x 3 with small entries; for the code: lookups on nodes, edges, "
        "inside and outside of hundreds of tables with exact answers, built tables against independent values."),
    "volume": (
        "TLA+ specification of the volume (rays widening a box) and of lines between tilted layers in exact rationals, "
        "model-checked with TLC; recorded volumes, lines, curves and single-camera positions decided by TLC",
        "Exhaustive for the specification over all sets of few lattice rays; for the code: hundreds of scenes with exact "
        "rational crossings, and of general scenes with crossings of an independent ray tracer (trusted)."),
}
