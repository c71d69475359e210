"""Per property: the oracle, and why the search reaches what the tests cannot."""
NOTES = {
'P01': """*Oracle*: a number is an integer k in units of the resolution; `model_text` writes k by positional notation
alone.  Encoding is compared with it, decoding of every padding of it with k.  All 42 formats x 2 zero modes are
enumerated with generated numbers (trailing and leading zeros, extremes, off-grid fractions); the tests have a table of 30
values in one format.  Unit `statement` reaches the codec through the statement classes of both file types.""",
'P02': """*Oracle*: the generator executes RS-274X while it writes the program: each command's effect on position,
aperture, modes and contour is computed when it is emitted, in integers.  The objects read are compared one by one,
in order, with all parameters (including holes, polarity, units, quadrant mode).  Modal omissions make the result depend
on long histories the tests' example files do not contain.""",
'P03': """*Oracle*: round trip (image before = image after, half a unit of the last place after changes) and stability of
the second write, byte for byte.  Programs have macros of all primitive kinds with shared parameters.""",
'P04': """*Oracle*: expression trees are evaluated in exact fractions; the text is rendered from the tree with only the
parentheses precedence needs.  Unit `file` declares several apertures on shared macros and checks that no evaluation
affects another.""",
'P05': """*Oracle*: the specification's shapes as plane geometry (`geom.py`); sample points inside and outside the shape, those
nearer to an edge than a margin excluded, must be in exactly one of both.  Conversions, offsets and moves are
metamorphic: the same points, transformed, must be decided the same way.""",
'P06': """*Oracle*: metamorphic; the plain layout's objects (themselves compared with the model) must be those of the rewritten
text, through text, path and generic reader, and through an include file.""",
'P07': """*Oracle*: an object freshly built from scaled parameters; every parameter and every derived value is compared after
each step of a history of conversions, reads and offsets.  Unit `shared` gives several objects one aperture, unit `file`
converts whole files.""",
'P08': """*Oracle*: an object freshly built at the translated place; files: every coordinate of the model translated, and the
text written after the offset reads back as the translated image.""",
'P09': """*Oracle*: the in-place change on a second reading of the same text.  All observable parts of all files so far
are recorded before and compared after each operation and after later edits of any of them.""",
'P10': """*Oracle*: analytic extremes of the drawn area from parameters alone, and sampled points of the outline, which
have to lie in the box and touch each side of it.  Files: the extent of the coordinates the program gives.""",
'P11': """*Oracle*: a freshly built object with the parameters the history leads to.  Derived values are cached in the code
under test, so the order of reads and changes matters; the tests read after one change at most.""",
'P12': """*Oracle*: the generator executes the Excellon commands in exact fractions while writing them: formats, zero modes,
decimal points, incremental mode, repeats, G85 slots, routs, tools from headers, comments, definition files and settings
files.""",
'P13': """*Oracle*: the model of tools and holes, taken through the same operations, to half a unit of the last place.""",
'P14': """*Oracle*: counts, lengths and boxes computed from the model; the report is parsed by columns.""",
'P15': """*Oracle*: what the program states; what it does not state must be the best candidate of an independent ranking
(ties within 1e-6 accepted).""",
'P16': """*Oracle*: the values the columns were written from, for every record kind, with optional fields absent, blank or short
lines; derived listings are recomputed from the records.  Rendering of a side is compared with the accessible records.""",
'P17': """*Oracle*: the class of reader and the equality of what it read with the format's own reader; other texts must raise
ParseError, leaving the directory as it was.""",
'P18': """*Oracle*: a table of the documented name conventions, written independently; views recomputed from classes and numbers;
directory snapshot before and after.""",
'P19': """*Oracle*: round trip through text, and an independent scan of the text for the definitions (each used aperture defined
once, before use, identical ones shared).""",
'P20': """*Oracle*: every pixel of the PNG.  For each pixel centre the stack of objects is decided by plane geometry (dark adds,
clear removes, holes stay open, a macro flash is one object), then colours are blended over the background.  Pixels whose
decision could be changed by an edge nearer than 0.8 pixels are skipped.  Three stored pictures is all the tests have.""",
'P21': """*Oracle*: the defining properties in exact integer arithmetic (hulls), and in fractions (decimal text).""",
'P22': """*Oracle*: a reference state machine of five fields; refused assignments must change nothing.""",
'P23': """*Oracle*: the model of the holes (rendered in order or shuffled), an independent scan of the header, and the state of
the tool (down or up) along the text.""",
'P24': """*Oracle*: the pixel oracle of P20 applied to the pictures that a command line leaves behind, with the documented stack of
each view and theme table; which files exist is checked as well.""",
'P25': """*Oracle*: the generator's own list of commands, turned into expected statements without the code under test; lengths
are marked, so that a conversion scales exactly them.  What P02 and P03 check is the image; here everything else a file
carries is checked, which has no effect on the image and so no effect on any other property.""",
'P26': """*Oracle*: the generator records, for every command it emits, how many objects the program has defined by then; after
the cut exactly these must be read.  A parser that looks ahead, that finishes objects late, or that loses what is pending at
the end of the data differs.""",
'P27': """*Oracle*: all observable parts of every file are recorded after it is read or changed, and compared after each
later step; each content is read again during and at the end of the history and compared with the first reading.  State kept
in classes, modules, default arguments or shared objects shows up as a difference.""",
'P28': """*Oracle*: each line of a generated drill program is decoded by an independent, line-local decoder into the
statement it stands for (exact rational numbers, lengths and coordinates marked as such).  The statements of the file read are
compared with these; conversions and offsets are applied to both; each statement is then written with the settings of the file
and read by its own class; and the file is written and read and its header compared.  Statements that outgrew the format are
not written.""",
'P29': """*Oracle*: a table of what each generated line states, and the precedence of the sources written out once more (program,
comment, supplied, default).  The same supplied tools and settings are used for two readings, with a conversion or a change of
a tool between them.""",
'P30': """*Oracle*: the parameters the objects were built from.  A pair is built alike or with one thing changed, which is
known; macro merging in the Gerber writer and the planning of tools rest on these comparisons, but P19 and P23 only see
mistakes in them that merge two shapes of one file.""",
'P31': """*Oracle*: a table of the ranges, written down from the documentation and the limits the constructors state.  Values
are drawn at, next to and beyond each limit; after a refusal every attribute of the context (and of another one) is compared
with what was accepted last.  The settings object, which has the most such fields, has P22 to itself.""",
'P32': """*Oracle*: a model of the picture (bounds, scale, background and stack of layers since the last clearing), judged pixel
by pixel with the geometry of P20, and the same drawings made again on a new context, whose picture must be the same bytes.
P20 and P24 draw with fresh contexts in the ways the command does; here anything may come before.  It found that one
mirrored layer mirrored everything drawn after it.""",
'P33': """*Oracle*: the model of P13 and P14, edited along with the file.  The optimizer among the repository's examples works
this way (it replaces the list of holes, then writes and reports), and so does whoever merges programs for a panel.  It found
counts kept from reading, and tools sharing one settings object of which only the first was converted.""",
'P34': """*Oracle*: for objects, the parameters they have by then, from which fresh ones are built (as in P07, P08 and P10); for
statements, a list of their coordinates and comments.  It found that a layer kept the list of objects its file had at first
while its bounds followed the file.""",
}
