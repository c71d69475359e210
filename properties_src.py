prop("P01", "Coordinate numbers survive encoding and decoding in every format",
 "For every number format up to 6 integer and 7 fractional digits, either zero-suppression mode and either sign, encoding a value that fits the format and decoding the result returns that value rounded to the format's resolution, and the encoded text obeys the format (only digits and an optional minus sign, no more digits than the format has, the suppressed zeros absent, '0' for zero). Decoding follows the positional rule exactly: missing digits are restored on the suppressed side, a leading '+' or '-' only sets the sign, and a number with an explicit decimal point is taken literally in every format. Formats beyond 6:7 are refused with ValueError by both directions.",
 ["inputs", "configurations"], "All values representable in a format x all formats <= 6:7 x zero suppression mode x sign; all digit strings of legal length.",
 "Tests check one fixed table of about ten values for format 2:5 and 2:4; the other 50 formats, negative values, and rounding boundaries are never reached.",
 ["gerber/utils.py"], [("parse_gerber_value / write_gerber_value", "gerber/utils.py"), ("CoordStmt.from_dict/to_gerber, CoordinateStmt.from_excellon/to_excellon", "gerber/gerber_statements.py, gerber/excellon_statements.py")])

prop("P02", "A Gerber file is interpreted as the image the RS-274X rules define",
 "Reading any well-formed RS-274X program yields, in order, exactly the graphical objects the format defines: draws, arcs, flashes and contour regions with the right positions, aperture shape and size, polarity, units and interpolation mode, where every modal setting (position, each axis separately, operation, aperture, interpolation and quadrant mode, polarity, region mode, absolute/incremental notation) carries over until changed. The file-level units, number format, zero suppression and notation reported equal those declared in the file. No object is lost, duplicated or invented.",
 ["programs"], "All generated RS-274X statement programs over the supported command set, formats, units and aperture templates.",
 "Tests read a handful of fixed example boards and count statements or check bounds; they do not vary modal-state histories, formats or arc/region combinations.",
 ["gerber/rs274x.py", "gerber/gerber_statements.py"], [("GerberParser state machine", "gerber/rs274x.py"), ("statement decoding", "gerber/gerber_statements.py")],
 ["GerberFile.primitives", "GerberFile.settings"], [("modal state", "current point, operation, aperture, interpolation, quadrant mode, polarity, region mode", "gerber/rs274x.py GerberParser")])

prop("P03", "Writing a Gerber file and reading it back preserves the image",
 "Reading a Gerber file, writing it out and reading the result gives the same sequence of graphical objects (position, shape, size, polarity, units) to within the file's coordinate resolution, and the same file settings; this also holds after a unit conversion or offset was applied before writing. Writing is stable: writing the re-read file produces the same text again.",
 ["programs", "histories"], "All generated RS-274X programs x optional to_inch/to_metric/offset before the write.",
 "Tests only check individual statements' text for a few fixed values and that writing does not raise for one or two files.",
 ["gerber/rs274x.py", "gerber/gerber_statements.py", "gerber/am_statements.py"], [("to_gerber of every statement", "gerber/gerber_statements.py"), ("GerberFile.write", "gerber/rs274x.py"), ("aperture macro primitives' to_gerber", "gerber/am_statements.py")])

prop("P04", "Aperture macro expressions evaluate to ordinary arithmetic",
 "For every aperture macro, each primitive's modifiers evaluate to the value of the written expression under ordinary arithmetic (multiplication and division before addition and subtraction, left to right, parentheses first, unary minus), with $n bound to the n-th aperture parameter, 0 when not given, or the latest $n= assignment. Assignments affect only later primitives of the same aperture, and evaluating a macro for one aperture never affects another aperture using the same or another macro.",
 ["programs"], "All generated macro programs (nested expressions, variables, assignments) x aperture parameter lists x several apertures per macro.",
 "Tests evaluate only three to five fixed tiny programs; precedence, nesting, subtraction and repeated instantiation are not varied.",
 ["gerber/am_read.py", "gerber/am_eval.py", "gerber/gerber_statements.py"], [("read_macro compiler", "gerber/am_read.py"), ("eval_macro stack machine", "gerber/am_eval.py"), ("AMParamStmt.build", "gerber/gerber_statements.py")])

prop("P05", "Aperture macro primitives describe the shapes of the specification",
 "Each aperture macro primitive (circle, vector line, centre line, lower-left line, outline, polygon, thermal; moiré is not supported) flashed at a point covers exactly the area the Gerber specification defines for its modifiers, including its position and rotation about the macro origin, in both units. The flashed group's bounding box is the union of the boxes of its members, and converting units or moving the flash moves and scales every member alike.",
 ["inputs"], "All generated primitive modifier lists (sizes, centres, rotations, vertex counts) x flash positions x units.",
 "Tests check the modifiers' storage and text form only; the produced geometry is not compared to the specification anywhere.",
 ["gerber/am_statements.py", "gerber/primitives.py", "gerber/gerber_statements.py"], [("to_primitive of each macro primitive", "gerber/am_statements.py"), ("AMGroup / Outline", "gerber/primitives.py")])

prop("P06", "Layout, comments and unsupported commands do not change a Gerber image",
 "The image read from a Gerber program does not depend on how it is laid out: splitting or joining lines, the line-ending style, several commands in one extended-command block versus one each, leading zeros in function codes, explicit versus modal repetition of unchanged coordinates, and inserted comments or attribute/unsupported commands all leave the objects unchanged. Reading from a file, from text, or through the generic reader gives the same result.",
 ["programs"], "All generated RS-274X programs x random layout-preserving rewrites.",
 "Tests use fixed files each with one layout.",
 ["gerber/rs274x.py", "gerber/common.py"], [("GerberParser._split_commands and statement regexes", "gerber/rs274x.py"), ("loads/read dispatch", "gerber/common.py")])

prop("P07", "Unit conversion scales every dimension by exactly 25.4 and nothing else",
 "Converting any graphical object or Gerber file between inch and millimetre multiplies or divides every length (positions, sizes, apertures, hole sizes, bounding boxes) by 25.4, leaves angles, counts, polarity and order alone, and changes the reported units; converting to the units already in use changes nothing, and converting there and back restores the original values. This holds whatever was read from or done to the object before the conversion, and for objects sharing an aperture.",
 ["inputs", "histories"], "All primitive kinds with generated dimensions; all generated Gerber programs; sequences of conversions interleaved with reads and offsets.",
 "Tests convert one or two fixed instances of each primitive and check a few attributes.",
 ["gerber/primitives.py", "gerber/rs274x.py", "gerber/gerber_statements.py"], [("Primitive.to_inch/to_metric and _to_convert", "gerber/primitives.py"), ("GerberFile.to_inch/to_metric", "gerber/rs274x.py")])

prop("P08", "Offsetting translates the geometry and does nothing else",
 "Offsetting a graphical object, Gerber file or drill file by (dx, dy) moves every point of it, and its bounding box, by (dx, dy), up to floating-point rounding, keeping shape, size, order, polarity, tool and units; offsets compose by addition and an offset by the opposite vector restores the original. The written form of an offset file describes the same translated image.",
 ["inputs", "histories"], "All primitive kinds, generated Gerber and Excellon files, sequences of offsets interleaved with reads.",
 "Tests offset one fixed instance of each primitive by (0,1) and (1,0).",
 ["gerber/primitives.py", "gerber/rs274x.py", "gerber/excellon.py"], [("offset methods", "gerber/primitives.py, gerber/rs274x.py, gerber/excellon.py")])

prop("P09", "File operations return changed copies and leave their input alone",
 "The file-level operations (convert to inch, convert to metric, offset) return a new file that equals the result of applying the same change in place, and leave every observable part of the original file — objects, statements, units, bounds, written text — exactly as it was; later changes to the result never show in the original or the reverse.",
 ["inputs", "histories"], "All generated Gerber and Excellon files x operation sequences.",
 "The operations module has a single import-level test; aliasing between source and result is not examined.",
 ["gerber/operations.py"], [("deepcopy then in-place change", "gerber/operations.py")])

prop("P10", "Bounding boxes enclose the drawn shape tightly",
 "For every graphical object, in any position, size and rotation, the reported bounding box is the smallest axis-aligned rectangle enclosing the area it draws, including stroke width and arc extremes (regular polygons count with their circumscribed circle, chamfered and rounded rectangles with the uncut rectangle), and reported vertices are those of the drawn outline. A Gerber file's bounding_box is the union of its objects' boxes, its bounds the extent of its coordinates, and its size the extent of its bounds.",
 ["inputs"], "All primitive kinds with generated geometry (rotations, all arc quadrants and directions, aperture shapes).",
 "Tests check a few hand-picked values, mainly unrotated or right-angled.",
 ["gerber/primitives.py", "gerber/rs274x.py", "gerber/excellon.py"], [("bounding_box of every primitive", "gerber/primitives.py"), ("file bounds", "gerber/rs274x.py, gerber/excellon.py")])

prop("P11", "Derived geometry never goes stale when an object is changed",
 "After any sequence of changes to a graphical object (moving, resizing, rotating, replacing its aperture, offsetting, converting units) interleaved with reads, every derived value (bounding box, vertices, corner points, angles, radius) equals the one computed by a freshly built object with the same parameters. Equality of two objects depends on their parameters alone, never on which derived values were read before.",
 ["histories"], "All primitive kinds x generated sequences of setter, offset, conversion and read operations.",
 "Tests change one attribute once on a few classes; cached values after read-change-read histories are hardly covered.",
 ["gerber/primitives.py"], [("memoised bounding boxes and vertices, _changed()", "gerber/primitives.py")])

prop("P12", "A drill program yields exactly the holes and slots it commands",
 "Reading any well-formed Excellon program yields, in order, exactly the holes and slots commanded, each with the right position, size and tool, where units, number format, zero mode, absolute/incremental mode, current tool, each axis of the position, and drill/rout mode carry over until changed, and repeat commands expand to the right holes (one unit per program, stated before the tools). The tool table lists every declared tool with its declared parameters.",
 ["programs"], "All generated Excellon programs over the supported header, tool, coordinate, repeat, slot, rout and mode commands.",
 "Tests read two example boards and a few single statements.",
 ["gerber/excellon.py", "gerber/excellon_statements.py", "gerber/excellon_tool.py"], [("ExcellonParser state machine", "gerber/excellon.py"), ("statement decoding", "gerber/excellon_statements.py")])

prop("P13", "Writing a drill file and reading it back preserves tools and holes",
 "Reading a drill file, writing it and reading the result gives the same tools (number, diameter, feeds, speeds, offsets) and the same multiset of holes and slots per tool, to within the coordinate resolution; this also holds after a unit conversion, offset or tool change was applied before writing, for values that fit the file's number format.",
 ["programs", "histories"], "All generated Excellon programs x optional conversion/offset/tool update before the write.",
 "One test writes one example and compares line sets.",
 ["gerber/excellon.py", "gerber/excellon_statements.py"], [("ExcellonFile.write", "gerber/excellon.py"), ("to_excellon of every statement", "gerber/excellon_statements.py")])

prop("P14", "Drill file reports, counts, lengths and bounds agree with the holes",
 "For every drill file, the per-tool hit counts equal the number of holes of that tool, a slot counting as one, the path length of a tool equals the length of its path from the origin through its holes and slots (each slot from start to end), zero or absent for an unused tool, the bounding box is the smallest rectangle enclosing all holes and slots at full tool diameter, and the textual report lists each tool with its size and hit count. Changing a tool sets exactly what is given, zero included, and unit conversion scales all of these together.",
 ["programs"], "All generated Excellon programs.",
 "Tests check these for one example file.",
 ["gerber/excellon.py"], [("report, hit_count, path_length, bounds, to_inch/to_metric", "gerber/excellon.py")])

prop("P15", "Number format detection honours what the drill file states",
 "For every drill file whose header states its units, zero mode or number format, detection returns those and reading honours them; what has to be inferred is the candidate (of zero mode and format) under which the file reads and which the plausibility score ranks best, and detection is deterministic and independent of whether a name or the text is given.",
 ["inputs"], "All generated Excellon programs with and without explicit header information.",
 "Tests run detection on two example files.",
 ["gerber/excellon.py"], [("detect_excellon_format", "gerber/excellon.py")])

prop("P16", "An IPC-D-356 netlist is decoded field by field as recorded",
 "Reading any IPC-D-356 file yields one test record per record line with the net name (aliases resolved), reference, pin, hole size, plating, feature size, rotation, access side, solder-mask and location exactly as encoded in its columns and scaled by the file's units, plus all conductors, outlines and adjacency lists with continuation lines joined. The net, component and via listings are exactly those occurring in the records (blank names are not nets or components). Drawing one side of the netlist draws the records accessible from that side.",
 ["inputs"], "All generated netlists (record kinds, optional fields, units, net aliases, continuation lines).",
 "Tests read one example file and a few fixed records.",
 ["gerber/ipc356.py"], [("record decoding", "gerber/ipc356.py"), ("parser with alias substitution", "gerber/ipc356.py")])

prop("P17", "Every supported file is recognised and anything else is rejected cleanly",
 "Text of a Gerber, Excellon or IPC-D-356 file is always dispatched to its own reader, by content (a %FS specification, a line starting with M48, or a P JOB line), whatever its name, whatever precedes the marker, and whatever its comments, names and attributes mention; any other text is refused with the documented parse error and no other effect. Reading the same content from a path or as text gives equal results.",
 ["inputs"], "All generated files of the three formats plus arbitrary text.",
 "Tests check detection on three example files and one failure case.",
 ["gerber/common.py", "gerber/utils.py"], [("detect_file_format, read, loads", "gerber/common.py, gerber/utils.py")])

prop("P18", "Board assembly keeps every layer, in stack-up order",
 "Loading a directory as a board gives each CAM file exactly once under the layer class its name implies, and the ordered views contain exactly the layers of their classes: all layers from the outline and top side to the bottom side, top and bottom views from the copper outwards with the drills of that side right after the copper, copper layers from bottom to top with inner layers in numeric order of the number in their layer name. Drill files are drill layers and netlists netlist layers whatever their name. Counts and board outline/bounds (the outline's, else the top layer's) agree with those layers; hidden, system, unreadable and unrecognised files (and only those) are skipped without failing the load, and the directory is left as it was. A board is called what it is told to be, else what the names of its files have in common before the parts that tell their layers, else after its directory.",
 ["inputs", "configurations"], "All generated sets of file names (name hints, extensions, internal layer numbers) and contents.",
 "Tests classify a fixed list of names and load one example board.",
 ["gerber/layers.py", "gerber/pcb.py"], [("guess_layer_class, sort_layers, PCBLayer.from_cam", "gerber/layers.py"), ("PCB.from_directory and views", "gerber/pcb.py")])

prop("P19", "Regenerating a Gerber file from its objects preserves the image",
 "Rendering any list of graphical objects that Gerber can express (lines, arcs, regions, flashes, macro groups) through the Gerber-writing back end, under settings in the objects' units, and reading the produced text gives the same objects again: same order, positions, apertures with their holes, polarity and regions to within coordinate resolution, with the configured units and format; every aperture used is defined exactly once before use and identical apertures share one definition. Rendering leaves the objects as they were, and taking the text before all of them are rendered gives those rendered so far and changes nothing.",
 ["inputs"], "All generated primitive lists x settings.",
 "Tests cover single primitives with one fixed expected string each.",
 ["gerber/render/rs274x_backend.py"], [("Rs274xContext", "gerber/render/rs274x_backend.py")])

prop("P20", "A rendered image is dark exactly where the objects say",
 "In every picture rendered with the cairo back end, each pixel away from edges shows the layer's colour if and only if the layer's objects, drawn in order (dark adds, clear removes; holes stay open; a macro flash acts as one object whose cut-outs only cut itself), cover its point, with inversion swapping the two and mirroring reflecting the layer left to right; several layers are blended in order with their colours and opacities over the background, at one common scale and origin whatever their units, with outline and drill layers mirrored together with the others. The picture's size follows from the first layer's bounds and the scale that makes all layers fit, drawing the same input twice gives the same picture, and the picture is the same whether it is saved to a file or returned, as bytes, or as SVG text.",
 ["inputs"], "All generated object lists (all shapes read from files, arcs, regions, holes, polarities), Gerber programs and stacks of Gerber and drill layers x scales, origins, themes, units, inversion, mirroring.",
 "Tests compare three fixed scenes against stored images.",
 ["gerber/render/cairo_backend.py", "gerber/render/render.py", "gerber/render/theme.py"], [("GerberCairoContext", "gerber/render/cairo_backend.py"), ("Theme", "gerber/render/theme.py")])

prop("P21", "Geometry helpers agree with their definitions",
 "For every input, the convex hull of a point set is convex, made only of input points and encloses all of them; rotation about a centre preserves distance to it and adds angles; unit conversion functions are mutual inverses; decimal text of a number differs from it by less than one unit of its last printed place.",
 ["inputs"], "All generated point sets, angles, numbers.",
 "Tests use one or two fixed examples.",
 ["gerber/utils.py"], [("convex_hull, rotate_point, inch/metric, decimal_string", "gerber/utils.py")])

prop("P22", "File settings stay consistent however they are set",
 "In every reachable state of a settings object, the zero-inclusion and zero-suppression views are opposites, item and attribute access agree, invalid notation, units, zero or format values are refused without changing anything, and two settings are equal exactly when all fields are.",
 ["histories"], "All sequences of construction, item and attribute assignments with valid and invalid values.",
 "Tests set each field once.",
 ["gerber/cam.py"], [("FileSettings", "gerber/cam.py")])

prop("P23", "Regenerating a drill file from its holes preserves holes and tools",
 "Rendering any list of the holes and slots of drill files through the Excellon-writing back end, under settings in their units, and reading the produced text gives the same holes and slots in the same order with the same tools, to within coordinate resolution; every tool used is defined exactly once, with its parameters, in the header, and the tool is never changed, moved rapidly or lifted to another hole while it is down in a rout. Taking the text before all of them are rendered gives those rendered so far and changes nothing.",
 ["inputs"], "All hole lists of generated Excellon programs, in any order, x number formats and zero modes.",
 "No test renders through this back end at all.",
 ["gerber/render/excellon_backend.py"], [("ExcellonContext", "gerber/render/excellon_backend.py")])

prop("P24", "The gerber-render command draws each view of a board",
 "Given a directory, the command writes one picture each of the top, the bottom and the copper of the board found there, named after the output name, within the given width and height: top and bottom with the chosen theme (the colours, opacities and inversions it is defined with, everything on the bottom side mirrored), showing that side's copper, drills, mask and silk screen in this order, the copper view with the transparent multilayer theme, showing the copper layers from bottom to top and, if there is an outline, the drills; the outline, if there is one, comes first in each; a view without any layers is left out. Given files instead, it writes a single picture of them, drawn in the order given with the theme's settings for their classes at the default scale.",
 ["inputs", "configurations"], "All generated boards, file lists and options (theme, size, output name).",
 "No test runs the command.",
 ["gerber/__main__.py"], [("main", "gerber/__main__.py")])

prop("P25", "Every statement of a Gerber file survives reading, changing and writing",
 "Reading any Gerber file yields its statements one for one and in order, each with the content the file gives: format and units, apertures, macros with their primitives, coordinates, modes, comments, attributes and names, the deprecated image commands (AS, IN, IP, IR, MI, OF, SF, LN), and unknown ones verbatim. The apertures the file lists are those its statements define, with their sizes in the units of the file, also after conversions. Converting units scales exactly the lengths of statements, an offset moves exactly the coordinates given, and the file written reads back as the same statements (coordinates to the resolution of the format), with the same comments. Each statement tells its kind (its type and parameter code).",
 ["inputs", "histories"], "All generated RS-274X programs with statements of every kind, including macros with unsupported primitives, x histories of conversions and offsets.",
 "Tests take single statements with fixed values, and no file with more than the drawing commands through the writer.",
 ["gerber/rs274x.py", "gerber/gerber_statements.py"], [("GerberParser", "gerber/rs274x.py"), ("statement classes", "gerber/gerber_statements.py")])

prop("P26", "What a file says up to some point does not depend on what follows",
 "For every Gerber file, drill file and netlist and every place at which it is cut off, reading what is left succeeds and yields exactly the objects (holes, slots, records) that the commands before the cut define, in order, as in the whole file; a command that is cut in the middle has no effect, and an end-of-file command is not required.",
 ["inputs"], "All generated files of the three kinds x cuts (any character of a Gerber file, any line of a drill file whose header is complete, any record of a netlist).",
 "Tests read complete files only.",
 ["gerber/rs274x.py", "gerber/excellon.py", "gerber/ipc356.py"], [("GerberParser", "gerber/rs274x.py"), ("ExcellonParser", "gerber/excellon.py"), ("IPCNetlist parser", "gerber/ipc356.py")])

prop("P27", "Files do not influence each other, nor what is read later",
 "In every history of reading, changing, converting, offsetting, writing, reporting, layering and rendering files of all kinds, an operation on one file leaves every other file that was read as it was, including other readings of the same content; attempts to read damaged texts, whether they fail or not, have no effect on anything; and reading the same content again at any time gives the same result as the first time.",
 ["histories"], "All generated histories over two to four generated Gerber, drill and netlist files.",
 "Tests use one file at a time and do not look at the others after a change.",
 ["gerber/rs274x.py", "gerber/excellon.py", "gerber/ipc356.py", "gerber/cam.py", "gerber/layers.py"], [("readers", "gerber/rs274x.py, gerber/excellon.py, gerber/ipc356.py"), ("FileSettings, CamFile", "gerber/cam.py")])

prop("P28", "Every statement of a drill file survives reading, changing and writing",
 "Reading any Excellon file yields its statements one for one and in order, each with the content the line gives: tool definitions with diameter, rates, depths and counts, tool selections with their compensation index, coordinates, slots, repeated holes, modes, units with zero mode and format, the end of program with its coordinates, versions, comments, and unknown lines verbatim. Converting units scales exactly the lengths of statements, an offset moves exactly the absolute coordinates given, every statement's own text says the same again to the resolution of the format, and comments, versions and unknown lines of the header are in the file written.",
 ["inputs", "histories"], "All generated Excellon programs with statements of every kind x histories of conversions and offsets.",
 "Tests take single statements with fixed values, mostly without signs and in one format.",
 ["gerber/excellon.py", "gerber/excellon_statements.py"], [("ExcellonParser", "gerber/excellon.py"), ("statement classes", "gerber/excellon_statements.py")])

prop("P29", "Tools and settings supplied apart from a drill program apply as supplied",
 "A tool list or drill report gives one tool per tool line, with the number, plating and diameter (a list's converted from its own units to those of the settings; a report's with feed and speed) the line states, other lines having no effect; a settings file gives the places, notation and units it states. Where a drill program is read with settings or tools supplied, a statement of the program wins over its comments and its comments over what is supplied: a tool the program defines keeps its definition, taking over only an unstated plating (that of the TYPE comment in force, else of the comment on that tool or the tool supplied); a tool it only selects is the commented one, else the supplied one, else one of the default diameter for its number. What is supplied stays as it was and serves any number of files.",
 ["inputs", "programs"], "All generated tool lists, drill reports, settings files, and drill programs drawing on several of these at once.",
 "Tests read one list, one report and one settings file and never combine sources.",
 ["gerber/excellon_tool.py", "gerber/excellon_settings.py", "gerber/excellon.py"], [("ExcellonToolDefinitionParser, ExcellonReportParser", "gerber/excellon_tool.py"), ("ExcellonSettingsParser", "gerber/excellon_settings.py"), ("_get_tool, _merge_properties, _add_comment_tool", "gerber/excellon.py")])

prop("P30", "Objects compare as equal, and as the same thing moved, exactly when they are",
 "Two graphical objects are equal if and only if they are of one kind and agree in every parameter, units, polarity and net, whatever was read from them or copied before; so are two settings (notation, units, zeros, format, angle units), two readings of a file (objects, statements, settings), and statements differ when what they say differs. Nothing compares equal to an object of another kind, and comparing with any other value gives False. A line, circle, rectangle, polygon, outline or macro group is equivalent to another under an offset exactly when it is the other moved by that offset (within 0.000001), with nothing else (sizes, holes, rotation, sides, aperture, exposure of parts) different; a tool is equivalent to another exactly when only their numbers and counts differ. Inner layers compare by their order, consistently for all six comparisons.",
 ["inputs", "histories"], "All generated pairs of objects, macros, tools, settings and layers that agree or differ in one respect, and pairs of readings of generated files.",
 "Tests compare two drills and two tools.",
 ["gerber/primitives.py", "gerber/gerber_statements.py", "gerber/excellon_statements.py", "gerber/cam.py", "gerber/layers.py"], [("Primitive.__eq__, equivalent", "gerber/primitives.py"), ("ExcellonTool.equivalent", "gerber/excellon_statements.py"), ("FileSettings.__eq__", "gerber/cam.py"), ("InternalLayer", "gerber/layers.py")])

prop("P31", "Values outside their range are refused when given, those inside are kept as given",
 "Whatever is given to something with a stated range is either within it, and then read back (and written) as given, or refused with the error the documentation names, leaving everything as it was. Drawing contexts: units inch or metric, colours of three channels and an alpha between 0 and 1 inclusive (ValueError; TypeError for another number of channels). Placed objects and macro primitives: positions are None or two numbers (TypeError), a donut has a known shape and is larger outside than inside, outlines are closed, macro primitives have their own codes, exposure on or off in any case and 3 to 12 vertices (ValueError). Mode statements take their two values in any case, versions and formats are 1 or 2, netlist records and mode lines are refused by classes of other lines (ValueError). So are, when a file is read, versions and formats other than 1 and 2, coordinate formats with 7 integer digits, apertures of macros with open outlines or other numbers of vertices, and macros that close a bracket that is not open (ValueError); a board is read from a directory only (TypeError).",
 ["inputs", "histories"], "All generated values within, at, next to and outside each limit; histories of accepted and refused assignments.",
 "Tests try one or two bad values per class and never look at what a refused one leaves behind.",
 ["gerber/render/render.py", "gerber/primitives.py", "gerber/am_statements.py", "gerber/gerber_statements.py", "gerber/excellon_statements.py", "gerber/utils.py", "gerber/ipc356.py", "gerber/pcb.py"],
 [("GerberContext setters", "gerber/render/render.py"), ("validate_coordinates", "gerber/utils.py"), ("Donut, SquareRoundDonut, Outline", "gerber/primitives.py"), ("AM primitive constructors", "gerber/am_statements.py"), ("mode statements", "gerber/gerber_statements.py, gerber/excellon_statements.py")])

prop("P32", "A drawing context shows what was drawn since it was cleared, whatever was done with it before",
 "In every history of drawing layers (one by one, with default, theme or own settings and bounds, or as a stack), drawing files, changing the context's colours and opacity, saving, and clearing, the picture is that of the drawings since the context was last cleared (drawing a stack, or the first layer after clearing, clears it), and a new context gives the same one. Each layer is drawn, blended and mirrored by its own settings alone; a file is drawn over what is there in the colour and opacity the context has then, inverted if asked. The size, origin and background are those of the first drawing of the picture and its scale is the context's, or for a stack the one that fits. Internal layers drawn with default settings take the default theme's colours in turn, starting over with each picture. Saving changes nothing, and drawing leaves the layers, files and other contexts as they were.",
 ["histories"], "All generated histories of 2 to 9 operations on one context over 2 to 4 generated Gerber and drill layers, of equal or mixed units.",
 "Tests draw one fixed scene per context.",
 ["gerber/render/cairo_backend.py", "gerber/render/render.py", "gerber/render/theme.py", "gerber/cam.py"],
 [("GerberCairoContext", "gerber/render/cairo_backend.py"), ("CamFile.render", "gerber/cam.py"), ("Theme", "gerber/render/theme.py")])

prop("P33", "A drill file edited or put together by hand is what its holes and tools say",
 "After the holes of a drill file are reordered, added, removed, moved, or given another tool of the file, tools are added or changed, or the holes of another program are taken over, and just so for a file put together from a list of tools and holes (each hole listed once, tools with the file's settings object or one of their own), everything about the file follows from its holes and tools as they are then: hit counts and path lengths for each tool, bounding box, graphical objects, the report printed and saved, unit conversion and offset of everything once, a layer made of the file before or after, and the file written, which read back has exactly these tools and holes with their parameters to the resolution of the format.",
 ["inputs", "histories"], "All generated histories of 1 to 8 edits and operations on generated drill programs and hand-made files, of every format, zero mode and unit.",
 "Tests never change a file's holes or put one together.",
 ["gerber/excellon.py", "gerber/excellon_statements.py"],
 [("ExcellonFile", "gerber/excellon.py"), ("DrillHit, DrillSlot", "gerber/excellon.py"), ("ExcellonTool", "gerber/excellon_statements.py")])

prop("P34", "A Gerber file edited or put together by hand is what its objects and statements are",
 "After the objects of a Gerber file are added, removed, replaced, reordered or changed one by one, and just so for a file put together from settings, objects and apertures (each object listed once and given in the file's units, apertures shared or not), the file consists of these objects as they are then: bounding box, what is rendered and over which area, what a layer made of the file before or after shows, conversions and offsets of every object and aperture exactly once. After statements are added, removed or changed, its comments, bounds and size follow from the statements in the list, conversions and offsets apply to each once, and what is written has exactly their comments and coordinates to the resolution of the format.",
 ["inputs", "histories"], "All generated histories of 2 to 8 edits and operations on files made of objects of every class and on generated programs.",
 "Tests never change the objects or statements of a file.",
 ["gerber/rs274x.py", "gerber/cam.py", "gerber/layers.py"],
 [("GerberFile", "gerber/rs274x.py"), ("CamFile.render", "gerber/cam.py"), ("PCBLayer", "gerber/layers.py")])
