#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

S = 'src/pygcode/'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
               'observe_at': observe, 'hook_needed': None}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': anchors})


prop('C01', 'Block text is read as exactly the words it spells',
     'Reading block text made of words (a letter in either case, optional blanks, then a number) yields exactly those words, in order, '
     'each with its upper-case letter and the value that was written; letter case and the amount of white space never change the result. '
     'A letter without a valid number, or non-blank text left over after the last word, is reported as a word-format error and never skipped.',
     ['inputs'], 'all block texts: every letter, every number spelling, every spacing, every trailing remainder',
     'The tests read half a dozen fixed lines; number spellings, spacings, signs and malformed tails are an unbounded input space.',
     [S + 'words.py', S + 'dialects/linuxcnc.py', S + 'block.py'],
     [('text2words', S + 'words.py'), ('WORD_MAP value regexes', S + 'dialects/linuxcnc.py'), ('Block.__init__ white-space clean-up', S + 'block.py')],
     ['text2words()', 'str2word()', 'Block(text).words'])

prop('C02', 'A word written out reads back as the same word',
     'The text of any word reads back as one word with the same letter and the same value: feeds, coordinates and other decimal values to within '
     '0.0005, G/M code numbers and integer values (line numbers, loop counts) exactly. This holds for every magnitude a program can contain, including '
     'negative, fractional, zero and very large values.',
     ['inputs'], 'every letter and every representable value',
     'Tests only format small values; formatting changes shape with magnitude, sign and trailing zeros.',
     [S + 'words.py', S + 'dialects/linuxcnc.py'],
     [('Word.__str__/value_str', S + 'words.py'), ('CLEAN_FLOAT/CLEAN_CODE/CLEAN_INT', S + 'dialects/linuxcnc.py')],
     ['str(Word)', 'text2words(str(word))'])

prop('C03', 'Word equality, ordering and hashing agree',
     'Words compare as (letter, value) pairs: two words are equal exactly when letter and value are equal, exactly one of <, ==, > holds between two '
     'words with comparable values, <= and >= and != agree with them, and equal words have equal hashes. Comparing a word with text compares with the word that text spells.',
     ['inputs'], 'all pairs and triples of words',
     'Tests compare a handful of words for equality only.',
     [S + 'words.py'], [('Word comparison operators and __hash__', S + 'words.py')],
     ['==, !=, <, <=, >, >=, hash() on Word', 'sorted(words)'])

prop('C04', 'Grouping words into codes loses, invents and misassigns nothing',
     'Grouping a list of words into codes uses every word exactly once: as a code, as a parameter of a code, or in the returned list of unassigned words, each kept in order. '
     'A word becomes a parameter exactly when some earlier code accepts its letter, and then of the latest such code; a word that could be a code is one only if no earlier code takes it as parameter. '
     'Giving one code two parameters with the same letter is refused with a parameter error.',
     ['inputs'], 'all sequences of words over all letters and all supported codes',
     'The two tests group one fixed line; the interaction between codes that accept each other’s letters (M6 T, G96 S, G83 Q ...) is combinatorial.',
     [S + 'gcodes.py'], [('words2gcodes', S + 'gcodes.py'), ('word_gcode_class', S + 'gcodes.py'), ('GCode.add_parameter', S + 'gcodes.py')],
     ['words2gcodes()', 'text2gcodes()', 'Block.gcodes', 'Block.modal_params'])

prop('C05', 'A block accepts exactly the non-conflicting sets of codes',
     'Building a block with verification on raises an error exactly when two of its codes belong to the same modal group or the same code word occurs twice as a code; every other combination is accepted. '
     'With verification off the block is always built with the same codes.',
     ['inputs'], 'all combinations of codes in a block',
     'No test builds a conflicting block; pairs and triples over about 120 codes are too many to list.',
     [S + 'block.py', S + 'gcodes.py'], [('Block._assert_gcodes', S + 'block.py'), ('modal_group of each GCode class', S + 'gcodes.py')],
     ['Block(text)', 'Block(text, verify=False)'])

prop('C06', 'Comments and macros never reach the code, and code is never lost to them',
     'Splitting a line keeps exactly the text outside comments as code: text in ( ) or after an opening ; never becomes a word, and no character outside a comment or macro is dropped or changed. '
     'The comment text is preserved (several bracketed comments are joined), and a ; or % inside a bracketed comment is part of that comment.',
     ['inputs'], 'all lines: every arrangement of code, brackets, semicolons and macro text',
     'Tests hold four comment placements; delimiters inside one another and empty comments are never tried.',
     [S + 'comment.py', S + 'line.py'], [('split_line', S + 'comment.py'), ('CommentSemicolon/CommentBrackets AUTO_REGEX', S + 'comment.py'), ('Line.line_regex', S + 'line.py')],
     ['split_line()', 'Line(text).block', 'Line(text).comment', 'Line(text).macro'])

prop('C07', 'A line written out means the same as the line that was read',
     'Reading a line and writing it out gives a line that reads back to equal codes and parameters (values to 3 decimals), equal bare parameters and the same comment and macro; '
     'writing that one out again gives identical text. A code is written as its word, then each of its parameters once, in letter order. The text of a line is the text it was read from, or, for one put together from parts, what it is written as.',
     ['inputs'], 'all readable lines',
     'No test writes a line and reads it again; the round trip crosses the formatter, the grouping and the comment splitter for arbitrary values.',
     [S + 'line.py', S + 'block.py', S + 'gcodes.py', S + 'words.py', S + 'comment.py'],
     [('Line.__str__', S + 'line.py'), ('Block.__str__', S + 'block.py'), ('GCode.__str__', S + 'gcodes.py'), ('Comment __str__', S + 'comment.py')],
     ['str(Line)', 'str(Block)', 'str(GCode)'])

prop('C08', 'Position arithmetic works per axis and never changes its operands',
     'Adding, subtracting, scaling and dividing positions acts on each axis independently, keeps the left operand’s axes and unit, and leaves both operands unchanged; adding with different axes, or subtracting axes the left side lacks, '
     'is refused. Copies are equal and independent, creating or updating a position sets only the named axes and refuses one it lacks, and equality holds exactly when axes and all coordinates agree.',
     ['inputs'], 'all positions over all axis sets, all scalars',
     'Tests use a few integer positions on XYZ.',
     [S + 'machine.py'], [('Position arithmetic, __copy__, __eq__, update', S + 'machine.py')],
     ['Position + - * /', 'copy(Position)', 'Position.update', 'Position == !=', 'Position.values/words/vector'])

prop('C09', 'Unit conversion preserves physical positions',
     'Converting a position between inches and millimetres multiplies every coordinate by 25.4 or its inverse, and converting back restores it; positions given in different units are equal exactly when they are the same physical point (up to floating-point rounding). '
     'Per-axis minimum and maximum of two positions compare physical sizes whatever their units, with their axes and in the first one’s unit, and neither operand is changed.',
     ['inputs'], 'all positions, all unit combinations',
     'No test sets or mixes units.',
     [S + 'machine.py'], [('Position.unit setter', S + 'machine.py'), ('Position._cmp/min/max', S + 'machine.py'), ('UNIT_MAP', S + 'machine.py')],
     ['Position.unit', 'Position.min/max', 'Position =='])

prop('C10', 'Motion codes move exactly the named axes, absolutely or incrementally',
     'Executing a rapid, linear, arc, spline or probe move with any subset of axis words changes exactly the named axes: to the given work coordinate in absolute mode, by the given distance in incremental mode. '
     'Every other axis keeps its position, whatever offsets are active, and parameters that are not axis words never move the machine.',
     ['inputs', 'histories'], 'all machine positions and offsets, all motion codes, all subsets and values of parameters, both distance modes, from any reachable state',
     'Tests follow four short square paths from the origin with zero offsets.',
     [S + 'machine.py', S + 'gcodes.py'], [('Machine.move_to', S + 'machine.py'), ('GCodeMotion._process', S + 'gcodes.py'), ('Machine.pos setter', S + 'machine.py')],
     ['Machine.pos after process_gcodes/process_block/process_str'], [('abs_pos', 'absolute machine position', S + 'machine.py')])

prop('C11', 'Work and absolute coordinates are exact inverses under every offset',
     'The work position is the absolute position minus the active coordinate system’s offset (none, if no system is active) and the temporary offset; converting to work coordinates and back is the identity for any position. '
     'Selecting another coordinate system (G54 to G59.3) never moves the machine and always uses that system’s offset.',
     ['inputs', 'histories'], 'all positions, all offsets of all nine coordinate systems, all selections',
     'Every test runs with zero offsets in G54.',
     [S + 'machine.py', S + 'gcodes.py'], [('Machine.abs2work/work2abs/pos', S + 'machine.py'), ('Machine.set_mode coordinate system selection', S + 'machine.py'), ('coord_system_id', S + 'gcodes.py')],
     ['Machine.pos', 'Machine.abs_pos', 'abs2work()', 'work2abs()'], [('cur_coord_sys', 'active coordinate system', S + 'machine.py')])

prop('C12', 'The recorded motion range encloses every position and never shrinks',
     'After every move the machine’s recorded minimum and maximum enclose the current absolute position and everything they enclosed before, per axis, and no more than that: each bound is either the previous bound or the new coordinate.',
     ['inputs', 'histories'], 'all move histories (one inductive step from an arbitrary state)',
     'No test reads the range; it must hold after any history.',
     [S + 'machine.py'], [('Machine._update_abs_range', S + 'machine.py'), ('Position.min/max', S + 'machine.py')],
     ['Machine.abs_range_min', 'Machine.abs_range_max'], [('abs_range_min/abs_range_max', 'corners of bounding box', S + 'machine.py')])

prop('C13', 'Modal state: each group holds the code last executed in it',
     'After codes are executed, each modal group holds the most recently executed code of that group, every group not addressed keeps its code, and codes without a group change none; G80 only clears the motion mode. '
     'The remembered code keeps exactly the parameters that are modal for it, and assigning a mode by name accepts only a code of that group.',
     ['inputs', 'histories'], 'all codes executed in all prior modes',
     'Only the class table is tested, never the machine’s mode after executing codes.',
     [S + 'machine.py', S + 'gcodes.py'], [('Mode.set_mode/__setattr__', S + 'machine.py'), ('GCode.modal_copy', S + 'gcodes.py'), ('GCodeCancelCannedCycle._process', S + 'gcodes.py')],
     ['Machine.mode', 'Mode.gcodes'], [('modal_groups', 'active code per group', S + 'machine.py')])

prop('C14', 'Codes in a block take effect in execution order, however they are written',
     'Executing a set of non-conflicting codes leaves the machine in the same position and mode whatever order they are written in: modes set in a block (distance, plane, coordinate system, return level ...) always apply to the motion in the same block. '
     'This includes motion given as bare parameters of the active motion mode. Comparing and sorting codes follows the documented order of execution.',
     ['inputs'], 'all combinations and permutations of codes in a block, all parameter values',
     'Tests contain no block whose written order differs from its execution order and affects motion.',
     [S + 'machine.py', S + 'gcodes.py'], [('Machine.process_gcodes sorting', S + 'machine.py'), ('exec_order of each GCode class', S + 'gcodes.py'), ('GCode.__lt__', S + 'gcodes.py')],
     ['Machine.process_gcodes/process_block', 'Machine.block_modal_gcodes'])

prop('C15', 'Bare parameters continue the active motion, and are never guessed',
     'A block of bare parameters behaves exactly as the same block written with the active motion code and its retained parameters. If no motion mode is active, or the active motion does not accept one of the words, processing raises an invalid-state error and moves nothing (or ignores just those words where the machine is told to ignore them); a letter given twice is refused as it is with the code written out; '
     'cleaning a block removes exactly the bare parameters that could not be used.',
     ['inputs', 'histories'], 'all motion modes, all parameter words and values',
     'Tests continue G0-G3 and G81 with axis words only.',
     [S + 'machine.py'], [('Machine.modal_gcode', S + 'machine.py'), ('Machine.clean_block', S + 'machine.py'), ('Machine.block_modal_gcodes', S + 'machine.py')],
     ['Machine.process_block', 'Machine.clean_block', 'Machine.block_modal_gcodes'])

prop('C16', 'Canned cycles leave the machine above the last hole at the return level',
     'A canned drilling or boring cycle with loop count L moves the machine once per repeat to its in-plane coordinates (absolute) or by them (incremental), and along the plane’s normal axis to the R level with G99 or not at all with G98. '
     'The R level does not drift with repeats, a missing or non-positive L means one repeat, and this holds in every plane (those of U V W, of which a machine may lack the normal axis, too) and with no plane or return mode selected.',
     ['inputs', 'histories'], 'all canned cycles, planes, distance and return modes, loop counts and parameter values',
     'Three tests cover G81 in the XY plane.',
     [S + 'gcodes.py', S + 'machine.py'], [('GCodeCannedCycle._process', S + 'gcodes.py'), ('Machine.move_to', S + 'machine.py')],
     ['Machine.pos after executing G73/G81/G82/G83/G85/G89'])

prop('C17', 'A copied machine is equal to the original and independent of it',
     'Copying a machine (or its state or mode), with copy or deepcopy, gives one with the same position, work position, range, modes, handling of words it cannot use, coordinate systems, offsets and active coordinate system. Executing anything on either afterwards has no effect on the other.',
     ['inputs', 'histories'], 'all machine states and all codes executed after the copy',
     'No test copies a machine.',
     [S + 'machine.py'], [('Machine/Mode/State/CoordinateSystem/Position __copy__', S + 'machine.py')],
     ['copy(Machine)', 'copy(State)', 'copy(Mode)', 'deepcopy()'])

prop('C18', 'An expanded canned cycle ends where the cycle itself ends',
     'Executing the simple moves a drilling or boring cycle is expanded into leaves the machine in the same position as executing the cycle, for absolute and incremental distance modes, both return modes, any loop count, and any subset of in-plane coordinates. '
     'Moves are emitted in the distance mode that was given, and come to an end.',
     ['inputs'], 'all drilling cycles, start positions, parameter values, distance and return modes, loop counts',
     'simplify_canned_cycle has no test.',
     [S + 'transform.py', S + 'gcodes.py'], [('simplify_canned_cycle', S + 'transform.py'), ('_gcodes_abs2rel', S + 'gcodes.py'), ('GCodeCannedCycle._process', S + 'gcodes.py')],
     ['simplify_canned_cycle()'])

prop('C19', 'An expanded canned cycle drills exactly the hole that was asked for, safely',
     'For every repeat the expansion feeds to exactly the commanded depth at the commanded hole and never below it; travel between holes happens only at or above the R level, and rapid moves go down only to the R level or into material already drilled at that hole. '
     'Pecking cycles advance by at most Q per feed, retracting between feeds (G83 to the R level) and going on from close above what is drilled, boring cycles feed out to the R level, and dwell cycles dwell at the bottom for the time commanded. '
     'Upward holes, pecks of zero, cycles without R or Z, threading cycles and planes other than XY are refused before any move. (The return to a previous level that lies below the bottom of the hole, G98, is excepted.)',
     ['inputs'], 'all drilling cycles, depths, peck sizes, start heights, repeats',
     'simplify_canned_cycle has no test; peck loops depend on the relation between depth, R, Q and start height.',
     [S + 'transform.py'], [('simplify_canned_cycle drilling loop', S + 'transform.py')],
     ['simplify_canned_cycle()'])

prop('C20', 'Conversion of moves to incremental coordinates preserves the path',
     'Absolute rapid and linear moves converted to incremental coordinates visit, from the given start, the same positions with the same move codes; moves of zero length are omitted, other codes pass through unchanged in order, and unsupported motions are refused. '
     'When the target mode is absolute the moves are returned untouched.',
     ['inputs', 'histories'], 'all sequences of moves from all start positions',
     'One test converts one fixed list.',
     [S + 'gcodes.py'], [('_gcodes_abs2rel', S + 'gcodes.py')], ['_gcodes_abs2rel()', 'simplify_canned_cycle() in incremental mode'])

prop('C21', 'A linearized arc is a connected path ending at the arc’s end point',
     'The line moves an arc is linearized into end at the arc’s commanded end point (in incremental mode to within half of the last rounded decimal per axis, with no accumulation over segments) and begin at its start. '
     'This holds for every plane, method, distance mode, arc form (centre or radius) and helix, and coordinates not given by the arc keep their value.',
     ['inputs'], 'all arcs, start positions, planes, methods and modes',
     'linearize_arc has no test.',
     [S + 'transform.py', S + 'utils.py'], [('linearize_arc', S + 'transform.py'), ('ArcLinearizeMethod.iter_vertices', S + 'transform.py')],
     ['linearize_arc()'])

prop('C22', 'A linearized arc stays within the permitted error of the true arc',
     'Every point of every line of a linearized arc is within max_error (0.01 if not given) of the circle through the arc’s start and end about its centre: never outside the circle for the inside method, never inside it (except at the two ends) for the outside method, and balanced within half the error either side for the mid method. '
     'As documented, the inside method puts the ends of the lines on the circle, the outside method the middle of every full line, and the mid method strays as far inside at the middle of a full line as outside at its ends. '
     'The number of lines is the fewest whole wedges that achieve this, and the radii and wedge angle the method classes report are those of the lines they give.',
     ['inputs'], 'all radii, angles, error limits, methods, planes and positions',
     'linearize_arc has no test; the bound relates trigonometric functions of arbitrary radius, angle and error.',
     [S + 'transform.py'], [('ArcLinearizeInside/Outside/Mid', S + 'transform.py'), ('wedge_count', S + 'transform.py')],
     ['linearize_arc()', 'ArcLinearize*.inner_radius/outer_radius/wedge_count'])

prop('C23', 'A linearized arc follows the commanded arc: direction, sweep, centre and helix',
     'Linearization goes round the commanded centre in the commanded direction (G2 clockwise, G3 counter-clockwise seen along the plane’s normal) through the full commanded angle, including more than half and full circles; with a radius it takes the short way for positive R and the long way for negative R. '
     'Movement along the plane’s normal is proportional to the angle travelled.',
     ['inputs'], 'all arcs in all planes, directions and forms',
     'linearize_arc has no test.',
     [S + 'transform.py', S + 'gcodes.py', S + 'utils.py'], [('linearize_arc centre and angle', S + 'transform.py'), ('plane quat/normal', S + 'gcodes.py')],
     ['linearize_arc()'])

prop('C24', 'Impossible arcs are refused with a parameter error',
     'An arc with both or neither of a centre (I, J, K) and a radius (R), with no end point, with a zero radius, with a radius too small to reach its end, or with a radius but coincident start and end is refused with a parameter error before any line is produced. '
     'Well-formed arcs are never refused, except that arcs in the planes of the U V W axes are refused as not implemented.',
     ['inputs'], 'all parameter combinations and values',
     'linearize_arc and parameter assertions have no test.',
     [S + 'gcodes.py', S + 'transform.py'], [('GCodeArcMove.assert_params', S + 'gcodes.py'), ('linearize_arc parameter checks', S + 'transform.py')],
     ['GCodeArcMove.assert_params()', 'linearize_arc()'])

prop('C25', 'Omitting redundant motion words does not change what a program does',
     'Blanking out repeated motion words yields the same number of codes in the same order, blanks a word only when the motion mode already active is that very code, and the printed result executed line by line makes the same moves and modes as the original. '
     'The codes passed in are not modified.',
     ['inputs', 'histories'], 'all sequences of codes',
     'One test with one sequence of six moves checks only which words are blank.',
     [S + 'utils.py', S + 'gcodes.py'], [('omit_redundant_modes', S + 'utils.py'), ('GCode.__str__ white-space prefix', S + 'gcodes.py')],
     ['omit_redundant_modes()', 'str(GCode)'])

prop('C26', 'Splitting a code list keeps every code exactly once and in order',
     'Splitting a list of codes about a class gives three lists whose concatenation is the list in execution order (or as given when sorting is off); the middle one holds the first code of that class and nothing else, or, if there is none, everything is in the first list. '
     'The input list is not changed.',
     ['inputs'], 'all code lists and splitter classes',
     'Two tests split one list each.',
     [S + 'gcodes.py'], [('split_gcodes', S + 'gcodes.py')], ['split_gcodes()'])

prop('C27', 'Codes accept only their own parameters, once, and report them faithfully',
     'A code accepts a parameter exactly when its letter is legal for that code and not yet given, and otherwise raises a parameter error; a given parameter reads back with its value, a legal one not given reads as nothing, and assigning one changes only it. '
     'The parameter dictionary holds exactly the given parameters (restricted to requested letters), and two codes are equal exactly when word and parameters are.',
     ['inputs'], 'all codes, letters and values',
     'Tests read two parameters of one code.',
     [S + 'gcodes.py'], [('GCode.add_parameter/__getattr__/__setattr__', S + 'gcodes.py'), ('GCode.get_param_dict', S + 'gcodes.py'), ('GCode.__eq__', S + 'gcodes.py')],
     ['GCode constructor, attributes, get_param_dict, =='])

prop('C28', 'Every code word means one thing, and no unknown word is taken for a code',
     'Each word is claimed by at most one code class for every possible number, and exactly the documented numbers are claimed: a word with any other number is not a code. Writing out any code class’s default word and reading it gives that same class, '
     'and its modal group and execution order follow the documented tables.',
     ['inputs'], 'all letters and all numbers',
     'The mapping test checks only the listed words against the match functions, not all numbers.',
     [S + 'gcodes.py'], [('build_maps/word_gcode_class', S + 'gcodes.py'), ('word_key/word_matches/modal_group/exec_order', S + 'gcodes.py')],
     ['word_gcode_class()', 'text2gcodes()'])

prop('C29', 'Normalizing a program does not change what it does',
     'The output of the normalizer, with any combination of its formatting options (one code per line, full codes, removal of comments, blanks or white space) and with canned cycles or arcs replaced by simple moves, takes a machine to the same position, offsets and modes as the input program (only the motion mode may differ after a replaced cycle or arc). Without options that split, expand or drop lines there is one output line per input line. '
     'Exactly the requested cycles are expanded, and the moves replacing an arc stay within the requested precision. Comments survive unless their removal is requested, macros always do, and removed codes, blanks and unknown words are exactly those that were asked for. '
     'The final actions, as requested, stop the spindle and move up to the safe height (given, or the highest level of the program), across to X0 Y0 and down to Z0, in that order, and the output before them is unchanged.',
     ['inputs', 'configurations'], 'all short programs and option combinations',
     'The scripts have no tests beyond --help.',
     ['scripts/pygcode-norm', S + 'utils.py', S + 'transform.py', S + 'machine.py'], [('write()', 'scripts/pygcode-norm'), ('split_and_process', 'scripts/pygcode-norm'), ('main loop', 'scripts/pygcode-norm')],
     ['standard output of pygcode-norm'])

prop('C30', 'Cropping a program resumes at the right place in the right mode',
     'The output of the cropper contains exactly the lines from the first that satisfies the start condition up to, not including, the first line from there on that satisfies the end condition; conditions compare the line number, or the position after the line (linear and angular axes), and texts that are no range are refused. Executing its preamble from any position, on a machine with the same offsets, brings the machine to the position and modes it had just before the first kept line, '
     'drilling nothing and travelling across only at the highest level seen so far (along the normal of the active plane).',
     ['inputs', 'configurations'], 'all short programs and range conditions',
     'The scripts have no tests beyond --help.',
     ['scripts/pygcode-crop', S + 'machine.py'], [('range_type', 'scripts/pygcode-crop'), ('preamble', 'scripts/pygcode-crop'), ('main loop', 'scripts/pygcode-crop')],
     ['standard output of pygcode-crop'])

prop('C31', 'Plane geometry is right-handed and length preserving',
     'For each selectable plane the rotation carries the XY frame onto the plane’s frame (first axis, second axis, normal) and so preserves lengths and angles of every vector; projecting any vector on any plane leaves no component along the normal, changes nothing in the plane, and is idempotent. '
     'Each plane names its two axes and its normal. The rotation built to align two perpendicular pairs of vectors maps the first pair onto the second.',
     ['inputs'], 'all vectors, the three planes, frames on and off the axes',
     'No test touches the plane geometry.',
     [S + 'utils.py', S + 'gcodes.py'], [('quat2coord_system/quat2align/plane_projection', S + 'utils.py'), ('GCodeSelect*Plane attributes', S + 'gcodes.py')],
     ['GCodeSelect*Plane.quat/.normal/.plane_axes/.normal_axis', 'plane_projection()', 'quat2coord_system()'])

prop('C32', 'A block answers for exactly the words it holds',
     'Asked for any letter, a block gives its first word with that letter, or nothing if it has none; any other unknown attribute is an attribute error. Its length is the number of its codes, plus one if it has bare parameters, and it is true exactly when it has words. '
     'Its text is what was given with blanks squeezed (a line\u2019s: exactly what was given), or what it would be written as if it was not made from text. A list of words as a dictionary holds each requested letter with its value and no other.',
     ['inputs'], 'all blocks and lines, all letters, all values',
     'Tests look at one or two attributes of fixed blocks.',
     [S + 'block.py', S + 'line.py', S + 'words.py'], [('Block.__getattr__/__len__/__bool__/text', S + 'block.py'), ('Line.text/gcodes', S + 'line.py'), ('words2dict', S + 'words.py')],
     ['Block.<letter>', 'len(Block)', 'bool(Block)', 'Block.text', 'Line.text', 'Line.gcodes', 'words2dict()'])

prop('C33', 'Copies of words, codes, blocks, lines and positions are faithful',
     'A copy (shallow or deep) of a word, code, block, line, position or coordinate system is another object of the same class that is equal, answers alike and is written alike. Changing a word or position or its copy never changes the other; nor does any change to a code, block or line and its deep copy.',
     ['inputs', 'histories'], 'all words, codes, blocks, lines and positions, and changes after copying',
     'No test copies anything; copies go wrong only when something is changed afterwards.',
     [S + 'machine.py', S + 'block.py', S + 'gcodes.py', S + 'words.py'], [('Position/CoordinateSystem __copy__, __getattr__', S + 'machine.py'), ('Block.__getattr__', S + 'block.py'), ('GCode.__getattr__/__setattr__', S + 'gcodes.py')],
     ['copy()', 'deepcopy()'])

prop('C34', 'The list of a mode\u2019s codes is the mode',
     'The list of codes of a mode holds exactly the code of every group that has one, and setting (or, without an active canned cycle, executing) that list where no mode is set recreates every group\u2019s code with its retained parameters, and moves nothing; its text is theirs. '
     'A new mode is the documented default, or exactly what the text of a derived class\u2019s default spells; an empty mode has no code in any group, and only group names are modes.',
     ['inputs', 'histories'], 'all modes reachable, all default mode texts',
     'Tests compare the default mode only.',
     [S + 'machine.py', S + 'gcodes.py'], [('Mode.gcodes/set_mode/__getattr__/default_mode', S + 'machine.py'), ('MODAL_GROUP_MAP', S + 'gcodes.py')],
     ['Mode.gcodes', 'Mode.set_mode()', 'str(Mode)', 'Mode.<group>'])

prop('C35', 'Any text is read and executed, or refused with a documented error',
     'Reading any line of text, whatever its characters, either gives a line or raises a word-format error, a parameter error, a block-format error (more than one line) or a conflict (assertion) error, never anything else. '
     'Executing a line that was read either works or raises an invalid-state error (for a bare parameter given twice, a parameter error), and a refused line leaves the machine\u2019s position, range, offsets and modes exactly as they were.',
     ['inputs'], 'all short texts and all machine states',
     'Tests give well-formed lines; malformed ones are unlimited.',
     [S + 'line.py', S + 'block.py', S + 'words.py', S + 'gcodes.py', S + 'machine.py'], [('Line.__init__', S + 'line.py'), ('text2words', S + 'words.py'), ('words2gcodes', S + 'gcodes.py'), ('Machine.modal_gcode/process_gcodes', S + 'machine.py')],
     ['Line(text)', 'Machine.process_block()'])

prop('C36', 'A machine and the codes, blocks and positions it is given share nothing',
     'Executing a code or block, setting a code as a mode, completing a block or setting a position never changes what was given. Changing it in place afterwards (its word, its parameters, its lists, its axes or unit), or changing a position or an effective code that the machine handed out, never changes the machine\u2019s position, range, offsets or modes, nor what it does next.',
     ['inputs', 'histories'], 'all codes, blocks and positions given to or handed out by a machine, and all changes made to them afterwards',
     'Sharing shows only when something is changed after it was executed, which no test does.',
     [S + 'machine.py', S + 'gcodes.py'], [('GCode.modal_copy', S + 'gcodes.py'), ('Mode.set_mode/__setattr__', S + 'machine.py'), ('Machine.modal_gcode/block_modal_gcodes', S + 'machine.py'), ('Machine.pos/abs2work/work2abs', S + 'machine.py'), ('Position.__copy__/values', S + 'machine.py')],
     ['Machine.process_gcodes()', 'Machine.process_block()', 'Machine.set_mode()', 'Machine.block_modal_gcodes()', 'Machine.pos'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
