#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                     **({'observe_at': list(observe)} if observe else {}))))
AP='parser/fanuc/AllAttributesParser.cpp'; PC='parser/fanuc/AttributesPathCalculator.cpp'; LEN='parser/fanuc/PathCalculator.cpp'
JM='nclangsrv/JsonMessageHandler.cpp'; NP='nclangsrv/NCParser.cpp'; NS='nclangsrv/NCSettingsReader.cpp'; MAIN='nclangsrv/nclangsrv.cpp'; GR='parser/fanuc/AllAttributesParserGrammar.h'
UT='parser_ut feeds fixed lines to one class at a time'
NOUT='no existing test starts the language server at all'

prop('S01','Every request gets exactly one reply, in order, in its own frame',
 'For every sequence of messages, each request is answered exactly once, in the order the requests arrived and with the id of the request, in a correctly framed message: with its result, or with an error if it is malformed or not supported. Messages without an id and responses get no answer, and every change or opening of a document is followed by exactly one set of diagnostics for it before the next message is answered. Initialize announces the capabilities the server serves; the way a message is split over reads, the order of its header fields and messages that mean nothing to the server do not change what the later ones get. The server ends after shutdown or at the end of its input and not before.',
 ['histories','inputs'],'all sequences of protocol messages, valid or not, and all ways of framing them',
 NOUT+', and a fixed exchange would fix one order of messages',
 [MAIN,JM],[('message framing','nclangsrv.cpp main loop'),('dispatch on method and reply with the id','JsonMessageHandler::parse')],
 [('pending message','bytes of a frame read so far','nclangsrv.cpp main'),('open documents','text per URI','JsonMessageHandler contentInfoMap')],['stdin/stdout of nclangsrv'])
prop('S02','What is said about a document depends only on its current text',
 'The diagnostics, hover texts, completions and code lenses of a document are those a fresh server would give for the text the document has now. Earlier texts of the document, other open documents, earlier requests and earlier errors leave no trace in them.',
 ['histories','inputs'],'all interleavings of openings, changes, closings and requests over several documents',
 'state left behind by an earlier parse shows only after particular sequences; '+NOUT,
 [JM,NP,AP],[('a new parser and new modal state per parse','NCParser::parse'),('text, macros and lenses kept per URI','JsonMessageHandler')],
 [('per document content','current text, macro values and lens titles','JsonMessageHandler')],['publishDiagnostics, hover, completion and codeLens answers'])
prop('S03','No text and no message stops the server or disturbs the next ones',
 'Whatever the text of a document and whatever a message contains, the server keeps running, answers what it can and treats the following messages as if the odd one had not been there. A line is judged by its text and the program before it: bytes that are no NC code, unfinished words, huge numbers and unbalanced brackets give a diagnostic or nothing, never a crash, a hang or an answer about another line.',
 ['inputs','histories'],'all texts and all messages, including malformed JSON, missing members and wrong types',
 'tests use well-formed programs; '+NOUT,
 [JM,NP,AP,GR,'parser/fanuc/ValueCalculator.cpp'],[('exceptions of a block become its message','AllAttributesParser::parse'),('members of a message are checked before use','JsonMessageHandler::parse')],(),['liveness of nclangsrv and the answer to a following request'])
prop('S04','Each faulty line gets one diagnostic, on that line and at the right place',
 'A document gets one diagnostic for each line that is not accepted and none for the others, in the order of the lines, each on the line it is about (counted by line feeds, with or without carriage returns, blank lines included). A syntax error starts at the character where the line stops being valid, other errors at the start of the line. Every diagnostic has a text and the severity and source of an NC error.',
 ['inputs'],'all documents: any mixture of correct, faulty, blank and comment lines, with any line endings, spaces and tabs',
 'unit tests call the parser line by line, so nothing checks the mapping from the parser message to document positions',
 [NP,JM,GR],[('line splitting and message prefix','NCParser::parse'),('position from the message','JsonMessageHandler publishDiagnostics'),('column of the error','get_column in AllAttributesParser')],(),['textDocument/publishDiagnostics'])
prop('S05','Code lenses show the running totals of the program at the lines that take time',
 'There is one code lens for each line whose execution takes time and none for the others, on that line. Its text states the total path and time so far, those of the active tool, and the totals of rapid and cutting motion when the line has such a motion, equal to the sums over the lines up to and including it. Without path calculation there are no lenses.',
 ['inputs','histories'],'all programs and all settings',
 NOUT+'; the totals depend on the whole program',
 [NP,JM,PC],[('accumulation over lines','NCParser::parse'),('title','formatPathTimeResult')],[('running totals','rapid and cutting path and time so far','NCParser::parse')],['textDocument/codeLens, codeLens/resolve'])
prop('S06','Hover and completion tell what the word under the cursor means',
 'Hovering over a G or M code shows the description the active control has for that code, whether it is written in upper or lower case, with leading zeros or with a dot, and over a code given by a variable the code the variable selects, or nothing if the variable has no value there. Hovering over a variable shows the value it has after that line and its description, which is one of those whose ranges include it, or that it is undefined; elsewhere nothing is shown. Completion offers each code of the active control once, and resolving an item adds its description.',
 ['inputs','configurations','histories'],'all positions in all documents, for all controls',
 NOUT+'; the tables have hundreds of codes for each of 11 controls',
 [JM,'nclangsrv/CodesReader.cpp','nclangsrv/MacrosDescReader.cpp','conf'],[('word under the cursor','JsonMessageHandler hover'),('descriptions per control','CodesReader, MacrosDescReader')],[('macro values','value of each variable by line','NCParser::parse result')],['textDocument/hover, textDocument/completion, completionItem/resolve'])
prop('S07','The settings file decides machine, limits and defaults',
 'The control, machine type, axis ranges, limits, exchange times, machine points, zero point and default modes used to judge a program are those in the settings file, and the documented defaults without one. Each of them takes effect from the first block on and nothing else changes with it; a settings file that cannot be read, lacks a value or has one that is malformed is reported for each document instead of being replaced by other values, and is read again for the next one until that succeeds; from then on its values hold for as long as the server runs.',
 ['configurations'],'all valid settings files, and files with any one value missing or malformed',
 'tests build settings in code with a few fixed values and never read a file',
 [NS,NP,AP],[('reading the file','NCSettingsReader::read'),('handing it to the parser','NCParser::parse, set_ncsettings')],[('settings','machine, kinematics, defaults, zero point','NCSettingsReader')],['diagnostics and path/time of the first blocks'])
prop('S08','The user\'s descriptions of variables go before those of the control',
 'With a file of macro descriptions of the user, hovering over, completing and resolving a variable uses the description the user gives it, else that of the control, else one of a range it lies in; variables of both are offered, each once. While the file is missing, no JSON or of another shape, every opening or change of a document says so in one diagnostic which names the file and a place in it, beside the diagnostics of the document, and nothing is described; when the file can be read, that ends with the next document.',
 ['histories','inputs','configurations'],'all files and all histories of writing, breaking and repairing the file between openings, hovers, completions and resolutions, for all controls',
 NOUT+'; what is described depends on when the file could first be read',
 ['nclangsrv/MacrosDescReader.cpp',JM],[('merging and ranges','MacrosDescReader::read, getDesc'),('retry with each document','JsonMessageHandler::fetch_macrosDesc'),('diagnostic','prepareMacroDescDiagnostic')],[('descriptions','read with the first document that could','JsonMessageHandler mMacrosDesc')],['publishDiagnostics, hover, completion and resolve answers'])
prop('E01','The extension runs one server as the settings say and keeps the user informed',
 'While the extension is active one language server runs, started from the folder of the extension for NC programs with exactly the settings in force (those of the workspace before those of the user) in a form the server takes as meant; it stops with the extension. A write of the settings file in use, however its path is spelled, and of no other file starts the server again and is announced. A setting changed by the user is answered with one question to reload, one changed by a command of the extension with the question of that command only, other changes with none; commands change just the setting and the layer the user chose. Without a settings file the user is asked for one. The status shows the machine named in the settings file, or the name of the file without its extension. The configuration tool runs where it is supported, once at a time; programs that do not start are reported.',
 ['histories','inputs','configurations'],'all histories of activation, commands, answers, changes of settings in two layers, writes of files and ends of the tool; all paths and contents of the settings file',
 'the repository has no tests of the extension; what a change means depends on the changes and commands before it',
 ['vscode-client/src/extension.ts'],[('command line of the server','startLangServerNCProj'),('which changes ask for a reload','startListeningConfigurationChanges, updateConfiguration'),('restart on a write','watcher.onDidChange'),('status','setStatusText, stem')],[('change to ignore','while a command of the extension writes a setting','extension.ts ignoreNextConfigurationChange'),('tool runs','from its start to its end','extension.ts cmtConfigRunning')],['processes started','questions, messages and status shown','settings written'])
prop('V01','An address is accepted exactly with the values its control allows',
 'A word is accepted if and only if its integer part lies in the range the active control gives that address in the active units, the digits after its dot, read as a number, within the range it allows there, a dot is used only where allowed and a value is present. G20 and G21 select the inch or metric limits for the blocks after them, starting from the default units of the machine; an optional block mark takes a digit from 1 to 9 or nothing.',
 ['inputs','configurations','histories'],'all addresses, values, signs and spellings, for 11 controls in both units',
 'tests try a few values of some addresses of one control',
 [GR,AP,'parser/fanuc/GrammarSelector.cpp','nclangsrv/WordGrammarReader.cpp','conf'],[('range check of each word','verify_range'),('choice of limits','GrammarSelector')],[('active limits','metric or inch table','AllAttributesParser active_word_grammar')],['diagnostic of the line'])
prop('V02','Words that exclude each other are not accepted in one block',
 'A block is rejected if an address that must be unique occurs twice in it, if two of its G codes or two of its M codes belong to a common group of the active control, or, on Haas controls, if it has more than one M code; otherwise these rules accept it. Codes count by their value, whatever their spelling, position in the block or the way they are given, directly or by a variable.',
 ['inputs','configurations'],'all pairs and combinations of codes of 11 controls',
 'tests try some pairs of one group table',
 ['parser/fanuc/UniqueCode.cpp','parser/fanuc/CodeGroupsVerifier.cpp','parser/fanuc/SameWordInBlockVerifier.cpp','nclangsrv/CodeGroupsReader.cpp','conf'],[('unique addresses','UniqueCode'),('groups','CodeGroupsVerifier'),('single M','SameWordInBlockVerifier')],(),['diagnostic of the line'])
prop('V03','Cutting needs a running spindle, and S, T and F stay within the machine',
 'A program that reaches a straight feed move (G1) or a drilling cycle (G81 to G89) before both a spindle speed and a direction of rotation were given is reported exactly once, at the block where this becomes clear, naming what is missing; if the operator starts the spindle, each block that sets a speed or starts the rotation is reported instead. A speed, tool number or feed above the limit of the machine is reported at its block and one at the limit is not.',
 ['histories','inputs','configurations'],'all orders of S, M3/M4, cutting codes and limits over a program',
 'the verdict depends on the history of the program; tests have a few two or three line histories',
 ['parser/fanuc/RotationVerifier.cpp','parser/fanuc/RangeVerifier.cpp',AP],[('spindle history','RotationVerifier'),('limits','RangeVerifier')],[('spindle flags','speed, rotation, cutting seen, reported','RotationVerifierVisitor')],['diagnostics'])
prop('V04','A block that moves an axis out of its travel is reported',
 'After each block the position of every axis with a travel range is compared with that range seen from the zero point, and the block is reported if and only if some axis is then outside. Absolute, incremental, tool exchange and home positions all count; the position is the accumulated one, also after blocks that were reported for this, and an end of the range reached up to rounding is inside it.',
 ['histories','configurations'],'all sequences of motions, zero points and ranges',
 'positions accumulate over the program; tests check single blocks',
 ['parser/fanuc/RangeVerifier.cpp',PC,AP],[('travel check','RangeVerifier'),('accumulated position','copy_on_return')],[('axis position','minimum, current and maximum','AttributesPathCalculator word_range')],['diagnostics, axis ranges'])
prop('M01','A variable stands for the value last assigned to it before its use',
 'A block in which a number is given by a variable is treated in every respect like the block with the value the variable has at that line written instead, with its sign; if the variable has no value there the block is reported and has no effect. A definition affects its own line and the following ones until the next definition, and never earlier lines.',
 ['histories','inputs'],'all programs with definitions, redefinitions and uses in any address',
 'depends on the order of definitions and uses over the program',
 ['parser/fanuc/MacroEvaluatedCodeVerifier.cpp','parser/fanuc/MacroEvaluator.cpp',AP],[('substitution','MacroEvaluatedCodeVerifier'),('lookup by line','macro_map')],[('variables','value by number and line','AllAttributesParser macro_values')],['diagnostics, path, time and variable values'])
prop('M02','Expressions evaluate to what NC arithmetic says',
 'Every well formed expression assigned to a variable gives it the value of the expression by the usual rules: brackets first, then signs and functions, then products, quotients, AND and MOD, then sums, differences, OR and XOR, from left to right, with angles in degrees. An expression with an operand, an argument or a closing bracket missing, or that uses an undefined variable, assigns nothing and is reported.',
 ['inputs'],'all expressions over numbers, variables, operators and functions',
 'tests evaluate a list of expressions; precedence and associativity are about all combinations',
 ['parser/fanuc/ValueCalculator.cpp','parser/fanuc/MacroEvaluator.cpp'],[('expression grammar and evaluation','ValueCalculator')],(),['variable values, hover'])
prop('M03','System variables follow the words of the program',
 'The variables of the control that hold the last B, D, F, H, M, N, S and T words have, after each line, the values of the last such words up to and including it, T counting when the tool is exchanged, and pi and e are always defined. No other word changes them and they are readable like any variable.',
 ['histories'],'all programs',
 'depends on the whole program before a line',
 ['parser/fanuc/SystemMacroAssigner.cpp',PC,AP],[('assignment by word','SystemMacroAssigner'),('tool variables','AttributesPathCalculator::evaluate')],[('variables','value by number and line','AllAttributesParser macro_values')],['variable values, hover'])
prop('M04','Brackets outside of assignments are whole or reported',
 'A condition of IF or WHILE and the value of an address in brackets are accepted when their brackets pair, every operator and comparison has its operands and every function its argument, whatever is divided in them; when a bracket or an operand is missing the block is reported. A value in brackets is also reported when a variable in it has no value.',
 ['inputs'],'all sequences of numbers, variables, operators, comparisons, functions and brackets after IF, WHILE or an address',
 'tests parse two conditions and a few values in brackets; which sequences are whole is about all of them',
 ['parser/fanuc/AllAttributesParserGrammar.h',AP,'parser/fanuc/MacroEvaluatedCodeVerifier.cpp'],[('brackets and operators','verify_range, CompletenessVisitor'),('division or optional block','verify_range'),('values of the variables','MacroEvaluatedCodeVerifier')],(),['diagnostics'])
prop('P01','Straight moves add the distance between the positions, in the mode in force',
 'Each block with straight motion in force adds the straight distance from the position before it to its end point, as rapid or cutting path by the motion in force, and nothing else does; a block rejected before its motion is evaluated does not move the tool. Motion, absolute or incremental mode and position persist until changed; tool exchange and home moves go to their machine points in rapid; words that belong to other codes of the block and words after an optional block mark do not move the tool.',
 ['histories','configurations'],'all sequences of blocks with straight motion, mode changes and special codes, for mills and lathes',
 'modal state accumulates over the program; tests have a few short sequences',
 [PC,LEN],[('modal state and position','AttributesPathCalculator::evaluate'),('lengths','PathCalculator')],[('modal state','motion, mode, plane','AttributesPathCalculator'),('position','last value of each axis','AttributesPathCalculator prev_values')],['path result of each block'])
prop('P02','Arcs and helices add their true length',
 'An arc adds the length of the part of the circle, around its centre or with its radius, from the position before the block to its end point in the direction of the code, in the plane in force and in absolute and incremental mode; an arc to its own start is a full circle. A helix adds the length of its turns, quarter turns or spiral, and ends with any other motion; missing data is reported and adds nothing.',
 ['inputs','histories','configurations'],'all arcs (start, end, centre or radius, direction, plane) and sequences of arcs, helices and other motions',
 'tests check single arcs within one quadrant',
 [PC,LEN],[('arc and helix formulas','PathCalculator'),('modal helix','AttributesPathCalculator::evaluate')],[('helix','kind of the helix in progress','AttributesPathCalculator active_helix')],['path result of each block'])
prop('P03','Drilling cycles add the path of each hole until they are cancelled',
 'Every block with a cycle in force adds one hole (none with a repeat count of zero, as many as the count says in incremental mode): the move to its position and the rapid and cutting parts of the cycle for the depth, retract level and peck in force, the return mode and the plane. The values of the cycle persist from block to block until it is cancelled, missing ones are reported, and afterwards the tool is over the last hole.',
 ['histories','inputs','configurations'],'all cycles, return modes, programming modes, planes, repeat counts and sequences of holes',
 'cycles are modal over many blocks; tests check a few formulas and short sequences',
 [PC,LEN],[('cycle formulas','PathCalculator DrillCyclePath'),('modal values','AttributesPathCalculator::evaluate')],[('cycle','code, depth, retract level, peck','AttributesPathCalculator')],['path result of each block'])
prop('P04','The time of a block follows from its path, feed and waiting times',
 'Cutting takes the path divided by the feed in force (per minute, or per revolution with the spindle speed or surface speed in force on lathes), rapid motion the path divided by the rapid feed, and dwells, tool and pallet exchanges and tool measurements add their configured times, each once. The total is the sum over the blocks; cutting without a feed or a needed speed is reported.',
 ['histories','configurations'],'all sequences of feeds, speeds, feed modes, motions, dwells and exchanges',
 'feeds and modes are modal over the program; tests check a few blocks',
 [PC],[('time','AttributesPathCalculator::evaluate')],[('modal feed and speed','last F, S and modes','AttributesPathCalculator')],['time result of each block'])
prop('P05','Path and time are counted for the tool that is in the spindle',
 'The path and time of each block are added to the tool in the spindle, and for each tool the totals are the sums over the blocks cut with it, also if it returns after other tools. A tool is exchanged by its number alone or together with the exchange code, as the machine is configured; choosing a tool in advance does not exchange it.',
 ['histories','configurations'],'all sequences of tool selections, exchanges and motions',
 'depends on the order of tools over the whole program',
 [PC],[('totals per tool','AttributesPathCalculator::evaluate')],[('totals per tool','path and time by tool number','AttributesPathCalculator t_path, t_time')],['tool id and totals of each block'])
prop('P06','Path and time are numbers that never go down, whatever the words',
 'Whatever values the words of a program have (zero, negative, tiny, huge or missing radii, centres, pecks, pitches, feeds, repeat counts and dwells), the path and the time of every block are defined numbers that are not negative, so the totals shown, of the program and of each tool, never go down and never become undefined. A block whose path is not defined (an endless spiral, a peck drilling cycle without a peck) is reported and adds nothing, and the blocks after it are counted as if it had not been there but for the modes it sets.',
 ['inputs','histories','configurations'],'all programs over all values of the words',
 'one odd value may spoil the totals of the rest of the program; tests use ordinary values',
 [PC,LEN],[('path and time','AttributesPathCalculator::evaluate'),('formulas','PathCalculator')],[('totals','path and time','AttributesPathCalculator path_result, time_result')],['path and time result of each block; lenses'])
prop('T01','Unit conversion scales lengths and feeds and nothing else',
 'Converting a block multiplies or divides by 25.4 exactly the lengths and feeds of the block (F, I, J, K, R, U, V, W, X, Y and Z), rounded to the digits the target units allow, turns the code of the old units into that of the new ones and leaves every other word, the order of the words and comments as they are. Dwell times, variables and expressions, vectors of coordinate rotations (wherever in the block the dwell or rotation code is) and skipped blocks keep their values, and converting there and back gives the lengths back to within the rounding.',
 ['inputs'],'all blocks and both directions, for 11 controls',
 'tests convert a few lines',
 ['parser/fanuc/UnitConverter.cpp',AP],[('conversion','UnitConverter')],(),['text of the converted block'])
prop('T02','Rotating the axes is a rotation',
 'Rotating a block by 90, 180 or 270 degrees about X, Y or Z maps its axis and centre words as that rotation maps points and vectors, its plane to the rotated plane and its arc direction so that arcs of the XY plane keep their length, and leaves everything else as it is. Two rotations by 90 give the coordinates of one by 180, and rotating by 90 and by 270 gives the coordinates back.',
 ['inputs'],'all blocks and all nine rotations',
 'tests rotate a few lines',
 ['parser/fanuc/AxesRotator.cpp',AP],[('rotation tables','AxesRotator')],(),['text of the rotated block, path of the rotated program'])
prop('T03','Renumbering gives the blocks the numbers asked for and changes nothing else',
 'Renumbering gives each block that takes a number, in order, the number that start, step, frequency, maximum and number width ask for, restarting from the first allowed number when the maximum is passed; program starts, program names, comments and skipped blocks take none, and existing numbers are replaced or, when only they are wanted, nothing else is numbered. Removing numbers removes only them, and apart from numbers every block stays as it is.',
 ['inputs','histories'],'all programs and all renumbering settings',
 'the counter runs over the program; tests renumber short programs with some settings',
 ['parser/fanuc/Renumberer.cpp',AP],[('counter','Renumberer')],[('counter','next number and position within the frequency','Renumberer')],['text of the blocks'])
prop('T04','Splitting a program loses, repeats and reorders nothing',
 'The parts of a split program put together again, without the inserted retract blocks and the numbering, are the program. A new part starts exactly where the chosen limit says: at a text, every given number of blocks, at each tool change after the first, or when the given cutting path or time is reached, in the last cases not inside a drilling cycle and, if asked for, only at a rapid move; each part but the last ends and each but the first starts with the retract block. The blocks of the parts are numbered consecutively; a program or a wish that cannot be split is refused.',
 ['inputs','histories','configurations'],'all programs and all splitting settings',
 'tests split one or two programs',
 ['parser/fanuc/FileSplitter.cpp',AP],[('splitting','FileSplitter')],[('progress','blocks, path or time in the current part','FileSplitter::evaluate')],['parts'])
prop('T05','Removing comments and block skip marks removes only them',
 'Removing comments removes every comment of a block and nothing else; removing optional block marks removes the numbered marks at its start and nothing else. Both leave blocks without them unchanged and doing it again changes nothing.',
 ['inputs'],'all blocks',
 'tests try a few lines',
 [AP],[('removal','AllAttributesParser::remove_comment, remove_optional_block')],(),['text of the blocks'])
WB='parser/AllAttributesParserWrapperBase.cpp'; WF='parser/fanuc/AllAttributesParserWrapper.cpp'
prop('L01','A parser kept by a client does only what its requests ask for',
 'A parser made through the C interface of the library, kept for many programs, treats each block by its current machine settings, switches and the blocks since the last reset. A reset starts path, time, tool totals, position, modal state and the ranges of the words afresh; forgetting the variables, changing settings or switching an evaluation off or on each does only that. Each answer gives acceptance, message, words, path and time in total and for the tool, tool, units, values and least and greatest values of the words, and the variables by the line that gave them. A parser made without machine settings judges blocks by their words alone and moves nothing, its path and time stay zero. Giving back the answers and the parser frees all they took.',
 ['histories','configurations','inputs'],'all sequences of lines, resets, changes of settings and switches given to one parser',
 'no existing test uses the interface; what a reset must forget shows only after a long enough history',
 [WB,WF,AP,PC],[('conversion of arguments and results','AllAttributesParserWrapper'),('reset','AttributesPathCalculator::reset'),('switches','AllAttributesParser::parse')],
 [('parser','machine, modal state, variables, switches','AllAttributesParser'),('ranges','least and greatest value of each word','AttributesPathCalculator')],['results of the functions of the library'])
prop('L02','Text operations of the C interface do what they say with any parser',
 'Conversion of units, rotation, renumbering, splitting and the removal of numbers, comments and block skip marks through the C interface give, for each block, text or program, what the operation means, complete, also with a parser made without machine settings and whatever it read before; a part that is empty is returned as empty. What needs a machine (splitting by path or time) is refused with a message by a parser without settings. Giving back the results frees all they took.',
 ['inputs','histories','configurations'],'all blocks and programs, all operations and their settings, parsers made with or without machine settings',
 'the existing tests call the classes behind the interface, never the interface',
 [WB,WF,AP],[('conversion of arguments and results','AllAttributesParserWrapper'),('operations','AllAttributesParser')],(),['results of the functions of the library'])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in P))
print(len(P)); assert all(len(p['title'])<=80 for p in P)
