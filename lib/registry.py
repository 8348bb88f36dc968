import progs, rules, exprs, texts, session, docs, hover, settings, library, usermac, client
def _f(k):
    for m in (progs, rules, exprs, texts, session, docs, hover, settings, library, usermac, client):
        if hasattr(m, k): return getattr(m, k)
ALL = ('S01', 'S02', 'S03', 'S04', 'S05', 'S06', 'S07', 'S08', 'V01', 'V02', 'V03', 'V04', 'M01', 'M02', 'M03', 'M04', 'P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'T01', 'T02', 'T03', 'T04', 'T05', 'L01', 'L02', 'E01')
CHECKS = {k: (_f(k), 'model_checking') for k in ALL}
TOUR = 'TLA+ model checked with TLC; every transition of its graph and random programs judged by it replayed into the real parser'
PN = ('The specification of the interpreter of a program (NCPath, NCMachine, NCRules) is explored exhaustively over small alphabets with the step properties of NCProps, '
      'each of its transitions is replayed into the parser, and random programs of all features are judged by the specification block by block. Assurance is bounded by the '
      'alphabets, depths and sampled programs; lengths are symbolic terms in the specification and evaluated in floating point outside it.')
NOTES = {k: (TOUR, PN) for k in CHECKS}
NOTES['M02'] = ('TLA+ specification of the expression language run by TLC over all token strings up to a bound and over random expressions; its verdict and value compared with the real evaluator',
    'NCExpr is an operator precedence machine over tokens with exact rational values where they stay rational (otherwise symbolic); every token string up to the depth and random longer expressions are judged by it and given to the real evaluator.')
NOTES['M04'] = ('TLA+ specification of what stands in brackets (a machine and a definition by positions, checked with TLC to agree) run over all token strings up to a bound and over random ones; its verdict compared with the real parser',
    'NCCond says of each sequence of tokens after IF, WHILE or an address whether it is whole, broken or lacks the value of a variable; every sequence up to the depth and random longer ones are given to the parser. Values of brackets are not judged (known finding), flow of control is not followed by the parser.')
NOTES['T01'] = NOTES['T02'] = NOTES['T05'] = ('TLA+ specification of the text operation checked with TLC over all blocks of an alphabet; each block and random ones replayed into the real parser and compared item by item',
    'NCText says what becomes of each item of a block, with digits as sequences so that conversion and rounding are exact; TLC checks there-and-back, group and idempotence laws on it. Assurance is bounded by the alphabet, depth and sampled blocks.')
NOTES['T03'] = ('TLA+ specification of the counter checked with TLC over all programs of an alphabet and settings; each program replayed into the real renumberer',
    'NCText Numbered and NCNumTour: all programs up to the depth for a list of settings, with the sequence, width, frequency and only-numbers laws as invariants, and random programs and settings judged by it.')
NOTES['T04'] = ('TLA+ specification of splitting checked with TLC over all programs of an alphabet and wishes; programs replayed into the real splitter and the parts compared',
    'NCSplit: lossless, order and limit laws are invariants over all programs up to the depth; path and time of random programs come from the interpreter specification.')
NOTES['S01'] = NOTES['S02'] = ('TLA+ specification of the exchange of messages checked with TLC over all sequences of an alphabet; the sequences replayed into the running server and its answers compared',
    'NCSession keeps the open documents and says which answer each message gets, NCWire how a stream of bytes falls into messages, NCMessage what becomes of messages with wrong or missing members; answers that depend on a document are compared with those of a fresh server for the same text.')
NOTES['S03'] = ('TLA+ specification of malformed messages and streams checked with TLC and replayed into the running server; texts nobody would write judged by its frame condition',
    'Every single (and in the thorough run pairs of) wrong members of every message, all streams of a header alphabet up to a length, and random odd texts between ordinary ones: the specification says that the lines before, the other documents and all answers stay as they are.')
NOTES['S04'] = NOTES['S05'] = ('TLA+ specification of documents over the interpreter specification, run by TLC over all documents of an alphabet and random documents; its diagnostics and totals compared with those of the running server',
    'NCDoc says for each line whether it is accepted, where its diagnostic is and what path and time it takes; all documents of an alphabet up to a length and random ones of all features are opened in the server.')
NOTES['S06'] = ('TLA+ specification of what a place means, run by TLC over all lines of an alphabet and random documents; every place hovered in the running server, every code and variable of a control looked up',
    'NCHover finds the word at a place and what it stands for after the lines before; descriptions are read from the tables of the controls.')
NOTES['S07'] = ('TLA+ specification of the life of the settings file checked with TLC and replayed beside the running server; machines that differ in one value judged by the interpreter specification',
    'NCSettings: every value of the file missing or malformed in each way, and histories of writing, breaking and repairing the file between openings, hovers and completions. For each value, documents judged by the specification for two machines that differ only in it.')

NOTES['L01'] = ('TLA+ specification of a parser kept by a client checked with TLC; every transition of its graph and random sessions judged by it replayed through the C interface of the library',
    'NCLibrary adds resets, changes of settings, switches, ranges of the words and the variables by line to the interpreter specification. Tours over an alphabet of requests and random sessions of several programs are compared answer by answer. Assurance is bounded by the alphabets, depths and sampled sessions.')
NOTES['L02'] = ('TLA+ specification of the text operations run by TLC over random blocks and programs, replayed through the C interface of the library and compared character by character but for blanks',
    'NCText and NCSplit judge random blocks, numbering histories and splittings; parsers made with and without machine settings get them through the flat functions and structures of the library.')
NOTES['S08'] = ('TLA+ specification of the life of the user\'s file of descriptions checked with TLC; its histories replayed beside the running server',
    'NCUser: the file good in four ways, absent, broken or of another shape, over all histories up to a depth of writing, opening, hovering, resolving and completing; a sample of them with each start is replayed. Descriptions are read from the tables of the controls.')
NOTES['E01'] = ('TLA+ specification of the extension checked with TLC; every transition of its graph and random histories replayed into the compiled extension with stand-ins for the editor, the language client and processes; its command lines given to the real server',
    'NCClient says for each activation, command, change of a setting, write of the settings file and end of the configuration tool what is started, restarted, asked, written and shown. Assurance is bounded by the alphabets, depths and sampled histories, and by the stand-ins, which follow the documented behaviour of the editor.')
