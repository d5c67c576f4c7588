# writes /verif/MANIFEST.json: the checks that are claimed and the properties that are not
import json
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
TECH={
 'C03':'explicit-state model checking: BFS over all states reachable by runs of the real plan generator on the real SQL Server adapter (speaking TDS), against a model server bound by replaying the recorded server tests',
 'C02':'explicit-state model checking: BFS over all states reachable by runs of the real plan generator on the real PostgreSQL adapter, against a model server bound by replaying the recorded server tests',
 'C01':'explicit-state model checking: BFS over all states reachable by runs of the real plan generator on the real MySQL adapter, against a model server bound by replaying the recorded server tests',
 'C04':'explicit-state model checking on the real implementation: BFS over SQLite files with the real engine, adapter and plan generator',
 'C05':'explicit-state model checking: a second run from every reached state must plan nothing',
 'C06':'explicit-state model checking: from every reached state of the MySQL model server (through the real adapter) and of real SQLite files, the export is taken twice, planned against the same state, and applied to an empty database by the database and by the tool',
 'C07':'explicit-state model checking: the real binaries are run from every initial state with every file of every family, dry, exporting, skipping, failing and for real; every statement the model server (or the SQLite journal) received is monitored',
 'C08':'explicit-state model checking: the real binaries run every transition of every family with skip-drop on the model server and on real SQLite files; the executed, printed and withheld statements are compared with the ordinary plan and the state before and after object by object',
 'C09':'exhaustive fault enumeration: for every transition, a failure is injected at every single database operation (connect, each catalog query, rows cut in the middle, begin, each statement, commit, hang-up), on the model server and on real SQLite files',
 'C10':'explicit-state model checking: every intermediate state of every transition is compared object by object with start and goal; every transition is repeated with unrelated tables added to both sides, in three file orders and with changes of their own',
 'C11':'bounded exhaustive exploration of the real tools: all one-token changes, truncations and semantic defects of a corpus of schema files at every position, in every dialect, planned by the real generator and run by the real binaries on model servers and real SQLite files with all executed statements monitored',
 'C15':'explicit-state model checking: every ordered pair of definitions from bounded grammars of conditions, expressions, queries, triggers, policies, defaults and foreign-key rules is a transition from the state with the one to the file with the other, on the model servers and the real SQLite; every intermediate state is compared with start and goal',
 'C16':'bounded exhaustive exploration of the real binaries: all bytes and all pairs of separators in every connection setting and channel, decoy servers and files monitored, against protocol servers that record the handshake',
 'C17':'bounded exhaustive exploration of the real binaries: all subsets, spellings and orders of the documented options within bounds, run on model servers and real SQLite files; status, streams, connections and executed statements compared with a reference model of the command line',
 'C12':'explicit-state model checking: every transition between neighbouring reached states is repeated with the file in some fifty other spellings; emptiness and effect of the plan are compared, and a database made from one spelling must satisfy the others; the real binaries read them by path and from standard input',
 'C13':'bounded exhaustive exploration of the real parser: all sentences of depth-2 derivations of its grammar in all dialect modes, alone, reordered and concurrently; all one-token changes, truncations and short byte strings',
 'C14':'bounded exhaustive exploration of the real parser and printer: all depth-2 grammar sentences in all modes, all operator trees of up to 3 operators, all identifier and literal forms in all slots; print, reparse, compare trees',
 'C18':'bounded exhaustive exploration of the real encoders, tokenizer, printer and bind substitution: all byte strings up to 2 bytes in all column types, all strings over the bytes that need escaping to length 4, all number-like texts to length 5, all values in all query positions; against an independent decoder and tree comparison',
 'C19':'bounded exhaustive exploration of the real normaliser and redactor: all depth-2 grammar queries, all combinations of four literals or variables in all positions of a set of queries, all combinations of existing variable names; substitute back as tree and as text and compare, scan the redacted text for literals',
 'C20':'bounded exhaustive exploration of the real splitter and streaming parser: all sequences of 40 statement fragments to length 3 (17 ordinary ones to 4), all two-way chunkings, buffer alignments, failing readers; against an independent splitter and parsing each piece alone',
}
LEVEL={'C11':'exploration','C16':'exploration','C17':'exploration','C09':'fault_enumeration','C18':'exploration','C19':'exploration','C20':'exploration','C14':'exploration','C13':'exploration'}
NOTE={'':'exhaustive within the stated bounds (families of schema files, reachable states); trusts the model servers where there is no real engine (bound by replaying the repository\'s recorded server tests)',
 'C04':'exhaustive within the stated bounds on the real engine; nothing but SQLite itself is trusted'}
PEND='check not built yet'
checks=[]
for i in ids:
    if i in TECH:
        checks.append({"property":i,"level":LEVEL.get(i,"model_checking"),"technique":TECH[i],"level_note":NOTE.get(i,NOTE['']),"quick_cmd":"./run.sh %s"%i,"thorough_cmd":"./run.sh %s -thorough"%i})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":[{"property":i,"reason":PEND} for i in ids if i not in TECH]},open('/verif/MANIFEST.json','w'),indent=1)
