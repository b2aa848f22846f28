import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","An input that cannot be read is never silently ignored",
 "If opening, listing or reading a file or directory that belongs to a configured artefact fails at any point, or a file yields bytes that are not valid text, then the run either still obtains that input completely or every Markdown, JSON and GNU-error report of the run contains an error naming that path. The same goes for an artefact whose list of paths is empty or longer than its parser takes (the error names the artefact) and for a pattern that is not valid. In these cases the run does not exit 0 if any of its jobs sets the return code.",
 ["fault_sequences","inputs","configurations"],
 "every open/read/listing call on every input of every artefact kind, every errno, every byte offset, transient or persistent; missing files; corrupted bytes",
 "The tests have one missing Markdown file; no test makes an open, a read in the middle of a file or a directory listing fail, for any of the four parsers.",
 ["src/controller.rs","src/parsers/markdown.rs","src/parsers/monoreq.rs","src/parsers/rust.rs"],
 [("I/O errors turned into recorded errors","src/controller.rs parse_single_file, parse_multiple_files, glob_paths"),("read errors inside parsers","src/parsers/*.rs parse")],
 ["reports written by Parse and Trace jobs","process exit status"],
 [("Artefact.errors","errors met while reading an artefact","src/models.rs")])
p("C02","A failing input does not disturb the other inputs",
 "When some input files fail (cannot be opened, listed, read to the end, decoded or parsed), every requirement and every input error of all the other files is reported exactly as in a run where nothing fails, that is as written in those files, including files of the same artefact. Coverage, uncovered and derived results are exactly those that follow from the requirements that remain.",
 ["fault_sequences","inputs","configurations"],
 "every subset of failing inputs, every point of failure, every artefact graph",
 "One test has parse errors in two Markdown files; none has a failing read next to healthy files, none a failing file inside a multi-file artefact, none checks the trace of the remainder.",
 ["src/controller.rs","src/parsers/markdown.rs","src/parsers/monoreq.rs","src/parsers/rust.rs","src/trace.rs"],
 [("per-file error collection, processing continues","src/controller.rs parse_from_config"),("tracing over what was parsed","src/trace.rs")],
 ["JSON and Markdown reports of Parse and Trace jobs"])
p("C03","Reports do not depend on how the system delivers the data",
 "For fixed input contents, configuration and job list, the bytes of every report and the exit status are the same however reads and writes are split, whichever calls are interrupted and retried, in whatever order directories are listed, whatever the clock shows and however hash seeds or the log level are chosen.",
 ["schedules","fault_sequences","configurations"],
 "every split of every read and write, every placement of EINTR, every directory order, every clock behaviour (jumps, backwards), hash seed, log level",
 "Tests read small files in one piece from an idle disk and run each case once; none repeats a run under another delivery.",
 ["src/controller.rs","src/parsers/markdown.rs","src/parsers/monoreq.rs","src/parsers/rust.rs","src/formatters/mod.rs","src/formatters/markdown.rs","src/formatters/tags.rs","src/formatters/serialize.rs"],
 [("buffered line reading, read_to_string","src/parsers/*.rs"),("ordered maps and sorting","src/trace.rs, src/formatters/*.rs"),("write_all","src/formatters/*.rs")],
 ["report bytes","stdout bytes","exit status"])
p("C04","Lost output is never reported as success",
 "If a run exits 0 or 1, every report of every requested job has arrived completely: the file, or the job's part of standard output, holds exactly the bytes an undisturbed run writes. If a directory, a file or any part of a report could not be written (disk full, I/O error, broken pipe, zero-length write), the run exits 2 and says so on standard error.",
 ["fault_sequences","crash_points"],
 "every mkdir/create/write call of every job in every format, every errno, short write followed by an error, transient or persistent, on files and on standard output",
 "No test makes any output operation fail, and no test writes to standard output.",
 ["src/controller.rs","src/main.rs","src/formatters/mod.rs","src/formatters/markdown.rs","src/formatters/gnuerr.rs","src/formatters/tags.rs"],
 [("propagation of io::Result from formatters","src/formatters/*.rs, src/controller.rs Controller::run"),("exit code 2 on error","src/main.rs main_rc")],
 ["report files","standard output","standard error","exit status"])
p("C05","Every requested job is carried out, whatever happens to the others",
 "All requested jobs (or the default jobs if none are named) are carried out in the requested order, each writing its own complete report. A job whose report cannot be written, or that finds errors, neither suppresses nor changes the report of any other job that goes to a different destination, and its failure is still reflected in the exit status.",
 ["fault_sequences","configurations"],
 "every job list (length, order, repeats, formats, destinations) and every output failure in any job",
 "Tests run at most two jobs and never with a failing output.",
 ["src/controller.rs","src/main.rs"],
 [("job loop","src/controller.rs run_default_jobs, run_jobs_by_name, run_jobs")],
 ["report files","standard output","exit status"])
p("C06","A rejected invocation exits 2 and touches nothing",
 "If the command line has an unknown option or an option without its value, if the configuration cannot be read, is not valid TOML of the expected shape, has an unsupported version, relates unknown artefacts or defines an artefact id twice, or if a requested job does not exist or no job is requested and no default jobs are configured, the run exits 2, explains why on standard error and creates, changes or truncates no file. This holds even when other requested jobs are valid and wherever the configuration file was cut off or failed to be read; a configuration that is cut off but still valid is run as it stands.",
 ["inputs","fault_sequences","configurations"],
 "every truncation point and corruption of the configuration, every failing open/read of it, every job list with unknown names in any position, unknown options and missing values anywhere on the command line",
 "No test runs the command line program; none has an invalid or unreadable configuration or an unknown job.",
 ["src/main.rs","src/controller.rs","src/models.rs"],
 [("configuration loading","src/main.rs get_config"),("job lookup before any job runs","src/controller.rs run_jobs_by_name"),("relation checks","src/controller.rs Controller::new")],
 ["exit status","standard error","file tree before and after"])
p("C07","The exit status tells the truth",
 "A run that is not rejected and writes all its reports exits 1 exactly when some requested job that sets the return code found a problem, and 0 otherwise: for a Parse job an input error, for a Trace job an input error, a tracing error, an uncovered requirement or a derived requirement in an artefact that does not ignore them. Jobs configured not to set the return code never change it, and a run that could not write a report exits 2 whatever else was found.",
 ["inputs","configurations","fault_sequences"],
 "every project content, every mix of jobs with and without return code, every combination of input and output faults",
 "The test checks five fixed job lists over one misconfigured artefact through the library, never the process exit status and never with faults.",
 ["src/main.rs","src/controller.rs","src/trace.rs"],
 [("success computation","src/controller.rs Controller::run"),("set_return_code","src/controller.rs run_jobs"),("mapping to process status","src/main.rs main_rc")],
 ["exit status compared with the contents of the reports"])
p("C08","Every run ends by itself with a documented exit status",
 "For any bytes in the inputs and the configuration, any mix of query and format in a job and any sequence of failing, short or interrupted system calls, on inputs, reports, standard output or standard error, the run ends after a bounded number of steps with exit status 0, 1 or 2. It never panics, dies from a signal or loops.",
 ["inputs","fault_sequences","configurations"],
 "arbitrary, torn and corrupted file contents (nesting depth up to 40, files up to 64 KiB) and arbitrary sequences of I/O faults, including permanently failing reads and writes; allocation failure and stack exhaustion are outside",
 "Tests feed a dozen well-formed snippets; no corrupted or cut-off file, no failing system call.",
 ["src/main.rs","src/controller.rs","src/parsers/markdown.rs","src/parsers/monoreq.rs","src/parsers/rust.rs","src/formatters/mod.rs","src/aggregator.rs","src/trace.rs"],
 [("error values instead of panics","whole program"),("read loops end on error","src/parsers/*.rs")],
 ["termination status","number of system calls"])
p("C09","A rerun converges, whatever happened before",
 "After any history of edits, faulted runs, runs killed at any point (also in the middle of a write), clock changes and foreign content at the output paths, an undisturbed run yields the same exit status and byte-identical reports as a first run on a fresh copy of the present inputs. Nothing of an earlier run or an earlier version of the inputs shows in them.",
 ["histories","crash_points","fault_sequences"],
 "every sequence of edit, run, faulted run, kill at any system call with a torn last write, stale or longer or damaged earlier outputs, arbitrary time stamps",
 "Every test runs once into an empty output directory.",
 ["src/controller.rs","src/formatters/mod.rs"],
 [("outputs truncated and rewritten, no cache","src/controller.rs Controller::run")],
 ["report files","exit status"])
p("C10","A run writes nothing but the requested reports",
 "A run, whether it completes, fails or is killed at any point, never changes, removes or renames the configuration, an input or any other existing file except the report files of the jobs requested in this invocation. When it ends by itself, the only new files and directories are those reports and their missing parent directories.",
 ["inputs","fault_sequences","crash_points","configurations"],
 "every project, job list, fault sequence and kill point",
 "Tests look only at the report files they expect.",
 ["src/controller.rs","src/main.rs"],
 [("only create_dir_all and File::create on the job's file","src/controller.rs Controller::run")],
 ["complete file tree before and after"])
p("C11","All reports of one run describe one version of every input",
 "When input files are replaced (atomically, as by rename) or deleted while a run is in progress, every report and the exit status of that run still describe one and the same version of each input file, a version that the file had at some time during the run. Reports of different jobs of the run never describe different versions.",
 ["schedules","histories"],
 "every interleaving of atomic replacements and deletions of input files with the steps of a run",
 "In the tests nothing changes the inputs during a run.",
 ["src/controller.rs"],
 [("inputs are read once, before the first job","src/controller.rs Controller::new")],
 ["reports of several jobs of one run"],
 [("graph, traced_graph","the only source of all reports of a run","src/controller.rs Controller")])
p("C12","Coverage verdicts are exact for whatever could be read",
 "The requirements a run reports as read are those of the inputs it could read, and for these each relation lists exactly the coverages that exist (the upper requirement depends on the lower one, or the lower one covers the upper one, the lower one being in one of the relation's lower artefacts) with the location of each reference, and lists as uncovered exactly the upper requirements with no such coverage. A requirement is listed as derived exactly if it covers nothing along any relation and its artefact does not ignore derived requirements, which is the default for artefacts below no relation. Stated for projects with unique requirement ids, at every point of a project's history and with any inputs missing, unreadable or cut off.",
 ["inputs","configurations","histories","fault_sequences"],
 "every artefact graph (several relations, shared and repeated lowers, self relations), every set of references in both directions, every subset of inputs that fails or is torn",
 "Two tests trace one reference between two artefacts; none has a relation with several lowers, a requirement in several relations, or partially read inputs.",
 ["src/trace.rs","src/controller.rs","src/aggregator.rs","src/formatters/gnuerr.rs","src/formatters/markdown.rs"],
 [("tracing of relations","src/trace.rs trace_relation"),("derived bookkeeping","src/trace.rs add_artefact"),("root detection","src/controller.rs Controller::new")],
 ["Trace reports"])
p("C13","References are checked exactly",
 "For the requirements of the inputs a run could read, a reference is reported as unknown exactly if no relation joins it to an existing requirement in the right direction, with a location at which it is made; a reference made with a title that differs from the referenced requirement's title is reported with the referenced requirement, the wrong title and the location of the reference; a reference without title to an artefact that demands titles, and a requirement without title in such an artefact, are reported. A relation along which nothing is covered is reported, and no other tracing error appears in a project with unique requirement ids.",
 ["inputs","configurations","histories","fault_sequences"],
 "every set of references with and without titles, every graph, every subset of inputs that fails or is torn so that referenced requirements vanish",
 "One test checks missing titles and the data tests contain no wrong title, no unknown reference and no unused relation.",
 ["src/trace.rs","src/controller.rs"],
 [("invalid link bookkeeping","src/trace.rs add_artefact, validate"),("title checks","src/trace.rs trace_relation"),("RequirementWithoutTitle","src/controller.rs Controller::new")],
 ["Trace reports"])
p("C14","Duplicate requirement ids are always reported",
 "Whenever more than one requirement with the same id is read, in one file, in several files of an artefact or in different artefacts, every further definition is reported as a duplicate with the id and both locations: within an artefact in every Markdown, JSON and GNU-error report, between artefacts in every Trace report. Within a file the first definition stays in the report, and no duplicate is reported when all ids read are distinct.",
 ["inputs","configurations","fault_sequences"],
 "every placement of repeated ids over files, artefacts and formats, every directory order, every subset of inputs that fails",
 "Two tests have one duplicate each, in Markdown only.",
 ["src/controller.rs","src/trace.rs","src/formatters/markdown.rs","src/formatters/gnuerr.rs"],
 [("duplicate detection in an artefact","src/controller.rs parse_from_config"),("duplicate detection between artefacts","src/trace.rs add_artefact")],
 ["Parse and Trace reports"])
p("C15","What is read is reported as written, even from cut-off files",
 "Every requirement present in the bytes read from an input appears in the report with the id, title, references (ids, titles, order), lines or positions, description and attribute texts written there, in all four input formats. If a file ends at an arbitrary byte, all requirements before the cut are unaffected, and anything that is left out or cannot be interpreted is accompanied by an error naming that file, and the line where the format has lines.",
 ["inputs","crash_points","fault_sequences"],
 "every generated document in the documented Markdown, Mono-Requirement, Rust and JSON formats, cut off at every byte (a torn write by whatever produced it), delivered in any pieces",
 "Unit tests parse four small documents and compare ids and titles; the description and attribute texts are compared nowhere and no file is cut off.",
 ["src/parsers/markdown.rs","src/parsers/monoreq.rs","src/parsers/rust.rs","src/controller.rs","src/formatters/serialize.rs"],
 [("line state machine","src/parsers/markdown.rs"),("arrow references","src/parsers/monoreq.rs"),("syntax tree visit","src/parsers/rust.rs"),("serde","src/models.rs")],
 ["JSON report of a Parse job"])
p("C16","All reports of a run agree with each other",
 "The Markdown, JSON, GNU-error and tags reports written by one run name the same requirements with the same locations, the same input and tracing errors, the same uncovered and the same derived requirements, each as far as its format carries that information (of an id defined in several artefacts, the Markdown trace may show any one definition). The tags report is sorted and has one line per requirement that has a line number.",
 ["inputs","configurations","fault_sequences"],
 "every project content including damaged inputs, every set of error kinds, ids unique across the project",
 "Only Markdown traces and one JSON parse report are compared with files; GNU-error, tags and JSON traces are not tested at all.",
 ["src/formatters/mod.rs","src/formatters/markdown.rs","src/formatters/gnuerr.rs","src/formatters/tags.rs","src/formatters/serialize.rs","src/aggregator.rs"],
 [("one graph behind all formatters","src/controller.rs"),("cross reference tables","src/aggregator.rs")],
 ["all reports of one run"])
p("C17","Exported requirements can be imported again without loss",
 "The requirement list of a JSON export, used as a JSON artefact, yields exactly the exported requirements (ids, titles, locations, references, tags, attributes) and the same tracing results, any number of times in a row and also after exports that were killed and repeated. A requirement list that was cut off is reported as an error and never taken as complete.",
 ["histories","crash_points","inputs"],
 "every project, every chain of export and import, kills and faults during the export, every cut of the exchanged file",
 "The JSON parser is tested on two hand-written files; nothing is ever imported that the tool exported.",
 ["src/controller.rs","src/models.rs","src/formatters/serialize.rs"],
 [("serde Serialize/Deserialize of Requirement","src/models.rs"),("JSON export","src/formatters/mod.rs requirements")],
 ["JSON reports along the chain"])
p("C22","Runs at the same time do not disturb each other",
 "When several runs of reqtrace on one project overlap in time (for example started by a parallel build), each of them ends with the exit status, the standard output and the reports that it would have alone, however the calls of the runs interleave: also if they create the same directories, and also if two of them write the same report of the same job. If one of the runs fails or is killed at any point, the others, which write other reports, are not affected. Nothing but the requested reports and their directories remains.",
 ["schedules","fault_sequences","crash_points","inputs"],
 "every interleaving of the calls of two or more runs, every list of jobs of each, every failure or death of one of them",
 "Each test starts one run and waits for its end; no test has two of them on one disk.",
 ["src/controller.rs","src/main.rs"],
 [("creation of report directories and files","src/controller.rs run"),("configuration and inputs only read","src/main.rs get_config")],
 ["exit statuses","report files","standard output of each run","file tree"])
# not claimed
p("C18","Location texts survive printing and parsing",
 "Printing a location with a line or line and column and parsing the text again gives the same location for every file name that does not itself end in colon and digits.",
 ["inputs"],"every file name and position",
 "Seven fixed strings are tested.",["src/models.rs"],[("LOCATION_RE, Display","src/models.rs")],["library API only"])
p("C19","Positions in a file are ordered consistently",
 "Comparing two positions in a file is a partial order: antisymmetric, transitive and consistent with equality.",
 ["inputs"],"every triple of positions","Not tested.",["src/models.rs"],[("PartialOrd for LocationInFile","src/models.rs")],["library API only"])
p("C20","Links inside the Markdown report resolve",
 "Every link to a requirement in a Markdown report points to the anchor that the common Markdown renderers generate for that requirement's heading in the same report.",
 ["inputs"],"every id and title","Golden files contain a few ASCII titles.",["src/formatters/markdown.rs"],[("requirement_link","src/formatters/markdown.rs")],["Markdown report"])
p("C21","Ids are compared in Unicode normal form",
 "Two requirement ids are the same if and only if their NFC normal forms are equal.",
 ["inputs"],"every pair of ids","Not tested (and not implemented).",["src/parsers/markdown.rs","src/trace.rs"],[("documented as FMT_UNICODE_NORMALIZE","doc/requirements/FORMATS.md")],["reports"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d,ensure_ascii=False)+"\n" for d in P))
