import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Reported file content equals the content git stores for that commit",
 "For every commit and every non-binary file that history processing reports for it, the reported lines in order are exactly the lines of that file in that commit (carriage returns at line ends aside), a removed file is reported with no lines, and a file whose last content change git shows as a binary difference (for a merge: a binary difference to any parent, or any difference to a parent where the file is reported as binary) is reported as binary with no lines. This holds through renames, copies of content, mode changes, missing final newlines, empty files, type changes, binary/text transitions and merges of any number of parents, for any line content.",
 ["inputs","histories"],"every git history (DAG of commits with arbitrary trees and arbitrary line content), every commit and every reported file",
 "The tests replay about 40 fixed repositories with a handful of lines each; content goes through three text parsers and incremental patching, where an off-by-one for some hunk shape, line prefix or merge shape only shows up on inputs they do not contain.",
 ["ripsrc/history3/process/process.go","ripsrc/history3/process/parser/parser.go","ripsrc/history3/incblame/parse.go","ripsrc/history3/incblame/apply.go","ripsrc/history3/incblame/apply_merge2.go","ripsrc/gitblame2/gitblame.go"],
 [("incremental patch application","incblame.Apply / ApplyMerge"),("log stream parsing","parser.Parser"),("slow path after binary versions","Process.slowGitBlame")],
 ["process.Process.RunGetAll result: Files[path].Lines[i].Line and IsBinary"])

p("C02","Every line is attributed to the commit that introduced it",
 "A line of a reported text file is attributed to an earlier commit exactly when git's diff carries it over unchanged from a parent (following git's detected renames), in which case it keeps the attribution it had there; otherwise it is attributed to the commit itself. In a merge, a file identical to some parent keeps the attribution of one such parent, and in a file that differs from every parent each line takes the attribution of the first parent that carries it, or of the merge commit if none does. A text version that follows a version reported as binary is attributed as git blame does.",
 ["inputs","histories"],"every history, including criss-cross and octopus merges, renames, deletions and re-additions, with unique or repeated lines",
 "Attribution accumulates over the whole history, so an error needs a particular sequence of edits, renames and merges; the tests contain single-purpose histories of two to five commits.",
 ["ripsrc/history3/process/process.go","ripsrc/history3/incblame/apply.go","ripsrc/history3/incblame/apply_merge2.go"],
 [("copying of parent lines by hunk position","incblame.Apply"),("first parent wins among merge candidates","incblame.ApplyMerge"),("unchanged files copied from parents","Process.processRegularCommit, processMergeCommit")],
 ["process.Process.RunGetAll result: Files[path].Lines[i].Commit"],
 [("repo","blame data per commit and path","process.Process.repo")])

p("C03","Each commit and each changed file is reported exactly once, parents first",
 "A full run reports every commit reachable from HEAD (with all-branches: from any ref) exactly once and nothing else, and no commit before one of its parents, whatever the commit dates are. For a non-merge commit the files reported are exactly those added, modified, mode-changed, removed or renamed to relative to its parent; for a merge commit exactly those that differ from every parent, those a parent had that the merge removed (not renamed), and those where the difference to some parent involves binary content.",
 ["histories"],"every history and ref layout, including several roots, empty commits, equal or decreasing commit dates, and merges of any arity",
 "The tests list the expected commits of fixed repositories with increasing dates; dropped or duplicated commits depend on how merge parts, empty diffs and empty messages follow each other in the log stream.",
 ["ripsrc/history3/process/process.go","ripsrc/history3/process/parser/parser.go"],
 [("grouping of per-parent merge diffs","Process.processCommit / processGotMergeParts"),("log traversal order","Process.gitLogPatches"),("state machine over log lines","parser.Parser.line")],
 ["process.Process.RunGetAll result: Commit and key set of Files"])

p("C04","Incremental runs report the same as a full run",
 "After a run has written its checkpoint, a later run that starts from a commit (inclusive or exclusive) reports exactly the commits of that range and, for each of them, the same files with the same lines and attributions as a full run over the grown repository. This holds for any number of successive incremental runs (in histories whose commit dates do not run backwards, which git's own range walk needs), for histories with merges, empty trees, removed files and rewritten heads, for runs over several refs, and for non-strict resumption from any earlier non-root commit kept in the checkpoint.",
 ["histories","configurations"],"every history split at arbitrary points into runs, every start commit, inclusive and exclusive mode, strict and non-strict resume",
 "One test starts from one commit of one linear repository; equality with a full run is a relation between two runs that depends on everything the checkpoint has to carry.",
 ["ripsrc/history3/process/process.go","ripsrc/history3/process/repo/reader.go","ripsrc/history3/process/repo/writer.go","ripsrc/code.go","ripsrc/commitmeta/commitmeta.go"],
 [("checkpoint load before the first commit","Process.initCheckpoints"),("checkpoint write after the last commit","Process.Run / CheckpointWriter.Write"),("range arguments","Process.gitLogPatches, commitmeta.Processor.gitLog")],
 ["results of successive process runs sharing a checkpoint directory, against one full run"])

p("C05","A checkpoint reads back exactly as written and only for its own commit",
 "Reading a written checkpoint returns the same commits, paths, line contents, line attributions and binary flags, including commits with no files, whatever was stored in the directory before. A read that expects another commit than the one the checkpoint was written for, or that finds no checkpoint, fails with an error and returns no data.",
 ["inputs"],"every blame database (any sharing of files and lines between commits, any bytes in lines, any paths) and every expected commit",
 "There is one fixed database in the tests; sharing, deduplication by hash, empty values and overwriting combine in ways only generated databases reach.",
 ["ripsrc/history3/process/repo/writer.go","ripsrc/history3/process/repo/reader.go","ripsrc/history3/process/repo/msgp.go","ripsrc/history3/process/repo/disk/disk_gen.go"],
 [("pointer numbering and deduplication","CheckpointWriter.Write"),("expected-commit check","CheckpointReader.Read")],
 ["repo.CheckpointWriter.Write followed by repo.CheckpointReader.Read"])

p("C06","An interrupted checkpoint write never yields a mixed or partial checkpoint",
 "If writing a checkpoint is cut short by process death at any point, or any file operation it performs fails, a later read returns exactly the previous checkpoint, exactly the new one, or an error, never a mixture or a truncated one. A failed operation is returned as an error rather than crashing the process, and repeating the write afterwards gives the new checkpoint.",
 ["crash_points","fault_sequences"],"every crash point between two file operations of the write, every single failing file operation, for generated old and new databases",
 "No test kills or fails a write; the guarantee is over all points of the operation sequence.",
 ["ripsrc/history3/process/repo/writer.go","ripsrc/history3/process/repo/msgp.go","ripsrc/history3/process/repo/reader.go"],
 [("temporary directory renamed into place last","CheckpointWriter.Write"),("per-file tmp plus rename","msgWriter.Finish, writeFileAtomic")],
 ["state of the checkpoint directory after a killed or failed write, as seen by repo.CheckpointReader.Read"])

p("C07","Commit metadata is exactly what the commit records",
 "For each commit the reported author name and email, committer name and email, author date (the same instant), subject and parents in order are those stored in the commit, and ordinals number the reported commits 1, 2, 3, ... in the order they are reported. This holds for any characters git can store in these fields, for subjects of any length and for any date that git can show (text in another declared encoding is converted to UTF-8); each commit of the requested range (of HEAD, of all refs, or of the refs that were asked for) appears exactly once (for ranges: in histories whose commit dates do not run backwards, which git's own range walk needs).",
 ["inputs","histories"],"every commit header: unusual, empty or long names, emails and subjects, any timezone, any parents",
 "The tests compare a few commits with plain ASCII fields; the output is parsed from a line protocol in which field content can imitate or break the framing.",
 ["ripsrc/commitmeta/commitmeta.go","ripsrc/commit_info.go"],
 [("prefixed line protocol","Processor.gitLog format string, parser.parse")],
 ["commitmeta.Processor.RunSlice, ripsrc Code results' Commit"])

p("C08","Per-commit change records match git's own change list",
 "For each non-merge commit the change record lists, for regular files, exactly the files git lists: status added, modified or removed, for a rename a removed record for the old path and an added record for the new one that name each other, and the added and deleted line counts and binary flag git reports for the file. No file is listed under another file's name and none is missing.",
 ["inputs","histories"],"every non-merge commit with any combination of additions, edits, removals, renames (including within, into and out of directories), mode changes and binary files",
 "The tests check two small repositories; renames are reconstructed from git's abbreviated {old => new} notation, whose shapes they do not enumerate.",
 ["ripsrc/commitmeta/commitmeta.go"],
 [("raw line parsing","parser.parse, state files"),("numstat matching and rename notation","getFilename")],
 ["commitmeta.Processor.RunSlice: Commit.Files"])

p("C09","Branch commits and branch points are exact",
 "For every non-default branch or pull request, the commits listed are exactly those reachable from its head that are not reachable from the default head without passing through the branch head, each once, ending with the head; FirstCommit is the first listed (for the default branch: a root commit). The branch points listed are exactly, sorted, those parents of listed commits that are reachable from the default head (without passing through the branch head) and from which no other such parent can be reached; for the default branch the commits are all those reachable from it.",
 ["histories"],"every commit DAG and every choice of default head and branch heads, merged or not, including criss-cross merges, several roots and branches of branches",
 "The tests fix some twenty small graphs; reachability with a cut at the branch head is a statement about all graphs.",
 ["ripsrc/branches2/branch_commits.go","ripsrc/branches2/process.go"],
 [("traversal stopping at default commits","branchCommits"),("recomputed reachability for merged branches","branchCommits"),("removal of dominated branch points","dedupLinearFromHead")],
 ["ripsrc.BranchesSlice / branches2.Process.RunSlice: Commits, BranchedFromCommits, FirstCommit"])

p("C10","Merged flag, ahead and behind counts are exact",
 "A branch is reported merged exactly when its head is reachable from the default head; its merge commit is then a child of the branch head that is itself reachable from the default head, and empty only when there is none. The ahead count is the number of listed commits; the behind count is the number of commits reachable from the default head but not from the branch head for an unmerged branch that shares history with the default branch, and 0 for a merged branch.",
 ["histories"],"every commit DAG and every pair of default head and branch head",
 "The three behind-count tests use linear forks; overlapping paths and merges in both directions decide whether commits are counted twice or missed.",
 ["ripsrc/branches2/behind_branch.go","ripsrc/branches2/merge_commit.go","ripsrc/branches2/process.go"],
 [("set difference by traversal","behindBranch"),("child lookup","getMergeCommit")],
 ["branches2.Branch: IsMerged, MergeCommit, AheadDefaultCount, BehindDefaultCount"])

p("C11","Every branch and requested pull request is listed exactly once by name",
 "Listing branches yields the default branch first and flagged, then every other local branch (or, in origin mode, every branch of the origin remote except its HEAD pointer and the default branch) exactly once under its full name with its head commit, and every distinct requested pull-request commit present in the repository once, unnamed; requested commits that are not present are skipped. Names are reported intact whatever other refs (tags, remotes, same-named refs) exist, and nothing depends on the level of concurrency.",
 ["inputs","configurations","schedules"],"every set of refs (names with slashes, names shared with tags or remotes, packed or loose), every list of requested commits, every concurrency setting",
 "The tests use plain branch names and no clones with a remote HEAD; name handling depends on which other refs make a short name ambiguous.",
 ["ripsrc/branchmeta/branchmeta.go","ripsrc/branchmeta/default.go","ripsrc/branches2/process.go","ripsrc/branches2/name_hash.go","ripsrc/branches.go"],
 [("ref listing","branchmeta.Get"),("default branch lookup","branchmeta.GetDefault"),("worker pool","branches2.Process.Run")],
 ["ripsrc.BranchesSlice, branches2.Process.RunSlice, branchmeta.Get"])

p("C12","Branch identity is stable while the branch lives and when it is merged",
 "The identifier of a branch that is not merged does not change when ordinary (single-parent) commits are added to the branch, to the default branch or to others, when the default branch is merged into a branch that shares history with it, when other branches whose commits it does not contain are merged into the default branch, when unrelated refs come and go, or when the branch is merged into the default branch by a merge commit; in that last case its listed commits and branch points do not change either. The identifier of a merged branch does not change when ordinary commits are added elsewhere. Two branches get the same identifier only if they have the same name and the same first branch point (for names that do not end in a commit hash), and pull requests get none.",
 ["histories"],"every branch in every history, and every such evolution of the repository",
 "The tests look at one moment of each repository; stability relates two runs over an evolving repository.",
 ["ripsrc/branches2/process.go","ripsrc/branches2/branch_commits.go"],
 [("hash of name and first branch point","branchID"),("reachability cut at the branch head","branchCommits")],
 ["branches2.Branch: BranchID, Commits, BranchedFromCommits before and after an evolution step"])

p("C13","The commit graph mirrors the repository exactly",
 "The commit graph has an entry for exactly the commits reachable from HEAD (with all-branches: from any ref), with each commit's (distinct) parents in recorded order. The children lists are its exact inverse, sorted and without duplicates or omissions, and a commit without children has an empty entry.",
 ["histories","configurations"],"every commit DAG and ref layout, with and without all-branches",
 "Two fixed repositories are checked; octopus merges, several roots and refs outside branches are not.",
 ["ripsrc/parentsgraph/parents.go","ripsrc/parentsgraph/parentsp/parser.go"],
 [("git log of hashes and parents","Graph.gitLogParents"),("inversion","Graph.childrenFromParents")],
 ["parentsgraph.Graph Parents and Children after Read, and NewFromMap"])

p("C14","Line classification is a partition consistent with the totals",
 "For every analysed (not skipped) file each line is exactly one of code, comment or blank, the code, comment and blank totals are the numbers of such lines and add up to the line total, the line total is the number of lines of the file, and the size is its length in bytes with one newline per line. For source made of plain code lines, whole-line comments and blank lines in a supported language each line gets the obvious class, and a file whose comments announce generated code is marked skipped as generated.",
 ["inputs"],"every file content and every supported language",
 "The end-to-end tests check totals of a few short files; the per-line flags come from callbacks of a counting library keyed by line number, which any state carried across lines can shift.",
 ["ripsrc/code_info.go"],
 [("per-line callback","statsProcessor.ProcessLine"),("totals copied from the counter","Ripsrc.codeStats")],
 ["ripsrc.CodeSlice: BlameResult.Lines flags, Loc, Sloc, Comments, Blanks, Size, Skipped"])

p("C15","Files are classified by the documented rules, in order, at exact thresholds",
 "A file is skipped for the first of these that applies: more than 1000000 bytes; recognised licence text in a licence- or readme-named file; configuration file; dot file; a path matching the exclusion list; vendored path outside a top-level src directory; more than 40000 lines; a line longer than 1096 bytes; unknown language. Otherwise it gets its detected language and no skip reason; the outcome depends only on the path and content, never on files examined before.",
 ["inputs"],"every path and content, sizes just around each limit, and every order of calls",
 "Tests probe a few paths; the exclusion list has over a hundred alternatives and the limits are exact boundaries, and the path decision is cached between calls.",
 ["ripsrc/fileinfo/fileinfo.go","ripsrc/fileinfo/license.go","ripsrc/fileinfo/license_enabled.go","ripsrc/fileinfo/gitignore.go","custom_patterns.txt"],
 [("ordered checks","Process.GetInfo"),("cached path check","Process.checkFilePath"),("generated pattern","ignorePatterns")],
 ["fileinfo.Process.GetInfo"])

p("C16","End-to-end code results agree with the history and its metadata",
 "The code analysis yields, for every commit, one record for each regular file the commit changed (relative to its parent; for merges, that differs from every parent), carrying that commit's metadata and, for non-merge commits, the change status; each line of an analysed file carries the commit that introduced it and that commit's author name, email and date, also in incremental runs when that commit lies before the start. A file removed by a non-merge commit yields a record with status removed, and no removed file has lines; a binary file, or one skipped for anything but generated code, yields no lines; the flat and the per-commit interface yield the same records.",
 ["histories","configurations"],"every history, full or incremental, HEAD or all branches, flat or per-commit interface",
 "The end-to-end tests compare a handful of files in fixed repositories; the join between blame data and change records is made per path and silently drops whatever does not match.",
 ["ripsrc/code.go","ripsrc/code_info.go","ripsrc/commit_info.go"],
 [("join of blame and change records","Ripsrc.codeInfoFiles"),("line metadata lookup","Ripsrc.codeInfoFile"),("channel fan-out","Ripsrc.Code / CodeByCommit")],
 ["ripsrc.CodeSlice and ripsrc.CodeByCommit"])

p("C17","Results depend only on repository content, not on its storage or the run",
 "Two runs over the same commits and refs give the same results: repeated runs, a bare or non-bare repository, loose or packed objects and refs, any location of the repository or of the checkpoint directory, any working tree state and any concurrency. Licence detection likewise gives the same answer every time for the same content.",
 ["configurations","schedules"],"every history and every pair of storage layouts, working tree states and concurrency settings",
 "Each test runs each repository once in one layout; sameness relates two runs, and map iteration order makes one run in many differ.",
 ["ripsrc/history3/process/process.go","ripsrc/branches2/process.go","ripsrc/fileinfo/license_enabled.go","ripsrc/ripsrc.go"],
 [("ref and object access through git only","gitexec"),("ordering of map-derived results","processMergeCommit, dedupLinearFromHead, detect")],
 ["canonicalised results of ripsrc.CodeSlice, BranchesSlice and process runs"])

p("C18","Analysis leaves the repository and the system as they were",
 "A run changes nothing in the repository, its refs, index, configuration, objects or working tree, other than the checkpoint directory pp-git-cache inside the repository or, when a checkpoint directory is configured, inside that directory only. It leaves no temporary files or git processes behind, and after a successful run the checkpoint directory holds only the finished checkpoint.",
 ["histories","configurations"],"every repository, run mode and outcome, including failing runs",
 "No test looks at the file system after a run.",
 ["ripsrc/history3/process/process.go","ripsrc/commitmeta/commitmeta.go","ripsrc/gitexec/prepare.go","ripsrc/history3/process/repo/writer.go"],
 [("temporary attributes file","gitLogPatches, commitmeta.gitLog"),("checkpoint location","process.New")],
 ["directory snapshots of repository, temporary directory and checkpoint directory before and after a run"])

p("C19","Failures are reported as errors, never as crashes, hangs or silent gaps",
 "When the repository is missing, empty, not a repository, has a detached or dangling HEAD, lacks objects or has corrupt ones, when git fails, when a start commit is unknown or a checkpoint is missing, foreign or damaged, the call returns an error (or, where the operation does not need what is broken, the full correct result), closes its result channel and leaves the process running. It never presents a truncated result as success and never replaces a good checkpoint by one from a failed run.",
 ["fault_sequences","configurations"],"every such defect of the environment, at every position in the history, for every entry point",
 "The tests only run on intact repositories.",
 ["ripsrc/gitexec/gitexec.go","ripsrc/history3/process/process.go","ripsrc/commitmeta/commitmeta.go","ripsrc/code.go","ripsrc/branches.go","ripsrc/history3/process/repo/reader.go"],
 [("error propagation from git","gitexec.ExecPiped"),("error propagation from parsers","Process.Run, Processor.Run")],
 ["returned error, channel state and process exit of ripsrc.Code, CodeByCommit, Branches, process runs and commitmeta"])

p("C20","Direct blame agrees with git blame",
 "Blaming a file at a commit returns exactly one entry per line of the file in that commit, in order, with the line's content and the commit git blame names for it. This holds for any line content, missing final newlines, empty files, boundary commits and renamed files.",
 ["inputs","histories"],"every file version in every history",
 "Three fixed files are tested; the parser groups porcelain headers by position.",
 ["ripsrc/gitblame2/gitblame.go","ripsrc/gitblame2/parse_output.go"],
 [("porcelain parsing","parseOutput")],
 ["gitblame2.Run"])

p("C21","Applying a parsed diff reproduces the new file and its attribution",
 "For any two versions of a file, parsing git's diff between them and applying it to the blame of the old version gives the lines of the new version, where kept lines keep their attribution and added lines get the new commit; paths, renames, creation, deletion and binary changes are recognised from the diff alone. Applying per-parent diffs of a merge gives the merged lines, each with the attribution of the first parent that carries it, and no input blame is modified.",
 ["inputs"],"every pair of file versions (tuple of versions for merges), any hunk layout, any line content including text that looks like diff syntax",
 "The unit tests hold about thirty fixed diffs.",
 ["ripsrc/history3/incblame/parse.go","ripsrc/history3/incblame/parse_utils.go","ripsrc/history3/incblame/apply.go","ripsrc/history3/incblame/apply_merge2.go"],
 [("hunk parsing","parser.line, parseContext"),("hunk application","Apply"),("candidate merge","ApplyMerge")],
 ["incblame.Parse, Apply, ApplyMerge"])

p("C22","Results do not depend on the user's git configuration",
 "With any git configuration of the user or repository that only affects presentation or diff defaults (prefixes, context size, rename and merge display, decoration, signatures, colours, algorithms, path quoting, encodings, blame options), history, metadata and branch results are the same as with none.",
 ["configurations"],"every combination of such git settings in user or repository configuration",
 "The tests run with whatever configuration the machine has.",
 ["ripsrc/history3/process/process.go","ripsrc/commitmeta/commitmeta.go","ripsrc/gitexec/gitexec.go","ripsrc/gitblame2/gitblame.go"],
 [("explicit git arguments","gitLogPatches, commitmeta.gitLog, gitblame2.Run")],
 ["ripsrc.CodeSlice, BranchesSlice and process runs under generated git configuration, against an empty one"])

p("C23","Cached git output equals direct git output",
 "Running a git command through the cache returns byte for byte what running it directly returns, the first time and every later time, for different argument lists and after HEAD has moved. A failing command returns an error and leaves nothing that a later call would take for its output.",
 ["histories","inputs"],"every sequence of cached and direct calls with any arguments over a repository whose HEAD moves",
 "No test calls the cached variant.",
 ["ripsrc/gitexec/gitexec.go"],
 [("key from arguments and HEAD","ExecWithCache"),("temporary file renamed into place","ExecWithCache")],
 ["gitexec.ExecWithCache, Exec, ExecPiped outputs"])

p("C24","Repository discovery visits exactly the repositories in the tree",
 "Discovery calls back exactly once for each directory, down to the given depth, that contains a .git directory or is named *.git and contains an objects directory, and does not look inside a directory it has reported; everything else is searched. A callback error stops it and is returned; a path that does not exist or is not a directory is an error.",
 ["inputs"],"every directory tree, depth limit and callback outcome",
 "There is no test of discovery over trees mixing bare, non-bare and look-alike directories at several depths.",
 ["ripsrc/pkg/gitrepos/gitrepos.go"],
 [("recursive search","IterDir")],
 ["gitrepos.IterDir callbacks and error"])

p("C25","Files with any legal name are analysed under their exact name",
 "Whatever bytes git allows in a path (spaces, quotes, tabs, newlines, backslashes, braces, arrows, non-ASCII or invalid UTF-8), the file is reported by history processing, change records and code results under exactly that name, with the same content, attribution, status and counts as if it had a plain name, including when it is renamed to or from such a name.",
 ["inputs"],"every history in which some paths use arbitrary legal bytes",
 "Tests cover names with spaces only; git quotes other bytes in three different output formats that are parsed separately.",
 ["ripsrc/history3/incblame/parse_utils.go","ripsrc/history3/incblame/parse.go","ripsrc/commitmeta/commitmeta.go","ripsrc/code_info.go"],
 [("path extraction from diff headers","parseDiffDecl and rename lines"),("path extraction from raw and numstat lines","commitmeta parser, getFilename")],
 ["process runs, commitmeta.RunSlice and ripsrc.CodeSlice over the renamed history, against the plain-named one"])

p("C26","The command line reports success exactly when everything was processed",
 "The command-line tool exits with status 0 exactly when the directory argument contains at least one repository and every repository found was processed without error (repositories whose HEAD has no commit are skipped with a warning), and with a non-zero status and an error message otherwise, also when the arguments are not those of a command. On success it prints one entry per code record of each repository, with the record's commit, file name, language, licence, counts, skip reason, status and author, in the code command, and one line per branch, with its name, number of commits and first commit, in the branches command.",
 ["inputs","configurations"],"every arrangement of valid, empty and broken repositories under the given directory and every start commit",
 "No test runs the command line.",
 ["ripsrc/cmd/cmdcode/cmd.go","ripsrc/cmd/cmdbranches/cmd.go","ripsrc/cmd/cmdutils/errors.go","ripsrc/cmd/cmdutils/repo_run.go","cmd/root.go"],
 [("error collection","cmdcode.Run, cmdbranches.Run"),("exit","cmdutils.ExitWithErr, ExitWithErrs")],
 ["exit status and output of the ripsrc binary"])

p("C27","Dropping processed commits from memory never changes results",
 "In histories longer than the number of processed commits kept in memory and in checkpoints, including long-lived forks that branch from very old commits and are merged late, every reported file still has the correct content and attribution. A run resumed from the checkpoint of such a history reports the same as a full run as long as the commits of its range build on each other, on unfinished commits or on commits among the thousand most recently finished ones (finished: all children were reported); otherwise it reports the same or fails with an error.",
 ["histories"],"every history with more than a thousand commits, any fork lengths and merge points",
 "No test repository comes near the limit at which commits are dropped.",
 ["ripsrc/history3/process/process.go","ripsrc/history3/process/repo/repo.go"],
 [("unloading once all children are processed","Process.trimGraphAfterCommitProcessed, repo.Unloader")],
 ["process runs over generated long histories"],
 [("toUnload","queue of commits that may be dropped","repo.Unloader")])

p("C28","Time and memory stay in proportion to the repository",
 "Every analysis (history, change records, code results, commit graph, branches, pull requests) ends with the right result in time and memory about proportional to the size of the repository: neither the number of paths through the commit graph, which can be exponential in the number of commits, nor the length of the history nor the number of refs, files, lines or parents makes a run over thousands of commits, hundreds of refs, thousands of files or tens of thousands of lines take more than seconds or more than hundreds of megabytes.",
 ["histories"],"every commit graph of hundreds of commits, every history of thousands of commits over hundreds of files and every file of tens of thousands of lines",
 "Test repositories have a handful of commits and lines, where any algorithm is fast.",
 ["ripsrc/branches2/branch_commits.go","ripsrc/branches2/behind_branch.go","ripsrc/branches2/merge_commit.go","ripsrc/history3/process/process.go","ripsrc/history3/incblame/apply.go","ripsrc/parentsgraph/parents.go"],
 [("each commit of the graph is visited once","branchCommits, dedupLinearFromHead, getAllCommits, newReachableFromHead, behindBranch, getMergeCommit"),("lines are copied once per change","incblame.Apply, parser.Run")],
 ["time and memory of runs over generated graphs and files"],
 [("done, hasDeep","memo of the graph searches","branches2"),("repo","blames by commit and file","Process")])

p("C29","Analyses can run side by side and one after the other",
 "Several analyses in one process do not influence each other: runs made at the same time by different objects (on the same or different repositories, with checkpoint directories of their own, with a shared commit graph, with any number of branch workers) and several calls made one after the other on one object over an unchanged repository give the results that each gives alone in a fresh object; results that were delivered can be read while the run goes on and are not changed later; and there is no data race, whatever the interleaving.",
 ["schedules","histories"],"every set of concurrent and consecutive calls and every interleaving of their steps",
 "Tests make one call at a time on a fresh object and are not run with the race detector.",
 ["ripsrc/ripsrc.go","ripsrc/code.go","ripsrc/branches.go","ripsrc/branches2/process.go","ripsrc/history3/process/process.go","ripsrc/history3/process/repo/writer.go","ripsrc/parentsgraph/parents.go","ripsrc/fileinfo/fileinfo.go","ripsrc/gitexec/gitexec.go"],
 [("the commit graph is only read after it was built","branches2.Process, process.Process"),("branch workers share nothing else that is written","branches2.Process.Run: lastErrMu"),("blames that were delivered are not written again","process.processRegularCommit, incblame.Apply")],
 ["results of the same calls made alone in fresh objects","reports of the race detector"],
 [("commitGraph, commitMeta","kept between calls of one object","Ripsrc"),("lastErr","error of branch workers","branches2.Process.Run"),("repo","blames shared with delivered results","Process")])

p("C30","Run statistics count exactly what was reported",
 "After a run that succeeded its statistics agree with its results: the number of regular commits and of merges are those of the commits reported (all interfaces, full and incremental runs), the slowest commits are the ten (or all, if fewer) that took longest, without repetition, longest first, taken from the commits reported, their total and the total times fit together, the number of files processed is the number of records with code information added over the calls of one object, and the printed statistics say the same.",
 ["histories"],"every history, sequence of runs and sequence of durations",
 "No test looks at the statistics.",
 ["ripsrc/history3/process/process.go","ripsrc/code_info.go","ripsrc/code.go"],
 [("each commit is counted once when it is processed","processRegularCommit, processMergeCommit"),("the list of slowest commits is ordered and limited","Timing.UpdateSlowestCommitsWith"),("each file with code information is counted once","codeInfoFile")],
 ["GitProcessTimings and CodeInfoTimings after a run, their printed form, and the results"],
 [("timing","counts and times","process.Process"),("CodeInfoTimings","files and time","Ripsrc")])

p("C31","Changes of the repository during a run never give a mixed result",
 "While a run is in progress one ref or HEAD may change between any two of its git commands (a branch is pushed, created, reset, force-pushed or deleted, another branch is checked out, and possibly back again) or the repository may be repacked or garbage collected. The run (code, history, metadata, commit graph, branches; full or from a checkpoint; one object used for several calls) then ends with an error, or what it reports is exactly what a run over the state before the change or over the state after it reports (the position numbers of commits aside); it never crashes, hangs, or combines both states, such as lines without author, a branch with only part of its commits or the name of one branch with the commits of another. Repacking and garbage collection change nothing and cause no error.",
 ["histories","schedules"],"every repository, one change of a ref, HEAD or the object storage, placed before any git command of the run, optionally undone a few commands later",
 "Tests run over fixed repositories that nobody writes to; the result depends on which of the git commands of a run the change falls between.",
 ["ripsrc/code.go","ripsrc/code_info.go","ripsrc/commit_info.go","ripsrc/history3/process/process.go","ripsrc/branches2/process.go","ripsrc/branches2/name_hash.go","ripsrc/branchmeta/default.go"],
 [("commits of the log have to be in the graph read before","process.Process.Run"),("commits of the log and of lines have to be in the metadata","CodeByCommit, codeInfoFile"),("heads have to be in the graph","branches2.Process.checkInGraph"),("HEAD is resolved once","branchmeta.GetDefault")],
 ["results and errors of CodeByCommit, Code, Branches, process.RunGetAll, commitmeta and parentsgraph"],
 [("commitGraph","parents and children read at the start","Ripsrc"),("commitMeta","metadata by commit","Ripsrc")])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
