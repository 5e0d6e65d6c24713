c("C04", "property-based testing: generated history growth and start points, differential against one full run",
  "Stateful: a generated repository grows in stages, each stage runs incrementally from the previous checkpoint; the oracle is one full run over the grown repository.")
c("C05", "property-based testing: generated blame databases, round trip through the checkpoint",
  "Writes and reads generated databases (shared files, shared and colliding lines, empty commits) over whatever was stored before.")
c("C06", "property-based testing with fault injection at every file operation of generated checkpoint writes (ptrace)",
  "Every file operation of the write is enumerated for each generated pair of databases; process death between operations and failing or short operations, not reordering of unsynced disk writes.", "exploration")
c("C07", "property-based testing: generated commit headers against the header that git stores",
  "Hostile names, emails, subjects, dates, time zones and encodings; the oracle is the generated commit as git stores it.")
c("C08", "property-based testing: generated histories against git diff-tree's NUL-separated change list",
  "The oracle reads git's -z raw and numstat formats, which need no unquoting; regular files only.")
c("C09", "property-based testing: generated commit graphs against set-based reachability",
  "Naive reachability with a cut at the branch head over DAGs of up to 16 commits.")
c("C10", "property-based testing: generated commit graphs against set-based reachability",
  "Merged flag, merge commit, ahead and behind counts from set differences.")
c("C11", "property-based testing: generated ref layouts against the list of refs the generator wrote",
  "Ref names that are ambiguous with tags, remotes or other heads, packed or loose, several concurrency levels.")
c("C12", "property-based testing: metamorphic relation between runs over a generated evolution of a repository",
  "Evolution steps of the stated kinds; identifiers before and after are compared, and those of branches whose names hardly differ (case, accents, prefixes, separators, ends of long names) at the same branch point.")
c("C13", "property-based testing: generated commit graphs against the generator's own parents map",
  "Parents and children compared for HEAD and all refs, and for maps given directly.")
c("C20", "property-based testing: generated histories, differential against git blame --porcelain of the harness's own",
  "Content is also compared with the stored blob; line contents that imitate blame headers, files without final newline, renames, boundary commits.")
c("C21", "property-based testing: generated pairs of file versions and merges, differential against the new version's own lines",
  "The diffs are git's own; the expected attribution is read from the hunks by an independent parser and the result must reproduce the stored blob.")
c("C23", "stateful property-based testing: generated command sequences, moves of HEAD and failing git, differential against direct output",
  "Argument lists that are easily taken for each other; parallel callers; git cut short after part of its output.")
c("C24", "property-based testing: generated directory trees against a recursive definition of what is a repository",
  "Trees with links, files in place of directories, nested repositories, several path forms, failing callbacks.")
c("C14", "property-based testing: source generated from a grammar with known line classes, and invariants over arbitrary text",
  "22 languages with generated code, comment and blank lines; partition and totals for token soup in about 85 file types. Trusts scc for what is a token.")
c("C15", "property-based testing: generated paths and contents around every threshold against an independent implementation of the rules",
  "Exclusion patterns are matched one by one from a copy of the documented list; enry and the licence detector are trusted for their own part.")
c("C16", "property-based testing: generated histories, full and incremental runs against the history and metadata models",
  "Both interfaces; each record's status, language, skip reason, line attribution and author are compared with what the generator stored.")
c("C25", "property-based testing: generated histories over hostile file names against the same models as C01-C03, C08 and C16",
  "About 75 names that git or a parser may treat specially, ambiguous rename notations and random bytes; the oracle is the model, not a run with plain names.")
c("C17", "property-based testing: metamorphic relation between runs over one repository stored and run in different ways",
  "Changes of storage, place, worktree, checkpoint directory and concurrency in sequence; all results compared with those of the first run. Licence detection repeated in several orders and in parallel. Attribute files are left out: they are content.")
c("C22", "property-based testing: metamorphic relation between runs without and with generated git configuration",
  "About 115 settings in user and repository configuration, presentation variables of the environment; all results compared with those of an empty configuration.")
c("C18", "stateful property-based testing: generated sequences of runs, some with injected faults, against snapshots of the file system",
  "Snapshots by content of the repository, home, temporary and checkpoint directories around every run; processes, environment and working directory as well. Time stamps are not compared.")
c("C19", "property-based testing with injected faults: damaged repositories, checkpoints, git and file system, differential against the undisturbed run",
  "A run must give an error or the undisturbed result, end, leave no process, keep the checkpoint, and work again afterwards; crashes and hangs are caught in a separate worker process.")
c("C26", "property-based testing: generated directories of valid, empty and broken repositories and of repositories with licences, runs of the built binary against the library's results on copies",
  "Exit status, error naming, and every printed entry are compared; the library itself is the oracle for the content of entries, which C16 and C09-C12 decide.")
c("C27", "property-based testing: histories of 1000 to 2500 commits expanded from generated scripts of runs, forks and merges, against the models of C01-C03",
  "Forks from any point of the old part merged late, resumed runs whose commits build on commits close to the limit; contents are expanded from a drawn seed.")
c("C28", "property-based testing: generated commit graphs with exponentially many paths and large generated files and trees, with limits on processor time and memory and the models of C01-C03 and C09-C16 as oracle",
  "Per case limits of 60 s of processor time and 2 GB, observed about 1 s and 160 MB; the heap in use in a long history over many files is limited to 200 MB, observed 75 MB; slowness that stays below them at these sizes is not seen.")
c("C29", "property-based testing: generated sets of concurrent and consecutive calls under the race detector, differential against each call made alone",
  "Threads of calls on the same or different repositories, objects used again, shared commit graphs, results read while the run goes on; the harness is built with -race and every report is a violation. The schedules are those that the Go scheduler produces. One object used by two callers at the same time and one checkpoint directory used by two runs at the same time are not promised.")
c("C30", "property-based testing: generated histories and sequences of durations, statistics against the results of the same run and a sorted-list model",
  "Full and incremental runs, both interfaces, one object used twice; the times are real, so only relations between them are checked in runs and exact values for given durations.")
c("C31", "property-based testing with injected changes: generated repositories, runs and one change of a ref, HEAD or the storage placed before any git command of the run, differential against runs over the state before and after",
  "The change is made by a wrapper of git that counts the commands of the run, so its place is exact and repeatable; changes during a command are not made (git resolves refs at its start). Several changes of different refs during one run are left out, no sequence of git commands gives one state then.")
