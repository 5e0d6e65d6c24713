// Gopkg.lock (dep) as a Go module: see /opt/vp/BUILD.json. The replace lines
// hold each module at its locked version whatever the others ask for.
module verif/harness

go 1.23

require (
	github.com/pinpt/ripsrc v0.0.0
	pgregory.net/rapid v1.3.0
	github.com/boyter/scc v2.4.0+incompatible
	github.com/cespare/xxhash v1.1.0
	github.com/davecgh/go-spew v1.1.1
	github.com/dgryski/go-minhash v0.0.0-20190315135803-ad340ca03076
	github.com/ekzhu/minhash-lsh v0.0.0-20171225071031-5c06ee8586a1
	github.com/emirpasic/gods v1.12.0
	github.com/fatih/color v1.7.0
	github.com/hhatto/gorst v0.0.0-20181029133204-ca9f730cac5b
	github.com/inconshreveable/mousetrap v1.0.0
	github.com/jbenet/go-context v0.0.0-20150711004518-d14ea06fba99
	github.com/jdkato/prose v1.1.0
	github.com/karrick/godirwalk v1.10.12
	github.com/kevinburke/ssh_config v0.0.0-20180830205328-81db2a75821e
	github.com/mattn/go-colorable v0.0.9
	github.com/mattn/go-isatty v0.0.8
	github.com/mitchellh/go-homedir v1.1.0
	github.com/monochromegane/go-gitignore v0.0.0-20160105113617-38717d0a108c
	github.com/montanaflynn/stats v0.5.0
	github.com/pelletier/go-buffruneio v0.2.0
	github.com/philhofer/fwd v1.0.0
	github.com/pkg/errors v0.8.1
	github.com/pkg/profile v1.3.0
	github.com/pmezard/go-difflib v1.0.0
	github.com/sergi/go-diff v1.0.0
	github.com/shogo82148/go-shuffle v0.0.0-20180218125048-27e6095f230d
	github.com/shurcooL/sanitized_anchor_name v1.0.0
	github.com/spf13/cobra v0.0.5
	github.com/spf13/pflag v1.0.3
	github.com/src-d/gcfg v1.4.0
	github.com/stretchr/testify v1.3.0
	github.com/tinylib/msgp v1.1.0
	github.com/toqueteos/trie v1.0.0
	github.com/xanzy/ssh-agent v0.2.1
	golang.org/x/crypto v0.0.0-20190701094942-4def268fd1a4
	golang.org/x/exp v0.0.0-20190627132806-fd42eb6b336f
	golang.org/x/net v0.0.0-20190628185345-da137c7871d7
	golang.org/x/sys v0.0.0-20190626221950-04f50cda93cb
	golang.org/x/text v0.3.2
	gonum.org/v1/gonum v0.6.0
	gopkg.in/neurosnap/sentences.v1 v1.0.6
	gopkg.in/russross/blackfriday.v2 v2.0.1
	gopkg.in/src-d/enry.v1 v1.7.3
	gopkg.in/src-d/go-billy-siva.v4 v4.5.1
	gopkg.in/src-d/go-billy.v4 v4.3.1
	gopkg.in/src-d/go-git.v4 v4.7.0
	gopkg.in/src-d/go-license-detector.v2 v2.0.0-20180510072912-da552ecf050b
	gopkg.in/src-d/go-siva.v1 v1.5.0
	gopkg.in/toqueteos/substring.v1 v1.0.2
	gopkg.in/warnings.v0 v0.1.2
)

replace (
	github.com/pinpt/ripsrc => /repo
	github.com/boyter/scc => github.com/boyter/scc v2.4.0+incompatible
	github.com/cespare/xxhash => github.com/cespare/xxhash/v2 v2.0.0
	github.com/davecgh/go-spew => github.com/davecgh/go-spew v1.1.1
	github.com/dgryski/go-minhash => github.com/dgryski/go-minhash v0.0.0-20190315135803-ad340ca03076
	github.com/ekzhu/minhash-lsh => github.com/ekzhu/minhash-lsh v0.0.0-20171225071031-5c06ee8586a1
	github.com/emirpasic/gods => github.com/emirpasic/gods v1.12.0
	github.com/fatih/color => github.com/fatih/color v1.7.0
	github.com/hhatto/gorst => github.com/hhatto/gorst v0.0.0-20181029133204-ca9f730cac5b
	github.com/inconshreveable/mousetrap => github.com/inconshreveable/mousetrap v1.0.0
	github.com/jbenet/go-context => github.com/jbenet/go-context v0.0.0-20150711004518-d14ea06fba99
	github.com/jdkato/prose => github.com/jdkato/prose v1.1.0
	github.com/karrick/godirwalk => github.com/karrick/godirwalk v1.10.12
	github.com/kevinburke/ssh_config => github.com/kevinburke/ssh_config v0.0.0-20180830205328-81db2a75821e
	github.com/mattn/go-colorable => github.com/mattn/go-colorable v0.0.9
	github.com/mattn/go-isatty => github.com/mattn/go-isatty v0.0.8
	github.com/mitchellh/go-homedir => github.com/mitchellh/go-homedir v1.1.0
	github.com/monochromegane/go-gitignore => github.com/monochromegane/go-gitignore v0.0.0-20160105113617-38717d0a108c
	github.com/montanaflynn/stats => github.com/montanaflynn/stats v0.5.0
	github.com/pelletier/go-buffruneio => github.com/pelletier/go-buffruneio v0.2.0
	github.com/philhofer/fwd => github.com/philhofer/fwd v1.0.0
	github.com/pkg/errors => github.com/pkg/errors v0.8.1
	github.com/pkg/profile => github.com/pkg/profile v1.3.0
	github.com/pmezard/go-difflib => github.com/pmezard/go-difflib v1.0.0
	github.com/sergi/go-diff => github.com/sergi/go-diff v1.0.0
	github.com/shogo82148/go-shuffle => github.com/shogo82148/go-shuffle v0.0.0-20180218125048-27e6095f230d
	github.com/shurcooL/sanitized_anchor_name => github.com/shurcooL/sanitized_anchor_name v1.0.0
	github.com/spf13/cobra => github.com/spf13/cobra v0.0.5
	github.com/spf13/pflag => github.com/spf13/pflag v1.0.3
	github.com/src-d/gcfg => github.com/src-d/gcfg v1.4.0
	github.com/stretchr/testify => github.com/stretchr/testify v1.3.0
	github.com/tinylib/msgp => github.com/tinylib/msgp v1.1.0
	github.com/toqueteos/trie => github.com/toqueteos/trie v1.0.0
	github.com/xanzy/ssh-agent => github.com/xanzy/ssh-agent v0.2.1
	golang.org/x/crypto => golang.org/x/crypto v0.0.0-20190701094942-4def268fd1a4
	golang.org/x/exp => golang.org/x/exp v0.0.0-20190627132806-fd42eb6b336f
	golang.org/x/net => golang.org/x/net v0.0.0-20190628185345-da137c7871d7
	golang.org/x/sys => golang.org/x/sys v0.0.0-20190626221950-04f50cda93cb
	golang.org/x/text => golang.org/x/text v0.3.2
	gonum.org/v1/gonum => gonum.org/v1/gonum v0.6.0
	gopkg.in/neurosnap/sentences.v1 => gopkg.in/neurosnap/sentences.v1 v1.0.6
	gopkg.in/russross/blackfriday.v2 => github.com/russross/blackfriday/v2 v2.0.1
	gopkg.in/src-d/enry.v1 => gopkg.in/src-d/enry.v1 v1.7.3
	gopkg.in/src-d/go-billy-siva.v4 => gopkg.in/src-d/go-billy-siva.v4 v4.5.1
	gopkg.in/src-d/go-billy.v4 => gopkg.in/src-d/go-billy.v4 v4.3.1
	gopkg.in/src-d/go-git.v4 => gopkg.in/src-d/go-git.v4 v4.7.0
	gopkg.in/src-d/go-license-detector.v2 => gopkg.in/src-d/go-license-detector.v2 v2.0.0-20180510072912-da552ecf050b
	gopkg.in/src-d/go-siva.v1 => gopkg.in/src-d/go-siva.v1 v1.5.0
	gopkg.in/toqueteos/substring.v1 => gopkg.in/toqueteos/substring.v1 v1.0.2
	gopkg.in/warnings.v0 => gopkg.in/warnings.v0 v0.1.2
)
