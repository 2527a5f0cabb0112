module harness

require (
	github.com/bmatcuk/doublestar v1.2.2
	github.com/lyraproj/dgo v0.4.4
	github.com/lyraproj/dgoyaml v0.4.4
	github.com/lyraproj/hierasdk v0.4.4
	github.com/niemeyer/pretty v0.0.0-20200227124842-a10e7caefd8e // indirect
	github.com/sirupsen/logrus v1.4.2
	github.com/spf13/cobra v0.0.6
	github.com/stretchr/testify v1.5.1
	golang.org/x/sys v0.0.0-20200302150141-5c8b2ff67527
	gopkg.in/check.v1 v1.0.0-20200227125254-8fa46927fb4f // indirect
	gopkg.in/yaml.v3 v3.0.0-20200121175148-a6ecf24a6d71
)

go 1.13
require github.com/lyraproj/hiera v0.0.0
replace github.com/lyraproj/hiera => /repo
