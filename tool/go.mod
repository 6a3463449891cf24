module verif.local/tool

go 1.24.0

require (
	github.com/Masterminds/sprig/v3 v3.2.2
	golang.org/x/mod v0.29.0
	golang.org/x/sync v0.18.0
	golang.org/x/tools v0.38.0
)

require (
	github.com/Masterminds/goutils v1.1.1 // indirect
	github.com/Masterminds/semver/v3 v3.1.1 // indirect
	github.com/google/uuid v1.3.0 // indirect
	github.com/huandu/xstrings v1.3.2 // indirect
	github.com/imdario/mergo v0.3.12 // indirect
	github.com/mitchellh/copystructure v1.1.2 // indirect
	github.com/mitchellh/reflectwalk v1.0.1 // indirect
	github.com/shopspring/decimal v1.2.0 // indirect
	github.com/spf13/cast v1.4.1 // indirect
	golang.org/x/crypto v0.45.0 // indirect
)
