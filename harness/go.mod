module verifharness

go 1.14

require (
	github.com/arl/assertgo v0.0.0-20180702120748-a1be5afdc871
	github.com/arl/go-detour v0.0.0
	github.com/arl/gobj v0.0.0-20180702120947-e436584cd5ac
	github.com/arl/gogeo v0.0.0-20200405111831-9d419f5f7a90
	github.com/arl/math32 v0.2.0
	gopkg.in/yaml.v2 v2.2.8
)

replace github.com/arl/go-detour => /repo
