module verif.local/sim

go 1.27

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/gin-gonic/gin v1.6.2
	github.com/satori/go.uuid v1.2.0
	github.com/thesues/cannyls-go v0.0.0
	go.opencensus.io v0.22.1
)

require (
	contrib.go.opencensus.io/exporter/prometheus v0.1.0 // indirect
	github.com/beorn7/perks v1.0.1 // indirect
	github.com/dustin/go-humanize v1.0.0 // indirect
	github.com/gin-contrib/pprof v1.3.0 // indirect
	github.com/gin-contrib/sse v0.1.0 // indirect
	github.com/gin-contrib/static v0.0.0-20190511124741-c1cdf9c9ec7b // indirect
	github.com/go-playground/locales v0.13.0 // indirect
	github.com/go-playground/universal-translator v0.17.0 // indirect
	github.com/go-playground/validator/v10 v10.2.0 // indirect
	github.com/golang/groupcache v0.0.0-20190702054246-869f871628b6 // indirect
	github.com/golang/protobuf v1.3.3 // indirect
	github.com/google/btree v1.0.0 // indirect
	github.com/klauspost/readahead v1.3.0 // indirect
	github.com/leodido/go-urn v1.2.0 // indirect
	github.com/mattn/go-isatty v0.0.12 // indirect
	github.com/matttproud/golang_protobuf_extensions v1.0.1 // indirect
	github.com/phf/go-queue v0.0.0-20170504031614-9abe38d0371d // indirect
	github.com/pkg/errors v0.8.1 // indirect
	github.com/prometheus/client_golang v1.1.0 // indirect
	github.com/prometheus/client_model v0.0.0-20190812154241-14fe0d1b01d4 // indirect
	github.com/prometheus/common v0.6.0 // indirect
	github.com/prometheus/procfs v0.0.4 // indirect
	github.com/thesues/go-judy v0.1.3 // indirect
	github.com/ugorji/go/codec v1.1.7 // indirect
	github.com/urfave/cli v1.20.0 // indirect
	golang.org/x/sys v0.0.0-20200116001909-b77594299b42 // indirect
	gopkg.in/yaml.v2 v2.2.8 // indirect
)

replace github.com/thesues/cannyls-go => /repo
