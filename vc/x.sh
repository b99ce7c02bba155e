cd /verif && . /opt/vp/lib/env.sh && build/gossa -dir /verif/spec/v6 -prefix github.com/yaacov/tree-search-language/v6/pkg,verif/spec6,verif/gh -o /tmp/s6.json ./... github.com/yaacov/tree-search-language/v6/pkg/walkers/...
