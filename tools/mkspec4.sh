#!/bin/bash
# makes spec/v4 (the contracts of the v4 module) of spec/v5
cd "$(dirname "$0")/../spec" || exit 1
mkdir -p v4
for f in $(cd v5 && find . -name '*.go' -o -name go.mod); do
  g=${f//h5/h4}
  mkdir -p "v4/$(dirname "$g")"
  sed -e 's#tree-search-language/v5#tree-search-language/v4#g; s#verif/spec5#verif/spec4#g; s#v5 v5.0.0#v4 v4.0.0#; s#antlr4 v0.0.0-20200712162734-eb1adaa8a7a6#antlr4 v0.0.0-20190518164840-edae2a1c9b4b#; s#squirrel v1.4.0#squirrel v1.1.0#; s#/repo/v5#/repo/v4#; s#^const Full = true#const Full = false#; s#\bv5\b#v4#g; s#\bh5\b#h4#g' "v5/$f" | sed -e 's#tools/mkspec4.sh makes#spec/v5 is what it is made of#' > "v4/$g"
done
cp /opt/vp/gomod/v4/go.sum v4/go.sum 2>/dev/null || true
